//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include der_types.inc
//@include der_spec.inc
//@include der_contract.inc
//@include slice_len.inc
//@include sig_spec.inc
//@include x509_types.inc
//@item utils/x509.rs struct X509Builder
//@item utils/x509.rs enum ParsingState derive=PartialEq,Eq,Structural,Clone,Copy
//@item utils/x509.rs const MAX_DEPTH
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
    // proved in unit bytesint
    #[verifier::external_body]
    fn to_u128_be_fill(b: &[u8]) -> (r: u128) ensures b@.len() <= 16 ==> r == bei(b@), { unimplemented!() }
    // proved in unit bytesnum
    #[verifier::external_body]
    fn to_ibig_be(b: &[u8]) -> (r: IBig) requires b@.len() < 0x1000_0000_0000_0000, ensures r.v@ == bei(b@), { unimplemented!() }
}
fn der_parse(consumed: &mut usize, data: &[u8]) -> (r: Result<(usize, EncodedForm), ParseError>)
    requires *old(consumed) <= data@.len(),
    ensures
        r is Ok ==> *old(consumed) < data@.len() && der_elem(data@, *old(consumed) as int) == Some((r->Ok_0.0 as int, *final(consumed) as int)) && form_ok(data@[*old(consumed) as int], r->Ok_0.1),
        r is Ok ==> *old(consumed) + 2 <= *final(consumed) && *final(consumed) + r->Ok_0.0 <= data@.len(),
{ der::der_parse(consumed, data) }
impl Signature {
    // proved in unit sig
    #[verifier::external_body]
    fn from_der(buf: &[u8]) -> (z: Result<(Signature, usize), ParseError>)
        requires buf@.len() < 0x1000_0000_0000_0000,
        ensures z is Ok ==> sig_at(buf@) == Some((z->Ok_0.0.r.v@, z->Ok_0.0.s.v@, z->Ok_0.1 as int)), z is Err ==> sig_at(buf@) is None,
    { unimplemented!() }
}
impl UtcTime {
    // proved in unit x509time
    #[verifier::external_body]
    fn from_utc_timestamp(t: &VString) -> (r: Option<UtcTime>) ensures r is Some ==> real(r->0), { unimplemented!() }
}
/// `b.get(n..).unwrap_or(&[])`
fn vx_tail(b: &[u8], n: usize) -> (r: &[u8]) ensures r@ == (if n <= b@.len() { b@.subrange(n as int, b@.len() as int) } else { Seq::<u8>::empty() }), { if n <= b.len() { &b[n..] } else { let e: &[u8; 0] = &[]; e } }
fn vx_subvec(b: &[u8], a: usize, e: usize) -> (r: Vec<u8>) requires a <= e <= b@.len(), ensures r@ == b@.subrange(a as int, e as int), { (&b[a..e]).to_vec() }
impl Validity {
//@fn utils/x509.rs impl Validity :: fn new
//@ret r
//@spec
    ensures r.not_before is None, r.not_after is None,
//@endfn
}
//@fn utils/x509.rs fn parse_object_identifier
//@ret r
//@intern
//@subst `Result<String, ParseError>` => `Result<u64, ParseError>`
//@spec
    ensures
        r is Ok ==> (r->Ok_0 == {{ID:ecdsaWithSHA256}} ==> oid_is(id@, 0x2a8648ce3d040302)),
        r is Ok ==> (r->Ok_0 == {{ID:ecdsaWithSHA384}} ==> oid_is(id@, 0x2a8648ce3d040303)),
        r is Ok ==> (r->Ok_0 == {{ID:ecPublicKey}} ==> oid_is(id@, 0x2a8648ce3d0201)),
        r is Ok ==> (r->Ok_0 == {{ID:prime256v1}} ==> oid_is(id@, 0x2a8648ce3d030107)),
        r is Ok ==> (r->Ok_0 == {{ID:sha256WithRSAEncryption}} ==> oid_is(id@, 0x2a864886f70d01010b) || oid_is(id@, 0x2a864886f70d010101)),
//@endfn
impl Algorithms {
//@fn utils/x509.rs impl Algorithms :: fn new
//@ret r
//@intern
//@subst `s: &str` => `s: &u64`
//@resub `match s \{` => `match *s {`
//@spec
    ensures r is Ok ==> *s == (match r->Ok_0 { Algorithms::EcdsaWithSha256 => {{ID:ecdsaWithSHA256}}, Algorithms::EcdsaWithSha384 => {{ID:ecdsaWithSHA384}}, Algorithms::EcPublicKey => {{ID:ecPublicKey}}, Algorithms::Sha256WithRSAEncryption => {{ID:sha256WithRSAEncryption}} }),
//@endfn
}
impl AlgorithmIdentifier {
//@fn utils/x509.rs impl AlgorithmIdentifier :: fn new
//@ret r
//@spec
    ensures r.algorithm == algorithm, r.parameters is None,
//@endfn
}
impl SubjectPublicKeyInfoBuilder {
//@fn utils/x509.rs impl SubjectPublicKeyInfoBuilder :: fn new
//@ret r
//@spec
    ensures r.algorithm is None, r.subject_public_key is None,
//@endfn
//@fn utils/x509.rs impl SubjectPublicKeyInfoBuilder :: fn build
//@ret r
//@spec
    ensures r is Ok ==> self.algorithm == Some(r->Ok_0.algorithm) && self.subject_public_key == Some(r->Ok_0.subject_public_key),
//@endfn
}
impl BitString {
//@fn utils/x509.rs impl BitString :: fn as_slice
//@ret r
//@spec
    ensures r@ == self.0@,
//@endfn
}
impl Name {
//@fn utils/x509.rs impl Name :: fn new
//@subst `HashMap::new` => `VMap::new`
//@endfn
//@fn utils/x509.rs impl Name :: fn add_object_identifier
//@ret r
//@endfn
//@fn utils/x509.rs impl Name :: fn add_value
//@ret r
//@subst `value: String` => `value: VString`
//@subst `name.to_string()` => `*name` opt
//@endfn
}
impl TBSCertificateBuilder {
//@fn utils/x509.rs impl TBSCertificateBuilder :: fn new
//@ret r
//@spec
    ensures r.raw_data is None, r.validity.not_before is None, r.validity.not_after is None,
//@endfn
//@fn utils/x509.rs impl TBSCertificateBuilder :: fn is_complete
//@ret r
//@spec
    ensures r == tbs_complete(*self),
//@endfn
//@fn utils/x509.rs impl TBSCertificateBuilder :: fn build
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.raw_data == self.raw_data && r->Ok_0.validity == self.validity && self.serial_number is Some && r->Ok_0.serial_number == self.serial_number->0 && r->Ok_0.subject == self.subject && r->Ok_0.issuer == self.issuer
        && self.subject_public_key_info.algorithm == Some(r->Ok_0.subject_public_key_info.algorithm) && self.subject_public_key_info.subject_public_key == Some(r->Ok_0.subject_public_key_info.subject_public_key),
//@endfn
}
pub open spec fn tbs_complete(t: TBSCertificateBuilder) -> bool {
    t.serial_number is Some && t.signature is Some && t.validity.not_before is Some && t.validity.not_after is Some && t.subject_public_key_info.subject_public_key is Some
        && t.subject_public_key_info.algorithm is Some && t.subject_public_key_info.algorithm->0.parameters is Some
}
impl Version {
//@fn utils/x509.rs impl Version :: fn parse
//@ret r
//@endfn
}
impl X509Builder {
//@fn utils/x509.rs impl X509Builder :: fn new
//@ret r
//@spec
    ensures r.tbs_certificate_size == 0, !r.signed_part_parsed, r.signature is None, r.signature_algorithm is None, r.tbs_certificate.raw_data is None, real_times(r.tbs_certificate.validity),
//@endfn
//@fn utils/x509.rs impl X509Builder :: fn build
//@ret r
//@spec
    ensures r is Ok ==> self.signature_algorithm == Some(r->Ok_0.signature_algorithm) && r->Ok_0.signature == self.signature && r->Ok_0.tbs_certificate_size == self.tbs_certificate_size
        && r->Ok_0.tbs_certificate.raw_data == self.tbs_certificate.raw_data && r->Ok_0.tbs_certificate.validity == self.tbs_certificate.validity,
//@endfn
}
/// the state of the parser that has used c bytes of d
pub open spec fn inv(b: X509Builder, d: Seq<u8>, c: int) -> bool {
    let size = b.tbs_certificate_size as int; let e = b0(d) + size;
    &&& 0 <= c <= d.len() && real_times(b.tbs_certificate.validity)
    &&& !b.signed_part_parsed ==> b.signature is None && b.signature_algorithm is None
    &&& size == 0 ==> !b.signed_part_parsed && c == 0
    &&& size >= 1 ==> d.len() > 0 && d[0] == 0x30 && der_elem(d, 0) is Some
    &&& size == 1 ==> !b.signed_part_parsed && c == b0(d)
    &&& size >= 2 ==> 0 <= b0(d) < d.len() && d[b0(d)] == 0x30 && der_elem(d, b0(d)) is Some && at(d, b0(d)).0 + at(d, b0(d)).1 == e <= d.len() && b.tbs_certificate.raw_data is Some && b.tbs_certificate.raw_data->0@ == d.subrange(b0(d), e)
    &&& b.signed_part_parsed ==> c >= e && tbs_complete(b.tbs_certificate)
    &&& b.signature_algorithm is Some ==> alg_behind(d, e, b.signature_algorithm->0)
    &&& b.signature is Some ==> sig_behind(d, e, b.signature->0)
}
/// what parsing one more element keeps
pub open spec fn step(b: X509Builder, a: X509Builder, d: Seq<u8>, c: int, n: int) -> bool {
    &&& c + 2 <= n
    &&& a.tbs_certificate_size >= 1
    &&& b.tbs_certificate_size >= 1 ==> a.tbs_certificate_size >= 2
    &&& b.tbs_certificate_size >= 2 ==> a.tbs_certificate_size == b.tbs_certificate_size && a.tbs_certificate.raw_data == b.tbs_certificate.raw_data && a.signed_part_parsed == b.signed_part_parsed
    // once the signed part was parsed nothing changes what it says
    &&& b.signed_part_parsed ==> a.tbs_certificate == b.tbs_certificate
}
//@fn utils/x509.rs fn parse
//@ret r
//@subst `state.clone()` => `state` opt all
//@resub `\bint\b` => `int_` opt
//@resub `body\.get\(2\.\.\)\s*\.unwrap_or\(&\[\]\)` => `vx_tail(body, 2)` opt
//@subst `String::from_utf8` => `VString::from_utf8` opt all
//@subst `data[start..*consumed + size].to_vec()` => `vx_subvec(data, start, *consumed + size)` opt
//@subst `body[1..].to_vec()` => `vx_subvec(body, 1, body.len())` opt
//@spec
    requires data@.len() < 0x1000_0000_0000_0000, inv(*old(res), data@, *old(consumed) as int), depth <= MAX_DEPTH + 1,
        old(res).tbs_certificate_size < 2 || old(res).signed_part_parsed ==> state == ParsingState::Init,
    ensures
        r is Ok ==> inv(*final(res), data@, *final(consumed) as int),
        r is Ok ==> step(*old(res), *final(res), data@, *old(consumed) as int, *final(consumed) as int),
    decreases MAX_DEPTH + 2 - depth,
//@start
    let ghost g0 = *res; let ghost c0 = *consumed as int;
    proof { axiom_slice_len(data); }
//@after `let body` opt
    proof { assert(body@ =~= content(data@, c0)); assert(data@[c0] == data@[start as int]); }
//@in 0 start
    let ghost g1 = *res; let ghost c1 = *consumed as int;
//@loop 0
    invariant
        data@.len() < 0x1000_0000_0000_0000, depth <= MAX_DEPTH, size_should <= data@.len(),
        g0.tbs_certificate_size < 2 || g0.signed_part_parsed ==> state == ParsingState::Init,
        res.tbs_certificate_size >= 1, inv(*res, data@, *consumed as int), c0 + 2 <= *consumed,
        g0.tbs_certificate_size >= 2 ==> step(g0, *res, data@, c0, *consumed as int),
        is_tbs_certificate == (g0.tbs_certificate_size == 1),
        is_tbs_certificate ==> res.tbs_certificate_size == size_should - c0 && res.tbs_certificate_size >= 2 && c0 == b0(data@) && !res.signed_part_parsed && c0 + res.tbs_certificate_size == size_should,
    decreases data@.len() - *consumed,
//@loop 1
    invariant
        data@.len() < 0x1000_0000_0000_0000, depth <= MAX_DEPTH,
        !g0.signed_part_parsed, g0.tbs_certificate_size >= 2, res.tbs_certificate_size >= 2, inv(*res, data@, *consumed as int), c0 + 2 <= *consumed,
        step(g0, *res, data@, c0, *consumed as int),
    decreases data@.len() - *consumed,
//@endfn
impl X509 {
//@fn utils/x509.rs impl X509 :: fn from_raw
//@ret r
//@spec
    requires data@.len() < 0x1000_0000_0000_0000,
    ensures r is Ok ==> cert_of(data@, r->Ok_0),
//@endfn
}
}
fn main() {}
