// ---- certificate types; texts are numbers (interned literals) or opaque ----
#[verifier::external_body]
struct VString { p: usize }
impl VString {
    uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn from_utf8(v: Vec<u8>) -> (r: Result<VString, ()>) ensures r is Ok ==> r->Ok_0.b() == v@, { unimplemented!() }
}
/// HashMap<String, String> (std), opaque
#[verifier::external_body]
struct VMap { p: usize }
impl VMap {
    #[verifier::external_body] fn new() -> VMap { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: u64, v: VString) { unimplemented!() }
}
//@item utils/x509.rs struct UtcTime
//@item utils/x509.rs struct Validity
//@item utils/x509.rs enum Algorithms derive=PartialEq,Eq,Structural
//@item utils/x509.rs struct AlgorithmIdentifier `String` => `u64`
//@item utils/x509.rs struct BitString
//@item utils/x509.rs struct SubjectPublicKeyInfo
//@item utils/x509.rs struct SubjectPublicKeyInfoBuilder
//@item utils/x509.rs type Oid
//@item utils/x509.rs type OctetString
//@item utils/x509.rs struct Extension
//@item utils/x509.rs struct Extensions
//@item utils/x509.rs struct Name `HashMap<String, String>` => `VMap` `Option<String>` => `Option<u64>`
//@item utils/x509.rs enum Version
//@item utils/x509.rs struct TBSCertificate
//@item utils/x509.rs struct TBSCertificateBuilder
//@item crypto/ellipticcurve/signature.rs struct Signature
//@item utils/x509.rs struct X509
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn mlen(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
pub open spec fn real(t: UtcTime) -> bool { 1 <= t.month <= 12 && 1 <= t.day <= mlen(t.year as int, t.month as int) && t.hour <= 23 && t.minute <= 59 && t.second <= 59 }
pub open spec fn real_times(v: Validity) -> bool { (v.not_before is Some ==> real(v.not_before->0)) && (v.not_after is Some ==> real(v.not_after->0)) }
pub open spec fn n0(d: Seq<u8>) -> int { (der_elem(d, 0)->0).0 }
pub open spec fn b0(d: Seq<u8>) -> int { (der_elem(d, 0)->0).1 }
pub open spec fn at(d: Seq<u8>, p: int) -> (int, int) { der_elem(d, p)->0 }
pub open spec fn content(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(at(d, p).1, at(d, p).1 + at(d, p).0) }
/// the algorithm an object identifier names
pub open spec fn alg_of(id: int) -> Option<Algorithms> {
    if id == 0x2a8648ce3d040302 { Some(Algorithms::EcdsaWithSha256) } else if id == 0x2a8648ce3d040303 { Some(Algorithms::EcdsaWithSha384) }
    else if id == 0x2a8648ce3d0201 { Some(Algorithms::EcPublicKey) } else if id == 0x2a864886f70d01010b || id == 0x2a864886f70d010101 { Some(Algorithms::Sha256WithRSAEncryption) } else { None }
}
/// the bytes of an object identifier that has the number n
pub open spec fn oid_is(b: Seq<u8>, n: int) -> bool { 0 < b.len() <= 16 && b[0] != 0 && bei(b) == n }
pub open spec fn alg_named(b: Seq<u8>) -> Option<Algorithms> { if 0 < b.len() <= 16 && b[0] != 0 { alg_of(bei(b)) } else { None } }
/// an OBJECT IDENTIFIER at or behind e that names alg
pub open spec fn alg_behind(d: Seq<u8>, e: int, alg: Algorithms) -> bool { exists|p: int| e <= p < d.len() && #[trigger] d[p] == 6 && der_elem(d, p) is Some && alg_named(content(d, p)) == Some(alg) }
/// a BIT STRING at or behind e whose content is the signature s
pub open spec fn sig_behind(d: Seq<u8>, e: int, s: Signature) -> bool { exists|p: int| e <= p < d.len() && #[trigger] d[p] == 3 && der_elem(d, p) is Some && content(d, p).len() > 0 && content(d, p)[0] == 0
    && sig_at(content(d, p).subrange(1, content(d, p).len() as int)) == Some((s.r.v@, s.s.v@, content(d, p).len() - 1)) }
/// what a parsed certificate says about the bytes it came from
pub open spec fn cert_of(d: Seq<u8>, x: X509) -> bool {
    let b = b0(d); let e = b0(d) + x.tbs_certificate_size;
    &&& d.len() > 0 && d[0] == 0x30 && der_elem(d, 0) is Some && d[b] == 0x30 && der_elem(d, b) is Some && at(d, b).0 + at(d, b).1 == e <= d.len()
    &&& x.tbs_certificate.raw_data is Some && x.tbs_certificate.raw_data->0@ == d.subrange(b, e)
    &&& alg_behind(d, e, x.signature_algorithm)
    &&& x.signature is Some ==> sig_behind(d, e, x.signature->0)
    &&& real_times(x.tbs_certificate.validity)
}
