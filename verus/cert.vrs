//@include head.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@include ibig.inc
//@include bytes_spec.inc
//@include der_types.inc
//@include der_spec.inc
//@include slice_len.inc
//@include sig_spec.inc
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@include hash_contract.inc
pub open spec fn hlen(h: HashType) -> int { match h { HashType::SHA256 => 32, HashType::SHA384 => 48 } }
pub open spec fn hash_s(h: HashType, m: Seq<u8>) -> Seq<u8> { if h == HashType::SHA256 { sha256_s(m) } else { sha384_s(m) } }
//@include tshash.inc
//@include x509_types.inc
//@include cert_spec.inc
//@item crypto/ellipticcurve/point.rs struct Point
//@item crypto/ellipticcurve/publickey.rs struct PublicKey
//@item net/handshake/certificate.rs struct Certificate
/// the curve, opaque
#[verifier::external_body]
struct Curve { p: usize }
impl Curve { uninterp spec fn p256(&self) -> bool; #[verifier::external_body] fn secp256r1() -> (r: Curve) ensures r.p256(), { unimplemented!() } }
#[verifier::external_body]
struct PrivateKey { p: usize }
/// a key of P-256 whose public key is a point
impl PrivateKey { uninterp spec fn p256(&self) -> bool; uninterp spec fn public(&self) -> (int, int); }
#[verifier::external_body]
struct Ecdsa { p: usize }
impl Ecdsa {
    #[verifier::external_body] fn urandom() -> Ecdsa { unimplemented!() }
    // proved in unit ecdsa (check P12)
    #[verifier::external_body] fn verify(pub_key: PublicKey, sign: &Signature, hashed_message: &[u8]) -> (r: bool)
        requires pub_key.curve.p256(), pub_key.point.x.v@ >= 0, pub_key.point.y.v@ >= 0, hashed_message@.len() < 0x1000_0000_0000_0000,
        ensures r == ecdsa_ok((pub_key.point.x.v@, pub_key.point.y.v@), sign.r.v@, sign.s.v@, hashed_message@), { unimplemented!() }
    #[verifier::external_body] fn sign(&mut self, privkey: &PrivateKey, hashed_message: &[u8]) -> (r: Result<Signature, String>)
        requires privkey.p256(), hashed_message@.len() < 0x1000_0000_0000_0000,
        ensures r is Ok ==> 0 < r->Ok_0.r.v@ < ipow2(256) && 0 < r->Ok_0.s.v@ < ipow2(256) && ecdsa_ok(privkey.public(), r->Ok_0.r.v@, r->Ok_0.s.v@, hashed_message@), { unimplemented!() }
}
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
    // proved in unit bytesint
    #[verifier::external_body]
    fn to_u128_be_fill(b: &[u8]) -> (r: u128) ensures b@.len() <= 16 ==> r == bei(b@), { unimplemented!() }
    // proved in unit bytesnum
    #[verifier::external_body]
    fn to_ibig_be(b: &[u8]) -> (r: IBig) requires b@.len() < 0x1000_0000_0000_0000, ensures r.v@ == bei(b@), { unimplemented!() }
    #[verifier::external_body]
    fn to_u16(b: &[u8]) -> (r: u16) ensures b@.len() >= 2 ==> r == b@[0] * 256 + b@[1], { unimplemented!() }
}
fn vx_subvec(b: &[u8], a: usize, e: usize) -> (r: Vec<u8>) requires a <= e <= b@.len(), ensures r@ == b@.subrange(a as int, e as int), { (&b[a..e]).to_vec() }
impl Signature {
    // proved in unit sig
    #[verifier::external_body]
    fn to_der(&self) -> (z: Vec<u8>) requires 0 <= self.r.v@ < ipow2(256), 0 <= self.s.v@ < ipow2(256), ensures sig_at(z@) == Some((self.r.v@, self.s.v@, z@.len() as int)), z@.len() <= 72, { unimplemented!() }
}
impl Validity {
    uninterp spec fn now_valid(&self) -> bool;
    // proved in unit x509time
    #[verifier::external_body]
    fn is_valid(&self) -> (r: bool) requires real_times(*self), ensures r == self.now_valid(), { unimplemented!() }
}
impl BitString {
//@fn utils/x509.rs impl BitString :: fn as_slice
//@ret r
//@spec
    ensures r@ == self.0@,
//@endfn
}
impl Point {
//@fn crypto/ellipticcurve/point.rs impl Point :: fn new
//@ret r
//@spec
    ensures r.x == x, r.y == y,
//@endfn
}
impl PublicKey {
//@fn crypto/ellipticcurve/publickey.rs impl PublicKey :: fn new
//@ret r
//@spec
    ensures r.point == point, r.curve == curve,
//@endfn
}
impl X509 {
    // proved in unit x509
    #[verifier::external_body]
    fn from_raw(data: &[u8]) -> (r: Result<X509, ParseError>)
        requires data@.len() < 0x1000_0000_0000_0000,
        ensures r is Ok ==> cert_of(data@, r->Ok_0),
    { unimplemented!() }
//@fn utils/x509.rs impl X509 :: fn get_public_key
//@ret r
//@intern
//@resub `\.as_ref\(\)\s*\?\s*\.as_str\(\)` => `?` opt
//@spec
    ensures
        (r is Some) == (key_of(*self) is Some),
        r is Some ==> r->0.point.x.v@ == (key_of(*self)->0).0 && r->0.point.y.v@ == (key_of(*self)->0).1 && r->0.curve.p256() && r->0.point.x.v@ >= 0 && r->0.point.y.v@ >= 0,
//@start
    proof { assert forall|u: Seq<u8>| 0 <= #[trigger] bei(u) by { lemma_be_bound(u); }
        assert forall|u: Seq<u8>, a: int, b: int, c: int, d: int| 0 <= a <= b <= u.len() && 0 <= c <= d <= b - a implies #[trigger] u.subrange(a, b).subrange(c, d) == u.subrange(a + c, a + d) by { assert(u.subrange(a, b).subrange(c, d) =~= u.subrange(a + c, a + d)); } }
//@endfn
}
impl Certificate {
//@fn net/handshake/certificate.rs impl Certificate :: fn from_raw_x509
//@ret r
//@spec
    requires raw@.len() < 0x1000_0000_0000_0000,
    ensures r is Ok ==> r->Ok_0.raw == raw && r->Ok_0.x509 is Some && cert_of(raw@, r->Ok_0.x509->0),
//@endfn
//@fn net/handshake/certificate.rs impl Certificate :: fn from_hello
//@ret r
//@resub `#\[allow\(clippy::never_loop\)\]` => `` opt
//@subst `buf[consumed..consumed + cert_len].to_vec()` => `vx_subvec(buf, consumed, consumed + cert_len)` opt
//@resub `let mut certs = vec!\[\]` => `let mut certs: Vec<Certificate> = Vec::new()` opt
//@spec
    requires buf@.len() < 0x1000_0000_0000_0000,
    ensures
        // only the first certificate of the list is read
        r is Ok ==> r->Ok_0@.len() == 1 && forall|i: int| 0 <= i < r->Ok_0@.len() ==> good_cert(buf@, #[trigger] r->Ok_0@[i]),
        // the first certificate of the list (the only one that is read) is the peer's
        r is Ok ==> buf@[0] + 7 <= buf@.len() && r->Ok_0@[0].raw@ == first_cert(buf@),
//@start
    proof { assert forall|s: Seq<u8>| s.len() <= 3 implies #[trigger] bei(s) <= 0xffffff by { lemma_be_bound(s); lemma_ipow2_8(0); lemma_ipow2_8(8); lemma_ipow2_8(16); assert(ipow2(0) == 1); } }
//@loop 0
    invariant_except_break certs@.len() > 0 ==> certs@.len() == 1 && certs_len <= consumed - prev_len,
    invariant
        buf@.len() < 0x1000_0000_0000_0000, prev_len <= consumed <= buf@.len() + 0x1_0000, prev_len == buf@[0] + 4 <= buf@.len(), certs_len <= 0xffffff,
        certs@.len() == 0 ==> consumed == prev_len, certs@.len() == 0 ==> certs_len > 0,
        certs@.len() > 0 ==> certs@[0].raw@ == first_cert(buf@) && buf@[0] + 7 <= buf@.len(),
        forall|i: int| 0 <= i < certs@.len() ==> good_cert(buf@, #[trigger] certs@[i]),
        forall|s: Seq<u8>| s.len() <= 3 ==> #[trigger] bei(s) <= 0xffffff,
    ensures certs@.len() == 1,
    decreases if certs_len + prev_len > consumed { certs_len + prev_len - consumed } else { 0 },
//@endfn
//@fn net/handshake/certificate.rs impl Certificate :: fn get_certificate_for_handshake
//@ret r
//@spec
    requires self.raw@.len() < 0x100_0000 - 5,
    ensures r@ == certificates_raw@ + u24(self.raw@.len() as int + 5) + u24(self.raw@.len() as int) + self.raw@ + seq![0u8, 0u8],
//@start
    let ghost pre = certificates_raw@;
    proof { assert forall|x: usize| #[trigger] ((x >> 8usize) as u8) == (x / 256) % 256 && ((x >> 16usize) as u8) == (x / 65536) % 256 && (x as u8) == x % 256 by { assert(((x >> 8usize) as u8) == (x / 256) % 256 && ((x >> 16usize) as u8) == (x / 65536) % 256 && (x as u8) == x % 256) by(bit_vector); } }
//@end
    proof { assert(certificates_raw@ =~= pre + u24(self.raw@.len() as int + 5) + u24(self.raw@.len() as int) + self.raw@ + seq![0u8, 0u8]); }
//@endfn
//@fn net/handshake/certificate.rs impl Certificate :: fn get_certificate_verify_for_handshake
//@ret r
//@subst `&dyn TranscriptHash` => `&TsHash`
//@resub `std::result::Result` => `Result` opt
//@subst `content.extend(tshash.finalize())` => `content.extend_from_slice(&tshash.finalize())` opt
//@subst `res.extend(der)` => `res.extend_from_slice(&der)` opt
//@spec
    requires privkey.p256(), label@.len() < 0x1_0000_0000,
    ensures r is Ok ==> r->Ok_0@.len() > 4 && r->Ok_0@[0] == 4 && r->Ok_0@[1] == 3 && r->Ok_0@[2] * 256 + r->Ok_0@[3] == r->Ok_0@.len() - 4 && (exists|rs: (int, int)| #[trigger] cv_sig(r->Ok_0@, rs) && ecdsa_ok(privkey.public(), rs.0, rs.1, sha256_s(cv_content(label@, hash_s(tshash.typ(), tshash.fed()))))),
//@before `let hash` opt
    proof { assert(content@ =~= cv_content(label@, hash_s(tshash.typ(), tshash.fed()))); }
//@end
    proof {
        let x = der.len(); assert(x >> 8usize == x / 256) by(bit_vector);
        assert(res@.subrange(4, res@.len() as int) =~= der@);
        assert(cv_sig(res@, (signature.r.v@, signature.s.v@)));
    }
//@endfn
//@fn net/handshake/certificate.rs impl Certificate :: fn has_signed
//@ret r
//@spec
    requires other.x509 is Some && other.x509->0.tbs_certificate.raw_data is Some ==> other.x509->0.tbs_certificate.raw_data->0@.len() < 0x20_0000_0000_0000,
    ensures (r is Ok) == (self.x509 is Some && other.x509 is Some && signed_by(self.x509->0, other.x509->0)),
//@endfn
//@fn net/handshake/certificate.rs impl Certificate :: fn is_certificate_valid
//@ret r
//@subst `&dyn TranscriptHash` => `&TsHash`
//@subst `content.extend(tshash.finalize())` => `content.extend_from_slice(&tshash.finalize())` opt
//@spec
    requires self.x509 is Some, label@.len() < 0x1_0000_0000,
    ensures r == cv_valid(self.x509->0, signature.r.v@, signature.s.v@, label@, hash_s(tshash.typ(), tshash.fed())),
//@before `let hash` opt
    proof { assert(content@ =~= cv_content(label@, hash_s(tshash.typ(), tshash.fed()))); }
//@endfn
}
pub open spec fn u24(n: int) -> Seq<u8> { seq![(n / 65536) as u8, ((n / 256) % 256) as u8, (n % 256) as u8] }
pub open spec fn good_cert(buf: Seq<u8>, c: Certificate) -> bool { c.x509 is Some && cert_of(c.raw@, c.x509->0) && c.x509->0.tbs_certificate.validity.now_valid() }
/// the first certificate of a Certificate message
pub open spec fn first_cert(b: Seq<u8>) -> Seq<u8> { let p = b[0] + 4; b.subrange(p + 3, p + 3 + bei(b.subrange(p, p + 3))) }
pub open spec fn cv_sig(m: Seq<u8>, rs: (int, int)) -> bool { sig_at(m.subrange(4, m.len() as int)) == Some((rs.0, rs.1, m.len() - 4)) }
}
fn main() {}
