//@include eq.inc
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural,Clone,Copy
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
//@include hash_contract.inc
//@include hmac_spec.inc
//@item hash/hkdf.rs struct Hkdf
//@include hkdf_spec.inc
//@include tshash.inc
//@include ks_spec0.inc
//@include aead_contract.inc
//@include frame_spec.inc
//@include record_types.inc
//@include nonce_spec.inc
//@item net/record.rs const MAX_FRAQMENT_LEN
//@item net/key_schedule.rs struct Key
//@item net/key_schedule.rs struct WriteKeys
//@item net/key_schedule.rs struct KeySchedule
//@include protect_spec.inc
//@include frame_contract.inc
//@include protect_contract.inc
//@include slice_len.inc
//@include stream_spec.inc
//@include stream_contract.inc
//@include hs_contract.inc
//@item net/extensions/named_groups.rs enum NamedGroup derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/signature_algorithm.rs enum SignatureScheme derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/extensions/key_share.rs struct KeyShareEntry
// ---- `Box<dyn TranscriptHash>`: the opaque running hash of tshash.inc ----
impl TsHash {
    #[verifier::external_body]
    fn sha384() -> (r: TsHash) ensures r.typ() == HashType::SHA384, r.fed().len() == 0, { unimplemented!() }
    #[verifier::external_body]
    fn sha256() -> (r: TsHash) ensures r.typ() == HashType::SHA256, r.fed().len() == 0, { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: TsHash) ensures r.typ() == self.typ(), r.fed() == self.fed(), { unimplemented!() }
    fn as_ref(&self) -> (r: &TsHash) ensures *r == *self, { self }
}
impl Aead {
    #[verifier::external_body]
    fn gcm(cs: CipherSuite) -> (r: Aead) ensures r.suite() == cs, { unimplemented!() }
    #[verifier::external_body]
    fn poly1305() -> (r: Aead) ensures r.suite() == CipherSuite::TLS_CHACHA20_POLY1305_SHA256, { unimplemented!() }
}
pub open spec fn suite_hash(cs: CipherSuite) -> HashType { if cs == CipherSuite::TLS_AES_256_GCM_SHA384 { HashType::SHA384 } else { HashType::SHA256 } }
impl CipherSuite {
//@fn crypto/ciphersuite.rs impl CipherSuite :: fn get_tshash
//@ret r
//@subst `Box<dyn TranscriptHash>` => `TsHash` opt all
//@subst `Box::new(Sha384::new())` => `TsHash::sha384()` opt all
//@subst `Box::new(Sha256::new())` => `TsHash::sha256()` opt all
//@spec
    ensures (r is Ok) == (*self != CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV), r is Ok ==> (r->Ok_0).typ() == suite_hash(*self) && (r->Ok_0).fed().len() == 0,
//@endfn
//@fn crypto/ciphersuite.rs impl CipherSuite :: fn get_cipher
//@ret r
//@subst `Arc<dyn Cipher + Send + Sync>` => `Aead` opt all
//@subst `Arc::new(Gcm::new(*self))` => `Aead::gcm(*self)` opt all
//@subst `Arc::<Poly1305>::default()` => `Aead::poly1305()` opt all
//@spec
    ensures (r is Ok) == (*self != CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV), r is Ok ==> (r->Ok_0).suite() == *self,
//@endfn
}
pub assume_specification<T: core::clone::Clone>[ <[T] as std::borrow::ToOwned>::to_owned ](s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
// ---- texts are opaque ----
#[verifier::external_body]
struct VText { p: usize }
impl VText {
    #[verifier::external_body] fn clone(&self) -> (r: VText) ensures r == *self, { unimplemented!() }
    fn to_owned(&self) -> (r: VText) ensures r == *self, { self.clone() }
}
// ---- keys and certificates; contracts: checks P04, P10, P12, P13, P22-P25 ----
#[verifier::external_body]
struct PrivateKey { p: usize }
/// the shared secret of a private key and a peer's X25519 share
pub uninterp spec fn shared(k: PrivateKey, share: Seq<u8>) -> Seq<u8>;
impl PrivateKey { uninterp spec fn x25519(&self) -> bool; uninterp spec fn p256(&self) -> bool; uninterp spec fn public(&self) -> (int, int); }
/// what the key schedule derives (unit key_schedule)
pub open spec fn schedule_s(k: KeySchedule, h: HashType, ecdhe: Seq<u8>, th: Seq<u8>) -> bool {
    &&& k.client_handshake_traffic_secret.hash == h
    &&& k.server_handshake_traffic_secret.hash == h
    &&& k.hkdf_master_secret.hash == h
    &&& k.client_handshake_traffic_secret.pseudo_random_key@ == client_hs_secret(h, ecdhe, th)
    &&& k.server_handshake_traffic_secret.pseudo_random_key@ == server_hs_secret(h, ecdhe, th)
    &&& k.hkdf_master_secret.pseudo_random_key@ == master_secret(h, ecdhe)
    &&& k.client_handshake_traffic_secret.pseudo_random_key@.len() == hlen(h)
    &&& k.server_handshake_traffic_secret.pseudo_random_key@.len() == hlen(h)
    &&& k.hkdf_master_secret.pseudo_random_key@.len() == hlen(h)
}
impl KeySchedule {
    #[verifier::external_body]
    fn from_handshake(tshash: &TsHash, private_key: &PrivateKey, key_share_entry: &KeyShareEntry) -> (r: Result<Self, TlsError>)
        requires private_key.x25519(),
        ensures r is Ok ==> key_share_entry.group == NamedGroup::X25519 && schedule_s(r->Ok_0, tshash.typ(), shared(*private_key, key_share_entry.opaque@), hash_s(tshash.typ(), tshash.fed())),
    { unimplemented!() }
}
#[verifier::external_body]
fn get_verify_data_for_finished(secret: &Hkdf, tshash: &TsHash) -> (r: Result<Vec<u8>, TlsError>)
    requires secret.hash == tshash.typ(), secret.pseudo_random_key@.len() < MAXKEY(),
    ensures r is Ok, (r->Ok_0)@ == verify_data_s(secret.hash, secret.pseudo_random_key@, hash_s(tshash.typ(), tshash.fed())),
{ unimplemented!() }
#[verifier::external_body]
fn get_finished_handshake(secret: &Hkdf, tshash: &TsHash) -> (r: Result<Vec<u8>, TlsError>)
    requires secret.hash == tshash.typ(), secret.pseudo_random_key@.len() < MAXKEY(),
    ensures r is Ok, verify_data_s(secret.hash, secret.pseudo_random_key@, hash_s(tshash.typ(), tshash.fed())).len() == hlen(secret.hash), (r->Ok_0)@ == hs_msg(20, verify_data_s(secret.hash, secret.pseudo_random_key@, hash_s(tshash.typ(), tshash.fed()))),
{ unimplemented!() }
#[verifier::external_body]
struct X509 { p: usize }
/// the certificate the bytes are (unit x509)
pub uninterp spec fn cert_of(raw: Seq<u8>, x: X509) -> bool;
/// within its validity (unit x509time)
pub uninterp spec fn now_valid(x: X509) -> bool;
/// ca has signed x (unit cert)
pub uninterp spec fn signed_by(ca: X509, x: X509) -> bool;
/// the signature r, s over the CertificateVerify content with this label and transcript hash is by the key of x (unit cert)
pub uninterp spec fn cv_valid(x: X509, rs: (int, int), label: Seq<u8>, th: Seq<u8>) -> bool;
//@item net/handshake/certificate.rs struct Certificate
/// the first certificate of a Certificate message (unit cert)
pub uninterp spec fn first_cert(b: Seq<u8>) -> Seq<u8>;
pub open spec fn good_cert(c: Certificate) -> bool { c.x509 is Some && cert_of(c.raw@, c.x509->0) && now_valid(c.x509->0) }
#[verifier::external_body]
struct Signature { p: usize }
impl Signature {
    uninterp spec fn rs(&self) -> (int, int);
    #[verifier::external_body]
    fn from_der(b: &[u8]) -> (r: Result<(Signature, usize), TlsError>)
        requires b@.len() < 0x1000_0000_0000_0000,
        ensures r is Ok ==> sig_at(b@) == Some(((r->Ok_0).0.rs(), (r->Ok_0).1 as int)) && (r->Ok_0).1 <= b@.len(),
    { unimplemented!() }
}
/// the DER signature at the front of b and its length (unit sig)
pub uninterp spec fn sig_at(b: Seq<u8>) -> Option<((int, int), int)>;
pub open spec fn be16_at(b: Seq<u8>, i: int) -> int { b[i] as int * 256 + b[i + 1] as int }
/// the body of a CertificateVerify: ecdsa_secp256r1_sha256, and a signature of exactly the stated length that is valid
pub open spec fn cv_body(b: Seq<u8>, x: X509, label: Seq<u8>, th: Seq<u8>) -> bool {
    let s = sig_at(b.subrange(4, b.len() as int));
    b.len() >= 4 && be16_at(b, 0) == 0x0403 && s is Some && (s->0).1 == be16_at(b, 2) && cv_valid(x, (s->0).0, label, th)
}
impl Certificate {
    #[verifier::external_body]
    fn from_hello(buf: &[u8]) -> (r: Result<Vec<Certificate>, TlsError>)
        requires buf@.len() < 0x1000_0000_0000_0000,
        ensures r is Ok ==> (r->Ok_0)@.len() == 1 && good_cert((r->Ok_0)@[0]) && (r->Ok_0)@[0].raw@ == first_cert(buf@),
    { unimplemented!() }
    #[verifier::external_body]
    fn has_signed(&self, other: &Certificate) -> (r: Result<(), TlsError>)
        ensures (r is Ok) == (self.x509 is Some && other.x509 is Some && signed_by(self.x509->0, other.x509->0)),
    { unimplemented!() }
    #[verifier::external_body]
    fn is_certificate_valid(&self, signature: Signature, tshash: &TsHash, label: &[u8]) -> (r: bool)
        requires self.x509 is Some, label@.len() < 0x1_0000_0000,
        ensures r == cv_valid(self.x509->0, signature.rs(), label@, hash_s(tshash.typ(), tshash.fed())),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_certificate_for_handshake(&self, certificates_raw: Vec<u8>) -> (r: Vec<u8>)
        requires self.raw@.len() < 0x100_0000 - 5,
        ensures r@.len() == certificates_raw@.len() + self.raw@.len() + 8,
    { unimplemented!() }
    #[verifier::external_body]
    fn get_certificate_request(&self, ctx: &Vec<u8>) -> (r: Vec<u8>)
        requires ctx@.len() < 256,
        ensures 1 + ctx@.len() < r@.len() < 0x1_0000, r@[0] == ctx@.len(), r@.subrange(1, 1 + ctx@.len() as int) == ctx@,
    { unimplemented!() }
    #[verifier::external_body]
    fn get_certificate_verify_for_handshake(&self, privkey: &PrivateKey, tshash: &TsHash, label: &[u8]) -> (r: Result<Vec<u8>, TlsError>)
        requires privkey.p256(), label@.len() < 0x1_0000_0000,
        ensures r is Ok ==> (r->Ok_0)@.len() < 0x1_0004 && cv_signed(*privkey, (r->Ok_0)@, label@, hash_s(tshash.typ(), tshash.fed())),
    { unimplemented!() }
}
/// the body of a CertificateVerify made with this key (unit cert)
pub uninterp spec fn cv_signed(k: PrivateKey, b: Seq<u8>, label: Seq<u8>, th: Seq<u8>) -> bool;
/// `v.pop().unwrap()` of a vector of certificates is std's; the RNG (check P25)
struct IBig { v: Ghost<int> }
#[verifier::external_body]
struct URandomRng { p: usize }
impl URandomRng {
    #[verifier::external_body] fn new() -> URandomRng { unimplemented!() }
    #[verifier::external_body] fn bytes(&mut self, n: usize) -> (r: Vec<u8>) requires n < 0x7fff_ffff_ffff_0000, ensures r@.len() == n, { unimplemented!() }
    #[verifier::external_body] fn between(&mut self, min: usize, max: usize) -> (r: IBig) requires min < max < 0x1000_0000_0000_0000, ensures max <= 32 ==> fits256(r.v@), { unimplemented!() }
}
/// 0 <= v < 2^256 (units rand, x25519)
pub uninterp spec fn fits256(v: int) -> bool;
#[verifier::external_body]
struct Curve { p: usize }
impl Curve { uninterp spec fn mont(&self) -> bool; #[verifier::external_body] fn curve25519() -> (r: Curve) ensures r.mont(), { unimplemented!() } }
impl PrivateKey {
    #[verifier::external_body]
    fn new(curve: Curve, secret: IBig) -> (r: PrivateKey) ensures curve.mont() && fits256(secret.v@) ==> r.x25519(), { unimplemented!() }
}
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
    // proved in unit hello
    #[verifier::external_body]
    fn to_u16(b: &[u8]) -> (r: u16) ensures b@.len() >= 2 ==> r == be16_at(b@, 0), { unimplemented!() }
}
impl SignatureScheme {
//@fn net/extensions/signature_algorithm.rs impl SignatureScheme :: fn new
//@ret r
//@spec
    ensures (r is Ok && r->Ok_0 == SignatureScheme::ecdsa_secp256r1_sha256) == (buf == 0x0403),
//@endfn
}
// ---- the key log: what was appended to it so far (how it is written: unit keylog) ----
/// a server's and a client's line, with the handshake or the application traffic secrets
pub enum Lines { Hs(Seq<u8>, Seq<u8>), Ap(Seq<u8>, Seq<u8>) }
pub open spec fn lines_s(p: RecordPayloadProtection) -> Lines {
    if p.application_keys is Some { Lines::Ap((p.application_keys->0).server.traffic_secret@, (p.application_keys->0).client.traffic_secret@) } else { Lines::Hs(p.handshake_keys.server.traffic_secret@, p.handshake_keys.client.traffic_secret@) }
}
struct KeyLog { random: Ghost<Seq<u8>>, log: Ghost<Seq<Lines>> }
impl KeyLog {
    #[verifier::external_body]
    fn new(filepath: VText, client_random: &[u8]) -> (r: KeyLog) ensures r.random@ == client_random@, r.log@.len() == 0, { unimplemented!() }
    #[verifier::external_body]
    fn append_handshake_traffic_secrets(&mut self, server: &[u8], client: &[u8])
        ensures final(self).random == old(self).random, final(self).log@ == old(self).log@.push(Lines::Hs(server@, client@)), { unimplemented!() }
    #[verifier::external_body]
    fn append_application_traffic_secrets(&mut self, server: &[u8], client: &[u8])
        ensures final(self).random == old(self).random, final(self).log@ == old(self).log@.push(Lines::Ap(server@, client@)), { unimplemented!() }
    #[verifier::external_body]
    fn append_from_record_payload_protection(&mut self, keys: &RecordPayloadProtection)
        ensures final(self).random == old(self).random, final(self).log@ == old(self).log@.push(lines_s(*keys)), { unimplemented!() }
}
/// exactly the lines of this connection: those of the handshake secrets of its key schedule, and those of its application secrets once `done`
pub open spec fn kl_lines(k: KeyLog, random: Seq<u8>, p: RecordPayloadProtection, done: bool) -> bool {
    let ks = p.key_schedule; let hs = Lines::Hs(ks.server_handshake_traffic_secret.pseudo_random_key@, ks.client_handshake_traffic_secret.pseudo_random_key@);
    k.random@ == random && k.log@ == if done { seq![hs, lines_s(p)] } else { seq![hs] }
}
impl TlsError { #[verifier::external_body] fn new(code: u8) -> (r: TlsError) { unimplemented!() } }
/// `err < TlsError::NotOfficial` (which alert is sent: unit conn_alert)
#[verifier::external_body]
fn vx_official(e: TlsError) -> (r: bool) { unimplemented!() }
