// ---- `Arc<dyn Cipher + Send + Sync>` is this opaque object; contract proved in units gcm and poly1305 (checks P06, P08, P09) ----
pub uninterp spec fn seal_ct(cs: CipherSuite, key: Seq<u8>, nonce: Seq<u8>, pt: Seq<u8>, aad: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn open_pt(cs: CipherSuite, key: Seq<u8>, nonce: Seq<u8>, ct: Seq<u8>, aad: Seq<u8>) -> Seq<u8>;
/// the tag belongs to the ciphertext
pub uninterp spec fn aead_tag(cs: CipherSuite, key: Seq<u8>, nonce: Seq<u8>, ct: Seq<u8>, aad: Seq<u8>) -> Seq<u8>;
proof fn axiom_aead(cs: CipherSuite, key: Seq<u8>, nonce: Seq<u8>, pt: Seq<u8>, aad: Seq<u8>)
    ensures seal_ct(cs, key, nonce, pt, aad).len() == pt.len(), aead_tag(cs, key, nonce, pt, aad).len() == 16,
        open_pt(cs, key, nonce, pt, aad).len() == pt.len(),
        open_pt(cs, key, nonce, seal_ct(cs, key, nonce, pt, aad), aad) == pt,
{ admit(); }
pub open spec fn suite_key_len(cs: CipherSuite) -> int { if cs == CipherSuite::TLS_AES_128_GCM_SHA256 { 16int } else { 32int } }
#[verifier::external_body]
struct Aead { p: usize }
impl Aead {
    uninterp spec fn suite(&self) -> CipherSuite;
    #[verifier::external_body]
    fn encrypt(&self, key: &[u8], iv: &[u8], plaintext: &[u8], additional_data: &[u8]) -> (r: Result<(Vec<u8>, [u8; 16]), TlsError>)
        requires key@.len() == suite_key_len(self.suite()), iv@.len() == 12,
        ensures r is Ok, r->Ok_0.0@ == seal_ct(self.suite(), key@, iv@, plaintext@, additional_data@), r->Ok_0.0@.len() == plaintext@.len(),
            r->Ok_0.1@ == aead_tag(self.suite(), key@, iv@, r->Ok_0.0@, additional_data@),
    { unimplemented!() }
    #[verifier::external_body]
    fn decrypt(&self, key: &[u8], iv: &[u8], ciphertext: &[u8], additional_data: &[u8], auth_tag: &[u8]) -> (r: Result<Vec<u8>, TlsError>)
        requires key@.len() == suite_key_len(self.suite()), iv@.len() == 12,
        ensures
            auth_tag@ == aead_tag(self.suite(), key@, iv@, ciphertext@, additional_data@) ==> r is Ok && r->Ok_0@ == open_pt(self.suite(), key@, iv@, ciphertext@, additional_data@) && r->Ok_0@.len() == ciphertext@.len(),
            auth_tag@ != aead_tag(self.suite(), key@, iv@, ciphertext@, additional_data@) ==> r is Err && r->Err_0 == TlsError::BadRecordMac,
    { unimplemented!() }
    #[verifier::external_body]
    fn get_cipher_suite(&self) -> (r: CipherSuite) ensures r == self.suite(), { unimplemented!() }
}
