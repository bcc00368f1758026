// ---- contract of Hkdf: proved in unit hkdf, assumed here ----
//@item hash/hkdf.rs struct Hkdf
impl Hkdf {
    #[verifier::external_body]
    fn from_prk(hash: HashType, pseudo_random_key: Vec<u8>) -> (r: Self)
        ensures r.hash == hash, r.pseudo_random_key == pseudo_random_key,
    { unimplemented!() }
    #[verifier::external_body]
    fn extract(hash: HashType, salt: &[u8], ikm: &[u8]) -> (r: Hkdf)
        requires salt@.len() < MAXKEY(), ikm@.len() < MAXKEY(),
        ensures r.hash == hash, r.pseudo_random_key@ == hmac_s(hash, salt@, ikm@), r.pseudo_random_key@.len() == hlen(hash),
    { unimplemented!() }
    #[verifier::external_body]
    fn expand(&self, info: &[u8], out_len: usize) -> (r: Option<Vec<u8>>)
        requires self.pseudo_random_key@.len() < MAXKEY(), info@.len() < 0x1000_0000_0000,
        ensures
            out_len > 255 * hlen(self.hash) ==> r is None,
            out_len <= 255 * hlen(self.hash) ==> r is Some && r->0@ == hkdf_okm(self.hash, self.pseudo_random_key@, info@, out_len as int) && r->0@.len() == out_len,
    { unimplemented!() }
}
