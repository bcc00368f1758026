// ---- `&dyn TranscriptHash` is this opaque object: the running hash of units sha256/sha384 (contract proved there) ----
#[verifier::external_body]
struct TsHash { p: usize }
impl TsHash {
    uninterp spec fn typ(&self) -> HashType;
    /// everything fed so far
    uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn finalize(&self) -> (r: Vec<u8>) ensures r@ == hash_s(self.typ(), self.fed()), r@.len() == hlen(self.typ()), { unimplemented!() }
    #[verifier::external_body]
    fn get_type(&self) -> (r: HashType) ensures r == self.typ(), { unimplemented!() }
    #[verifier::external_body]
    fn update(&mut self, buf: &[u8]) ensures final(self).typ() == old(self).typ(), final(self).fed() == old(self).fed() + buf@, { unimplemented!() }
}
