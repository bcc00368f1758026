// ---- contract of Hmac: proved in unit hmac, assumed here ----
struct Hmac<'a> { hash: HashType, key: &'a [u8], input: Vec<u8> }
impl<'a> Hmac<'a> {
    #[verifier::external_body]
    fn new(hash: HashType, key: &'a [u8]) -> (r: Self)
        ensures r.hash == hash, r.key@ == key@, r.input@ == Seq::<u8>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn update(&mut self, buf: &[u8])
        ensures final(self).hash == old(self).hash, final(self).key@ == old(self).key@, final(self).input@ == old(self).input@ + buf@,
    { unimplemented!() }
    #[verifier::external_body]
    fn result(&self) -> (r: Vec<u8>)
        requires self.key@.len() < MAXKEY(), self.input@.len() < MAXKEY(),
        ensures r@ == hmac_s(self.hash, self.key@, self.input@), r@.len() == hlen(self.hash),
    { unimplemented!() }
}
