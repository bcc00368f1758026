// ---- `String` and `&str`: a text is its UTF-8 bytes ----
#[verifier::external_body]
pub struct Text { p: usize }
impl Text {
    pub  uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.b().len(), r <= 0x7fff_ffff_ffff_ffff, { unimplemented!() }
    #[verifier::external_body] fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b(), { unimplemented!() }
    #[verifier::external_body] fn new() -> (r: Text) ensures r.b().len() == 0, { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Text) ensures r == *self, { unimplemented!() }
    #[verifier::external_body] fn from_utf8(v: Vec<u8>) -> (r: Result<Text, ()>) ensures r is Ok == utf8(v@), r is Ok ==> (r->Ok_0).b() == v@, { unimplemented!() }
}
/// well-formed UTF-8
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
impl PartialEqSpecImpl for Text { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Text) -> bool { self.b() == o.b() } }
impl PartialEq for Text { #[verifier::external_body] fn eq(&self, o: &Text) -> bool { unimplemented!() } }
