// contracts of the framing functions: proved in unit framing, assumed here
pub open spec fn rec_len(b: Seq<u8>) -> int { b[3] as int * 256 + b[4] as int }
pub open spec fn rec_ok(b: Seq<u8>) -> bool { b.len() >= 5 && known_type(b[0]) && b.len() >= 5 + rec_len(b) }
impl RecordType {
    #[verifier::external_body]
    fn new(byte: u8) -> (r: Result<RecordType, TlsError>)
        ensures known_type(byte) == r is Ok, r is Ok ==> r->Ok_0 as u8 == byte, r is Err ==> r->Err_0 == TlsError::DecodeError,
    { unimplemented!() }
}
impl<'a> Value<'a> {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == vbytes(*self), { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == vbytes(*self).len(), { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (vbytes(*self).len() == 0), { unimplemented!() }
}
impl<'a> Record<'a> {
    #[verifier::external_body]
    fn new(content_type: RecordType, fraqment: Value<'a>) -> (r: Record<'a>)
        ensures r.content_type == content_type, r.version == 0x0303, r.fraqment == fraqment, r.len == vbytes(fraqment).len(), r.header@ == seq![content_type as u8, 3u8, 3u8, 0u8, 0u8],
    { unimplemented!() }
    #[verifier::external_body]
    fn from_raw(buf: &'a [u8]) -> (r: Result<(usize, Record<'a>), TlsError>)
        ensures
            r is Ok <==> rec_ok(buf@),
            r is Ok ==> (r->Ok_0).0 == 5 + rec_len(buf@) && (r->Ok_0).1.content_type as u8 == buf@[0] && (r->Ok_0).1.header@ == buf@.subrange(0, 5) && vbytes((r->Ok_0).1.fraqment) == buf@.subrange(5, 5 + rec_len(buf@)),
    { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: Vec<u8>)
        ensures vbytes(self.fraqment).len() < 65536 ==> r@ == record_bytes(self.content_type as u8, vbytes(self.fraqment)),
    { unimplemented!() }
}
