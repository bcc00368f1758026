// ---- the socket: a stand-in that knows what was written to it and what was read from it ----
#[verifier::external_body]
struct TcpStream { p: usize }
impl TcpStream {
    uninterp spec fn sent(&self) -> Seq<u8>;
    uninterp spec fn rcvd(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), ()>)
        ensures final(self).rcvd() == old(self).rcvd(), r is Ok ==> final(self).sent() == old(self).sent() + b@,
    { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (r: Result<usize, ()>)
        ensures final(self).rcvd() == old(self).rcvd(), r is Ok ==> r->Ok_0 <= b@.len() && final(self).sent() == old(self).sent() + b@.subrange(0, r->Ok_0 as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, b: &mut [u8]) -> (r: Result<usize, ()>)
        ensures final(self).sent() == old(self).sent(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> r->Ok_0 <= old(b)@.len() && final(self).rcvd() == old(self).rcvd() + final(b)@.subrange(0, r->Ok_0 as int),
            r is Err ==> final(self).rcvd() == old(self).rcvd(),
    { unimplemented!() }
}
//@item net/stream.rs struct TlsStream
/// the bytes that were taken from the socket and are not in the buffer of unprocessed bytes
pub open spec fn consumed(s: TlsStream) -> Seq<u8> { s.stream.rcvd().subrange(0, s.stream.rcvd().len() - s.rx_buffer@.len()) }
pub open spec fn swf(s: TlsStream) -> bool {
    &&& s.rx_buffer@.len() <= s.stream.rcvd().len()
    &&& s.rx_buffer@ == s.stream.rcvd().subrange(s.stream.rcvd().len() - s.rx_buffer@.len(), s.stream.rcvd().len() as int)
    &&& s.protection is Some ==> wf(s.protection->0)
}
/// what went out, and what waits in the buffer
pub open spec fn pending(s: TlsStream) -> Seq<u8> { s.stream.sent() + s.buffer@ }
pub open spec fn same_tx(a: TlsStream, b: TlsStream) -> bool { a.stream.sent() == b.stream.sent() && a.buffer@ == b.buffer@ }
pub open spec fn same_rx(a: TlsStream, b: TlsStream) -> bool { a.stream.rcvd() == b.stream.rcvd() && a.rx_buffer@ == b.rx_buffer@ && a.plaintext@ == b.plaintext@ }
pub open spec fn same_send(a: Option<RecordPayloadProtection>, b: Option<RecordPayloadProtection>) -> bool { a is Some ==> b is Some && send_key(a->0) == send_key(b->0) && a->0.cipher == b->0.cipher }
