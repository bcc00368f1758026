// contracts of TlsStream: proved in units stream and alerts (checks P26, P21), assumed here
impl TlsStream {
    #[verifier::external_body]
    fn new(stream: TcpStream) -> (r: Self)
        requires stream.rcvd().len() == 0,
        ensures swf(r), r.protection is None, r.plaintext@.len() == 0, pending(r) == stream.sent(), consumed(r).len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    fn set_protection(&mut self, protection: Option<RecordPayloadProtection>)
        requires swf(*old(self)), protection is Some ==> wf(protection->0),
        ensures swf(*final(self)), final(self).protection == protection, same_tx(*final(self), *old(self)), same_rx(*final(self), *old(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), TlsError>)
        requires swf(*old(self)),
        ensures swf(*final(self)), same_rx(*final(self), *old(self)), final(self).protection == old(self).protection,
            r is Ok ==> final(self).buffer@.len() == 0 && pending(*final(self)) == pending(*old(self)),
    { unimplemented!() }
    // the handshake writes no application data
    #[verifier::external_body]
    fn write_record(&mut self, typ: RecordType, data: &[u8]) -> (r: Result<(), TlsError>)
        requires swf(*old(self)), typ != RecordType::ApplicationData,
        ensures swf(*final(self)), same_rx(*final(self), *old(self)), (final(self).protection is Some) == (old(self).protection is Some),
            r is Ok && old(self).protection is None && data@.len() < 65536 ==> pending(*final(self)) == pending(*old(self)) + record_bytes(typ as u8, data@),
            old(self).protection is Some ==> same_but_counters(final(self).protection->0, old(self).protection->0) && recv_key(final(self).protection->0) == recv_key(old(self).protection->0),
            r is Ok && old(self).protection is Some ==> ({ let p = old(self).protection->0; let q = final(self).protection->0;
                pending(*final(self)) == pending(*old(self)) + sealed_s(p.cipher.suite(), send_key(p), send_key(p).sequence_number, typ as u8, data@)
                && send_key(q).sequence_number == send_key(p).sequence_number + 1 }),
    { unimplemented!() }
    #[verifier::external_body]
    fn write_alert(&mut self, err: TlsError) -> (r: Result<(), TlsError>)
        requires swf(*old(self)),
        ensures r is Ok ==> alert_written(*old(self), *final(self), err),
    { unimplemented!() }
    #[verifier::external_body]
    fn tcp_write(&mut self, buf: &[u8]) -> (r: Result<usize, TlsError>)
        ensures same_rx(*final(self), *old(self)), final(self).protection == old(self).protection, final(self).buffer@ == old(self).buffer@,
    { unimplemented!() }
    #[verifier::external_body]
    fn read_record(&mut self) -> (r: Result<Vec<u8>, TlsError>)
        requires swf(*old(self)),
        ensures swf(*final(self)), same_tx(*final(self), *old(self)), final(self).protection == old(self).protection, final(self).plaintext@ == old(self).plaintext@,
            r is Ok ==> whole(r->Ok_0@) && r->Ok_0@.len() == 5 + rec_len(r->Ok_0@) && consumed(*final(self)) == consumed(*old(self)) + r->Ok_0@,
            r is Err ==> consumed(*final(self)) == consumed(*old(self)),
    { unimplemented!() }
}
/// an alert of this error went out (unit alerts)
pub uninterp spec fn alert_written(a: TlsStream, b: TlsStream, err: TlsError) -> bool;
/// one whole record stands at the beginning
pub open spec fn whole(x: Seq<u8>) -> bool { x.len() >= 5 && x.len() >= 5 + rec_len(x) }
