//@include head.inc
//@item net/alert.rs enum AlertLevel derive=PartialEq,Eq,Structural,Clone,Copy
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural,Clone,Copy
//@include frame_spec.inc
//@include record_types.inc
// ---- RFC 8446, section 6: AlertDescription ----
/// the error an alert code of the RFC that the library names stands for
pub open spec fn named(code: int) -> Option<TlsError> {
    if code == 0 { Some(TlsError::CloseNotify) } else if code == 10 { Some(TlsError::UnexpectedMessage) } else if code == 20 { Some(TlsError::BadRecordMac) }
    else if code == 40 { Some(TlsError::HandshakeFailure) } else if code == 42 { Some(TlsError::BadCertificate) } else if code == 43 { Some(TlsError::UnsupportedCertificate) }
    else if code == 44 { Some(TlsError::CertificateRevoked) } else if code == 45 { Some(TlsError::CertificateExpired) } else if code == 46 { Some(TlsError::CertificateUnknown) }
    else if code == 47 { Some(TlsError::IllegalParameter) } else if code == 48 { Some(TlsError::UnknownCa) } else if code == 49 { Some(TlsError::AccessDenied) }
    else if code == 50 { Some(TlsError::DecryptError) } else if code == 51 { Some(TlsError::DecodeError) } else if code == 70 { Some(TlsError::ProtocolVersion) }
    else if code == 71 { Some(TlsError::InsufficientSecurity) } else if code == 80 { Some(TlsError::InternalError) } else if code == 109 { Some(TlsError::MissingExtension) }
    else if code == 112 { Some(TlsError::UnrecognizedName) } else if code == 116 { Some(TlsError::CertificateRequired) } else { None }
}
impl AlertLevel {
//@fn net/alert.rs impl AlertLevel :: fn get_from_error
//@ret r
//@spec
    ensures desc == TlsError::CloseNotify ==> r as u8 == 1, desc != TlsError::CloseNotify ==> r as u8 == 2,
//@endfn
}
impl TlsError {
//@fn net/alert.rs impl TlsError :: fn new
//@ret r
//@spec
    ensures named(code as int) is Some ==> r == named(code as int)->0, code != 0 ==> r != TlsError::CloseNotify,
        !(r is GotAlert),
//@endfn
//@fn net/alert.rs impl TlsError :: fn as_u8
//@ret r
//@spec
    ensures
        forall|c: int| named(c) is Some && *self == (#[trigger] named(c))->0 ==> r == c,
        !(*self is GotAlert) && *self != TlsError::CloseNotify ==> r != 0,
        *self is GotAlert ==> r == self->GotAlert_0,
        // no error that is not the RFC's is sent as a code of the RFC
        r != 0 && named(r as int) is Some && !(*self is GotAlert) ==> *self == named(r as int)->0,
//@endfn
}
/// decoding and encoding are inverse on the codes of the RFC, and different codes are different errors
fn vx_code_round_trip(c: u8) requires named(c as int) is Some
{ let e = TlsError::new(c); let d = e.as_u8(); assert(d == c); }
proof fn lemma_codes_one_to_one(a: int, b: int)
    requires named(a) is Some, named(b) is Some, named(a) == named(b), ensures a == b,
{ }
// ---- stand-ins: the socket (everything written to it so far), the record protection (contract: check P15) ----
#[verifier::external_body]
struct TcpStream { p: usize }
impl TcpStream {
    uninterp spec fn sent(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), ()>) ensures r is Ok ==> final(self).sent() == old(self).sent() + b@, { unimplemented!() }
}
#[verifier::external_body]
struct RecordPayloadProtection { p: usize }
impl RecordPayloadProtection {
    uninterp spec fn sealed(&self, ty: u8, content: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    fn encrypt(&mut self, record: Record<'_>) -> (r: Result<Vec<u8>, TlsError>) ensures r is Ok ==> r->Ok_0@ == old(self).sealed(record.content_type as u8, vbytes(record.fraqment)), { unimplemented!() }
}
impl<'a> Record<'a> {
    // proved in unit framing
    #[verifier::external_body]
    fn new(content_type: RecordType, fraqment: Value<'a>) -> (r: Record<'a>)
        ensures r.content_type == content_type, r.version == 0x0303, r.fraqment == fraqment, r.len == vbytes(fraqment).len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(self) -> (r: Vec<u8>)
        ensures vbytes(self.fraqment).len() < 65536 ==> r@ == record_bytes(self.content_type as u8, vbytes(self.fraqment)),
    { unimplemented!() }
}
//@item net/stream.rs struct TlsStream
pub open spec fn alert_bytes(e: TlsError, c: u8) -> Seq<u8> { seq![if e == TlsError::CloseNotify { 1u8 } else { 2u8 }, c] }
impl TlsStream {
//@fn net/stream.rs impl TlsStream :: fn write_alert
//@ret r
//@spec
    ensures r is Ok ==> exists|c: u8| (forall|k: int| named(k) is Some && err == (#[trigger] named(k))->0 ==> c == k) && (c == 0 ==> err == TlsError::CloseNotify || err is GotAlert)
        && final(self).stream.sent() == old(self).stream.sent() + (match old(self).protection { None => record_bytes(21, #[trigger] alert_bytes(err, c)), Some(p) => p.sealed(21, alert_bytes(err, c)) }),
//@after `let data =`
        let ghost d = data@;
        proof { assert(d =~= alert_bytes(err, d[1])); }
//@endfn
}
}
fn main() {}
