//@include head.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural,Clone,Copy
//@order net/alert.rs TlsError NotOfficial before_not_official
/// the errors that are alerts of the RFC
pub open spec fn official(e: TlsError) -> bool { !(e is GotAlert) && e != TlsError::BrokenPipe && e != TlsError::NotOfficial }
/// the derived order, as declared
#[verifier::external_body]
fn vx_official(e: TlsError) -> (r: bool) ensures r == before_not_official(e), { unimplemented!() }
pub uninterp spec fn alert_of(code: u8) -> TlsError;
impl TlsError { #[verifier::external_body] fn new(code: u8) -> (r: TlsError) ensures r == alert_of(code), { unimplemented!() } }
#[verifier::external_body]
struct TlsStream { p: usize }
/// an alert of this error went out (unit alerts)
pub uninterp spec fn alert_written(a: TlsStream, b: TlsStream, err: TlsError) -> bool;
/// the socket or the record protection refused it
pub uninterp spec fn alert_failed(a: TlsStream, b: TlsStream, err: TlsError) -> bool;
impl TlsStream {
    #[verifier::external_body]
    fn write_alert(&mut self, err: TlsError) -> (r: Result<(), TlsError>)
        ensures r is Ok ==> alert_written(*old(self), *final(self), err), r is Err ==> alert_failed(*old(self), *final(self), err),
    { unimplemented!() }
}
/// what do_handshake did (units client_conn, server_conn); here it may do anything
pub uninterp spec fn hs_did(a: TlsStream, b: TlsStream, r: Result<(), TlsError>) -> bool;
/// the error the caller gets for an error of the handshake
pub open spec fn told(e: TlsError) -> TlsError { match e { TlsError::GotAlert(c) => alert_of(c), _ => e } }
/// success is passed on; an error ends in an error, after its alert was sent (unless the peer sent one, or the pipe is gone)
pub open spec fn ends_well(a: TlsStream, b: TlsStream, r: Result<(), TlsError>) -> bool {
    exists|m: TlsStream, q: Result<(), TlsError>| #[trigger] hs_did(a, m, q) && match q {
        Ok(_) => r is Ok && b == m,
        Err(e) => r is Err && if official(e) { (alert_written(m, b, e) && r->Err_0 == told(e)) || alert_failed(m, b, e) } else { b == m && r->Err_0 == told(e) },
    }
}
struct ClientHandshake<'a> { stream: &'a mut TlsStream }
impl<'a> ClientHandshake<'a> {
    #[verifier::external_body]
    fn do_handshake(&mut self) -> (r: Result<(), TlsError>)
        ensures hs_did(*old(self).stream, *final(self).stream, r), *final(final(self).stream) == *final(old(self).stream),
    { unimplemented!() }
//@fn net/client/connection.rs impl ClientHandshake :: fn do_handshake_with_error
//@ret r
//@subst `pub fn` => `fn` opt
//@subst `err < TlsError::NotOfficial` => `vx_official(err)`
//@spec
    ensures ends_well(*old(self).stream, *final(self).stream, r), *final(final(self).stream) == *final(old(self).stream),
//@endfn
}
struct ServerHandshake<'a> { stream: &'a mut TlsStream }
impl<'a> ServerHandshake<'a> {
    #[verifier::external_body]
    fn do_handshake(&mut self) -> (r: Result<(), TlsError>)
        ensures hs_did(*old(self).stream, *final(self).stream, r), *final(final(self).stream) == *final(old(self).stream),
    { unimplemented!() }
//@fn net/server/connection.rs impl ServerHandshake :: fn do_handshake_with_error
//@ret r
//@subst `pub fn` => `fn` opt
//@subst `err < TlsError::NotOfficial` => `vx_official(err)`
//@spec
    ensures ends_well(*old(self).stream, *final(self).stream, r), *final(final(self).stream) == *final(old(self).stream),
//@endfn
}
}
fn main() {}
