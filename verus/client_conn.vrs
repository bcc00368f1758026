//@include head.inc
//@include conn.inc
//@item net/client/config.rs struct ClientConfig `String` => `VText`
//@item net/client/connection.rs enum ClientHsState derive=PartialEq,Eq,Structural,Clone,Copy
// ---- the two hellos (check P18) ----
//@item net/extensions/key_share.rs struct KeyShare
//@item net/extensions/server_name.rs struct ServerName `String` => `VText`
//@item net/extensions/supported_groups.rs struct SupportedGroups
//@item net/extensions/supported_versions.rs struct SupportedVersions
//@item net/extensions/signature_algorithm.rs struct SignatureAlgorithms
//@item net/extensions/client.rs enum ClientExtension
struct ClientExtensions { v: Vec<ClientExtension> }
impl ClientExtensions { #[verifier::external_body] fn push(&mut self, e: ClientExtension) { unimplemented!() } }
//@item net/client/client_hello.rs struct ClientHello
struct ServerHello { cipher_suite: CipherSuite, src: Ghost<Seq<u8>> }
/// what a ServerHello says (unit hello)
pub uninterp spec fn sh_suite(b: Seq<u8>) -> CipherSuite;
pub uninterp spec fn sh_share(b: Seq<u8>) -> Seq<u8>;
impl ServerHello {
    #[verifier::external_body]
    fn from_raw(buf: &[u8]) -> (r: Result<ServerHello, TlsError>) ensures r is Ok ==> (r->Ok_0).src@ == buf@ && (r->Ok_0).cipher_suite == sh_suite(buf@), { unimplemented!() }
    #[verifier::external_body]
    fn get_public_key_share(&self) -> (r: Option<&KeyShareEntry>) ensures r is Some ==> (r->0).opaque@ == sh_share(self.src@), { unimplemented!() }
}
impl<'a> ClientHello<'a> {
    #[verifier::external_body]
    fn new(random: &'a [u8], session_id: Option<&'a [u8]>) -> (r: Result<ClientHello<'a>, TlsError>) ensures r is Ok ==> (r->Ok_0).random@ == random@, { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: Result<Vec<u8>, TlsError>) ensures r is Ok ==> (r->Ok_0)@.len() < 0x100_0000 && (self.random@.len() == 32 ==> ch_random((r->Ok_0)@) == self.random@), { unimplemented!() }
}
pub open spec fn ch_random(b: Seq<u8>) -> Seq<u8> { b.subrange(2, 34) }
struct CertificateRequestExtensions {}
impl CertificateRequestExtensions { #[verifier::external_body] fn from_request(b: &[u8]) -> Result<CertificateRequestExtensions, TlsError> { unimplemented!() } }
impl KeyShareEntry { #[verifier::external_body] fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry { unimplemented!() } }
impl KeyShare { #[verifier::external_body] fn new(e: KeyShareEntry) -> KeyShare { unimplemented!() } }
impl SupportedVersions { #[verifier::external_body] fn new(b: bool) -> SupportedVersions { unimplemented!() } }
impl SignatureAlgorithms { #[verifier::external_body] fn supported() -> SignatureAlgorithms { unimplemented!() } }
impl SupportedGroups { #[verifier::external_body] fn supported() -> SupportedGroups { unimplemented!() } }
impl ServerName { #[verifier::external_body] fn new(s: VText) -> ServerName { unimplemented!() } }
#[verifier::external_body]
fn vx_own_share(k: &PrivateKey) -> Vec<u8> { unimplemented!() }

// ---- what the client has seen when it is in a state: RFC 8446, 2 and 4 ----
/// the hellos: the client's, then a record that begins with a ServerHello; the keys are those of this transcript
pub open spec fn st_hello(ch: Seq<u8>, pk: PrivateKey, ks: KeySchedule, t: Seq<u8>) -> bool {
    let sh = t.subrange(ch.len() as int, t.len() as int); let b = body_of(sh); let h = suite_hash(sh_suite(b));
    ch.len() <= t.len() && t.subrange(0, ch.len() as int) == ch && hs_ok(sh) && sh[0] == 2
    && schedule_s(ks, h, shared(pk, sh_share(b)), hash_s(h, t))
}
pub open spec fn hof(ks: KeySchedule) -> HashType { ks.hkdf_master_secret.hash }
pub open spec fn st_ee(ch: Seq<u8>, pk: PrivateKey, ks: KeySchedule, t: Seq<u8>) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && st_hello(ch, pk, ks, a) && is_hs(m, 8) }
pub open spec fn st_cr(ch: Seq<u8>, pk: PrivateKey, ks: KeySchedule, t: Seq<u8>) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && st_ee(ch, pk, ks, a) && is_hs(m, 13) }
pub open spec fn st_cert(ch: Seq<u8>, pk: PrivateKey, ks: KeySchedule, t: Seq<u8>, c: Certificate) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && (st_ee(ch, pk, ks, a) || st_cr(ch, pk, ks, a)) && is_hs(m, 11) && c.raw@ == first_cert(body_of(m)) && good_cert(c) }
pub open spec fn st_cv(ch: Seq<u8>, pk: PrivateKey, ks: KeySchedule, t: Seq<u8>, c: Certificate) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && st_cert(ch, pk, ks, a, c) && is_hs(m, 15) && cv_body(body_of(m), c.x509->0, {{B:server}}, hash_s(hof(ks), a)) }
pub open spec fn st_fin(ch: Seq<u8>, pk: PrivateKey, ks: KeySchedule, t: Seq<u8>, c: Certificate) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && st_cv(ch, pk, ks, a, c) && is_hs(m, 20)
    && body_of(m) == verify_data_s(hof(ks), ks.server_handshake_traffic_secret.pseudo_random_key@, hash_s(hof(ks), a)) }
/// the application keys are those of the transcript t
pub open spec fn app_keys(p: RecordPayloadProtection, t: Seq<u8>) -> bool {
    let m = p.key_schedule.hkdf_master_secret; let n = suite_key_len(p.cipher.suite());
    &&& p.application_keys is Some
    &&& fresh_key((p.application_keys->0).client, m.hash, derive_secret(m.hash, m.pseudo_random_key@, {{B:c ap traffic}}, hash_s(m.hash, t)), n)
    &&& fresh_key((p.application_keys->0).server, m.hash, derive_secret(m.hash, m.pseudo_random_key@, {{B:s ap traffic}}, hash_s(m.hash, t)), n)
}
/// the connection is usable: a server proved its key and finished, and the keys are those of exactly that handshake
pub open spec fn complete(s: TlsStream, ch: Seq<u8>, pk: PrivateKey) -> bool {
    &&& s.protection is Some && (s.protection->0).is_client && wf(s.protection->0)
    &&& exists|t: Seq<u8>, c: Certificate| #[trigger] st_fin(ch, pk, (s.protection->0).key_schedule, t, c) && app_keys(s.protection->0, t)
}
//@item net/client/connection.rs struct ClientHandshake `&'a mut TlsStream` => `&'a mut TlsStream` `Option<Box<dyn TranscriptHash>>` => `Option<TsHash>` `Box<dyn RngCore<IBig>>` => `URandomRng`
pub open spec fn chb(s: ClientHandshake) -> Seq<u8> { (s.client_hello_bytes->0)@ }
pub open spec fn kss(s: ClientHandshake) -> KeySchedule { (s.stream.protection->0).key_schedule }
pub open spec fn fed(s: ClientHandshake) -> Seq<u8> { (s.tshash->0).fed() }
/// what holds between two steps
pub open spec fn hinv(s: ClientHandshake) -> bool {
    let p = s.stream.protection->0; let ch = chb(s); let pk = s.private_key; let ks = kss(s);
    &&& swf(*s.stream) && s.private_key.x25519()
    &&& s.config.client_cert is Some ==> (s.config.client_cert->0).raw@.len() < 0x10_0000
    &&& s.config.client_key is Some ==> (s.config.client_key->0).p256()
    &&& s.state != ClientHsState::ServerHello ==> s.client_hello_bytes is Some && s.stream.protection is Some && p.is_client && s.tshash is Some && (s.tshash->0).typ() == hof(ks)
        && ks.server_handshake_traffic_secret.hash == hof(ks) && ks.client_handshake_traffic_secret.hash == hof(ks) && ks_ok(ks)
    &&& s.state != ClientHsState::Ready ==> s.stream.plaintext@.len() == 0
    &&& s.state == ClientHsState::ServerHello ==> s.stream.protection is None
    &&& s.state == ClientHsState::EncryptedExtensions ==> st_hello(ch, pk, ks, fed(s))
    &&& s.state == ClientHsState::ClientCertificateRequest ==> st_ee(ch, pk, ks, fed(s))
    &&& s.state == ClientHsState::ServerCertificate ==> s.certificate_request is Some && st_cr(ch, pk, ks, fed(s))
    &&& s.state == ClientHsState::ServerCertificateVerify ==> s.server_cert is Some && st_cert(ch, pk, ks, fed(s), s.server_cert->0)
    &&& s.state == ClientHsState::Finished ==> s.server_cert is Some && st_cv(ch, pk, ks, fed(s), s.server_cert->0)
    &&& s.state == ClientHsState::Ready ==> complete(*s.stream, ch, pk)
}
/// key logging: what it holds after each step
pub open spec fn kl_ok(s: ClientHandshake) -> bool {
    if s.state == ClientHsState::ServerHello || s.config.keylog is None { s.keylog is None }
    else { s.keylog is Some && kl_lines(s.keylog->0, (s.client_hello_random->0)@, s.stream.protection->0, s.state == ClientHsState::Ready) }
}
/// and at the end
pub open spec fn kl_done(s: ClientHandshake) -> bool {
    if s.config.keylog is None { s.keylog is None } else { s.keylog is Some && kl_lines(s.keylog->0, ch_random(body_of(chb(s))), s.stream.protection->0, true) }
}
/// what no step changes
pub open spec fn kept(a: ClientHandshake, b: ClientHandshake) -> bool {
    a.private_key == b.private_key && a.client_hello_bytes == b.client_hello_bytes && a.client_hello_random == b.client_hello_random && a.config == b.config
}
pub open spec fn msg(h: Handshake) -> bool { is_hs(h.raw@, h.handshake_type as u8 as int) && h.fraqment@ == body_of(h.raw@) }
impl<'a> ClientHandshake<'a> {
//@fn net/client/connection.rs impl ClientHandshake :: fn new
//@ret r
//@subst `pub fn new` => `fn new` opt
//@subst `Box::new(URandomRng::new())` => `URandomRng::new()` opt
//@spec
    requires swf(*old(stream)), old(stream).protection is None, old(stream).plaintext@.len() == 0, config.client_cert is Some ==> (config.client_cert->0).raw@.len() < 0x10_0000,
        config.client_key is Some ==> (config.client_key->0).p256(),
    ensures hinv(r),
        kl_ok(r),
        r.state == ClientHsState::ServerHello, *r.stream == *old(stream), *final(r.stream) == *final(stream),
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_encrypted_extension
//@ret r
//@subst `pub fn` => `fn` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::EncryptedExtensions, msg(handshake),
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ClientHsState::Ready && final(self).state != ClientHsState::ServerHello,
        r is Ok ==> kl_ok(*final(self)),
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_server_certificate
//@ret r
//@subst `pub fn` => `fn` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::ClientCertificateRequest || old(self).state == ClientHsState::ServerCertificate, msg(handshake),
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ClientHsState::Ready && final(self).state != ClientHsState::ServerHello,
        r is Ok ==> kl_ok(*final(self)),
//@loop 0
    invariant certs@.len() > 0 ==> good_cert(certs@[0]) && certs@[0].raw@ == first_cert(handshake.fraqment@),
        certs@.len() == 0 ==> good_cert(cert) && cert.raw@ == first_cert(handshake.fraqment@),
    decreases certs@.len(),
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_server_certificate_verify
//@ret r
//@subst `pub fn` => `fn` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::ServerCertificateVerify, msg(handshake),
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ClientHsState::Ready && final(self).state != ClientHsState::ServerHello,
        r is Ok ==> kl_ok(*final(self)),
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_certificate_request
//@ret r
//@subst `pub fn` => `fn` opt
//@spec
    requires swf(*old(self).stream), old(self).certificate_request is Some, old(self).stream.protection is Some, old(self).tshash is Some,
        old(self).config.client_cert is Some ==> (old(self).config.client_cert->0).raw@.len() < 0x10_0000,
        old(self).config.client_key is Some ==> (old(self).config.client_key->0).p256(),
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream),
        r is Ok ==> swf(*final(self).stream) && final(self).tshash is Some && (final(self).tshash->0).typ() == (old(self).tshash->0).typ()
            && final(self).stream.protection is Some && same_but_counters(final(self).stream.protection->0, old(self).stream.protection->0)
            && same_rx(*final(self).stream, *old(self).stream) && final(self).server_cert == old(self).server_cert && final(self).keylog == old(self).keylog,
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_server_finish
//@ret r
//@subst `pub fn` => `fn` opt
//@resub `Some\((\w+)\) = &self\.keylog` => `Some(\1) = &mut self.keylog` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::Finished || old(self).state is FinishWithError, msg(handshake),
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ClientHsState::ServerHello,
        r is Ok ==> kl_ok(*final(self)),
//@start
    let ghost me = *self;
    proof { ax_eq(); }
//@end
    proof {
        if self.keylog is Some { let l = (self.keylog->0).log@; assert(l =~= seq![l[0], lines_s(self.stream.protection->0)]); }
        let t = fed(me) + handshake.raw@;
        if me.server_cert is Some { 
        assert(handshake.fraqment@ == verify_data_s(hof(kss(me)), kss(me).server_handshake_traffic_secret.pseudo_random_key@, hash_s(hof(kss(me)), fed(me))));
        assert(st_fin(chb(me), me.private_key, kss(me), t, me.server_cert->0));
        assert(kss(*self) == kss(me));
        assert(app_keys(self.stream.protection->0, t));
        assert(st_fin(chb(me), me.private_key, (self.stream.protection->0).key_schedule, t, me.server_cert->0)); }
    }
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_handshake_encrypted_record
//@ret r
//@subst `crate::net::record::Value` => `Value` opt all
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state != ClientHsState::ServerHello, old(self).state != ClientHsState::Ready,
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ClientHsState::ServerHello,
        r is Ok ==> kl_ok(*final(self)),
//@start
    broadcast use {lemma_hs, lemma_hs_msg};
//@loop 0
    invariant kept(*self, *old(self)), *final(self.stream) == *final(old(self).stream), 
        kl_ok(*self),
        hinv(*self), self.state != ClientHsState::ServerHello, consumed <= vbytes(record.fraqment).len(),
    decreases vbytes(record.fraqment).len() - consumed,
//@in 0 start
    broadcast use {lemma_hs, lemma_hs_msg};
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_server_hello
//@ret r
//@subst `pub fn` => `fn` opt
//@resub `let keylog = KeyLog` => `let mut keylog = KeyLog` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::ServerHello, old(self).client_hello_bytes is Some, old(self).client_hello_random is Some,
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ClientHsState::Ready,
        r is Ok ==> kl_ok(*final(self)),
//@start
    broadcast use {lemma_hs, lemma_hs_msg};
    let ghost rf = vbytes(record.fraqment);
//@end
    proof {
        if self.keylog is Some { let l = (self.keylog->0).log@; assert(l =~= seq![l[0]]); }
        let ch = chb(*self); let t = ch + rf;
        assert(Seq::<u8>::empty() + ch =~= ch); assert(t.subrange(0, ch.len() as int) =~= ch); assert(t.subrange(ch.len() as int, t.len() as int) =~= rf);
    }
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn handle_handshake_record
//@ret r
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state != ClientHsState::Ready, old(self).client_hello_bytes is Some, old(self).client_hello_random is Some,
    ensures swf(*final(self).stream), kept(*final(self), *old(self)), *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)),
        r is Ok ==> kl_ok(*final(self)),
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn send_client_hello
//@ret r
//@subst `bytes::ibig_to_32bytes(self.private_key.get_public_key().point.x, ByteOrder::Little)` => `vx_own_share(&self.private_key)` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::ServerHello,
    ensures swf(*final(self).stream), *final(final(self).stream) == *final(old(self).stream), final(self).private_key == old(self).private_key, final(self).config == old(self).config,
        r is Ok ==> hinv(*final(self)) && final(self).state == ClientHsState::ServerHello && final(self).client_hello_bytes is Some && final(self).client_hello_random is Some
            && is_hs(chb(*final(self)), 1) && (final(self).client_hello_random->0)@ == ch_random(body_of(chb(*final(self)))),
        r is Ok ==> kl_ok(*final(self)),
//@start
    broadcast use {lemma_hs, lemma_hs_msg};
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn do_handshake
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::ServerHello,
    ensures swf(*final(self).stream), *final(final(self).stream) == *final(old(self).stream), final(self).private_key == old(self).private_key,
        r is Ok ==> is_hs(chb(*final(self)), 1) && complete(*final(self).stream, chb(*final(self)), final(self).private_key),
        r is Ok ==> kl_done(*final(self)),
//@loop 0
    invariant hinv(*self), *final(self.stream) == *final(old(self).stream), self.private_key == old(self).private_key, self.client_hello_bytes is Some, self.client_hello_random is Some, is_hs(chb(*self), 1), self.config == old(self).config,
        kl_ok(*self), (self.client_hello_random->0)@ == ch_random(body_of(chb(*self))),
//@endfn
//@fn net/client/connection.rs impl ClientHandshake :: fn do_handshake_with_error
//@ret r
//@subst `pub fn` => `fn` opt
//@subst `err < TlsError::NotOfficial` => `vx_official(err)` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ClientHsState::ServerHello,
    ensures *final(final(self).stream) == *final(old(self).stream), final(self).private_key == old(self).private_key,
        r is Ok ==> is_hs(chb(*final(self)), 1) && complete(*final(self).stream, chb(*final(self)), final(self).private_key),
        r is Ok ==> kl_done(*final(self)),
//@endfn
}
/// what `connect` returns
pub open spec fn connected(s: TlsStream) -> bool { exists|ch: Seq<u8>, k: PrivateKey| is_hs(ch, 1) && #[trigger] complete(s, ch, k) }
struct ClientConnection();
impl ClientConnection {
//@fn net/client/connection.rs impl ClientConnection :: fn connect
//@ret r
//@subst `pub fn` => `fn` opt
//@spec
    requires sock.rcvd().len() == 0, config.client_cert is Some ==> (config.client_cert->0).raw@.len() < 0x10_0000, config.client_key is Some ==> (config.client_key->0).p256(),
    ensures r is Ok ==> connected(r->Ok_0),
//@before `Ok(stream)` opt
    let ghost ghc = chb(shs); let ghost ghk = shs.private_key;
    proof { assert(connected(stream)) by { assert(is_hs(ghc, 1) && complete(stream, ghc, ghk)); } }
//@endfn
}
}
fn main() {}
