//@include head.inc
//@include conn.inc
#[verifier::external_body]
struct VerifyFn { p: usize }
impl VerifyFn {
    /// the configured check's answer
    uninterp spec fn accepts(&self, x: X509) -> bool;
    #[verifier::external_body]
    fn call(&self, x: &X509) -> (r: bool) ensures r == self.accepts(*x), { unimplemented!() }
}
#[allow(non_camel_case_types)]
#[verifier::external_body]
struct PRNG { p: usize }
//@item net/server/config.rs struct ServerConfig `String` => `VText` `Option<fn(cert: &X509) -> bool>` => `Option<VerifyFn>`
//@item net/server/connection.rs enum ServerHsState nodisc derive=PartialEq,Eq,Structural,Clone,Copy
// ---- the two hellos (check P18) ----
struct ServerHello { cipher_suite: CipherSuite, x: Ghost<int> }
struct ClientHello<'a> { random: &'a [u8], legacy_session_id_echo: Option<&'a [u8]>, src: Ghost<Seq<u8>> }
pub uninterp spec fn ch_share(b: Seq<u8>) -> Seq<u8>;
pub open spec fn ch_random(b: Seq<u8>) -> Seq<u8> { b.subrange(2, 34) }
impl<'a> ClientHello<'a> {
    #[verifier::external_body]
    fn from_raw(buf: &[u8]) -> (r: Result<ClientHello, TlsError>) ensures r is Ok ==> buf@.len() >= 34 && (r->Ok_0).random@ == ch_random(buf@) && (r->Ok_0).src@ == buf@, { unimplemented!() }
    #[verifier::external_body]
    fn get_public_key_share(&self) -> (r: Option<&KeyShareEntry>) ensures r is Some ==> (r->0).group == NamedGroup::X25519 && (r->0).opaque@ == ch_share(self.src@), { unimplemented!() }
}
impl ServerHello {
    #[verifier::external_body]
    fn from_client_hello(client_hello: &ClientHello, rng: &mut URandomRng, config: &ServerConfig) -> (r: Result<(ServerHello, PrivateKey), TlsError>)
        ensures r is Ok ==> (r->Ok_0).1.x25519(),
    { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: Vec<u8>) ensures r@.len() < 0x1_0000, { unimplemented!() }
}
struct ServerExtensions {}
impl ServerExtensions {
    #[verifier::external_body] fn new() -> ServerExtensions { unimplemented!() }
    #[verifier::external_body] fn as_bytes(&self) -> (r: Vec<u8>) ensures r@.len() < 0x1_0000, { unimplemented!() }
}
// ---- what the server has sent and received when it is in a state ----
pub open spec fn hof(ks: KeySchedule) -> HashType { ks.hkdf_master_secret.hash }
#[verifier::opaque]
pub open spec fn fl_hello(ks: KeySchedule, t: Seq<u8>) -> bool
{ exists|ch: Seq<u8>, m: Seq<u8>| t == #[trigger] (ch + m) && hs_ok(ch) && ch[0] == 1 && is_hs(m, 2) && keys_of(ks, ch, t) }
pub open spec fn keys_of(ks: KeySchedule, ch: Seq<u8>, t: Seq<u8>) -> bool
{ exists|pk: PrivateKey, sh: Seq<u8>| sh == ch_share(body_of(ch)) && schedule_s(ks, hof(ks), #[trigger] shared(pk, sh), hash_s(hof(ks), t)) }
#[verifier::opaque]
pub open spec fn fl_ee(ks: KeySchedule, t: Seq<u8>) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && fl_hello(ks, a) && is_hs(m, 8) }
/// a certificate was asked for, with this context
#[verifier::opaque]
pub open spec fn fl_cr(ks: KeySchedule, t: Seq<u8>, ctx: Seq<u8>) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && fl_ee(ks, a) && is_hs(m, 13) && body_of(m).len() > 1 + ctx.len() && body_of(m)[0] == ctx.len() && body_of(m).subrange(1, 1 + ctx.len() as int) == ctx }
pub open spec fn fl_asked(ks: KeySchedule, t: Seq<u8>, ctx: Option<Seq<u8>>) -> bool
{ if ctx is Some { fl_cr(ks, t, ctx->0) } else { fl_ee(ks, t) } }
#[verifier::opaque]
pub open spec fn fl_cert(ks: KeySchedule, t: Seq<u8>, ctx: Option<Seq<u8>>) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && fl_asked(ks, a, ctx) && is_hs(m, 11) }
#[verifier::opaque]
pub open spec fn fl_cv(ks: KeySchedule, t: Seq<u8>, ctx: Option<Seq<u8>>, k: PrivateKey) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && fl_cert(ks, a, ctx) && is_hs(m, 15) && cv_signed(k, body_of(m), {{B:server}}, hash_s(hof(ks), a)) }
/// hellos and the server's messages up to its Finished
#[verifier::opaque]
pub open spec fn flight(ks: KeySchedule, t: Seq<u8>, ctx: Option<Seq<u8>>, k: PrivateKey) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && fl_cv(ks, a, ctx, k) && is_hs(m, 20)
    && body_of(m) == verify_data_s(hof(ks), ks.server_handshake_traffic_secret.pseudo_random_key@, hash_s(hof(ks), a)) }
// the steps of the flight
broadcast proof fn lemma_fl_hello(ks: KeySchedule, h: HashType, pk: PrivateKey, sh: Seq<u8>, ch: Seq<u8>, m: Seq<u8>)
    requires hs_ok(ch), ch[0] == 1, is_hs(m, 2), h == hof(ks), sh == ch_share(body_of(ch)), schedule_s(ks, h, shared(pk, sh), hash_s(h, ch + m)),
    ensures #![trigger schedule_s(ks, h, shared(pk, sh), hash_s(h, ch + m))] fl_hello(ks, ch + m),
{ reveal(fl_hello); assert(keys_of(ks, ch, ch + m)); }
broadcast proof fn lemma_fl_ee(ks: KeySchedule, a: Seq<u8>, m: Seq<u8>)
    requires fl_hello(ks, a), is_hs(m, 8), ensures #![trigger fl_hello(ks, a), a + m] fl_ee(ks, a + m),
{ reveal(fl_ee); }
broadcast proof fn lemma_fl_cr(ks: KeySchedule, a: Seq<u8>, m: Seq<u8>, ctx: Seq<u8>)
    requires fl_ee(ks, a), is_hs(m, 13), body_of(m).len() > 1 + ctx.len(), body_of(m)[0] == ctx.len(), body_of(m).subrange(1, 1 + ctx.len() as int) == ctx,
    ensures #![trigger fl_ee(ks, a), a + m, body_of(m).subrange(1, 1 + ctx.len() as int)] fl_cr(ks, a + m, ctx),
{ reveal(fl_cr); }
broadcast proof fn lemma_fl_cert(ks: KeySchedule, a: Seq<u8>, m: Seq<u8>)
    requires fl_ee(ks, a), is_hs(m, 11), ensures #![trigger fl_ee(ks, a), a + m] fl_cert(ks, a + m, None),
{ reveal(fl_cert); }
broadcast proof fn lemma_fl_cert2(ks: KeySchedule, a: Seq<u8>, m: Seq<u8>, ctx: Seq<u8>)
    requires fl_cr(ks, a, ctx), is_hs(m, 11), ensures #![trigger fl_cr(ks, a, ctx), a + m] fl_cert(ks, a + m, Some(ctx)),
{ reveal(fl_cert); }
broadcast proof fn lemma_fl_cv(ks: KeySchedule, a: Seq<u8>, m: Seq<u8>, b: Seq<u8>, ctx: Option<Seq<u8>>, k: PrivateKey, lbl: Seq<u8>, th: Seq<u8>)
    requires fl_cert(ks, a, ctx), is_hs(m, 15), b == body_of(m), lbl == {{B:server}}, th == hash_s(hof(ks), a), cv_signed(k, b, lbl, th),
    ensures #![trigger fl_cert(ks, a, ctx), a + m, cv_signed(k, b, lbl, th)] fl_cv(ks, a + m, ctx, k),
{ reveal(fl_cv); }
broadcast proof fn lemma_flight(ks: KeySchedule, a: Seq<u8>, m: Seq<u8>, ctx: Option<Seq<u8>>, k: PrivateKey)
    requires fl_cv(ks, a, ctx, k), is_hs(m, 20), body_of(m) == verify_data_s(hof(ks), ks.server_handshake_traffic_secret.pseudo_random_key@, hash_s(hof(ks), a)),
    ensures #![trigger fl_cv(ks, a, ctx, k), a + m] flight(ks, a + m, ctx, k),
{ reveal(flight); }
/// the configured check, if there is one, takes it
pub open spec fn accepted(cfg: ServerConfig, x: X509) -> bool { cfg.client_cert_custom_verify_fn is Some ==> (cfg.client_cert_custom_verify_fn->0).accepts(x) }
/// the client's certificate: an answer to the request, signed by the CA
pub open spec fn cl_cert(cfg: ServerConfig, m: Seq<u8>, ctx: Option<Seq<u8>>, c: Certificate) -> bool {
    let b = body_of(m);
    &&& hs_ok(m) && m[0] == 11 && b.len() > 0 && 1 + b[0] <= b.len() && ctx is Some && b.subrange(1, 1 + b[0]) == ctx->0
    &&& c.raw@ == first_cert(b) && good_cert(c)
    &&& (cfg.client_cert_ca->0).x509 is Some && signed_by((cfg.client_cert_ca->0).x509->0, c.x509->0) && accepted(cfg, c.x509->0)
}
/// after the client's Certificate
pub open spec fn st_cv(cfg: ServerConfig, ks: KeySchedule, t0: Seq<u8>, t: Seq<u8>, ctx: Option<Seq<u8>>, c: Certificate) -> bool
{ exists|m: Seq<u8>| t == #[trigger] (t0 + m) && flight(ks, t0, ctx, cfg.privkey) && cl_cert(cfg, m, ctx, c) }
/// after its proof of possession
pub open spec fn st_auth(cfg: ServerConfig, ks: KeySchedule, t0: Seq<u8>, t: Seq<u8>, ctx: Option<Seq<u8>>, c: Certificate) -> bool
{ exists|a: Seq<u8>, m: Seq<u8>| t == #[trigger] (a + m) && st_cv(cfg, ks, t0, a, ctx, c) && hs_ok(m) && m[0] == 15 && cv_body(body_of(m), c.x509->0, {{B:client}}, hash_s(hof(ks), a)) }
/// all that has to come before the client's Finished; t0: up to the server's Finished
pub open spec fn st_fin(cfg: ServerConfig, ks: KeySchedule, t0: Seq<u8>, t: Seq<u8>, ctx: Option<Seq<u8>>, c: Option<Certificate>) -> bool
{ if cfg.client_cert_ca is Some { c is Some && ctx is Some && st_auth(cfg, ks, t0, t, ctx, c->0) } else { t == t0 && flight(ks, t0, ctx, cfg.privkey) } }
/// the application keys are those of the transcript t
pub open spec fn app_keys(p: RecordPayloadProtection, t: Seq<u8>) -> bool {
    let m = p.key_schedule.hkdf_master_secret; let n = suite_key_len(p.cipher.suite());
    &&& p.application_keys is Some
    &&& fresh_key((p.application_keys->0).client, m.hash, derive_secret(m.hash, m.pseudo_random_key@, {{B:c ap traffic}}, hash_s(m.hash, t)), n)
    &&& fresh_key((p.application_keys->0).server, m.hash, derive_secret(m.hash, m.pseudo_random_key@, {{B:s ap traffic}}, hash_s(m.hash, t)), n)
}
pub open spec fn ends_with(x: Seq<u8>, y: Seq<u8>) -> bool { x.len() >= y.len() && x.subrange(x.len() - y.len(), x.len() as int) == y }
/// the content of a protected record, opened with key and IV of k and counter n
pub open spec fn opens(cs: CipherSuite, k: Key, n: int, raw: Seq<u8>, ty: u8, content: Seq<u8>) -> bool {
    let f = raw.subrange(5, raw.len() as int); let h = raw.subrange(0, 5); let nn = nonce_s(k.iv@, n as u64);
    raw.len() >= 22 && 0 <= n < u64::MAX && tag_of(f) == aead_tag(cs, k.key@, nn, ciphertext_of(f), h) && inner_s(open_pt(cs, k.key@, nn, ciphertext_of(f), h)) == Some((ty, content))
}
/// a right Finished of the client
pub open spec fn is_fin(ks: KeySchedule, content: Seq<u8>, t: Seq<u8>) -> bool
{ hs_ok(content) && content[0] == 20 && body_of(content) == verify_data_s(hof(ks), ks.client_handshake_traffic_secret.pseudo_random_key@, hash_s(hof(ks), t)) }
/// the last record that was taken in holds this content, under the client's handshake key
pub open spec fn last_opened(x: Seq<u8>, p: RecordPayloadProtection, ty: u8, content: Seq<u8>) -> bool {
    let k = p.handshake_keys.client;
    exists|raw: Seq<u8>| ends_with(x, raw) && #[trigger] opens(p.cipher.suite(), k, k.sequence_number - 1, raw, ty, content)
}
/// and it is the client's Finished
pub open spec fn got_fin(x: Seq<u8>, p: RecordPayloadProtection, t: Seq<u8>) -> bool
{ exists|content: Seq<u8>| #[trigger] last_opened(x, p, 22, content) && is_fin(p.key_schedule, content, t) }
pub open spec fn complete(s: TlsStream, cfg: ServerConfig) -> bool {
    &&& s.protection is Some && !(s.protection->0).is_client && wf(s.protection->0) && s.plaintext@.len() == 0
    &&& authenticated(cfg, s.protection->0, consumed(s))
}
pub open spec fn authenticated(cfg: ServerConfig, p: RecordPayloadProtection, x: Seq<u8>) -> bool
{ exists|t0: Seq<u8>, t: Seq<u8>, ctx: Option<Seq<u8>>, c: Option<Certificate>| #[trigger] st_fin(cfg, p.key_schedule, t0, t, ctx, c) && app_keys(p, t0) && got_fin(x, p, t) }
//@item net/server/connection.rs struct ServerHandshake `Option<Box<dyn TranscriptHash>>` => `Option<TsHash>` `Box<dyn RngCore<IBig>>` => `URandomRng`
pub open spec fn kss(s: ServerHandshake) -> KeySchedule { (s.stream.protection->0).key_schedule }
pub open spec fn fed(s: ServerHandshake) -> Seq<u8> { (s.tshash->0).fed() }
pub open spec fn snap(s: ServerHandshake) -> Seq<u8> { (s.tshash_clienthello_serverfinished->0).fed() }
pub open spec fn ctxs(s: ServerHandshake) -> Option<Seq<u8>> { match s.certificate_request_context { Some(v) => Some(v@), None => None } }
pub open spec fn cfg_ok(c: ServerConfig) -> bool { c.cert.raw@.len() < 0x10_0000 && c.privkey.p256() }
pub open spec fn hinv(s: ServerHandshake) -> bool {
    let p = s.stream.protection->0; let ks = kss(s); let cfg = *s.config; let ctx = ctxs(s);
    &&& swf(*s.stream) && cfg_ok(cfg) && s.stream.plaintext@.len() == 0
    &&& s.state != ServerHsState::ClientHello && s.state != ServerHsState::Ready ==> s.stream.protection is Some && !p.is_client && p.application_keys is None && s.tshash is Some && (s.tshash->0).typ() == hof(ks)
        && ks.server_handshake_traffic_secret.hash == hof(ks) && ks.client_handshake_traffic_secret.hash == hof(ks) && ks_ok(ks)
        && (s.tshash_clienthello_serverfinished is Some ==> (s.tshash_clienthello_serverfinished->0).typ() == hof(ks))
    &&& s.state == ServerHsState::ClientHello ==> s.stream.protection is None && s.tshash_clienthello_serverfinished is None && s.certificate_request_context is None
    &&& s.state == ServerHsState::ClientCertificate ==> cfg.client_cert_ca is Some && ctx is Some && flight(ks, fed(s), ctx, cfg.privkey)
    &&& s.state == ServerHsState::ClientCertificateVerify ==> cfg.client_cert_ca is Some && ctx is Some && s.client_cert is Some && s.tshash_clienthello_serverfinished is Some && st_cv(cfg, ks, snap(s), fed(s), ctx, s.client_cert->0)
    &&& s.state == ServerHsState::ClientFinished ==> (s.tshash_clienthello_serverfinished is Some) == (cfg.client_cert_ca is Some)
        && st_fin(cfg, ks, if s.tshash_clienthello_serverfinished is Some { snap(s) } else { fed(s) }, fed(s), ctx, s.client_cert)
    &&& s.state == ServerHsState::Ready ==> complete(*s.stream, cfg)
}
/// key logging: what it holds after each step; the random is the one in the first message of the transcript
pub open spec fn first_random(t: Seq<u8>) -> Seq<u8> { t.subrange(6, 38) }
pub open spec fn kl_ok(s: ServerHandshake) -> bool {
    if s.state == ServerHsState::ClientHello || s.config.keylog is None { s.keylog is None }
    else { s.keylog is Some && s.tshash is Some && fed(s).len() >= 38 && kl_lines(s.keylog->0, first_random(fed(s)), s.stream.protection->0, s.state == ServerHsState::Ready) }
}
/// and at the end
pub open spec fn kl_done(s: ServerHandshake) -> bool {
    if s.config.keylog is None { s.keylog is None } else { s.keylog is Some && s.tshash is Some && kl_lines(s.keylog->0, first_random(fed(s)), s.stream.protection->0, true) }
}
broadcast proof fn lemma_first(a: Seq<u8>, m: Seq<u8>)
    requires a.len() >= 38, ensures #![trigger first_random(a), a + m] first_random(a + m) == first_random(a), (a + m).len() >= 38,
{ assert((a + m).subrange(6, 38) =~= a.subrange(6, 38)); }
impl<'a> ServerHandshake<'a> {
//@fn net/server/connection.rs impl ServerHandshake :: fn new
//@ret r
//@subst `pub fn` => `fn` opt
//@resub `match config\.prng_type \{[^}]*\}` => `URandomRng::new()` opt
//@spec
    requires swf(*old(stream)), old(stream).protection is None, old(stream).plaintext@.len() == 0, cfg_ok(*config),
    ensures hinv(r),
        kl_ok(r),
        r.state == ServerHsState::ClientHello, *r.stream == *old(stream), *final(r.stream) == *final(stream), *r.config == *config,
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn handle_client_hello
//@ret r
//@subst `&mut *self.rng` => `&mut self.rng` opt
//@resub `let keylog = KeyLog` => `let mut keylog = KeyLog` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ServerHsState::ClientHello,
    ensures swf(*final(self).stream), *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ServerHsState::Ready && final(self).state != ServerHsState::ClientHello,
        r is Ok ==> kl_ok(*final(self)),
//@start
    broadcast use lemma_first;
    broadcast use {lemma_hs, lemma_hs_msg, lemma_fl_hello, lemma_fl_ee, lemma_fl_cr, lemma_fl_cert, lemma_fl_cert2, lemma_fl_cv, lemma_flight};
    let ghost rf = vbytes(record.fraqment);
    proof { assert(Seq::<u8>::empty() + rf =~= rf); }
//@end
    proof { if self.keylog is Some { let l = (self.keylog->0).log@; assert(l =~= seq![l[0]]); assert(first_random(rf) =~= body_of(rf.subrange(0, 4 + hs_len(rf))).subrange(2, 34)); } }
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn handle_client_certificate
//@ret r
//@subst `pub fn` => `fn` opt
//@subst `!f(` => `!f.call(` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ServerHsState::ClientCertificate,
    ensures swf(*final(self).stream), *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ServerHsState::Ready && final(self).state != ServerHsState::ClientHello,
        r is Ok ==> kl_ok(*final(self)),
//@start
    broadcast use lemma_first;
    broadcast use {lemma_hs, lemma_hs_msg};
    proof { ax_eq(); }
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn handle_client_certificate_verify
//@ret r
//@subst `pub fn` => `fn` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ServerHsState::ClientCertificateVerify,
    ensures swf(*final(self).stream), *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ServerHsState::Ready && final(self).state != ServerHsState::ClientHello,
        r is Ok ==> kl_ok(*final(self)),
//@start
    broadcast use lemma_first;
    broadcast use {lemma_hs, lemma_hs_msg};
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn handle_client_finish
//@ret r
//@subst `pub fn` => `fn` opt
//@resub `Some\((\w+)\) = &self\.keylog` => `Some(\1) = &mut self.keylog` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ServerHsState::ClientFinished || old(self).state is FinishWithError, last_opened(consumed(*old(self).stream), old(self).stream.protection->0, 22, vbytes(record.fraqment)),
    ensures swf(*final(self).stream), *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ServerHsState::ClientHello,
        r is Ok ==> kl_ok(*final(self)),
//@start
    broadcast use {lemma_hs, lemma_hs_msg, lemma_first};
    let ghost me = *self; let ghost rf = vbytes(record.fraqment);
    proof { ax_eq(); }
//@end
    proof {
        if self.keylog is Some { let l = (self.keylog->0).log@; assert(l =~= seq![l[0], lines_s(self.stream.protection->0)]); }
        let s = *self.stream; let t0 = if me.tshash_clienthello_serverfinished is Some { snap(me) } else { fed(me) };
        if !(me.state is FinishWithError) {
        assert(last_opened(consumed(s), s.protection->0, 22, rf)) by {
            let p = me.stream.protection->0; let k = p.handshake_keys.client; let q = s.protection->0;
            let raw = choose|raw: Seq<u8>| ends_with(consumed(*me.stream), raw) && #[trigger] opens(p.cipher.suite(), k, k.sequence_number - 1, raw, 22, rf);
            assert(opens(q.cipher.suite(), q.handshake_keys.client, q.handshake_keys.client.sequence_number - 1, raw, 22, rf));
        }
        assert(is_fin(kss(me), rf, fed(me)));
        assert(got_fin(consumed(s), s.protection->0, fed(me)));
        assert(st_fin(*me.config, kss(me), t0, fed(me), ctxs(me), me.client_cert));
        assert(app_keys(s.protection->0, t0));
        }
    }
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn handle_handshake_encrypted_record
//@ret r
//@subst `crate::net::record::Value` => `Value` opt all
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state != ServerHsState::ClientHello, old(self).state != ServerHsState::Ready,
        record.header@.len() == 5, ends_with(consumed(*old(self).stream), record.header@ + vbytes(record.fraqment)),
    ensures swf(*final(self).stream), *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)) && final(self).state != ServerHsState::ClientHello,
        r is Ok ==> kl_ok(*final(self)),
//@start
    let ghost raw = record.header@ + vbytes(record.fraqment);
    proof { assert(raw.subrange(0, 5) =~= record.header@); assert(raw.subrange(5, raw.len() as int) =~= vbytes(record.fraqment)); }
//@before `match self.state` opt
    proof {
        let p = self.stream.protection->0; let k = p.handshake_keys.client;
        assert(opens(p.cipher.suite(), k, k.sequence_number - 1, raw, record.content_type as u8, vbytes(record.fraqment)));
    }
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn handle_handshake_record
//@ret r
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state != ServerHsState::Ready,
        record.header@.len() == 5, ends_with(consumed(*old(self).stream), record.header@ + vbytes(record.fraqment)),
    ensures swf(*final(self).stream), *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream), r is Ok ==> hinv(*final(self)),
        r is Ok ==> kl_ok(*final(self)),
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn do_handshake
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ServerHsState::ClientHello,
    ensures swf(*final(self).stream), *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream),
        r is Ok ==> complete(*final(self).stream, *final(self).config),
        r is Ok ==> kl_done(*final(self)),
//@loop 0
    invariant 
        kl_ok(*self),
        hinv(*self), *final(self.stream) == *final(old(self).stream), *self.config == *old(self).config,
//@before `self.handle_handshake_record(record)` opt
    proof { let y = record.header@ + vbytes(record.fraqment); let x = consumed(*self.stream); assert(x.subrange(x.len() - y.len(), x.len() as int) =~= y); }
//@endfn
//@fn net/server/connection.rs impl ServerHandshake :: fn do_handshake_with_error
//@ret r
//@subst `pub fn` => `fn` opt
//@subst `err < TlsError::NotOfficial` => `vx_official(err)` opt
//@spec
    requires
        kl_ok(*old(self)),
        hinv(*old(self)), old(self).state == ServerHsState::ClientHello,
    ensures *final(self).config == *old(self).config, *final(final(self).stream) == *final(old(self).stream),
        r is Ok ==> complete(*final(self).stream, *final(self).config),
        r is Ok ==> kl_done(*final(self)),
//@endfn
}
// ---- the listener ----
#[verifier::external_body]
struct TcpListener { p: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
struct SocketAddr { p: usize }
impl TcpListener {
    #[verifier::external_body]
    fn accept(&self) -> (r: Result<(TcpStream, SocketAddr), ()>) ensures r is Ok ==> (r->Ok_0).0.rcvd().len() == 0, { unimplemented!() }
}
//@item net/server/connection.rs struct ServerConnection
impl ServerConnection {
//@fn net/server/connection.rs impl ServerConnection :: fn accept
//@ret r
//@subst `pub fn` => `fn` opt
//@spec
    requires cfg_ok(self.config),
    ensures r is Ok ==> complete((r->Ok_0).0, self.config),
//@endfn
}
}
fn main() {}
