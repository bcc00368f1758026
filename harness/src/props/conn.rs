//! Scripted peers: a TLS 1.3 endpoint written against RFC 8446 and refs.rs, which talks to the real
//! client or server over loopback and may send its messages in any order, altered or not at all.
use crate::ctx::*;
use crate::props::hello::{ext, hello, shello, u16s, x_groups, x_shares, x_sigs, x_versions};
use crate::props::misc::{cert, cert_hello, finish, key, sign, tbs, Key, OID_ES256};
use crate::props::net::{hlen, klen, nonce, schedule, seal_ref, Secrets, SUITES};
use crate::refs;
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::crypto::CipherSuite;
use anothertls::net::alert::TlsError;
use anothertls::net::client::ClientConfig;
use anothertls::net::handshake::Certificate;
use anothertls::net::server::ServerConfig;
use anothertls::net::TlsStream;
use anothertls::rand::PRNG;
use anothertls::utils::{keylog::KeyLog, x509::X509};
use anothertls::{ClientConnection, ServerConnection};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::OnceLock;
use std::time::Duration;

// ------------------------------------------------------------------ keys and certificates of the cases
struct World { ca: Key, other_ca: Key, cl: Key, cl2: Key, sv: Key, ca_der: Vec<u8>, cl_der: Vec<u8>, sv_der: Vec<u8> }
fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let (ca, other_ca, cl, cl2, sv) = (key(901), key(902), key(903), key(904), key(905));
        let ca_der = cert("CA", &ca.q, &ca);
        let cl_der = cert("client", &cl.q, &ca);
        let sv_der = cert("server", &sv.q, &ca);
        World { ca, other_ca, cl, cl2, sv, ca_der, cl_der, sv_der }
    })
}
fn u24(n: usize) -> Vec<u8> { vec![(n >> 16) as u8, (n >> 8) as u8, n as u8] }
fn msg(t: u8, body: &[u8]) -> Vec<u8> { let mut o = vec![t]; o.extend(u24(body.len())); o.extend(body); o }
fn rec(t: u8, body: &[u8]) -> Vec<u8> { let mut o = vec![t, 3, 3, (body.len() >> 8) as u8, body.len() as u8]; o.extend(body); o }
fn cv_body(d: &ibig::IBig, th: &[u8], who: &str, k: u64) -> Vec<u8> {
    let mut m = vec![0x20; 64]; m.extend(format!("TLS 1.3, {} CertificateVerify", who).as_bytes()); m.push(0);
    cv_over(d, &m, th, k)
}
/// a signature over another text before the hash
fn cv_over(d: &ibig::IBig, text: &[u8], th: &[u8], k: u64) -> Vec<u8> {
    let m = [text, th].concat();
    let (r, s) = sign(d, &refs::sha256(&m), k);
    let sig = refs::der_sig(&r, &s);
    let mut o = vec![4, 3, (sig.len() >> 8) as u8, sig.len() as u8]; o.extend(sig); o
}

// ------------------------------------------------------------------ one end of a connection
struct Dir { key: Vec<u8>, iv: Vec<u8>, seq: u64 }
struct Peer { s: TcpStream, rx: Vec<u8>, cs: CipherSuite, t: Vec<u8>, is_client: bool, sec: Option<Secrets>, out: Option<Dir>, inn: Option<Dir>, reset: bool, hold: Option<Vec<u8>> }
impl Peer {
    fn new(s: TcpStream, is_client: bool) -> Peer {
        let _ = s.set_read_timeout(Some(Duration::from_secs(10))); let _ = s.set_write_timeout(Some(Duration::from_secs(10))); let _ = s.set_nodelay(true);
        Peer { s, rx: vec![], cs: SUITES[0], t: vec![], is_client, sec: None, out: None, inn: None, reset: false, hold: None }
    }
    fn n(&self) -> usize { hlen(self.cs) }
    fn dir(&self, secret: &[u8]) -> Dir { let n = self.n(); Dir { key: refs::expand_label(n, secret, b"key", b"", klen(self.cs)), iv: refs::expand_label(n, secret, b"iv", b"", 12), seq: 0 } }
    fn th(&self) -> Vec<u8> { refs::sha(self.n(), &self.t) }
    /// one whole record, as it is on the wire
    fn raw(&mut self) -> Option<Vec<u8>> {
        loop {
            if self.rx.len() >= 5 { let l = (self.rx[3] as usize) << 8 | self.rx[4] as usize; if self.rx.len() >= 5 + l { let r = self.rx.split_off(5 + l); return Some(std::mem::replace(&mut self.rx, r)) } }
            let mut b = [0u8; 4096];
            match self.s.read(&mut b) { Ok(0) => return None, Ok(n) => self.rx.extend(&b[..n]), Err(e) => { if e.kind() == std::io::ErrorKind::ConnectionReset { self.reset = true } return None } }
        }
    }
    /// (content type, content) of the next record, opened with the key in use
    fn next(&mut self) -> Option<(u8, Vec<u8>)> {
        let r = self.raw()?;
        if r[0] != 23 { return Some((r[0], r[5..].to_vec())) }
        let d = self.inn.as_mut()?;
        if r.len() < 22 { return None }
        let n = nonce(&d.iv, d.seq); d.seq += 1;
        let (ct, tag) = (&r[5..r.len() - 16], &r[r.len() - 16..]);
        let (pt, tg) = match self.cs { CipherSuite::TLS_CHACHA20_POLY1305_SHA256 => refs::chapoly(&d.key, &n, ct, &r[..5], true), _ => refs::gcm(&d.key, &n, ct, &r[..5], true) };
        if tg != *tag { return None }
        let e = pt.iter().rposition(|x| *x != 0)?;
        Some((pt[e], pt[..e].to_vec()))
    }
    fn put(&mut self, b: &[u8]) -> bool { if let Some(h) = self.hold.as_mut() { h.extend(b); return true } self.s.write_all(b).is_ok() }
    fn release(&mut self) { if let Some(h) = self.hold.take() { self.put(&h); } }
    fn seal(&mut self, t: u8, body: &[u8]) -> Vec<u8> {
        let cs = self.cs; let d = self.out.as_mut().unwrap();
        let mut inner = body.to_vec(); inner.push(t);
        let r = seal_ref(cs, &d.key, &nonce(&d.iv, d.seq), &inner); d.seq += 1; r
    }
    fn keys(&mut self, shared: &[u8]) {
        let s = schedule(self.n(), &self.th(), shared);
        let (c, v) = (self.dir(&s.c_hs), self.dir(&s.s_hs));
        let (o, i) = if self.is_client { (c, v) } else { (v, c) };
        self.out = Some(o); self.inn = Some(i); self.sec = Some(s);
    }
    fn finished(&self, secret: &[u8], th: &[u8]) -> Vec<u8> { let n = self.n(); refs::hmac(n, &refs::expand_label(n, secret, b"finished", b"", n), th) }
    fn app(&self, th: &[u8]) -> (Vec<u8>, Vec<u8>) { let n = self.n(); let m = &self.sec.as_ref().unwrap().master; (refs::expand_label(n, m, b"c ap traffic", th, n), refs::expand_label(n, m, b"s ap traffic", th, n)) }
    fn use_app(&mut self, th: &[u8]) { let (c, s) = self.app(th); let (c, s) = (self.dir(&c), self.dir(&s)); let (o, i) = if self.is_client { (c, s) } else { (s, c) }; self.out = Some(o); self.inn = Some(i); }
    /// everything the other side still sends: the alert in it, if any
    fn drain(&mut self, th_app: Option<&[u8]>) -> Option<u8> {
        let mut alert = None;
        let mut tries = 0;
        while let Some(r) = self.raw() {
            tries += 1; if tries > 64 { break }
            if r[0] == 21 && r.len() == 7 { alert = Some(r[6]); continue }
            if r[0] != 23 { continue }
            // the sender's handshake key, or its first application record
            self.rx.splice(0..0, r.iter().cloned());
            let d = self.inn.as_ref().map(|d| (d.key.clone(), d.iv.clone(), d.seq));
            match self.next() { Some((21, b)) if b.len() == 2 => { alert = Some(b[1]); continue } Some(_) => continue, None => {} }
            if let (Some(th), Some((k, iv, seq))) = (th_app, d) {
                let (c, s) = self.app(th);
                self.inn = Some(self.dir(if self.is_client { &s } else { &c }));
                self.rx.splice(0..0, r.iter().cloned());
                if let Some((21, b)) = self.next() { if b.len() == 2 { alert = Some(b[1]) } }
                self.inn = Some(Dir { key: k, iv, seq });
            }
        }
        alert
    }
}
fn pair() -> (TcpListener, TcpStream) { let l = TcpListener::bind("127.0.0.1:0").unwrap(); let s = TcpStream::connect(l.local_addr().unwrap()).unwrap(); (l, s) }
fn fixed(v: &[u8]) -> [u8; 32] { let mut a = [0; 32]; a.copy_from_slice(v); a }
fn base() -> [u8; 32] { let mut b = [0; 32]; b[0] = 9; b }

// ------------------------------------------------------------------ a client that follows a script
#[derive(Clone)]
pub struct SrvCfg { ca: bool, custom: Option<fn(&X509) -> bool>, keylog: Option<String>, prng: u8 }
fn srv(cfg: &SrvCfg) -> ServerConfig {
    let w = world();
    ServerConfig { privkey: PrivateKey::new(Curve::secp256r1(), w.sv.d.clone()), cert: Certificate { raw: w.sv_der.clone(), x509: None },
        client_cert_ca: if cfg.ca { Some(Certificate::from_raw_x509(w.ca_der.clone()).ok().unwrap()) } else { None }, client_cert_custom_verify_fn: cfg.custom,
        keylog: cfg.keylog.clone(), server_name: None, prng_type: if cfg.prng == 0 { PRNG::Simple } else { PRNG::URandom } }
}
/// the handshake up to the server's Finished; -> certificate request context, or what went wrong
fn client_start(p: &mut Peer, random: &[u8], x: &[u8; 32], sid: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let cs = p.cs;
    let ch = msg(1, &hello(random, sid, &[cs.as_u16()], &[x_versions(&[0x304]), x_groups(&[0x1d]), x_sigs(&[0x403]), x_shares(&[(0x1d, refs::x25519(x, &base()).to_vec())])]));
    if !p.put(&rec(22, &ch)) { return Err("no connection".into()) }
    p.t = ch;
    let (t, sh) = p.next().ok_or("no ServerHello")?;
    if t != 22 || sh[0] != 2 { return Err(format!("no ServerHello but {} {}", t, hex(&sh))) }
    let share = find_share(&sh[4..], false).ok_or("no key share in the ServerHello")?;
    p.t.extend(&sh);
    if share.len() != 32 { return Err("key share".into()) }
    p.keys(&refs::x25519(x, &fixed(&share)));
    let mut ctx = None;
    loop {
        let (t, m) = p.next().ok_or("the server's flight is not complete or cannot be opened")?;
        if t == 20 { continue }
        if t != 22 { return Err(format!("record of type {} {} in the server's flight", t, hex(&m))) }
        let mut o = 0;
        while o + 4 <= m.len() {
            let l = (m[o + 1] as usize) << 16 | (m[o + 2] as usize) << 8 | m[o + 3] as usize;
            if o + 4 + l > m.len() { return Err("a message is cut".into()) }
            let (ty, b) = (m[o], &m[o + 4..o + 4 + l]);
            if ty == 13 { ctx = Some(b[1..1 + b[0] as usize].to_vec()) }
            if ty == 20 {
                let w = p.finished(&p.sec.as_ref().unwrap().s_hs.clone(), &p.th());
                if b != w { return Err("the server's Finished is wrong".into()) }
                p.t.extend(&m[o..o + 4 + l]);
                return Ok(ctx)
            }
            p.t.extend(&m[o..o + 4 + l]); o += 4 + l;
        }
    }
}
/// the X25519 share in a hello
fn find_share(h: &[u8], client: bool) -> Option<Vec<u8>> {
    let mut o = 34; o += 1 + *h.get(o)? as usize;
    if client { o += 2 + ((*h.get(o)? as usize) << 8 | *h.get(o + 1)? as usize); o += 1 + *h.get(o)? as usize; } else { o += 3 }
    o += 2;
    while o + 4 <= h.len() {
        let (t, l) = ((h[o] as usize) << 8 | h[o + 1] as usize, (h[o + 2] as usize) << 8 | h[o + 3] as usize);
        let b = h.get(o + 4..o + 4 + l)?;
        if t == 51 {
            if !client { return b.get(4..).map(|x| x.to_vec()) }
            let mut i = 2;
            while i + 4 <= b.len() { let n = (b[i + 2] as usize) << 8 | b[i + 3] as usize; if b[i] == 0 && b[i + 1] == 0x1d { return b.get(i + 4..i + 4 + n).map(|x| x.to_vec()) } i += 4 + n }
        }
        o += 4 + l;
    }
    None
}
/// does one step of the script
fn client_step(p: &mut Peer, st: &str, ctx: &[u8], chsf: &[u8], k: u64) -> bool {
    let w = world();
    let (c_hs, s_hs) = { let s = p.sec.as_ref().unwrap(); (s.c_hs.clone(), s.s_hs.clone()) };
    let th = p.th();
    let m = match st {
        "hold" => return { p.hold = Some(vec![]); true },
        "ccs" => return { p.put(&rec(20, &[1])) },
        "plain-fin" => return { let v = msg(20, &p.finished(&c_hs, &th)); p.put(&rec(22, &v)) },
        "plain-app" => return p.put(&rec(23, b"GET / HTTP/1.0\r\n\r\n, in the clear")),
        "app" => return { let r = p.seal(23, b"GET / HTTP/1.0\r\n\r\n"); p.put(&r) },
        "early-app" => return { let o = p.out.take(); let (c, _) = p.app(chsf); p.out = Some(p.dir(&c)); let r = p.seal(23, b"GET /"); p.out = o; p.put(&r) },
        "zero" => return { let r = p.seal(22, b""); p.put(&r) },
        "alert" => return { let r = p.seal(21, &[2, 40]); p.put(&r) },
        "cert" => msg(11, &cert_hello(&[&w.cl_der], ctx)),
        "cert-other-ca" => msg(11, &cert_hello(&[&cert("client", &w.cl.q, &w.other_ca)], ctx)),
        "cert-self" => msg(11, &cert_hello(&[&cert("client", &w.cl.q, &w.cl)], ctx)),
        "cert-ca" => msg(11, &cert_hello(&[&w.ca_der], ctx)),
        "cert-denied" => msg(11, &cert_hello(&[&cert("denied", &w.cl.q, &w.ca)], ctx)),
        "cert-other-key" => msg(11, &cert_hello(&[&cert("client", &w.cl2.q, &w.ca)], ctx)),
        "cert-tampered" => { let mut d = w.cl_der.clone(); let i = d.len() - 90 - (k as usize % 40); d[i] ^= 1 << (k % 8); msg(11, &cert_hello(&[&d], ctx)) }
        // the signed part names another key than the one appended
        "cert-tbs" => { let t = tbs("client", &w.cl.q, "000101000000Z", "491231235959Z", OID_ES256); let (r, s) = sign(&w.other_ca.d, &refs::sha256(&t), 3); msg(11, &cert_hello(&[&finish(&t, OID_ES256, &refs::der_sig(&r, &s))], ctx)) }
        // signed by the client CA, but not valid now
        "cert-expired" => msg(11, &cert_hello(&[&dated("client", &w.cl.q, &w.ca, "000101000000Z", "200101000000Z")], ctx)),
        "cert-ended" => msg(11, &cert_hello(&[&dated("client", &w.cl.q, &w.ca, "000101000000Z", &utc(-90))], ctx)),
        "cert-future" => msg(11, &cert_hello(&[&dated("client", &w.cl.q, &w.ca, "480101000000Z", "491231235959Z")], ctx)),
        "cert-tomorrow" => msg(11, &cert_hello(&[&dated("client", &w.cl.q, &w.ca, &utc(86000), "491231235959Z")], ctx)),
        "cert-soon" => msg(11, &cert_hello(&[&dated("client", &w.cl.q, &w.ca, &utc(-3600), &utc(3600))], ctx)),
        // more than one read buffer, more than one small record's worth
        "cert-anon" => msg(11, &cert_hello(&[&nameless(None, &w.cl.q, &w.ca)], ctx)),
        "cert-org" => msg(11, &cert_hello(&[&nameless(Some("client"), &w.cl.q, &w.ca)], ctx)),
        "cert-big" => msg(11, &cert_hello(&[&cert(&"long".repeat(600 + k as usize % 900), &w.cl.q, &w.ca)], ctx)),
        "cert-chain" => msg(11, &cert_hello(&[&cert("client", &w.cl.q, &w.other_ca), &w.cl_der], ctx)),
        "cert-none" => msg(11, &cert_hello(&[], ctx)),
        "cert-garbage" => msg(11, &cert_hello(&[&[1, 2, 3]], ctx)),
        "cert-context" => { let mut c2 = ctx.to_vec(); if c2.is_empty() { c2.push(0) } c2[0] ^= 1; msg(11, &cert_hello(&[&w.cl_der], &c2)) }
        "cert-ctx-cut" => msg(11, &cert_hello(&[&w.cl_der], &ctx[..ctx.len().saturating_sub(1)])),
        "cert-ctx-one" => msg(11, &cert_hello(&[&w.cl_der], &ctx[..ctx.len().min(1)])),
        "cert-ctx-more" => { let mut c2 = ctx.to_vec(); c2.push(0); msg(11, &cert_hello(&[&w.cl_der], &c2)) }
        "cert-no-context" => msg(11, &cert_hello(&[&w.cl_der], &[])),
        "cv" => msg(15, &cv_body(&w.cl.d, &th, "client", k)),
        "cv-other-key" => msg(15, &cv_body(&w.cl2.d, &th, "client", k)),
        "cv-ca-key" => msg(15, &cv_body(&w.ca.d, &th, "client", k)),
        "cv-no-label" => msg(15, &cv_body(&w.cl.d, &th, "", k)),
        "cv-no-word" => { let m = [&[0x20; 64][..], b"TLS 1.3,  CertificateVerify\0", b"TLS 1.3, CertificateVerify\0", b"TLS 1.2, client CertificateVerify\0", b"client CertificateVerify\0", b"TLS 1.3, client\0", b"TLS 1.3, client CertificateVerify", b"TLS 1.3, clientCertificateVerify\0"]; let i = 1 + k as usize % 7; msg(15, &cv_over(&w.cl.d, &[m[0], m[i]].concat(), &th, k)) }
        "cv-no-blanks" => msg(15, &cv_over(&w.cl.d, &[&[0x20; 63][..k as usize % 64], b"TLS 1.3, client CertificateVerify\0"].concat(), &th, k)),
        "cv-bare" => msg(15, &cv_over(&w.cl.d, &[], &th, k)),
        "cv-server-label" => msg(15, &cv_body(&w.cl.d, &th, "server", k)),
        "cv-old" => msg(15, &cv_body(&w.cl.d, &refs::sha(p.n(), chsf), "client", k)),
        "cv-bit" => { let mut b = cv_body(&w.cl.d, &th, "client", k); let i = b.len() - 1 - (k as usize % 20); b[i] ^= 1 << (k % 8); msg(15, &b) }
        "cv-zero" => msg(15, &[4, 3, 0, 8, 0x30, 6, 2, 1, 0, 2, 1, 0]),
        "cv-empty" => msg(15, &[4, 3, 0, 0]),
        "cv-short" => msg(15, &[]),
        "cv-alg" => { let mut b = cv_body(&w.cl.d, &th, "client", k); b[0] = 8; b[1] = 4; msg(15, &b) }
        "cv-len-low" => { let mut b = cv_body(&w.cl.d, &th, "client", k); b[3] -= 1; msg(15, &b) }
        "cv-len-high" => { let mut b = cv_body(&w.cl.d, &th, "client", k); b[3] += 1; msg(15, &b) }
        "cv-len-none" => { let mut b = cv_body(&w.cl.d, &th, "client", k); b[3] = 0; msg(15, &b) }
        "cv-len-more" => { let mut b = cv_body(&w.cl.d, &th, "client", k); b[2] = 1; msg(15, &b) }
        "fin" => msg(20, &p.finished(&c_hs, &th)),
        "fin-bit" => { let mut v = p.finished(&c_hs, &th); let i = k as usize % v.len(); v[i] ^= 1 << (k % 8); msg(20, &v) }
        "fin-last" => { let mut v = p.finished(&c_hs, &th); let i = v.len() - 1; v[i] ^= 1; msg(20, &v) }
        "fin-short" => { let v = p.finished(&c_hs, &th); msg(20, &v[..v.len() - 1]) }
        "fin-12" => { let v = p.finished(&c_hs, &th); msg(20, &v[..12]) }
        "fin-32" => { let mut v = p.finished(&c_hs, &th); if v.len() > 32 { v.truncate(32) } else { v.extend([0; 16]) } msg(20, &v) }
        "fin-tail" => { let mut v = p.finished(&c_hs, &th); let n = v.len(); for i in (if n > 32 { 32 } else { 16 })..n { v[i] ^= 0x11 } msg(20, &v) }
        "fin-long" => { let mut v = p.finished(&c_hs, &th); v.push(0); msg(20, &v) }
        "fin-empty" => msg(20, &[]),
        "fin-server" => msg(20, &p.finished(&s_hs, &th)),
        "fin-old" => msg(20, &p.finished(&c_hs, &refs::sha(p.n(), chsf))),
        "fin-zero-key" => msg(20, &refs::hmac(p.n(), &vec![0; p.n()], &th)),
        "ee" => msg(8, &[0, 0]),
        "ch" => msg(1, &[0; 50]),
        "key-update" => msg(24, &[0]),
        s => panic!("step {}", s),
    };
    p.t.extend(&m);
    let r = p.seal(22, &m);
    p.put(&r)
}
/// a certificate whose subject has no common name: no name at all, or an organization
fn nameless(org: Option<&str>, q: &refs::Pt, ca: &Key) -> Vec<u8> {
    let subject = |n: Option<&str>| match n { None => refs::der_tlv(0x30, &[]), Some(o) => refs::der_tlv(0x30, &refs::der_tlv(0x31, &refs::der_tlv(0x30, &[refs::der_tlv(6, &[0x55, 4, 10]), refs::der_tlv(12, o.as_bytes())].concat()))) };
    let t = super::misc::tbs_named(subject(org), q, "000101000000Z", "491231235959Z", OID_ES256);
    let (r, s) = sign(&ca.d, &refs::sha256(&t), 3);
    finish(&t, OID_ES256, &refs::der_sig(&r, &s))
}
/// a certificate with this validity, signed by `ca`
fn dated(subject: &str, q: &refs::Pt, ca: &Key, from: &str, to: &str) -> Vec<u8> { let t = tbs(subject, q, from, to, OID_ES256); let (r, s) = sign(&ca.d, &refs::sha256(&t), 3); finish(&t, OID_ES256, &refs::der_sig(&r, &s)) }
/// the UTCTime so many seconds from now
fn utc(off: i64) -> String {
    let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(0) + off;
    super::misc::utc_text(t as u64)
}
type Out = Result<(), TlsError>;
/// runs the real server against the script; -> (its result, alert seen, peer)
fn run_server(cfg: &SrvCfg, cs: CipherSuite, x: &[u8; 32], random: &[u8], script: &[&str], k: u64, with: impl FnOnce(TlsStream) + Send + 'static, after: impl FnOnce(&mut Peer, &[u8])) -> Result<(Out, Option<u8>, Peer, Vec<u8>), String> {
    let (l, s) = pair();
    let conf = srv(cfg);
    let h = std::thread::spawn(move || { let sc = ServerConnection::new(l, conf); match sc.accept() { Ok((st, _)) => { with(st); Ok(()) } Err(e) => Err(e) } });
    let mut p = Peer::new(s, true); p.cs = cs;
    let st = client_start(&mut p, random, x, &random[..random.len() % 33]);
    let ctx = match st { Ok(c) => c, Err(e) => { let _ = p.s.shutdown(Shutdown::Both); drop(p); let r = h.join(); return Err(format!("{} ({:?})", e, r.map_err(|_| "panic"))) } };
    let chsf = p.t.clone();
    let thsf = p.th();
    for a in script { if !client_step(&mut p, a, ctx.as_deref().unwrap_or(&[]), &chsf, k) { break } }
    after(&mut p, &thsf);
    let _ = p.s.shutdown(Shutdown::Write);
    let alert = p.drain(Some(&thsf));
    let reset = p.reset;
    let r = h.join().map_err(|e| format!("panic in the server: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))?;
    let alert = if reset && alert.is_none() { Some(255) } else { alert };
    Ok((r, alert, p, thsf))
}
fn x_of(c: &mut Ctx) -> [u8; 32] { fixed(&c.rng.bytes(32)) }
fn allow(_: &X509) -> bool { true }
fn deny(_: &X509) -> bool { false }
fn by_name(x: &X509) -> bool { x.tbs_certificate.subject.get("commonName").map(|n| n.as_str() == "client").unwrap_or(false) }
fn srv_case(c: &mut Ctx, cfg: &SrvCfg, fname: &str, script: &[&str]) {
    let cs = *c.rng.pick(&SUITES);
    let (x, random, k) = (x_of(c), c.rng.bytes(32), c.rng.u64() >> 8);
    let done: Vec<&str> = script.iter().filter(|a| **a != "ccs" && **a != "zero").cloned().collect();
    // what follows the last message of the handshake is no part of it
    let done = &done[..done.iter().position(|a| a.starts_with("fin")).map(|i| i + 1).unwrap_or(done.len())];
    let good = |a: &str, n: &str| done.len() == 3 && done[0] == a && done[1] == n && done[2] == "fin";
    let legit = if cfg.ca { fname != "deny" && (good("cert", "cv") || good("cert-soon", "cv") || fname != "by name" && (good("cert-anon", "cv") || good("cert-org", "cv") || good("cert-denied", "cv") || good("cert-big", "cv") || good("cert-other-key", "cv-other-key") || good("cert-ca", "cv-ca-key"))) || fname == "by name" && good("cert-other-key", "cv-other-key") } else { done == ["fin"] || done == ["fin-old"] };
    let site = if cfg.ca { "server with a client CA completes only for such a client" } else { "server completes only after a correct Finished" };
    c.case(site, &|| format!("suite={:?} private={} random={} custom check={} the client sends, after the server's Finished: {:?} (variant {})", cs, hex(&x), hex(&random), fname, script, k), || {
        let mut cfg = cfg.clone();
        if k % 3 == 0 && cfg.keylog.is_none() { cfg.keylog = Some(scratch()) }
        let out = run_server(&cfg, cs, &x, &random, script, k, |_| (), |_, _| ());
        if let Some(f) = &cfg.keylog { let _ = std::fs::remove_file(f); }
        let (r, alert, _, _) = match out { Ok(v) => v, Err(e) if e.starts_with("panic") => return Err(e), Err(_) => return Ok(()) };
        match r {
            Ok(()) if !legit => Err("the handshake was completed".into()),
            Ok(()) => Ok(()),
            Err(e) => { if e < TlsError::NotOfficial && alert.is_none() && script.len() <= 1 && script != ["alert"] { Err(format!("the connection ended with {:?} without an alert", e)) } else { Ok(()) } }
        }
    });
}
const CL_STEPS: [&str; 60] = ["cv-no-label", "cv-no-word", "cv-no-blanks", "cv-bare", "cert-anon", "cert-org", "cert-ctx-cut", "cert-ctx-one", "cert-ctx-more", "cv-len-low", "cv-len-high", "cv-len-none", "cv-len-more", "fin-12", "fin-32", "fin-tail", "ccs", "plain-fin", "plain-app", "app", "early-app", "zero", "alert", "cert", "cert-other-ca", "cert-self", "cert-ca", "cert-denied", "cert-other-key", "cert-tampered", "cert-tbs", "cert-chain", "cert-expired", "cert-ended", "cert-future", "cert-tomorrow", "cert-soon", "cert-big", "cert-none", "cert-garbage", "cert-context", "cert-no-context", "cv", "cv-other-key", "cv-ca-key", "cv-server-label", "cv-old", "cv-bit", "cv-zero", "cv-empty", "cv-short", "cv-alg", "fin", "fin-bit", "fin-last", "fin-short", "fin-long", "fin-empty", "fin-server", "fin-old"];
pub fn p20(c: &mut Ctx) {
    let open = SrvCfg { ca: false, custom: None, keylog: None, prng: 1 };
    let auth = SrvCfg { ca: true, ..open.clone() };
    let custom: [(&str, Option<fn(&X509) -> bool>); 4] = [("none", None), ("allow", Some(allow)), ("deny", Some(deny)), ("by name", Some(by_name))];
    for a in CL_STEPS { srv_case(c, &open, "none", &[a]); }
    for a in ["cert", "app", "fin-bit", "ccs", "zero", "early-app", "plain-app"] { srv_case(c, &open, "none", &[a, "fin"]) }
    for a in ["cert", "cv", "fin"] { srv_case(c, &auth, "none", &[a]); }
    for s in [vec!["cert", "cv", "fin"], vec!["ccs", "cert", "cv", "fin"], vec!["cert", "fin"], vec!["cv", "fin"], vec!["cert", "cert", "fin"], vec!["cv", "cert", "fin"], vec!["cert", "cv", "cv", "fin"], vec!["cert", "cert", "cv", "fin"], vec!["cert", "cv", "cert-none", "fin"], vec!["cert-none", "fin"], vec!["cert-none", "cert", "cv", "fin"], vec!["cert-other-ca", "cert", "cv", "fin"], vec!["cert-garbage", "cv", "fin"],
        vec!["fin", "cert", "cv", "fin"], vec!["cert", "app", "cv", "fin"], vec!["cert", "cv", "app", "fin"], vec!["zero", "cert", "cv", "fin"], vec!["early-app"], vec!["plain-app"], vec!["plain-fin"], vec!["fin", "fin"], vec!["ee", "fin"], vec!["ch", "fin"], vec!["key-update", "fin"], vec!["cert", "cv-bit", "cv", "fin"], vec!["cert", "cv", "fin-zero-key"]] { srv_case(c, &auth, "none", &s) }
    for a in CL_STEPS { if a.starts_with("cert") && a != "cert" { srv_case(c, &auth, "none", &[a, "cv", "fin"]) } if a.starts_with("cv") && a != "cv" { srv_case(c, &auth, "none", &["cert", a, "fin"]) } if a.starts_with("fin") && a != "fin" { srv_case(c, &auth, "none", &["cert", "cv", a]) } }
    for (n, f) in custom { let s = SrvCfg { custom: f, ..auth.clone() }; srv_case(c, &s, n, &["cert", "cv", "fin"]); }
    for (n, f) in custom { for a in ["cert-expired", "cert-future", "cert-big", "cert-anon", "cert-org", "cert-denied", "cert-ca"] { let s = SrvCfg { custom: f, ..auth.clone() }; srv_case(c, &s, n, &[a, "cv", "fin"]); } }
    for k in 0..3 { let s = SrvCfg { custom: if k == 0 { None } else { Some(deny) }, keylog: Some(scratch()), ..auth.clone() }; let n = if k == 0 { "none" } else { "deny" }; srv_case(c, &s, n, &["cert", "cv", "fin"]); srv_case(c, &s, n, &["cert-none", "fin"]); srv_case(c, &s, n, &["cert", "fin"]); }
    for a in ["key-update", "ch", "ee", "zero", "ccs", "cv", "cert", "fin-bit", "alert"] { for bad in ["cert-none", "cert-other-ca"] { srv_case(c, &auth, "none", &[bad, a, "fin"]) } srv_case(c, &auth, "none", &["cert", "cv-bit", a, "fin"]) }
    for (n, f) in custom { if n == "by name" { let s = SrvCfg { custom: f, ..auth.clone() }; srv_case(c, &s, n, &["cert-denied", "cv", "fin"]); } }
    while c.go() {
        let (n, f) = custom[c.rng.below(4)];
        let cfg = if c.rng.below(5) == 0 { open.clone() } else { SrvCfg { custom: f, prng: c.rng.below(2) as u8, ..auth.clone() } };
        // a refused client that goes on with something unexpected
        if cfg.ca && c.rng.below(2) == 0 {
            let bad = *c.rng.pick(&["cert-none", "cert-other-ca", "cert-expired", "cert-self", "cert-garbage", "cert-context", "cert-denied", "cv", "fin-bit", "cert-chain"]);
            let mid = CL_STEPS[c.rng.below(CL_STEPS.len())];
            let s: Vec<&str> = match c.rng.below(4) { 0 => vec![bad, mid, "fin"], 1 => vec![bad, mid, "cv", "fin"], 2 => vec!["cert", if bad == "cv" { "cv-bit" } else { bad }, mid, "fin"], _ => vec!["cert", *c.rng.pick(&["cv-bit", "cv-other-key", "cv-old", "cv-alg", "cv-short"]), mid, "fin"] };
            srv_case(c, &cfg, n, &s);
            continue;
        }
        let mut s: Vec<&str> = if cfg.ca { vec!["cert", "cv", "fin"] } else { vec!["fin"] };
        for _ in 0..1 + c.rng.below(3) {
            let a = CL_STEPS[c.rng.below(CL_STEPS.len())];
            let i = c.rng.below(s.len() + 1);
            match c.rng.below(4) { 0 if i < s.len() => { s.remove(i); } 1 if i < s.len() => s[i] = a, 2 if i < s.len() => { let j = c.rng.below(s.len()); s.swap(i, j) } _ => s.insert(i, a) }
        }
        srv_case(c, &cfg, if cfg.ca { n } else { "none" }, &s);
    }
}

// ------------------------------------------------------------------ a server that follows a script
fn server_step(p: &mut Peer, st: &str, x: &[u8; 32], hl: &mut Option<(Vec<u8>, Vec<u8>)>, k: u64) -> Option<Vec<u8>> {
    let w = world();
    let th = p.th();
    let m = match st {
        "ee" => msg(8, &[0, 0]),
        "ee-ext" => msg(8, &[0, 6, 0, 10, 0, 2, 0, 0]),
        "cr" => msg(13, &[&[4u8, 1, 2, 3, 4][..], &[0, 8], &ext(13, &[0, 2, 4, 3])].concat()),
        "cert" => msg(11, &cert_hello(&[&w.sv_der], &[])),
        "cert-chain" => msg(11, &cert_hello(&[&w.sv_der, &w.ca_der], &[])),
        "cert-big" => msg(11, &cert_hello(&[&cert(&"long".repeat(600 + k as usize % 900), &w.sv.q, &w.ca)], &[])),
        "cert-named" => msg(11, &cert_hello(&[&cert("localhost", &w.cl2.q, &w.ca)], &[])),
        "cert-expired" => msg(11, &cert_hello(&[&dated("server", &w.cl2.q, &w.ca, "000101000000Z", "200101000000Z")], &[])),
        "cert-other" => msg(11, &cert_hello(&[&w.cl_der], &[])),
        "cert-none" => msg(11, &cert_hello(&[], &[])),
        "cert-garbage" => msg(11, &cert_hello(&[&[1, 2, 3]], &[])),
        "cv" => msg(15, &cv_body(&w.sv.d, &th, "server", k)),
        "cv-other-key" => msg(15, &cv_body(&w.cl.d, &th, "server", k)),
        "cv-ca-key" => msg(15, &cv_body(&w.ca.d, &th, "server", k)),
        "cv-no-label" => msg(15, &cv_body(&w.sv.d, &th, "", k)),
        "cv-no-word" => { let m = [&[0x20; 64][..], b"TLS 1.3,  CertificateVerify\0", b"TLS 1.3, CertificateVerify\0", b"TLS 1.2, server CertificateVerify\0", b"server CertificateVerify\0", b"TLS 1.3, server\0", b"TLS 1.3, server CertificateVerify", b"TLS 1.3, serverCertificateVerify\0"]; let i = 1 + k as usize % 7; msg(15, &cv_over(&w.sv.d, &[m[0], m[i]].concat(), &th, k)) }
        "cv-no-blanks" => msg(15, &cv_over(&w.sv.d, &[&[0x20; 63][..k as usize % 64], b"TLS 1.3, server CertificateVerify\0"].concat(), &th, k)),
        "cv-bare" => msg(15, &cv_over(&w.sv.d, &[], &th, k)),
        "cv-client-label" => msg(15, &cv_body(&w.sv.d, &th, "client", k)),
        "cv-old" => { let t = p.t[..p.t.len().saturating_sub(40)].to_vec(); msg(15, &cv_body(&w.sv.d, &refs::sha(p.n(), &t), "server", k)) }
        "cv-hello" => { let t = hl.as_ref().map(|h| h.0.clone()).unwrap_or_default(); msg(15, &cv_body(&w.sv.d, &refs::sha(p.n(), &t), "server", k)) }
        "cv-bit" => { let mut b = cv_body(&w.sv.d, &th, "server", k); let i = b.len() - 1 - (k as usize % 20); b[i] ^= 1 << (k % 8); msg(15, &b) }
        "cv-zero" => msg(15, &[4, 3, 0, 8, 0x30, 6, 2, 1, 0, 2, 1, 0]),
        "cv-empty" => msg(15, &[4, 3, 0, 0]),
        "cv-short" => msg(15, &[]),
        "cv-alg" => { let mut b = cv_body(&w.sv.d, &th, "server", k); b[0] = 8; b[1] = 4; msg(15, &b) }
        "cv-len-low" => { let mut b = cv_body(&w.sv.d, &th, "server", k); b[3] -= 1; msg(15, &b) }
        "cv-len-high" => { let mut b = cv_body(&w.sv.d, &th, "server", k); b[3] += 1; msg(15, &b) }
        "cv-len-none" => { let mut b = cv_body(&w.sv.d, &th, "server", k); b[3] = 0; msg(15, &b) }
        "cv-len-more" => { let mut b = cv_body(&w.sv.d, &th, "server", k); b[2] = 1; msg(15, &b) }
        "fin-empty" => msg(20, &[]),
        "ch" => msg(1, &[0; 50]),
        "ticket" => msg(4, &[0; 20]),
        "key-update" => msg(24, &[0]),
        s if s.starts_with("sh") => {
            // a ServerHello, in the clear
            let share = refs::x25519(x, &base()).to_vec();
            let share = if s == "sh-zero" { vec![0; 32] } else { share };
            let mut ex = vec![x_ver(if s == "sh-tls12" { 0x303 } else { 0x304 }), x_share(0x1d, &share)];
            if s == "sh-no-share" { ex.pop(); }
            if s == "sh-no-version" { ex.remove(0); }
            let suite = if s == "sh-scsv" { 0x00ff } else { p.cs.as_u16() };
            let (_, sid) = hl.clone().unwrap_or_default();
            msg(2, &shello(&[k as u8; 32], &sid, suite, &ex))
        }
        s => {
            let sec = match p.sec.as_ref() { Some(s) => s, None => return Some(msg(20, &[7; 32])) };
            let (c_hs, s_hs) = (sec.c_hs.clone(), sec.s_hs.clone());
            match s {
                "fin" => msg(20, &p.finished(&s_hs, &th)),
                "fin-bit" => { let mut v = p.finished(&s_hs, &th); let i = k as usize % v.len(); v[i] ^= 1 << (k % 8); msg(20, &v) }
                "fin-last" => { let mut v = p.finished(&s_hs, &th); let i = v.len() - 1; v[i] ^= 1; msg(20, &v) }
                "fin-short" => { let v = p.finished(&s_hs, &th); msg(20, &v[..v.len() - 1]) }
                "fin-12" => { let v = p.finished(&s_hs, &th); msg(20, &v[..12]) }
                "fin-32" => { let mut v = p.finished(&s_hs, &th); if v.len() > 32 { v.truncate(32) } else { v.extend([0; 16]) } msg(20, &v) }
                "fin-tail" => { let mut v = p.finished(&s_hs, &th); let n = v.len(); for i in (if n > 32 { 32 } else { 16 })..n { v[i] ^= 0x11 } msg(20, &v) }
                "fin-long" => { let mut v = p.finished(&s_hs, &th); v.push(0); msg(20, &v) }
                "fin-client" => msg(20, &p.finished(&c_hs, &th)),
                "fin-old" => { let t = p.t[..p.t.len().saturating_sub(60)].to_vec(); msg(20, &p.finished(&s_hs, &refs::sha(p.n(), &t))) }
                s => panic!("step {}", s),
            }
        }
    };
    Some(m)
}
fn x_ver(v: u16) -> Vec<u8> { ext(43, &u16s(&[v])) }
fn x_share(g: u16, k: &[u8]) -> Vec<u8> { let mut b = u16s(&[g, k.len() as u16]); b.extend(k); ext(51, &b) }
/// script: records; a record is a list of messages, sent together ("!x": in the clear; "app", "ccs", "cut x": a message in two records)
fn run_client(conf: ClientConfig, cs: CipherSuite, x: &[u8; 32], script: &[Vec<&str>], k: u64, with: impl FnOnce(TlsStream) + Send + 'static, after: impl FnOnce(&mut Peer, &[u8])) -> Result<(Out, Option<u8>, Peer, Vec<u8>, Vec<u8>), String> {
    let (l, s) = pair();
    let h = std::thread::spawn(move || match ClientConnection::connect(s, &conf) { Ok(st) => { with(st); Ok(()) } Err(e) => Err(e) });
    let (s, _) = l.accept().map_err(|e| e.to_string())?;
    let mut p = Peer::new(s, false); p.cs = cs;
    let mut random = vec![];
    let mut hl = None;
    if let Some((22, ch)) = p.next() { if ch.len() > 38 && ch[0] == 1 { random = ch[6..38].to_vec(); let n = ch[38] as usize; hl = Some((ch.clone(), ch[39..39 + n].to_vec())); p.t = ch } }
    let share = hl.as_ref().and_then(|(ch, _): &(Vec<u8>, Vec<u8>)| find_share(&ch[4..], true));
    let mut done = vec![];
    let mut thsf = p.th();
    for r in script {
        if r[0] == "hold" { p.hold = Some(vec![]); continue }
        if r[0] == "ccs" { if !p.put(&rec(20, &[1])) { break } continue }
        if r[0] == "app" || r[0] == "zero" || r[0] == "alert" {
            if p.out.is_none() { if !p.put(&rec(if r[0] == "alert" { 21 } else { 23 }, b"some application data in the clear")) { break } continue }
            let b = p.seal(if r[0] == "app" { 23 } else if r[0] == "zero" { 22 } else { 21 }, if r[0] == "app" { b"HTTP/1.0 200 OK" } else if r[0] == "zero" { b"" } else { &[2, 40] }); if !p.put(&b) { break } continue }
        let mut body = vec![];
        let mut hello_sent = false;
        let clear = r[0].starts_with('!') || p.out.is_none();
        let cut = r[0].starts_with("cut ");
        let mut ok = true;
        for m in r {
            let m = m.trim_start_matches('!').trim_start_matches("cut ");
            match server_step(&mut p, m, x, &mut hl, k) { Some(b) => { p.t.extend(&b); body.extend(b); if m == "sh" || m == "sh-zero" { hello_sent = p.sec.is_none() } if m == "fin" { thsf = p.th() } } None => { ok = false } }
        }
        if !ok && body.is_empty() { continue }
        let sent = if clear { p.put(&rec(22, &body)) } else if cut { let (a, b) = body.split_at(body.len() / 2); let a = p.seal(22, a); let b = p.seal(22, b); p.put(&a) && p.put(&b) } else { let b = p.seal(22, &body); p.put(&b) };
        if !sent { break }
        if hello_sent { if let Some(s) = &share { if s.len() == 32 { p.keys(&refs::x25519(x, &fixed(s))) } } }
        done.push(r[0]);
    }
    after(&mut p, &thsf);
    let _ = p.s.shutdown(Shutdown::Write);
    let alert = p.drain(None);
    let reset = p.reset;
    let r = h.join().map_err(|e| format!("panic in the client: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))?;
    Ok((r, if reset && alert.is_none() { Some(255) } else { alert }, p, thsf, random))
}
fn cl_conf(auth: u8, keylog: Option<String>) -> ClientConfig {
    let w = world();
    ClientConfig { server_name: if auth & 4 == 0 { None } else { Some("localhost".into()) }, keylog, client_cert: if auth & 1 == 0 { None } else { Some(Certificate { raw: w.cl_der.clone(), x509: None }) }, client_key: if auth & 1 == 0 { None } else { Some(PrivateKey::new(Curve::secp256r1(), w.cl.d.clone())) } }
}
fn cl_case(c: &mut Ctx, script: &[Vec<&str>]) {
    let cs = *c.rng.pick(&SUITES);
    let (x, k, auth) = (x_of(c), c.rng.u64() >> 8, c.rng.below(8) as u8);
    // what follows the record with the last message of the handshake is no part of it
    let upto = script.iter().position(|r| r.iter().any(|m| m.starts_with("fin"))).map(|i| i + 1).unwrap_or(script.len());
    let flat: Vec<&str> = script[..upto].iter().flatten().cloned().filter(|a| *a != "ccs" && *a != "zero").map(|a| a.trim_start_matches('!')).collect();
    let norm: Vec<&str> = flat.iter().map(|a| match *a { "ee-ext" => "ee", "cert-chain" | "cert-big" => "cert", a => a }).collect();
    let legit = norm == ["sh", "ee", "cert", "cv", "fin"] || norm == ["sh", "ee", "cr", "cert", "cv", "fin"];
    // in the clear after the ServerHello is never right
    let legit = legit && !script[..upto].iter().skip_while(|r| r[0] != "sh" && r[0] != "!sh").skip(1).any(|r| r.iter().any(|m| m.starts_with('!')));
    c.case("client completes only with a server that proved its key", &|| format!("suite={:?} server's private={} client certificate={} the server sends (per record) {:?} (variant {})", cs, hex(&x), auth & 1, script, k), || {
        let (r, alert, _, _, _) = match run_client(cl_conf(auth, None), cs, &x, script, k, |_| (), |_, _| ()) { Ok(v) => v, Err(e) if e.starts_with("panic") => return Err(e), Err(_) => return Ok(()) };
        let _ = alert;
        match r { Ok(()) if !legit => Err("the client reports a usable connection".into()), _ => Ok(()) }
    });
}
const SV_STEPS: [&str; 50] = ["cv-no-label", "cv-no-word", "cv-no-blanks", "cv-bare", "cv-len-low", "cv-len-high", "cv-len-none", "cv-len-more", "fin-12", "fin-32", "fin-tail", "sh", "sh-zero", "sh-tls12", "sh-no-share", "sh-no-version", "sh-scsv", "ccs", "app", "zero", "alert", "ee", "ee-ext", "cr", "cert", "cert-chain", "cert-big", "cert-named", "cert-expired", "cert-other", "cert-none", "cert-garbage", "cv", "cv-other-key", "cv-ca-key", "cv-client-label", "cv-old", "cv-hello", "cv-bit", "cv-zero", "cv-empty", "cv-short", "cv-alg", "fin", "fin-bit", "fin-last", "fin-short", "fin-long", "fin-client", "fin-old"];
fn split<'a>(v: &[&'a str]) -> Vec<Vec<&'a str>> { v.iter().map(|x| vec![*x]).collect() }
pub fn p19(c: &mut Ctx) {
    let good = ["sh", "ee", "cert", "cv", "fin"];
    let goodr = ["sh", "ee", "cr", "cert", "cv", "fin"];
    for g in [&good[..], &goodr[..]] {
        cl_case(c, &split(g));
        cl_case(c, &[vec![g[0]], vec!["ccs"], g[1..].to_vec()]);
        for i in 0..g.len() { let mut s = g.to_vec(); s.remove(i); cl_case(c, &split(&s)); if i > 0 { cl_case(c, &[vec!["sh"], s[1..].to_vec()]) } }
        for i in 0..g.len() { for a in SV_STEPS { let b = |x: &str| x.split('-').next().unwrap().to_string(); if a != g[i] && b(a) == b(g[i]) { let mut s = g.to_vec(); s[i] = a; cl_case(c, &split(&s)) } } }
        for i in 0..g.len() { let mut s = g.to_vec(); s.insert(i, g[i]); cl_case(c, &split(&s)) }
        for i in 0..g.len() - 1 { let mut s = g.to_vec(); s.swap(i, i + 1); cl_case(c, &split(&s)) }
        for i in 1..g.len() { let mut s = split(g); s[i][0] = match g[i] { "ee" => "!ee", "cr" => "!cr", "cert" => "!cert", "cv" => "!cv", _ => "!fin" }; cl_case(c, &s) }
        for i in 0..=g.len() { for a in ["app", "zero", "alert", "fin"] { let mut s = g.to_vec(); s.insert(i, a); if i == g.len() { continue } cl_case(c, &split(&s)) } }
    }
    for s in [vec![vec!["sh"], vec!["ee", "cert-none", "cv", "fin"]], vec![vec!["sh"], vec!["ee", "cert-none", "fin"]], vec![vec!["sh"], vec!["ee", "cert-garbage", "cert", "cv", "fin"]], vec![vec!["sh"], vec!["ee", "cert", "cv-bit", "cv", "fin"]], vec![vec!["sh"], vec!["ee", "cert", "cv-bit", "fin", "fin"]], vec![vec!["sh"], vec!["ee", "fin"]], vec![vec!["sh"], vec!["fin"]], vec![vec!["!ee"], vec!["!fin"]], vec![vec!["sh"], vec!["ee", "cert", "fin"]], vec![vec!["sh"], vec!["ee", "cert-other", "cv", "fin"]], vec![vec!["sh"], vec!["ee", "cert-other", "cert", "cv", "fin"]], vec![vec!["sh"], vec!["ee", "cert", "cert-other", "cv", "fin"]],
        vec![vec!["sh"], vec!["ee", "cr", "cr", "cert", "cv", "fin"]], vec![vec!["sh"], vec!["ee", "cert", "cr", "cv", "fin"]], vec![vec!["sh"], vec!["sh"], vec!["ee", "cert", "cv", "fin"]], vec![vec!["sh"], vec!["ee", "cr", "fin"]], vec![vec!["sh"], vec!["ee", "cr", "cert", "fin"]], vec![vec!["sh"], vec!["ee", "cert", "cv", "fin", "fin"]], vec![vec!["sh", "ee"], vec!["cert", "cv", "fin"]], vec![vec!["app"], vec!["sh"], vec!["ee", "cert", "cv", "fin"]]] { cl_case(c, &s) }
    while c.go() {
        let mut s: Vec<&str> = if c.rng.below(2) == 0 { good.to_vec() } else { goodr.to_vec() };
        for _ in 0..c.rng.below(4) {
            let a = SV_STEPS[c.rng.below(SV_STEPS.len())];
            let i = c.rng.below(s.len() + 1);
            match c.rng.below(4) { 0 if i < s.len() => { s.remove(i); } 1 if i < s.len() => s[i] = a, 2 if i < s.len() => { let j = c.rng.below(s.len()); s.swap(i, j) } _ => s.insert(i, a) }
        }
        let mut g: Vec<Vec<&str>> = vec![];
        for a in s { let alone = |x: &str| x.starts_with("sh") || ["ccs", "app", "zero", "alert"].contains(&x); if g.is_empty() || alone(a) || alone(g.last().unwrap()[0]) || c.rng.below(2) == 0 { g.push(vec![a]) } else { g.last_mut().unwrap().push(a) } }
        if g.is_empty() { continue }
        cl_case(c, &g);
    }
}

// ------------------------------------------------------------------ application data
fn prot(cs: CipherSuite, seed: &[u8], is_client: bool) -> anothertls::net::record::RecordPayloadProtection {
    let ks = anothertls::net::KeySchedule::do_key_schedule(crate::props::net::ht(hlen(cs)), &refs::sha(hlen(cs), seed), seed).unwrap();
    let mut p = anothertls::net::record::RecordPayloadProtection::new(ks, cs.get_cipher().unwrap(), is_client).unwrap();
    let mut t = crate::props::net::tsh(hlen(cs)); t.update(b"application"); t.update(seed);
    p.generate_application_keys(t.as_ref()).unwrap();
    p
}
fn app_dir(cs: CipherSuite, seed: &[u8], client: bool) -> Dir {
    let n = hlen(cs);
    let m = schedule(n, &refs::sha(n, seed), seed).master;
    let s = refs::expand_label(n, &m, if client { b"c ap traffic" } else { b"s ap traffic" }, &refs::sha(n, &[b"application", seed].concat()), n);
    Dir { key: refs::expand_label(n, &s, b"key", b"", klen(cs)), iv: refs::expand_label(n, &s, b"iv", b"", 12), seq: 0 }
}
fn limits(s: &TcpStream) { let _ = s.set_read_timeout(Some(Duration::from_secs(10))); let _ = s.set_write_timeout(Some(Duration::from_secs(10))); let _ = s.set_nodelay(true); }
fn records(w: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut o = vec![]; let mut i = 0;
    while i < w.len() { if i + 5 > w.len() { return Err("a record header is cut".into()) } let l = (w[i + 3] as usize) << 8 | w[i + 4] as usize; if i + 5 + l > w.len() { return Err("a record is cut".into()) } o.push(w[i..i + 5 + l].to_vec()); i += 5 + l }
    Ok(o)
}
#[derive(Clone, Debug)]
enum Harm { No, Flip(usize, usize), Swap(usize), Drop(usize), Twice(usize), Cut(usize), Insert(usize, u8), Hole(usize, usize), Empty(usize), Inner(usize, u8) }
/// what is written on one side, carried in the given pieces, is read on the other
fn transfer(c: &mut Ctx, cs: CipherSuite, seed: &[u8], from_client: bool, writes: &[Vec<u8>], chunks: &[usize], bufs: &[usize], harm: Harm, pad: usize) {
    let show: Vec<usize> = writes.iter().map(|w| w.len()).collect();
    c.case("what is written is read", &|| format!("suite={:?} seed={} sender={} writes of {:?} bytes (byte i of the stream is (i*7+i/256) mod 256), transport pieces {:?}, read buffers {:?}, tampering {:?}, padding {}", cs, hex(seed), if from_client { "client" } else { "server" }, show, chunks, bufs, harm, pad), || {
        let data: Vec<u8> = writes.concat();
        let (l, s) = pair(); let (r, _) = l.accept().map_err(|e| e.to_string())?; limits(&s); limits(&r);
        let col = std::thread::spawn(move || { let mut v = vec![]; let mut r = r; let _ = r.read_to_end(&mut v); v });
        let mut t = TlsStream::new(s); t.set_protection(Some(prot(cs, seed, from_client)));
        for w in writes { t.tls_write(w).map_err(|e| format!("writing {} bytes fails with {:?}", w.len(), e))?; }
        drop(t);
        let wire = col.join().map_err(|_| "collector")?;
        let mut recs = records(&wire)?;
        // what is on the wire: application data records of the RFC, carrying the data in order
        let mut d = app_dir(cs, seed, from_client);
        let mut got: Vec<u8> = vec![];
        let mut ends = vec![];
        for r in &recs {
            if r[0] != 23 || r.len() > 5 + 16384 + 256 || r.len() < 22 { return Err(format!("record with type {} and {} bytes on the wire", r[0], r.len())) }
            let n = nonce(&d.iv, d.seq); d.seq += 1;
            let (ct, tag) = (&r[5..r.len() - 16], &r[r.len() - 16..]);
            let (pt, tg) = match cs { CipherSuite::TLS_CHACHA20_POLY1305_SHA256 => refs::chapoly(&d.key, &n, ct, &r[..5], true), _ => refs::gcm(&d.key, &n, ct, &r[..5], true) };
            if tg != *tag { return Err("a written record does not open under the sender's key".into()) }
            let e = pt.iter().rposition(|x| *x != 0).ok_or("only padding")?;
            if pt[e] != 23 || e > 16384 { return Err(format!("inner type {}, {} bytes", pt[e], e)) }
            got.extend(&pt[..e]); ends.push(got.len());
        }
        if got != data { return Err(format!("the records carry {} bytes instead of the {} written (first difference at {:?})", got.len(), data.len(), got.iter().zip(&data).position(|(a, b)| a != b))) }
        if pad > 0 {
            // the same data in padded records
            let mut d = app_dir(cs, seed, from_client);
            let mut o = 0;
            for (r, e) in recs.iter_mut().zip(&ends) { let mut inner = data[o..*e].to_vec(); o = *e; inner.push(23); let z = pad.min(16385 - inner.len().min(16385)); inner.extend(vec![0; z]); *r = seal_ref(cs, &d.key, &nonce(&d.iv, d.seq), &inner); d.seq += 1 }
        }
        if let Harm::Empty(i) | Harm::Inner(i, _) = harm {
            // the same data, and between its records one that carries none of it
            let at = i % (recs.len() + 1);
            let extra: Vec<u8> = match harm { Harm::Inner(_, t) => vec![4, 0, 0, 15, 0, 0, 1, 0, 1, 2, 3, 4, 0, 0, 2, 7, 8, 0, 0, t], _ => vec![23] };
            let mut d = app_dir(cs, seed, from_client);
            let mut o = 0; let mut out = vec![];
            let mut put = |inner: &[u8]| { let r = seal_ref(cs, &d.key, &nonce(&d.iv, d.seq), inner); d.seq += 1; out.push(r) };
            for (k, e) in ends.iter().enumerate() { if k == at { put(&extra) } let mut inner = data[o..*e].to_vec(); o = *e; inner.push(23); put(&inner) }
            if at == recs.len() { put(&extra) }
            recs = out;
        }
        let n = recs.len();
        let mut max = data.len();      // the reader may return at most this much
        let upto = |i: usize| if i == 0 { 0 } else { ends[i - 1] };
        if n > 0 { match harm {
            Harm::No | Harm::Empty(_) | Harm::Inner(..) => {}
            Harm::Flip(i, b) => { let i = i % n; let m = recs[i].len(); let b = b % ((m - 5) * 8); recs[i][5 + b / 8] ^= 1 << (b % 8); max = upto(i) }
            Harm::Swap(i) => { if n > 1 { let i = i % (n - 1); recs.swap(i, i + 1); max = upto(i) } }
            Harm::Drop(i) => { let i = i % n; recs.remove(i); max = upto(i) }
            Harm::Twice(i) => { let i = i % n; let r = recs[i].clone(); recs.insert(i, r); max = upto(i + 1) }
            Harm::Cut(k) => { let i = n - 1; let m = recs[i].len(); recs[i].truncate(m - 1 - k % (m - 1)); max = upto(i) }
            Harm::Insert(i, t) => { let i = i % (n + 1); recs.insert(i, rec(t, b"injected")); max = upto(i) }
            Harm::Hole(i, k) => { let i = i % n; let m = recs[i].len(); let k = 5 + k % (m - 5); recs[i].remove(k); let l = recs[i].len() - 5; recs[i][3] = (l >> 8) as u8; recs[i][4] = l as u8; max = upto(i) }
        } }
        let wire = recs.concat();
        let (l, s) = pair(); let (r, _) = l.accept().map_err(|e| e.to_string())?; limits(&s); limits(&r);
        let ch = chunks.to_vec();
        let feed = std::thread::spawn(move || { let mut s = s; let mut i = 0; let mut k = 0; while i < wire.len() { let n = ch[k % ch.len()].max(1).min(wire.len() - i); k += 1; if s.write_all(&wire[i..i + n]).is_err() { break } i += n; if n < 64 && k % 3 == 0 { std::thread::yield_now() } } });
        let mut t = TlsStream::new(r); t.set_protection(Some(prot(cs, seed, !from_client)));
        let mut out: Vec<u8> = vec![]; let mut k = 0; let mut errors = 0; let mut before = None;
        // a reader that tries again after an error must not be given bytes with a hole either
        while errors < 6 {
            let mut b = vec![0xa5u8; bufs[k % bufs.len()]]; k += 1;
            match t.tls_read(&mut b) { Ok(0) if b.is_empty() => continue, Ok(n) => { if n > b.len() { return Err(format!("a read of {} bytes returns {}", b.len(), n)) } if n == 0 { break } out.extend(&b[..n]) } Err(_) => { errors += 1; if before.is_none() { before = Some(out.len()) } } }
        }
        let before = before.unwrap_or(out.len());
        let _ = feed.join();
        if matches!(harm, Harm::No | Harm::Empty(_)) && before < data.len() { return Err(format!("a read fails after {} of {} bytes although nothing was tampered with", before, data.len())) }
        if matches!(harm, Harm::No | Harm::Empty(_)) && out != data { return Err(format!("{} of {} bytes were read, first difference at {:?}", out.len(), data.len(), out.iter().zip(&data).position(|(a, b)| a != b))) }
        if out.len() > data.len() || out[..] != data[..out.len()] { return Err(format!("altered bytes were returned ({} read, {} written)", out.len(), data.len())) }
        if before > max { return Err(format!("{} bytes were returned although the record after byte {} was tampered with", before, max)) }
        Ok(())
    });
}
fn stream_bytes(n: usize, from: usize) -> Vec<u8> { (from..from + n).map(|i| (i.wrapping_mul(7).wrapping_add(i / 256)) as u8).collect() }
fn cutup(sizes: &[usize]) -> Vec<Vec<u8>> { let mut o = 0; sizes.iter().map(|n| { let v = stream_bytes(*n, o); o += n; v }).collect() }
/// data that arrives together with the last handshake message
fn merged(c: &mut Ctx, n: usize, server: bool) {
    let cs = *c.rng.pick(&SUITES);
    let (x, random) = (x_of(c), c.rng.bytes(32));
    let site = "data right behind the handshake";
    c.case(site, &|| format!("suite={:?} private={} {} bytes in the same segment as the {}", cs, hex(&x), n, if server { "client's Finished" } else { "server's Finished" }), || {
        let data = stream_bytes(n, 0);
        let back = stream_bytes(300, 5);
        let (tx, rx) = std::sync::mpsc::channel();
        let (d2, b2) = (data.clone(), back.clone());
        let with = move |mut t: TlsStream| { let mut out: Vec<u8> = vec![]; let mut b = [0u8; 100]; while out.len() < n { match t.tls_read(&mut b) { Ok(k) if k > 0 => out.extend(&b[..k]), _ => break } } let w = t.tls_write(&b2); let _ = tx.send((out, w.is_ok())); };
        let mut answer = None;
        let after = |p: &mut Peer, th: &[u8]| { p.use_app(th); for ch in d2.chunks(1000) { let r = p.seal(23, ch); p.put(&r); } p.release(); answer = Some(loop { match p.next() { Some((22, m)) if m.first() == Some(&20) => continue, Some((23, m)) => break m, Some(_) => continue, None => break vec![] } }); };
        let r = if server { let cfg = SrvCfg { ca: false, custom: None, keylog: None, prng: 1 }; run_server(&cfg, cs, &x, &random, &["hold", "fin"], 1, with, after).map(|v| v.0) }
            else { run_client(cl_conf(0, None), cs, &x, &[vec!["sh"], vec!["hold"], vec!["ee", "cert", "cv", "fin"]], 1, with, |p, th| { let hs = p.inn.take(); let mut got = None; { let keep = hs; let c2 = p.app(th).0; p.out = None; let s2 = p.app(th).1; p.out = Some(p.dir(&s2)); for ch in d2.chunks(1000) { let r = p.seal(23, ch); p.put(&r); } p.release(); p.inn = keep; if let Some((22, _)) = p.next() { p.inn = Some(p.dir(&c2)); got = p.next().map(|v| v.1); } } answer = got; }).map(|v| v.0) };
        match r { Err(e) if e.starts_with("panic") => return Err(e), Err(_) | Ok(Err(_)) => return Ok(()), Ok(Ok(())) => {} }
        let (out, wrote) = rx.recv().map_err(|e| e.to_string())?;
        if out != data { return Err(format!("{} of {} bytes were read", out.len(), data.len())) }
        if !wrote || answer.as_deref() != Some(&back[..]) { return Err(format!("the answer of {} bytes did not arrive: {:?} bytes", back.len(), answer.map(|a| a.len()))) }
        Ok(())
    });
}
/// both directions on the same pair of streams
fn pingpong(c: &mut Ctx, rounds: usize) {
    let cs = *c.rng.pick(&SUITES);
    let seed = c.rng.bytes(16);
    let plan: Vec<(bool, usize, usize)> = (0..rounds).map(|_| (c.rng.below(2) == 0, 1 + c.rng.below(5000), 1 + c.rng.below(3000))).collect();
    c.case("both directions in turn", &|| format!("suite={:?} seed={} (client sends, bytes, read buffer) {:?}", cs, hex(&seed), plan), || {
        let (l, s) = pair(); let (r, _) = l.accept().map_err(|e| e.to_string())?; limits(&s); limits(&r);
        let mut a = TlsStream::new(s); a.set_protection(Some(prot(cs, &seed, true)));
        let mut b = TlsStream::new(r); b.set_protection(Some(prot(cs, &seed, false)));
        for (i, (cl, n, bs)) in plan.iter().enumerate() {
            let d = stream_bytes(*n, i * 31);
            let (w, r) = if *cl { (&mut a, &mut b) } else { (&mut b, &mut a) };
            w.tls_write(&d).map_err(|e| format!("write {:?}", e))?;
            let mut out: Vec<u8> = vec![]; let mut buf = vec![0u8; *bs];
            while out.len() < d.len() { let k = r.tls_read(&mut buf).map_err(|e| format!("round {}: read fails with {:?}", i, e))?; out.extend(&buf[..k]) }
            if out != d { return Err(format!("round {}: other bytes were read", i)) }
        }
        Ok(())
    });
}
pub fn p26(c: &mut Ctx) {
    let one = [1usize << 20]; let all = [70000usize];
    for (i, cs) in SUITES.iter().enumerate() {
        for cl in [true, false] {
            transfer(c, *cs, b"a", cl, &cutup(&[1, 0, 16, 15, 300]), &one, &all, Harm::No, 0);
            transfer(c, *cs, b"b", cl, &cutup(&[1, 2, 3, 100, 5000]), &[1, 2, 4, 5, 1000], &[1, 7, 64], Harm::No, 0);
            for h in [Harm::Flip(1, 3), Harm::Flip(2, 7000), Harm::Swap(0), Harm::Drop(1), Harm::Twice(0), Harm::Cut(3), Harm::Cut(1000), Harm::Insert(1, 23), Harm::Insert(1, 20), Harm::Insert(0, 22), Harm::Insert(2, 21), Harm::Hole(0, 4), Harm::Empty(0), Harm::Empty(1), Harm::Empty(3), Harm::Inner(1, 22), Harm::Inner(0, 22), Harm::Inner(1, 21), Harm::Inner(2, 20)] { transfer(c, *cs, b"c", cl, &cutup(&[10, 20, 700]), &[64], &[9], h, 0) }
        }
        if i != 1 && !c.thorough { continue }
        for n in [16383usize, 16384, 16385, 32768, 40000, 65535, 65536] { transfer(c, *cs, b"d", i == 0, &cutup(&[n, 1]), &[1460], &[4096], Harm::No, 0) }
    }
    for p in [1usize, 100, 20000] { transfer(c, SUITES[1], b"p", true, &cutup(&[5, 300]), &[777], &[128], Harm::No, p) }
    for n in [1usize, 900, 3000] { merged(c, n, true); merged(c, n, false); }
    while c.go() {
        let cs = *c.rng.pick(&SUITES);
        let seed = c.rng.bytes(8);
        let sizes: Vec<usize> = (0..1 + c.rng.below(6)).map(|_| match c.rng.below(8) { 0 => 0, 1 => 1, 2 => c.rng.below(20), 3 if cs == SUITES[1] => 16380 + c.rng.below(10), _ => c.rng.below(3000) }).collect();
        let chunks: Vec<usize> = (0..1 + c.rng.below(6)).map(|_| match c.rng.below(4) { 0 => 1 + c.rng.below(6), 1 => 4096, 2 => 1 + c.rng.below(300), _ => 1 << 20 }).collect();
        let bufs: Vec<usize> = (0..1 + c.rng.below(4)).map(|_| match c.rng.below(4) { 0 => c.rng.below(4), 1 => 70000, _ => 1 + c.rng.below(5000) }).chain([50]).collect();
        let r = &mut c.rng;
        let harm = match r.below(14) { 12 => Harm::Empty(r.below(9)), 13 => { let t = [20u8, 21, 22][r.below(3)]; Harm::Inner(r.below(9), t) } 0 => Harm::Flip(r.below(9), r.below(1 << 17)), 1 => Harm::Swap(r.below(9)), 2 => Harm::Drop(r.below(9)), 3 => Harm::Twice(r.below(9)), 4 => Harm::Cut(r.below(1 << 15)), 5 => { let t = [20u8, 21, 22, 23][r.below(4)]; Harm::Insert(r.below(9), t) } 6 => Harm::Hole(r.below(9), r.below(1 << 15)), _ => Harm::No };
        let (cl, pad) = (r.below(2) == 0, if r.below(4) == 0 { r.below(300) } else { 0 });
        transfer(c, cs, &seed, cl, &cutup(&sizes), &chunks, &bufs, harm, pad);
        if c.rng.below(6) == 0 { pingpong(c, 12) }
        if c.rng.below(12) == 0 { let (n, s) = (1 + c.rng.below(5000), c.rng.below(2) == 0); merged(c, n, s) }
    }
}

// ------------------------------------------------------------------ key log
fn scratch() -> String { static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); format!("{}/vreplay-{}-{}.keys", std::env::temp_dir().display(), std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)) }
fn lines(parts: &[(&str, &[u8])], random: &[u8]) -> Vec<String> { parts.iter().map(|(l, s)| format!("{} {} {}", l, hex(random), hex(s))).collect() }
fn same_lines(text: &str, mut want: Vec<String>) -> Result<(), String> {
    if !text.is_empty() && !text.ends_with('\n') { return Err("the last line is not ended".into()) }
    let mut have: Vec<String> = text.split('\n').map(|x| x.to_string()).collect(); have.pop();
    have.sort(); want.sort();
    if have == want { return Ok(()) }
    Err(format!("the log has the lines {:?} instead of {:?}", have, want))
}
fn direct(c: &mut Ctx, random: &[u8], s: &[u8], cl: &[u8], pre: &str) {
    c.case("lines of the key log", &|| format!("client random={} server secret={} client secret={} file before {:?}", hex(random), hex(s), hex(cl), pre), || {
        let f = scratch();
        if !pre.is_empty() { std::fs::write(&f, pre).map_err(|e| e.to_string())? }
        let k = KeyLog::new(f.clone(), random);
        k.append_handshake_traffic_secrets(s, cl);
        k.append_application_traffic_secrets(cl, s);
        let t = std::fs::read_to_string(&f).map_err(|e| e.to_string()); let _ = std::fs::remove_file(&f); let t = t?;
        let t = match t.strip_prefix(pre) { Some(t) => t, None => return Err("what was in the file before is gone".into()) };
        same_lines(t, lines(&[("SERVER_HANDSHAKE_TRAFFIC_SECRET", s), ("CLIENT_HANDSHAKE_TRAFFIC_SECRET", cl), ("SERVER_TRAFFIC_SECRET_0", cl), ("CLIENT_TRAFFIC_SECRET_0", s)], random))
    });
}
fn logged(c: &mut Ctx, server: bool, auth: bool, zeros: bool) {
    let cs = *c.rng.pick(&SUITES);
    let (x, mut random, k) = (x_of(c), c.rng.bytes(32), c.rng.u64() >> 8);
    if zeros { random[0] = 0; random[1] = 5; random[31] = 0 }
    c.case("key log of a handshake", &|| format!("suite={:?} private={} {} client random={} client certificate={}", cs, hex(&x), if server { "the server logs" } else { "the client logs" }, if server { hex(&random) } else { "its own".into() }, auth), || {
        let f = scratch();
        let r = if server { let cfg = SrvCfg { ca: auth, custom: None, keylog: Some(f.clone()), prng: 1 }; let s: &[&str] = if auth { &["cert", "cv", "fin"] } else { &["fin"] }; run_server(&cfg, cs, &x, &random, s, k, |_| (), |_, _| ()).map(|v| (v.0, v.2, v.3, random.clone())) }
            else { run_client(cl_conf(auth as u8, Some(f.clone())), cs, &x, &if auth { vec![vec!["sh"], vec!["ee", "cr", "cert", "cv", "fin"]] } else { vec![vec!["sh"], vec!["ee", "cert", "cv", "fin"]] }, k, |_| (), |_, _| ()).map(|v| (v.0, v.2, v.3, v.4)) };
        let t = std::fs::read_to_string(&f).unwrap_or_default(); let _ = std::fs::remove_file(&f);
        let (r, p, th, random) = match r { Err(e) if e.starts_with("panic") => return Err(e), Err(_) => return Ok(()), Ok(v) => v };
        if r.is_err() { return Ok(()) }
        let (a, b) = p.app(&th); let s = p.sec.as_ref().unwrap();
        same_lines(&t, lines(&[("SERVER_HANDSHAKE_TRAFFIC_SECRET", &s.s_hs), ("CLIENT_HANDSHAKE_TRAFFIC_SECRET", &s.c_hs), ("SERVER_TRAFFIC_SECRET_0", &b), ("CLIENT_TRAFFIC_SECRET_0", &a)], &random))
    });
}
pub fn p27(c: &mut Ctx) {
    for b in 0..=255u8 { let v = [b, 255 - b, 0, b]; c.case("hex", &|| hex(&v), || { let h = anothertls::utils::bytes::to_hex(&v); if h == hex(&v) { Ok(()) } else { Err(format!("written as {:?}", h)) } }) }
    for n in [32usize, 48] { for r in [vec![0u8; 32], vec![0xff; 32], vec![0x0a; 32], { let mut v = c.rng.bytes(32); v[0] = 0; v }] { let (a, b) = (c.rng.bytes(n), vec![0u8; n]); direct(c, &r, &a, &b, ""); direct(c, &r, &b, &a, "# a line\n"); let mut z = c.rng.bytes(n); z[0] = 0; z[1] = 0x0f; direct(c, &r, &z, &a, "") } }
    for s in [true, false] { for a in [false, true] { for z in [false, true] { logged(c, s, a, z) } } }
    while c.go() {
        let (r, n) = (c.rng.edgy(32), 32 + 16 * c.rng.below(2));
        let (a, b) = (c.rng.edgy(n), c.rng.edgy(n));
        direct(c, &r, &a, &b, "");
        if c.rng.below(20) == 0 { let (s, a, z) = (c.rng.below(2) == 0, c.rng.below(2) == 0, c.rng.below(2) == 0); logged(c, s, a, z) }
    }
}
