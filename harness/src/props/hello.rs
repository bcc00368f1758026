use crate::ctx::*;
use crate::refs;
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::crypto::CipherSuite;
use anothertls::hash::{Sha256, Sha384, TranscriptHash};
use anothertls::net::client::ClientHello;
use anothertls::net::extensions::*;
use anothertls::net::handshake::Certificate;
use anothertls::net::key_schedule::KeySchedule;
use anothertls::net::server::{ServerConfig, ServerHello};
use anothertls::rand::{RngCore, PRNG};
use ibig::IBig;

/// random numbers the harness knows
pub struct TestRng(pub Rng);
impl RngCore<IBig> for TestRng {
    fn between(&mut self, _min: usize, max: usize) -> IBig { refs::be_int(&self.0.bytes(max)) }
    fn bytes(&mut self, size: usize) -> Vec<u8> { self.0.bytes(size) }
}
pub fn config(name: Option<&str>) -> ServerConfig {
    ServerConfig { privkey: PrivateKey::new(Curve::secp256r1(), IBig::from(7)), cert: Certificate { raw: vec![], x509: None }, client_cert_ca: None, client_cert_custom_verify_fn: None, keylog: None, server_name: name.map(|x| x.to_string()), prng_type: PRNG::URandom }
}
fn v16(v: &[u8]) -> Vec<u8> { let mut o = vec![(v.len() >> 8) as u8, v.len() as u8]; o.extend(v); o }
pub fn ext(t: u16, body: &[u8]) -> Vec<u8> { let mut o = vec![(t >> 8) as u8, t as u8]; o.extend(v16(body)); o }
pub fn u16s(v: &[u16]) -> Vec<u8> { v.iter().flat_map(|x| [(x >> 8) as u8, *x as u8]).collect() }
pub fn x_versions(v: &[u16]) -> Vec<u8> { let mut b = vec![(v.len() * 2) as u8]; b.extend(u16s(v)); ext(43, &b) }
pub fn x_shares(v: &[(u16, Vec<u8>)]) -> Vec<u8> { let mut b = vec![]; for (g, k) in v { b.extend(u16s(&[*g])); b.extend(v16(k)) } ext(51, &v16(&b)) }
pub fn x_name(n: &[u8]) -> Vec<u8> { let mut b = vec![0]; b.extend(v16(n)); ext(0, &v16(&b)) }
pub fn x_sigs(v: &[u16]) -> Vec<u8> { ext(13, &v16(&u16s(v))) }
pub fn x_groups(v: &[u16]) -> Vec<u8> { ext(10, &v16(&u16s(v))) }
pub fn hello(random: &[u8], sid: &[u8], suites: &[u16], exts: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![3, 3]; o.extend(random); o.push(sid.len() as u8); o.extend(sid);
    o.extend(v16(&u16s(suites))); o.extend([1, 0]); o.extend(v16(&exts.concat())); o
}
pub fn shello(random: &[u8], sid: &[u8], suite: u16, exts: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![3, 3]; o.extend(random); o.push(sid.len() as u8); o.extend(sid);
    o.extend(u16s(&[suite])); o.push(0); o.extend(v16(&exts.concat())); o
}
fn short(b: &[u8]) -> String { if b.len() > 600 { format!("{}... {} bytes", hex(&b[..300]), b.len()) } else { hex(b) } }
/// everything that reads hello bytes, on one input: no panic (the results are looked at by P18)
fn feed(c: &mut Ctx, buf: &[u8]) {
    c.case("ClientHello", &|| short(buf), || {
        if let Ok(ch) = ClientHello::from_raw(buf) {
            let _ = ch.get_public_key_share();
            let _ = ServerHello::from_client_hello(&ch, &mut TestRng(Rng::new(1)), &config(Some("a"))).map(|(sh, _)| sh.as_bytes());
        }
        Ok(())
    });
    c.case("ServerHello", &|| short(buf), || { if let Ok(sh) = ServerHello::from_raw(buf) { let _ = sh.get_public_key_share(); } Ok(()) });
    lists(c, buf);
}
fn lists(c: &mut Ctx, buf: &[u8]) {
    c.case("client extension list", &|| short(buf), || { let _ = ClientExtension::from_client_hello(buf); Ok(()) });
    c.case("server extension list", &|| short(buf), || { let _ = ServerExtensions::from_server_hello(buf); Ok(()) });
    c.case("certificate request extension list", &|| short(buf), || { let _ = CertificateRequestExtensions::from_request(buf); Ok(()) });
    bodies(c, buf);
}
fn bodies(c: &mut Ctx, buf: &[u8]) {
    c.case("extension bodies", &|| short(buf), || {
        let _ = KeyShare::server_parse(buf); let _ = KeyShare::client_parse(buf);
        let _ = SupportedVersions::server_parse(buf); let _ = SupportedVersions::client_parse(buf);
        let _ = SignatureAlgorithms::server_parse(buf); let _ = SignatureAlgorithms::client_parse(buf);
        let _ = SupportedGroups::server_parse(buf); let _ = SupportedGroups::client_parse(buf);
        let _ = ServerName::server_parse(buf); let _ = ServerName::client_parse(buf);
        Ok(())
    });
}
fn good(c: &mut Ctx) -> (Vec<u8>, Vec<u8>, Vec<Vec<u8>>) {
    let r = c.rng.bytes(32);
    let sid = match c.rng.below(3) { 0 => vec![], 1 => c.rng.bytes(32), _ => { let n = 1 + c.rng.below(31); c.rng.bytes(n) } };
    let k = c.rng.bytes(32);
    let mut es = vec![x_versions(&[0x304, 0x303]), x_shares(&[(0x1d, k.clone())]), x_name(b"example.org"), x_sigs(&[0x0403, 0x0804]), x_groups(&[0x17, 0x1d]), ext(0x2d, &[1, 1]), ext(16, b"\0\x03\x02h2")];
    for i in (1..es.len()).rev() { let j = c.rng.below(i + 1); es.swap(i, j) }
    let ch = hello(&r, &sid, &[0x1301, 0x1303, 0x1302, 0x00ff, 0xc02f], &es);
    let mut kb = vec![0, 0x1d]; kb.extend(v16(&k));
    let ss = vec![ext(51, &kb), ext(43, &[3, 4]), x_sigs(&[0x403])];
    let sh = shello(&r, &sid, *c.rng.pick(&[0x1301u16, 0x1302, 0x1303]), &ss);
    es.extend(ss);
    (ch, sh, es)
}
pub fn p17(c: &mut Ctx) {
    for l in 0..=80usize { for f in [0u8, 1, 3, 0x1d, 0xff] { let mut b = vec![f; l]; feed(c, &b); if l > 1 { b[0] = 3; b[1] = 3; feed(c, &b) } if l > 36 { b[34] = 0; feed(c, &b); b[34] = 32; feed(c, &b) } } }
    for _ in 0..6 {
        let (ch, sh, es) = good(c);
        for m in [&ch, &sh] {
            for l in 0..=m.len() { feed(c, &m[..l]) }
            for i in 0..m.len() { for v in [0u8, 1, 2, 3, 31, 32, 33, 0x7f, 0x80, 0xff] { let mut b = m.clone(); b[i] = v; feed(c, &b) } for d in [1u8, 2, 255, 254] { let mut b = m.clone(); b[i] = b[i].wrapping_add(d); feed(c, &b) } }
        }
        for e in &es {
            let body = &e[4..];
            for l in 0..=body.len() { bodies(c, &body[..l]); lists(c, &ext(((e[0] as u16) << 8) | e[1] as u16, &body[..l]));
                for i in 0..l.min(12) { for d in [1u8, 2, 3, 255, 254, 253] { let mut b = body[..l].to_vec(); b[i] = b[i].wrapping_add(d); bodies(c, &b); lists(c, &ext(((e[0] as u16) << 8) | e[1] as u16, &b)) } } }
        }
    }
    // every length and size field at its limits
    for n in [0usize, 1, 2, 255, 256, 32767, 65534, 65535] {
        let b = vec![0u8; n];
        for t in [0u16, 10, 13, 43, 51] { lists(c, &ext(t, &b)); let mut x = ext(t, &b); x.truncate(x.len().saturating_sub(1)); lists(c, &x) }
        bodies(c, &v16(&b)); let z: Vec<u16> = vec![0x0403; n / 2]; bodies(c, &v16(&u16s(&z)));
    }
    while c.go() {
        let (ch, sh, es) = good(c);
        for m in [ch, sh] {
            let mut b = m.clone();
            for _ in 0..1 + c.rng.below(4) { let i = c.rng.below(b.len()); b[i] = match c.rng.below(4) { 0 => 0, 1 => 0xff, 2 => b[i].wrapping_add(1), _ => c.rng.u64() as u8 } }
            if c.rng.below(2) == 0 { let l = c.rng.below(b.len() + 1); b.truncate(l) }
            feed(c, &b);
        }
        // an extension list whose outer lengths are right and whose bodies are cut or changed
        let mut list = vec![];
        for e in es { let mut body = e[4..].to_vec(); if c.rng.below(2) == 0 && !body.is_empty() { let l = c.rng.below(body.len() + 1); body.truncate(l) } if c.rng.below(2) == 0 && !body.is_empty() { let i = c.rng.below(body.len().min(8)); body[i] = c.rng.u64() as u8 >> c.rng.below(8) } list.push(ext(((e[0] as u16) << 8) | e[1] as u16, &body)) }
        let r = c.rng.bytes(32);
        feed(c, &hello(&r, &[], &[0x1301], &list)); feed(c, &shello(&r, &[], 0x1301, &list)); lists(c, &list.concat());
        let n = c.rng.below(70); let b = c.rng.edgy(n); feed(c, &b);
    }
}

// ---------------------------------------------------------------- P18
struct Ch { random: Vec<u8>, sid: Vec<u8>, suites: Vec<u16>, versions: Vec<Vec<u16>>, shares: Vec<Vec<(u16, Vec<u8>)>>, names: Vec<Vec<u8>>, sigs: Vec<Vec<u16>> }
#[derive(Clone)]
struct Offer { suites: Vec<u16>, versions: Option<Vec<u16>>, shares: Vec<(u16, Vec<u8>)>, name: Option<Vec<u8>>, sigs: Option<Vec<u16>>, sid: Vec<u8>, order: u64 }
fn encode(o: &Offer, random: &[u8]) -> Vec<u8> {
    let mut es = vec![x_shares(&o.shares)];
    if let Some(v) = &o.versions { es.push(x_versions(v)) }
    if let Some(v) = &o.name { es.push(x_name(v)) }
    if let Some(v) = &o.sigs { es.push(x_sigs(v)) }
    es.push(x_groups(&[0x17, 0x1d])); es.push(ext(0x2d, &[1, 1]));
    let mut r = Rng::new(o.order);
    for i in (1..es.len()).rev() { let j = r.below(i + 1); es.swap(i, j) }
    hello(random, &o.sid, &o.suites, &es)
}
fn rd16(b: &[u8], i: usize) -> Result<usize, String> { if i + 2 > b.len() { Err("message too short".into()) } else { Ok((b[i] as usize) << 8 | b[i + 1] as usize) } }
/// reads a ServerHello the server wrote: (random, sid, suite, share, versions)
fn read_sh(b: &[u8]) -> Result<(Vec<u8>, Vec<u8>, u16, Option<(u16, Vec<u8>)>, Option<u16>), String> {
    if b.len() < 35 || b[0] != 3 || b[1] != 3 { return Err("not a ServerHello".into()) }
    let sl = b[34] as usize;
    let p = 35 + sl;
    let suite = rd16(b, p)? as u16;
    if b.get(p + 2) != Some(&0) { return Err("compression method".into()) }
    let el = rd16(b, p + 3)?;
    let mut i = p + 5;
    if i + el != b.len() { return Err(format!("extensions length {} with {} bytes present", el, b.len() - i)) }
    let (mut share, mut ver) = (None, None);
    while i < b.len() {
        let (t, l) = (rd16(b, i)?, rd16(b, i + 2)?);
        let body = b.get(i + 4..i + 4 + l).ok_or("extension too long")?;
        i += 4 + l;
        match t { 51 => { if share.is_some() { return Err("two key shares".into()) } let kl = rd16(body, 2)?; if kl + 4 != l { return Err("key share length".into()) } share = Some((rd16(body, 0)? as u16, body[4..].to_vec())) } 43 => { if l != 2 { return Err("version length".into()) } ver = Some(rd16(body, 0)? as u16) } _ => return Err(format!("extension {} in ServerHello", t)) }
    }
    Ok((b[2..34].to_vec(), b[35..p].to_vec(), suite, share, ver))
}
fn known(s: u16) -> bool { (0x1301..=0x1303).contains(&s) }
fn negotiate(c: &mut Ctx, o: &Offer, cfg_name: Option<&str>, seed: u64) {
    let mut r0 = Rng::new(seed ^ 77);
    let random = r0.bytes(32);
    let raw = encode(o, &random);
    let lone = o.versions.is_none();
    c.case("negotiation", &|| format!("server name configured={:?} rng={} client hello={}", cfg_name, seed, hex(&raw)), || {
        let ch = ClientHello::from_raw(&raw).map_err(|e| format!("a well-formed ClientHello is refused: {:?}", e))?;
        if ch.random != &random[..] { return Err("random".into()) }
        if ch.legacy_session_id_echo.unwrap_or(&[]) != &o.sid[..] { return Err("session id".into()) }
        let want: Vec<u16> = o.suites.iter().cloned().filter(|x| known(*x) || *x == 0xff).collect();
        if ch.cipher_suites.iter().map(|x| *x as u16).collect::<Vec<_>>() != want { return Err(format!("suites read as {:?}", ch.cipher_suites)) }
        let xs: Vec<&Vec<u8>> = o.shares.iter().filter(|(g, _)| *g == 0x1d).map(|(_, k)| k).collect();
        let ks = ch.get_public_key_share();
        match (&ks, xs.first()) { (Some(k), Some(w)) => if k.group != NamedGroup::X25519 || k.opaque != **w { return Err(format!("the share used is {:?} {}", k.group, hex(&k.opaque))) }, (None, None) => (), _ => return Err("the X25519 share is not found, or another is taken for it".into()) }
        let v13 = o.versions.as_ref().map(|v| v.contains(&0x304)).unwrap_or(true);
        let name_ok = match (cfg_name, &o.name) { (Some(a), Some(b)) => a.as_bytes() == &b[..], _ => true };
        let suite_ok = o.suites.iter().any(|x| known(*x));
        let sig_ok = o.sigs.as_ref().map(|v| v.contains(&0x0403)).unwrap_or(true);
        let cfg = config(cfg_name);
        let mut rng = TestRng(Rng::new(seed));
        let res = ServerHello::from_client_hello(&ch, &mut rng, &cfg);
        let (sh, sk) = match res {
            Err(e) => { return if v13 && !lone && name_ok && suite_ok && sig_ok && !xs.is_empty() { Err(format!("an acceptable offer is refused: {:?}", e)) } else { Ok(()) } }
            Ok(x) => x,
        };
        if !v13 { return Err("accepted without TLS 1.3".into()) }
        if !name_ok { return Err("accepted for another server name".into()) }
        if !suite_ok { return Err("accepted without a common suite".into()) }
        if xs.is_empty() { return Err("accepted without an X25519 share".into()) }
        let b = sh.as_bytes();
        let (rnd, sid, suite, share, ver) = read_sh(&b)?;
        if rnd != sh.random.to_vec() { return Err("random of the answer".into()) }
        if sid != o.sid { return Err(format!("session id echoed as {}", hex(&sid))) }
        if !known(suite) || !o.suites.contains(&suite) || sh.cipher_suite as u16 != suite { return Err(format!("selected suite {:04x}", suite)) }
        if ver != Some(0x304) { return Err(format!("selected version {:?}", ver)) }
        let (g, k) = share.ok_or("no key share in the answer")?;
        // the private key's integer is the big-endian reading of the scalar bytes
        let sw = refs::to_be32(&sk.secret);
        let mut u9 = [0u8; 32]; u9[0] = 9;
        if g != 0x1d || k != refs::x25519(&sw, &u9).to_vec() { return Err(format!("share sent: group {:04x} {}", g, hex(&k))) }
        // the other side reads it back
        let back = ServerHello::from_raw(&b).map_err(|e| format!("the client refuses the answer: {:?}", e))?;
        if back.random != sh.random || back.legacy_session_id_echo.unwrap_or(&[]) != &o.sid[..] || back.cipher_suite as u16 != suite { return Err("the client reads other values".into()) }
        match back.get_public_key_share() { Some(e) if e.group == NamedGroup::X25519 && e.opaque == k => (), e => return Err(format!("the client reads the share as {:?}", e)) }
        // and the secret both compute comes from the client's X25519 share
        let mut peer = [0u8; 32];
        if xs[0].len() == 32 {
            peer.copy_from_slice(xs[0]);
            let z = refs::x25519(&sw, &peer);
            let mut t: Box<dyn TranscriptHash> = if suite == 0x1302 { Box::new(Sha384::new()) } else { Box::new(Sha256::new()) };
            t.update(&raw);
            let hh = t.finalize();
            let real = KeySchedule::from_handshake(t.as_ref(), &sk, ks.unwrap());
            let want = KeySchedule::do_key_schedule(t.get_type(), &hh, &z);
            match (real, want) { (Ok(a), Some(w)) => if a.client_handshake_traffic_secret.pseudo_random_key != w.client_handshake_traffic_secret.pseudo_random_key { return Err("the shared secret is not computed from the client's X25519 share".into()) }, (Err(_), _) if z == [0; 32] => (), (a, _) => return Err(format!("no key schedule: {:?}", a.err())) }
        }
        Ok(())
    });
}
fn client_side(c: &mut Ctx, name: Option<String>, sid: Option<Vec<u8>>, share: &[u8], tls13: bool) {
    let random = c.rng.bytes(32);
    c.case("client's hello read by the server", &|| format!("name={:?} session id={:?} share={}", name, sid.as_ref().map(|x| hex(x)), hex(share)), || {
        let mut ch = ClientHello::new(&random, sid.as_deref()).map_err(|e| format!("{:?}", e))?;
        // KeyShareEntry holds the number's bytes in the order ibig_to_32bytes(Little) gives
        ch.extensions.push(ClientExtension::KeyShare(KeyShare::new(KeyShareEntry::new(NamedGroup::X25519, share.to_vec()))));
        ch.extensions.push(ClientExtension::SupportedVersion(SupportedVersions::new(tls13)));
        ch.extensions.push(ClientExtension::SignatureAlgorithms(SignatureAlgorithms::supported()));
        ch.extensions.push(ClientExtension::SupportedGroups(SupportedGroups::supported()));
        if let Some(n) = &name { ch.extensions.push(ClientExtension::ServerName(ServerName::new(n.clone()))) }
        let b = ch.as_bytes().map_err(|e| format!("{:?}", e))?;
        let mut w = share.to_vec(); w.reverse();
        let mut es = vec![x_shares(&[(0x1d, w.clone())]), x_versions(&[0x304]), x_sigs(&[0x0403]), x_groups(&[0x17, 0x1d])];
        if let Some(n) = &name { es.push(x_name(n.as_bytes())) }
        let _ = es; // the exact encoding is the library's business; what counts is what is read back
        let back = ClientHello::from_raw(&b).map_err(|e| format!("the server refuses it: {:?} {}", e, hex(&b)))?;
        if back.random != &random[..] || back.legacy_session_id_echo.unwrap_or(&[]) != sid.as_deref().unwrap_or(&[]) { return Err("random or session id".into()) }
        if back.cipher_suites != ch.cipher_suites { return Err("suites".into()) }
        match back.get_public_key_share() { Some(e) if e.group == NamedGroup::X25519 && e.opaque == w => (), e => return Err(format!("share read as {:?}, sent {}", e, hex(&w))) }
        let (mut v, mut n, mut s) = (0, 0, 0);
        for e in back.extensions.as_vec() { match e {
            ClientExtension::SupportedVersion(x) => { v += 1; if !x.is_tls13_supported() { return Err("version".into()) } }
            ClientExtension::ServerName(x) => { n += 1; if Some(x.get()) != name.as_deref() { return Err(format!("name read as {:?}", x.get())) } }
            ClientExtension::SignatureAlgorithms(x) => { s += 1; if x.0.len() != 1 || x.0[0] as u16 != 0x403 { return Err("signature algorithms".into()) } }
            _ => () } }
        if v != 1 || n != name.is_some() as usize || s > 1 { return Err(format!("extensions read back: {} versions, {} names", v, n)) }
        // and the whole answer is one an acceptable offer gets
        let cfg = config(name.as_deref());
        let mut rng = TestRng(Rng::new(5));
        ServerHello::from_client_hello(&back, &mut rng, &cfg).map_err(|e| format!("the server refuses the client's own hello: {:?}", e))?;
        Ok(())
    });
}
fn offer(c: &mut Ctx) -> Offer {
    let ns = c.rng.below(5);
    let mut suites: Vec<u16> = (0..ns).map(|_| *c.rng.pick(&[0x1301u16, 0x1302, 0x1303, 0x00ff, 0xc02f, 0x1304, 0x0013])).collect();
    if c.rng.below(4) == 0 { suites = vec![*c.rng.pick(&[0x00ffu16, 0xc030, 0x1302])] }
    let versions = match c.rng.below(8) { 0 => None, 1 => Some(vec![0x303]), 2 => Some(vec![0x303, 0x302, 0x301]), 3 => Some(vec![0x7f1c, 0x0403]), 4 => Some(vec![0x303, 0x304]), _ => Some(vec![0x304, 0x303]) };
    let nk = c.rng.below(4);
    let mut shares: Vec<(u16, Vec<u8>)> = (0..nk).map(|_| { let g = *c.rng.pick(&[0x17u16, 0x18, 0x1e, 0x100]); let l = *c.rng.pick(&[4usize, 32, 56, 65, 97]); (g, c.rng.bytes(l)) }).collect();
    if c.rng.below(6) > 0 { let i = c.rng.below(shares.len() + 1); let k = c.rng.arr32().to_vec(); shares.insert(i, (0x1d, k)) }
    if c.rng.below(6) == 0 && !shares.is_empty() { let k = c.rng.bytes(32); shares.push((0x1d, k)) }
    if shares.is_empty() { shares.push((0x17, c.rng.bytes(65))) }
    let name = match c.rng.below(5) { 0 => None, 1 => Some(b"example.org".to_vec()), 2 => Some(b"example.or".to_vec()), 3 => Some(b"Example.org".to_vec()), _ => Some(b"xexample.org".to_vec()) };
    let sigs = match c.rng.below(4) { 0 => None, 1 => Some(vec![0x0804, 0x0403]), 2 => Some(vec![0x0804]), _ => Some(vec![0x0403]) };
    let sid = match c.rng.below(4) { 0 => vec![], 1 => { let n = 1 + c.rng.below(32); c.rng.bytes(n) } _ => c.rng.bytes(32) };
    Offer { suites, versions, shares, name, sigs, sid, order: c.rng.u64() }
}
pub fn p18(c: &mut Ctx) {
    let k = c.rng.bytes(32);
    let base = Offer { suites: vec![0x1301], versions: Some(vec![0x304]), shares: vec![(0x1d, k.clone())], name: None, sigs: Some(vec![0x403]), sid: vec![9; 32], order: 1 };
    for l in 0..=32usize { let sid = c.rng.bytes(l); negotiate(c, &Offer { sid, ..base.clone() }, None, l as u64) }
    for a in [0x1301u16, 0x1302, 0x1303, 0xff, 0xc02f] { for b in [0x1301u16, 0x1302, 0x1303, 0xff, 0xc02f] { negotiate(c, &Offer { suites: vec![a, b], ..base.clone() }, None, 3); for d in [0x1301u16, 0x1302, 0x1303, 0xff] { negotiate(c, &Offer { suites: vec![a, b, d], ..base.clone() }, None, 4) } } negotiate(c, &Offer { suites: vec![a], ..base.clone() }, None, 5) }
    negotiate(c, &Offer { suites: vec![], ..base.clone() }, None, 5);
    for v in 0x300..=0x305u16 { negotiate(c, &Offer { versions: Some(vec![v]), ..base.clone() }, None, 6); negotiate(c, &Offer { versions: Some(vec![0x303, v, 0x301]), ..base.clone() }, None, 6) }
    // 03 04 across two entries, and every single version
    for v in [[0x303u16, 0x403], [0x1a03, 0x4ff], [0x303, 0x400], [0x403, 0x304], [0x304, 0x403], [0x3, 0x400], [0x7f1c, 0x303], [0x301, 0x302]] {
        negotiate(c, &Offer { versions: Some(v.to_vec()), ..base.clone() }, None, 6);
        negotiate(c, &Offer { versions: Some(vec![v[0], v[1], 0x303]), ..base.clone() }, None, 6);
    }
    for v in 0..=0xffffu16 {
        use anothertls::net::extensions::{shared::Extension, SupportedVersions};
        for (b, want) in [(vec![2u8, (v >> 8) as u8, v as u8], v == 0x304), (vec![4, 3, 3, (v >> 8) as u8, v as u8], v == 0x304), (vec![4, (v >> 8) as u8, v as u8, 3, 4], true)] {
            let body = b.clone();
            c.case("SupportedVersions::server_parse", &|| format!("extension body {:02x?}", body), || { let got = SupportedVersions::server_parse(&b).map(|x| x.is_tls13_supported()).unwrap_or(false); if got == want { Ok(()) } else { Err(format!("TLS 1.3 read as offered: {}, it is: {}", got, want)) } });
        }
    }
    // every single cipher suite number, next to one that is known
    for hi in 0..=0xffu16 {
        let suites: Vec<u16> = (0..=0xffu16).map(|lo| hi << 8 | lo).collect();
        let raw = encode(&Offer { suites: suites.clone(), ..base.clone() }, &[5; 32]);
        c.case("cipher suites of a ClientHello", &|| format!("{:04x} to {:04x} offered", hi << 8, hi << 8 | 0xff), || {
            let ch = ClientHello::from_raw(&raw).map_err(|e| format!("a well-formed ClientHello is refused: {:?}", e))?;
            let want: Vec<u16> = suites.iter().cloned().filter(|x| known(*x) || *x == 0xff).collect();
            if ch.cipher_suites.iter().map(|x| *x as u16).collect::<Vec<_>>() == want { Ok(()) } else { Err(format!("suites read as {:?}", ch.cipher_suites)) }
        });
        negotiate(c, &Offer { suites: vec![hi << 8 | 0x01, hi << 8 | 0x02, 0x1302], ..base.clone() }, None, 12);
        negotiate(c, &Offer { suites: vec![hi << 8 | 0x01, 0x1300 | hi], ..base.clone() }, None, 12);
    }
    // the share behind 0..12 others
    for n in 0..12usize { for l in [5usize, 28, 32, 33, 65] { for at in 0..=n.min(4) {
        let mut shares: Vec<(u16, Vec<u8>)> = (0..n).map(|i| ([0x17u16, 0x18, 0x19, 0x1e, 0x100][i % 5], c.rng.bytes(l))).collect();
        shares.insert(at * n.max(1) / n.clamp(1, 4).max(1) % (n + 1), (0x1d, k.clone()));
        negotiate(c, &Offer { shares: shares.clone(), ..base.clone() }, None, 13);
        shares.push((0x1d, c.rng.bytes(32)));
        negotiate(c, &Offer { shares, ..base.clone() }, None, 13);
    } } }
    for n in ["", "a", "b", "ab", "example.org", "example.orgx", "EXAMPLE.ORG", "example.or\u{e9}"] { for m in ["a", "ab", "example.org", "example.or\u{e9}"] { negotiate(c, &Offer { name: Some(n.as_bytes().to_vec()), ..base.clone() }, Some(m), 7) } negotiate(c, &Offer { name: Some(n.as_bytes().to_vec()), ..base.clone() }, None, 7) }
    for l in [1usize, 2, 8, 16, 31, 32] { for b in [0u8, 1, 0x20, 0x7f, 0x80, 0xff] { negotiate(c, &Offer { sid: vec![b; l], ..base.clone() }, None, 10) } }
    for l in (1..=20usize).chain([31, 32, 33, 63, 64, 127, 128, 255]) { for a in [0x503u16, 0x603, 0x804] {
        let mut v = vec![a; l];
        negotiate(c, &Offer { sigs: Some(v.clone()), ..base.clone() }, None, 11);
        v[l / 2] = 0x403;
        negotiate(c, &Offer { sigs: Some(v), ..base.clone() }, None, 11);
    } }
    // names one character away from the configured one
    for m in ["a", "example.org"] {
        for ch in (0u8..128).map(|b| b as char).chain("\u{df}\u{130}\u{131}\u{200b}\u{3002}\u{ff41}\u{feff}\u{ad}".chars()) {
            for (at, del) in [(m.len(), 0), (0, 0), (m.len() / 2, 0), (0, 1), (m.len() - 1, 1)] {
                let n = format!("{}{}{}", &m[..at], ch, &m[at + del..]);
                negotiate(c, &Offer { name: Some(n.into_bytes()), ..base.clone() }, Some(m), 9);
            }
        }
        for n in [format!("{}\0.evil", m), format!("evil\0{}", m), format!("{}..", m), format!("{}{}", m, m), format!("www.{}", m), format!("*.{}", m), format!("{}:443", m), format!("{}.evil", m)] { negotiate(c, &Offer { name: Some(n.into_bytes()), ..base.clone() }, Some(m), 9) }
    }
    for g in [0x17u16, 0x18, 0x19, 0x1e, 0x100, 0x104] { for l in [4usize, 32, 65] { let o = c.rng.bytes(l);
        negotiate(c, &Offer { shares: vec![(g, o.clone())], ..base.clone() }, None, 8);
        negotiate(c, &Offer { shares: vec![(g, o.clone()), (0x1d, k.clone())], ..base.clone() }, None, 8);
        negotiate(c, &Offer { shares: vec![(0x1d, k.clone()), (g, o.clone())], ..base.clone() }, None, 8);
        negotiate(c, &Offer { shares: vec![(g, o.clone()), (g, o.clone()), (0x1d, k.clone())], ..base.clone() }, None, 8);
    } }
    for nm in [None, Some("a".to_string()), Some("example.org".into()), Some("x".repeat(300))] { for sid in [None, Some(vec![1u8; 32]), Some(vec![5u8])] { for s in [vec![0u8; 32], vec![1; 32], c.rng.bytes(32)] { client_side(c, nm.clone(), sid.clone(), &s, true) } } }
    while c.go() {
        let o = offer(c);
        let cfg = *c.rng.pick(&[None, Some("example.org"), Some("Example.org")]);
        let s = c.rng.u64();
        negotiate(c, &o, cfg, s);
        let n = c.rng.below(80);
        let nm = if n == 0 { None } else { Some((0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect::<String>()) };
        let l = 1 + c.rng.below(32); let sid = c.rng.bytes(l); let k = c.rng.bytes(32);
        client_side(c, nm, Some(sid), &k, true);
    }
    let _ = (CipherSuite::TLS_AES_128_GCM_SHA256, std::mem::size_of::<Ch>());
}
