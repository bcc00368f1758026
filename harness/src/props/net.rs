use crate::ctx::*;
use crate::refs;
use anothertls::crypto::ellipticcurve::{Curve, PrivateKey};
use anothertls::crypto::CipherSuite;
use anothertls::hash::{HashType, Hkdf, Sha256, Sha384, TranscriptHash};
use anothertls::net::alert::TlsError;
use anothertls::net::extensions::{KeyShareEntry, NamedGroup};
use anothertls::net::handshake::{get_finished_handshake, get_verify_data_for_finished, Handshake, HandshakeType};
use anothertls::net::key_schedule::{get_hkdf_expand_label, Key, KeySchedule, WriteKeys};
use anothertls::net::record::{Record, RecordPayloadProtection, RecordType, Value};

pub fn ht(n: usize) -> HashType { if n == 32 { HashType::SHA256 } else { HashType::SHA384 } }
pub const SUITES: [CipherSuite; 3] = [CipherSuite::TLS_AES_256_GCM_SHA384, CipherSuite::TLS_CHACHA20_POLY1305_SHA256, CipherSuite::TLS_AES_128_GCM_SHA256];
pub fn hlen(cs: CipherSuite) -> usize { if cs == CipherSuite::TLS_AES_256_GCM_SHA384 { 48 } else { 32 } }
pub fn klen(cs: CipherSuite) -> usize { if cs == CipherSuite::TLS_AES_128_GCM_SHA256 { 16 } else { 32 } }
pub fn tsh(n: usize) -> Box<dyn TranscriptHash> { if n == 32 { Box::new(Sha256::new()) } else { Box::new(Sha384::new()) } }

pub struct Secrets { pub c_hs: Vec<u8>, pub s_hs: Vec<u8>, pub master: Vec<u8> }
pub fn schedule(n: usize, hh: &[u8], shared: &[u8]) -> Secrets {
    let z = vec![0u8; n];
    let eh = refs::sha(n, b"");
    let early = refs::hkdf_extract(n, &z, &z);
    let d = refs::expand_label(n, &early, b"derived", &eh, n);
    let hs = refs::hkdf_extract(n, &d, shared);
    let d2 = refs::expand_label(n, &hs, b"derived", &eh, n);
    Secrets { c_hs: refs::expand_label(n, &hs, b"c hs traffic", hh, n), s_hs: refs::expand_label(n, &hs, b"s hs traffic", hh, n), master: refs::hkdf_extract(n, &d2, &z) }
}
fn same(what: &str, real: &[u8], want: &[u8]) -> Result<(), String> { if real == want { Ok(()) } else { Err(format!("{}: real {} reference {}", what, hex(real), hex(want))) } }
fn key_ok(what: &str, k: &Key, n: usize, secret: &[u8], kl: usize) -> Result<(), String> {
    same(&format!("{} traffic secret", what), &k.traffic_secret, secret)?;
    same(&format!("{} key", what), &k.key, &refs::expand_label(n, secret, b"key", b"", kl))?;
    same(&format!("{} iv", what), &k.iv, &refs::expand_label(n, secret, b"iv", b"", 12))
}
fn schedule_ok(ks: &KeySchedule, n: usize, w: &Secrets) -> Result<(), String> {
    same("client handshake traffic secret", &ks.client_handshake_traffic_secret.pseudo_random_key, &w.c_hs)?;
    same("server handshake traffic secret", &ks.server_handshake_traffic_secret.pseudo_random_key, &w.s_hs)?;
    same("master secret", &ks.hkdf_master_secret.pseudo_random_key, &w.master)?;
    for h in [&ks.client_handshake_traffic_secret, &ks.server_handshake_traffic_secret, &ks.hkdf_master_secret] { if h.hash as usize != n { return Err("hash of a secret is not the suite's".into()) } }
    Ok(())
}
fn ks_case(c: &mut Ctx, cs: CipherSuite, msgs: &[Vec<u8>], shared: &[u8]) {
    let n = hlen(cs);
    c.case("key schedule", &|| format!("suite={:?} transcript pieces={:?} shared={}", cs, msgs.iter().map(|m| hex(m)).collect::<Vec<_>>(), hex(shared)), || {
        let all: Vec<u8> = msgs.concat();
        let hh = refs::sha(n, &all);
        let w = schedule(n, &hh, shared);
        let mut t = cs.get_tshash().map_err(|e| format!("{:?}", e))?;
        if t.get_type() as usize != n { return Err("transcript hash is not the suite's".into()) }
        for m in msgs { t.update(m) }
        let ks = KeySchedule::do_key_schedule(t.get_type(), &t.finalize(), shared).ok_or("None")?;
        schedule_ok(&ks, n, &w)?;
        let wk = WriteKeys::handshake_keys(&ks, cs).ok_or("None")?;
        key_ok("client handshake", &wk.client, n, &w.c_hs, klen(cs))?;
        key_ok("server handshake", &wk.server, n, &w.s_hs, klen(cs))?;
        let ap = WriteKeys::application_keys_from_master_secret(&ks.hkdf_master_secret, &hh, cs).ok_or("None")?;
        let (ca, sa) = (refs::expand_label(n, &w.master, b"c ap traffic", &hh, n), refs::expand_label(n, &w.master, b"s ap traffic", &hh, n));
        key_ok("client application", &ap.client, n, &ca, klen(cs))?;
        key_ok("server application", &ap.server, n, &sa, klen(cs))?;
        for (h, s) in [(&ks.client_handshake_traffic_secret, &w.c_hs), (&ks.server_handshake_traffic_secret, &w.s_hs)] {
            let fk = refs::expand_label(n, s, b"finished", b"", n);
            let vd = refs::hmac(n, &fk, &hh);
            same("verify data", &get_verify_data_for_finished(h, t.as_ref()).map_err(|e| format!("{:?}", e))?, &vd)?;
            let mut m = vec![20u8, 0, 0, n as u8]; m.extend(&vd);
            same("finished message", &get_finished_handshake(h, t.as_ref()).map_err(|e| format!("{:?}", e))?, &m)?;
        }
        // the protection built from the schedule uses the same keys, before and after the switch
        for is_client in [true, false] {
            let ks = KeySchedule::do_key_schedule(t.get_type(), &t.finalize(), shared).ok_or("None")?;
            let mut p = RecordPayloadProtection::new(ks, cs.get_cipher().map_err(|e| format!("{:?}", e))?, is_client).ok_or("None")?;
            key_ok("client handshake (protection)", &p.handshake_keys.client, n, &w.c_hs, klen(cs))?;
            key_ok("server handshake (protection)", &p.handshake_keys.server, n, &w.s_hs, klen(cs))?;
            if p.application_keys.is_some() { return Err("application keys before the handshake is over".into()) }
            p.generate_application_keys(t.as_ref()).map_err(|e| format!("{:?}", e))?;
            let a = p.application_keys.as_ref().ok_or("no application keys")?;
            key_ok("client application (protection)", &a.client, n, &ca, klen(cs))?;
            key_ok("server application (protection)", &a.server, n, &sa, klen(cs))?;
        }
        Ok(())
    });
}
fn ecdhe_case(c: &mut Ctx, cs: CipherSuite, priv_wire: &[u8; 32], peer: &[u8; 32], msg: &[u8]) {
    let n = hlen(cs);
    c.case("key schedule over x25519", &|| format!("suite={:?} private={} peer share={} transcript={}", cs, hex(priv_wire), hex(peer), hex(msg)), || {
        // the secret integer is the big-endian reading of the scalar's bytes
        let sk = PrivateKey::new(Curve::curve25519(), refs::be_int(priv_wire));
        let shared = refs::x25519(priv_wire, peer);
        let mut t = tsh(n); t.update(msg);
        let r = KeySchedule::from_handshake(t.as_ref(), &sk, &KeyShareEntry::new(NamedGroup::X25519, peer.to_vec()));
        if shared == [0; 32] { return match r { Err(_) => Ok(()), Ok(_) => Err("the all-zero shared secret was accepted".into()) } }
        let ks = r.map_err(|e| format!("error {:?}", e))?;
        schedule_ok(&ks, n, &schedule(n, &refs::sha(n, msg), &shared))
    });
}
pub fn p04(c: &mut Ctx) {
    for l in 0..=20usize { for cl in [0usize, 1, 32, 48] { for ol in [0usize, 1, 12, 16, 32, 48, 255, 256, 300, 65535] {
        let (label, ctx) = (c.rng.bytes(l), c.rng.bytes(cl));
        let mut w = vec![(ol >> 8) as u8, ol as u8, 6 + l as u8]; w.extend(b"tls13 "); w.extend(&label); w.push(cl as u8); w.extend(&ctx);
        c.eq("HkdfLabel", &|| format!("label={} context={} length={}", hex(&label), hex(&ctx), ol), || get_hkdf_expand_label(&label, &ctx, ol), &w);
    } } }
    for cs in SUITES {
        for ml in [0usize, 1, 55, 56, 64, 127, 128, 200, 511, 1000] {
            let m = c.rng.bytes(ml);
            for sh in [vec![0u8; 32], vec![0xff; 32], { let mut v = c.rng.bytes(32); v[0] = 0; v }, { let mut v = c.rng.bytes(32); v[31] = 0; v[30] = 0; v }] { ks_case(c, cs, &[m.clone()], &sh) }
            ks_case(c, cs, &[m[..ml / 2].to_vec(), m[ml / 2..].to_vec()], &[7; 32]);
        }
        let x = c.rng.arr32();
        let mut u9 = [0u8; 32]; u9[0] = 9;
        for peer in [u9, [0; 32], [0xff; 32], { let mut o = [0u8; 32]; o[0] = 1; o }, { let mut o = [0xffu8; 32]; o[0] = 0xec; o[31] = 0x7f; o }, { let mut o = [0u8; 32]; o[31] = 9; o }, { let mut o = [0u8; 32]; o[31] = 0x80; o[0] = 9; o }] { ecdhe_case(c, cs, &x, &peer, b"hello") }
        for bad in [0usize, 1, 31, 33, 64] {
            let o = c.rng.bytes(bad);
            c.case("share length", &|| format!("{}", hex(&o)), || { let t = tsh(32); match KeySchedule::from_handshake(t.as_ref(), &PrivateKey::new(Curve::curve25519(), refs::be_int(&[5; 32])), &KeyShareEntry::new(NamedGroup::X25519, o.clone())) { Err(_) => Ok(()), Ok(_) => Err("a share that is not 32 bytes long was used".into()) } });
        }
    }
    while c.go() {
        let cs = *c.rng.pick(&SUITES);
        let (a, b) = (c.rng.below(300), c.rng.below(200));
        let (m, m2) = (c.rng.bytes(a), c.rng.bytes(b));
        let sh = c.rng.edgy(32);
        ks_case(c, cs, &[m.clone(), m2], &sh);
        let (p, q) = (c.rng.arr32(), c.rng.arr32());
        ecdhe_case(c, cs, &p, &q, &m);
    }
}
pub fn nonce(iv: &[u8], k: u64) -> Vec<u8> { let mut o = iv.to_vec(); for (i, b) in k.to_be_bytes().iter().enumerate() { o[4 + i] ^= b } o }
fn protection(cs: CipherSuite, seed: &[u8], is_client: bool) -> RecordPayloadProtection {
    let ks = KeySchedule::do_key_schedule(ht(hlen(cs)), &refs::sha(hlen(cs), seed), seed).unwrap();
    RecordPayloadProtection::new(ks, cs.get_cipher().unwrap(), is_client).unwrap()
}
pub fn seal_ref(cs: CipherSuite, key: &[u8], nonce: &[u8], inner: &[u8]) -> Vec<u8> { seal_head(cs, key, nonce, inner, [23, 3, 3]) }
/// the same with another record header
pub fn seal_head(cs: CipherSuite, key: &[u8], nonce: &[u8], inner: &[u8], head: [u8; 3]) -> Vec<u8> {
    let l = inner.len() + 16;
    let mut h = vec![head[0], head[1], head[2], (l >> 8) as u8, l as u8];
    let (ct, tag) = match cs { CipherSuite::TLS_CHACHA20_POLY1305_SHA256 => refs::chapoly(key, nonce, inner, &h, false), _ => refs::gcm(key, nonce, inner, &h, false) };
    h.extend(ct); h.extend(tag); h
}
fn k_secrets(cs: CipherSuite, seed: &[u8]) -> Secrets { schedule(hlen(cs), &refs::sha(hlen(cs), seed), seed) }
/// (key, iv) the side that sends uses
fn k_of(cs: CipherSuite, s: &Secrets, client: bool) -> (Vec<u8>, Vec<u8>) {
    let t = if client { &s.c_hs } else { &s.s_hs };
    (refs::expand_label(hlen(cs), t, b"key", b"", klen(cs)), refs::expand_label(hlen(cs), t, b"iv", b"", 12))
}
/// where a Key keeps its counter: the word that counts along with the nonces it hands out
fn seq_at() -> Option<usize> {
    let mut k = Key::from_hkdf(&Hkdf::from_prk(HashType::SHA256, vec![3; 32]), 16, 12)?;
    let words = |k: &Key| -> Vec<u64> { let p = k as *const Key as *const u64; (0..std::mem::size_of::<Key>() / 8).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect() };
    if std::mem::align_of::<Key>() != 8 { return None }
    let mut at: Vec<usize> = (0..std::mem::size_of::<Key>() / 8).collect();
    for i in 0..300u64 { let w = words(&k); at.retain(|j| w[*j] == i); k.get_per_record_nonce().ok()?; }
    if at.len() == 1 { Some(at[0]) } else { None }
}
fn set_seq(k: &mut Key, n: u64) { if let Some(i) = seq_at() { unsafe { std::ptr::write_volatile((k as *mut Key as *mut u64).add(i), n) } } }
/// nonces far along: the counter is set, then read on
fn late_nonces(c: &mut Ctx) {
    if seq_at().is_none() { return }
    let mut starts = vec![u64::MAX - 2, u64::MAX - 1];
    for b in 1..64 { let p = 1u64 << b; starts.extend([p - 2, p - 1, p, p | 0x55, p - 1 ^ 1 << (b / 2)]) }
    for _ in 0..200 { starts.push(c.rng.u64() >> c.rng.below(64)) }
    for start in starts {
        c.case("nonces far along", &|| format!("counter set to {}", start), || {
            let mut k = Key::from_hkdf(&Hkdf::from_prk(HashType::SHA256, vec![9; 32]), 16, 12).ok_or("None")?;
            set_seq(&mut k, start);
            let mut i = start as u128;
            for _ in 0..4 {
                match k.get_per_record_nonce() {
                    Ok(r) => { if i > u64::MAX as u128 { return Err(format!("a nonce after 2^64 records: {}", hex(&r))) } if r != nonce(&k.iv, i as u64) { return Err(format!("record {}: nonce {}", i, hex(&r))) } }
                    Err(_) => if i < u64::MAX as u128 { return Err(format!("record {} refused", i)) } else { i = u64::MAX as u128 },
                }
                i += 1;
            }
            Ok(())
        });
    }
}
fn nonces(c: &mut Ctx, n: u64, secret: &[u8]) {
    c.case("nonce of the k-th record", &|| format!("secret={} records={}", hex(secret), n), || {
        let mut k = Key::from_hkdf(&Hkdf::from_prk(HashType::SHA256, secret.to_vec()), 16, 12).ok_or("None")?;
        for i in 0..n { let w = nonce(&k.iv, i); let r = k.get_per_record_nonce().map_err(|e| format!("{:?}", e))?; if r != w { return Err(format!("record {}: nonce {} expected {}", i, hex(&r), hex(&w))) } }
        Ok(())
    });
}
/// a mix of sends and receives on one connection; every sealed record is compared with the reference
fn traffic(c: &mut Ctx, site: &'static str, cs: CipherSuite, seed: &[u8], ops: &[(u8, Vec<u8>)], after: bool) { traffic_at(c, site, cs, seed, ops, after, 0) }
fn traffic_at(c: &mut Ctx, site: &'static str, cs: CipherSuite, seed: &[u8], ops: &[(u8, Vec<u8>)], after: bool, start: u64) {
    let start = if start > 0 && seq_at().is_none() { 0 } else { start };
    c.case(site, &|| format!("suite={:?} seed={} application keys={} operations (0 client sends, 1 server sends, 2/3 client/server sends a refused record, 4 handshake from client, 6/7 record with another header) counters from {} {:?}", cs, hex(seed), after, start, ops.iter().map(|(o, m)| if m.len() > 64 { format!("{} {} bytes from {}", o, m.len(), hex(&m[..8])) } else { format!("{} {}", o, hex(m)) }).collect::<Vec<_>>()), || {
        let s = k_secrets(cs, seed);
        let mut cl = protection(cs, seed, true);
        let mut sv = protection(cs, seed, false);
        let n = hlen(cs);
        let mut keys = [k_of(cs, &s, true), k_of(cs, &s, false)];
        if after {
            let mut t = tsh(n); t.update(seed);
            cl.generate_application_keys(t.as_ref()).map_err(|e| format!("{:?}", e))?;
            sv.generate_application_keys(t.as_ref()).map_err(|e| format!("{:?}", e))?;
            let hh = refs::sha(n, seed);
            for (i, l) in [&b"c ap traffic"[..], b"s ap traffic"].iter().enumerate() {
                let t = refs::expand_label(n, &s.master, l, &hh, n);
                keys[i] = (refs::expand_label(n, &t, b"key", b"", klen(cs)), refs::expand_label(n, &t, b"iv", b"", 12));
            }
        }
        let mut ctr = [start; 2];
        if start > 0 { for p in [&mut cl, &mut sv] {
            let k = match p.application_keys.as_mut() { Some(k) => k, None => &mut p.handshake_keys };
            set_seq(&mut k.client, start); set_seq(&mut k.server, start);
        } }
        for (step, (op, m)) in ops.iter().enumerate() {
            let typs = [RecordType::ApplicationData, RecordType::Handshake, RecordType::Alert];
            let mut ty = typs[(m.len() + step) % 3];
            let dir = (*op & 1) as usize;
            let big = vec![0u8; (1 << 14) + 1];
            let (tx, rx) = if dir == 0 { (&mut cl, &mut sv) } else { (&mut sv, &mut cl) };
            if *op == 2 || *op == 3 {
                if let Ok(_) = tx.encrypt(Record::new(ty, Value::Ref(&big))) { return Err("a record above 2^14 bytes was sealed".into()) }
                continue;
            }
            if *op == 6 || *op == 7 {
                let mut inner = m.clone(); inner.push(ty as u8);
                let raw = seal_head(cs, &keys[dir].0, &nonce(&keys[dir].1, ctr[dir]), &inner, [[23u8, 3, 1], [23, 3, 0], [22, 3, 3], [23, 0, 0], [23, 254, 253]][m.len() % 5]);
                // the sender made this record, so its own counter has moved on as well
                let _ = tx.encrypt(Record::new(ty, Value::Ref(m)));
                ctr[dir] += 1;
                match Record::from_raw(&raw) { Ok((_, rec)) => match rx.decrypt(rec) { Ok((t, p)) => if t != ty || p != *m { return Err(format!("step {}: opened to {:?} {}", step, t, hex(&p[..p.len().min(40)]))) }, Err(_) => return Ok(()) }, Err(_) => return Ok(()) }
                continue;
            }
            let out = if *op == 4 { ty = RecordType::Handshake; tx.encrypt_handshake(m) } else if m.len() % 2 == 0 { tx.encrypt(Record::new(ty, Value::Owned(m.clone()))) } else { tx.encrypt(Record::new(ty, Value::Ref(m))) };
            let out = out.map_err(|e| format!("step {}: seal: {:?}", step, e))?;
            let mut inner = m.clone(); inner.push(ty as u8);
            let w = seal_ref(cs, &keys[dir].0, &nonce(&keys[dir].1, ctr[dir]), &inner);
            ctr[dir] += 1;
            if out != w { return Err(format!("step {}: sealed record differs from the reference (record {} of its direction): real {} reference {}", step, ctr[dir] - 1, hex(&out[..out.len().min(80)]), hex(&w[..w.len().min(80)]))) }
            let (used, rec) = Record::from_raw(&out).map_err(|e| format!("step {}: {:?}", step, e))?;
            if used != out.len() { return Err("record length".into()) }
            let (t, p) = rx.decrypt(rec).map_err(|e| format!("step {}: open: {:?}", step, e))?;
            if t != ty || p != *m { return Err(format!("step {}: opened to {:?} {} instead of {:?} {}", step, t, hex(&p[..p.len().min(40)]), ty, hex(&m[..m.len().min(40)]))) }
        }
        Ok(())
    });
}
pub fn p14(c: &mut Ctx) {
    nonces(c, if c.thorough { 1 << 22 } else { 70000 }, b"a traffic secret of some length..");
    for i in 0..64u8 { nonces(c, 700, &[i; 32]) }
    late_nonces(c);
    for cs in SUITES { for after in [false, true] {
        for start in [254u64, 65534, (1 << 24) - 2, (1 << 32) - 3, (1 << 40) - 2, (1 << 48) - 2, (1 << 56) - 3, u64::MAX - 20] { let ops: Vec<(u8, Vec<u8>)> = (0..12usize).map(|i| ([0u8, 1, 1, 0, 4, 0, 1][i % 7], vec![i as u8; i])).collect(); traffic_at(c, "counters far along", cs, b"P14 seed", &ops, after, start) }
        for k in 0..10usize { let ops: Vec<(u8, Vec<u8>)> = vec![(0, vec![1; 9]), (6 + (k % 2) as u8, vec![7; k / 2]), (1, vec![2; 3]), (0, vec![3; 8]), (6 + (k % 2) as u8, vec![7; k / 2 + 5]), (0, vec![]), (1, vec![5; 20])]; traffic(c, "counters of a connection", cs, b"P14 heads", &ops, after) }
    } }
    for cs in SUITES { for after in [false, true] {
        let ops: Vec<(u8, Vec<u8>)> = (0..600usize).map(|i| ([0u8, 1, 1, 0, 2, 0, 3, 4][(i * 5 + i / 8) % 8], vec![i as u8; i % 40])).collect();
        traffic(c, "counters of a connection", cs, b"P14 seed", &ops, after);
    } }
    while c.go() {
        let cs = *c.rng.pick(&SUITES);
        let after = c.rng.below(2) == 0;
        let n = 1 + c.rng.below(60);
        let ops: Vec<(u8, Vec<u8>)> = (0..n).map(|_| { let l = c.rng.below(60); (c.rng.below(5) as u8, c.rng.bytes(l)) }).collect();
        let seed = c.rng.bytes(32);
        traffic(c, "counters of a connection", cs, &seed, &ops, after);
    }
}
fn open_case(c: &mut Ctx, cs: CipherSuite, seed: &[u8], raw: &[u8], want: Result<(u8, Vec<u8>), ()>, what: &str) {
    c.case("opening a record", &|| format!("{} suite={:?} seed={} record={}", what, cs, hex(seed), if raw.len() > 400 { format!("{}... {} bytes", hex(&raw[..100]), raw.len()) } else { hex(raw) }), || {
        let mut sv = protection(cs, seed, false);
        let r = match Record::from_raw(raw) { Ok((_, rec)) => sv.decrypt(rec), Err(e) => Err(e) };
        match (r, want) {
            (Ok((t, p)), Ok((wt, wp))) => if t as u8 == wt && p == wp { Ok(()) } else { Err(format!("opened to type {} content {} expected type {} content {}", t as u8, hex(&p[..p.len().min(60)]), wt, hex(&wp[..wp.len().min(60)]))) },
            (Err(_), Err(())) => Ok(()),
            (Ok((t, p)), Err(())) => Err(format!("accepted as {:?} {}", t, hex(&p[..p.len().min(60)]))),
            (Err(e), Ok(_)) => Err(format!("refused with {:?}", e)),
        }
    });
}
pub fn p15(c: &mut Ctx) {
    for cs in SUITES {
        let seed = b"P15 seed";
        let s = k_secrets(cs, seed);
        let (key, iv) = k_of(cs, &s, true);
        let n0 = nonce(&iv, 0);
        for len in [0usize, 1, 2, 15, 16, 17, 31, 32, 63, 64, 65, 255, 256, 1000, 16383, 16384] {
            let m = c.rng.bytes(len);
            for after in [false, true] { traffic(c, "seal and open", cs, seed, &[(0, m.clone()), (1, m.clone()), (4, m.clone()), (0, m.clone())], after) }
            for pad in [0usize, 1, 2, 15, 16, 100, 255, 300] { for ty in [20u8, 21, 22, 23] {
                let mut inner = m.clone(); inner.push(ty); inner.extend(vec![0; pad]);
                if inner.len() > 16385 + 255 { continue }
                open_case(c, cs, seed, &seal_ref(cs, &key, &n0, &inner), Ok((ty, m.clone())), "padded");
            } }
            // content that ends in zeros stays whole
            let mut z = m.clone(); let l = z.len(); for i in l.saturating_sub(5)..l { z[i] = 0 }
            let mut inner = z.clone(); inner.push(23); inner.extend([0; 3]);
            open_case(c, cs, seed, &seal_ref(cs, &key, &n0, &inner), Ok((23, z)), "content ending in zeros");
            if len <= 1000 { for ty in 1..=255u8 { if ![20, 21, 22, 23].contains(&ty) {
                let mut inner = m.clone(); inner.push(ty);
                open_case(c, cs, seed, &seal_ref(cs, &key, &n0, &inner), Err(()), "unknown inner type");
                if len > 2 { break }
            } } }
        }
        // the last byte that is not zero is the type, also where bytes before it look like one
        for ty in 1..=255u8 { for (before, pad) in [(23u8, 0usize), (22, 1), (21, 3), (20, 30)] {
            let inner = [&[7, 0, before, 0][..], &[before], &[ty], &vec![0; pad]].concat();
            open_case(c, cs, seed, &seal_ref(cs, &key, &n0, &inner), if (20..=23).contains(&ty) { Ok((ty, vec![7, 0, before, 0, before])) } else { Err(()) }, "type after type");
        } }
        for pad in [0usize, 1, 2, 16, 17, 100, 400] { open_case(c, cs, seed, &seal_ref(cs, &key, &n0, &vec![0; pad]), Err(()), "only padding") }
        for l in 0..=40usize {
            let mut raw = vec![23, 3, 3, 0, l as u8]; raw.extend(c.rng.bytes(l));
            open_case(c, cs, seed, &raw, Err(()), "random bytes");
        }
        // every bit of the record, header and tag included, is authenticated
        let mut inner = b"attack at dawn, 32 bytes or more".to_vec(); inner.push(22);
        let good = seal_ref(cs, &key, &n0, &inner);
        for bit in 0..good.len() * 8 {
            let mut bad = good.clone(); bad[bit / 8] ^= 1 << (bit % 8);
            open_case(c, cs, seed, &bad, Err(()), "one bit changed");
        }
        for cut in 1..good.len() - 5 { let mut bad = good[..good.len() - cut].to_vec(); let l = bad.len() - 5; bad[3] = (l >> 8) as u8; bad[4] = l as u8; open_case(c, cs, seed, &bad, Err(()), "cut short") }
        for k in 1..5u64 { open_case(c, cs, seed, &seal_ref(cs, &key, &nonce(&iv, k), &inner), Err(()), "out of sequence") }
        let (ks, ivs) = k_of(cs, &s, false);
        open_case(c, cs, seed, &seal_ref(cs, &ks, &nonce(&ivs, 0), &inner), Err(()), "sealed with the other direction's key");
        for d in 0..3usize { for extra in [1usize, 2, 17, 100] {
            let l = (1 << 14) + extra;
            c.case("too long", &|| format!("suite={:?} length={}", cs, l), || { let mut p = protection(cs, seed, d == 0); let big = vec![1u8; l]; match p.encrypt(Record::new(RecordType::ApplicationData, Value::Ref(&big))) { Err(_) => Ok(()), Ok(_) => Err("sealed".into()) } });
        } }
    }
    while c.go() {
        let cs = *c.rng.pick(&SUITES);
        let seed = c.rng.bytes(32);
        let s = k_secrets(cs, &seed);
        let (key, iv) = k_of(cs, &s, true);
        let (l, pad) = (c.rng.below(400), c.rng.below(80));
        let mut m = c.rng.edgy(l);
        let ty = *c.rng.pick(&[21u8, 22, 23]);
        let content = m.clone();
        m.push(ty); m.extend(vec![0; pad]);
        let raw = seal_ref(cs, &key, &nonce(&iv, 0), &m);
        open_case(c, cs, &seed, &raw, Ok((ty, content)), "padded");
        let mut bad = raw.clone(); let i = c.rng.below(bad.len() * 8); bad[i / 8] ^= 1 << (i % 8);
        open_case(c, cs, &seed, &bad, Err(()), "one bit changed");
        let n = 1 + c.rng.below(12);
        let ops: Vec<(u8, Vec<u8>)> = (0..n).map(|_| { let l = c.rng.below(300); (c.rng.below(5) as u8, c.rng.edgy(l)) }).collect();
        let after = c.rng.below(2) == 0;
        traffic(c, "seal and open", cs, &seed, &ops, after);
    }
}
fn record_case(c: &mut Ctx, buf: &[u8]) {
    c.case("record parsing", &|| if buf.len() > 300 { format!("{}... {} bytes", hex(&buf[..40]), buf.len()) } else { hex(buf) }, || {
        let known = buf.len() >= 5 && [0u8, 20, 21, 22, 23].contains(&buf[0]);
        let l = if buf.len() >= 5 { (buf[3] as usize) * 256 + buf[4] as usize } else { 0 };
        let want = known && buf.len() >= 5 + l;
        match Record::from_raw(buf) {
            Ok((used, r)) => {
                if !want { return Err(format!("accepted: type {:?} length {}", r.content_type, r.len)) }
                if used != 5 + l || r.len != l || r.content_type as u8 != buf[0] || r.version != (buf[1] as u16) * 256 + buf[2] as u16 || r.header != buf[..5] || r.fraqment.as_ref() != &buf[5..5 + l] { return Err(format!("parsed to type {:?} version {:x} length {} consumed {} content {}", r.content_type, r.version, r.len, used, hex(&r.fraqment.as_ref()[..r.fraqment.len().min(40)]))) }
                Ok(())
            }
            Err(e) => if want { Err(format!("refused with {:?}", e)) } else { Ok(()) },
        }
    });
}
const HS: [u8; 11] = [1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254];
fn hs_case(c: &mut Ctx, buf: &[u8]) {
    c.case("handshake parsing", &|| if buf.len() > 300 { format!("{}... {} bytes", hex(&buf[..40]), buf.len()) } else { hex(buf) }, || {
        let l = if buf.len() >= 4 { (buf[1] as usize) * 65536 + (buf[2] as usize) * 256 + buf[3] as usize } else { 0 };
        let want = buf.len() >= 4 && HS.contains(&buf[0]) && buf.len() >= 4 + l;
        match Handshake::from_raw(buf) {
            Ok(h) => {
                if !want { return Err(format!("accepted as {:?} with {} bytes", h.handshake_type, h.fraqment.len())) }
                if h.handshake_type as u8 != buf[0] || h.fraqment != &buf[4..4 + l] || h.raw != &buf[..4 + l] || h.as_bytes() != &buf[..4 + l] { return Err(format!("parsed to {:?} {}", h.handshake_type, hex(&h.fraqment[..h.fraqment.len().min(40)]))) }
                Ok(())
            }
            Err(e) => if want { Err(format!("refused with {:?}", e)) } else { Ok(()) },
        }
    });
}
pub fn p16(c: &mut Ctx) {
    for t in 0..=255u8 {
        for l in [0usize, 1, 2, 5, 255, 256, 257] { for extra in [0usize, 1, 3] { for short in [0usize, 1] {
            let body = c.rng.bytes((l + extra).saturating_sub(short));
            let mut b = vec![t, 3, 3, (l >> 8) as u8, l as u8]; b.extend(&body); record_case(c, &b);
            let mut b = vec![t, 0, (l >> 8) as u8, l as u8]; b.extend(&body); hs_case(c, &b);
        } } }
        c.case("handshake types", &|| format!("{}", t), || match HandshakeType::new(t) { Some(h) => if HS.contains(&t) && h as u8 == t { Ok(()) } else { Err(format!("{:?}", h)) }, None => if HS.contains(&t) { Err("unknown".into()) } else { Ok(()) } });
        c.case("record types", &|| format!("{}", t), || match RecordType::new(t) { Ok(h) => if [0, 20, 21, 22, 23].contains(&t) && h as u8 == t { Ok(()) } else { Err(format!("{:?}", h)) }, Err(_) => if [0, 20, 21, 22, 23].contains(&t) { Err("unknown".into()) } else { Ok(()) } });
    }
    for l in 0..=9usize { for t in [0u8, 1, 2, 20, 22, 23, 255] { let mut b = c.rng.bytes(l); if l > 0 { b[0] = t } record_case(c, &b); hs_case(c, &b) } }
    for (v1, v2) in [(3u8, 1u8), (3, 3), (0, 0), (255, 255), (2, 0)] { record_case(c, &[22, v1, v2, 0, 2, 9, 9, 9]) }
    for l in [0usize, 1, 127, 128, 255, 256, 257, 1000, 4095, 16384, 32767, 32768, 65279, 65280, 65535] {
        let m = c.rng.bytes(l);
        for t in [20u8, 21, 22, 23] {
            let rt = RecordType::new(t).unwrap();
            let mut w = vec![t, 3, 3, (l >> 8) as u8, l as u8]; w.extend(&m);
            c.eq("record serialisation", &|| format!("type={} length={}", t, l), || { let a = Record::new(rt, Value::Ref(&m)).as_bytes(); let b = Record::new(rt, Value::Owned(m.clone())).as_bytes(); if a == b { a } else { vec![] } }, &w);
            record_case(c, &w);
            w.extend([1, 2, 3]); record_case(c, &w);
            let k = w.len() - 4; record_case(c, &w[..k]);
        }
    }
    for l in [0usize, 1, 255, 256, 65535, 65536, 65537, 70000, 131071, 1 << 20] {
        let m = c.rng.bytes(l);
        for t in HS {
            let mut w = vec![t, (l >> 16) as u8, (l >> 8) as u8, l as u8]; w.extend(&m);
            c.eq("handshake serialisation", &|| format!("type={} length={}", t, l), || Handshake::to_bytes(HandshakeType::new(t).unwrap(), m.clone()), &w);
            hs_case(c, &w);
            w.extend([1, 2, 3]); hs_case(c, &w);
            let k = w.len() - 4; hs_case(c, &w[..k]);
        }
    }
    while c.go() {
        let n = c.rng.below(80);
        let mut b = c.rng.edgy(n);
        if n > 4 { b[0] = *c.rng.pick(&[0u8, 1, 2, 8, 11, 20, 21, 22, 23]); if c.rng.below(3) > 0 { b[1] = 0; b[2] = 0; b[3] = 0; b[4] = c.rng.below(90) as u8 } }
        record_case(c, &b); 
        if n > 4 { b[3] = b[4] }
        hs_case(c, &b);
    }
    let _ = TlsError::DecodeError;
}
