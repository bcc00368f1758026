use crate::ctx::*;
use crate::refs;
use anothertls::crypto::aes::{gcm::Gcm, Blocksize, AES};
use anothertls::crypto::chacha20::{cipher::{ChaCha20, ChaCha20Block}, Poly1305};
use anothertls::crypto::{Cipher, CipherSuite};
use anothertls::net::alert::TlsError;
use anothertls::utils::bytes;

fn aes_case(c: &mut Ctx, key: &[u8], blocks: &[[u8; 16]]) {
    c.case("aes block", &|| format!("key={} blocks={:?}", hex(key), blocks.iter().map(|b| hex(b)).collect::<Vec<_>>()), || {
        let mut a = AES::init(key, Blocksize::new(key.len() * 8).ok_or("key size refused")?);
        for b in blocks {
            let w = refs::aes_encrypt(key, *b);
            let e = a.encrypt(*b);
            if e != w { return Err(format!("encrypt: {} reference {}", hex(&e), hex(&w))) }
            let d = a.decrypt(w);
            if d != *b { return Err(format!("decrypt({}) = {} expected {}", hex(&w), hex(&d), hex(b))) }
            let d2 = AES::init(key, Blocksize::new(key.len() * 8).ok_or("key size refused")?).decrypt(w);
            if d2 != *b { return Err(format!("decrypt with a fresh object: {}", hex(&d2))) }
        }
        Ok(())
    });
}
pub fn p05(c: &mut Ctx) {
    for (k, n) in [(128usize, 4usize), (192, 6), (256, 8)] {
        c.case("key sizes", &|| format!("{}", k), || match Blocksize::new(k) { Some(b) => { let key = vec![0u8; n * 4]; AES::init(&key, b); Ok(()) } None => Err("refused".into()) });
    }
    for kl in [16usize, 24, 32] {
        // every value of every state byte meets every table entry
        for v in 0..=255u8 { let key = vec![0u8; kl]; aes_case(c, &key, &[[v; 16]]) }
        for v in 0..=255u8 { let key = vec![v; kl]; aes_case(c, &key, &[[0; 16]]) }
        for i in 0..16 { for b in 0..8 { let mut x = [0u8; 16]; x[i] = 1 << b; let key = vec![0u8; kl]; aes_case(c, &key, &[x]) } }
        for i in 0..kl { for b in 0..8 { let mut key = vec![0u8; kl]; key[i] = 1 << b; aes_case(c, &key, &[[0; 16]]) } }
    }
    for kl in [16usize, 24, 32] {
        let key = c.rng.bytes(kl);
        let bl: Vec<[u8; 16]> = (0..300).map(|_| c.rng.arr16()).collect();
        aes_case(c, &key, &bl);
    }
    while c.go() {
        let kl = *c.rng.pick(&[16usize, 24, 32]);
        let key = c.rng.edgy(kl);
        let n = 1 + c.rng.below(3);
        let bl: Vec<[u8; 16]> = (0..n).map(|_| c.rng.arr16()).collect();
        aes_case(c, &key, &bl);
    }
}
fn suite_of(kl: usize) -> CipherSuite { if kl == 32 { CipherSuite::TLS_AES_256_GCM_SHA384 } else { CipherSuite::TLS_AES_128_GCM_SHA256 } }
fn gcm_case(c: &mut Ctx, key: &[u8], iv: &[u8], pt: &[u8], aad: &[u8]) {
    c.case("gcm seal", &|| format!("key={} nonce={} plaintext={} aad={}", hex(key), hex(iv), hex(pt), hex(aad)), || {
        let (w, wt) = refs::gcm(key, iv, pt, aad, false);
        match Gcm::new(suite_of(key.len())).encrypt(key, iv, pt, aad) {
            Ok((o, t)) if o == w && t == wt => Ok(()),
            Ok((o, t)) => Err(format!("real: {} tag {} reference: {} tag {}", hex(&o), hex(&t), hex(&w), hex(&wt))),
            Err(e) => Err(format!("error {:?}", e)),
        }
    });
}
/// an 16-byte nonce for which the counter's low word is `low` (found by solving for the nonce)
fn nonce_for_j0(key: &[u8], target: u128) -> Vec<u8> {
    // J0 = ((N*H) ^ len)*H  =>  N = ((J0 * H^-1) ^ len) * H^-1
    let h = u128::from_be_bytes(refs::aes_encrypt(key, [0; 16]));
    // h^(2^128-2)
    let (mut r, mut b) = (1u128 << 127, h);
    for i in 0..128 { if i != 0 { r = refs::gf128_mul(r, b) } b = refs::gf128_mul(b, b); }
    let n = refs::gf128_mul(refs::gf128_mul(target, r) ^ 128, r);
    n.to_be_bytes().to_vec()
}
pub fn p06(c: &mut Ctx) {
    for kl in [16usize, 32] {
        for pl in 0..=50 { for al in [0usize, 1, 5, 13, 15, 16, 17, 31, 32, 33] {
            let (key, iv, pt, aad) = (c.rng.edgy(kl), c.rng.edgy(12), c.rng.edgy(pl), c.rng.edgy(al));
            gcm_case(c, &key, &iv, &pt, &aad);
        } }
        for il in [1usize, 7, 8, 11, 13, 15, 16, 17, 24, 31, 32, 33, 60] {
            let (key, iv, pt, aad) = (c.rng.bytes(kl), c.rng.bytes(il), c.rng.bytes(37), c.rng.bytes(20));
            gcm_case(c, &key, &iv, &pt, &aad);
        }
        // the 32-bit counter wraps inside the message
        for low in [0xffff_ffffu32, 0xffff_fffe, 0xffff_fffd, 0xffff_ff00, 0x00ff_ffff, 0x0000_ffff] {
            let key = c.rng.bytes(kl);
            let hi = (c.rng.u64() as u128) << 64;
            for top in [hi, !0u128 << 32, 0] {
                let iv = nonce_for_j0(&key, (top & !0xffff_ffff) | low as u128);
                gcm_case(c, &key, &iv, &[0x5a; 65], b"aad");
            }
        }
        for pl in [255usize, 256, 257, 4095, 4096, 4112, 16384, 16401] {
            let (key, iv, pt, aad) = (c.rng.bytes(kl), c.rng.bytes(12), c.rng.bytes(pl), c.rng.bytes(5));
            gcm_case(c, &key, &iv, &pt, &aad);
        }
        for al in [255usize, 256, 257, 1024, 4096, 4097, 8192 + 3, 16384, 65535, 65536, 65537] {
            let (key, iv, aad) = (c.rng.bytes(kl), c.rng.bytes(12), c.rng.bytes(al));
            let mut pt = c.rng.bytes(if al % 2 == 0 { 48 } else { 35 });
            if let Some(l) = pt.last_mut() { *l |= 1 }
            gcm_case(c, &key, &iv, &pt, &aad);
        }
        for pl in [8191usize, 8192, 32768, 65535, 65536, 65553] {
            let (key, iv, pt) = (c.rng.bytes(kl), c.rng.bytes(12), c.rng.bytes(pl));
            gcm_case(c, &key, &iv, &pt, b"aad");
        }
        // a message longer than 65536 blocks
        for il in [12usize, 13] {
            let (key, iv) = (c.rng.bytes(kl), c.rng.bytes(il));
            gcm_case(c, &key, &iv, &vec![0u8; 16 * 65540 + 9], b"aad");
        }
        for il in 1..=130usize {
            let (key, iv, pt) = (c.rng.bytes(kl), c.rng.bytes(il), c.rng.bytes(33));
            gcm_case(c, &key, &iv, &pt, &[]);
        }
        for il in [255usize, 256, 257, 1000, 4096, 8192, 65536] {
            let (key, iv, pt) = (c.rng.bytes(kl), c.rng.bytes(il), c.rng.bytes(33));
            gcm_case(c, &key, &iv, &pt, &[]);
        }
    }
    while c.go() {
        let kl = *c.rng.pick(&[16usize, 32]);
        let il = *c.rng.pick(&[12usize, 12, 12, 16, 8, 1 + (kl * 7) % 23]);
        let (pl, al) = (c.rng.below(100), c.rng.below(60));
        let (key, iv, pt, aad) = (c.rng.edgy(kl), c.rng.edgy(il), c.rng.edgy(pl), c.rng.edgy(al));
        gcm_case(c, &key, &iv, &pt, &aad);
    }
}
fn cc_case(c: &mut Ctx, key: &[u8], iv: &[u8], ctr: usize, pt: &[u8]) {
    c.case("chacha20 stream", &|| format!("key={} nonce={} counter={} input={}", hex(key), hex(iv), ctr, hex(pt)), || {
        let w = refs::chacha20(key, ctr as u32, iv, pt);
        for (name, r) in [("encrypt", ChaCha20::encrypt(pt, key, iv, ctr)), ("decrypt", ChaCha20::decrypt(pt, key, iv, ctr))] {
            match r { Some(o) if o == w => {}, Some(o) => return Err(format!("{}: {} reference {}", name, hex(&o), hex(&w))), None => return Err(format!("{} refused", name)) }
        }
        Ok(())
    });
}
pub fn p07(c: &mut Ctx) {
    for pl in 0..=200 { let (key, iv, pt) = (c.rng.edgy(32), c.rng.edgy(12), c.rng.edgy(pl)); let ctr = c.rng.below(3); cc_case(c, &key, &iv, ctr, &pt) }
    for pl in [1023usize, 1024, 4096, 16320, 16384, 16385, 20000] { let (key, iv, pt) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(pl)); cc_case(c, &key, &iv, 1, &pt) }
    for ctr in [0usize, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fff_ffff, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000] {
        let (key, iv, pt) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(333)); cc_case(c, &key, &iv, ctr, &pt)
    }
    for pl in [32768usize, 65535, 65536, 65537, 131072 + 64] { for ctr in [0usize, 1, 2, 7, 0xfff0] { let (key, iv, pt) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(pl)); cc_case(c, &key, &iv, ctr, &pt) } }
    for pl in (64..1300).step_by(64) { let (key, iv, pt) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(pl)); cc_case(c, &key, &iv, 1, &pt) }
    // a stream longer than 65536 blocks
    let (key, iv) = (c.rng.bytes(32), c.rng.bytes(12)); let pt = vec![0u8; 64 * 65540 + 7];
    c.case("chacha20 stream", &|| format!("key={} nonce={} counter=1 input={} zero bytes", hex(&key), hex(&iv), pt.len()), || {
        if ChaCha20::encrypt(&pt, &key, &iv, 1) == Some(refs::chacha20(&key, 1, &iv, &pt)) { Ok(()) } else { Err("differs from the reference".into()) }
    });
    // a stream longer than 256 blocks
    let (key, iv, pt) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(64 * 260 + 7)); cc_case(c, &key, &iv, 0, &pt);
    for kl in [0usize, 16, 31, 33, 64] { for il in [0usize, 8, 11, 12, 13, 24] {
        let (key, iv) = (c.rng.bytes(kl), c.rng.bytes(il));
        c.case("wrong lengths refused", &|| format!("key of {} bytes, nonce of {}", kl, il), || {
            if ChaCha20Block::init(&key, &iv, 1).is_some() { return Err("block accepted".into()) }
            if ChaCha20::encrypt(b"hello", &key, &iv, 1).is_some() { return Err("stream accepted".into()) }
            Ok(())
        });
    } }
    for il in [0usize, 8, 11, 13] { let (key, iv) = (c.rng.bytes(32), c.rng.bytes(il));
        c.case("wrong lengths refused", &|| format!("nonce of {}", il), || if ChaCha20::encrypt(b"hello", &key, &iv, 1).is_some() { Err("accepted".into()) } else { Ok(()) }); }
    while c.go() {
        let pl = c.rng.below(400);
        let ctr = match c.rng.below(3) { 0 => c.rng.below(5), 1 => 0xffff_ffff - c.rng.below(5), _ => c.rng.u64() as u32 as usize };
        let (key, iv, pt) = (c.rng.edgy(32), c.rng.edgy(12), c.rng.edgy(pl));
        cc_case(c, &key, &iv, ctr, &pt)
    }
}
fn mac_case(c: &mut Ctx, key: &[u8], msg: &[u8]) {
    c.eq("poly1305 tag", &|| format!("key={} message={}", hex(key), hex(msg)), || Poly1305::mac(key, msg).to_vec(), &refs::poly1305(key, msg));
}
fn seal_case(c: &mut Ctx, key: &[u8], iv: &[u8], pt: &[u8], aad: &[u8]) {
    c.case("chacha20-poly1305 seal", &|| format!("key={} nonce={} plaintext={} aad={}", hex(key), hex(iv), hex(pt), hex(aad)), || {
        let (w, wt) = refs::chapoly(key, iv, pt, aad, false);
        let k = Poly1305::key_gen(key, iv);
        if k != refs::chacha_block(key, 0, iv)[..32].to_vec() { return Err(format!("one-time key {}", hex(&k))) }
        match Poly1305().encrypt(key, iv, pt, aad) {
            Ok((o, t)) if o == w && t == wt => Ok(()),
            Ok((o, t)) => Err(format!("real: {} tag {} reference: {} tag {}", hex(&o), hex(&t), hex(&w), hex(&wt))),
            Err(e) => Err(format!("error {:?}", e)),
        }
    });
}
pub fn p08(c: &mut Ctx) {
    // values where the accumulator meets 2^130-5, the final sum meets 2^128, and small accumulators
    let mut keys: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32]];
    for i in 0..16 { let mut k = vec![0u8; 32]; k[i] = 1; keys.push(k.clone()); k[i] = 2; keys.push(k.clone()); for j in 16..32 { k[j] = 0xff } keys.push(k) }
    for k in keys.clone() {
        for m in [vec![], vec![0u8; 16], vec![0xff; 16], vec![0xff; 32], vec![0xff; 48], vec![0xfb, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0xff, 0xff, 0xff], vec![0; 17], vec![1; 5],
            [vec![0xff; 16], vec![0xfbu8], vec![0xfe; 15], vec![1; 16]].concat(), [vec![0xffu8; 16], vec![0xf0], vec![0xff; 15], vec![0x11], vec![0; 15]].concat()] {
            mac_case(c, &k, &m);
        }
    }
    for l in 0..=130 { let (k, m) = (c.rng.edgy(32), c.rng.edgy(l)); mac_case(c, &k, &m); let (k, m) = (c.rng.bytes(32), c.rng.bytes(l)); mac_case(c, &k, &m) }
    for l in [255usize, 256, 257, 1000, 4095, 4096, 4097, 16384, 16401, 65535, 65536, 65537, 65552, 131073] { let (k, m) = (c.rng.bytes(32), c.rng.bytes(l)); mac_case(c, &k, &m) }
    for pl in 0..=70 { for al in [0usize, 1, 5, 12, 15, 16, 17, 31, 32] {
        let (key, iv, pt, aad) = (c.rng.edgy(32), c.rng.edgy(12), c.rng.edgy(pl), c.rng.edgy(al));
        seal_case(c, &key, &iv, &pt, &aad);
    } }
    for al in [255usize, 256, 4096, 4097, 65536, 65537] { let (key, iv, aad) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(al)); seal_case(c, &key, &iv, b"0123456789abcdefg", &aad) }
    for pl in [256usize, 4096, 16384, 16385, 65536, 65537] { let (key, iv, pt, aad) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(pl), c.rng.bytes(300)); seal_case(c, &key, &iv, &pt, &aad) }
    // search for inputs whose tag starts or ends in zero bytes (short integers)
    let mut found = 0;
    let mut t = 0;
    while found < 30 && t < 60000 && c.ok() {
        t += 1;
        let (k, m) = (c.rng.bytes(32), c.rng.bytes(3));
        let w = refs::poly1305(&k, &m);
        if w[15] == 0 || w[0] == 0 { found += 1; mac_case(c, &k, &m) }
    }
    // messages after which the accumulator is a chosen residue: near 0, 2^130-5, 2^128, 2^129
    let one = ibig::IBig::from(1);
    let p = (one.clone() << 130) - ibig::IBig::from(5);
    let mut targets = vec![];
    for d in -6i32..=6 { for b in [0usize, 127, 128, 129, 130] { targets.push(refs::md((if b == 0 { ibig::IBig::from(0) } else { one.clone() << b }) + ibig::IBig::from(d), &p)) } }
    let le = |x: &[u8]| refs::be_int(&x.iter().rev().cloned().collect::<Vec<u8>>());
    for i in 0..8 { for t in &targets { for back in [0usize, 1] {
        let mut key = c.rng.bytes(32);
        if i < 3 { for b in key[..16].iter_mut() { *b = 0 } key[0] = [1, 2, 4][i] }
        if i == 4 { for b in key[16..].iter_mut() { *b = 0xff } }
        for (j, m) in [(3usize, 0x0fu8), (7, 0x0f), (11, 0x0f), (15, 0x0f), (4, 0xfc), (8, 0xfc), (12, 0xfc)] { key[j] &= m }
        let r = le(&key[..16]);
        if r == ibig::IBig::from(0) { continue }
        for _ in 0..8 {
            let nb = c.rng.below(4) + (i < 3) as usize;
            let mut m = c.rng.edgy(16 * nb);
            let mut acc = ibig::IBig::from(0);
            for b in m.chunks(16) { acc = refs::md((acc + le(b) + (one.clone() << 128)) * r.clone(), &p) }
            // the last block: the sum, or the product, is the target
            let sum = if back == 0 { refs::md(t.clone() * refs::minv(&r, &p), &p) } else { t.clone() };
            let mut n = refs::md(sum - acc, &p) - (one.clone() << 128);
            if n < ibig::IBig::from(0) { n += p.clone() }
            if n < ibig::IBig::from(0) || n >= one.clone() << 128 { continue }
            m.extend_from_slice(&refs::to_le32(&n)[..16]);
            mac_case(c, &key, &m);
            break;
        }
    } } }
    while c.go() {
        let l = c.rng.below(100);
        let (k, m) = (c.rng.edgy(32), c.rng.edgy(l));
        mac_case(c, &k, &m);
        let (pl, al) = (c.rng.below(100), c.rng.below(40));
        let (key, iv, pt, aad) = (c.rng.edgy(32), c.rng.edgy(12), c.rng.edgy(pl), c.rng.edgy(al));
        seal_case(c, &key, &iv, &pt, &aad);
    }
}
fn open(c: &mut Ctx, site: &str, gcm: Option<usize>, key: &[u8], iv: &[u8], ct: &[u8], aad: &[u8], tag: &[u8]) {
    c.case(site, &|| format!("suite={} key={} nonce={} ciphertext={} aad={} tag={}", if gcm.is_some() { "gcm" } else { "chacha20-poly1305" }, hex(key), hex(iv), hex(ct), hex(aad), hex(tag)), || {
        let (pt, good) = if gcm.is_some() { refs::gcm(key, iv, ct, aad, true) } else { refs::chapoly(key, iv, ct, aad, true) };
        let r = if let Some(kl) = gcm { Gcm::new(suite_of(kl)).decrypt(key, iv, ct, aad, tag) } else { Poly1305().decrypt(key, iv, ct, aad, tag) };
        match r {
            Ok(p) if tag == good => if p == pt { Ok(()) } else { Err(format!("plaintext {} reference {}", hex(&p), hex(&pt))) },
            Ok(p) => Err(format!("accepted a wrong tag (right: {}), returned {}", hex(&good), hex(&p))),
            Err(e) if tag == good => Err(format!("right tag refused: {:?}", e)),
            Err(TlsError::BadRecordMac) => Ok(()),
            Err(e) => Err(format!("wrong tag reported as {:?}", e)),
        }
    });
}
pub fn p09(c: &mut Ctx) {
    let mut first = true;
    while first || c.go() {
        for gcm in [Some(16usize), Some(32), None] {
            let kl = gcm.unwrap_or(32);
            let lens: &[usize] = if first { &[0, 1, 15, 16, 17, 32, 33, 64, 65, 128, 200, 1000, 4096, 4113, 16401, 20, 21] } else { &[3, 40] };
            for &pl in lens {
                let al = if pl == 20 { 4097 } else if pl == 21 { 300 } else { *c.rng.pick(&[0usize, 5, 16, 20]) };
                let pl = if first { pl } else { c.rng.below(120) };
                let (key, iv, ct, aad) = (c.rng.edgy(kl), c.rng.edgy(12), c.rng.edgy(pl), c.rng.edgy(al));
                let (_, good) = if gcm.is_some() { refs::gcm(&key, &iv, &ct, &aad, true) } else { refs::chapoly(&key, &iv, &ct, &aad, true) };
                open(c, "open with the right tag", gcm, &key, &iv, &ct, &aad, &good);
                for i in 0..16 { let mut t = good; t[i] ^= 1 << c.rng.below(8); open(c, "open with one bit of the tag changed", gcm, &key, &iv, &ct, &aad, &t); }
                // two changed bytes whose differences cancel
                for _ in 0..3 { let (i, j) = (c.rng.below(16), c.rng.below(16)); if i != j { let mut t = good; let d = 1u8 << c.rng.below(8); t[i] ^= d; t[j] ^= d; open(c, "open with two tag bytes changed", gcm, &key, &iv, &ct, &aad, &t); t = good; t.swap(i, j); open(c, "open with two tag bytes swapped", gcm, &key, &iv, &ct, &aad, &t); } }
                for l in [0usize, 1, 4, 8, 12, 15] { open(c, "open with a truncated tag", gcm, &key, &iv, &ct, &aad, &good[..l]); open(c, "open with a truncated tag", gcm, &key, &iv, &ct, &aad, &good[16 - l..]) }
                let mut long = good.to_vec(); long.push(0); open(c, "open with a longer tag", gcm, &key, &iv, &ct, &aad, &long);
                let mut long = vec![0]; long.extend_from_slice(&good); open(c, "open with a longer tag", gcm, &key, &iv, &ct, &aad, &long);
                let mut long = good.to_vec(); long.extend_from_slice(&good); open(c, "open with a longer tag", gcm, &key, &iv, &ct, &aad, &long);
                for l in 0..16usize { let mut t = good; for x in t[l..].iter_mut() { *x = !*x } open(c, "open with the right first bytes of the tag only", gcm, &key, &iv, &ct, &aad, &t); let mut t = good; for x in t[..l + 1].iter_mut() { *x = !*x } open(c, "open with the right last bytes of the tag only", gcm, &key, &iv, &ct, &aad, &t); }
                open(c, "open with a foreign tag", gcm, &key, &iv, &ct, &aad, &[0; 16]);
                if pl > 0 { let mut x = ct.clone(); let i = c.rng.below(pl); x[i] ^= 0x80; open(c, "open a changed ciphertext", gcm, &key, &iv, &x, &aad, &good) }
                if al > 0 { let mut x = aad.clone(); let i = c.rng.below(al); x[i] ^= 1; open(c, "open with changed additional data", gcm, &key, &iv, &ct, &x, &good) }
                // what was sealed comes back
                let d = || format!("key={} nonce={} plaintext={} aad={}", hex(&key), hex(&iv), hex(&ct), hex(&aad));
                c.case("open inverts seal", &d, || {
                    let b: Box<dyn Cipher> = if gcm.is_some() { Box::new(Gcm::new(suite_of(kl))) } else { Box::new(Poly1305()) };
                    let (o, t) = b.encrypt(&key, &iv, &ct, &aad).map_err(|e| format!("{:?}", e))?;
                    match b.decrypt(&key, &iv, &o, &aad, &t) { Ok(p) if p == ct => Ok(()), Ok(p) => Err(format!("got {}", hex(&p))), Err(e) => Err(format!("{:?}", e)) }
                });
            }
        }
        first = false;
    }
    for l in 0..20usize { let b = c.rng.bytes(l); c.case("helper", &|| hex(&b), || { let _ = bytes::to_u128_be(&b); Ok(()) }) }
}
