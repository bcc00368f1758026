use crate::ctx::*;
use crate::refs;
use anothertls::hash::{sha256, sha384, sha_x, HashType, Hkdf, Hmac, Sha256, Sha384, TranscriptHash};

fn ht(n: usize) -> HashType { if n == 32 { HashType::SHA256 } else { HashType::SHA384 } }
fn fresh(n: usize) -> Box<dyn TranscriptHash> { if n == 32 { Box::new(Sha256::new()) } else { Box::new(Sha384::new()) } }

fn split(c: &mut Ctx, n: usize, m: &[u8], cuts: &[usize]) {
    let (m, cuts) = (m.to_vec(), cuts.to_vec());
    let d = || format!("hash={} message={} pieces={:?}", n * 8, hex(&m), cuts);
    c.case("incremental digest", &d, || {
        let mut h = fresh(n);
        let mut pos = 0;
        for k in &cuts {
            h.update(&m[pos..pos + k]);
            pos += k;
            // finalize and clone in the middle must not disturb anything
            let w = refs::sha(n, &m[..pos]);
            let f = h.finalize();
            if f != w { return Err(format!("digest after {} bytes: {} reference {}", pos, hex(&f), hex(&w))) }
            let mut cl = TranscriptHash::clone(&*h);
            if cl.finalize() != w { return Err(format!("digest of a copy after {} bytes differs", pos)) }
            cl.update(b"x");
            if h.finalize() != w { return Err(format!("using a copy disturbed the original after {} bytes", pos)) }
            let mut mx = m[..pos].to_vec(); mx.push(b'x');
            if cl.finalize() != refs::sha(n, &mx) { return Err(format!("a copy continued after {} bytes is wrong", pos)) }
        }
        h.update(&m[pos..]);
        let w = refs::sha(n, &m);
        if h.finalize() != w { return Err(format!("final digest: {} reference {}", hex(&h.finalize()), hex(&w))) }
        if h.get_type() as usize != n { return Err("hash type".into()) }
        Ok(())
    });
}
pub fn p01(c: &mut Ctx) {
    for n in [32usize, 48] {
        let bl = if n == 32 { 64 } else { 128 };
        for len in 0..=(4 * bl + 3) {
            let m = c.rng.edgy(len);
            c.eq("one-shot digest", &|| format!("hash={} message={}", n * 8, hex(&m)), || if n == 32 { sha256(&m) } else { sha384(&m) }, &refs::sha(n, &m));
            c.eq("digest by type", &|| format!("hash={} message={}", n * 8, hex(&m)), || sha_x(ht(n), &m), &refs::sha(n, &m));
        }
        for a in [0, 1, bl - 17, bl - 9, bl - 8, bl - 1, bl, bl + 1, 2 * bl] {
            for b in [0, 1, bl - 16, bl - 1, bl, 3 * bl + 5] {
                let m = c.rng.bytes(a + b + 7);
                split(c, n, &m, &[a, b, 0]);
            }
        }
        for len in [8191usize, 8192, 65535, 65536, 70001] {
            let m = c.rng.bytes(len);
            c.eq("one-shot digest", &|| format!("hash={} message of {} bytes", n * 8, len), || if n == 32 { sha256(&m) } else { sha384(&m) }, &refs::sha(n, &m));
        }
    }
    // long pieces, many pieces, and pieces that end where a counter of 8, 12 or 16 bits would
    for n in [32usize, 48] {
        for (total, cuts) in [(70000usize, vec![3usize, 65535, 1]), (70000, vec![65536, 129]), (131100, vec![65537, 65535]), (9000, vec![4095, 4097]), (700, vec![255, 256, 1]), (66000, vec![1, 65535, 64])] {
            let m = c.rng.bytes(total);
            split(c, n, &m, &cuts);
        }
        let m = c.rng.bytes(1500);
        split(c, n, &m, &vec![1; 600]);
        split(c, n, &m, &vec![0; 300]);
    }
    // a message long enough that its bit length needs a fourth byte
    let m = vec![0xa5u8; (1 << 21) + 3];
    c.eq("one-shot digest", &|| "hash=256 message=2097155 x a5".into(), || sha256(&m), &refs::sha256(&m));
    c.eq("one-shot digest", &|| "hash=384 message=2097155 x a5".into(), || sha384(&m), &refs::sha384(&m));
    while c.go() {
        let n = *c.rng.pick(&[32usize, 48]);
        let len = c.rng.below(700);
        let m = c.rng.edgy(len);
        let mut cuts = vec![];
        let mut left = len;
        for _ in 0..c.rng.below(5) { let k = c.rng.below(left + 1); cuts.push(k); left -= k }
        split(c, n, &m, &cuts);
    }
    // a message whose bit length needs a fifth byte: 2^29 + 77 bytes i*7+1 (mod 256); the digests are those of Python's hashlib
    let (piece, times) = ((0..1usize << 20).map(|i| (i * 7 + 1) as u8).collect::<Vec<u8>>(), 512);
    let (h2, h3) = std::thread::scope(|t| {
        let a = t.spawn(|| { let mut h = Sha256::new(); for _ in 0..times { h.update(&piece) } h.update(&piece[..77]); h.finalize() });
        let b = t.spawn(|| { let mut h = Sha384::new(); for _ in 0..times { h.update(&piece) } h.update(&piece[..77]); h.finalize() });
        (a.join().unwrap_or_default(), b.join().unwrap_or_default())
    });
    c.eq("digest of a long message", &|| "hash=256 message=2^29+77 bytes i*7+1".into(), || h2.clone(), &anothertls::utils::bytes::from_hex("cbd5bb583ca884b9f3bc6c90b35991df7b25a779ac6dd38d0b9eeaf5d8427bcf"));
    c.eq("digest of a long message", &|| "hash=384 message=2^29+77 bytes i*7+1".into(), || h3.clone(), &anothertls::utils::bytes::from_hex("3b0c61f236bf801681335236af876a2dc8ed4a1f980139891bd7bdc6e81b3b2d5b6e40d25a99f99c1547304ac35cc1db"));
}
fn hm(c: &mut Ctx, n: usize, key: &[u8], parts: &[Vec<u8>]) {
    let m: Vec<u8> = parts.concat();
    c.eq("hmac", &|| format!("hash={} key={} message pieces={:?}", n * 8, hex(key), parts.iter().map(|p| hex(p)).collect::<Vec<_>>()), || {
        let mut h = Hmac::new(ht(n), key);
        for p in parts { h.update(p) }
        let a = h.result();
        if h.result() != a { return vec![] }
        a
    }, &refs::hmac(n, key, &m));
}
pub fn p02(c: &mut Ctx) {
    for n in [32usize, 48] {
        for kl in 0..=200 {
            let key = c.rng.bytes(kl);
            let (a, b) = (c.rng.below(80), c.rng.below(200));
            let parts = [c.rng.bytes(a), vec![], c.rng.bytes(b)];
            hm(c, n, &key, &parts);
            let key = c.rng.edgy(kl);
            hm(c, n, &key, &[]);
        }
        for kl in [255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 16385, 65535, 65536, 65537, 140001] {
            let key = c.rng.bytes(kl); let p = c.rng.bytes(kl);
            hm(c, n, &key, &[p.clone()]);
            let k = c.rng.bytes(37);
            hm(c, n, &k, &[p.clone()]); hm(c, n, &k, &[vec![1, 2, 3], p.clone(), vec![9]]);
            hm(c, n, &key, &[]);
        }
        let many: Vec<Vec<u8>> = (0..700).map(|i| vec![i as u8; i % 5]).collect();
        hm(c, n, b"many", &many);
    }
    while c.go() {
        let n = *c.rng.pick(&[32usize, 48]);
        let kl = c.rng.below(300);
        let key = c.rng.edgy(kl);
        let (a, b) = (c.rng.below(300), c.rng.below(300));
        let parts = [c.rng.edgy(a), c.rng.edgy(b)];
        hm(c, n, &key, &parts);
    }
}
fn ex(c: &mut Ctx, n: usize, prk: &[u8], info: &[u8], l: usize) {
    let w = refs::hkdf_expand(n, prk, info, l);
    c.case("expand", &|| format!("hash={} prk={} info={} length={}", n * 8, hex(prk), hex(info), l), || {
        let h = Hkdf::from_prk(ht(n), prk.to_vec());
        let r = h.expand(info, l);
        if r == w { Ok(()) } else { Err(format!("real code: {:?} reference: {:?}", r.map(|x| hex(&x)), w.map(|x| hex(&x)))) }
    });
}
pub fn p03(c: &mut Ctx) {
    for n in [32usize, 48] {
        for sl in [0usize, 1, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 200] {
            for il in [0usize, 1, 32, 48, 64, 100, 129] {
                let (salt, ikm) = (c.rng.bytes(sl), c.rng.edgy(il));
                c.eq("extract", &|| format!("hash={} salt={} ikm={}", n * 8, hex(&salt), hex(&ikm)), || {
                    let h = Hkdf::extract(ht(n), &salt, &ikm);
                    if h.hash as usize != n { return vec![] }
                    h.pseudo_random_key
                }, &refs::hkdf_extract(n, &salt, &ikm));
            }
        }
        for l in [255usize, 256, 257, 1000, 4096, 65535, 65536, 65537] {
            for (sl, il) in [(l, 40), (40, l), (l, l), (0, l)] {
                let (salt, ikm) = (c.rng.bytes(sl), c.rng.bytes(il));
                c.eq("extract", &|| format!("hash={} salt={} ikm={}", n * 8, hex(&salt), hex(&ikm)), || Hkdf::extract(ht(n), &salt, &ikm).pseudo_random_key, &refs::hkdf_extract(n, &salt, &ikm));
            }
            let (prk, info) = (c.rng.bytes(n), c.rng.bytes(l));
            ex(c, n, &prk, &info, 3 * n + 1);
            let (prk, info) = (c.rng.bytes(l), c.rng.bytes(17));
            ex(c, n, &prk, &info, 3 * n + 1);
        }
        for k in 6..=255 { let (prk, info) = (c.rng.bytes(n), c.rng.bytes(11)); ex(c, n, &prk, &info, k * n - 1); if k % 8 < 2 || k > 250 { ex(c, n, &prk, &info, k * n) } }
        for l in 0..=(5 * n + 2) {
            let il = c.rng.below(90);
            let info = c.rng.bytes(il);
            let prk = c.rng.bytes(n);
            ex(c, n, &prk, &info, l);
        }
        let prk = c.rng.bytes(n);
        for l in [254 * n, 254 * n + 1, 255 * n - 1, 255 * n, 255 * n + 1, 255 * n + 2, 256 * n, 256 * n + 1, 65536, 100000] { ex(c, n, &prk, b"limit", l) }
        for pl in [0usize, 1, n - 1, n, n + 1, 64, 65, 128, 129] { let prk = c.rng.bytes(pl); ex(c, n, &prk, b"prk", n + 3) }
    }
    while c.go() {
        let n = *c.rng.pick(&[32usize, 48]);
        let (pl, il, l) = (c.rng.below(140), c.rng.below(140), c.rng.below(600));
        let (prk, info) = (c.rng.edgy(pl), c.rng.edgy(il));
        ex(c, n, &prk, &info, l);
    }
}
