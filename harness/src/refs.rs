//! Reference implementations written from the standards (FIPS 180-4, RFC 2104, RFC 5869, FIPS 197,
//! SP 800-38D, RFC 8439, RFC 7748, SEC 1, X.690), sharing no code with the crate under test.
use ibig::{IBig, UBig};

// ------------------------------------------------------------------ SHA-2
fn primes(n: usize) -> Vec<u64> {
    let mut r: Vec<u64> = vec![];
    let mut x = 2;
    while r.len() < n {
        if r.iter().all(|p| x % p != 0) { r.push(x) }
        x += 1;
    }
    r
}
fn root(n: &UBig, k: usize) -> UBig {
    let mut lo = UBig::from(0u8);
    let mut hi = UBig::from(1u8) << (n.bit_len() / k + 2);
    while lo < hi {
        let m = (&lo + &hi + UBig::from(1u8)) >> 1;
        if m.pow(k) <= *n { lo = m } else { hi = m - UBig::from(1u8) }
    }
    lo
}
fn low64(x: UBig) -> u64 { use std::convert::TryFrom; u64::try_from(x % (UBig::from(1u8) << 64)).unwrap() }
pub struct ShaConsts { k256: Vec<u32>, k512: Vec<u64>, h256: Vec<u32>, h384: Vec<u64> }
pub fn sha_consts() -> &'static ShaConsts {
    static C: std::sync::OnceLock<ShaConsts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let cb = |p: u64, b: usize| low64(root(&(UBig::from(p) << (3 * b)), 3));
        let sq = |p: u64, b: usize| low64(root(&(UBig::from(p) << (2 * b)), 2));
        ShaConsts {
            k256: p[..64].iter().map(|p| cb(*p, 32) as u32).collect(),
            k512: p.iter().map(|p| cb(*p, 64)).collect(),
            h256: p[..8].iter().map(|p| sq(*p, 32) as u32).collect(),
            h384: p[8..16].iter().map(|p| sq(*p, 64)).collect(),
        }
    })
}
pub fn sha256(m: &[u8]) -> Vec<u8> {
    let c = sha_consts();
    let mut h: Vec<u32> = c.h256.clone();
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 { d.push(0) }
    d.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in d.chunks(64) {
        let mut w = [0u32; 64];
        for t in 0..16 { w[t] = u32::from_be_bytes([b[4 * t], b[4 * t + 1], b[4 * t + 2], b[4 * t + 3]]) }
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
        }
        let mut v: [u32; 8] = [h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]];
        for t in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k256[t]).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(mj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn sha384(m: &[u8]) -> Vec<u8> {
    let c = sha_consts();
    let mut h: Vec<u64> = c.h384.clone();
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 128 != 112 { d.push(0) }
    d.extend_from_slice(&((m.len() as u128) * 8).to_be_bytes());
    for b in d.chunks(128) {
        let mut w = [0u64; 80];
        for t in 0..16 { let mut x = [0u8; 8]; x.copy_from_slice(&b[8 * t..8 * t + 8]); w[t] = u64::from_be_bytes(x) }
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
        }
        let mut v: [u64; 8] = [h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]];
        for t in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k512[t]).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(mj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
    }
    h[..6].iter().flat_map(|x| x.to_be_bytes()).collect()
}
/// n = 32 or 48
pub fn sha(n: usize, m: &[u8]) -> Vec<u8> { if n == 32 { sha256(m) } else { sha384(m) } }
pub fn hmac(n: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let bl = if n == 32 { 64 } else { 128 };
    let mut k = if key.len() > bl { sha(n, key) } else { key.to_vec() };
    k.resize(bl, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(m);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha(n, &i));
    sha(n, &o)
}
pub fn hkdf_extract(n: usize, salt: &[u8], ikm: &[u8]) -> Vec<u8> { hmac(n, salt, ikm) }
pub fn hkdf_expand(n: usize, prk: &[u8], info: &[u8], l: usize) -> Option<Vec<u8>> {
    if l > 255 * n { return None }
    let mut out: Vec<u8> = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u32;
    while out.len() < l {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = hmac(n, prk, &m);
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(l);
    Some(out)
}
pub fn expand_label(n: usize, secret: &[u8], label: &[u8], ctx: &[u8], l: usize) -> Vec<u8> {
    let mut info = vec![(l >> 8) as u8, l as u8, (6 + label.len()) as u8];
    info.extend_from_slice(b"tls13 ");
    info.extend_from_slice(label);
    info.push(ctx.len() as u8);
    info.extend_from_slice(ctx);
    hkdf_expand(n, secret, &info, l).unwrap()
}

// ------------------------------------------------------------------ AES
pub fn xt(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
pub fn gm(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 { if b & 1 != 0 { r ^= a } a = xt(a); b >>= 1; }
    r
}
pub fn sbox(x: u8) -> u8 {
    // multiplicative inverse by x^254, then the affine map
    let mut inv = 1u8;
    for _ in 0..254 { inv = gm(inv, x) }
    if x == 0 { inv = 0 }
    let b = inv;
    b ^ b.rotate_left(1) ^ b.rotate_left(2) ^ b.rotate_left(3) ^ b.rotate_left(4) ^ 0x63
}
pub fn sbox_table() -> &'static [u8; 256] {
    static T: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| { let mut t = [0; 256]; for i in 0..256 { t[i] = sbox(i as u8) } t })
}
pub fn aes_expand(key: &[u8]) -> Vec<[u8; 4]> {
    let s = sbox_table();
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
    let mut rc = 1u8;
    for i in nk..4 * (nr + 1) {
        let mut t = w[i - 1];
        if i % nk == 0 {
            t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
            rc = xt(rc);
        } else if nk > 6 && i % nk == 4 {
            for x in t.iter_mut() { *x = s[*x as usize] }
        }
        let p = w[i - nk];
        w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
    }
    w
}
pub fn aes_encrypt(key: &[u8], b: [u8; 16]) -> [u8; 16] {
    let s = sbox_table();
    let w = aes_expand(key);
    let nr = key.len() / 4 + 6;
    let mut st = b; // column-major as in FIPS 197
    let ark = |st: &mut [u8; 16], r: usize| for c in 0..4 { for i in 0..4 { st[4 * c + i] ^= w[4 * r + c][i] } };
    ark(&mut st, 0);
    for r in 1..=nr {
        for x in st.iter_mut() { *x = s[*x as usize] }
        let o = st;
        for c in 0..4 { for i in 0..4 { st[4 * c + i] = o[4 * ((c + i) % 4) + i] } }
        if r != nr {
            for c in 0..4 {
                let a = [st[4 * c], st[4 * c + 1], st[4 * c + 2], st[4 * c + 3]];
                for i in 0..4 { st[4 * c + i] = gm(a[i], 2) ^ gm(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] }
            }
        }
        ark(&mut st, r);
    }
    st
}
// ------------------------------------------------------------------ GCM
pub fn gf128_mul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in 0..128 {
        if x >> (127 - i) & 1 == 1 { z ^= v }
        v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
    }
    z
}
pub fn ghash(h: u128, data: &[u8]) -> u128 {
    let mut y = 0u128;
    for b in data.chunks(16) {
        let mut x = [0u8; 16];
        x[..b.len()].copy_from_slice(b);
        y = gf128_mul(y ^ u128::from_be_bytes(x), h);
    }
    y
}
fn padz(v: &mut Vec<u8>) { while v.len() % 16 != 0 { v.push(0) } }
/// returns (output, tag of the ciphertext); `dec` tells which side is the ciphertext
pub fn gcm(key: &[u8], iv: &[u8], inp: &[u8], aad: &[u8], dec: bool) -> (Vec<u8>, [u8; 16]) {
    let h = u128::from_be_bytes(aes_encrypt(key, [0; 16]));
    let j0 = if iv.len() == 12 {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(iv);
        b[15] = 1;
        u128::from_be_bytes(b)
    } else {
        let mut v = iv.to_vec();
        padz(&mut v);
        v.extend_from_slice(&[0; 8]);
        v.extend_from_slice(&(iv.len() as u64 * 8).to_be_bytes());
        ghash(h, &v)
    };
    let mut ctr = j0;
    let mut out = vec![];
    for b in inp.chunks(16) {
        ctr = (ctr & !0xffff_ffff) | (ctr as u32).wrapping_add(1) as u128;
        let ks = aes_encrypt(key, ctr.to_be_bytes());
        out.extend(b.iter().zip(ks.iter()).map(|(a, k)| a ^ k));
    }
    let c: &[u8] = if dec { inp } else { &out };
    let mut g = aad.to_vec();
    padz(&mut g);
    g.extend_from_slice(c);
    padz(&mut g);
    g.extend_from_slice(&(aad.len() as u64 * 8).to_be_bytes());
    g.extend_from_slice(&(c.len() as u64 * 8).to_be_bytes());
    let s = ghash(h, &g) ^ u128::from_be_bytes(aes_encrypt(key, j0.to_be_bytes()));
    (out, s.to_be_bytes())
}
// ------------------------------------------------------------------ ChaCha20 / Poly1305
pub fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 { s[4 + i] = u32::from_le_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]) }
    s[12] = ctr;
    for i in 0..3 { s[13 + i] = u32::from_le_bytes([nonce[4 * i], nonce[4 * i + 1], nonce[4 * i + 2], nonce[4 * i + 3]]) }
    let mut w = s;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        w[a] = w[a].wrapping_add(w[b]); w[d] = (w[d] ^ w[a]).rotate_left(16);
        w[c] = w[c].wrapping_add(w[d]); w[b] = (w[b] ^ w[c]).rotate_left(12);
        w[a] = w[a].wrapping_add(w[b]); w[d] = (w[d] ^ w[a]).rotate_left(8);
        w[c] = w[c].wrapping_add(w[d]); w[b] = (w[b] ^ w[c]).rotate_left(7);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15);
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 { o[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(s[i]).to_le_bytes()) }
    o
}
pub fn chacha20(key: &[u8], ctr: u32, nonce: &[u8], inp: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (j, b) in inp.chunks(64).enumerate() {
        let ks = chacha_block(key, ctr.wrapping_add(j as u32), nonce);
        out.extend(b.iter().zip(ks.iter()).map(|(a, k)| a ^ k));
    }
    out
}
pub fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    let mut r = [0u8; 16];
    r.copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] { r[i] &= 15 }
    for i in [4, 8, 12] { r[i] &= 252 }
    let r = UBig::from_le_bytes(&r);
    let s = UBig::from_le_bytes(&key[16..32]);
    let p = (UBig::from(1u8) << 130) - UBig::from(5u8);
    let mut a = UBig::from(0u8);
    for b in msg.chunks(16) {
        let mut v = b.to_vec();
        v.push(1);
        a = (a + UBig::from_le_bytes(&v)) * &r % &p;
    }
    let t = (a + s) % (UBig::from(1u8) << 128);
    let v = t.to_le_bytes();
    let mut o = [0u8; 16];
    o[..v.len()].copy_from_slice(&v);
    o
}
pub fn chapoly(key: &[u8], nonce: &[u8], inp: &[u8], aad: &[u8], dec: bool) -> (Vec<u8>, [u8; 16]) {
    let otk = chacha_block(key, 0, nonce);
    let out = chacha20(key, 1, nonce, inp);
    let c: &[u8] = if dec { inp } else { &out };
    let mut m = aad.to_vec();
    padz(&mut m);
    m.extend_from_slice(c);
    padz(&mut m);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(c.len() as u64).to_le_bytes());
    let t = poly1305(&otk[..32], &m);
    (out, t)
}
// ------------------------------------------------------------------ X25519 (RFC 7748, integers mod p)
fn le(b: &[u8]) -> IBig { IBig::from(UBig::from_le_bytes(b)) }
pub fn be_int(b: &[u8]) -> IBig { IBig::from(UBig::from_be_bytes(b)) }
pub fn md(x: IBig, p: &IBig) -> IBig { let r = x % p; if r < IBig::from(0) { r + p } else { r } }
pub fn powm(b: &IBig, e: &IBig, p: &IBig) -> IBig {
    let mut r = IBig::from(1);
    let mut b = md(b.clone(), p);
    let mut e = e.clone();
    while e > IBig::from(0) {
        if &e % IBig::from(2) == IBig::from(1) { r = r * &b % p }
        b = &b * &b % p;
        e = e >> 1;
    }
    r
}
pub fn to_le32(x: &IBig) -> [u8; 32] {
    use std::convert::TryFrom;
    let v = UBig::try_from(x.clone()).unwrap().to_le_bytes();
    let mut o = [0u8; 32];
    o[..v.len()].copy_from_slice(&v);
    o
}
pub fn to_be32(x: &IBig) -> [u8; 32] { let mut o = to_le32(x); o.reverse(); o }
pub fn p25519() -> IBig { (IBig::from(1) << 255) - IBig::from(19) }
pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let p = p25519();
    let mut kk = *k;
    kk[0] &= 248; kk[31] &= 127; kk[31] |= 64;
    let mut uu = *u;
    uu[31] &= 127;
    let x1 = md(le(&uu), &p);
    let (mut x2, mut z2, mut x3, mut z3) = (IBig::from(1), IBig::from(0), x1.clone(), IBig::from(1));
    let mut swap = false;
    let a24 = IBig::from(121665);
    for t in (0..255).rev() {
        let kt = kk[t / 8] >> (t % 8) & 1 == 1;
        if swap ^ kt { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
        swap = kt;
        let a = md(&x2 + &z2, &p);
        let aa = md(&a * &a, &p);
        let b = md(&x2 - &z2, &p);
        let bb = md(&b * &b, &p);
        let e = md(&aa - &bb, &p);
        let c = md(&x3 + &z3, &p);
        let d = md(&x3 - &z3, &p);
        let da = md(&d * &a, &p);
        let cb = md(&c * &b, &p);
        let s = &da + &cb;
        x3 = md(&s * &s, &p);
        let m = &da - &cb;
        z3 = md(&x1 * md(&m * &m, &p), &p);
        x2 = md(&aa * &bb, &p);
        z2 = md(&e * (&aa + &a24 * &e), &p);
    }
    if swap { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
    to_le32(&md(x2 * powm(&z2, &(&p - IBig::from(2)), &p), &p))
}
// ------------------------------------------------------------------ P-256, affine group law
pub struct P256 { pub p: IBig, pub a: IBig, pub b: IBig, pub n: IBig, pub gx: IBig, pub gy: IBig }
fn hx(s: &str) -> IBig { IBig::from(UBig::from_str_radix(s, 16).unwrap()) }
pub fn p256() -> &'static P256 {
    static C: std::sync::OnceLock<P256> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
        P256 { a: &p - IBig::from(3), p,
            b: hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            n: hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
            gx: hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            gy: hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5") }
    })
}
/// None is the point at infinity
pub type Pt = Option<(IBig, IBig)>;
pub fn minv(x: &IBig, p: &IBig) -> IBig {
    let (mut r0, mut r1) = (p.clone(), md(x.clone(), p));
    let (mut t0, mut t1) = (IBig::from(0), IBig::from(1));
    while r1 != IBig::from(0) {
        let q = &r0 / &r1;
        let r = &r0 - &q * &r1; r0 = r1; r1 = r;
        let t = &t0 - &q * &t1; t0 = t1; t1 = t;
    }
    md(t0, p)
}
pub fn ec_add(a: &Pt, b: &Pt) -> Pt {
    let c = p256();
    let (a, b) = match (a, b) { (None, _) => return b.clone(), (_, None) => return a.clone(), (Some(a), Some(b)) => (a, b) };
    let l = if a.0 == b.0 {
        if md(&a.1 + &b.1, &c.p) == IBig::from(0) { return None }
        md((IBig::from(3) * &a.0 * &a.0 + &c.a) * minv(&(IBig::from(2) * &a.1), &c.p), &c.p)
    } else { md((&b.1 - &a.1) * minv(&(&b.0 - &a.0), &c.p), &c.p) };
    let x = md(&l * &l - &a.0 - &b.0, &c.p);
    let y = md(&l * (&a.0 - &x) - &a.1, &c.p);
    Some((x, y))
}
pub fn ec_mul(n: &IBig, a: &Pt) -> Pt {
    let mut r: Pt = None;
    let mut q = a.clone();
    let mut n = n.clone();
    while n > IBig::from(0) {
        if &n % IBig::from(2) == IBig::from(1) { r = ec_add(&r, &q) }
        q = ec_add(&q, &q);
        n = n >> 1;
    }
    r
}
pub fn ec_g() -> Pt { let c = p256(); Some((c.gx.clone(), c.gy.clone())) }
pub fn ecdsa_verify(q: &Pt, hash: &[u8], r: &IBig, s: &IBig) -> bool {
    let c = p256();
    let zero = IBig::from(0);
    if *r <= zero || *s <= zero || *r >= c.n || *s >= c.n { return false }
    let z = be_int(&hash[..hash.len().min(32)]);
    let w = minv(s, &c.n);
    let pt = ec_add(&ec_mul(&md(&z * &w, &c.n), &ec_g()), &ec_mul(&md(r * &w, &c.n), q));
    match pt { None => false, Some((x, _)) => md(x, &c.n) == *r }
}
pub fn ecdsa_sign(d: &IBig, k: &IBig, hash: &[u8]) -> (IBig, IBig) {
    let c = p256();
    let z = be_int(&hash[..hash.len().min(32)]);
    let r = md(ec_mul(k, &ec_g()).unwrap().0, &c.n);
    let s = md(minv(k, &c.n) * (z + &r * d), &c.n);
    (r, s)
}
// ------------------------------------------------------------------ DER
pub fn der_len(n: usize) -> Vec<u8> {
    if n < 128 { vec![n as u8] } else if n < 256 { vec![0x81, n as u8] } else if n < 65536 { vec![0x82, (n >> 8) as u8, n as u8] } else { vec![0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8] }
}
pub fn der_tlv(tag: u8, v: &[u8]) -> Vec<u8> { let mut o = vec![tag]; o.extend(der_len(v.len())); o.extend_from_slice(v); o }
pub fn der_uint(x: &IBig) -> Vec<u8> {
    use std::convert::TryFrom;
    let mut v = UBig::try_from(x.clone()).unwrap().to_be_bytes();
    if v.is_empty() || v[0] & 0x80 != 0 { v.insert(0, 0) }
    der_tlv(2, &v)
}
pub fn der_sig(r: &IBig, s: &IBig) -> Vec<u8> { let mut v = der_uint(r); v.extend(der_uint(s)); der_tlv(0x30, &v) }
