use crate::ctx::*;
use crate::refs::{self, be_int, md, p256, Pt};
use anothertls::crypto::ellipticcurve::{math, Curve, Ecdsa, Point, PrivateKey, PublicKey, Signature};
use ibig::IBig;

#[cfg(feature = "p10")]
mod c25519src {
    #![allow(dead_code, unused, clippy::all)]
    include!("/repo/anothertls/src/crypto/ellipticcurve/math/curve25519.rs");
    pub fn pack(t: [i64; 16]) -> [u8; 32] { pack25519(&t) }
    pub fn unpack(t: [u8; 32]) -> [i64; 16] { unpack25519(t) }
    pub fn mul(a: [i64; 16], b: [i64; 16]) -> [i64; 16] { fmul(&a, &b) }
    pub fn inverse(a: [i64; 16]) -> [i64; 16] { finverse(&a) }
}
fn one() -> IBig { IBig::from(1) }
fn a32(b: &[u8]) -> [u8; 32] { let mut a = [0; 32]; a.copy_from_slice(b); a }
fn limbs(t: &[i64; 16]) -> IBig { t.iter().rev().fold(IBig::from(0), |a, x| (a << 16) + IBig::from(*x)) }
fn be32(x: &IBig) -> [u8; 32] { refs::to_be32(x) }
#[cfg(feature = "p10")]
pub fn p10(c: &mut Ctx) {
    let cv = Curve::curve25519();
    let p = refs::p25519();
    if cv.p != p || cv.g.x != IBig::from(9) { c.case("curve constants", &|| "curve25519".into(), || Err("wrong".into())) }
    let mut us: Vec<[u8; 32]> = vec![];
    for d in 0..40 { for base in [IBig::from(0), p.clone() - IBig::from(20), &p + &p - IBig::from(2), (one() << 255) - IBig::from(20)] {
        let v = base + IBig::from(d); if v < (one() << 256) { us.push(refs::to_le32(&v)) } } }
    // points of small order
    for h in ["e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
              "e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c", "daac8ac0b2a2b1d9bd2dee24a5e5e4ca2b1b9f3fcdc8c6dd29ff6bba2ac2a1f5"] {
        us.push(a32(&(0..32).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<_>>()))
    }
    let run = |c: &mut Ctx, k: [u8; 32], u: [u8; 32]| {
        let cv = Curve::curve25519();
        let want = refs::x25519(&k, &u);
        let d = || format!("scalar={} u={}", hex(&k), hex(&u));
        c.eq("scalarmult", &d, || c25519src::scalarmult(u, &k).to_vec(), &want);
        // a point that is not the curve's own base point object: its x is the 32 bytes read big-endian
        c.case("multiply", &d, || {
            let r = math::multiply(&Point { x: be_int(&u), y: IBig::from(0) }, be_int(&k), &cv);
            if r.x == be_int(&want) && r.y == IBig::from(0) { Ok(()) } else { Err(format!("real code: {:x?} reference: {}", be32(&r.x), hex(&want))) }
        });
    };
    let ks: Vec<[u8; 32]> = (0..3).map(|_| a32(&c.rng.bytes(32))).collect();
    for u in &us { for k in ks.iter().take(2) { run(c, *k, *u) } if !c.ok() { return } }
    let mut nine = [0u8; 32]; nine[0] = 9;
    for bit in 0..256 { let mut k = [0u8; 32]; k[bit / 8] = 1 << (bit % 8); run(c, k, nine); if !c.ok() { return } }
    // field arithmetic on hostile limb patterns
    for t in [0i64, 1, 18, 19, 65516, 65517, 65518, 65535] { for hi in [0x7fffi64, 0x7ffe, 0x8000, 0xffff, 0] { for mid in [0xffffi64, 0, 1] {
        let mut l = [mid; 16]; l[0] = t; l[15] = hi;
        let w = refs::to_le32(&md(limbs(&l), &p));
        c.eq("pack", &|| format!("{:?}", l), || c25519src::pack(l).to_vec(), &w);
    } } }
    let mut shared = |c: &mut Ctx, a: [u8; 32], b: [u8; 32]| {
        let cv = Curve::curve25519();
        c.case("two parties", &|| format!("a={} b={}", hex(&a), hex(&b)), || {
            let pa = math::multiply(&cv.g, be_int(&a), &cv); let pb = math::multiply(&cv.g, be_int(&b), &cv);
            if pa.x != be_int(&refs::x25519(&a, &nine)) { return Err("public value of a is not X25519(a, 9)".into()) }
            let s = math::multiply(&Point::new(pb.x.clone(), IBig::from(0)), be_int(&a), &cv);
            let t = math::multiply(&Point::new(pa.x.clone(), IBig::from(0)), be_int(&b), &cv);
            if s != t { return Err("different shared secrets".into()) }
            if s.x != be_int(&refs::x25519(&a, &refs::x25519(&b, &nine))) { return Err("shared secret is not the RFC's".into()) }
            Ok(())
        });
    };
    while c.go() {
        let k = c.rng.arr32(); let u = c.rng.arr32();
        run(c, k, u);
        let (a, b) = (c.rng.arr32(), c.rng.arr32());
        shared(c, a, b);
        let mut l = [0i64; 16];
        for x in l.iter_mut() { *x = *c.rng.pick(&[0, 1, 65535, 65534, 32767, 32768]) }
        l[0] = *c.rng.pick(&[-38, -1, 0, 65517, 65516, 65535, 65573]);
        let w = refs::to_le32(&md(limbs(&l), &p));
        c.eq("pack", &|| format!("{:?}", l), || c25519src::pack(l).to_vec(), &w);
        let mut m = l; for x in m.iter_mut() { if c.rng.below(2) == 0 { *x = -*x } else { *x *= 2 } }
        let w = refs::to_le32(&md(limbs(&l) * limbs(&m), &p));
        c.eq("field product", &|| format!("{:?} {:?}", l, m), || c25519src::pack(c25519src::mul(l, m)).to_vec(), &w);
        if c.rng.below(8) == 0 {
            let w = refs::to_le32(&refs::powm(&md(limbs(&l), &p), &(&p - IBig::from(2)), &p));
            c.eq("field inverse", &|| format!("{:?}", l), || c25519src::pack(c25519src::mul(c25519src::inverse(l), { let mut o = [0; 16]; o[0] = 1; o })).to_vec(), &w);
        }
    }
}
fn pt(p: &Pt) -> Point { match p { None => Point::new(IBig::from(0), IBig::from(0)), Some((x, y)) => Point::new(x.clone(), y.clone()) } }
fn show(p: &Pt) -> String { match p { None => "infinity".into(), Some((x, y)) => format!("({:x},{:x})", x, y) } }
fn neg(p: &Pt) -> Pt { p.as_ref().map(|(x, y)| (x.clone(), md(-y.clone(), &p256().p))) }
/// a point for an x, if there is one
fn lift(x: &IBig) -> Pt {
    let c = p256();
    let r = md(x * x * x + &c.a * x + &c.b, &c.p);
    let y = refs::powm(&r, &((&c.p + one()) >> 2), &c.p);
    if md(&y * &y, &c.p) == r { Some((x.clone(), y)) } else { None }
}
fn scalars() -> Vec<IBig> {
    let n = p256().n.clone();
    let mut v: Vec<IBig> = (0..20).map(IBig::from).collect();
    for d in -6i32..7 { for m in [&n / IBig::from(2), n.clone(), one() << 255, one() << 128] { v.push(m + IBig::from(d)) } }
    v.push((one() << 256) - one()); v.push((one() << 256) - IBig::from(2));
    v
}
#[cfg(feature = "p11")]
pub fn p11(c: &mut Ctx) {
    let add = |c: &mut Ctx, a: &Pt, b: &Pt| {
        let cv = Curve::secp256r1();
        let w = refs::ec_add(a, b);
        c.case("addition", &|| format!("{} + {}", show(a), show(b)), || { let r = math::add(pt(a), pt(b), &cv); if r == pt(&w) { Ok(()) } else { Err(format!("real code: ({:x},{:x}) group law: {}", r.x, r.y, show(&w))) } });
    };
    let mul = |c: &mut Ctx, n: &IBig, a: &Pt| {
        let cv = Curve::secp256r1();
        let w = refs::ec_mul(&md(n.clone(), &p256().n), a);
        c.case("multiplication", &|| format!("{:x} * {}", n, show(a)), || { let r = math::multiply(&pt(a), n.clone(), &cv); if r == pt(&w) { Ok(()) } else { Err(format!("real code: ({:x},{:x}) group law: {}", r.x, r.y, show(&w))) } });
    };
    let cv = Curve::secp256r1(); let q = p256();
    c.case("curve constants", &|| "secp256r1".into(), || if cv.p == q.p && cv.a == q.a && cv.b == q.b && cv.n == q.n && cv.g.x == q.gx && cv.g.y == q.gy && cv.contains(&cv.g) { Ok(()) } else { Err("not the P-256 domain parameters".into()) });
    let g = refs::ec_g();
    let mut pts: Vec<Pt> = vec![None, g.clone(), neg(&g)];
    for k in 2..8 { pts.push(refs::ec_mul(&IBig::from(k), &g)) }
    // points with small, zero and large coordinates
    let mut x = IBig::from(0); while pts.len() < 14 { let l = lift(&x); if l.is_some() { pts.push(l.clone()); pts.push(neg(&l)) } x = x + one() }
    let mut x = &q.p - one(); while pts.len() < 18 { let l = lift(&x); if l.is_some() { pts.push(l) } x = x - one() }
    for a in &pts { for b in &pts { add(c, a, b) } if !c.ok() { return } }
    for n in scalars() { mul(c, &n, &g); if !c.ok() { return } }
    for a in pts.iter() { for n in [IBig::from(0), IBig::from(1), IBig::from(2), IBig::from(3), &q.n - one(), &q.n - IBig::from(2), q.n.clone(), &q.n + one(), (one() << 256) - one()] { mul(c, &n, a) } if !c.ok() { return } }
    while c.go() {
        let k = be_int(&c.rng.edgy(32)); let j = be_int(&c.rng.bytes(32));
        let mut a = refs::ec_mul(&md(j, &q.n), &g);
        if c.rng.below(4) == 0 { let l = lift(&md(be_int(&c.rng.edgy(32)), &q.p)); if l.is_some() { a = l } }
        mul(c, &k, &a);
        let b = match c.rng.below(4) { 0 => a.clone(), 1 => neg(&a), 2 => refs::ec_add(&a, &a), _ => pts[c.rng.below(pts.len())].clone() };
        add(c, &a, &b); add(c, &b, &a);
    }
}
#[cfg(feature = "p12")]
pub fn p12(c: &mut Ctx) {
    let q = p256(); let g = refs::ec_g();
    let ver = |c: &mut Ctx, key: &Pt, h: &[u8], r: &IBig, s: &IBig, what: &str| {
        let w = refs::ecdsa_verify(key, h, r, s);
        c.case("verification", &|| format!("{}: key={} digest={} r={:x} s={:x}", what, show(key), hex(h), r, s), || {
            let v = Ecdsa::verify(PublicKey::new(pt(key), Curve::secp256r1()), &Signature::new(s.clone(), r.clone()), h);
            if v == w { Ok(()) } else { Err(format!("real code: {} the standard: {}", v, w)) }
        });
    };
    let zero = IBig::from(0);
    let mut round = 0;
    while round < 6 || c.go() {
        round += 1;
        let d = match round { 1 => one(), 2 => &q.n - one(), 3 => IBig::from(2), _ => md(be_int(&c.rng.edgy(32)), &q.n) };
        if d == zero { continue }
        let key = refs::ec_mul(&d, &g);
        let hl = *c.rng.pick(&[0usize, 1, 20, 31, 32, 32, 32, 33, 48, 64]);
        let h = c.rng.edgy(hl);
        let k = md(be_int(&c.rng.edgy(32)), &q.n);
        if k == zero { continue }
        let (r, s) = refs::ecdsa_sign(&d, &k, &h);
        ver(c, &key, &h, &r, &s, "a good signature");
        ver(c, &key, &h, &r, &(&q.n - &s), "the negated s");
        // the same values outside 1..n-1
        for (a, b) in [(&r + &q.n, s.clone()), (r.clone(), &s + &q.n), (zero.clone(), s.clone()), (r.clone(), zero.clone()), (q.n.clone(), s.clone()), (r.clone(), q.n.clone()), (-r.clone(), s.clone()), (r.clone(), -s.clone()), (&r - &q.n, s.clone()), (r.clone(), &s - &q.n), (zero.clone(), zero.clone()), (q.n.clone(), q.n.clone()), (r.clone(), one()), (one(), one()), (&q.n - one(), &q.n - one())] { ver(c, &key, &h, &a, &b, "altered") }
        ver(c, &key, &h, &s, &r, "r and s exchanged");
        if r != one() { ver(c, &key, &h, &md(&r + one(), &q.n), &s, "r + 1") }
        let bit = c.rng.below(256);
        ver(c, &key, &h, &md(&r + (one() << bit), &q.n), &s, "a bit of r"); ver(c, &key, &h, &r, &md(&s + (one() << bit), &q.n), "a bit of s");
        if !h.is_empty() { let mut h2 = h.clone(); let i = c.rng.below(h2.len()); h2[i] ^= 1 << c.rng.below(8); ver(c, &key, &h2, &r, &s, "a bit of the digest"); }
        let mut h3 = h.clone(); h3.push(0); ver(c, &key, &h3, &r, &s, "a longer digest");
        if h.len() > 1 { ver(c, &key, &h[..h.len() - 1], &r, &s, "a shorter digest"); }
        ver(c, &neg(&key), &h, &r, &s, "the negated key"); ver(c, &g, &h, &r, &s, "another key");
        // sum at infinity: u1*G + u2*Q = O, i.e. z + r*d = 0 mod n
        let z = be_int(&h[..h.len().min(32)]);
        let r0 = md(-(&z * refs::minv(&d, &q.n)), &q.n);
        ver(c, &key, &h, &r0, &s, "a sum at infinity"); ver(c, &key, &h, &r0, &one(), "a sum at infinity");
        // u1 = 0 (digest zero), u1*G = u2*Q (doubling), u1*G = -u2*Q covered above
        ver(c, &key, &[0u8; 32], &r, &s, "a zero digest");
        // x of u1*G + u2*Q equal to r exactly: choose u1,u2 freely
        let u1 = md(be_int(&c.rng.bytes(32)), &q.n); let u2 = if round % 2 == 0 { md(&u1 * refs::minv(&d, &q.n), &q.n) } else { md(be_int(&c.rng.bytes(32)), &q.n) };
        if u2 != zero { if let Some((x, _)) = refs::ec_add(&refs::ec_mul(&u1, &g), &refs::ec_mul(&u2, &key)) {
            let r = md(x, &q.n); let s = md(&r * refs::minv(&u2, &q.n), &q.n); let z = md(&u1 * &s, &q.n);
            if r != zero && s != zero { ver(c, &key, &be32(&z), &r, &s, "chosen u1 and u2"); }
        } }
        // a chosen s (the digest follows), among them those whose s + n is below p, and below 2^256
        if let Some((x, _)) = refs::ec_mul(&k, &g) {
            let r = md(x, &q.n);
            let small = md(be_int(&c.rng.bytes(16)), &(&q.p - &q.n));
            for s in [one(), IBig::from(2), small.clone(), &q.p - &q.n - one(), &q.p - &q.n, &q.n - one(), &q.n - &small - one(), IBig::from(c.rng.u64())] {
                if r == zero || s == zero || (round > 2 && c.rng.below(4) != 0) { continue }
                let z = be32(&md(&s * &k - &r * &d, &q.n));
                ver(c, &key, &z, &r, &s, "a chosen s");
                for t in [&s + &q.n, &s + &q.p, &q.n - &s, -s.clone(), &q.p - &s] { ver(c, &key, &z, &r, &t, "a value like the chosen s") }
            }
        }
        // keys that are no points of the curve, with values the curve's formulas accept for them: they do not use b
        let cv = Curve::secp256r1();
        let (kx, ky) = key.clone().unwrap();
        let bad: Vec<(IBig, IBig)> = vec![(kx.clone(), md(&ky + one(), &q.p)), (md(&kx + one(), &q.p), ky.clone()), (kx.clone(), one()), (one(), one()), (kx.clone(), md(&ky + (one() << (round % 256)), &q.p)), (&kx + &q.p, ky.clone()), (kx.clone(), &ky + &q.p), (md(be_int(&c.rng.bytes(32)), &q.p), md(be_int(&c.rng.bytes(32)), &q.p)), (IBig::from(0), one()), (ky.clone(), kx.clone())];
        let pick: Vec<(IBig, IBig)> = if round < 3 { bad } else { let i = c.rng.below(bad.len()); vec![bad[i].clone()] };
        for (bx, by) in pick {
            let on = bx < q.p && by < q.p && md(&by * &by - (&bx * &bx * &bx + &cv.a * &bx + &cv.b), &q.p) == zero;
            if on { continue }
            let (u1, u2) = (md(be_int(&c.rng.bytes(32)), &q.n), md(be_int(&c.rng.bytes(32)), &q.n));
            let bp = || Point::new(bx.clone(), by.clone());
            let sum = math::add(math::multiply(&cv.g, u1.clone(), &cv), math::multiply(&bp(), u2.clone(), &cv), &cv);
            let r = md(sum.x, &q.n);
            if r == zero || u2 == zero { continue }
            let s = md(&r * refs::minv(&u2, &q.n), &q.n); let z = md(&u1 * &s, &q.n);
            for extra in [0usize, 1, 16, 32] {
                let mut h = be32(&z).to_vec(); h.extend(c.rng.bytes(extra));
                c.case("a key not on the curve", &|| format!("key=({:x},{:x}) digest={} r={:x} s={:x}", bx, by, hex(&h), r, s), || {
                    if Ecdsa::verify(PublicKey::new(bp(), Curve::secp256r1()), &Signature::new(s.clone(), r.clone()), &h) { Err("accepted".into()) } else { Ok(()) }
                });
            }
            let hl = *c.rng.pick(&[32usize, 48, 64]); let h = c.rng.bytes(hl); let (r, s) = (md(be_int(&c.rng.bytes(32)), &q.n), md(be_int(&c.rng.bytes(32)), &q.n));
            c.case("a key not on the curve", &|| format!("key=({:x},{:x}) digest={} r={:x} s={:x}", bx, by, hex(&h), r, s), || {
                if Ecdsa::verify(PublicKey::new(bp(), Curve::secp256r1()), &Signature::new(s.clone(), r.clone()), &h) { Err("accepted".into()) } else { Ok(()) }
            });
        }
        // the accepted representative: x of the sum at least n
        if round == 4 { p_minus_n(c) }
        // a digest for which the number drawn gives s = 0: another one has to be drawn (the insecure
        // generator repeats its number, so not returning is right and a signature must be valid)
        if round <= 2 {
            use anothertls::rand::{RngCore, SeedableRng, SimpleRng};
            let k1 = md(SimpleRng::<IBig>::from_seed(IBig::from(10)).between(1, 32), &q.n);
            if k1 != zero { if let Some((x, _)) = refs::ec_mul(&k1, &g) {
                let h = be32(&md(-(md(x, &q.n) * &d), &q.n));
                c.case("signing, s = 0 at first", &|| format!("secret={:x} digest={}", d, hex(&h)), || {
                    let (tx, rx) = std::sync::mpsc::channel();
                    let (d2, h2) = (d.clone(), h.clone());
                    std::thread::spawn(move || { let _ = tx.send(Ecdsa::unsecure().sign(&PrivateKey::new(Curve::secp256r1(), d2), &h2).map(|s| (s.r, s.s))); });
                    match rx.recv_timeout(std::time::Duration::from_millis(1500)) {
                        Ok(Ok((r, s))) => if refs::ecdsa_verify(&key, &h, &r, &s) { Ok(()) } else { Err(format!("not valid: {:x} {:x}", r, s)) },
                        _ => Ok(()),
                    }
                });
            } }
        }
        // signing
        c.case("signing", &|| format!("secret={:x} digest={}", d, hex(&h)), || {
            for urandom in [false, true] {
                let key = PrivateKey::new(Curve::secp256r1(), d.clone());
                let mut e = if urandom { Ecdsa::urandom() } else { Ecdsa::unsecure() };
                let pk = key.get_public_key();
                if pk.point != pt(&refs::ec_mul(&d, &g)) { return Err("public key is not secret * G".into()) }
                for _ in 0..2 {
                    let s = e.sign(&key, &h)?;
                    if s.r <= zero || s.r >= q.n || s.s <= zero || s.s >= q.n { return Err(format!("r or s out of range: {:x} {:x}", s.r, s.s)) }
                    if !refs::ecdsa_verify(&refs::ec_mul(&d, &g), &h, &s.r, &s.s) { return Err(format!("the signature is not valid: {:x} {:x}", s.r, s.s)) }
                    if !Ecdsa::verify(key.get_public_key(), &s, &h) { return Err(format!("own verification rejects {:x} {:x}", s.r, s.s)) }
                }
            }
            Ok(())
        });
        if !c.ok() { return }
    }
}
/// a signature whose curve point has an x-coordinate in n..p-1: x mod n is compared, not x
#[cfg(feature = "p12")]
fn p_minus_n(c: &mut Ctx) {
    let q = p256();
    let mut x = q.n.clone();
    let r_pt = loop { let l = lift(&x); if l.is_some() { break l } x = x + one() };
    let r = md(x, &q.n);
    if r == IBig::from(0) { return }
    // Q = r^-1 (s R - z G)
    let s = be_int(&c.rng.bytes(31)) + one(); let z = be_int(&c.rng.bytes(32));
    let ri = refs::minv(&r, &q.n);
    let key = refs::ec_add(&refs::ec_mul(&md(&ri * &s, &q.n), &r_pt), &refs::ec_mul(&md(-(&ri * &z), &q.n), &refs::ec_g()));
    let h = be32(&z);
    c.case("verification", &|| format!("x of the sum above n: key={} digest={} r={:x} s={:x}", show(&key), hex(&h), r, s), || {
        if !refs::ecdsa_verify(&key, &h, &r, &s) { return Ok(()) }
        let v = Ecdsa::verify(PublicKey::new(pt(&key), Curve::secp256r1()), &Signature::new(s.clone(), r.clone()), &h);
        if v { Ok(()) } else { Err("rejected, though x mod n equals r".into()) }
    });
}
