// ---- RFC 7748, X25519 ----
/// 2^255 - 19
pub open spec fn P25519() -> int { {{HEX:7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed}} }
pub open spec fn fa(x: int, y: int) -> int { (x + y) % P25519() }
pub open spec fn fs(x: int, y: int) -> int { (x - y) % P25519() }
pub open spec fn fm(x: int, y: int) -> int { (x * y) % P25519() }
/// x^e, e >= 0
pub open spec fn fp(x: int, e: int) -> int decreases e { if e <= 0 { 1 } else { fm(x, fp(x, e - 1)) } }
pub struct Lad { pub x2: int, pub z2: int, pub x3: int, pub z3: int }
pub open spec fn cswap(b: int, s: Lad) -> Lad { if b == 1 { Lad { x2: s.x3, z2: s.z3, x3: s.x2, z3: s.z2 } } else { s } }
/// the body of the loop of RFC 7748 section 5, between the swaps
pub open spec fn lad_step(x1: int, s: Lad) -> Lad {
    let a = fa(s.x2, s.z2); let aa = fm(a, a);
    let b = fs(s.x2, s.z2); let bb = fm(b, b);
    let e = fs(aa, bb);
    let c = fa(s.x3, s.z3); let d = fs(s.x3, s.z3);
    let da = fm(d, a); let cb = fm(c, b);
    Lad { x3: fm(fa(da, cb), fa(da, cb)), z3: fm(x1, fm(fs(da, cb), fs(da, cb))), x2: fm(aa, bb), z2: fm(e, fa(aa, fm(121665, e))) }
}
/// bit t of the number with little-endian bytes k
pub open spec fn kbit(k: Seq<u8>, t: int) -> int { ((k[t / 8] >> ((t % 8) as u8)) & 1) as int }
pub open spec fn bxor(a: int, b: int) -> int { if a == b { 0 } else { 1 } }
/// state of the RFC's loop after it has run for t = 254 .. 255 - n, and the value of `swap` (n iterations)
pub open spec fn lad(k: Seq<u8>, u: int, n: int) -> (Lad, int) decreases n {
    if n <= 0 { (Lad { x2: 1, z2: 0, x3: u, z3: 1 }, 0) }
    else {
        let (s, sw) = lad(k, u, n - 1);
        let kt = kbit(k, 255 - n);
        (lad_step(u, cswap(bxor(sw, kt), s)), kt)
    }
}
pub open spec fn clamp_k(k: Seq<u8>) -> Seq<u8> { k.update(0, k[0] & 248).update(31, (k[31] & 127) | 64) }
/// decodeUCoordinate: the top bit is ignored
pub open spec fn dec_u(u: Seq<u8>) -> int { le(u.update(31, u[31] & 127)) % P25519() }
pub open spec fn x25519_def(k: Seq<u8>, u: Seq<u8>) -> Seq<u8> {
    let (s, sw) = lad(clamp_k(k), dec_u(u), 255);
    let t = cswap(sw, s);
    enc_le(fm(t.x2, fp(t.z2, P25519() - 2)), 32)
}
