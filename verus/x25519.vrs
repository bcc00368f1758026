//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include bytes_contract.inc
//@include x25519_spec.inc
//@item crypto/ellipticcurve/math/curve25519.rs type FieldElem
//@item crypto/ellipticcurve/curve.rs enum Equation
//@item crypto/ellipticcurve/point.rs struct Point
//@item crypto/ellipticcurve/curve.rs struct Curve
// the other equation's branch is not reached under the contract below (unit ecc, checks P11 and P12)
struct JacobianPoint {}
impl JacobianPoint {
    #[verifier::external_body] fn from_point(p: Point) -> JacobianPoint { unimplemented!() }
    #[verifier::external_body] fn to_point(&self, p: &IBig) -> Point { unimplemented!() }
}
#[verifier::external_body] fn jacobian_multiply(p: &JacobianPoint, n: IBig, curve: &Curve) -> JacobianPoint { unimplemented!() }
impl Clone for Point { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// derived `==` of Point, written out
#[verifier::external_body]
fn vx_pt_eq(a: &Point, b: &Point) -> (r: bool) ensures r == (a.x.v@ == b.x.v@ && a.y.v@ == b.y.v@), { unimplemented!() }

// ---- values of limb arrays ----
spec fn w(i: int) -> int { ipow2(16 * i) }
spec fn sval(s: Seq<i64>, n: int) -> int decreases n { if n <= 0 { 0 } else { sval(s, n - 1) + s[n - 1] * w(n - 1) } }
#[verifier::opaque]
spec fn val(s: Seq<i64>) -> int { sval(s, 16) }
/// the field element an array stands for
spec fn fe(s: Seq<i64>) -> int { val(s) % P25519() }
spec fn bnd(s: Seq<i64>, b: int) -> bool { forall|i: int| 0 <= i < s.len() ==> -b <= #[trigger] s[i] <= b }
spec fn dig(s: Seq<i64>, n: int) -> bool { forall|i: int| 0 <= i < n ==> 0 <= #[trigger] s[i] <= 65535 }
/// all limbs but the first are digits; the first nearly
spec fn red(s: Seq<i64>) -> bool { (forall|i: int| 1 <= i < 16 ==> 0 <= #[trigger] s[i] <= 65535) && -38 <= s[0] <= 65573 }
proof fn lemma_w(i: int) requires i >= 0, ensures w(i + 1) == 65536 * w(i), w(i) > 0
{ lemma_ipow2_8(16 * i); lemma_ipow2_8(16 * i + 8); assert(16 * (i + 1) == 16 * i + 16); }
proof fn lemma_w16()
    ensures w(16) == 2 * P25519() + 38, w(0) == 1, w(16) == ipow2(256), 32768 * w(15) == P25519() + 19, w(15) == ipow2(240), P25519() > 0,
{
    assert(ipow2(0) == 1);
    assert(ipow2(240) == {{HEX:1000000000000000000000000000000000000000000000000000000000000}}) by(compute_only);
    assert(32768 * {{HEX:1000000000000000000000000000000000000000000000000000000000000}} == P25519() + 19) by(compute_only);
    lemma_w(15);
}
proof fn lemma_sval_upd(s: Seq<i64>, i: int, v: i64, n: int)
    requires 0 <= i < s.len(), n <= s.len(),
    ensures sval(s.update(i, v), n) == sval(s, n) + (if i < n { (v - s[i]) * w(i) } else { 0 }),
    decreases n
{
    if n > 0 {
        lemma_sval_upd(s, i, v, n - 1);
        if i == n - 1 { assert((v - s[i]) * w(i) == v * w(i) - s[i] * w(i)) by(nonlinear_arith); }
    }
}
proof fn lemma_sval_eq(s: Seq<i64>, t: Seq<i64>, n: int)
    requires forall|i: int| 0 <= i < n ==> s[i] == t[i],
    ensures sval(s, n) == sval(t, n),
    decreases n
{ if n > 0 { lemma_sval_eq(s, t, n - 1); } }
proof fn lemma_sval_lin(s: Seq<i64>, a: Seq<i64>, b: Seq<i64>, k: int, n: int)
    requires forall|i: int| 0 <= i < n ==> s[i] == a[i] + k * b[i],
    ensures sval(s, n) == sval(a, n) + k * sval(b, n),
    decreases n
{
    if n > 0 {
        lemma_sval_lin(s, a, b, k, n - 1);
        let x = a[n - 1] as int; let y = b[n - 1] as int; let q = w(n - 1); let z = sval(b, n - 1);
        assert((x + k * y) * q + k * z == x * q + k * (z + y * q)) by(nonlinear_arith);
    }
}
proof fn lemma_sval_dig(s: Seq<i64>, n: int)
    requires n >= 0, dig(s, n),
    ensures 0 <= sval(s, n) < w(n),
    decreases n
{
    if n > 0 {
        lemma_sval_dig(s, n - 1); lemma_w(n - 1);
        let x = s[n - 1] as int; let q = w(n - 1);
        assert(0 <= x * q <= 65535 * q) by(nonlinear_arith) requires 0 <= x <= 65535, q > 0;
    } else { lemma_w16(); }
}
proof fn lemma_sval_zero(s: Seq<i64>, n: int)
    requires forall|i: int| 0 <= i < n ==> s[i] == 0, ensures sval(s, n) == 0, decreases n
{ if n > 0 { lemma_sval_zero(s, n - 1); assert(0 * w(n - 1) == 0); } }
/// sval of a split array
proof fn lemma_sval_split(s: Seq<i64>, m: int, n: int)
    requires 0 <= m, 0 <= n, m + n <= s.len(),
    ensures sval(s, m + n) == sval(s, m) + w(m) * sval(s.subrange(m, s.len() as int), n),
    decreases n
{
    if n > 0 {
        lemma_sval_split(s, m, n - 1);
        lemma_ipow2_add(16 * m, 16 * (n - 1));
        assert(16 * (m + n - 1) == 16 * m + 16 * (n - 1));
        let x = s[m + n - 1] as int; let p = w(m); let q = w(n - 1); let z = sval(s.subrange(m, s.len() as int), n - 1);
        assert(s.subrange(m, s.len() as int)[n - 1] == s[m + n - 1]);
        assert(p * z + x * (p * q) == p * (z + x * q)) by(nonlinear_arith);
    } else { assert(w(m) * 0 == 0); }
}
/// the two bytes of each limb
proof fn lemma_bytes(o: Seq<u8>, t: Seq<i64>, n: int)
    requires 0 <= n <= 16, o.len() == 32, t.len() == 16, forall|i: int| 0 <= i < n ==> #[trigger] t[i] == o[2 * i] as int + 256 * o[2 * i + 1],
    ensures le(o.subrange(0, 2 * n)) == sval(t, n),
    decreases n
{
    let s = o.subrange(0, 2 * n);
    if n > 0 {
        lemma_bytes(o, t, n - 1);
        assert(s.drop_last().drop_last() =~= o.subrange(0, 2 * (n - 1)));
        assert(s.drop_last().last() == o[2 * (n - 1)]);
        let q = w(n - 1); lemma_ipow2_8(16 * (n - 1));
        let x = o[2 * (n - 1)] as int; let y = o[2 * (n - 1) + 1] as int;
        assert(t[n - 1] == x + 256 * y);
        assert(8 * (s.drop_last().len() - 1) == 16 * (n - 1) && 8 * (s.len() - 1) == 16 * (n - 1) + 8);
        assert((x + 256 * y) * q == x * q + y * (256 * q)) by(nonlinear_arith);
        assert(s.last() == o[2 * (n - 1) + 1]);
        assert(le(s) == le(s.drop_last()) + y * ipow2(8 * (s.len() - 1)));
        assert(le(s.drop_last()) == le(s.drop_last().drop_last()) + x * ipow2(8 * (s.drop_last().len() - 1)));
        assert(ipow2(16 * (n - 1) + 8) == 256 * q);
    } else { assert(le(s) == 0); }
}
proof fn lemma_mod_eq(a: int, b: int, k: int) requires a == b + k * P25519(), ensures a % P25519() == b % P25519()
{ lemma_w16(); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, b, P25519()); assert(P25519() * k == k * P25519()) by(nonlinear_arith); }
proof fn lemma_fm(a: int, b: int) ensures (a * b) % P25519() == fm(a % P25519(), b % P25519()) { lemma_w16(); vstd::arithmetic::div_mod::lemma_mul_mod_noop(a, b, P25519()); }
proof fn lemma_fa(a: int, b: int) ensures (a + b) % P25519() == fa(a % P25519(), b % P25519()) { lemma_w16(); vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, P25519()); }
proof fn lemma_fs(a: int, b: int) ensures (a - b) % P25519() == fs(a % P25519(), b % P25519()) { lemma_w16(); vstd::arithmetic::div_mod::lemma_sub_mod_noop(a, b, P25519()); }
proof fn lemma_shr16(x: i64) ensures (x >> 16i64) as int == x as int / 65536, (x & 0xffff) as int == x as int % 65536
{ assert((x & 0xffff) >= 0 && (x & 0xffff) < 65536 && (x & 0xffff) + (x >> 16i64) * 65536 == x) by(bit_vector); }
proof fn lemma_shr8(x: i64) ensures (x >> 8i64) as int == x as int / 256
{ assert((x >> 8i64) * 256 <= x && x - 255 <= (x >> 8i64) * 256) by(bit_vector); }
proof fn lemma_and15(x: i64) ensures (x & 0x7fff) as int == x as int % 32768
{ assert((x & 0x7fff) >= 0 && (x & 0x7fff) < 32768 && (x & 0x7fff) + (x >> 15i64) * 32768 == x) by(bit_vector); }
proof fn lemma_shl(x: i64) requires -0x7fff_ffff_ffff <= x <= 0x7fff_ffff_ffff, ensures x << 16i64 == x * 65536, x << 8i64 == x * 256
{
    assert(-0x7fff_ffff_ffff <= x <= 0x7fff_ffff_ffff ==> x << 16i64 == x * 65536) by(bit_vector);
    assert(-0x7fff_ffff_ffff <= x <= 0x7fff_ffff_ffff ==> x << 8i64 == x * 256) by(bit_vector);
}
proof fn lemma_shr(x: i64)
    ensures (x >> 16i64) as int == x as int / 65536, (x >> 8i64) as int == x as int / 256,
        (x & 0xffff) as int == x as int % 65536, (x & 0x7fff) as int == x as int % 32768,
        -0x7fff_ffff_ffff <= x <= 0x7fff_ffff_ffff ==> x << 16i64 == x * 65536, -0x7fff_ffff_ffff <= x <= 0x7fff_ffff_ffff ==> x << 8i64 == x * 256,
{ lemma_shr16(x); lemma_shr8(x); lemma_and15(x); if -0x7fff_ffff_ffff <= x <= 0x7fff_ffff_ffff { lemma_shl(x); } }
proof fn lemma_swap(p: i64, q: i64)
    ensures p ^ ((-1i64) & (p ^ q)) == q, q ^ ((-1i64) & (p ^ q)) == p, p ^ (0i64 & (p ^ q)) == p, q ^ (0i64 & (p ^ q)) == q, !(0i64) == -1, !(-1i64) == 0
{
    assert(p ^ ((-1i64) & (p ^ q)) == q && q ^ ((-1i64) & (p ^ q)) == p && p ^ (0i64 & (p ^ q)) == p && q ^ (0i64 & (p ^ q)) == q && !(0i64) == -1 && !(-1i64) == 0) by(bit_vector);
}
/// a vanishing lowest limb makes the value a multiple of 65536
proof fn lemma_low_n(s: Seq<i64>, n: int) -> (k: int)
    requires 1 <= n <= s.len(),
    ensures sval(s, n) - s[0] == 65536 * k,
    decreases n
{
    if n == 1 { lemma_w16(); assert(sval(s, 0) == 0); assert(sval(s, 1) == s[0] * w(0)); 0 }
    else {
        let k = lemma_low_n(s, n - 1); lemma_w(n - 2);
        let x = s[n - 1] as int; let q = w(n - 2);
        assert(x * (65536 * q) == 65536 * (x * q)) by(nonlinear_arith);
        k + x * q
    }
}
proof fn lemma_low(s: Seq<i64>)
    requires s.len() == 16, ensures sval(s, 16) - s[0] == 65536 * ((sval(s, 16) - s[0]) / 65536)
{ let k = lemma_low_n(s, 16); }
proof fn lemma_sval_bound(s: Seq<i64>, b: int, n: int)
    requires bnd(s, b), b >= 0, 0 <= n <= s.len(),
    ensures -b * w(n) <= sval(s, n) * 65535 <= b * w(n),
    decreases n
{
    if n > 0 {
        lemma_sval_bound(s, b, n - 1); lemma_w(n - 1);
        let x = s[n - 1] as int; let q = w(n - 1); let z = sval(s, n - 1);
        assert(-b * q <= x * q <= b * q) by(nonlinear_arith) requires -b <= x <= b, q > 0;
        assert(-b * (65536 * q) <= (z + x * q) * 65535 <= b * (65536 * q)) by(nonlinear_arith) requires -b * q <= z * 65535 <= b * q, -b * q <= x * q <= b * q;
    } else { lemma_w16(); assert(-b * w(0) <= 0 <= b * w(0)) by(nonlinear_arith) requires b >= 0, w(0) == 1; }
}
/// the quotient the carry takes out is bounded by the limbs
proof fn lemma_val_bound(s: Seq<i64>, b: int)
    requires s.len() == 16, bnd(s, b), b >= 65536,
    ensures -b <= val(s) / w(16) <= b,
{
    reveal(val); lemma_sval_bound(s, b, 16); lemma_w16();
    let v = val(s); let q = w(16);
    assert(-b * q <= v <= b * q) by(nonlinear_arith) requires -b * q <= v * 65535 <= b * q, b >= 0, q > 0;
    assert(v / q <= b) by(nonlinear_arith) requires v <= b * q, q > 0;
    assert(-b <= v / q) by(nonlinear_arith) requires v >= -b * q, q > 0;
}
fn vx_copy16(out: &mut [i64; 16], p: &[i64; 31])
    ensures final(out)@ == p@.subrange(0, 16),
{
    for i in 0..16
        invariant forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == p@[k],
    { out[i] = p[i]; }
    proof { assert(out@ =~= p@.subrange(0, 16)); }
}
proof fn lemma_near(s: Seq<i64>, b: int)
    requires s.len() == 16, forall|i: int| 1 <= i < 16 ==> 0 <= #[trigger] s[i] <= 65535, -b <= s[0] <= b, 65535 <= b <= 0x1000_0000_0000_0000,
    ensures s[0] <= val(s) < w(16) + b, s[0] < 0 ==> -b <= val(s), -1 <= val(s) / w(16) <= 1, s[0] >= 0 && s[0] <= 65535 ==> 0 <= val(s) < w(16),
        val(s) < w(16) + (if s[0] > 65535 { s[0] - 65535 } else { 0 }),
{
    reveal(val); lemma_w16();
    let t = s.update(0, 0); lemma_sval_upd(s, 0, 0, 16);
    lemma_sval_dig(t, 16);
    let t2 = s.update(0, 65535); lemma_sval_upd(s, 0, 65535, 16);
    lemma_sval_dig(t2, 16);
    assert(w(16) > 0x2000_0000_0000_0000);
    let v = val(s); let q = w(16);
    assert(v / q <= 1) by(nonlinear_arith) requires v < q + b, b < q, q > 0;
    assert(-1 <= v / q) by(nonlinear_arith) requires v >= -b, b < q, q > 0;
}
/// after one carry of a nearly reduced number; after two
proof fn lemma_carry1(s: Seq<i64>, t: Seq<i64>)
    requires s.len() == 16, t.len() == 16, red(s), forall|i: int| 1 <= i < 16 ==> 0 <= #[trigger] t[i] <= 65535,
        t[0] - 38 * (val(s) / w(16)) == val(s) % 65536,
    ensures red(t), -1 <= val(s) / w(16) <= 1,
{ lemma_near(s, 65573); }
proof fn lemma_carry2(s: Seq<i64>, t1: Seq<i64>, t2: Seq<i64>)
    requires s.len() == 16, t1.len() == 16, t2.len() == 16, red(s), red(t1), forall|i: int| 1 <= i < 16 ==> 0 <= #[trigger] t2[i] <= 65535,
        val(t1) == val(s) - (val(s) / w(16)) * (2 * P25519()),
        val(t2) == val(t1) - (val(t1) / w(16)) * (2 * P25519()),
        t2[0] - 38 * (val(t1) / w(16)) == val(t1) % 65536,
    ensures dig(t2, 16),
{
    lemma_near(t1, 65573); lemma_w16(); lemma_w(15);
    let v = val(t1); let q = w(16); let c = v / q;
    assert(q == 65536 * w(15));
    assert(q > 0x1_0000_0000);
    if c == 0 { }
    else if c == 1 {
        assert(v >= q && v < q + 38) by(nonlinear_arith) requires v / q == 1, v < q + 38, q > 0;
        let r = v - q;
        assert(v % 65536 == r) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, 65536, w(15), r); }
    } else {
        assert(v < 0) by(nonlinear_arith) requires v / q == -1, q > 0;
        assert(-38 <= v);
        assert(v % 65536 == v + 65536) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, 65536, -1, v + 65536); }
    }
}
proof fn lemma_div0(t: Seq<i64>)
    requires t.len() == 16, dig(t, 16),
    ensures 0 <= val(t) < w(16), val(t) / w(16) == 0,
{ reveal(val); lemma_sval_dig(t, 16); lemma_w16(); let v = val(t); let q = w(16); assert(v / q == 0) by(nonlinear_arith) requires 0 <= v < q; }
proof fn lemma_borrow(x: i64)
    requires -65536 <= x <= 65535,
    ensures (x >> 16i64) & 1 == (if x < 0 { 1i64 } else { 0i64 }), x & 0xffff == (if x < 0 { x + 65536 } else { x as int }),
{
    assert(-65536 <= x <= 65535 ==> ((x >> 16i64) & 1 == (if x < 0 { 1i64 } else { 0i64 }))) by(bit_vector);
    lemma_shr(x);
}
proof fn lemma_borrow15(x: i64)
    requires -65536 <= x <= 65535,
    ensures (x >> 16i64) & 1 == (if x < 0 { 1i64 } else { 0i64 }),
{ lemma_borrow(x); }
proof fn lemma_u8(x: i64)
    requires 0 <= x <= 65535,
    ensures x == (x as u8) as int + 256 * ((x >> 8i64) as u8) as int,
{
    assert(0 <= x <= 65535 ==> x == ((x as u8) as i64) + 256 * (((x >> 8i64) as u8) as i64)) by(bit_vector);
}
//@fn crypto/ellipticcurve/math/curve25519.rs fn unpack25519
//@ret r
//@subst `let mut out = [0; 16]` => `let mut out: FieldElem = [0; 16]`
//@spec
    ensures dig(r@, 16), fe(r@) == dec_u(input@), val(r@) == le(input@.update(31, input@[31] & 127)),
//@loop 0
    invariant forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == input@[2 * k] as int + 256 * input@[2 * k + 1],
//@in 0 start
    proof { lemma_shr(input@[2 * i as int + 1] as i64); }
//@after 0
    let ghost o1 = out@;
    proof { lemma_shr(out@[15]); }
//@end
    proof {
        let u = input@.update(31, input@[31] & 127);
        let x = input@[31]; let y = input@[30];
        assert((x & 127u8) as int == x as int % 128) by { assert((x & 127u8) == x % 128u8) by(bit_vector); }
        assert(((y as int) + 256 * (x as int)) % 32768 == y as int + 256 * (x as int % 128)) by(nonlinear_arith) requires 0 <= y as int <= 255, 0 <= x as int <= 255;
        assert forall|i: int| 0 <= i < 16 implies #[trigger] out@[i] == u[2 * i] as int + 256 * u[2 * i + 1] by { if i < 15 { assert(out@[i] == o1[i]); } }
        lemma_bytes(u, out@, 16); assert(u.subrange(0, 32) =~= u); reveal(val);
    }
//@endfn
//@fn crypto/ellipticcurve/math/curve25519.rs fn carry25519
//@attr #[verifier::rlimit(60)]
//@spec
    requires bnd(old(elem)@, 0x4000_0000_0000_0000),
    ensures
        ({ let c = val(old(elem)@) / w(16);
           &&& val(final(elem)@) == val(old(elem)@) - c * (2 * P25519())
           &&& forall|i: int| 1 <= i < 16 ==> 0 <= #[trigger] final(elem)@[i] <= 65535
           &&& final(elem)@[0] - 38 * c == val(old(elem)@) % 65536 }),
        fe(final(elem)@) == fe(old(elem)@),
//@start
    let ghost mut cc: int = 0;
    let ghost mut low: int = 0;
    proof { reveal(val); lemma_w16(); }
//@loop 0
    invariant
        elem@.len() == 16,
        bnd(old(elem)@, 0x4000_0000_0000_0000),
        i < 16 ==> dig(elem@, i as int), i < 16 ==> sval(elem@, 16) == sval(old(elem)@, 16),
        i < 16 ==> -0x4000_8000_0000_0000 <= elem@[i as int] <= 0x4000_8000_0000_0000, 
        forall|k: int| i < k < 16 ==> elem@[k] == old(elem)@[k],
        i == 16 ==> (forall|k: int| 1 <= k < 16 ==> 0 <= #[trigger] elem@[k] <= 65535) && elem@[0] - 38 * cc == low && 0 <= low <= 65535,
        i == 16 ==> sval(elem@, 16) == sval(old(elem)@, 16) - cc * (w(16) - 38) && -0x4001_0000_0000 <= cc <= 0x4001_0000_0000,
        i == 16 ==> 0 <= low + sval(elem@, 16) - elem@[0] < w(16),
//@in 0 start
    let ghost e0 = elem@;
    proof { lemma_shr(elem@[i as int]); lemma_shr((elem@[i as int] >> 16i64) as i64); lemma_w(i as int); lemma_w16(); }
//@in 0 end
    proof {
        let c = e0[i as int] as int / 65536;
        let e1 = e0.update(i as int, (e0[i as int] - c * 65536) as i64);
        lemma_sval_upd(e0, i as int, (e0[i as int] - c * 65536) as i64, 16);
        let q = w(i as int);
        if i < 15 {
            let v2 = (e1[i as int + 1] + c) as i64;
            lemma_sval_upd(e1, i as int + 1, v2, 16);
            assert(elem@ =~= e1.update(i as int + 1, v2));
            assert((-(c * 65536)) * q + c * (65536 * q) == 0) by(nonlinear_arith);
        } else {
            let v2 = (e1[0] + 38 * c) as i64;
            lemma_sval_upd(e1, 0, v2, 16);
            assert(elem@ =~= e1.update(0, v2));
            cc = c; low = e1[0] as int;
            lemma_sval_dig(e1, 16);
            assert((-(c * 65536)) * q + 38 * c == -(c * (65536 * q - 38))) by(nonlinear_arith);
        }
    }
//@end
    proof {
        reveal(val);
        let v0 = sval(old(elem)@, 16); let v1 = sval(elem@, 16);
        assert(v1 - elem@[0] + low + cc * w(16) == v0) by(nonlinear_arith) requires v1 == v0 - cc * (w(16) - 38), elem@[0] - 38 * cc == low;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v0, w(16), cc, v1 - elem@[0] + low);
        lemma_low(elem@); lemma_w16();
        // low = v0 mod 65536
        let hi = (v1 - elem@[0]) / 65536;
        assert(w(16) == 65536 * w(15)) by { lemma_w(15); }
        assert(cc * w(16) == 65536 * (cc * w(15))) by(nonlinear_arith) requires w(16) == 65536 * w(15);
        assert(v0 == 65536 * (hi + cc * w(15)) + low) by(nonlinear_arith) requires v1 - elem@[0] == 65536 * hi, v1 - elem@[0] + low + 65536 * (cc * w(15)) == v0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v0, 65536, hi + cc * w(15), low);
        assert(cc * (2 * P25519()) == 2 * cc * P25519()) by(nonlinear_arith);
        assert(w(16) - 38 == 2 * P25519());
        assert(v1 == v0 + (-2 * cc) * P25519()) by(nonlinear_arith) requires v1 == v0 - 2 * cc * P25519();
        lemma_mod_eq(v1, v0, -2 * cc);
    }
//@endfn
//@fn crypto/ellipticcurve/math/curve25519.rs fn fadd
//@ret r
//@spec
    requires bnd(a@, 0x20000), bnd(b@, 0x20000),
    ensures bnd(r@, 0x40000), fe(r@) == fa(fe(a@), fe(b@)),
//@loop 0
    invariant bnd(a@, 0x20000), bnd(b@, 0x20000), forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == a@[k] + b@[k],
//@end
    proof { reveal(val); lemma_sval_lin(out@, a@, b@, 1, 16); lemma_fa(val(a@), val(b@)); }
//@endfn
//@fn crypto/ellipticcurve/math/curve25519.rs fn fsub
//@ret r
//@spec
    requires bnd(a@, 0x20000), bnd(b@, 0x20000),
    ensures bnd(r@, 0x40000), fe(r@) == fs(fe(a@), fe(b@)),
//@loop 0
    invariant bnd(a@, 0x20000), bnd(b@, 0x20000), forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == a@[k] - b@[k],
//@end
    proof { reveal(val); lemma_sval_lin(out@, a@, b@, -1, 16); lemma_fs(val(a@), val(b@)); }
//@endfn
//@fn crypto/ellipticcurve/math/curve25519.rs fn fmul
//@attr #[verifier::rlimit(60)]
//@ret r
//@subst `out.copy_from_slice(&product[..16])` => `vx_copy16(&mut out, &product)` opt
//@spec
    requires bnd(a@, 0x40000), bnd(b@, 0x40000),
    ensures red(r@), fe(r@) == fm(fe(a@), fe(b@)),
//@before 0
    proof { lemma_sval_zero(product@, 31); assert(sval(a@, 0) * sval(b@, 16) == 0) by(nonlinear_arith) requires sval(a@, 0) == 0; }
//@loop 0
    invariant bnd(a@, 0x40000), bnd(b@, 0x40000), a@.len() == 16, b@.len() == 16, product@.len() == 31,
        forall|k: int| 0 <= k < 31 ==> -(i as int) * 0x10_0000_0000 <= #[trigger] product@[k] <= i as int * 0x10_0000_0000,
        sval(product@, 31) == sval(a@, i as int) * sval(b@, 16),
//@in 0 start
    proof { assert(a@[i as int] * w(i as int) * 0 == 0) by(nonlinear_arith); }
//@in 0 end
    proof {
        let x = a@[i as int] as int; let q = w(i as int); let z = sval(b@, 16); let y = sval(a@, i as int);
        assert(y * z + x * q * z == (y + x * q) * z) by(nonlinear_arith);
    }
//@loop 1
    invariant bnd(a@, 0x40000), bnd(b@, 0x40000), a@.len() == 16, b@.len() == 16, product@.len() == 31, 0 <= i < 16,
        forall|k: int| 0 <= k < 31 ==> -(i as int + if i <= k < i + j { 1int } else { 0 }) * 0x10_0000_0000 <= #[trigger] product@[k] <= (i as int + if i <= k < i + j { 1int } else { 0 }) * 0x10_0000_0000,
        sval(product@, 31) == sval(a@, i as int) * sval(b@, 16) + a@[i as int] * w(i as int) * sval(b@, j as int),
//@in 1 start
    let ghost p0 = product@;
    proof {
        let x = a@[i as int] as int; let y = b@[j as int] as int;
        assert(-0x10_0000_0000 <= x * y <= 0x10_0000_0000) by(nonlinear_arith) requires -0x40000 <= x <= 0x40000, -0x40000 <= y <= 0x40000;
        lemma_sval_upd(p0, i + j, (p0[i + j] + x * y) as i64, 31);
        lemma_ipow2_add(16 * (i as int), 16 * (j as int));
        assert(16 * (i as int + j as int) == 16 * (i as int) + 16 * (j as int));
        let p = w(i as int); let q = w(j as int); let z = sval(b@, j as int);
        assert((x * y) * (p * q) + x * p * z == x * p * (z + y * q)) by(nonlinear_arith);
    }
//@after 0
    let ghost q0 = product@;
    proof { assert(bnd(q0, 0x100_0000_0000)); }
//@loop 2
    invariant product@.len() == 31, q0.len() == 31, bnd(q0, 0x100_0000_0000),
        forall|k: int| 0 <= k < i ==> #[trigger] product@[k] == q0[k] + 38 * q0[k + 16],
        forall|k: int| i <= k < 31 ==> #[trigger] product@[k] == q0[k],
//@before `carry25519(&mut out)`
    proof {
        reveal(val);
        assert(bnd(out@, 0x4000_0000_0000));
        let lo = q0.subrange(0, 16); let hi = q0.subrange(16, 31);
        assert(forall|k: int| 0 <= k < 15 ==> hi[k] == q0[k + 16]);
        lemma_sval_split(q0, 16, 15);
        lemma_sval_lin(out@, q0, hi, 38, 15);
        lemma_w16();
        let h = sval(hi, 15); let l = sval(q0, 16);
        assert(sval(out@, 16) == l + 38 * h);
        assert((l + w(16) * h) - (l + 38 * h) == (2 * h) * P25519()) by(nonlinear_arith) requires w(16) == 2 * P25519() + 38;
        lemma_mod_eq(sval(q0, 31), sval(out@, 16), 2 * h);
        lemma_fm(val(a@), val(b@));
        lemma_val_bound(out@, 0x4000_0000_0000);
    }
//@before `carry25519(&mut out)` 1
    proof {
        lemma_near(out@, 0x1000_0000_0000_0000);
        assert(bnd(out@, 0x4000_0000_0000_0000));
    }
//@end
    proof { }
//@endfn
/// x^(a+b), x^(2a)
proof fn lemma_fp_add(x: int, a: int, b: int)
    requires a >= 0, b >= 0, ensures fp(x, a + b) % P25519() == fm(fp(x, a), fp(x, b)), decreases a
{
    lemma_w16();
    let p = P25519();
    if a > 0 {
        lemma_fp_add(x, a - 1, b);
        let u = fp(x, a - 1); let v = fp(x, b); let y = fp(x, a - 1 + b);
        // fp(x, a+b) = x*y mod p; y = u*v mod p
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(x, y, p);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(x, u * v, p);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(x * u, v, p);
        assert(x * (u * v) == (x * u) * v) by(nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_mod_twice(x * y, p);
    } else { assert(1 * fp(x, b) == fp(x, b)); }
}
proof fn lemma_fp_red(x: int, e: int) requires e > 0, ensures fp(x, e) % P25519() == fp(x, e)
{ lemma_w16(); vstd::arithmetic::div_mod::lemma_mod_twice(x * fp(x, e - 1), P25519()); }
/// the exponent after n rounds of finverse
spec fn expo(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * expo(n - 1) + (if 254 - n == 2 || 254 - n == 4 { 0int } else { 1 }) } }
proof fn lemma_expo_pos(n: int) ensures expo(n) >= 1, decreases n { if n > 0 { lemma_expo_pos(n - 1); } }
//@fn crypto/ellipticcurve/math/curve25519.rs fn finverse
//@ret r
//@spec
    requires bnd(input@, 0x40000),
    ensures red(r@) || r@ == input@, bnd(r@, 0x40000), fe(r@) == fp(fe(input@), P25519() - 2),
//@before 0
    proof { lemma_w16(); vstd::arithmetic::div_mod::lemma_mod_twice(val(input@), P25519()); assert(fe(input@) * 1 == fe(input@)); assert(fp(fe(input@), 0) == 1); assert(fp(fe(input@), 1) == fe(input@)); }
//@loop 0
    invariant
        bnd(input@, 0x40000), red(c@) || c@ == input@, bnd(c@, 0x40000),
        fe(c@) == fp(fe(input@), expo(i__k as int)),
//@in 0 start
    proof {
        let x = fe(input@); let e = expo(i__k as int);
        lemma_expo_pos(i__k as int); lemma_w16();
        lemma_fp_add(x, e, e); lemma_fp_red(x, 2 * e); lemma_fp_add(x, 2 * e, 1); lemma_fp_red(x, 2 * e + 1);
        assert(fp(x, 0) == 1); assert(x * 1 == x);
        vstd::arithmetic::div_mod::lemma_mod_twice(val(input@), P25519());
        assert(fp(x, 1) == x);
    }
//@end
    proof { assert(expo(254) == P25519() - 2) by(compute_only); }
//@endfn
//@fn crypto/ellipticcurve/math/curve25519.rs fn swap25519
//@spec
    requires bit == 0 || bit == 1,
    ensures
        bit == 0 ==> final(p)@ == old(p)@ && final(q)@ == old(q)@,
        bit == 1 ==> final(p)@ == old(q)@ && final(q)@ == old(p)@,
//@start
    proof { lemma_swap(0, 0); }
//@loop 0
    invariant
        bit == 0 || bit == 1, c == (if bit == 1 { -1i64 } else { 0i64 }),
        forall|k: int| 0 <= k < i ==> #[trigger] p@[k] == (if bit == 1 { old(q)@[k] } else { old(p)@[k] }),
        forall|k: int| 0 <= k < i ==> #[trigger] q@[k] == (if bit == 1 { old(p)@[k] } else { old(q)@[k] }),
        forall|k: int| i <= k < 16 ==> #[trigger] p@[k] == old(p)@[k],
        forall|k: int| i <= k < 16 ==> #[trigger] q@[k] == old(q)@[k],
//@in 0 start
    proof { lemma_swap(p@[i as int], q@[i as int]); }
//@end
    proof {
        if bit == 1 { assert(p@ =~= old(q)@); assert(q@ =~= old(p)@); } else { assert(p@ =~= old(p)@); assert(q@ =~= old(q)@); }
    }
//@endfn
//@fn crypto/ellipticcurve/math/curve25519.rs fn pack25519
//@attr #[verifier::rlimit(60)]
//@ret r
//@subst `let mut out = [0; 32]` => `let mut out: [u8; 32] = [0; 32]`
//@spec
    requires red(input@),
    ensures r@ == enc_le(fe(input@), 32),
//@start
    proof { lemma_near(input@, 65573); lemma_w16(); }
//@before `carry25519(&mut t)` 1
    let ghost t1 = t@;
    proof { lemma_carry1(input@, t1); lemma_near(t1, 65573); }
//@before `carry25519(&mut t)` 2
    let ghost t2 = t@;
    proof { lemma_carry2(input@, t1, t2); lemma_near(t2, 65535); lemma_div0(t2); }
//@before 0
    proof { lemma_near(t@, 65535); }
//@loop 0 it
    invariant
        dig(t@, 16), 0 <= val(t@) < w(16), fe(t@) == fe(input@), w(16) == 2 * P25519() + 38, P25519() > 19,
        val(t@) < P25519() || val(t@) < w(16) - it.index() * P25519(),
        it.index() <= 2,
//@in 0 start
    let ghost k0 = it.index() as int;
    proof { lemma_w16(); reveal(val); }
//@before 1
    proof { lemma_w(0); assert(sval(m@, 0) == 0 && sval(t@, 0) == 0); assert(sval(m@, 1) == m@[0] * w(0)); assert(sval(t@, 1) == t@[0] * w(0)); }
//@loop 1
    invariant
        dig(t@, 16), t@.len() == 16, m@.len() == 16,
        1 <= i <= 15, dig(m@, i - 1), -65536 <= m@[i - 1] <= 65535,
        sval(m@, i as int) == sval(t@, i as int) - w(i as int) + 19,
//@in 1 start
    let ghost m0 = m@;
    proof { lemma_borrow(m@[i - 1]); lemma_w(i as int); lemma_w(i - 1); }
//@in 1 end
    proof {
        let b: int = if m0[i - 1] < 0 { 1 } else { 0 };
        let v1 = m@[i as int];
        lemma_sval_eq(m@, m0, i - 1);
        let q = w(i - 1);
        let x = m0[i - 1] as int; let y = m@[i - 1] as int; let tt = t@[i as int] as int;
        assert(y * q + (tt - 65535 - b) * (65536 * q) == x * q + tt * (65536 * q) - 65535 * (65536 * q)) by(nonlinear_arith) requires y == x + 65536 * b;
        let j = i as int;
        assert(sval(m@, j + 1) == sval(m@, j) + m@[j] * w(j)); assert(sval(m@, j) == sval(m@, j - 1) + m@[j - 1] * w(j - 1));
        assert(sval(m0, j) == sval(m0, j - 1) + m0[j - 1] * w(j - 1)); assert(sval(t@, j + 1) == sval(t@, j) + t@[j] * w(j));
        assert(65535 * (65536 * q) == w(j + 1) - w(j)) by(nonlinear_arith) requires w(j + 1) == 65536 * w(j), w(j) == 65536 * q;
        assert(w(j) == 65536 * q);
        assert(m@[j] == tt - 65535 - b);
    }
//@before `m[15] =`
    let ghost m0 = m@;
    proof { lemma_borrow(m@[14]); lemma_w(14); lemma_w16(); }
//@before `swap25519(&mut t, &mut m`
    let ghost t0 = t@;
    let ghost m1 = m@;
    proof {
        reveal(val); lemma_w16();
        let b: int = if m0[14] < 0 { 1 } else { 0 };
        lemma_sval_eq(m@, m0, 14);
        lemma_borrow15(m@[15]);
        let q = w(14); let x = m0[14] as int; let y = m@[14] as int; let tt = t@[15] as int;
        assert(y * q + (tt - 32767 - b) * (65536 * q) == x * q + tt * (65536 * q) - 32767 * (65536 * q)) by(nonlinear_arith) requires y == x + 65536 * b;
        assert(sval(m1, 16) == sval(m1, 15) + m1[15] * w(15)); assert(sval(m1, 15) == sval(m1, 14) + m1[14] * w(14));
        assert(sval(m0, 15) == sval(m0, 14) + m0[14] * w(14)); assert(sval(t0, 16) == sval(t0, 15) + t0[15] * w(15));
        assert(32767 * (65536 * q) == P25519() + 19 - w(15)) by(nonlinear_arith) requires 32768 * w(15) == P25519() + 19, w(15) == 65536 * q;
        assert(sval(m1, 16) == sval(t0, 16) - P25519());
        lemma_sval_dig(m1, 15);
        let z = m1[15] as int; let w15 = w(15);
        assert(z < 0 ==> z * w15 <= -w15) by(nonlinear_arith) requires w15 > 0;
        assert(z >= 0 ==> z * w15 >= 0) by(nonlinear_arith) requires w15 > 0;
        assert(sval(m1, 16) < 0 <==> z < 0);
        lemma_mod_eq(sval(m1, 16), sval(t0, 16), -1);
    }
//@in 0 end
    proof {
        reveal(val); lemma_sval_dig(t@, 16);
        assert((k0 + 1) * P25519() == k0 * P25519() + P25519()) by(nonlinear_arith);
        assert(val(t@) == val(t0) || val(t@) == val(t0) - P25519());
        assert(val(t0) >= P25519() ==> val(t@) == val(t0) - P25519());
    }
//@after 0
    let ghost tf = t@;
    proof {
        assert(0 <= val(tf) < P25519());
        vstd::arithmetic::div_mod::lemma_small_mod(val(tf) as nat, P25519() as nat);
    }
//@loop 2
    invariant
        t@ == tf, dig(tf, 16), tf.len() == 16,
        forall|k: int| 0 <= k < i ==> #[trigger] tf[k] == out@[2 * k] as int + 256 * out@[2 * k + 1],
//@in 2 start
    proof { lemma_shr(t@[i as int]); lemma_u8(t@[i as int]); }
//@end
    proof {
        reveal(val);
        lemma_bytes(out@, tf, 16); assert(out@.subrange(0, 32) =~= out@);
        lemma_enc_le(out@);
    }
//@endfn
/// the RFC adds and multiplies in another order
proof fn lemma_sq(x: int, y: int) ensures fm(fs(x, y), fs(x, y)) == fm(fs(y, x), fs(y, x))
{
    lemma_fm(x - y, x - y); lemma_fm(y - x, y - x);
    vstd::arithmetic::div_mod::lemma_mod_twice(x - y, P25519());
    assert((x - y) * (x - y) == (y - x) * (y - x)) by(nonlinear_arith);
}
proof fn lemma_fmc(x: int, y: int) ensures fm(x, y) == fm(y, x) { assert(x * y == y * x) by(nonlinear_arith); }
proof fn lemma_step(u: int, s: Lad)
    ensures ({
        let a = fa(s.x2, s.z2); let b = fs(s.x2, s.z2); let c = fa(s.x3, s.z3); let d = fs(s.x3, s.z3);
        let aa = fm(a, a); let bb = fm(b, b); let e = fs(aa, bb); let cb = fm(c, b); let da = fm(d, a);
        let t = lad_step(u, s);
        &&& t.x3 == fm(fa(cb, da), fa(cb, da)) &&& t.z3 == fm(fm(fs(cb, da), fs(cb, da)), u) &&& t.x2 == fm(aa, bb) &&& t.z2 == fm(e, fa(fm(e, 121665), aa)) }),
{
    let a = fa(s.x2, s.z2); let b = fs(s.x2, s.z2); let c = fa(s.x3, s.z3); let d = fs(s.x3, s.z3);
    let aa = fm(a, a); let bb = fm(b, b); let e = fs(aa, bb); let cb = fm(c, b); let da = fm(d, a);
    lemma_sq(cb, da); lemma_fmc(e, 121665); lemma_fmc(u, fm(fs(cb, da), fs(cb, da)));
    assert(fa(cb, da) == fa(da, cb));
}
proof fn lemma_bit(x: u8, j: u8) requires j < 8, ensures (x >> j) & 1 == 0 || (x >> j) & 1 == 1
{ assert((x >> j) & 1 == 0 || (x >> j) & 1 == 1) by(bit_vector); }
proof fn lemma_idx(i: usize) requires i <= 254, ensures (i >> 3usize) == i / 8, (i & 7) == i % 8, i / 8 < 32
{ assert((i >> 3usize) == i / 8) by(bit_vector); assert((i & 7) == i % 8) by(bit_vector); }
proof fn lemma_cswap(a: int, b: int, s: Lad)
    requires a == 0 || a == 1, b == 0 || b == 1,
    ensures cswap(b, cswap(a, s)) == cswap(bxor(a, b), s)
{ }
proof fn lemma_consts()
    ensures forall|s: Seq<i64>| s.len() == 16 && (forall|i: int| 1 <= i < 16 ==> s[i] == 0) ==> #[trigger] val(s) == s[0],
{
    assert forall|s: Seq<i64>| s.len() == 16 && (forall|i: int| 1 <= i < 16 ==> s[i] == 0) implies #[trigger] val(s) == s[0] by {
        reveal(val); let z = s.update(0, 0); lemma_sval_zero(z, 16); lemma_sval_upd(s, 0, 0, 16); lemma_w16(); assert((0 - s[0]) * 1 == -s[0]);
    }
}
proof fn lemma_lad_kt(k: Seq<u8>, u: int, n: int) requires 0 <= n <= 255, k.len() == 32, ensures lad(k, u, n).1 == 0 || lad(k, u, n).1 == 1
{ if n > 0 { lemma_bit(k[(255 - n) / 8], ((255 - n) % 8) as u8); } }
spec fn st(a: Seq<i64>, c: Seq<i64>, b: Seq<i64>, d: Seq<i64>) -> Lad { Lad { x2: fe(a), z2: fe(c), x3: fe(b), z3: fe(d) } }
//@fn crypto/ellipticcurve/math/curve25519.rs fn scalarmult
//@attr #[verifier::rlimit(60)]
//@ret r
//@subst `let mut constant = [0; 16]` => `let mut constant: FieldElem = [0; 16]`
//@spec
    ensures r@ == x25519_def(scalar@, point_x@),
//@before 0
    proof { lemma_consts(); lemma_w16(); }
//@loop 0
    invariant
        dig(x@, 16),
        forall|k: int| 0 <= k < i ==> #[trigger] b@[k] == x@[k],
        forall|k: int| 0 <= k < 16 ==> #[trigger] a@[k] == 0,
        forall|k: int| 0 <= k < 16 ==> #[trigger] c@[k] == 0,
        forall|k: int| 0 <= k < 16 ==> #[trigger] d@[k] == 0,
//@before 1
    let ghost k = clamp_k(scalar@);
    let ghost u = dec_u(point_x@);
    proof {
        assert(clamped@ =~= k) by {
            let y = scalar@[31];
            assert((y & 0x7fu8) | 0x40u8 == (y & 127u8) | 64u8) by(bit_vector);
        }
        lemma_consts(); lemma_w16();
        assert(b@ =~= x@);
        vstd::arithmetic::div_mod::lemma_small_mod(1, P25519() as nat); vstd::arithmetic::div_mod::lemma_small_mod(0, P25519() as nat);
        vstd::arithmetic::div_mod::lemma_small_mod(121665, P25519() as nat);
        assert(val(a@) == 1 && val(c@) == 0 && val(d@) == 1 && val(constant@) == 121665);
        lemma_lad_kt(k, u, 0);
        assert(st(a@, c@, b@, d@) == lad(k, u, 0).0);
    }
//@loop 1
    invariant
        clamped@ == k, k.len() == 32, u == fe(x@), dig(x@, 16), fe(constant@) == 121665, bnd(constant@, 0x20000),
        red(a@), red(b@), red(c@), red(d@),
        lad(k, u, i__k as int).1 == 0 || lad(k, u, i__k as int).1 == 1,
        st(a@, c@, b@, d@) == cswap(lad(k, u, i__k as int).1, lad(k, u, i__k as int).0),
//@in 1 start
    let ghost n = i__k as int;
    let ghost s1 = cswap(kbit(k, 254 - n), st(a@, c@, b@, d@));
    proof {
        lemma_idx((254 - n) as usize);
        lemma_bit(k[(254 - n) / 8], ((254 - n) % 8) as u8);
        lemma_cswap(lad(k, u, n).1, kbit(k, 254 - n), lad(k, u, n).0);
        lemma_step(u, s1);
        lemma_lad_kt(k, u, n + 1);
        assert(lad(k, u, n + 1).0 == lad_step(u, s1) && lad(k, u, n + 1).1 == kbit(k, 254 - n));
    }
//@endfn
//@fn crypto/ellipticcurve/math.rs fn multiply
//@ret r
//@subst `*p == curve.g` => `vx_pt_eq(p, &curve.g)` opt
//@subst `*p != curve.g` => `!vx_pt_eq(p, &curve.g)` opt
//@subst `bytes::ByteOrder::` => `ByteOrder::` opt all
//@subst `curve25519::scalarmult(` => `scalarmult(`
//@spec
    requires curve.equation is Montgomery, 0 <= n.v@ < ipow2(256), 0 <= p.x.v@ < ipow2(256), curve.g.x.v@ == 9,
    ensures
        // a point carries the 32 bytes of its u-coordinate as a big-endian number; the base point is the number 9
        r.x.v@ == bei(x25519_def(enc_be(n.v@, 32),
            if p.x.v@ == 9 && p.y.v@ == curve.g.y.v@ { enc_le(9, 32) } else { enc_be(p.x.v@, 32) })),
        0 <= r.x.v@ < ipow2(256), r.y.v@ == 0,
//@end
    proof { assert forall|s: Seq<u8>| s.len() == 32 implies 0 <= #[trigger] bei(s) < ipow2(256) by { lemma_be_bound(s); } }
//@endfn
impl Curve {
//@fn crypto/ellipticcurve/curve.rs impl Curve :: fn curve25519
//@ret r
//@spec
    ensures r.equation is Montgomery, r.g.x.v@ == 9, r.g.y.v@ > 0, r.p.v@ == P25519(),
//@endfn
}
/// RFC 7748 section 6.1: both sides compute the same 32 bytes
proof fn lemma_len(k: Seq<u8>, u: Seq<u8>) ensures x25519_def(k, u).len() == 32 { }
}
fn main() {}
