// ---- arithmetic modulo a prime ----
proof fn cmul(a: int, a2: int, b: int, b2: int, m: int) requires m > 0, a % m == a2 % m, b % m == b2 % m, ensures (a * b) % m == (a2 * b2) % m
{ vstd::arithmetic::div_mod::lemma_mul_mod_noop(a, b, m); vstd::arithmetic::div_mod::lemma_mul_mod_noop(a2, b2, m); }
proof fn cadd(a: int, a2: int, b: int, b2: int, m: int) requires m > 0, a % m == a2 % m, b % m == b2 % m, ensures (a + b) % m == (a2 + b2) % m
{ vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, m); vstd::arithmetic::div_mod::lemma_add_mod_noop(a2, b2, m); }
proof fn csub(a: int, a2: int, b: int, b2: int, m: int) requires m > 0, a % m == a2 % m, b % m == b2 % m, ensures (a - b) % m == (a2 - b2) % m
{ vstd::arithmetic::div_mod::lemma_sub_mod_noop(a, b, m); vstd::arithmetic::div_mod::lemma_sub_mod_noop(a2, b2, m); }
proof fn cred(a: int, m: int) requires m > 0, ensures (a % m) % m == a % m { vstd::arithmetic::div_mod::lemma_mod_twice(a, m); }
proof fn csmall(a: int, m: int) requires 0 <= a < m, ensures a % m == a { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, m as nat); }
proof fn ceq(a: int, b: int, k: int, m: int) requires m > 0, a == b + k * m, ensures a % m == b % m
{ vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, b, m); assert(m * k == k * m) by(nonlinear_arith); }
/// one step of the extended Euclidean algorithm keeps its invariants
spec fn euc(x: int, n: int, low: int, high: int, lm: int, hm: int, al: int, be: int) -> bool {
    &&& 0 <= low < high &&& (lm * x) % n == low % n &&& (hm * x) % n == high % n &&& n == al * low + be * high &&& high <= n
}
proof fn lemma_euc_step(x: int, n: int, low: int, high: int, lm: int, hm: int, al: int, be: int)
    requires n > 1, euc(x, n, low, high, lm, hm, al, be), low >= 1,
    ensures euc(x, n, high - low * (high / low), low, hm - lm * (high / low), lm, be, al + be * (high / low)), high - low * (high / low) == high % low,
{
    let r = high / low;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(high, low);
    let nw = high - low * r;
    cmul(lm * x, low, r, r, n);
    csub(hm * x, high, (lm * x) * r, low * r, n);
    assert((hm - lm * r) * x == hm * x - (lm * x) * r) by(nonlinear_arith);
    assert(al * low + be * high == be * nw + (al + be * r) * low) by(nonlinear_arith) requires nw == high - low * r;
}
/// at the end: an inverse
proof fn lemma_euc_end(x: int, n: int, low: int, high: int, lm: int, hm: int, al: int, be: int)
    requires is_prime(n), euc(x, n, low, high, lm, hm, al, be), low <= 1, low == 0 ==> 1 < high < n,
    ensures low == 1, (lm * x) % n == 1,
{
    if low == 0 {
        assert(n == be * high) by(nonlinear_arith) requires n == al * low + be * high, low == 0;
        ceq(be * high, 0, be, high);
        assert(n % high == 0);
        assert(false);
    }
    csmall(1, n);
}
proof fn lemma_inv_exists(x: int, n: int) -> (v: int)
    requires is_prime(n), x % n != 0,
    ensures 0 <= v < n, (x * v) % n == 1,
{
    let low = x % n;
    cred(x, n); csmall(low, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, n);
    vstd::arithmetic::div_mod::lemma_mod_self_0(n);
    assert(0 * x == 0 && 1 * x == x && 0 * low == 0 && 1 * n == n);
    let lm = lemma_euc_rec(x, n, low, n, 1, 0, 0, 1);
    let v = lm % n;
    cred(lm, n); cmul(x, x, lm, v, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(lm, n);
    assert(lm * x == x * lm) by(nonlinear_arith);
    v
}
proof fn lemma_euc_rec(x: int, n: int, low: int, high: int, lm: int, hm: int, al: int, be: int) -> (v: int)
    requires is_prime(n), euc(x, n, low, high, lm, hm, al, be), low == 0 ==> 1 < high < n,
    ensures (v * x) % n == 1,
    decreases low
{
    if low <= 1 { lemma_euc_end(x, n, low, high, lm, hm, al, be); lm }
    else {
        lemma_euc_step(x, n, low, high, lm, hm, al, be);
        vstd::arithmetic::div_mod::lemma_mod_bound(high, low);
        lemma_euc_rec(x, n, high - low * (high / low), low, hm - lm * (high / low), lm, be, al + be * (high / low))
    }
}
proof fn lemma_finv(x: int, m: int)
    requires is_prime(m), x % m != 0,
    ensures 0 <= finv(x, m) < m, (x * finv(x, m)) % m == 1,
{ reveal(finv); let v = lemma_inv_exists(x, m); assert((x * v) % m == 1); }
/// a common factor prime to m cancels
proof fn lemma_cancel(a: int, b: int, w: int, m: int)
    requires is_prime(m), (a * w) % m == (b * w) % m, w % m != 0,
    ensures a % m == b % m,
{
    lemma_finv(w, m); let v = finv(w, m);
    cmul(a * w, b * w, v, v, m);
    csmall(1, m);
    cmul(a, a, w * v, 1, m); cmul(b, b, w * v, 1, m);
    assert((a * w) * v == a * (w * v) && (b * w) * v == b * (w * v)) by(nonlinear_arith);
}
proof fn lemma_nz(a: int, b: int, m: int)
    requires is_prime(m), a % m != 0, b % m != 0, ensures (a * b) % m != 0
{ if (a * b) % m == 0 { csmall(0, m); assert(0 * b == 0); lemma_cancel(a, 0, b, m); } }
/// only one inverse
proof fn lemma_inv_unique(x: int, v: int, m: int)
    requires is_prime(m), x % m != 0, 0 <= v < m, (x * v) % m == 1, ensures v == finv(x, m)
{
    lemma_finv(x, m); let u = finv(x, m);
    assert(v * x == x * v && u * x == x * u) by(nonlinear_arith);
    lemma_cancel(v, u, x, m); csmall(v, m); csmall(u, m);
}
// ---- Jacobian coordinates ----
spec fn sq(a: int) -> int { a * a }
spec fn cu(a: int) -> int { a * a * a }
/// the affine point (X/Z^2, Y/Z^3); Y = 0 stands for infinity
spec fn aff(x: int, y: int, z: int) -> Aff {
    if y == 0 { Aff::O } else { let i = finv(z, PP()); Aff::P((x * sq(i)) % PP(), (y * cu(i)) % PP()) }
}
spec fn wf(x: int, y: int, z: int) -> bool {
    &&& 0 <= x < PP() &&& 0 <= y < PP() &&& 0 <= z < PP() &&& (y == 0 ==> x == 0) &&& (y != 0 ==> z != 0) &&& on(aff(x, y, z))
}
/// X = x Z^2, Y = y Z^3
spec fn rep(jx: int, jy: int, z: int, x: int, y: int) -> bool { jx % PP() == (x * sq(z)) % PP() && jy % PP() == (y * cu(z)) % PP() }
proof fn lemma_pp() ensures PP() > 0x1_0000_0000, is_prime(PP()), NN() > 0x1_0000_0000, is_prime(NN()), 0 < CA() < PP(), 0 < CB() < PP(), NN() < PP(), NN() % 2 == 1, PP() < {{HEX:10000000000000000000000000000000000000000000000000000000000000000}}, NN() >= {{HEX:8000000000000000000000000000000000000000000000000000000000000000}}, 0 < GX() < PP(), 0 < GY() < PP(), CA() == PP() - 3
{ axiom_prime(); reveal(PP); reveal(NN); reveal(CA); reveal(CB); reveal(GX); reveal(GY); }
proof fn lemma_on_gen() ensures on(gen())
{
    reveal(PP); reveal(CA); reveal(CB); reveal(GX); reveal(GY);
    assert(on(gen())) by(compute);
}
/// the affine point of a Jacobian one stands in rep to it
proof fn lemma_aff_rep(jx: int, jy: int, z: int)
    requires 0 <= jx < PP(), 0 < jy < PP(), 0 < z < PP(),
    ensures ({ let i = finv(z, PP()); let x = (jx * sq(i)) % PP(); let y = (jy * cu(i)) % PP(); rep(jx, jy, z, x, y) && y != 0 && aff(jx, jy, z) == Aff::P(x, y) }),
{
    lemma_pp(); let m = PP();
    csmall(z, m); csmall(jy, m);
    lemma_finv(z, m); let i = finv(z, m);
    let x = (jx * sq(i)) % m; let y = (jy * cu(i)) % m;
    cred(jx * sq(i), m); cred(jy * cu(i), m);
    csmall(1, m);
    cmul(z * i, 1, z * i, 1, m); cmul((z * i) * (z * i), 1, z * i, 1, m);
    cmul(x, jx * sq(i), sq(z), sq(z), m); cmul(y, jy * cu(i), cu(z), cu(z), m);
    assert((jx * sq(i)) * sq(z) == jx * ((z * i) * (z * i))) by(nonlinear_arith) requires sq(i) == i * i, sq(z) == z * z;
    assert((jy * cu(i)) * cu(z) == jy * ((z * i) * (z * i) * (z * i))) by(nonlinear_arith) requires cu(i) == i * i * i, cu(z) == z * z * z;
    cmul(jx, jx, (z * i) * (z * i), 1, m); cmul(jy, jy, (z * i) * (z * i) * (z * i), 1, m);
    if y == 0 { assert(0 * cu(z) == 0); csmall(0, m); }
}
/// and is the only one
proof fn lemma_rep_aff(jx: int, jy: int, z: int, x: int, y: int)
    requires 0 <= jx < PP(), 0 <= jy < PP(), 0 < z < PP(), 0 <= x < PP(), 0 < y < PP(), rep(jx, jy, z, x, y),
    ensures jy != 0, aff(jx, jy, z) == Aff::P(x, y),
{
    lemma_pp(); let m = PP();
    csmall(z, m); csmall(y, m); csmall(x, m); csmall(0, m);
    lemma_nz(z, z, m); lemma_nz(z * z, z, m); lemma_nz(y, cu(z), m);
    lemma_aff_rep(jx, jy, z);
    let i = finv(z, m); let x2 = (jx * sq(i)) % m; let y2 = (jy * cu(i)) % m;
    cred(jx * sq(i), m); cred(jy * cu(i), m);
    lemma_cancel(x, x2, sq(z), m); lemma_cancel(y, y2, cu(z), m);
}
// ---- the addition and doubling formulas ----
proof fn lemma_chord(x1: int, y1: int, x2: int, y2: int, z1: int, z2: int, l: int, u1: int, u2: int, s1: int, s2: int, m: int)
    requires m > 1, (l * (x2 - x1)) % m == (y2 - y1) % m,
        u1 % m == (x1 * sq(z1 * z2)) % m, u2 % m == (x2 * sq(z1 * z2)) % m, s1 % m == (y1 * cu(z1 * z2)) % m, s2 % m == (y2 * cu(z1 * z2)) % m,
    ensures ({
        let h = (u2 - u1) % m; let r = (s2 - s1) % m; let h2 = (h * h) % m; let h3 = (h * h2) % m; let v = (u1 * h2) % m;
        let jx = (r * r - h3 - 2 * v) % m; let jy = (r * (v - jx) - s1 * h3) % m; let z = (h * z1 * z2) % m;
        let x3 = (l * l - x1 - x2) % m; let y3 = (l * (x1 - x3) - y1) % m;
        jx % m == (x3 * sq(z)) % m && jy % m == (y3 * cu(z)) % m }),
{
    let h = (u2 - u1) % m; let r = (s2 - s1) % m; let h2 = (h * h) % m; let h3 = (h * h2) % m; let v = (u1 * h2) % m;
    let jx = (r * r - h3 - 2 * v) % m; let jy = (r * (v - jx) - s1 * h3) % m; let z = (h * z1 * z2) % m;
    let x3 = (l * l - x1 - x2) % m; let y3 = (l * (x1 - x3) - y1) % m;
    let w = z1 * z2; let dx = x2 - x1; let dy = y2 - y1;
    let hh = dx * (w * w);          // h
    let zz = hh * w;                // z
    let rr = l * zz;                // r
    // h
    cred(u2 - u1, m); csub(u2, x2 * sq(w), u1, x1 * sq(w), m);
    assert(x2 * sq(w) - x1 * sq(w) == hh) by(nonlinear_arith) requires sq(w) == w * w, hh == (x2 - x1) * (w * w);
    assert(h % m == hh % m);
    // r
    cred(s2 - s1, m); csub(s2, y2 * cu(w), s1, y1 * cu(w), m);
    assert(y2 * cu(w) - y1 * cu(w) == dy * (w * w * w)) by(nonlinear_arith) requires cu(w) == w * w * w, dy == y2 - y1;
    cmul(l * dx, dy, w * w * w, w * w * w, m);
    assert((l * dx) * (w * w * w) == rr) by(nonlinear_arith) requires rr == l * zz, zz == hh * w, hh == dx * (w * w);
    assert(r % m == rr % m);
    // z
    cred(h * z1 * z2, m); cmul(h, hh, w, w, m);
    assert(h * z1 * z2 == h * w) by(nonlinear_arith) requires w == z1 * z2;
    assert(z % m == zz % m);
    // h2, h3, v
    cred(h * h, m); cmul(h, hh, h, hh, m);
    cred(h * h2, m); cmul(h, hh, h2, hh * hh, m);
    cred(u1 * h2, m); cmul(u1, x1 * sq(w), h2, hh * hh, m);
    assert((x1 * sq(w)) * (hh * hh) == x1 * (zz * zz)) by(nonlinear_arith) requires sq(w) == w * w, zz == hh * w;
    assert(v % m == (x1 * (zz * zz)) % m);
    assert(hh * (hh * hh) == dx * (zz * zz)) by(nonlinear_arith) requires zz == hh * w, hh == dx * (w * w);
    assert(h3 % m == (dx * (zz * zz)) % m);
    // x
    cmul(r, rr, r, rr, m); csub(r * r, rr * rr, h3, dx * (zz * zz), m); cmul(2, 2, v, x1 * (zz * zz), m);
    csub(r * r - h3, rr * rr - dx * (zz * zz), 2 * v, 2 * (x1 * (zz * zz)), m); cred(r * r - h3 - 2 * v, m);
    assert(rr * rr == (l * l) * (zz * zz)) by(nonlinear_arith) requires rr == l * zz;
    let t3 = l * l - x1 - x2;
    assert((l * l) * (zz * zz) - dx * (zz * zz) - 2 * (x1 * (zz * zz)) == t3 * (zz * zz)) by(nonlinear_arith) requires dx == x2 - x1, t3 == l * l - x1 - x2;
    cred(t3, m); cmul(z, zz, z, zz, m); cmul(x3, t3, sq(z), zz * zz, m);
    assert(jx % m == (x3 * sq(z)) % m);
    // y
    cmul(x3, t3, zz * zz, zz * zz, m); csub(v, x1 * (zz * zz), jx, x3 * (zz * zz), m);
    cmul(r, rr, v - jx, x1 * (zz * zz) - x3 * (zz * zz), m);
    cmul(s1, y1 * cu(w), h3, dx * (zz * zz), m);
    csub(r * (v - jx), rr * (x1 * (zz * zz) - x3 * (zz * zz)), s1 * h3, (y1 * cu(w)) * (dx * (zz * zz)), m);
    cred(r * (v - jx) - s1 * h3, m);
    let t4 = l * (x1 - x3) - y1; let z3 = zz * (zz * zz);
    assert(rr * (x1 * (zz * zz) - x3 * (zz * zz)) == (l * (x1 - x3)) * z3) by(nonlinear_arith) requires rr == l * zz, z3 == zz * (zz * zz);
    assert(dx * cu(w) == zz) by(nonlinear_arith) requires cu(w) == w * w * w, zz == hh * w, hh == dx * (w * w);
    assert((y1 * cu(w)) * (dx * (zz * zz)) == y1 * ((dx * cu(w)) * (zz * zz))) by(nonlinear_arith);
    assert((l * (x1 - x3)) * z3 - y1 * z3 == t4 * z3) by(nonlinear_arith) requires t4 == l * (x1 - x3) - y1;
    cred(t4, m); cmul(z * z, zz * zz, z, zz, m); cmul(y3, t4, cu(z), z3, m);
    assert((zz * zz) * zz == z3) by(nonlinear_arith) requires z3 == zz * (zz * zz);
}
proof fn lemma_double(x: int, y: int, jx: int, jy: int, z: int, l: int, a: int, m: int)
    requires m > 1, (l * (2 * y)) % m == (3 * x * x + a) % m, jx % m == (x * sq(z)) % m, jy % m == (y * cu(z)) % m,
    ensures ({
        let ysq = jy * jy; let s = (jx * 4 * ysq) % m; let mm = (jx * jx * 3 + a * (sq(z) * sq(z))) % m;
        let nx = (mm * mm - 2 * s) % m; let ny = (mm * (s - nx) - 8 * (ysq * ysq)) % m; let nz = (jy * z * 2) % m;
        let x3 = (l * l - x - x) % m; let y3 = (l * (x - x3) - y) % m;
        nx % m == (x3 * sq(nz)) % m && ny % m == (y3 * cu(nz)) % m }),
{
    let ysq = jy * jy; let s = (jx * 4 * ysq) % m; let mm = (jx * jx * 3 + a * (sq(z) * sq(z))) % m;
    let nx = (mm * mm - 2 * s) % m; let ny = (mm * (s - nx) - 8 * (ysq * ysq)) % m; let nz = (jy * z * 2) % m;
    let x3 = (l * l - x - x) % m; let y3 = (l * (x - x3) - y) % m;
    let z2 = z * z; let z4 = z2 * z2;
    let n = 2 * y * z4;   // nz
    // nz
    cmul(jy, y * cu(z), z * 2, z * 2, m); cred(jy * z * 2, m);
    assert(jy * (z * 2) == jy * z * 2) by(nonlinear_arith);
    assert((y * cu(z)) * (z * 2) == n) by(nonlinear_arith) requires cu(z) == z * z * z, z2 == z * z, z4 == z2 * z2, n == 2 * y * z4;
    assert(nz % m == n % m);
    // ysq = y^2 z^6, s = 4 x y^2 z^8 = x n^2
    cmul(jy, y * cu(z), jy, y * cu(z), m);
    cmul(jx, x * sq(z), 4, 4, m); cmul(jx * 4, (x * sq(z)) * 4, ysq, (y * cu(z)) * (y * cu(z)), m); cred(jx * 4 * ysq, m);
    assert(((x * sq(z)) * 4) * ((y * cu(z)) * (y * cu(z))) == x * (n * n)) by(nonlinear_arith) requires sq(z) == z * z, cu(z) == z * z * z, z2 == z * z, z4 == z2 * z2, n == 2 * y * z4;
    assert(s % m == (x * (n * n)) % m);
    // mm = (3x^2 + a) z^4 = l n
    cmul(jx, x * sq(z), jx, x * sq(z), m); cmul(jx * jx, (x * sq(z)) * (x * sq(z)), 3, 3, m);
    cadd(jx * jx * 3, (x * sq(z)) * (x * sq(z)) * 3, a * (sq(z) * sq(z)), a * (sq(z) * sq(z)), m); cred(jx * jx * 3 + a * (sq(z) * sq(z)), m);
    let q = 3 * x * x + a;
    assert((x * sq(z)) * (x * sq(z)) * 3 + a * (sq(z) * sq(z)) == q * z4) by(nonlinear_arith) requires sq(z) == z * z, z2 == z * z, z4 == z2 * z2, q == 3 * x * x + a;
    cmul(l * (2 * y), q, z4, z4, m);
    assert((l * (2 * y)) * z4 == l * n) by(nonlinear_arith) requires n == 2 * y * z4;
    assert(mm % m == (l * n) % m);
    // nx
    cmul(mm, l * n, mm, l * n, m); cmul(2, 2, s, x * (n * n), m); csub(mm * mm, (l * n) * (l * n), 2 * s, 2 * (x * (n * n)), m); cred(mm * mm - 2 * s, m);
    let t3 = l * l - x - x;
    assert((l * n) * (l * n) - 2 * (x * (n * n)) == t3 * (n * n)) by(nonlinear_arith) requires t3 == l * l - x - x;
    cred(t3, m); cmul(nz, n, nz, n, m); cmul(x3, t3, sq(nz), n * n, m); cmul(x3, t3, n * n, n * n, m);
    // ny
    csub(s, x * (n * n), nx, x3 * (n * n), m);
    cmul(mm, l * n, s - nx, x * (n * n) - x3 * (n * n), m);
    cmul(ysq, (y * cu(z)) * (y * cu(z)), ysq, (y * cu(z)) * (y * cu(z)), m);
    let yy = (y * cu(z)) * (y * cu(z));
    cmul(8, 8, ysq * ysq, yy * yy, m);
    csub(mm * (s - nx), (l * n) * (x * (n * n) - x3 * (n * n)), 8 * (ysq * ysq), 8 * (yy * yy), m); cred(mm * (s - nx) - 8 * (ysq * ysq), m);
    let n3 = n * (n * n); let t4 = l * (x - x3) - y;
    assert((l * n) * (x * (n * n) - x3 * (n * n)) == (l * (x - x3)) * n3) by(nonlinear_arith) requires n3 == n * (n * n);
    let z3 = z * z2; let z12 = z4 * (z4 * z4);
    assert(cu(z) == z3) by(nonlinear_arith) requires cu(z) == z * z * z, z2 == z * z, z3 == z * z2;
    let y2 = y * y; let z6 = z3 * z3;
    assert(yy == y2 * z6) by(nonlinear_arith) requires yy == (y * cu(z)) * (y * cu(z)), cu(z) == z3, y2 == y * y, z6 == z3 * z3;
    assert(z6 == z2 * z4) by(nonlinear_arith) requires z6 == z3 * z3, z3 == z * z2, z2 == z * z, z4 == z2 * z2;
    assert(z6 * z6 == z12) by(nonlinear_arith) requires z6 == z2 * z4, z4 == z2 * z2, z12 == z4 * (z4 * z4);
    assert(8 * (yy * yy) == 8 * (y2 * y2) * z12) by(nonlinear_arith) requires yy == y2 * z6, z6 * z6 == z12;
    assert(n3 == 8 * (y * y2) * z12) by(nonlinear_arith) requires n3 == n * (n * n), n == 2 * y * z4, y2 == y * y, z12 == z4 * (z4 * z4);
    assert(8 * (y2 * y2) * z12 == y * n3) by(nonlinear_arith) requires n3 == 8 * (y * y2) * z12, y2 == y * y;
    assert((l * (x - x3)) * n3 - y * n3 == t4 * n3) by(nonlinear_arith) requires t4 == l * (x - x3) - y;
    cred(t4, m); cmul(nz * nz, n * n, nz, n, m); cmul(y3, t4, cu(nz), n3, m);
    assert((n * n) * n == n3) by(nonlinear_arith) requires n3 == n * (n * n);
}
