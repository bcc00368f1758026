// ---- the group ----
proof fn lemma_smul_on(n: int, a: Aff) requires on(a), ensures on(smul(n, a)), decreases n
{ if n > 0 { lemma_smul_on(n - 1, a); axiom_closed(smul(n - 1, a), a); } }
proof fn lemma_smul_add(n: int, k: int, a: Aff)
    requires on(a), n >= 0, k >= 0, ensures smul(n + k, a) == padd(smul(n, a), smul(k, a)), decreases k
{
    if k > 0 { lemma_smul_add(n, k - 1, a); lemma_smul_on(n, a); lemma_smul_on(k - 1, a); axiom_assoc(smul(n, a), smul(k - 1, a), a); }
    else { assert(smul(0, a) == Aff::O); }
}
proof fn lemma_smul1(a: Aff) ensures smul(1, a) == a, smul(0, a) == Aff::O { assert(smul(0, a) == Aff::O); }
proof fn lemma_smul_mul(n: int, k: int, a: Aff)
    requires on(a), n >= 0, k >= 0, ensures smul(n, smul(k, a)) == smul(n * k, a), decreases n
{
    if n > 0 {
        lemma_smul_mul(n - 1, k, a);
        assert((n - 1) * k >= 0) by(nonlinear_arith) requires n >= 1, k >= 0;
        lemma_smul_add((n - 1) * k, k, a);
        assert((n - 1) * k + k == n * k) by(nonlinear_arith);
    } else { assert(0 * k == 0); }
}
proof fn lemma_smul_mod(n: int, a: Aff)
    requires on(a), n >= 0, ensures smul(n % NN(), a) == smul(n, a)
{
    lemma_pp(); axiom_order(a);
    let q = n / NN(); let r = n % NN();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, NN());
    assert(q >= 0 && r >= 0) by(nonlinear_arith) requires n == NN() * q + r, n >= 0, 0 <= r < NN(), NN() > 0;
    assert(q * NN() >= 0 && NN() * q == q * NN()) by(nonlinear_arith) requires q >= 0, NN() > 0;
    lemma_smul_add(q * NN(), r, a);
    lemma_smul_mul(q, NN(), a);
    lemma_smul_o(q);
}
proof fn lemma_smul_o(q: int) ensures smul(q, Aff::O) == Aff::O, decreases q { if q > 0 { lemma_smul_o(q - 1); } }
/// the order is odd, so no point of the curve has y = 0
proof fn lemma_two_torsion(x: int, k: int)
    requires on(Aff::P(x, 0)), k >= 0, ensures smul(2 * k, Aff::P(x, 0)) == Aff::O, decreases k
{
    let a = Aff::P(x, 0);
    if k > 0 {
        lemma_two_torsion(x, k - 1);
        lemma_smul_on(2 * k - 2, a); axiom_assoc(smul(2 * k - 2, a), a, a);
        lemma_pp(); csmall(0, PP());
        assert(padd(a, a) == Aff::O);
        assert(smul(2 * k, a) == padd(smul(2 * k - 1, a), a)); assert(smul(2 * k - 1, a) == padd(smul(2 * k - 2, a), a));
    }
}
proof fn lemma_y_nz(x: int, y: int) requires on(Aff::P(x, y)), ensures y != 0
{
    if y == 0 {
        lemma_pp(); let k = NN() / 2;
        lemma_two_torsion(x, k); axiom_order(Aff::P(x, 0));
        assert(smul(NN(), Aff::P(x, 0)) == padd(smul(NN() - 1, Aff::P(x, 0)), Aff::P(x, 0)));
    }
}
proof fn lemma_slope_chord(x1: int, y1: int, x2: int, y2: int)
    requires 0 <= x1 < PP(), 0 <= x2 < PP(), x1 != x2,
    ensures (slope(x1, y1, x2, y2) * (x2 - x1)) % PP() == (y2 - y1) % PP(),
{
    lemma_pp(); let m = PP(); let d = (x2 - x1) % m;
    if d == 0 { csmall(0, m); csmall(x1, m); csmall(x2, m); cadd(x2 - x1, 0, x1, x1, m); }
    cred(x2 - x1, m); csmall(1, m); csmall(d, m);
    lemma_finv(d, m); let i = finv(d, m); let l = slope(x1, y1, x2, y2);
    cred((y2 - y1) * i, m);
    cmul(l, (y2 - y1) * i, x2 - x1, d, m);
    cmul(y2 - y1, y2 - y1, d * i, 1, m);
    assert(((y2 - y1) * i) * d == (y2 - y1) * (d * i)) by(nonlinear_arith);
}
proof fn lemma_slope_tangent(x: int, y: int)
    requires 0 < y < PP(), PP() % 2 == 1,
    ensures (slope(x, y, x, y) * (2 * y)) % PP() == (3 * x * x + CA()) % PP(),
{
    lemma_pp(); let m = PP(); let d = (2 * y) % m;
    if d == 0 {
        // 2y in (0, 2p), even
        assert(2 * y != m);
        if 2 * y < m { csmall(2 * y, m); } else { ceq(2 * y, 2 * y - m, 1, m); csmall(2 * y - m, m); }
        assert(false);
    }
    cred(2 * y, m); csmall(1, m); csmall(d, m);
    lemma_finv(d, m); let i = finv(d, m); let l = slope(x, y, x, y); let q = 3 * x * x + CA();
    cred(q * i, m);
    cmul(l, q * i, 2 * y, d, m);
    cmul(q, q, d * i, 1, m);
    assert((q * i) * d == q * (d * i)) by(nonlinear_arith);
}
proof fn lemma_p_odd() ensures PP() % 2 == 1 { reveal(PP); }
/// two points of the curve with the same x are equal or opposite
proof fn lemma_same_x(x: int, y1: int, y2: int)
    requires on(Aff::P(x, y1)), on(Aff::P(x, y2)), y1 != y2, ensures (y1 + y2) % PP() == 0
{
    lemma_pp(); let m = PP();
    csub(y1 * y1, y2 * y2, y2 * y2, y2 * y2, m);
    assert((y1 - y2) * (y1 + y2) == y1 * y1 - y2 * y2) by(nonlinear_arith);
    if (y1 + y2) % m != 0 {
        csmall(0, m); assert(0 * (y1 + y2) == 0);
        lemma_cancel(y1 - y2, 0, y1 + y2, m);
        cadd(y1 - y2, 0, y2, y2, m); csmall(y1, m); csmall(y2, m);
    }
}
spec fn jadd_xyz(x1: int, y1: int, z1: int, x2: int, y2: int, z2: int, m: int) -> (int, int, int) {
    let u1 = (x1 * (z2 * z2)) % m; let u2 = (x2 * (z1 * z1)) % m; let s1 = (y1 * (z2 * z2 * z2)) % m; let s2 = (y2 * (z1 * z1 * z1)) % m;
    let h = (u2 - u1) % m; let r = (s2 - s1) % m; let h2 = (h * h) % m; let h3 = (h * h2) % m; let v = (u1 * h2) % m;
    let jx = (r * r - h3 - 2 * v) % m;
    (jx, (r * (v - jx) - s1 * h3) % m, (h * z1 * z2) % m)
}
spec fn jdbl_xyz(x: int, y: int, z: int, a: int, m: int) -> (int, int, int) {
    let ysq = y * y; let s = (x * 4 * ysq) % m; let mm = (x * x * 3 + a * ((z * z) * (z * z))) % m;
    let nx = (mm * mm - 2 * s) % m;
    (nx, (mm * (s - nx) - 8 * (ysq * ysq)) % m, (y * z * 2) % m)
}
/// doubling a point (not infinity)
proof fn lemma_jdbl(x: int, y: int, z: int)
    requires wf(x, y, z), y != 0,
    ensures ({ let (a, b, c) = jdbl_xyz(x, y, z, CA(), PP()); wf(a, b, c) && aff(a, b, c) == padd(aff(x, y, z), aff(x, y, z)) }),
{
    lemma_pp(); lemma_p_odd(); let m = PP();
    lemma_aff_rep(x, y, z);
    let ax = (x * sq(finv(z, m))) % m; let ay = (y * cu(finv(z, m))) % m;
    lemma_y_nz(ax, ay);
    lemma_slope_tangent(ax, ay);
    let l = slope(ax, ay, ax, ay);
    if (ay + ay) % m == 0 {
        if 2 * ay < m { csmall(2 * ay, m); } else { ceq(2 * ay, 2 * ay - m, 1, m); csmall(2 * ay - m, m); }
        assert(2 * ay != m); assert(false);
    }
    lemma_double(ax, ay, x, y, z, l, CA(), m);
    let (nx, ny, nz) = jdbl_xyz(x, y, z, CA(), m);
    axiom_closed(aff(x, y, z), aff(x, y, z));
    let s = padd(aff(x, y, z), aff(x, y, z));
    let x3 = (l * l - ax - ax) % m; let y3 = (l * (ax - x3) - ay) % m;
    assert(s == Aff::P(x3, y3));
    lemma_y_nz(x3, y3);
    csmall(y, m); csmall(z, m); csmall(2, m);
    lemma_nz(y, z, m); lemma_nz(y * z, 2, m);
    lemma_rep_aff(nx, ny, nz, x3, y3);
}
/// what u1 = u2 and s1 = s2 mean
proof fn lemma_jcmp(x1: int, y1: int, z1: int, x2: int, y2: int, z2: int)
    requires wf(x1, y1, z1), wf(x2, y2, z2), y1 != 0, y2 != 0,
    ensures ({ let m = PP();
        let a = aff(x1, y1, z1); let b = aff(x2, y2, z2);
        let u1 = (x1 * (z2 * z2)) % m; let u2 = (x2 * (z1 * z1)) % m; let s1 = (y1 * (z2 * z2 * z2)) % m; let s2 = (y2 * (z1 * z1 * z1)) % m;
        &&& (a->P_0 == b->P_0 <==> u1 == u2)
        &&& (a->P_1 == b->P_1 <==> s1 == s2)
        &&& u1 % m == (a->P_0 * sq(z1 * z2)) % m &&& u2 % m == (b->P_0 * sq(z1 * z2)) % m &&& s1 % m == (a->P_1 * cu(z1 * z2)) % m &&& s2 % m == (b->P_1 * cu(z1 * z2)) % m }),
{
    lemma_pp(); let m = PP(); let w = z1 * z2;
    lemma_aff_rep(x1, y1, z1); lemma_aff_rep(x2, y2, z2);
    let a = aff(x1, y1, z1); let b = aff(x2, y2, z2);
    csmall(z1, m); csmall(z2, m); lemma_nz(z1, z2, m); lemma_nz(w, w, m); lemma_nz(w * w, w, m);
    cred(x1 * (z2 * z2), m); cred(x2 * (z1 * z1), m); cred(y1 * (z2 * z2 * z2), m); cred(y2 * (z1 * z1 * z1), m);
    cmul(x1, a->P_0 * sq(z1), z2 * z2, z2 * z2, m); cmul(x2, b->P_0 * sq(z2), z1 * z1, z1 * z1, m);
    cmul(y1, a->P_1 * cu(z1), z2 * z2 * z2, z2 * z2 * z2, m); cmul(y2, b->P_1 * cu(z2), z1 * z1 * z1, z1 * z1 * z1, m);
    lemma_sqw(a->P_0, z1, z2); lemma_sqw(b->P_0, z2, z1); lemma_sqw(a->P_1, z1, z2); lemma_sqw(b->P_1, z2, z1);
    assert(z2 * z1 == w) by(nonlinear_arith) requires w == z1 * z2;
    let u1 = (x1 * (z2 * z2)) % m; let u2 = (x2 * (z1 * z1)) % m; let s1 = (y1 * (z2 * z2 * z2)) % m; let s2 = (y2 * (z1 * z1 * z1)) % m;
    if u1 == u2 { lemma_cancel(a->P_0, b->P_0, sq(w), m); csmall(a->P_0, m); csmall(b->P_0, m); }
    if s1 == s2 { lemma_cancel(a->P_1, b->P_1, cu(w), m); csmall(a->P_1, m); csmall(b->P_1, m); }
}
proof fn lemma_sqw(x: int, z1: int, z2: int)
    ensures (x * sq(z1)) * (z2 * z2) == x * sq(z1 * z2), (x * cu(z1)) * (z2 * z2 * z2) == x * cu(z1 * z2)
{
    assert((x * (z1 * z1)) * (z2 * z2) == x * ((z1 * z2) * (z1 * z2))) by(nonlinear_arith);
    assert((x * (z1 * z1 * z1)) * (z2 * z2 * z2) == x * ((z1 * z2) * (z1 * z2) * (z1 * z2))) by(nonlinear_arith);
}
proof fn lemma_jadd(x1: int, y1: int, z1: int, x2: int, y2: int, z2: int)
    requires wf(x1, y1, z1), wf(x2, y2, z2), y1 != 0, y2 != 0,
    ensures ({
        let m = PP(); let a = aff(x1, y1, z1); let b = aff(x2, y2, z2);
        let u1 = (x1 * (z2 * z2)) % m; let u2 = (x2 * (z1 * z1)) % m; let s1 = (y1 * (z2 * z2 * z2)) % m; let s2 = (y2 * (z1 * z1 * z1)) % m;
        let (jx, jy, jz) = jadd_xyz(x1, y1, z1, x2, y2, z2, m);
        &&& u1 == u2 && s1 == s2 ==> a == b
        &&& u1 == u2 && s1 != s2 ==> padd(a, b) == Aff::O
        &&& u1 != u2 ==> wf(jx, jy, jz) && aff(jx, jy, jz) == padd(a, b) }),
{
    lemma_pp(); let m = PP();
    lemma_aff_rep(x1, y1, z1); lemma_aff_rep(x2, y2, z2); lemma_jcmp(x1, y1, z1, x2, y2, z2);
    let a = aff(x1, y1, z1); let b = aff(x2, y2, z2);
    let (ax, ay) = (a->P_0, a->P_1); let (bx, by_) = (b->P_0, b->P_1);
    assert(a == Aff::P(ax, ay) && b == Aff::P(bx, by_));
    let u1 = (x1 * (z2 * z2)) % m; let u2 = (x2 * (z1 * z1)) % m; let s1 = (y1 * (z2 * z2 * z2)) % m; let s2 = (y2 * (z1 * z1 * z1)) % m;
    if u1 == u2 { if s1 != s2 { lemma_same_x(ax, ay, by_); } }
    else {
        lemma_slope_chord(ax, ay, bx, by_);
        let l = slope(ax, ay, bx, by_);
        lemma_chord(ax, ay, bx, by_, z1, z2, l, u1, u2, s1, s2, m);
        let (jx, jy, jz) = jadd_xyz(x1, y1, z1, x2, y2, z2, m);
        axiom_closed(a, b);
        let x3 = (l * l - ax - bx) % m; let y3 = (l * (ax - x3) - ay) % m;
        assert(padd(a, b) == Aff::P(x3, y3));
        lemma_y_nz(x3, y3);
        // z is not zero
        let h = (u2 - u1) % m;
        if h == 0 { csmall(0, m); cadd(u2 - u1, 0, u1, u1, m); csmall(u1, m); csmall(u2, m); assert(false); }
        cred(u2 - u1, m); csmall(z1, m); csmall(z2, m); csmall(h, m);
        lemma_nz(h, z1, m); lemma_nz(h * z1, z2, m);
        lemma_rep_aff(jx, jy, jz, x3, y3);
    }
}
