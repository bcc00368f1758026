//@include head.inc
//@include ibig.inc
//@include ecc_spec.inc
//@include ecc_lemmas.inc
//@include ecc_group.inc
//@include ecc_types.inc
//@item crypto/ellipticcurve/point.rs struct JacobianPoint
impl Clone for JacobianPoint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
spec fn jwf(j: JacobianPoint) -> bool { wf(j.x.v@, j.y.v@, j.z.v@) }
spec fn jaff(j: JacobianPoint) -> Aff { aff(j.x.v@, j.y.v@, j.z.v@) }
proof fn lemma_ipow()
    ensures forall|a: int| #[trigger] ipow(a, 2) == a * a, forall|a: int| #[trigger] ipow(a, 3) == a * a * a, forall|a: int| #[trigger] ipow(a, 4) == (a * a) * (a * a),
{
    assert forall|a: int| #[trigger] ipow(a, 2) == a * a by { reveal_with_fuel(ipow, 5); }
    assert forall|a: int| #[trigger] ipow(a, 3) == a * a * a by { reveal_with_fuel(ipow, 5); assert(a * (a * (a * 1)) == a * a * a) by(nonlinear_arith); }
    assert forall|a: int| #[trigger] ipow(a, 4) == (a * a) * (a * a) by { reveal_with_fuel(ipow, 5); assert(a * (a * (a * (a * 1))) == (a * a) * (a * a)) by(nonlinear_arith); }
}
// the other equation's branch is not reached under the contracts below (unit x25519, check P10)
#[derive(PartialEq, Eq, Structural)]
enum ByteOrder { Little, Big }
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
    #[verifier::external_body] fn to_ibig_be(b: &[u8]) -> (r: IBig) { unimplemented!() }
    #[verifier::external_body] fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> (r: [u8; 32]) { unimplemented!() }
}
#[allow(non_camel_case_types)]
struct curve25519 {}
impl curve25519 { #[verifier::external_body] fn scalarmult(p: [u8; 32], k: &[u8; 32]) -> [u8; 32] { unimplemented!() } }
#[verifier::external_body]
fn vx_pt_eq(a: &Point, b: &Point) -> (r: bool) ensures r == (a.x.v@ == b.x.v@ && a.y.v@ == b.y.v@), { unimplemented!() }
//@fn crypto/ellipticcurve/math.rs fn rem_euclid
//@ret r
//@spec
    requires v.v@ > 0,
    ensures r.v@ == x.v@ % v.v@, 0 <= r.v@ < v.v@,
//@start
    proof { lemma_trem(x.v@, v.v@); vstd::arithmetic::div_mod::lemma_mod_bound(x.v@, v.v@); }
//@endfn
proof fn lemma_trem(x: int, v: int)
    requires v > 0,
    ensures x >= 0 ==> trem(x, v) == x % v, x < 0 ==> (trem(x, v) == 0 && x % v == 0) || (trem(x, v) < 0 && trem(x, v) + v == x % v),
{
    if x < 0 {
        let a = (-x) % v; let q = (-x) / v;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-x, v); vstd::arithmetic::div_mod::lemma_mod_bound(-x, v);
        if a == 0 {
            assert(x == v * (-q)) by(nonlinear_arith) requires -x == v * q + a, a == 0;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, v, -q, 0);
        } else {
            assert(x == v * (-q - 1) + (v - a)) by(nonlinear_arith) requires -x == v * q + a;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, v, -q - 1, v - a);
        }
    }
}
//@fn crypto/ellipticcurve/math.rs fn inv
//@ret r
//@spec
    requires is_prime(n.v@), x.v@ >= 0,
    ensures x.v@ % n.v@ != 0 ==> r.v@ == finv(x.v@, n.v@) && 0 <= r.v@ < n.v@ && (x.v@ * r.v@) % n.v@ == 1, x.v@ == 0 ==> r.v@ == 0,
//@before 0
    let ghost mut al: int = 0;
    let ghost mut be: int = 1;
    proof {
        let m = n.v@; cred(x.v@, m); lemma_trem(x.v@, m);
        vstd::arithmetic::div_mod::lemma_mod_bound(x.v@, m); vstd::arithmetic::div_mod::lemma_mod_self_0(m); csmall(0, m);
        assert(0 * x.v@ == 0 && 1 * x.v@ == x.v@ && 0 * low.v@ == 0 && 1 * m == m);
    }
//@loop 0
    invariant
        is_prime(n.v@), n.v@ > 1, euc(x.v@, n.v@, low.v@, high.v@, lm.v@, hm.v@, al, be), x.v@ % n.v@ != 0 && low.v@ == 0 ==> 1 < high.v@ < n.v@,
    decreases low.v@
//@in 0 start
    proof {
        lemma_euc_step(x.v@, n.v@, low.v@, high.v@, lm.v@, hm.v@, al, be);
        vstd::arithmetic::div_mod::lemma_mod_bound(high.v@, low.v@);
        let nal = be; be = al + be * (high.v@ / low.v@); al = nal;
    }
//@end
    proof {
        let m = n.v@; let v = lm.v@;
        if x.v@ % m != 0 {
            lemma_euc_end(x.v@, m, low.v@, high.v@, v, hm.v@, al, be);
            cred(v, m); vstd::arithmetic::div_mod::lemma_mod_bound(v, m); cmul(x.v@, x.v@, v, v % m, m);
            assert(v * x.v@ == x.v@ * v) by(nonlinear_arith);
            lemma_inv_unique(x.v@, v % m, m);
        }
    }
//@endfn
#[allow(non_camel_case_types)]
struct math {}
impl math {
    fn inv(x: &IBig, n: &IBig) -> (r: IBig)
        requires is_prime(n.v@), x.v@ >= 0,
        ensures x.v@ % n.v@ != 0 ==> r.v@ == finv(x.v@, n.v@) && 0 <= r.v@ < n.v@ && (x.v@ * r.v@) % n.v@ == 1, x.v@ == 0 ==> r.v@ == 0,
    { inv(x, n) }
}
impl JacobianPoint {
//@fn crypto/ellipticcurve/point.rs impl JacobianPoint :: fn new
//@ret r
//@spec
    ensures r.x.v@ == x as int, r.y.v@ == y as int, r.z.v@ == z as int,
//@endfn
//@fn crypto/ellipticcurve/point.rs impl JacobianPoint :: fn from_point
//@ret r
//@spec
    requires on(apt(p)),
    ensures jwf(r), jaff(r) == apt(p),
//@start
    proof {
        lemma_pp();
        if apt(p) != Aff::O {
            lemma_y_nz(p.x.v@, p.y.v@);
            assert(1int * 1 == 1); assert(sq(1) == 1 && cu(1) == 1);
            assert(p.x.v@ * sq(1) == p.x.v@ && p.y.v@ * cu(1) == p.y.v@);
            lemma_rep_aff(p.x.v@, p.y.v@, 1, p.x.v@, p.y.v@);
        }
    }
//@endfn
//@fn crypto/ellipticcurve/point.rs impl JacobianPoint :: fn to_point
//@ret r
//@spec
    requires jwf(*self), p.v@ == PP(),
    ensures is_pt(r, jaff(*self)), apt(r) == jaff(*self),
//@start
    proof {
        lemma_pp(); lemma_ipow(); lemma_b_nz();
        csmall(self.z.v@, PP());
        if self.y.v@ != 0 {
            let i = finv(self.z.v@, PP()); lemma_finv(self.z.v@, PP());
            assert(i * i >= 0 && i * i * i >= 0) by(nonlinear_arith) requires i >= 0;
            assert(self.x.v@ * (i * i) >= 0) by(nonlinear_arith) requires self.x.v@ >= 0, i * i >= 0;
            assert(self.y.v@ * (i * i * i) >= 0) by(nonlinear_arith) requires self.y.v@ >= 0, i * i * i >= 0;
        } else { assert(forall|k: int| #[trigger] (0 * k) == 0); csmall(0, PP()); }
    }
//@endfn
}
/// (0, 0) is not on the curve
proof fn lemma_b_nz() ensures !on(Aff::P(0, 0)) { lemma_pp(); csmall(0, PP()); csmall(CB(), PP()); assert(CA() * 0 == 0); }
//@fn crypto/ellipticcurve/math/jacobian.rs fn jacobian_double
//@ret r
//@spec
    requires is_p256(*curve), jwf(*p),
    ensures jwf(r), jaff(r) == padd(jaff(*p), jaff(*p)),
//@start
    proof {
        lemma_pp(); lemma_ipow();
        if p.y.v@ != 0 { lemma_jdbl(p.x.v@, p.y.v@, p.z.v@); }
    }
//@endfn
//@fn crypto/ellipticcurve/math/jacobian.rs fn jacobian_add
//@ret r
//@spec
    requires is_p256(*curve), jwf(*p), jwf(*q),
    ensures jwf(r), jaff(r) == padd(jaff(*p), jaff(*q)),
//@start
    proof {
        lemma_pp(); lemma_ipow();
        if p.y.v@ != 0 && q.y.v@ != 0 { lemma_jadd(p.x.v@, p.y.v@, p.z.v@, q.x.v@, q.y.v@, q.z.v@); }
    }
//@endfn
//@fn crypto/ellipticcurve/math/jacobian.rs fn jacobian_multiply
//@ret r
//@spec
    requires is_p256(*curve), jwf(*p), n.v@ >= 0,
    ensures jwf(r), jaff(r) == smul(n.v@, jaff(*p)),
    decreases n.v@
//@start
    proof {
        lemma_pp(); let a = jaff(*p);
        lemma_smul1(a); lemma_smul_o(n.v@); lemma_smul_mod(n.v@, a);
        vstd::arithmetic::div_mod::lemma_mod_bound(n.v@, NN());
        let h = n.v@ / 2;
        lemma_smul_add(h, h, a);
        if n.v@ > 0 && n.v@ % 2 == 1 { assert(smul(n.v@, a) == padd(smul(n.v@ - 1, a), a)); assert(n.v@ - 1 == h + h); }
        if n.v@ >= 0 && n.v@ % 2 == 0 { assert(n.v@ == h + h); }
    }
//@endfn
//@fn crypto/ellipticcurve/math.rs fn add
//@ret r
//@subst `todo!()` => `unreached()` opt
//@spec
    requires is_p256(*curve), on(apt(p)), on(apt(q)),
    ensures is_pt(r, padd(apt(p), apt(q))), apt(r) == padd(apt(p), apt(q)), on(apt(r)),
//@start
    proof { axiom_closed(apt(p), apt(q)); }
//@endfn
#[verifier::external_body]
fn unreached() -> (r: Point) requires false, { unimplemented!() }
//@fn crypto/ellipticcurve/math.rs fn multiply
//@ret r
//@subst `*p == curve.g` => `vx_pt_eq(p, &curve.g)` opt
//@subst `*p != curve.g` => `!vx_pt_eq(p, &curve.g)` opt
//@subst `bytes::ByteOrder::` => `ByteOrder::` opt all
//@spec
    requires is_p256(*curve), on(apt(*p)), n.v@ >= 0,
    ensures is_pt(r, smul(n.v@, apt(*p))), apt(r) == smul(n.v@, apt(*p)), on(apt(r)),
//@start
    proof { lemma_smul_on(n.v@, apt(*p)); }
//@endfn
impl Curve {
//@fn crypto/ellipticcurve/curve.rs impl Curve :: fn secp256r1
//@ret r
//@spec
    ensures is_p256(r), on(apt(r.g)),
//@start
    proof { lemma_on_gen(); lemma_pp(); reveal(PP); reveal(NN); reveal(CA); reveal(CB); reveal(GX); reveal(GY); }
//@endfn
//@fn crypto/ellipticcurve/curve.rs impl Curve :: fn contains
//@ret r
//@spec
    requires is_p256(*self), p.x.v@ >= 0, p.y.v@ >= 0,
    ensures r == on(Aff::P(p.x.v@, p.y.v@)),
//@start
    proof {
        lemma_pp(); lemma_ipow();
        let x = p.x.v@; let y = p.y.v@; let a = CA();
        assert(y * y >= 0 && x * x * x >= 0 && a * x >= 0) by(nonlinear_arith) requires x >= 0, y >= 0, a > 0;
    }
//@endfn
}
}
fn main() {}
