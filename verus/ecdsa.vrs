//@include head.inc
//@include ibig.inc
//@include ecc_spec.inc
//@include ecc_lemmas.inc
//@include ecc_group.inc
//@include ecc_types.inc
//@include bytes_spec.inc
//@include bytes_contract.inc
//@include ecdsa_spec.inc
//@item crypto/ellipticcurve/signature.rs struct Signature nodisc
//@item crypto/ellipticcurve/publickey.rs struct PublicKey
//@item crypto/ellipticcurve/privatekey.rs struct PrivateKey
//TRUST-GROUP contracts of math::inv, rem_euclid, multiply, add and Curve::contains (proved in unit ecc, check P11)
#[allow(non_camel_case_types)]
struct math {}
impl math {
    #[verifier::external_body]
    fn inv(x: &IBig, n: &IBig) -> (r: IBig)
        requires is_prime(n.v@), x.v@ >= 0,
        ensures x.v@ % n.v@ != 0 ==> r.v@ == finv(x.v@, n.v@) && 0 <= r.v@ < n.v@ && (x.v@ * r.v@) % n.v@ == 1, x.v@ == 0 ==> r.v@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    fn rem_euclid(x: &IBig, v: &IBig) -> (r: IBig)
        requires v.v@ > 0, ensures r.v@ == x.v@ % v.v@, 0 <= r.v@ < v.v@,
    { unimplemented!() }
    #[verifier::external_body]
    fn add(p: Point, q: Point, curve: &Curve) -> (r: Point)
        requires is_p256(*curve), on(apt(p)), on(apt(q)),
        ensures is_pt(r, padd(apt(p), apt(q))), apt(r) == padd(apt(p), apt(q)), on(apt(r)),
    { unimplemented!() }
    #[verifier::external_body]
    fn multiply(p: &Point, n: IBig, curve: &Curve) -> (r: Point)
        requires is_p256(*curve), on(apt(*p)), n.v@ >= 0,
        ensures is_pt(r, smul(n.v@, apt(*p))), apt(r) == smul(n.v@, apt(*p)), on(apt(r)),
    { unimplemented!() }
}
impl Curve {
    #[verifier::external_body]
    fn contains(&self, p: &Point) -> (r: bool)
        requires is_p256(*self), p.x.v@ >= 0, p.y.v@ >= 0,
        ensures r == on(Aff::P(p.x.v@, p.y.v@)),
    { unimplemented!() }
}
impl Point {
    #[verifier::external_body]
    fn eq(&self, o: &Point) -> (r: bool) ensures r == (self.x.v@ == o.x.v@ && self.y.v@ == o.y.v@), { unimplemented!() }
}
//TRUST-END
//TRUST-GROUP Box<dyn RngCore<IBig>> is replaced by an object whose between(1, 32) returns some number below 2^256 (proved for both generators by P25)
struct VxRng { _x: u8 }
impl VxRng {
    #[verifier::external_body]
    fn between(&mut self, min: usize, max: usize) -> (r: IBig) ensures 0 <= r.v@ < ipow2(8 * (max as int)), { unimplemented!() }
}
//TRUST-END
spec fn is_xr(a: Aff, r: int) -> bool { match a { Aff::O => false, Aff::P(x, y) => x % NN() == r } }
struct Ecdsa { rng: VxRng }
proof fn lemma_b_nz() ensures !on(Aff::P(0, 0)) { lemma_pp(); csmall(0, PP()); csmall(CB(), PP()); assert(CA() * 0 == 0); }
/// nor is (n, n)
proof fn lemma_nn_off() ensures !on(Aff::P(NN(), NN()))
{
    reveal(PP); reveal(NN); reveal(CA); reveal(CB);
    assert(!on(Aff::P(NN(), NN()))) by(compute);
}
proof fn lemma_n_len(v: Seq<u8>)
    requires bei(v) == NN(), v.len() > 0 ==> v[0] != 0, ensures v.len() == 32
{
    lemma_be_bound(v); lemma_pp();
    assert(ipow2(248) < NN() && NN() < ipow2(256)) by { reveal(NN); assert(ipow2(248) == {{HEX:100000000000000000000000000000000000000000000000000000000000000}} && ipow2(256) == {{HEX:10000000000000000000000000000000000000000000000000000000000000000}}) by(compute_only); }
    let n = v.len() as int;
    if n == 0 { assert(bei(v) == 0); }
    if n < 32 { lemma_ipow2_add(8 * n, 248 - 8 * n); assert(ipow2(248) >= ipow2(8 * n)) by(nonlinear_arith) requires ipow2(248) == ipow2(8 * n) * ipow2(248 - 8 * n), ipow2(8 * n) > 0, ipow2(248 - 8 * n) > 0; }
    if n > 32 {
        lemma_be_digit(v, 0); lemma_ipow2_add(256, 8 * (n - 1) - 256);
        assert(ipow2(8 * (n - 1)) >= ipow2(256)) by(nonlinear_arith) requires ipow2(8 * (n - 1)) == ipow2(256) * ipow2(8 * (n - 1) - 256), ipow2(256) > 0, ipow2(8 * (n - 1) - 256) > 0;
        assert(bei(v) / ipow2(8 * (n - 1)) == 0) by(nonlinear_arith) requires 0 <= bei(v) < ipow2(8 * (n - 1));
    }
}
/// a signature made with the nonce k is valid
proof fn lemma_sign(d: int, k: int, z: int, r: int, s: int, q: Aff)
    requires 0 <= d, k >= 0, k % NN() != 0, z >= 0, 0 < r < NN(), 0 < s < NN(), q == smul(d, gen()),
        s == ((z + r * d) * finv(k, NN())) % NN(),
    ensures ecdsa_sum(q, r, s, z) == smul(k, gen()),
{
    lemma_pp(); lemma_on_gen(); let n = NN();
    csmall(s, n); lemma_finv(s, n); lemma_finv(k, n);
    let w = finv(s, n); let i = finv(k, n); let e = z + r * d;
    let u1 = (z * w) % n; let u2 = (r * w) % n;
    assert(z * w >= 0 && r * w >= 0) by(nonlinear_arith) requires z >= 0, w >= 0, r > 0;
    vstd::arithmetic::div_mod::lemma_mod_bound(z * w, n); vstd::arithmetic::div_mod::lemma_mod_bound(r * w, n);
    assert(u2 * d >= 0) by(nonlinear_arith) requires u2 >= 0, d >= 0;
    lemma_smul_mul(u2, d, gen()); lemma_smul_add(u1, u2 * d, gen());
    // s * k = e
    cmul(s, e * i, k, k, n); assert((e * i) * k == e * (k * i)) by(nonlinear_arith);
    csmall(1, n); cmul(e, e, k * i, 1, n); assert(e * 1 == e);
    assert((s * k) % n == e % n);
    // e * w = k
    cmul(s * k, e, w, w, n); assert((s * k) * w == k * (s * w)) by(nonlinear_arith);
    cmul(k, k, s * w, 1, n); assert(k * 1 == k);
    assert((e * w) % n == k % n);
    // u1 + u2 * d = e * w
    cred(z * w, n); cred(r * w, n); cmul(u2, r * w, d, d, n); cadd(u1, z * w, u2 * d, (r * w) * d, n);
    assert(z * w + (r * w) * d == e * w) by(nonlinear_arith) requires e == z + r * d;
    lemma_smul_mod(u1 + u2 * d, gen()); lemma_smul_mod(k, gen());
}
//@fn crypto/ellipticcurve/ecdsa.rs fn leftmost_bits
//@ret r
//@subst `bytes::ByteOrder::` => `ByteOrder::` opt all
//@spec
    requires is_p256(*curve), hashed_message@.len() < 0x1000_0000_0000_0000,
    ensures r.v@ == lmb(hashed_message@), r.v@ >= 0,
//@start
    proof {
        lemma_pp();
        assert forall|v: Seq<u8>| #[trigger] bei(v) == NN() && (v.len() > 0 ==> v[0] != 0) implies v.len() == 32 by { lemma_n_len(v); }
        assert forall|v: Seq<u8>| #[trigger] bei(v) >= 0 by { lemma_be_bound(v); }
        if hashed_message@.len() <= 32 { assert(hashed_message@.subrange(0, hashed_message@.len() as int) =~= hashed_message@); }
    }
//@endfn
impl PublicKey {
//@fn crypto/ellipticcurve/publickey.rs impl PublicKey :: fn new
//@ret r
//@spec
    ensures r.point == point, r.curve == curve,
//@endfn
}
impl Signature {
//@fn crypto/ellipticcurve/signature.rs impl Signature :: fn new
//@ret z
//@spec
    ensures z.r == r, z.s == s,
//@endfn
}
impl Point {
//@fn crypto/ellipticcurve/point.rs impl Point :: fn new
//@ret r
//@spec
    ensures r.x == x, r.y == y,
//@endfn
}
impl PrivateKey {
//@fn crypto/ellipticcurve/privatekey.rs impl PrivateKey :: fn new
//@ret r
//@spec
    ensures r.curve == curve, r.secret == secret,
//@endfn
//@fn crypto/ellipticcurve/privatekey.rs impl PrivateKey :: fn get_public_key
//@ret r
//@spec
    requires is_p256(self.curve), self.secret.v@ >= 0,
    ensures r.curve == self.curve, apt(r.point) == smul(self.secret.v@, gen()), is_pt(r.point, smul(self.secret.v@, gen())),
//@start
    proof { lemma_pp(); lemma_on_gen(); }
//@endfn
}
impl Ecdsa {
//@fn crypto/ellipticcurve/ecdsa.rs impl Ecdsa :: fn verify
//@ret ok
//@spec
    requires is_p256(pub_key.curve), pub_key.point.x.v@ >= 0, pub_key.point.y.v@ >= 0, hashed_message@.len() < 0x1000_0000_0000_0000,
    ensures ok == ecdsa_def((pub_key.point.x.v@, pub_key.point.y.v@), sign.r.v@, sign.s.v@, hashed_message@),
//@start
    proof {
        lemma_pp(); lemma_on_gen(); lemma_b_nz(); lemma_nn_off();
        let n = NN(); let r = sign.r.v@; let s = sign.s.v@;
        csmall(0, n);
        if 0 < s < n { csmall(s, n); lemma_finv(s, n); }
        if 0 < r < n { csmall(r, n); }
        assert forall|a: int| 0 <= #[trigger] (a % n) < n by { vstd::arithmetic::div_mod::lemma_mod_bound(a, n); }
        assert(n < PP());
    }
//@endfn
//@fn crypto/ellipticcurve/ecdsa.rs impl Ecdsa :: fn sign
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@subst `let mut r;` => `let mut r: IBig;` opt
//@subst `let mut s;` => `let mut s: IBig;` opt
//@spec
    requires is_p256(privkey.curve), 0 <= privkey.secret.v@, hashed_message@.len() < 0x1000_0000_0000_0000,
    ensures res is Ok, 0 < (res->Ok_0).r.v@ < NN(), 0 < (res->Ok_0).s.v@ < NN(),
        smul(privkey.secret.v@, gen()) matches Aff::P(qx, qy) ==> ecdsa_def((qx, qy), (res->Ok_0).r.v@, (res->Ok_0).s.v@, hashed_message@),
//@start
    let ghost sec = privkey.secret.v@;
    let ghost zz = lmb(hashed_message@);
    proof {
        lemma_pp(); lemma_on_gen(); csmall(0, NN());
        lemma_smul_on(sec, gen());
        assert forall|k: int, r: int| #![trigger ((zz + r * sec) * finv(k, NN())) % NN()] k >= 0 && k % NN() != 0 && 0 < r < NN() && 0 < ((zz + r * sec) * finv(k, NN())) % NN() && zz >= 0
            implies ecdsa_sum(smul(sec, gen()), r, ((zz + r * sec) * finv(k, NN())) % NN(), zz) == smul(k, gen())
        by { vstd::arithmetic::div_mod::lemma_mod_bound((zz + r * sec) * finv(k, NN()), NN()); lemma_sign(sec, k, zz, r, ((zz + r * sec) * finv(k, NN())) % NN(), smul(sec, gen())); }
        // the same sum and product written in another order
        assert forall|k: int, r: int| #[trigger] (((r * sec + zz) * finv(k, NN())) % NN()) == ((zz + r * sec) * finv(k, NN())) % NN() by { }
        assert forall|k: int, r: int| #[trigger] (((zz + sec * r) * finv(k, NN())) % NN()) == ((zz + r * sec) * finv(k, NN())) % NN() by { assert(sec * r == r * sec) by(nonlinear_arith); }
        assert forall|k: int, r: int| #[trigger] ((finv(k, NN()) * (zz + r * sec)) % NN()) == ((zz + r * sec) * finv(k, NN())) % NN() by { assert(finv(k, NN()) * (zz + r * sec) == (zz + r * sec) * finv(k, NN())) by(nonlinear_arith); }
        assert forall|k: int| k >= 0 && #[trigger] smul(k, gen()) != Aff::O implies k % NN() != 0 by { lemma_smul_mod(k, gen()); }
    }
//@loop 0
    invariant true,
//@before `break;` opt
    proof { assert(ecdsa_sum(smul(sec, gen()), r.v@, s.v@, zz) == smul(k.v@, gen()) && is_xr(smul(k.v@, gen()), r.v@)); }
//@endfn
}
}
fn main() {}
