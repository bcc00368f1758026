// ---- P-256 (SEC 2, FIPS 186-4 D.1.2.3) and its group law on affine points ----
#[verifier::opaque]
pub open spec fn PP() -> int { {{HEX:ffffffff00000001000000000000000000000000ffffffffffffffffffffffff}} }
#[verifier::opaque]
pub open spec fn NN() -> int { {{HEX:ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551}} }
#[verifier::opaque]
pub open spec fn CA() -> int { {{HEX:ffffffff00000001000000000000000000000000fffffffffffffffffffffffc}} }
#[verifier::opaque]
pub open spec fn CB() -> int { {{HEX:5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b}} }
#[verifier::opaque]
pub open spec fn GX() -> int { {{HEX:6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296}} }
#[verifier::opaque]
pub open spec fn GY() -> int { {{HEX:4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5}} }
pub enum Aff { O, P(int, int) }
pub open spec fn on(a: Aff) -> bool {
    match a { Aff::O => true, Aff::P(x, y) => 0 <= x < PP() && 0 <= y < PP() && (y * y) % PP() == (x * x * x + CA() * x + CB()) % PP() }
}
pub open spec fn is_prime(n: int) -> bool { n > 1 && forall|d: int| 1 < d < n ==> #[trigger] (n % d) != 0 }
/// the inverse of x modulo m
#[verifier::opaque]
pub open spec fn finv(x: int, m: int) -> int { choose|v: int| 0 <= v < m && (#[trigger] (x * v)) % m == 1 }
pub open spec fn slope(x1: int, y1: int, x2: int, y2: int) -> int {
    if x1 == x2 { ((3 * x1 * x1 + CA()) * finv((2 * y1) % PP(), PP())) % PP() } else { ((y2 - y1) * finv((x2 - x1) % PP(), PP())) % PP() }
}
/// the group law
pub open spec fn padd(a: Aff, b: Aff) -> Aff {
    match a { Aff::O => b, Aff::P(x1, y1) => match b { Aff::O => a, Aff::P(x2, y2) =>
        if x1 == x2 && (y1 + y2) % PP() == 0 { Aff::O } else {
            let l = slope(x1, y1, x2, y2);
            let x3 = (l * l - x1 - x2) % PP();
            Aff::P(x3, (l * (x1 - x3) - y1) % PP())
        } } }
}
/// n times a
pub open spec fn smul(n: int, a: Aff) -> Aff decreases n { if n <= 0 { Aff::O } else { padd(smul(n - 1, a), a) } }
pub open spec fn gen() -> Aff { Aff::P(GX(), GY()) }
// mathematics that is taken as given: p and n are prime, addition is closed and associative on the curve, and the group has n elements
proof fn axiom_prime() ensures is_prime(PP()), is_prime(NN()) { admit(); }
proof fn axiom_closed(a: Aff, b: Aff) requires on(a), on(b), ensures on(padd(a, b)) { admit(); }
proof fn axiom_assoc(a: Aff, b: Aff, c: Aff) requires on(a), on(b), on(c), ensures padd(padd(a, b), c) == padd(a, padd(b, c)) { admit(); }
proof fn axiom_order(a: Aff) requires on(a), ensures smul(NN(), a) == Aff::O { admit(); }
