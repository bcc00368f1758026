//@item crypto/ellipticcurve/curve.rs enum Equation
//@item crypto/ellipticcurve/point.rs struct Point
//@item crypto/ellipticcurve/curve.rs struct Curve
impl Clone for Point { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for Curve { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
/// the curve is P-256
spec fn is_p256(c: Curve) -> bool {
    &&& c.equation is ShortWeierstrass &&& c.p.v@ == PP() &&& c.a.v@ == CA() &&& c.b.v@ == CB() &&& c.n.v@ == NN() &&& c.g.x.v@ == GX() &&& c.g.y.v@ == GY()
}
/// a Point object as a point; (0, 0) is infinity
spec fn apt(p: Point) -> Aff { if p.x.v@ == 0 && p.y.v@ == 0 { Aff::O } else { Aff::P(p.x.v@, p.y.v@) } }
/// the Point object that stands for a
spec fn is_pt(p: Point, a: Aff) -> bool { match a { Aff::O => p.x.v@ == 0 && p.y.v@ == 0, Aff::P(x, y) => p.x.v@ == x && p.y.v@ == y } }
