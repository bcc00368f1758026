// ---- contract of math::multiply on Curve25519: unit curve25519 (check P10), assumed here ----
/// RFC 7748 X25519(k, u)
pub uninterp spec fn x25519_s(k: Seq<u8>, u: Seq<u8>) -> Seq<u8>;
proof fn axiom_x25519_len(k: Seq<u8>, u: Seq<u8>) ensures x25519_s(k, u).len() == 32 { admit(); }
#[allow(non_camel_case_types)]
struct math {}
impl math {
    #[verifier::external_body]
    fn multiply(p: &Point, n: IBig, curve: &Curve) -> (r: Point)
        requires curve.equation is Montgomery, 0 <= n.v@ < ipow2(256), 0 <= p.x.v@ < ipow2(256), curve.g.x.v@ == 9,
        ensures
            // a point carries the 32 bytes of its u-coordinate as a big-endian number; the base point is the number 9
            r.x.v@ == bei(x25519_s(enc_be(n.v@, 32), if p.x.v@ == 9 && p.y.v@ == curve.g.y.v@ { enc_le(9, 32) } else { enc_be(p.x.v@, 32) })),
            0 <= r.x.v@ < ipow2(256), r.y.v@ == 0,
    { unimplemented!() }
}
impl Point {
    #[verifier::external_body]
    fn new(x: IBig, y: IBig) -> (r: Point) ensures r.x == x, r.y == y, { unimplemented!() }
}
