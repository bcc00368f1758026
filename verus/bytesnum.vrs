//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@item utils/bytes.rs enum ByteOrder derive=PartialEq,Eq,Structural
// conversion to bytes in the dependency (trusted)
struct UBig { v: Ghost<int> }
#[verifier::external_body]
fn ubig_of(num: IBig) -> (r: UBig) requires num.v@ >= 0, ensures r.v@ == num.v@, { unimplemented!() }
impl UBig {
    #[verifier::external_body]
    fn to_le_bytes(&self) -> (r: Vec<u8>) ensures le(r@) == self.v@, r@.len() > 0 ==> r@.last() != 0, { unimplemented!() }
    #[verifier::external_body]
    fn to_be_bytes(&self) -> (r: Vec<u8>) ensures bei(r@) == self.v@, r@.len() > 0 ==> r@[0] != 0, { unimplemented!() }
}
//@fn utils/bytes.rs fn to_ibig_le
//@ret r
//@spec
    requires bytes@.len() < 0x1000_0000_0000_0000,
    ensures r.v@ == le(bytes@),
//@loop 0
    invariant bytes@.len() < 0x1000_0000_0000_0000, res.v@ == le(bytes@.subrange(0, i as int)),
//@in 0 end
    proof { assert(bytes@.subrange(0, i + 1).drop_last() =~= bytes@.subrange(0, i as int)); }
//@end
    proof { assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@); }
//@endfn
//@fn utils/bytes.rs fn to_ibig_be
//@ret r
//@spec
    requires bytes@.len() < 0x1000_0000_0000_0000,
    ensures r.v@ == bei(bytes@),
//@loop 0
    invariant bytes@.len() < 0x1000_0000_0000_0000, res.v@ == bei(bytes@.subrange(0, i as int)) * ipow2(8 * (bytes@.len() - i)),
//@in 0 end
    proof {
        assert(bytes@.subrange(0, i + 1).drop_last() =~= bytes@.subrange(0, i as int));
        let p = ipow2(8 * (bytes@.len() - i - 1)); lemma_ipow2_8(8 * (bytes@.len() - i - 1));
        let a = bei(bytes@.subrange(0, i as int)); let b = bytes@[i as int] as int;
        assert(a * (256 * p) + b * p == (a * 256 + b) * p) by(nonlinear_arith);
    }
//@end
    proof { assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@); assert(ipow2(0) == 1); }
//@endfn
//@fn utils/bytes.rs fn ibig_to_vec
//@ret r
//@subst `<ibig::UBig as std::convert::TryFrom<IBig>>::try_from(num).unwrap()` => `ubig_of(num)`
//@spec
    requires num.v@ >= 0,
    ensures
        order == ByteOrder::Big ==> bei(r@) == num.v@ && (r@.len() > 0 ==> r@[0] != 0),
        order == ByteOrder::Little ==> le(r@) == num.v@ && (r@.len() > 0 ==> r@.last() != 0),
//@endfn
proof fn lemma_le_zeros(s: Seq<u8>, n: nat)
    ensures le(s + Seq::new(n, |i: int| 0u8)) == le(s), decreases n
{
    let t = s + Seq::new(n, |i: int| 0u8);
    if n == 0 { assert(t =~= s); } else { lemma_le_zeros(s, (n - 1) as nat); assert(t.drop_last() =~= s + Seq::new((n - 1) as nat, |i: int| 0u8)); assert(0 * ipow2(8 * (t.len() - 1)) == 0) by(nonlinear_arith); }
}
proof fn lemma_be_zeros(s: Seq<u8>, n: nat)
    ensures bei(Seq::new(n, |i: int| 0u8) + s) == bei(s), decreases s.len(), n
{
    let t = Seq::new(n, |i: int| 0u8) + s;
    if s.len() > 0 { lemma_be_zeros(s.drop_last(), n); assert(t.drop_last() =~= Seq::new(n, |i: int| 0u8) + s.drop_last()); }
    else if n > 0 { lemma_be_zeros(s, (n - 1) as nat); assert(t.drop_last() =~= Seq::new((n - 1) as nat, |i: int| 0u8) + s); }
}
/// a number below 256^n without superfluous zeros has at most n bytes
proof fn lemma_le_short(s: Seq<u8>, n: int)
    requires n >= 0, le(s) < ipow2(8 * n), s.len() > 0 ==> s.last() != 0, ensures s.len() <= n,
{
    if s.len() > n {
        lemma_le_bound(s.drop_last());
        lemma_ipow2_add(8 * n, 8 * (s.len() - 1 - n));
        assert((s.last() as int) * ipow2(8 * (s.len() - 1)) >= ipow2(8 * n)) by(nonlinear_arith) requires s.last() as int >= 1, ipow2(8 * (s.len() - 1)) == ipow2(8 * n) * ipow2(8 * (s.len() - 1 - n)), ipow2(8 * n) > 0, ipow2(8 * (s.len() - 1 - n)) > 0;
    }
}
proof fn lemma_be_low(s: Seq<u8>)
    requires s.len() > 0, s[0] != 0, ensures bei(s) >= ipow2(8 * (s.len() - 1)), decreases s.len()
{
    if s.len() == 1 { assert(ipow2(0) == 1); assert(bei(s.drop_last()) == 0); }
    else { lemma_be_low(s.drop_last()); lemma_ipow2_8(8 * (s.len() - 2)); }
}
proof fn lemma_be_short(s: Seq<u8>, n: int)
    requires n >= 0, bei(s) < ipow2(8 * n), s.len() > 0 ==> s[0] != 0, ensures s.len() <= n,
{ if s.len() > n { lemma_be_low(s); lemma_ipow2_add(8 * n, 8 * (s.len() - 1 - n)); 
    assert(ipow2(8 * (s.len() - 1)) >= ipow2(8 * n)) by(nonlinear_arith) requires ipow2(8 * (s.len() - 1)) == ipow2(8 * n) * ipow2(8 * (s.len() - 1 - n)), ipow2(8 * n) > 0, ipow2(8 * (s.len() - 1 - n)) > 0; } }
//@fn utils/bytes.rs fn ibig_to_32bytes
//@ret r
//@spec
    requires num.v@ >= 0,
    ensures
        num.v@ < ipow2(256) && order == ByteOrder::Big ==> r@ == enc_be(num.v@, 32),
        // the low 32 bytes of a longer number
        order == ByteOrder::Little ==> r@ == enc_le(num.v@, 32),
//@before 0
    let ghost bs = b@;
    proof {
        if num.v@ < ipow2(256) && order == ByteOrder::Big { lemma_be_short(bs, 32); }
    }
//@nloops 1
//@loop 0
    invariant
        c@.len() == 32, b@ == bs, b.len() >= 32 ==> offset == 0, b.len() < 32 ==> offset == (if order == ByteOrder::Big { 32 - b.len() } else { 0int }),
        forall|k: int| 0 <= k < 32 ==> #[trigger] c@[k] == (if offset <= k < offset + i { bs[k - offset] } else { 0u8 }),
    ensures
        forall|k: int| 0 <= k < 32 ==> #[trigger] c@[k] == (if offset <= k < offset + bs.len() { bs[k - offset] } else { 0u8 }),
//@end
    proof {
        if order == ByteOrder::Little {
            lemma_enc_le(bs);
            if bs.len() <= 32 {
                let z = Seq::new((32 - bs.len()) as nat, |i: int| 0u8);
                assert(c@ =~= bs + z); lemma_le_zeros(bs, (32 - bs.len()) as nat); lemma_enc_le(c@);
            } else {
                assert forall|k: int| 0 <= k < 32 implies c@[k] == #[trigger] enc_le(num.v@, 32)[k] by { lemma_le_digit(bs, k); }
                assert(c@ =~= enc_le(num.v@, 32));
            }
        } else if num.v@ < ipow2(256) {
            let z = Seq::new((32 - bs.len()) as nat, |i: int| 0u8);
            assert(c@ =~= z + bs); lemma_be_zeros(bs, (32 - bs.len()) as nat); lemma_enc_be(c@);
        }
    }
//@endfn
}
fn main() {}
