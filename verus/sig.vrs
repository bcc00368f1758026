//@include head.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural,Clone,Copy
//@include ibig.inc
//@include bytes_spec.inc
//@include bytes_contract.inc
//@include der_types.inc
//@include der_spec.inc
//@include der_contract.inc
//@include slice_len.inc
//@item crypto/ellipticcurve/signature.rs struct Signature
/// add one to the last element
fn vx_inc_last(v: &mut Vec<u8>) requires old(v)@.len() > 0, old(v)@.last() < 255, ensures final(v)@ == old(v)@.update(old(v)@.len() - 1, (old(v)@.last() + 1) as u8), { let n = v.len() - 1; let x = v[n]; v.set(n, x + 1); }
/// content of the INTEGER v: the minimal big-endian two's complement of a non-negative number (X.690, 8.3)
pub open spec fn uint_content(a: Seq<u8>, v: int) -> bool { a.len() > 0 && bei(a) == v && a[0] < 128 && (a.len() > 1 && a[0] == 0 ==> a[1] >= 128) }
pub open spec fn der_sig(d: Seq<u8>, r: int, s: int) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>| #[trigger] uint_content(a, r) && #[trigger] uint_content(b, s) && a.len() <= 33 && b.len() <= 33
        && d == seq![0x30u8, (4 + a.len() + b.len()) as u8, 2u8, a.len() as u8] + a + seq![2u8, b.len() as u8] + b
}
//@include sig_spec.inc
pub open spec fn n0(d: Seq<u8>) -> int { (der_elem(d, 0)->0).0 }
pub open spec fn b0(d: Seq<u8>) -> int { (der_elem(d, 0)->0).1 }
pub open spec fn i1(d: Seq<u8>) -> int { (int_at(d, b0(d))->0).0 }
pub open spec fn p1(d: Seq<u8>) -> int { (int_at(d, b0(d))->0).1 }
proof fn lemma_min(e: Seq<u8>, k: int, v: int)
    requires 0 <= k < e.len(), bei(e) == v, forall|i: int| 0 <= i < k ==> e[i] == 0,
    ensures bei(e.subrange(k, e.len() as int)) == v, decreases k
{
    let t = e.subrange(k, e.len() as int);
    lemma_be_zeros2(t, k as nat);
    assert(Seq::new(k as nat, |i: int| 0u8) + t =~= e);
}
proof fn lemma_be_zeros2(s: Seq<u8>, n: nat)
    ensures bei(Seq::new(n, |i: int| 0u8) + s) == bei(s), decreases s.len(), n
{
    let t = Seq::new(n, |i: int| 0u8) + s;
    if s.len() > 0 { lemma_be_zeros2(s.drop_last(), n); assert(t.drop_last() =~= Seq::new(n, |i: int| 0u8) + s.drop_last()); }
    else if n > 0 { lemma_be_zeros2(s, (n - 1) as nat); assert(t.drop_last() =~= Seq::new((n - 1) as nat, |i: int| 0u8) + s); }
}
proof fn lemma_enc_be_val(v: int, n: int)
    requires 0 <= v < ipow2(8 * n), n >= 0, ensures bei(enc_be(v, n)) == v, enc_be(v, n).len() == n, decreases n
{
    if n > 0 {
        lemma_ipow2_8(8 * (n - 1)); lemma_enc_be_val(v / 256, n - 1);
        assert(0 <= v / 256 < ipow2(8 * (n - 1))) by(nonlinear_arith) requires 0 <= v < 256 * ipow2(8 * (n - 1));
        let e = enc_be(v, n);
        assert(ipow2(0) == 1);
        assert(e.last() == (v % 256) as u8);
        assert forall|i: int| 0 <= i < n - 1 implies e.drop_last()[i] == #[trigger] enc_be(v / 256, n - 1)[i] by {
            let p = ipow2(8 * (n - 2 - i)); lemma_ipow2_8(8 * (n - 2 - i));
            assert(v / (256 * p) == (v / 256) / p) by(nonlinear_arith) requires p > 0, v >= 0;
        }
        assert(e.drop_last() =~= enc_be(v / 256, n - 1));
    } else { assert(ipow2(0) == 1); }
}
/// what the encoding of a signature begins with is read back as that signature
proof fn lemma_round_trip(d: Seq<u8>, rest: Seq<u8>, r: int, s: int)
    requires der_sig(d, r, s), ensures sig_at(d + rest) == Some((r, s, d.len() as int)),
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] uint_content(a, r) && #[trigger] uint_content(b, s) && a.len() <= 33 && b.len() <= 33 && d == seq![0x30u8, (4 + a.len() + b.len()) as u8, 2u8, a.len() as u8] + a + seq![2u8, b.len() as u8] + b;
    let x = d + rest;
    let la = a.len() as int; let lb = b.len() as int;
    assert(x[0] == 0x30 && x[1] == 4 + la + lb && x[2] == 2 && x[3] == la && x[4 + la] == 2 && x[5 + la] == lb);
    assert(x.subrange(4, 4 + la) =~= a); assert(x.subrange(6 + la, 6 + la + lb) =~= b);
    assert(x[4] == a[0]); assert(x[6 + la] == b[0]);
    assert(der_elem(x, 0) == Some((4 + la + lb, 2int)));
    assert(der_elem(x, 2) == Some((la, 4int)));
    assert(der_elem(x, 4 + la) == Some((lb, 6 + la)));
}
//@fn crypto/ellipticcurve/signature.rs fn strip_leading_zeros
//@ret r
//@spec
    ensures 0 < r@.len() <= 32, r@ == bytes@.subrange(32 - r@.len(), 32), forall|i: int| 0 <= i < 32 - r@.len() ==> bytes@[i] == 0, r@.len() > 1 ==> r@[0] != 0,
//@loop 0
    invariant start <= 31, forall|i: int| 0 <= i < start ==> bytes@[i] == 0,
    decreases 31 - start,
//@end
    proof { assert(bytes@.subrange(start as int, 32)[0] == bytes@[start as int]); }
//@endfn
impl Signature {
//@fn crypto/ellipticcurve/signature.rs impl Signature :: fn new
//@ret z
//@spec
    ensures z.s == s, z.r == r,
//@endfn
//@fn crypto/ellipticcurve/signature.rs impl Signature :: fn from_der
//@ret z
//@subst `let mut r = None` => `let mut r: Option<IBig> = None` opt
//@subst `let mut s = None` => `let mut s: Option<IBig> = None` opt
//@resub `\bint\b` => `int_` opt
//@subst `&buf[consumed..consumed + size]` => `vx_sub(buf, consumed, consumed + size)` opt
//@spec
    requires buf@.len() < 0x1000_0000_0000_0000,
    ensures
        z is Ok ==> sig_at(buf@) == Some((z->Ok_0.0.r.v@, z->Ok_0.0.s.v@, z->Ok_0.1 as int)),
        z is Err ==> sig_at(buf@) is None,
//@start
    proof { axiom_slice_len(buf); assert(forall|x: u8| (#[trigger] (x >> 7u8)) == 1 <==> x >= 128) by(bit_vector); }
//@loop 0 it
    invariant
        0 <= it.index() <= 3, consumed <= buf@.len() < 0x1000_0000_0000_0000,
        it.index() == 0 ==> consumed == 0 && r is None && s is None,
        it.index() >= 1 ==> buf@.len() > 0 && buf@[0] == 0x30 && der_elem(buf@, 0) is Some && end == n0(buf@) + b0(buf@),
        it.index() == 1 ==> consumed == b0(buf@) && r is None && s is None,
        it.index() >= 2 ==> int_at(buf@, b0(buf@)) is Some && r is Some && r->0.v@ == i1(buf@),
        it.index() == 2 ==> consumed == p1(buf@) && s is None,
        it.index() == 3 ==> int_at(buf@, p1(buf@)) == Some((s->0.v@, consumed as int)) && s is Some,
        forall|x: u8| (#[trigger] (x >> 7u8)) == 1 <==> x >= 128,
//@endfn
//@fn crypto/ellipticcurve/signature.rs impl Signature :: fn to_der
//@ret z
//@subst `bytes::ByteOrder::` => `ByteOrder::` opt all
//@subst `*der.last_mut().unwrap() += 1` => `vx_inc_last(&mut der)` all
//@spec
    requires 0 <= self.r.v@ < ipow2(256), 0 <= self.s.v@ < ipow2(256),
    ensures der_sig(z@, self.r.v@, self.s.v@),
//@start
    proof { lemma_enc_be_val(self.r.v@, 32); lemma_enc_be_val(self.s.v@, 32); assert(forall|x: u8| (#[trigger] (x >> 7u8)) == 1 <==> x >= 128) by(bit_vector); }
//@end
    proof {
        let er = enc_be(self.r.v@, 32); let es = enc_be(self.s.v@, 32);
        lemma_min(er, 32 - r@.len(), self.r.v@); lemma_min(es, 32 - s@.len(), self.s.v@);
        let a = if r@[0] >= 128 { seq![0u8] + r@ } else { r@ }; let b = if s@[0] >= 128 { seq![0u8] + s@ } else { s@ };
        lemma_be_zeros2(r@, 1); lemma_be_zeros2(s@, 1);
        assert(Seq::new(1, |i: int| 0u8) + r@ =~= seq![0u8] + r@); assert(Seq::new(1, |i: int| 0u8) + s@ =~= seq![0u8] + s@);
        assert(uint_content(a, self.r.v@)); assert(uint_content(b, self.s.v@));
        assert(der@ =~= seq![0x30u8, (4 + a.len() + b.len()) as u8, 2u8, a.len() as u8] + a + seq![2u8, b.len() as u8] + b);
    }
//@endfn
}
fn vx_sub(b: &[u8], a: usize, e: usize) -> (r: &[u8]) requires a <= e <= b@.len(), ensures r@ == b@.subrange(a as int, e as int), { &b[a..e] }
}
fn main() {}
