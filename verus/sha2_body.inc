#![allow(unused_imports, unused_variables, dead_code, non_snake_case, unused_assignments, unused_mut, unused_parens)]
use vstd::prelude::*;
use vstd::seq::*;
verus! {
//@probes
//@include common.inc
pub assume_specification [{{W}}::overflowing_add] (x: {{W}}, y: {{W}}) -> (r: ({{W}}, bool))
    ensures r.0 as int == (x as int + y as int) % {{MOD}};
pub open spec fn kseq() -> Seq<{{W}}> { seq![{{K}}] }
pub open spec fn h0() -> Seq<{{W}}> { seq![{{H0}}] }
//@include sha2_spec.inc

//@item {{FILE}} struct {{TYPE}}

//@fn {{FILE}} fn rotr
//@ret r
//@spec
    requires 0 < n < {{BITS}},
    ensures r == rotr_s(n, w),
//@start
    proof { reveal(rotr_s); assert((({{BITS}} - n) as {{W}}) & {{BM1}} == ({{BITS}} - n) as {{W}} && (({{BITS}} - n) as {{W}}) & {{BM1}} < {{BITS}}) by(bit_vector) requires 0 < n < {{BITS}}; }
//@endfn
//@fn {{FILE}} fn ch
//@ret r
//@spec
    ensures r == ch_s(x, y, z),
//@bvtail (x & y) ^ ((!x) & z)
//@start
    proof { reveal(ch_s); }
//@endfn
//@fn {{FILE}} fn maj
//@ret r
//@spec
    ensures r == maj_s(x, y, z),
//@bvtail (x & y) ^ (x & z) ^ (y & z)
//@start
    proof { reveal(maj_s); }
//@endfn
//@fn {{FILE}} fn bsig0
//@ret r
//@spec
    ensures r == bsig0_s(x),
//@start
    proof { reveal(bsig0_s); }
//@endfn
//@fn {{FILE}} fn bsig1
//@ret r
//@spec
    ensures r == bsig1_s(x),
//@start
    proof { reveal(bsig1_s); }
//@endfn
//@fn {{FILE}} fn ssig0
//@ret r
//@spec
    ensures r == ssig0_s(x),
//@start
    proof { reveal(ssig0_s); }
//@endfn
//@fn {{FILE}} fn ssig1
//@ret r
//@spec
    ensures r == ssig1_s(x),
//@start
    proof { reveal(ssig1_s); }
//@endfn
//@fn {{FILE}} fn add
//@ret r
//@spec
    ensures r == addw(x, y),
//@start
    proof { reveal(addw); }
//@endfn

proof fn lemma_absorb_prefix(h: Seq<{{W}}>, m1: Seq<u8>, m2: Seq<u8>, n: int)
    requires n >= 0, m1.len() >= n * {{BL}}, m2.len() >= n * {{BL}}, m1.subrange(0, n * {{BL}}) == m2.subrange(0, n * {{BL}}),
    ensures absorb_n(h, m1, n) == absorb_n(h, m2, n),
    decreases n
{
    if n > 0 {
        let k = n - 1;
        assert(m1.subrange(0, k * {{BL}}) =~= m1.subrange(0, n * {{BL}}).subrange(0, k * {{BL}}));
        assert(m2.subrange(0, k * {{BL}}) =~= m2.subrange(0, n * {{BL}}).subrange(0, k * {{BL}}));
        lemma_absorb_prefix(h, m1, m2, k);
        assert(m1.subrange(k * {{BL}}, n * {{BL}}) =~= m1.subrange(0, n * {{BL}}).subrange(k * {{BL}}, n * {{BL}}));
        assert(m2.subrange(k * {{BL}}, n * {{BL}}) =~= m2.subrange(0, n * {{BL}}).subrange(k * {{BL}}, n * {{BL}}));
    }
}

impl {{TYPE}} {
    /// the hasher has absorbed exactly the message m
    pub closed spec fn inv(&self, m: Seq<u8>) -> bool { self.length == m.len() && self.inv_core(m) }
    pub closed spec fn inv_core(&self, m: Seq<u8>) -> bool {
        &&& self.input_len == m.len() % {{BL}}
        &&& self.state@ == absorb(h0(), m)
        &&& forall|i: int| 0 <= i < m.len() % {{BL}} ==> self.input[i] == m[m.len() - m.len() % {{BL}} + i]
    }
//@include sha2_upd.inc
//@include sha2_pad.inc
//@fn {{FILE}} impl {{TYPE}} :: fn calc_round
//@spec
    requires old(self).input_len == {{BL}},
    ensures
        final(self).state@ == compress(old(self).state@, old(self).input@),
        final(self).input_len == 0, final(self).length == old(self).length, final(self).input@ == old(self).input@,
//@nloops 2
//@before 0
        let ghost block = self.input@;
        let ghost st0 = st_of(self.state@);
        proof { assert(k@ =~= kseq()); }
//@loop 0
            invariant
                k@ == kseq(), self.input@ == block, self.input@ == old(self).input@, self.state@ == old(self).state@,
                block.len() == {{BL}}, self.length == old(self).length, st0 == st_of(self.state@),
                pos == {{WB}} * (if t <= 16 { t as int } else { 16int }),
                forall|i: int| 0 <= i < t ==> w[i] == wt(block, i as nat),
                forall|i: int| t <= i < {{WN}} ==> w[i] == 0,
                rounds(st0, block, t as nat) == (St { a: a, b: b, c: c, d: d, e: e, f: f, g: g, h: h }),
//@loop 1
                    invariant
                        self.input@ == block, block.len() == {{BL}}, 0 <= t <= 15, -8 <= wcount <= {{TOP}}, (wcount as int + 8) % 8 == 0,
                        pos == {{WB}} * (t as int) + ({{TOP}} - wcount as int) / 8,
                        forall|i: int| 0 <= i < t ==> w[i] == wt(block, i as nat),
                        forall|i: int| t < i < {{WN}} ==> w[i] == 0,
                        w[t as int] as int == be(block.subrange({{WB}} * (t as int), pos as int)) * p2((wcount + 8) as int),
                        0 <= be(block.subrange({{WB}} * (t as int), pos as int)) < p2({{TOP}} - wcount as int),
                    decreases wcount + 8,
//@before 1
                proof { assert(block.subrange({{WB}} * (t as int), pos as int) =~= Seq::<u8>::empty()); reveal_with_fuel(be, 2); reveal_with_fuel(p2, 2); }
//@in 1 start
                    let ghost b0 = block.subrange({{WB}} * (t as int), pos as int);
                    let ghost byte = block[pos as int];
                    let ghost wc0 = wcount;
                    proof {
                        lemma_shl(byte, wcount as int);
                        lemma_fits(be(b0), byte as int, wcount as int);
                        assert(block.subrange({{WB}} * (t as int), pos + 1).drop_last() =~= b0);
                        reveal_with_fuel(be, 2);
                    }
//@after 1
                proof { reveal_with_fuel(p2, 2); assert(block.subrange({{WB}} * (t as int), pos as int) =~= block.subrange({{WB}} * t as int, {{WB}} * t as int + {{WB}})); }
//@in 0 end
            proof {
                assert(w[t as int] == wt(block, t as nat));
                reveal_with_fuel(rounds, 2);
            }
//@end
        proof { assert(self.state@ =~= compress(old(self).state@, block)); }
//@endfn
}
//@fn {{FILE}} fn {{ONESHOT}}
//@ret r
//@spec
    requires message@.len() < {{MAXLEN}},
    ensures r@ == {{HASH}}(message@), r@.len() == {{OUT}},
//@end
    proof { assert(Seq::<u8>::empty() + message@ =~= message@); }
//@endfn
proof fn lemma_idx(i: u8)
    requires i < {{OUT}},
    ensures (i >> {{WBS}}) as int == i as int / {{WB}}, (i & {{WBM}}) as int == i as int % {{WB}}, 8 * ({{WB}} - 1 - (i & {{WBM}})) < {{BITS}},
{
    assert((i >> {{WBS}}) == i / {{WB}} && (i & {{WBM}}) == i % {{WB}} && (i & {{WBM}}) < {{WB}}) by(bit_vector);
}
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
proof fn lemma_p2_8(n: int)
    requires n >= 0,
    ensures p2(n + 8) == 256 * p2(n), p2(n) > 0,
    decreases n
{ reveal_with_fuel(p2, 9); if n > 0 { lemma_p2_8(n - 1); } }
proof fn lemma_p2_add(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures p2(a + b) == p2(a) * p2(b), p2(a) > 0, p2(b) > 0,
    decreases a, b
{
    if a > 0 { lemma_p2_add(a - 1, b); assert(p2(a + b) == 2 * p2(a + b - 1)); assert(2 * (p2(a - 1) * p2(b)) == (2 * p2(a - 1)) * p2(b)) by(nonlinear_arith); }
    else if b > 0 { lemma_p2_add(a, b - 1); }
}
proof fn lemma_shl(x: u8, k: int)
    requires 0 <= k <= {{TOP}}, k % 8 == 0,
    ensures (x as {{W}}) << (k as {{W}}) == x as int * p2(k),
{
    reveal_with_fuel(p2, 65);
    {{SHLCASES}}
}
/// a partial big-endian sum of the first (TOP-wc)/8 bytes plus the next byte still fits
proof fn lemma_fits(v: int, x: int, wc: int)
    requires 0 <= wc <= {{TOP}}, wc % 8 == 0, 0 <= v < p2({{TOP}} - wc), 0 <= x < 256,
    ensures
        v * p2(wc + 8) + x * p2(wc) == (v * 256 + x) * p2(wc),
        0 <= v * 256 + x < p2({{TOP}} - (wc - 8)),
        0 <= v * p2(wc + 8) + x * p2(wc) < {{MOD}},
{
    lemma_p2_8(wc); lemma_p2_8({{TOP}} - wc);
    lemma_p2_add({{TOP}} - wc + 8, wc);
    assert(p2({{TOP}}int + 8) == {{MOD}}) by { reveal_with_fuel(p2, 65); }
    assert(v * (256 * p2(wc)) + x * p2(wc) == (v * 256 + x) * p2(wc)) by(nonlinear_arith);
    assert((v * 256 + x) * p2(wc) < p2({{TOP}} - wc + 8) * p2(wc)) by(nonlinear_arith) requires v * 256 + x < p2({{TOP}} - wc + 8), p2(wc) > 0;
    assert(0 <= (v * 256 + x) * p2(wc)) by(nonlinear_arith) requires 0 <= v * 256 + x, p2(wc) > 0;
}
}
fn main() {}
