// FIPS 180-4 for {{NAME}}: word type {{W}}, {{BL}}-byte blocks, {{R}} rounds.
#[verifier::opaque]
pub open spec fn addw(x: {{W}}, y: {{W}}) -> {{W}} { ((x as int + y as int) % {{MOD}}) as {{W}} }
#[verifier::opaque]
pub open spec fn rotr_s(n: {{W}}, w: {{W}}) -> {{W}} { (w >> n) | (w << (({{BITS}} - n) as {{W}})) }
#[verifier::opaque]
pub open spec fn ch_s(x: {{W}}, y: {{W}}, z: {{W}}) -> {{W}} { (x & y) ^ ((!x) & z) }
#[verifier::opaque]
pub open spec fn maj_s(x: {{W}}, y: {{W}}, z: {{W}}) -> {{W}} { (x & y) ^ (x & z) ^ (y & z) }
#[verifier::opaque]
pub open spec fn bsig0_s(x: {{W}}) -> {{W}} { rotr_s({{B00}}, x) ^ rotr_s({{B01}}, x) ^ rotr_s({{B02}}, x) }
#[verifier::opaque]
pub open spec fn bsig1_s(x: {{W}}) -> {{W}} { rotr_s({{B10}}, x) ^ rotr_s({{B11}}, x) ^ rotr_s({{B12}}, x) }
#[verifier::opaque]
pub open spec fn ssig0_s(x: {{W}}) -> {{W}} { rotr_s({{S00}}, x) ^ rotr_s({{S01}}, x) ^ (x >> {{S02}}) }
#[verifier::opaque]
pub open spec fn ssig1_s(x: {{W}}) -> {{W}} { rotr_s({{S10}}, x) ^ rotr_s({{S11}}, x) ^ (x >> {{S12}}) }

/// big-endian value of the bytes of s
pub open spec fn be(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as int } }
pub open spec fn wt(block: Seq<u8>, t: nat) -> {{W}}
    decreases t
{
    if t < 16 { be(block.subrange({{WB}} * t as int, {{WB}} * t as int + {{WB}})) as {{W}} }
    else { addw(ssig1_s(wt(block, (t - 2) as nat)), addw(wt(block, (t - 7) as nat), addw(ssig0_s(wt(block, (t - 15) as nat)), wt(block, (t - 16) as nat)))) }
}
pub struct St { pub a: {{W}}, pub b: {{W}}, pub c: {{W}}, pub d: {{W}}, pub e: {{W}}, pub f: {{W}}, pub g: {{W}}, pub h: {{W}} }
pub open spec fn round1(s: St, kt: {{W}}, w: {{W}}) -> St {
    let t1 = addw(s.h, addw(bsig1_s(s.e), addw(ch_s(s.e, s.f, s.g), addw(kt, w))));
    let t2 = addw(bsig0_s(s.a), maj_s(s.a, s.b, s.c));
    St { a: addw(t1, t2), b: s.a, c: s.b, d: s.c, e: addw(s.d, t1), f: s.e, g: s.f, h: s.g }
}
pub open spec fn rounds(s: St, block: Seq<u8>, t: nat) -> St
    decreases t
{ if t == 0 { s } else { round1(rounds(s, block, (t - 1) as nat), kseq()[t - 1], wt(block, (t - 1) as nat)) } }
pub open spec fn st_of(h: Seq<{{W}}>) -> St { St { a: h[0], b: h[1], c: h[2], d: h[3], e: h[4], f: h[5], g: h[6], h: h[7] } }
pub open spec fn compress(h: Seq<{{W}}>, block: Seq<u8>) -> Seq<{{W}}> {
    let s = rounds(st_of(h), block, {{R}});
    seq![addw(h[0], s.a), addw(h[1], s.b), addw(h[2], s.c), addw(h[3], s.d), addw(h[4], s.e), addw(h[5], s.f), addw(h[6], s.g), addw(h[7], s.h)]
}
/// fold of the compression function over the first n blocks of m
pub open spec fn absorb_n(h: Seq<{{W}}>, m: Seq<u8>, n: int) -> Seq<{{W}}>
    decreases n
{
    if n <= 0 { h }
    else { compress(absorb_n(h, m, n - 1), m.subrange((n - 1) * {{BL}}, n * {{BL}})) }
}
pub open spec fn absorb(h: Seq<{{W}}>, m: Seq<u8>) -> Seq<{{W}}> { absorb_n(h, m, m.len() as int / {{BL}}) }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// number of zero bytes between the 0x80 and the {{LB}}-byte length
pub open spec fn padz(len: int) -> int { let r = (len + 1 + {{LB}}) % {{BL}}; if r == 0 { 0 } else { {{BL}} - r } }
/// big-endian bit length in {{LB}} bytes
pub open spec fn len_field(len: nat) -> Seq<u8> {
    Seq::new({{LB}}, |j: int| (((8 * len) as u128) >> ((8 * ({{LB}} - 1 - j)) as u128)) as u8)
}
pub open spec fn pad(m: Seq<u8>) -> Seq<u8> {
    m + seq![0x80u8] + zeros(padz(m.len() as int) as nat) + len_field(m.len())
}
/// big-endian bytes of the words
pub open spec fn words_be(h: Seq<{{W}}>, n: nat) -> Seq<u8> {
    Seq::new(n, |i: int| (h[i / {{WB}}] >> ((8 * ({{WB}} - 1 - i % {{WB}})) as {{W}})) as u8)
}
/// the digest FIPS 180-4 defines
pub open spec fn {{HASH}}(m: Seq<u8>) -> Seq<u8> { words_be(absorb(h0(), pad(m)), {{OUT}}) }
