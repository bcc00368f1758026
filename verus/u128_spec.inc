/// byte i (from the left) of a 128-bit block; block from at most 16 bytes, zero-padded on the right
pub open spec fn ub(x: u128, i: int) -> u8 { (x >> ((120 - 8 * i) as u128)) as u8 }
pub open spec fn ublk(x: u128) -> Seq<u8> { Seq::new(16, |i: int| ub(x, i)) }
pub open spec fn blkn(s: Seq<u8>, n: int) -> u128 decreases n { if n <= 0 { 0 } else { blkn(s, n - 1) | ((s[n - 1] as u128) << ((128 - 8 * n) as u128)) } }
pub open spec fn blk(s: Seq<u8>) -> u128 { blkn(s, if s.len() < 16 { s.len() as int } else { 16 }) }
pub open spec fn lowmask(n: int) -> u128 { if n >= 16 { 0 } else if n <= 0 { 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 } else { 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> ((8 * n) as u128) } }
proof fn lemma_blkn_mask(s: Seq<u8>, n: int)
    requires 0 <= n <= 16, n <= s.len(),
    ensures blkn(s, n) & lowmask(n) == 0u128, n < 16 ==> blkn(s, n) & (lowmask(n)) == 0u128,
    decreases n
{
    let full = 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128;
    if n == 0 { assert(0u128 & full == 0u128) by(bit_vector); }
    else {
        lemma_blkn_mask(s, n - 1);
        let a = blkn(s, n - 1); let b = s[n - 1]; let m = (n - 1) as u128;
        if n == 16 { let x = blkn(s, 16); assert(x & 0u128 == 0u128) by(bit_vector); }
        else if n == 1 {
            assert(a == 0u128);
            assert(((b as u128) << 120u128) & (0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> 8u128) == 0u128) by(bit_vector);
            assert((0u128 | ((b as u128) << 120u128)) == ((b as u128) << 120u128)) by(bit_vector);
        } else {
            assert(a & (0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> mul(8u128, m)) == 0u128 && 1 <= m < 15 ==>
                (a | ((b as u128) << sub(120u128, mul(8u128, m)))) & (0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> add(8u128, mul(8u128, m))) == 0u128) by(bit_vector);
        }
    }
}
proof fn lemma_blkn_add(s: Seq<u8>, n: int)
    requires 1 <= n <= 16, n <= s.len(),
    ensures blkn(s, n) == blkn(s, n - 1) + ((s[n - 1] as u128) << ((128 - 8 * n) as u128)),
{
    lemma_blkn_mask(s, n - 1);
    let a = blkn(s, n - 1); let b = s[n - 1]; let m = (n - 1) as u128;
    if n == 1 { assert((0u128 | ((b as u128) << 120u128)) == ((b as u128) << 120u128)) by(bit_vector); }
    else {
        assert(a & (0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> mul(8u128, m)) == 0u128 && 1 <= m < 16 ==>
            (a | ((b as u128) << sub(120u128, mul(8u128, m)))) == a + ((b as u128) << sub(120u128, mul(8u128, m)))) by(bit_vector);
    }
}
/// bytes of a block
proof fn lemma_ub_or(a: u128, b: u128, i: int)
    requires 0 <= i < 16, ensures ub(a | b, i) == ub(a, i) | ub(b, i), ub(a ^ b, i) == ub(a, i) ^ ub(b, i), ub(0u128, i) == 0u8,
{
    let k = (120 - 8 * i) as u128;
    assert(((a | b) >> k) as u8 == ((a >> k) as u8) | ((b >> k) as u8)) by(bit_vector);
    assert(((a ^ b) >> k) as u8 == ((a >> k) as u8) ^ ((b >> k) as u8)) by(bit_vector);
    assert((0u128 >> k) as u8 == 0u8) by(bit_vector);
}
proof fn lemma_ub_put(b: u8, j: int, i: int)
    requires 0 <= i < 16, 0 <= j < 16, ensures ub((b as u128) << ((120 - 8 * j) as u128), i) == if i == j { b } else { 0u8 },
{
    let k = i as u128; let l = j as u128;
    assert(k < 16 && l < 16 ==> (((b as u128) << sub(120u128, mul(8u128, l))) >> sub(120u128, mul(8u128, k))) as u8 == if k == l { b } else { 0u8 }) by(bit_vector);
}
proof fn lemma_blkn_bytes(s: Seq<u8>, n: int, i: int)
    requires 0 <= n <= 16, n <= s.len(), 0 <= i < 16, ensures ub(blkn(s, n), i) == if i < n { s[i] } else { 0u8 }, decreases n
{
    if n > 0 {
        lemma_blkn_bytes(s, n - 1, i); lemma_ub_or(blkn(s, n - 1), (s[n - 1] as u128) << ((128 - 8 * n) as u128), i); lemma_ub_put(s[n - 1], n - 1, i);
        let x = s[n - 1]; let y = ub(blkn(s, n - 1), i);
        assert(0u8 | x == x && y | 0u8 == y) by(bit_vector);
    } else { lemma_ub_or(0u128, 0u128, i); }
}
/// a block is determined by its bytes
proof fn lemma_ub_ext(a: u128, b: u128)
    requires forall|i: int| 0 <= i < 16 ==> ub(a, i) == ub(b, i), ensures a == b,
{
    assert(ub(a, 0) == ub(b, 0) && ub(a, 1) == ub(b, 1) && ub(a, 2) == ub(b, 2) && ub(a, 3) == ub(b, 3) && ub(a, 4) == ub(b, 4) && ub(a, 5) == ub(b, 5) && ub(a, 6) == ub(b, 6) && ub(a, 7) == ub(b, 7)
        && ub(a, 8) == ub(b, 8) && ub(a, 9) == ub(b, 9) && ub(a, 10) == ub(b, 10) && ub(a, 11) == ub(b, 11) && ub(a, 12) == ub(b, 12) && ub(a, 13) == ub(b, 13) && ub(a, 14) == ub(b, 14) && ub(a, 15) == ub(b, 15));
    assert((a >> 120u128) as u8 == (b >> 120u128) as u8 && (a >> 112u128) as u8 == (b >> 112u128) as u8 && (a >> 104u128) as u8 == (b >> 104u128) as u8 && (a >> 96u128) as u8 == (b >> 96u128) as u8
        && (a >> 88u128) as u8 == (b >> 88u128) as u8 && (a >> 80u128) as u8 == (b >> 80u128) as u8 && (a >> 72u128) as u8 == (b >> 72u128) as u8 && (a >> 64u128) as u8 == (b >> 64u128) as u8
        && (a >> 56u128) as u8 == (b >> 56u128) as u8 && (a >> 48u128) as u8 == (b >> 48u128) as u8 && (a >> 40u128) as u8 == (b >> 40u128) as u8 && (a >> 32u128) as u8 == (b >> 32u128) as u8
        && (a >> 24u128) as u8 == (b >> 24u128) as u8 && (a >> 16u128) as u8 == (b >> 16u128) as u8 && (a >> 8u128) as u8 == (b >> 8u128) as u8 && (a >> 0u128) as u8 == (b >> 0u128) as u8 ==> a == b) by(bit_vector);
}
proof fn lemma_blk_ublk(x: u128) ensures blk(ublk(x)) == x
{
    assert forall|i: int| 0 <= i < 16 implies ub(blk(ublk(x)), i) == ub(x, i) by { lemma_blkn_bytes(ublk(x), 16, i); }
    lemma_ub_ext(blk(ublk(x)), x);
}
