//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include u128_spec.inc
proof fn lemma_pow_bytes()
    ensures ipow2(0) == 1, ipow2(8) == 0x100, ipow2(16) == 0x1_0000, ipow2(24) == 0x100_0000, ipow2(32) == 0x1_0000_0000, ipow2(40) == 0x100_0000_0000, ipow2(48) == 0x1_0000_0000_0000, ipow2(56) == 0x100_0000_0000_0000,
{ lemma_ipow2_8(0); lemma_ipow2_8(8); lemma_ipow2_8(16); lemma_ipow2_8(24); lemma_ipow2_8(32); lemma_ipow2_8(40); lemma_ipow2_8(48); }
proof fn lemma_u64_byte(x: u64, i: int)
    requires 0 <= i < 8, ensures (x >> ((8 * i) as u64)) as u8 == ((x as int / ipow2(8 * i)) % 256) as u8
{
    lemma_pow_bytes();
    let y = x >> ((8 * i) as u64);
    assert(y as u8 == (y % 256) as u8) by(bit_vector);
    assert(x >> 0u64 == x / 1u64) by(bit_vector); assert(x >> 8u64 == x / 0x100u64) by(bit_vector); assert(x >> 16u64 == x / 0x1_0000u64) by(bit_vector);
    assert(x >> 24u64 == x / 0x100_0000u64) by(bit_vector); assert(x >> 32u64 == x / 0x1_0000_0000u64) by(bit_vector); assert(x >> 40u64 == x / 0x100_0000_0000u64) by(bit_vector);
    assert(x >> 48u64 == x / 0x1_0000_0000_0000u64) by(bit_vector); assert(x >> 56u64 == x / 0x100_0000_0000_0000u64) by(bit_vector);
    assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7);
}
//@fn utils/bytes.rs fn u64_to_bytes_le
//@ret r
//@spec
    ensures r@ == enc_le(num as int, 8),
//@loop 0
    invariant res@.len() == 8, forall|k: int| 0 <= k < i ==> #[trigger] res@[k] == ((num as int / ipow2(8 * k)) % 256) as u8,
//@in 0 start
    proof { lemma_u64_byte(num, i as int); }
//@end
    proof { assert(res@ =~= enc_le(num as int, 8)); }
//@endfn
//@fn utils/bytes.rs fn u128_to_bytes_be
//@ret r
//@spec
    ensures r@ == ublk(num),
//@loop 0
    invariant res@.len() == 16, forall|k: int| 0 <= k < i ==> #[trigger] res@[k] == ub(num, k),
//@end
    proof { assert(res@ =~= ublk(num)); }
//@endfn
//@fn utils/bytes.rs fn to_u128_be
//@ret r
//@spec
    ensures r == blk(bytes@),
//@start
    let ghost s0 = bytes@;
//@before 0
    proof { assert(bytes@.len() <= 16 && bytes@ =~= s0.subrange(0, bytes@.len() as int)); }
//@loop 0
    invariant bytes@.len() <= 16, res == blkn(bytes@, i as int),
//@in 0 start
    proof { lemma_blkn_add(bytes@, i + 1); }
//@end
    proof { lemma_blkn_prefix(s0, bytes@.len() as int); }
//@endfn
proof fn lemma_blkn_prefix(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), ensures blkn(s.subrange(0, n), n) == blkn(s, n), decreases n
{ if n > 0 { lemma_blkn_pre2(s, n, n - 1); lemma_blkn_pre2(s, n, n); } }
proof fn lemma_blkn_pre2(s: Seq<u8>, m: int, n: int)
    requires 0 <= n <= m <= s.len(), ensures blkn(s.subrange(0, m), n) == blkn(s, n), decreases n
{ if n > 0 { lemma_blkn_pre2(s, m, n - 1); } }
proof fn lemma_shl(b: u8, n: int)
    requires 1 <= n <= 16, ensures ((b as u128) << ((128 - 8 * n) as u128)) == b as int * ipow2(128 - 8 * n),
{
    lemma_pow_bytes(); lemma_ipow2_8(56); lemma_ipow2_8(64); lemma_ipow2_8(72); lemma_ipow2_8(80); lemma_ipow2_8(88); lemma_ipow2_8(96); lemma_ipow2_8(104); lemma_ipow2_8(112);
    let x = b as u128;
    assert(x <= 255);
    if n == 1 { assert(x <= 255 ==> (x << 120u128) == mul(x, 0x1000000000000000000000000000000u128)) by(bit_vector); assert(x as int * 0x1000000000000000000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(120) == 0x1000000000000000000000000000000int); }
    if n == 2 { assert(x <= 255 ==> (x << 112u128) == mul(x, 0x10000000000000000000000000000u128)) by(bit_vector); assert(x as int * 0x10000000000000000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(112) == 0x10000000000000000000000000000int); }
    if n == 3 { assert(x <= 255 ==> (x << 104u128) == mul(x, 0x100000000000000000000000000u128)) by(bit_vector); assert(x as int * 0x100000000000000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(104) == 0x100000000000000000000000000int); }
    if n == 4 { assert(x <= 255 ==> (x << 96u128) == mul(x, 0x1000000000000000000000000u128)) by(bit_vector); assert(x as int * 0x1000000000000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(96) == 0x1000000000000000000000000int); }
    if n == 5 { assert(x <= 255 ==> (x << 88u128) == mul(x, 0x10000000000000000000000u128)) by(bit_vector); assert(x as int * 0x10000000000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(88) == 0x10000000000000000000000int); }
    if n == 6 { assert(x <= 255 ==> (x << 80u128) == mul(x, 0x100000000000000000000u128)) by(bit_vector); assert(x as int * 0x100000000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(80) == 0x100000000000000000000int); }
    if n == 7 { assert(x <= 255 ==> (x << 72u128) == mul(x, 0x1000000000000000000u128)) by(bit_vector); assert(x as int * 0x1000000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(72) == 0x1000000000000000000int); }
    if n == 8 { assert(x <= 255 ==> (x << 64u128) == mul(x, 0x10000000000000000u128)) by(bit_vector); assert(x as int * 0x10000000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(64) == 0x10000000000000000int); }
    if n == 9 { assert(x <= 255 ==> (x << 56u128) == mul(x, 0x100000000000000u128)) by(bit_vector); assert(x as int * 0x100000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(56) == 0x100000000000000int); }
    if n == 10 { assert(x <= 255 ==> (x << 48u128) == mul(x, 0x1000000000000u128)) by(bit_vector); assert(x as int * 0x1000000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(48) == 0x1000000000000int); }
    if n == 11 { assert(x <= 255 ==> (x << 40u128) == mul(x, 0x10000000000u128)) by(bit_vector); assert(x as int * 0x10000000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(40) == 0x10000000000int); }
    if n == 12 { assert(x <= 255 ==> (x << 32u128) == mul(x, 0x100000000u128)) by(bit_vector); assert(x as int * 0x100000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(32) == 0x100000000int); }
    if n == 13 { assert(x <= 255 ==> (x << 24u128) == mul(x, 0x1000000u128)) by(bit_vector); assert(x as int * 0x1000000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(24) == 0x1000000int); }
    if n == 14 { assert(x <= 255 ==> (x << 16u128) == mul(x, 0x10000u128)) by(bit_vector); assert(x as int * 0x10000int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(16) == 0x10000int); }
    if n == 15 { assert(x <= 255 ==> (x << 8u128) == mul(x, 0x100u128)) by(bit_vector); assert(x as int * 0x100int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(8) == 0x100int); }
    if n == 16 { assert(x <= 255 ==> (x << 0u128) == mul(x, 0x1u128)) by(bit_vector); assert(x as int * 0x1int <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= x as int <= 255; assert(ipow2(0) == 0x1int); }

}
proof fn lemma_blkn_be(s: Seq<u8>, n: int)
    requires 0 <= n <= 16, n <= s.len(), ensures blkn(s, n) == bei(s.subrange(0, n)) * ipow2(128 - 8 * n), decreases n
{
    if n > 0 {
        lemma_blkn_be(s, n - 1); lemma_blkn_add(s, n); lemma_shl(s[n - 1], n);
        assert(s.subrange(0, n).drop_last() =~= s.subrange(0, n - 1)); lemma_ipow2_8(128 - 8 * n);
        let p = ipow2(128 - 8 * n); let a = bei(s.subrange(0, n - 1)); let b = s[n - 1] as int;
        assert(a * (256 * p) + b * p == (a * 256 + b) * p) by(nonlinear_arith);
    } else { assert(bei(s.subrange(0, 0)) == 0); assert(0 * ipow2(128) == 0) by(nonlinear_arith); }
}
proof fn lemma_be_zeros(s: Seq<u8>, n: nat)
    ensures bei(Seq::new(n, |i: int| 0u8) + s) == bei(s), decreases s.len(), n
{
    let t = Seq::new(n, |i: int| 0u8) + s;
    if s.len() > 0 { lemma_be_zeros(s.drop_last(), n); assert(t.drop_last() =~= Seq::new(n, |i: int| 0u8) + s.drop_last()); }
    else if n > 0 { lemma_be_zeros(s, (n - 1) as nat); assert(t.drop_last() =~= Seq::new((n - 1) as nat, |i: int| 0u8) + s); }
}
//@fn utils/bytes.rs fn to_u128_be_fill
//@ret r
//@spec
    ensures bytes@.len() <= 16 ==> r == bei(bytes@),
//@start
    let ghost s0 = bytes@;
//@loop 0
    invariant bytes@ == s0, s0.len() < 16, new@.len() == 16, forall|k: int| 0 <= k < 16 ==> #[trigger] new@[k] == (if 16 - s0.len() <= k < 16 - s0.len() + i { s0[k - (16 - s0.len())] } else { 0u8 }),
//@end
    proof {
        assert(s0.len() <= 16 ==> bytes@.len() == 16);
        if s0.len() <= 16 {
            lemma_blkn_be(bytes@, 16); assert(bytes@.subrange(0, 16) =~= bytes@); assert(ipow2(0) == 1);
            lemma_be_zeros(s0, (16 - s0.len()) as nat);
            assert(bytes@ =~= Seq::new((16 - s0.len()) as nat, |i: int| 0u8) + s0);
        }
    }
//@endfn
//@fn utils/bytes.rs fn to_u16
//@ret r
//@spec
    ensures buf@.len() == 0 ==> r == 0, buf@.len() == 1 ==> r == buf@[0], buf@.len() >= 2 ==> r == buf@[0] * 256 + buf@[1],
//@start
    proof { if buf@.len() >= 2 { let a = buf@[0]; let b = buf@[1]; assert(((a as u16) << 8) | (b as u16) == a * 256 + b) by(bit_vector); } }
//@endfn
}
fn main() {}
