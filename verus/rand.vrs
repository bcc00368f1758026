//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include bytes_contract.inc
pub uninterp spec fn be128(s: Seq<u8>) -> u128;
impl bytes {
    // proved in unit bytesint (be128 is blk there)
    #[verifier::external_body]
    fn to_u128_be(b: &[u8]) -> (r: u128) ensures r == be128(b@), { unimplemented!() }
//@fn utils/bytes.rs fn to_u64_le
//@spec
    requires bytes@.len() >= 8,
//@start
    proof { assert(forall|m: u64| (0u64 & m) == 0) by(bit_vector); }
//@loop 0
    invariant bytes@.len() >= 8, i < 8 ==> (res & (0xffff_ffff_ffff_ffffu64 >> (8 * i as u64))) == 0,
//@before `res +=` opt
        proof {
            let j = i as u64; let b = *byte as u64;
            assert(j < 8 && b <= 255 && (res & (0xffff_ffff_ffff_ffffu64 >> mul(8, j))) == 0 ==>
                add(res, b << sub(56, mul(8, j))) == res + (b << sub(56, mul(8, j))) && (add(res, b << sub(56, mul(8, j))) & (0xffff_ffff_ffff_ffffu64 >> mul(8, add(j, 1)))) == 0) by(bit_vector);
        }
//@endfn
}
pub assume_specification [u32::wrapping_pow] (a: u32, n: u32) -> (r: u32) ensures r == ipow(a as int, n as int) % 0x1_0000_0000;
/// `/dev/urandom`: 100 bytes of unknown content
struct URandomRng();
impl URandomRng {
    #[verifier::external_body]
    fn read_from_urandom(&self) -> (r: [u8; 100]) { unimplemented!() }
}
/// the generator of the 32-bit numbers: state after a request, number it returns
pub open spec fn up32(s: u32) -> u32 { ((s as int + 1) % 0x1_0000_0000) as u32 }
pub open spec fn out32(s: u32) -> u32 { ((ipow((up32(s) as int * 15485863) % 0x1_0000_0000, 3) % 0x1_0000_0000) % 0xffff_ffff) as u32 }
pub open spec fn state32(s: u32, n: int) -> u32 decreases n { if n <= 0 { s } else { up32(state32(s, n - 1)) } }
/// the generator of the large numbers
pub open spec fn seed32(s: int) -> u32 { be128(enc_le(s, 32)) as u32 }
pub open spec fn prod(s: u32, n: int) -> int decreases n { if n <= 0 { 1 } else { prod(s, n - 1) * out32(state32(s, n - 1)) } }
pub open spec fn outi(s: int) -> int { prod(seed32(s), 10) }
#[verifier::opaque]
pub open spec fn chunks(s: int, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { chunks(s, n - 1) + enc_le(outi(s + 10 * (n - 1)), 32) } }
proof fn lemma_prod(s: u32, n: int) ensures prod(s, n) >= 0, decreases n
{ if n > 0 { lemma_prod(s, n - 1); assert(prod(s, n - 1) * out32(state32(s, n - 1)) >= 0) by(nonlinear_arith) requires prod(s, n - 1) >= 0; } }
proof fn lemma_chunks(s: int, n: int) requires n >= 0, ensures chunks(s, n).len() == 32 * n, chunks(s, n + 1) == chunks(s, n) + enc_le(outi(s + 10 * n), 32), chunks(s, 0) == Seq::<u8>::empty(), decreases n
{ reveal(chunks); reveal_with_fuel(chunks, 2); if n > 0 { lemma_chunks(s, n - 1); } }
/// x between the smallest number of a+1 bytes and the largest of b bytes
pub open spec fn fits(x: int, a: int, b: int) -> bool { ipow(2, a * 8) <= x < ipow(2, b * 8) }
proof fn lemma_pow_mono(a: int, b: int) requires 0 <= a < b, ensures 0 < ipow(2, a) < ipow(2, b), decreases b
{ reveal_with_fuel(ipow, 2); if a > 0 { lemma_pow_mono(a - 1, b - 1); } else { lemma_pow_pos(b - 1); } }
proof fn lemma_pow_pos(b: int) requires b >= 0, ensures ipow(2, b) >= 1, decreases b { if b > 0 { lemma_pow_pos(b - 1); } }
proof fn lemma_range(n: int, lo: int, hi: int) requires n >= 0, 0 < lo < hi, ensures lo <= trem(n, hi - lo) + lo < hi
{ assert(0 <= n % (hi - lo) < hi - lo) by(nonlinear_arith) requires hi - lo > 0; }
//@item rand/simplerng.rs struct SimpleRng
impl<T> SimpleRng<T> {
//@fn rand/simplerng.rs impl SeedableRng<T> for SimpleRng<T> :: fn from_seed
//@ret r
//@spec
    ensures r.0 == seed,
//@endfn
}
impl SimpleRng<u32> {
//@fn rand/simplerng.rs impl SimpleRng<u32> :: fn next
//@ret r
//@spec
    ensures final(self).0 == up32(old(self).0), r == out32(old(self).0),
//@start
    proof { reveal_with_fuel(ipow, 4); }
//@endfn
//@fn rand/simplerng.rs impl RngCore<u32> for SimpleRng<u32> :: fn between
//@ret r
//@spec
    requires min < max <= 0xffff_ffff,
    ensures final(self).0 == up32(old(self).0), min <= r < max, r as int == out32(old(self).0) as int % (max - min) + min,
//@endfn
//@fn rand/simplerng.rs impl RngCore<u32> for SimpleRng<u32> :: fn bytes
//@ret r
//@spec
    ensures r@.len() == size, final(self).0 == state32(old(self).0, size as int),
        forall|k: int| 0 <= k < size ==> #[trigger] r@[k] == out32(state32(old(self).0, k)) as u8,
//@loop 0
        invariant res@.len() <= size, self.0 == state32(old(self).0, res@.len() as int),
            forall|k: int| 0 <= k < res@.len() ==> #[trigger] res@[k] == out32(state32(old(self).0, k)) as u8,
        decreases size - res@.len(),
//@endfn
}
impl SimpleRng<IBig> {
//@fn rand/simplerng.rs impl SimpleRng<IBig> :: fn next
//@subst `bytes::ByteOrder::` => `ByteOrder::` opt all
//@ret r
//@spec
    requires old(self).0.v@ >= 0,
    ensures final(self).0.v@ == old(self).0.v@ + 10, r.v@ == outi(old(self).0.v@), r.v@ >= 0,
//@before 0
        let ghost a0 = a.0;
//@loop 0 it
            invariant b.v@ == prod(a0, it.index()), a.0 == state32(a0, it.index()),
//@end
        proof { lemma_prod(a0, 10); }
//@endfn
//@fn rand/simplerng.rs impl RngCore<IBig> for SimpleRng<IBig> :: fn between
//@ret r
//@spec
    requires old(self).0.v@ >= 0, min < max < 0x1000_0000_0000_0000,
    ensures final(self).0.v@ == old(self).0.v@ + 10, fits(r.v@, min as int, max as int),
        r.v@ == trem(outi(old(self).0.v@), ipow(2, max * 8) - ipow(2, min * 8)) + ipow(2, min * 8),
//@start
        proof { lemma_pow_mono(min * 8, max * 8); lemma_prod(seed32(self.0.v@), 10); lemma_range(outi(self.0.v@), ipow(2, min * 8), ipow(2, max * 8)); }
//@endfn
//@fn rand/simplerng.rs impl RngCore<IBig> for SimpleRng<IBig> :: fn bytes
//@subst `bytes::ByteOrder::` => `ByteOrder::` opt all
//@ret r
//@spec
    requires old(self).0.v@ >= 0, size < 0x7fff_ffff_ffff_0000,
    ensures r@.len() == size,
        // the seed and the requests so far decide all of it
        final(self).0.v@ == old(self).0.v@ + 10 * ((size + 31) / 32), r@ == chunks(old(self).0.v@, (size as int + 31) / 32).subrange(0, size as int),
//@start
        let ghost mut k: int = 0;
        proof { lemma_chunks(self.0.v@, 0); }
//@loop 0
            invariant k >= 0, res@ == chunks(old(self).0.v@, k), res@.len() == 32 * k, self.0.v@ == old(self).0.v@ + 10 * k, self.0.v@ >= 0, size < 0x7fff_ffff_ffff_0000, 32 * (k - 1) < size || k == 0,
            decreases size + 32 - res@.len(),
//@in 0 end
            proof { lemma_chunks(old(self).0.v@, k); k = k + 1; lemma_chunks(old(self).0.v@, k); }
//@endfn
}
impl URandomRng {
//@fn rand/urandom.rs impl URandomRng :: fn next
//@ret r
//@spec
    ensures r.v@ >= 0,
//@start
        proof { assert forall|u: Seq<u8>| 0 <= #[trigger] bei(u) by { lemma_be_bound(u); } }
//@endfn
//@fn rand/urandom.rs impl RngCore<IBig> for URandomRng :: fn between
//@ret r
//@spec
    requires min < max < 0x1000_0000_0000_0000,
    ensures fits(r.v@, min as int, max as int),
//@start
        proof { lemma_pow_mono(min * 8, max * 8); assert forall|n: int| n >= 0 implies ipow(2, min * 8) <= #[trigger] trem(n, ipow(2, max * 8) - ipow(2, min * 8)) + ipow(2, min * 8) < ipow(2, max * 8) by { lemma_range(n, ipow(2, min * 8), ipow(2, max * 8)); } }
//@endfn
//@fn rand/urandom.rs impl RngCore<IBig> for URandomRng :: fn bytes
//@ret r
//@spec
    requires size < 0x7fff_ffff_ffff_0000,
    ensures r@.len() == size,
//@loop 0
            invariant size < 0x7fff_ffff_ffff_0000,
            decreases size + 200 - res@.len(),
//@endfn
}
}
fn main() {}
