// ---- RFC 8446, 5.3: per-record nonce ----
/// the 64-bit sequence number, big-endian, zero-padded on the left to 12 bytes, xor the IV
pub open spec fn seq_byte(n: u64, j: int) -> u8 { if j < 4 { 0u8 } else { (n >> ((8 * (11 - j)) as u64)) as u8 } }
pub open spec fn nonce_s(iv: Seq<u8>, n: u64) -> Seq<u8> { Seq::new(12, |j: int| iv[j] ^ seq_byte(n, j)) }
proof fn lemma_nonce_injective(iv: Seq<u8>, a: u64, b: u64)
    requires iv.len() == 12, a != b, ensures nonce_s(iv, a) != nonce_s(iv, b),
{
    if nonce_s(iv, a) == nonce_s(iv, b) {
        assert forall|j: int| 4 <= j < 12 implies (a >> ((8 * (11 - j)) as u64)) as u8 == #[trigger] ((b >> ((8 * (11 - j)) as u64)) as u8) by {
            assert(nonce_s(iv, a)[j] == nonce_s(iv, b)[j]);
            let (x, p, q) = (iv[j], (a >> ((8 * (11 - j)) as u64)) as u8, (b >> ((8 * (11 - j)) as u64)) as u8);
            assert(x ^ p == x ^ q ==> p == q) by(bit_vector);
        }
        assert((a >> 0u64) as u8 == (b >> 0u64) as u8) by { let j = 11int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 8u64) as u8 == (b >> 8u64) as u8) by { let j = 10int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 16u64) as u8 == (b >> 16u64) as u8) by { let j = 9int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 24u64) as u8 == (b >> 24u64) as u8) by { let j = 8int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 32u64) as u8 == (b >> 32u64) as u8) by { let j = 7int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 40u64) as u8 == (b >> 40u64) as u8) by { let j = 6int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 48u64) as u8 == (b >> 48u64) as u8) by { let j = 5int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 56u64) as u8 == (b >> 56u64) as u8) by { let j = 4int; assert((a >> ((8 * (11 - j)) as u64)) as u8 == (b >> ((8 * (11 - j)) as u64)) as u8); }
        assert((a >> 0u64) as u8 == (b >> 0u64) as u8 && (a >> 8u64) as u8 == (b >> 8u64) as u8 && (a >> 16u64) as u8 == (b >> 16u64) as u8 && (a >> 24u64) as u8 == (b >> 24u64) as u8
            && (a >> 32u64) as u8 == (b >> 32u64) as u8 && (a >> 40u64) as u8 == (b >> 40u64) as u8 && (a >> 48u64) as u8 == (b >> 48u64) as u8 && (a >> 56u64) as u8 == (b >> 56u64) as u8 ==> a == b) by(bit_vector);
    }
}
