use vstd::prelude::*;
verus! {
//@include common.inc
//@probes
pub assume_specification [u32::overflowing_add] (x: u32, y: u32) -> (r: (u32, bool))
    ensures r.0 == (x as int + y as int) % 0x1_0000_0000, r.1 == (x as int + y as int >= 0x1_0000_0000);
pub assume_specification [u32::rotate_left] (x: u32, n: u32) -> (r: u32)
    ensures 0 < n < 32 ==> r == (x << n) | (x >> ((32 - n) as u32));
//@include chacha_spec.inc
//@fn crypto/chacha20/cipher.rs fn u8_to_u32_le
//@ret r
//@spec
    requires b@.len() >= 4,
    ensures r == le32(b@),
//@start
    proof {
        let (p, q, s, t) = (b[0], b[1], b[2], b[3]);
        assert((p as u32 | (q as u32) << 8 | (s as u32) << 16 | (t as u32) << 24) == (p as u32) + 256 * (q as u32) + 65536 * (s as u32) + 16777216 * (t as u32)) by(bit_vector);
    }
//@endfn
//@item crypto/chacha20/cipher.rs struct ChaCha20Block
impl Clone for ChaCha20Block {
    // #[derive(Clone)]
    fn clone(&self) -> (r: Self) ensures r == *self { ChaCha20Block { state: self.state } }
}
impl ChaCha20Block {
//@fn crypto/chacha20/cipher.rs impl ChaCha20Block :: fn init
//@ret r
//@spec
    ensures
        r is Some <==> (key@.len() == 32 && iv@.len() == 12),
        r is Some ==> r->0.state@ == init_s(key@, iv@, counter),
//@loop 0
        invariant
            key@.len() == 32, iv@.len() == 12, state@.len() == 16,
            state@[0] == 0x61707865u32, state@[1] == 0x3320646eu32, state@[2] == 0x79622d32u32, state@[3] == 0x6b206574u32,
            forall|j: int| 4 <= j < i + 4 ==> state@[j] == le32(#[trigger] key@.subrange(4 * (j - 4), 4 * (j - 4) + 4)),
//@in 0 end
            proof { assert(key@.subrange(4 * (i as int), 32).subrange(0, 4) =~= key@.subrange(4 * (i as int), 4 * (i as int) + 4)); }
//@loop 1
        invariant
            key@.len() == 32, iv@.len() == 12, state@.len() == 16,
            state@[0] == 0x61707865u32, state@[1] == 0x3320646eu32, state@[2] == 0x79622d32u32, state@[3] == 0x6b206574u32,
            forall|j: int| 4 <= j < 12 ==> state@[j] == le32(#[trigger] key@.subrange(4 * (j - 4), 4 * (j - 4) + 4)),
            state@[12] == counter,
            forall|j: int| 13 <= j < i + 13 ==> state@[j] == le32(#[trigger] iv@.subrange(4 * (j - 13), 4 * (j - 13) + 4)),
//@end
        proof { assert(state@ =~= init_s(key@, iv@, counter)); }
//@endfn
//@fn crypto/chacha20/cipher.rs impl ChaCha20Block :: fn set_counter
//@spec
    ensures final(self).state@ == old(self).state@.update(12, counter),
//@endfn
//@fn crypto/chacha20/cipher.rs impl ChaCha20Block :: fn qround
//@spec
    requires a < 16, b < 16, c < 16, d < 16, a != b, a != c, a != d, b != c, b != d, c != d,
    ensures final(self).state@ == qr_o(old(self).state@, a as int, b as int, c as int, d as int),
//@start
        proof { reveal(qr_o); reveal(add32); reveal(rotl); }
        let ghost s0 = self.state@;
//@end
        proof { assert(x@ =~= qr(s0, a as int, b as int, c as int, d as int)); }
//@endfn
//@fn crypto/chacha20/cipher.rs impl ChaCha20Block :: fn get_block
//@ret r
//@spec
    ensures r@ == block_of(old(self).state@),
//@nloops 3
//@loop 0 it
        invariant self.state@ == drounds(initial_state@, it.index()),
//@in 0 start
            proof { reveal(double_round); reveal_with_fuel(drounds, 2); }
//@before 1
        let ghost s10 = self.state@;
        proof { assert(s10 == drounds(initial_state@, 10)); }
//@loop 1
        invariant
            s10.len() == 16, initial_state@.len() == 16,
            forall|j: int| 0 <= j < i ==> self.state@[j] == add32(s10[j], initial_state@[j]),
            forall|j: int| i <= j < 16 ==> self.state@[j] == s10[j],
//@in 1 start
            proof { reveal(add32); }
//@before 2
        let ghost fin = self.state@;
        proof { assert(fin =~= Seq::new(16, |i: int| add32(s10[i], initial_state@[i]))); }
//@loop 2
        invariant
            self.state@ == fin, out@.len() == 64,
            forall|j: int| 0 <= j < 4 * i__n ==> #[trigger] out@[j] == (fin[j / 4] >> ((8 * (j % 4)) as u32)) as u8,
//@in 2 start
            let ghost out0 = out@;
//@in 2 end
            proof {
                let w = fin[i__n as int];
                assert(w as u8 == (w >> 0u32) as u8) by(bit_vector);
                assert forall|j: int| 0 <= j < 4 * (i__n + 1) implies #[trigger] out@[j] == (fin[j / 4] >> ((8 * (j % 4)) as u32)) as u8 by {
                    if j < 4 * i__n { assert(out@[j] == out0[j]); }
                }
            }
//@end
        proof { assert(out@ =~= words_le(fin)); }
//@endfn
}
/// decryption inverts encryption (a lemma over the two contracts)
proof fn lemma_inverse(key: Seq<u8>, iv: Seq<u8>, counter: int, m: Seq<u8>)
    ensures chacha_enc(key, iv, counter, chacha_enc(key, iv, counter, m)) == m,
{
    assert forall|a: u8, b: u8| #[trigger] ((a ^ b) ^ b) == a by { assert(((a ^ b) ^ b) == a) by(bit_vector); }
    assert(chacha_enc(key, iv, counter, chacha_enc(key, iv, counter, m)) =~= m);
}
struct ChaCha20();
impl ChaCha20 {
//@fn crypto/chacha20/cipher.rs impl ChaCha20 :: fn encrypt
//@ret r
//@spec
    requires counter < 0x1_0000_0000, input@.len() < 0x1000_0000_0000_0000,
    ensures
        r is Some <==> (key@.len() == 32 && iv@.len() == 12) || input@.len() == 0,
        r is Some ==> r->0@ == chacha_enc(key@, iv@, counter as int, input@),
//@nloops 2
//@before 0
        let ghost ks = |i: int| chacha_block(key@, iv@, ((counter + i / 64) % 0x1_0000_0000) as u32)[i % 64];
//@loop 0
            invariant
                counter < 0x1_0000_0000, input@.len() < 0x1000_0000_0000_0000, output@.len() == input@.len(), blocks_len == (input@.len() + 63) / 64,
                ks == |i: int| chacha_block(key@, iv@, ((counter + i / 64) % 0x1_0000_0000) as u32)[i % 64],
                chacha20 is Some <==> (key@.len() == 32 && iv@.len() == 12),
                j > 0 ==> chacha20 is Some,
                chacha20 is Some ==> chacha20->0.state@ == init_s(key@, iv@, 0),
                forall|i: int| 0 <= i < input@.len() ==> #[trigger] output@[i] == (if i < 64 * j { input@[i] ^ ks(i) } else { input@[i] }),
//@before `let mut count = key_stream.len();`
            let ghost out0 = output@;
            proof {
                let c = ((counter + j as int) % 0x1_0000_0000) as u32;
                let x: usize = (counter + j) as usize; assert(x as u32 == (x % 0x1_0000_0000) as u32) by(bit_vector); assert(x as u32 == c);
                assert(init_s(key@, iv@, 0).update(12, c) =~= init_s(key@, iv@, c));
                assert(key_stream@ == chacha_block(key@, iv@, c));
            }
//@loop 1
                invariant
                    out0.len() == input@.len(), output@.len() == input@.len(), 64 * j + count <= input@.len(), key_stream@.len() == 64, count <= 64,
                    input@.len() < 0x1000_0000_0000_0000,
                    64 * (j + 1) <= input@.len() ==> count == 64,
                    64 * (j + 1) > input@.len() ==> count == input@.len() - 64 * j,
                    forall|k: int| 0 <= k < 64 ==> key_stream@[k] == ks(64 * j + k),
                    forall|k: int| 0 <= k < input@.len() ==> out0[k] == (if k < 64 * j { input@[k] ^ ks(k) } else { input@[k] }),
                    forall|k: int| 0 <= k < input@.len() ==> #[trigger] output@[k] == (if 64 * j <= k < 64 * j + i { out0[k] ^ ks(k) } else { out0[k] }),
//@end
        proof { assert(output@ =~= chacha_enc(key@, iv@, counter as int, input@)); }
//@endfn
//@fn crypto/chacha20/cipher.rs impl ChaCha20 :: fn decrypt
//@ret r
//@spec
    requires counter < 0x1_0000_0000, input@.len() < 0x1000_0000_0000_0000,
    ensures
        r is Some <==> (key@.len() == 32 && iv@.len() == 12) || input@.len() == 0,
        r is Some ==> r->0@ == chacha_enc(key@, iv@, counter as int, input@),
//@endfn
}
}
fn main() {}
