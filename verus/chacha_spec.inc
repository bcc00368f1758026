// ---- RFC 8439, 2.1 - 2.4 ----
#[verifier::opaque]
pub open spec fn add32(x: u32, y: u32) -> u32 { ((x as int + y as int) % 0x1_0000_0000) as u32 }
#[verifier::opaque]
pub open spec fn rotl(x: u32, n: u32) -> u32 { (x << n) | (x >> ((32 - n) as u32)) }
/// quarter round on state words a, b, c, d (2.1, 2.2)
pub open spec fn qr(s: Seq<u32>, a: int, b: int, c: int, d: int) -> Seq<u32> {
    let a1 = add32(s[a], s[b]);  let d1 = rotl(s[d] ^ a1, 16);
    let c1 = add32(s[c], d1);    let b1 = rotl(s[b] ^ c1, 12);
    let a2 = add32(a1, b1);      let d2 = rotl(d1 ^ a2, 8);
    let c2 = add32(c1, d2);      let b2 = rotl(b1 ^ c2, 7);
    s.update(a, a2).update(b, b2).update(c, c2).update(d, d2)
}
#[verifier::opaque]
pub open spec fn qr_o(s: Seq<u32>, a: int, b: int, c: int, d: int) -> Seq<u32> { qr(s, a, b, c, d) }
/// inner_block (2.3.1)
#[verifier::opaque]
pub open spec fn double_round(s: Seq<u32>) -> Seq<u32> {
    let s = qr_o(s, 0, 4, 8, 12); let s = qr_o(s, 1, 5, 9, 13); let s = qr_o(s, 2, 6, 10, 14); let s = qr_o(s, 3, 7, 11, 15);
    let s = qr_o(s, 0, 5, 10, 15); let s = qr_o(s, 1, 6, 11, 12); let s = qr_o(s, 2, 7, 8, 13); qr_o(s, 3, 4, 9, 14)
}
pub open spec fn drounds(s: Seq<u32>, n: int) -> Seq<u32> decreases n
{ if n <= 0 { s } else { double_round(drounds(s, n - 1)) } }
/// little-endian bytes of the words
pub open spec fn words_le(w: Seq<u32>) -> Seq<u8> { Seq::new(4 * w.len(), |i: int| (w[i / 4] >> ((8 * (i % 4)) as u32)) as u8) }
pub open spec fn le32(b: Seq<u8>) -> u32 { ((b[0] as int) + 256 * (b[1] as int) + 65536 * (b[2] as int) + 16777216 * (b[3] as int)) as u32 }
pub open spec fn block_of(s: Seq<u32>) -> Seq<u8> { words_le(Seq::new(16, |i: int| add32(drounds(s, 10)[i], s[i]))) }
/// initial state (2.3)
pub open spec fn init_s(key: Seq<u8>, nonce: Seq<u8>, counter: u32) -> Seq<u32> {
    Seq::new(16, |i: int|
        if i == 0 { 0x61707865u32 } else if i == 1 { 0x3320646eu32 } else if i == 2 { 0x79622d32u32 } else if i == 3 { 0x6b206574u32 }
        else if i < 12 { le32(key.subrange(4 * (i - 4), 4 * (i - 4) + 4)) }
        else if i == 12 { counter }
        else { le32(nonce.subrange(4 * (i - 13), 4 * (i - 13) + 4)) })
}
pub open spec fn chacha_block(key: Seq<u8>, nonce: Seq<u8>, counter: u32) -> Seq<u8> { block_of(init_s(key, nonce, counter)) }
/// chacha20_encrypt (2.4.1): every byte is xored with the key stream of its block
pub open spec fn chacha_enc(key: Seq<u8>, nonce: Seq<u8>, counter: int, m: Seq<u8>) -> Seq<u8> {
    Seq::new(m.len(), |i: int| m[i] ^ chacha_block(key, nonce, ((counter + i / 64) % 0x1_0000_0000) as u32)[i % 64])
}
