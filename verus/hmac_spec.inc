// ---- RFC 2104 ----
pub open spec fn hlen(h: HashType) -> int { if h == HashType::SHA256 { 32int } else { 48int } }
pub open spec fn hash_s(h: HashType, m: Seq<u8>) -> Seq<u8> { if h == HashType::SHA256 { sha256_s(m) } else { sha384_s(m) } }
/// block size of the hash
pub open spec fn bsize(h: HashType) -> int { if h == HashType::SHA256 { 64int } else { 128int } }
/// the key, hashed if longer than a block, zero-padded to a block
pub open spec fn hmac_key(h: HashType, key: Seq<u8>) -> Seq<u8> {
    let k = if key.len() > bsize(h) { hash_s(h, key) } else { key };
    k + zeros(bsize(h) - k.len())
}
pub open spec fn xor_pad(k: Seq<u8>, c: u8) -> Seq<u8> { Seq::new(k.len(), |i: int| k[i] ^ c) }
pub open spec fn hmac_s(h: HashType, key: Seq<u8>, m: Seq<u8>) -> Seq<u8> {
    hash_s(h, xor_pad(hmac_key(h, key), 0x5c) + hash_s(h, xor_pad(hmac_key(h, key), 0x36) + m))
}
pub open spec fn MAXKEY() -> int { 0x1f_ffff_ffff_0000 }
