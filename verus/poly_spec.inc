// ---- RFC 8439, 2.5 - 2.8 ----
pub open spec fn P1305() -> int { {{HEX:3fffffffffffffffffffffffffffffffb}} }
pub open spec fn clamp(r: int) -> int { iand(r, {{HEX:0ffffffc0ffffffc0ffffffc0fffffff}}) }
/// number of 16-byte blocks, the last one possibly partial
pub open spec fn nblocks(m: Seq<u8>) -> int { (m.len() as int + 15) / 16 }
pub open spec fn pblock(m: Seq<u8>, i: int) -> Seq<u8> { m.subrange(16 * i, if 16 * (i + 1) <= m.len() { 16 * (i + 1) } else { m.len() as int }) }
/// the block with the byte 0x01 appended, little-endian
pub open spec fn pnum(b: Seq<u8>) -> int { le(b) + ipow2(8 * b.len() as int) }
/// accumulator after the first n blocks
pub open spec fn poly_acc(r: int, m: Seq<u8>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { (r * (poly_acc(r, m, n - 1) + pnum(pblock(m, n - 1)))) % P1305() } }
pub open spec fn poly_mac(key: Seq<u8>, m: Seq<u8>) -> Seq<u8> {
    enc_le(poly_acc(clamp(le(key.subrange(0, 16))), m, nblocks(m)) + le(key.subrange(16, 32)), 16)
}
pub open spec fn zpad16(n: int) -> Seq<u8> { Seq::new(((16 - n % 16) % 16) as nat, |i: int| 0u8) }
pub open spec fn poly_data(ct: Seq<u8>, aad: Seq<u8>) -> Seq<u8> {
    aad + zpad16(aad.len() as int) + ct + zpad16(ct.len() as int) + enc_le(aad.len() as int, 8) + enc_le(ct.len() as int, 8)
}
pub open spec fn otk(key: Seq<u8>, iv: Seq<u8>) -> Seq<u8> { chacha_block(key, iv, 0).subrange(0, 32) }
pub open spec fn seal_ct(key: Seq<u8>, iv: Seq<u8>, pt: Seq<u8>) -> Seq<u8> { chacha_enc(key, iv, 1, pt) }
pub open spec fn seal_tag(key: Seq<u8>, iv: Seq<u8>, ct: Seq<u8>, aad: Seq<u8>) -> Seq<u8> { poly_mac(otk(key, iv), poly_data(ct, aad)) }
