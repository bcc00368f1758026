// ---- NIST SP 800-38D ----
/// bit string of a block, reversed: bit i of rev128(x) is the coefficient of u^i of the field element
pub  open spec fn revn(x: u128, n: int) -> u128 decreases n { if n <= 0 { 0 } else { (revn(x, n - 1) << 1u128) | ((x >> ((n - 1) as u128)) & 1) } }
pub  open spec fn rev128(x: u128) -> u128 { revn(x, 128) }
/// multiplication by u modulo u^128 + u^7 + u^2 + u + 1
pub open spec fn xtime(a: u128) -> u128 { (a << 1u128) ^ (if a & 0x8000_0000_0000_0000_0000_0000_0000_0000u128 != 0 { 0x87u128 } else { 0u128 }) }
pub open spec fn xtimes(a: u128, n: int) -> u128 decreases n { if n <= 0 { a } else { xtime(xtimes(a, n - 1)) } }
/// sum of u^i * a over the set bits i < n of b
pub open spec fn pmul(a: u128, b: u128, n: int) -> u128 decreases n
{ if n <= 0 { 0 } else { pmul(a, b, n - 1) ^ (if (b >> ((n - 1) as u128)) & 1 != 0 { xtimes(a, n - 1) } else { 0 }) } }
#[verifier::opaque]
pub open spec fn gf(x: u128, y: u128) -> u128 { rev128(pmul(rev128(x), rev128(y), 128)) }
pub open spec fn nb16(n: int) -> int { (n + 15) / 16 }
pub open spec fn pb16(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(16 * i, if 16 * (i + 1) <= s.len() { 16 * (i + 1) } else { s.len() as int }) }
/// GHASH continued from x over the first n (zero-padded) blocks of s
pub open spec fn ghash(x: u128, h: u128, s: Seq<u8>, n: int) -> u128 decreases n
{ if n <= 0 { x } else { gf(ghash(x, h, s, n - 1) ^ blk(pb16(s, n - 1)), h) } }
/// the counter block incremented n times in its last 32 bits
pub open spec fn incn(j: u128, n: int) -> u128 { (j & !0xffff_ffffu128) | (((j as int % 0x1_0000_0000 + n) % 0x1_0000_0000) as u128) }
pub open spec fn gcm_h(key: Seq<u8>) -> u128 { blk(aes_enc(key, Seq::new(16, |i: int| 0u8))) }
pub open spec fn gcm_j0(key: Seq<u8>, iv: Seq<u8>) -> u128 {
    if iv.len() == 12 { blk(iv) | 1u128 }
    else { gf(ghash(0, gcm_h(key), iv, nb16(iv.len() as int)) ^ ((iv.len() * 8) as u128), gcm_h(key)) }
}
pub open spec fn gctr(key: Seq<u8>, j0: u128, d: Seq<u8>) -> Seq<u8> { Seq::new(d.len(), |i: int| d[i] ^ aes_enc(key, ublk(incn(j0, i / 16 + 1)))[i % 16]) }
pub open spec fn gcm_tag(key: Seq<u8>, iv: Seq<u8>, ct: Seq<u8>, aad: Seq<u8>) -> Seq<u8> {
    let h = gcm_h(key);
    let x = ghash(ghash(0, h, aad, nb16(aad.len() as int)), h, ct, nb16(ct.len() as int));
    ublk(blk(aes_enc(key, ublk(gcm_j0(key, iv)))) ^ gf(x ^ ((((aad.len() * 8) as u128) << 64u128) | ((ct.len() * 8) as u128)), h))
}
pub open spec fn gcm_crypt(key: Seq<u8>, iv: Seq<u8>, d: Seq<u8>) -> Seq<u8> { gctr(key, gcm_j0(key, iv), d) }
