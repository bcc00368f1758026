// ---- RFC 5869 ----
/// T(i)
pub open spec fn hkdf_t(h: HashType, prk: Seq<u8>, info: Seq<u8>, i: int) -> Seq<u8>
    decreases i
{ if i <= 0 { Seq::<u8>::empty() } else { hmac_s(h, prk, hkdf_t(h, prk, info, i - 1) + info + seq![i as u8]) } }
/// T(1) || ... || T(n)
pub open spec fn hkdf_ts(h: HashType, prk: Seq<u8>, info: Seq<u8>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::<u8>::empty() } else { hkdf_ts(h, prk, info, n - 1) + hkdf_t(h, prk, info, n) } }
pub open spec fn hkdf_blocks(h: HashType, l: int) -> int { (l + hlen(h) - 1) / hlen(h) }
/// first l bytes of T(1) || T(2) || ...
pub open spec fn hkdf_okm(h: HashType, prk: Seq<u8>, info: Seq<u8>, l: int) -> Seq<u8>
{ hkdf_ts(h, prk, info, hkdf_blocks(h, l)).subrange(0, l) }
