/// the leftmost bits of a digest, as many as n has (n is just below 2^256)
pub open spec fn lmb(h: Seq<u8>) -> int { bei(if h.len() > 32 { h.subrange(0, 32) } else { h }) }
/// u1 * G + u2 * Q
pub open spec fn ecdsa_sum(q: Aff, r: int, s: int, z: int) -> Aff {
    let w = finv(s, NN()); padd(smul((z * w) % NN(), gen()), smul((r * w) % NN(), q))
}
/// FIPS 186-4, 6.4.2 / SEC 1, 4.1.4: the signature (r, s) on hash is valid under the key
pub open spec fn ecdsa_def(key: (int, int), r: int, s: int, hash: Seq<u8>) -> bool {
    &&& on(Aff::P(key.0, key.1)) &&& 0 < r < NN() &&& 0 < s < NN()
    &&& match ecdsa_sum(Aff::P(key.0, key.1), r, s, lmb(hash)) { Aff::O => false, Aff::P(x, y) => x % NN() == r }
}
