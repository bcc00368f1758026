// ---- FIPS 197 ----
/// multiplication by x in GF(2^8); product a * b, shift and add
pub open spec fn xt(a: u8) -> u8 { (a << 1u8) ^ (if a & 0x80 != 0 { 0x1bu8 } else { 0u8 }) }
pub open spec fn gm(a: u8, b: u8, n: nat) -> u8 decreases n { if n == 0 { 0 } else { (if b & 1 != 0 { a } else { 0u8 }) ^ gm(xt(a), b >> 1u8, (n - 1) as nat) } }
pub open spec fn rot8(a: u8, n: u8) -> u8 { (a << n) | (a >> ((8 - n) as u8)) }
/// S-box: affine transformation of the multiplicative inverse x^254
pub open spec fn aff(b: u8) -> u8 { b ^ rot8(b, 1) ^ rot8(b, 2) ^ rot8(b, 3) ^ rot8(b, 4) ^ 0x63u8 }
pub open spec fn ginv(a: u8) -> u8 {
    let a2 = gm(a, a, 8); let a4 = gm(a2, a2, 8); let a8 = gm(a4, a4, 8); let a16 = gm(a8, a8, 8); let a32 = gm(a16, a16, 8); let a64 = gm(a32, a32, 8); let a128 = gm(a64, a64, 8);
    gm(a128, gm(a64, gm(a32, gm(a16, gm(a8, gm(a4, a2, 8), 8), 8), 8), 8), 8)
}
#[verifier::opaque]
pub open spec fn sbox(x: u8) -> u8 { aff(ginv(x)) }
/// the same as a table (lemma_tab proves the equality), and its inverse
#[verifier::opaque]
pub open spec fn tab() -> Seq<u8> { seq![0x63u8, 0x7cu8, 0x77u8, 0x7bu8, 0xf2u8, 0x6bu8, 0x6fu8, 0xc5u8, 0x30u8, 0x01u8, 0x67u8, 0x2bu8, 0xfeu8, 0xd7u8, 0xabu8, 0x76u8, 0xcau8, 0x82u8, 0xc9u8, 0x7du8, 0xfau8, 0x59u8, 0x47u8, 0xf0u8, 0xadu8, 0xd4u8, 0xa2u8, 0xafu8, 0x9cu8, 0xa4u8, 0x72u8, 0xc0u8, 0xb7u8, 0xfdu8, 0x93u8, 0x26u8, 0x36u8, 0x3fu8, 0xf7u8, 0xccu8, 0x34u8, 0xa5u8, 0xe5u8, 0xf1u8, 0x71u8, 0xd8u8, 0x31u8, 0x15u8, 0x04u8, 0xc7u8, 0x23u8, 0xc3u8, 0x18u8, 0x96u8, 0x05u8, 0x9au8, 0x07u8, 0x12u8, 0x80u8, 0xe2u8, 0xebu8, 0x27u8, 0xb2u8, 0x75u8, 0x09u8, 0x83u8, 0x2cu8, 0x1au8, 0x1bu8, 0x6eu8, 0x5au8, 0xa0u8, 0x52u8, 0x3bu8, 0xd6u8, 0xb3u8, 0x29u8, 0xe3u8, 0x2fu8, 0x84u8, 0x53u8, 0xd1u8, 0x00u8, 0xedu8, 0x20u8, 0xfcu8, 0xb1u8, 0x5bu8, 0x6au8, 0xcbu8, 0xbeu8, 0x39u8, 0x4au8, 0x4cu8, 0x58u8, 0xcfu8, 0xd0u8, 0xefu8, 0xaau8, 0xfbu8, 0x43u8, 0x4du8, 0x33u8, 0x85u8, 0x45u8, 0xf9u8, 0x02u8, 0x7fu8, 0x50u8, 0x3cu8, 0x9fu8, 0xa8u8, 0x51u8, 0xa3u8, 0x40u8, 0x8fu8, 0x92u8, 0x9du8, 0x38u8, 0xf5u8, 0xbcu8, 0xb6u8, 0xdau8, 0x21u8, 0x10u8, 0xffu8, 0xf3u8, 0xd2u8, 0xcdu8, 0x0cu8, 0x13u8, 0xecu8, 0x5fu8, 0x97u8, 0x44u8, 0x17u8, 0xc4u8, 0xa7u8, 0x7eu8, 0x3du8, 0x64u8, 0x5du8, 0x19u8, 0x73u8, 0x60u8, 0x81u8, 0x4fu8, 0xdcu8, 0x22u8, 0x2au8, 0x90u8, 0x88u8, 0x46u8, 0xeeu8, 0xb8u8, 0x14u8, 0xdeu8, 0x5eu8, 0x0bu8, 0xdbu8, 0xe0u8, 0x32u8, 0x3au8, 0x0au8, 0x49u8, 0x06u8, 0x24u8, 0x5cu8, 0xc2u8, 0xd3u8, 0xacu8, 0x62u8, 0x91u8, 0x95u8, 0xe4u8, 0x79u8, 0xe7u8, 0xc8u8, 0x37u8, 0x6du8, 0x8du8, 0xd5u8, 0x4eu8, 0xa9u8, 0x6cu8, 0x56u8, 0xf4u8, 0xeau8, 0x65u8, 0x7au8, 0xaeu8, 0x08u8, 0xbau8, 0x78u8, 0x25u8, 0x2eu8, 0x1cu8, 0xa6u8, 0xb4u8, 0xc6u8, 0xe8u8, 0xddu8, 0x74u8, 0x1fu8, 0x4bu8, 0xbdu8, 0x8bu8, 0x8au8, 0x70u8, 0x3eu8, 0xb5u8, 0x66u8, 0x48u8, 0x03u8, 0xf6u8, 0x0eu8, 0x61u8, 0x35u8, 0x57u8, 0xb9u8, 0x86u8, 0xc1u8, 0x1du8, 0x9eu8, 0xe1u8, 0xf8u8, 0x98u8, 0x11u8, 0x69u8, 0xd9u8, 0x8eu8, 0x94u8, 0x9bu8, 0x1eu8, 0x87u8, 0xe9u8, 0xceu8, 0x55u8, 0x28u8, 0xdfu8, 0x8cu8, 0xa1u8, 0x89u8, 0x0du8, 0xbfu8, 0xe6u8, 0x42u8, 0x68u8, 0x41u8, 0x99u8, 0x2du8, 0x0fu8, 0xb0u8, 0x54u8, 0xbbu8, 0x16u8] }
#[verifier::opaque]
pub open spec fn itab() -> Seq<u8> { seq![0x52u8, 0x09u8, 0x6au8, 0xd5u8, 0x30u8, 0x36u8, 0xa5u8, 0x38u8, 0xbfu8, 0x40u8, 0xa3u8, 0x9eu8, 0x81u8, 0xf3u8, 0xd7u8, 0xfbu8, 0x7cu8, 0xe3u8, 0x39u8, 0x82u8, 0x9bu8, 0x2fu8, 0xffu8, 0x87u8, 0x34u8, 0x8eu8, 0x43u8, 0x44u8, 0xc4u8, 0xdeu8, 0xe9u8, 0xcbu8, 0x54u8, 0x7bu8, 0x94u8, 0x32u8, 0xa6u8, 0xc2u8, 0x23u8, 0x3du8, 0xeeu8, 0x4cu8, 0x95u8, 0x0bu8, 0x42u8, 0xfau8, 0xc3u8, 0x4eu8, 0x08u8, 0x2eu8, 0xa1u8, 0x66u8, 0x28u8, 0xd9u8, 0x24u8, 0xb2u8, 0x76u8, 0x5bu8, 0xa2u8, 0x49u8, 0x6du8, 0x8bu8, 0xd1u8, 0x25u8, 0x72u8, 0xf8u8, 0xf6u8, 0x64u8, 0x86u8, 0x68u8, 0x98u8, 0x16u8, 0xd4u8, 0xa4u8, 0x5cu8, 0xccu8, 0x5du8, 0x65u8, 0xb6u8, 0x92u8, 0x6cu8, 0x70u8, 0x48u8, 0x50u8, 0xfdu8, 0xedu8, 0xb9u8, 0xdau8, 0x5eu8, 0x15u8, 0x46u8, 0x57u8, 0xa7u8, 0x8du8, 0x9du8, 0x84u8, 0x90u8, 0xd8u8, 0xabu8, 0x00u8, 0x8cu8, 0xbcu8, 0xd3u8, 0x0au8, 0xf7u8, 0xe4u8, 0x58u8, 0x05u8, 0xb8u8, 0xb3u8, 0x45u8, 0x06u8, 0xd0u8, 0x2cu8, 0x1eu8, 0x8fu8, 0xcau8, 0x3fu8, 0x0fu8, 0x02u8, 0xc1u8, 0xafu8, 0xbdu8, 0x03u8, 0x01u8, 0x13u8, 0x8au8, 0x6bu8, 0x3au8, 0x91u8, 0x11u8, 0x41u8, 0x4fu8, 0x67u8, 0xdcu8, 0xeau8, 0x97u8, 0xf2u8, 0xcfu8, 0xceu8, 0xf0u8, 0xb4u8, 0xe6u8, 0x73u8, 0x96u8, 0xacu8, 0x74u8, 0x22u8, 0xe7u8, 0xadu8, 0x35u8, 0x85u8, 0xe2u8, 0xf9u8, 0x37u8, 0xe8u8, 0x1cu8, 0x75u8, 0xdfu8, 0x6eu8, 0x47u8, 0xf1u8, 0x1au8, 0x71u8, 0x1du8, 0x29u8, 0xc5u8, 0x89u8, 0x6fu8, 0xb7u8, 0x62u8, 0x0eu8, 0xaau8, 0x18u8, 0xbeu8, 0x1bu8, 0xfcu8, 0x56u8, 0x3eu8, 0x4bu8, 0xc6u8, 0xd2u8, 0x79u8, 0x20u8, 0x9au8, 0xdbu8, 0xc0u8, 0xfeu8, 0x78u8, 0xcdu8, 0x5au8, 0xf4u8, 0x1fu8, 0xddu8, 0xa8u8, 0x33u8, 0x88u8, 0x07u8, 0xc7u8, 0x31u8, 0xb1u8, 0x12u8, 0x10u8, 0x59u8, 0x27u8, 0x80u8, 0xecu8, 0x5fu8, 0x60u8, 0x51u8, 0x7fu8, 0xa9u8, 0x19u8, 0xb5u8, 0x4au8, 0x0du8, 0x2du8, 0xe5u8, 0x7au8, 0x9fu8, 0x93u8, 0xc9u8, 0x9cu8, 0xefu8, 0xa0u8, 0xe0u8, 0x3bu8, 0x4du8, 0xaeu8, 0x2au8, 0xf5u8, 0xb0u8, 0xc8u8, 0xebu8, 0xbbu8, 0x3cu8, 0x83u8, 0x53u8, 0x99u8, 0x61u8, 0x17u8, 0x2bu8, 0x04u8, 0x7eu8, 0xbau8, 0x77u8, 0xd6u8, 0x26u8, 0xe1u8, 0x69u8, 0x14u8, 0x63u8, 0x55u8, 0x21u8, 0x0cu8, 0x7du8] }
pub open spec fn isbox(x: u8) -> u8 { itab()[x as int] }
pub open spec fn all_tab(n: nat) -> bool decreases n { n == 0 || (tab()[n - 1] == sbox((n - 1) as u8) && itab()[tab()[n - 1] as int] == n - 1 && tab()[itab()[n - 1] as int] == n - 1 && all_tab((n - 1) as nat)) }
proof fn lemma_tab_n(n: nat, k: int) requires all_tab(n), 0 <= k < n,
    ensures tab()[k] == sbox(k as u8), itab()[tab()[k] as int] == k, tab()[itab()[k] as int] == k decreases n { if k < n - 1 { lemma_tab_n((n - 1) as nat, k); } }
proof fn lemma_tab(x: u8)
    ensures tab()[x as int] == sbox(x), isbox(sbox(x)) == x, sbox(isbox(x)) == x,
{
    assert(all_tab(256)) by(compute_only); lemma_tab_n(256, x as int); lemma_tab_n(256, isbox(x) as int);
}
pub open spec fn rcn(j: int) -> u8 decreases j { if j <= 1 { 1 } else { xt(rcn(j - 1)) } }
pub open spec fn subw(w: Seq<u8>) -> Seq<u8> { seq![sbox(w[0]), sbox(w[1]), sbox(w[2]), sbox(w[3])] }
pub open spec fn rotw(w: Seq<u8>) -> Seq<u8> { seq![w[1], w[2], w[3], w[0]] }
pub open spec fn xorw(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { seq![a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]] }
/// word i of the key expansion (5.2)
pub open spec fn kw(key: Seq<u8>, i: int) -> Seq<u8> decreases i
    when key.len() >= 4
{
    let nk = key.len() as int / 4;
    if i < nk || i <= 0 { seq![key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]] }
    else {
        let t = kw(key, i - 1);
        let u = if i % nk == 0 { xorw(subw(rotw(t)), seq![rcn(i / nk), 0u8, 0u8, 0u8]) } else if nk > 6 && i % nk == 4 { subw(t) } else { t };
        xorw(kw(key, i - nk), u)
    }
}
pub open spec fn nrounds(key: Seq<u8>) -> int { key.len() as int / 4 + 6 }
pub open spec fn s_sub(s: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| sbox(s[i])) }
pub open spec fn s_isub(s: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| isbox(s[i])) }
/// row r of the state is s[r], s[r + 4], s[r + 8], s[r + 12]; it is rotated by r
pub open spec fn s_shift(s: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| s[i % 4 + 4 * ((i / 4 + i % 4) % 4)]) }
pub open spec fn s_ishift(s: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| s[i % 4 + 4 * ((i / 4 + 4 - i % 4) % 4)]) }
pub open spec fn mcoef(inv: bool, k: int) -> u8 { if inv { if k == 0 { 0xeu8 } else if k == 1 { 0xbu8 } else if k == 2 { 0xdu8 } else { 0x9u8 } } else { if k == 0 { 2u8 } else if k == 1 { 3u8 } else { 1u8 } } }
/// sum of the first k products of row r of the matrix with column c of the state
pub open spec fn mpart(inv: bool, s: Seq<u8>, r: int, c: int, k: int) -> u8 decreases k { if k <= 0 { 0 } else { mpart(inv, s, r, c, k - 1) ^ gm(mcoef(inv, (k - 1 + 4 - r) % 4), s[k - 1 + 4 * c], 8) } }
pub open spec fn s_mix(inv: bool, s: Seq<u8>) -> Seq<u8> { Seq::new(16, |i: int| mpart(inv, s, i % 4, i / 4, 4)) }
pub open spec fn s_ark(key: Seq<u8>, s: Seq<u8>, n: int) -> Seq<u8> { Seq::new(16, |i: int| s[i] ^ kw(key, 4 * n + i / 4)[i % 4]) }
/// state after round n of the cipher (5.1)
pub open spec fn rnd(key: Seq<u8>, b: Seq<u8>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { s_ark(key, b, 0) }
    else {
        let t = s_shift(s_sub(rnd(key, b, n - 1)));
        s_ark(key, if n < nrounds(key) { s_mix(false, t) } else { t }, n)
    }
}
pub open spec fn aes_enc(key: Seq<u8>, b: Seq<u8>) -> Seq<u8> { rnd(key, b, nrounds(key)) }
/// state of the inverse cipher (5.3) after undoing round n
pub open spec fn irnd(key: Seq<u8>, c: Seq<u8>, n: int) -> Seq<u8> decreases nrounds(key) - n {
    if n >= nrounds(key) { s_ark(key, c, nrounds(key)) }
    else {
        let t = s_ark(key, s_isub(s_ishift(irnd(key, c, n + 1))), n);
        if n >= 1 { s_mix(true, t) } else { t }
    }
}
pub open spec fn aes_dec(key: Seq<u8>, c: Seq<u8>) -> Seq<u8> { irnd(key, c, 0) }
