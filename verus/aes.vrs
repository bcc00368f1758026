//@include head.inc
//@include aes_spec.inc
//@static crypto/aes/cipher.rs SBOX
    ensures forall|i: int, j: int| 0 <= i < 16 && 0 <= j < 16 ==> #[trigger] SBOX[i][j] == tab()[16 * i + j]
proof { reveal(tab); }
//@endstatic
//@static crypto/aes/cipher.rs INV_SBOX
    ensures forall|i: int, j: int| 0 <= i < 16 && 0 <= j < 16 ==> #[trigger] INV_SBOX[i][j] == itab()[16 * i + j]
proof { reveal(itab); }
//@endstatic
//@item crypto/aes/cipher.rs enum Blocksize derive=Clone,Copy
//@item crypto/aes/cipher.rs struct AES
spec fn bs_bits(b: Blocksize) -> int { match b { Blocksize::B128 => 128, Blocksize::B192 => 192, Blocksize::B256 => 256 } }
spec fn aes_wf(a: AES, key: Seq<u8>) -> bool {
    key.len() * 8 == bs_bits(a.blocksize) && forall|i: int| 0 <= i < 4 * (nrounds(key) + 1) ==> (#[trigger] a.expanded_key[i])@ == kw(key, i)
}
proof fn lemma_idx(x: u8)
    ensures ((x >> 4) & 0xf) < 16, (x & 0xf) < 16, ((x >> 4) & 0xf) * 16 + (x & 0xf) == x, tab()[x as int] == sbox(x),
{ assert(((x >> 4) & 0xf) < 16 && (x & 0xf) < 16 && ((x >> 4) & 0xf) * 16 + (x & 0xf) == x) by(bit_vector); lemma_tab(x); }
proof fn lemma_xor0()
    ensures forall|x: u8| #[trigger] (x ^ 0u8) == x, forall|x: u8| #[trigger] (0u8 ^ x) == x,
{ assert(forall|x: u8| #[trigger] (x ^ 0u8) == x) by(bit_vector); assert(forall|x: u8| #[trigger] (0u8 ^ x) == x) by(bit_vector); }
impl Blocksize {
//@fn crypto/aes/cipher.rs impl Blocksize :: fn new
//@ret r
//@spec
    ensures r is Some <==> (u == 128 || u == 192 || u == 256), r is Some ==> bs_bits(r->0) == u,
//@endfn
}
impl AES {
//@fn crypto/aes/cipher.rs impl AES :: fn gmult
//@ret r
//@spec
    ensures r == gm(a, b, 8),
//@before 0
    let ghost a0 = a; let ghost b0 = b;
    proof { lemma_xor0(); }
//@loop 0 it
    invariant gm(a0, b0, 8) == p ^ gm(a, b, (8 - it.index()) as nat), 0 <= it.index() <= 8,
//@in 0 start
    proof {
        let aa = a; let pp = p; let bb = b; let n = (8 - it.index()) as nat;
        let rest = gm(xt(aa), bb >> 1u8, (n - 1) as nat);
        assert(pp ^ (aa ^ rest) == (pp ^ aa) ^ rest) by(bit_vector);
        assert(pp ^ (0u8 ^ rest) == pp ^ rest) by(bit_vector);
        assert((aa << 1u8) ^ 0u8 == (aa << 1u8)) by(bit_vector);
        assert(aa >> 7u8 <= 1u8 && (aa & 0x80u8 != 0 <==> aa >> 7u8 == 1u8) && (aa & 0x80u8 == 0 <==> aa >> 7u8 == 0u8)) by(bit_vector);
    }
//@end
    proof { lemma_xor0(); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn sub_word
//@spec
    ensures final(word)@ == subw(old(word)@),
//@loop 0
    invariant word@.len() == 4, forall|k: int| 0 <= k < 4 ==> #[trigger] word@[k] == if k < i { sbox(old(word)@[k]) } else { old(word)@[k] },
//@in 0 start
    proof { lemma_idx(word@[i as int]); }
//@end
    proof { assert(word@ =~= subw(old(word)@)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn rot_word
//@spec
    ensures final(word)@ == rotw(old(word)@),
//@end
    proof { assert(word@ =~= rotw(old(word)@)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn sub_bytes
//@spec
    ensures final(self).state@ == s_sub(old(self).state@), final(self).blocksize == old(self).blocksize, final(self).expanded_key == old(self).expanded_key,
//@loop 0
    invariant
        self.state@.len() == 16, self.blocksize == old(self).blocksize, self.expanded_key == old(self).expanded_key,
        forall|k: int| 0 <= k < 16 ==> #[trigger] self.state@[k] == if k < i { sbox(old(self).state@[k]) } else { old(self).state@[k] },
//@in 0 start
    proof { lemma_idx(self.state@[i as int]); }
//@end
    proof { assert(self.state@ =~= s_sub(old(self).state@)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn inv_sub_bytes
//@spec
    ensures final(self).state@ == s_isub(old(self).state@), final(self).blocksize == old(self).blocksize, final(self).expanded_key == old(self).expanded_key,
//@loop 0
    invariant
        self.state@.len() == 16, self.blocksize == old(self).blocksize, self.expanded_key == old(self).expanded_key,
        forall|k: int| 0 <= k < 16 ==> #[trigger] self.state@[k] == if k < i { isbox(old(self).state@[k]) } else { old(self).state@[k] },
//@in 0 start
    proof { lemma_idx(self.state@[i as int]); }
//@end
    proof { assert(self.state@ =~= s_isub(old(self).state@)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn shift_rows
//@spec
    ensures final(self).state@ == s_shift(old(self).state@), final(self).blocksize == old(self).blocksize, final(self).expanded_key == old(self).expanded_key,
//@end
    proof { assert(self.state@ =~= s_shift(old(self).state@)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn inv_shift_rows
//@spec
    ensures final(self).state@ == s_ishift(old(self).state@), final(self).blocksize == old(self).blocksize, final(self).expanded_key == old(self).expanded_key,
//@end
    proof { assert(self.state@ =~= s_ishift(old(self).state@)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn mix_columns
//@spec
    ensures final(self).state@ == s_mix(inverse, old(self).state@), final(self).blocksize == old(self).blocksize, final(self).expanded_key == old(self).expanded_key,
//@nloops 3
//@before 0
    let ghost s = self.state@;
    proof {
        assert forall|i: int| 0 <= i < 16 implies #[trigger] matrix@[i] == mcoef(inverse, (i % 4 + 4 - i / 4) % 4) by {
            assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || i == 15);
        }
    }
//@loop 0
    invariant
        self.state@ == s, s.len() == 16, tmp_matrix@.len() == 16, self.blocksize == old(self).blocksize, self.expanded_key == old(self).expanded_key,
        forall|i: int| 0 <= i < 16 ==> #[trigger] matrix@[i] == mcoef(inverse, (i % 4 + 4 - i / 4) % 4),
        forall|i: int| 0 <= i < 16 ==> #[trigger] tmp_matrix@[i] == if i < 4 * column { mpart(inverse, s, i % 4, i / 4, 4) } else { 0u8 },
//@loop 1
    invariant
        self.state@ == s, s.len() == 16, tmp_matrix@.len() == 16, 0 <= column < 4,
        forall|i: int| 0 <= i < 16 ==> #[trigger] matrix@[i] == mcoef(inverse, (i % 4 + 4 - i / 4) % 4),
        forall|i: int| 0 <= i < 16 ==> #[trigger] tmp_matrix@[i] == if i < 4 * (column as int) + (row as int) { mpart(inverse, s, i % 4, i / 4, 4) } else { 0u8 },
//@loop 2
    invariant
        self.state@ == s, s.len() == 16, tmp_matrix@.len() == 16, 0 <= column < 4, 0 <= row < 4,
        forall|i: int| 0 <= i < 16 ==> #[trigger] matrix@[i] == mcoef(inverse, (i % 4 + 4 - i / 4) % 4),
        forall|i: int| 0 <= i < 16 ==> #[trigger] tmp_matrix@[i] == if i < 4 * (column as int) + (row as int) { mpart(inverse, s, i % 4, i / 4, 4) } else if i == 4 * (column as int) + (row as int) { mpart(inverse, s, row as int, column as int, matrix_column as int) } else { 0u8 },
//@in 2 start
    proof { let r_ = row as int; let m_ = matrix_column as int; assert((r_ * 4 + m_) / 4 == r_ && (r_ * 4 + m_) % 4 == m_); }
//@in 1 end
    proof { let r_ = row as int; let c_ = column as int; assert((4 * c_ + r_) / 4 == c_ && (4 * c_ + r_) % 4 == r_); }
//@end
    proof { assert(tmp_matrix@ =~= s_mix(inverse, s)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn add_round_key
//@spec
    requires exists|key: Seq<u8>| #[trigger] aes_wf(*old(self), key), round <= bs_bits(old(self).blocksize) / 32 + 6,
    ensures final(self).blocksize == old(self).blocksize, final(self).expanded_key == old(self).expanded_key,
        forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) ==> final(self).state@ == s_ark(key, old(self).state@, round as int),
//@before 0
    let ghost s = self.state@; let ghost ek = self.expanded_key;
//@loop 0
    invariant
        round <= 14, s.len() == 16, self.blocksize == old(self).blocksize, self.expanded_key == ek, ek == old(self).expanded_key,
        forall|i: int| 0 <= i < 16 ==> #[trigger] self.state@[i] == if i < 4 * x { s[i] ^ ek[4 * round + i / 4][i % 4] } else { s[i] },
//@loop 1
    invariant
        round <= 14, s.len() == 16, self.blocksize == old(self).blocksize, self.expanded_key == ek, 0 <= x < 4, ek == old(self).expanded_key,
        forall|i: int| 0 <= i < 16 ==> #[trigger] self.state@[i] == if i < 4 * (x as int) + (y as int) { s[i] ^ ek[4 * round + i / 4][i % 4] } else { s[i] },
//@in 1 start
    proof { let x_ = x as int; let y_ = y as int; assert((4 * x_ + y_) / 4 == x_ && (4 * x_ + y_) % 4 == y_); }
//@end
    proof {
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) implies self.state@ == s_ark(key, s, round as int) by {
            assert forall|i: int| 0 <= i < 16 implies self.state@[i] == #[trigger] s_ark(key, s, round as int)[i] by {
                let w = 4 * round + i / 4;
                assert(ek[w]@ == kw(key, w));
            }
            assert(self.state@ =~= s_ark(key, s, round as int));
        }
    }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn get_expanded_key
//@subst `^ tmp;` => `^ *tmp;` opt
//@subst `.to_owned()` => `` opt
//@ret r
//@spec
    requires key@.len() * 8 == bs_bits(blocksize),
    ensures forall|i: int| 0 <= i < 4 * (nrounds(key@) + 1) ==> (#[trigger] r[i])@ == kw(key@, i),
//@nloops 4
//@loop 0
    invariant
        nk * 4 == key@.len(), nk == 4 || nk == 6 || nk == 8,
        forall|k: int| 0 <= k < i ==> (#[trigger] expanded_key[k])@ == kw(key@, k),
//@loop 1
    invariant
        nk * 4 == key@.len(), nk == 4 || nk == 6 || nk == 8, 0 <= i < nk,
        forall|k: int| 0 <= k < i ==> (#[trigger] expanded_key[k])@ == kw(key@, k),
        forall|k: int| 0 <= k < j ==> #[trigger] expanded_key[i as int][k] == key@[4 * i + k],
//@in 0 end
    proof { assert(expanded_key[i as int]@ =~= kw(key@, i as int)); }
//@before 2
    proof {
        assert(rcon@ =~= seq![1u8, 2, 4, 8, 16, 32, 64, 128, 0x1b, 0x36]);
        assert forall|k: int| 0 <= k < 10 implies #[trigger] rcon@[k] == rcn(k + 1) by { lemma_rcon(); }
    }
//@loop 2
    invariant
        nk * 4 == key@.len(), nk == 4 || nk == 6 || nk == 8, nr == nk + 6,
        forall|k: int| 0 <= k < 10 ==> #[trigger] rcon@[k] == rcn(k + 1),
        forall|k: int| 0 <= k < i ==> (#[trigger] expanded_key[k])@ == kw(key@, k),
//@in 2 start
    proof {
        assert(expanded_key[i - 1]@ == kw(key@, i - 1)); assert(expanded_key[i - nk]@ == kw(key@, i - nk)); lemma_xor0(); lemma_kw_len(key@, i - 1); lemma_kw_len(key@, i - nk);
        if nk == 4 { assert(i / nk <= 10); } else if nk == 6 { assert(i / nk <= 8); } else { assert(i / nk <= 7); }
        if i % nk == 0 { assert(i / nk >= 1); }
    }
//@before 3
    let ghost u = if i as int % nk as int == 0 { xorw(subw(rotw(kw(key@, i - 1))), seq![rcn(i as int / nk as int), 0u8, 0u8, 0u8]) } else if nk > 6 && i as int % nk as int == 4 { subw(kw(key@, i - 1)) } else { kw(key@, i - 1) };
    proof { assert(temp@ =~= u); }
//@loop 3
    invariant
        nk * 4 == key@.len(), nk == 4 || nk == 6 || nk == 8, nk <= i < 60, temp@ == u, u.len() == 4,
        forall|k: int| 0 <= k < i ==> (#[trigger] expanded_key[k])@ == kw(key@, k),
        forall|k: int| 0 <= k < j ==> #[trigger] expanded_key[i as int][k] == kw(key@, i - nk)[k] ^ u[k],
//@in 3 start
    proof { assert(expanded_key[i - nk]@ == kw(key@, i - nk)); }
//@in 2 end
    proof { assert(expanded_key[i as int]@ =~= xorw(kw(key@, i - nk), u)); }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn init
//@ret r
//@spec
    requires key@.len() * 8 == bs_bits(blocksize),
    ensures aes_wf(r, key@),
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn encrypt
//@ret r
//@spec
    requires exists|key: Seq<u8>| #[trigger] aes_wf(*old(self), key),
    ensures forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) ==> aes_wf(*final(self), key) && r@ == aes_enc(key, input@),
//@before `self.add_round_key(0)`
    let ghost kk = choose|key: Seq<u8>| aes_wf(*old(self), key);
    let ghost ek = self.expanded_key; let ghost bs = self.blocksize;
    proof { assert(aes_wf(*self, kk));
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) <==> aes_wf(*self, key) by { } }
//@loop 0
    invariant
        self.expanded_key == ek, self.blocksize == bs, ek == old(self).expanded_key, bs == old(self).blocksize, rounds == bs_bits(bs) / 32 + 6,
        aes_wf(*old(self), kk),
        forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) ==> self.state@ == rnd(key, input@, round - 1),
//@in 0 start
    proof {
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) <==> aes_wf(*self, key) by { }
        assert(aes_wf(*self, kk));
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) implies nrounds(key) == rounds by { }
    }
//@before `self.add_round_key(round)`
    proof {
        assert(aes_wf(*self, kk));
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) <==> aes_wf(*self, key) by { }
    }
//@endfn
//@fn crypto/aes/cipher.rs impl AES :: fn decrypt
//@ret r
//@spec
    requires exists|key: Seq<u8>| #[trigger] aes_wf(*old(self), key),
    ensures forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) ==> aes_wf(*final(self), key) && r@ == aes_dec(key, input@),
//@before `self.add_round_key(rounds)`
    let ghost kk = choose|key: Seq<u8>| aes_wf(*old(self), key);
    let ghost ek = self.expanded_key; let ghost bs = self.blocksize;
    proof { assert(aes_wf(*self, kk));
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) <==> aes_wf(*self, key) by { }
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) implies nrounds(key) == rounds by { } }
//@loop 0
    invariant
        self.expanded_key == ek, self.blocksize == bs, ek == old(self).expanded_key, bs == old(self).blocksize, rounds == bs_bits(bs) / 32 + 6,
        aes_wf(*old(self), kk),
        forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) ==> nrounds(key) == rounds && self.state@ == irnd(key, input@, rounds - round__k),
//@before `self.add_round_key(round)`
    proof {
        assert(aes_wf(*self, kk));
        assert forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) <==> aes_wf(*self, key) by { }
    }
//@endfn
}
/// the inverse transformations undo the transformations
proof fn lemma_round_inv(s: Seq<u8>)
    requires s.len() == 16, ensures s_isub(s_ishift(s_shift(s_sub(s)))) == s,
{
    assert forall|i: int| 0 <= i < 16 implies s_isub(s_ishift(s_shift(s_sub(s))))[i] == s[i] by {
        lemma_tab(s[i]);
        assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || i == 15);
    }
    assert(s_isub(s_ishift(s_shift(s_sub(s)))) =~= s);
}
proof fn lemma_ark_inv(key: Seq<u8>, s: Seq<u8>, n: int)
    requires s.len() == 16, ensures s_ark(key, s_ark(key, s, n), n) == s,
{
    assert forall|i: int| 0 <= i < 16 implies s_ark(key, s_ark(key, s, n), n)[i] == s[i] by {
        let a = s[i]; let b = kw(key, 4 * n + i / 4)[i % 4];
        assert((a ^ b) ^ b == a) by(bit_vector);
    }
    assert(s_ark(key, s_ark(key, s, n), n) =~= s);
}
/// products by the matrix entries, written with doublings
pub open spec fn m2(x: u8) -> u8 { xt(x) }
proof fn lemma_gm_consts(x: u8)
    ensures
        gm(1, x, 8) == x, gm(2, x, 8) == xt(x), gm(3, x, 8) == xt(x) ^ x, gm(9, x, 8) == xt(xt(xt(x))) ^ x, gm(0xb, x, 8) == xt(xt(xt(x))) ^ xt(x) ^ x,
        gm(0xd, x, 8) == xt(xt(xt(x))) ^ xt(xt(x)) ^ x, gm(0xe, x, 8) == xt(xt(xt(x))) ^ xt(xt(x)) ^ xt(x),
{
    assert(all_consts(256)) by(compute_only); lemma_consts_n(256, x as int);
}
pub open spec fn consts_ok(x: u8) -> bool {
    gm(1, x, 8) == x && gm(2, x, 8) == xt(x) && gm(3, x, 8) == xt(x) ^ x && gm(9, x, 8) == xt(xt(xt(x))) ^ x && gm(0xb, x, 8) == xt(xt(xt(x))) ^ xt(x) ^ x
    && gm(0xd, x, 8) == xt(xt(xt(x))) ^ xt(xt(x)) ^ x && gm(0xe, x, 8) == xt(xt(xt(x))) ^ xt(xt(x)) ^ xt(x)
}
pub open spec fn all_consts(n: nat) -> bool decreases n { n == 0 || (consts_ok((n - 1) as u8) && all_consts((n - 1) as nat)) }
proof fn lemma_consts_n(n: nat, k: int) requires all_consts(n), 0 <= k < n, n <= 256, ensures consts_ok(k as u8), decreases n { if k < n - 1 { lemma_consts_n((n - 1) as nat, k); } }
proof fn lemma_mix4(inv: bool, s: Seq<u8>, r: int, c: int)
    requires 0 <= r < 4, 0 <= c < 4, s.len() == 16,
    ensures mpart(inv, s, r, c, 4) == gm(mcoef(inv, (4 - r) % 4), s[4 * c], 8) ^ gm(mcoef(inv, (5 - r) % 4), s[4 * c + 1], 8) ^ gm(mcoef(inv, (6 - r) % 4), s[4 * c + 2], 8) ^ gm(mcoef(inv, (7 - r) % 4), s[4 * c + 3], 8),
{
    reveal_with_fuel(mpart, 5);
    let a = gm(mcoef(inv, (4 - r) % 4), s[4 * c], 8);
    assert(0u8 ^ a == a) by(bit_vector);
}
proof fn lemma_mix_inv(s: Seq<u8>)
    requires s.len() == 16, ensures s_mix(true, s_mix(false, s)) == s,
{
    let t = s_mix(false, s);
    assert forall|i: int| 0 <= i < 16 implies s_mix(true, t)[i] == s[i] by {
        let c = i / 4; let r = i % 4;
        lemma_mix4(false, s, 0, c); lemma_mix4(false, s, 1, c); lemma_mix4(false, s, 2, c); lemma_mix4(false, s, 3, c);
        lemma_mix4(true, t, r, c);
        let a = s[4 * c]; let b = s[4 * c + 1]; let d = s[4 * c + 2]; let e = s[4 * c + 3];
        lemma_gm_consts(a); lemma_gm_consts(b); lemma_gm_consts(d); lemma_gm_consts(e);
        let w = t[4 * c]; let x = t[4 * c + 1]; let y = t[4 * c + 2]; let z = t[4 * c + 3];
        lemma_gm_consts(w); lemma_gm_consts(x); lemma_gm_consts(y); lemma_gm_consts(z);
        assert((4 * c) % 4 == 0 && (4 * c) / 4 == c && (4 * c + 1) % 4 == 1 && (4 * c + 1) / 4 == c && (4 * c + 2) % 4 == 2 && (4 * c + 2) / 4 == c && (4 * c + 3) % 4 == 3 && (4 * c + 3) / 4 == c);
        assert(w == xt(a) ^ (xt(b) ^ b) ^ d ^ e);
        assert(x == a ^ xt(b) ^ (xt(d) ^ d) ^ e);
        assert(y == a ^ b ^ xt(d) ^ (xt(e) ^ e));
        assert(z == (xt(a) ^ a) ^ b ^ d ^ xt(e));
        lemma_mix_word(a, b, d, e, w, x, y, z);
        assert(r == 0 || r == 1 || r == 2 || r == 3);
    }
    assert(s_mix(true, t) =~= s);
}
proof fn lemma_xt_add(a: u8, b: u8) ensures xt(a ^ b) == xt(a) ^ xt(b)
{ assert(((a ^ b) << 1u8) ^ (if (a ^ b) & 0x80 != 0 { 0x1bu8 } else { 0u8 }) == ((a << 1u8) ^ (if a & 0x80 != 0 { 0x1bu8 } else { 0u8 })) ^ ((b << 1u8) ^ (if b & 0x80 != 0 { 0x1bu8 } else { 0u8 }))) by(bit_vector); }
proof fn lemma_mix_word(a: u8, b: u8, c: u8, d: u8, w: u8, x: u8, y: u8, z: u8)
    requires
        w == xt(a) ^ (xt(b) ^ b) ^ c ^ d, x == a ^ xt(b) ^ (xt(c) ^ c) ^ d, y == a ^ b ^ xt(c) ^ (xt(d) ^ d), z == (xt(a) ^ a) ^ b ^ c ^ xt(d),
    ensures
        (xt(xt(xt(w))) ^ xt(xt(w)) ^ xt(w)) ^ (xt(xt(xt(x))) ^ xt(x) ^ x) ^ (xt(xt(xt(y))) ^ xt(xt(y)) ^ y) ^ (xt(xt(xt(z))) ^ z) == a,
        (xt(xt(xt(w))) ^ w) ^ (xt(xt(xt(x))) ^ xt(xt(x)) ^ xt(x)) ^ (xt(xt(xt(y))) ^ xt(y) ^ y) ^ (xt(xt(xt(z))) ^ xt(xt(z)) ^ z) == b,
        (xt(xt(xt(w))) ^ xt(xt(w)) ^ w) ^ (xt(xt(xt(x))) ^ x) ^ (xt(xt(xt(y))) ^ xt(xt(y)) ^ xt(y)) ^ (xt(xt(xt(z))) ^ xt(z) ^ z) == c,
        (xt(xt(xt(w))) ^ xt(w) ^ w) ^ (xt(xt(xt(x))) ^ xt(xt(x)) ^ x) ^ (xt(xt(xt(y))) ^ y) ^ (xt(xt(xt(z))) ^ xt(xt(z)) ^ xt(z)) == d,
{
    // every term expanded over xt^k of a, b, c, d
    let (a1, b1, c1, d1) = (xt(a), xt(b), xt(c), xt(d)); let (a2, b2, c2, d2) = (xt(a1), xt(b1), xt(c1), xt(d1));
    let (a3, b3, c3, d3) = (xt(a2), xt(b2), xt(c2), xt(d2)); let (a4, b4, c4, d4) = (xt(a3), xt(b3), xt(c3), xt(d3));
    lemma_lin4(a1, b1 ^ b, c, d); lemma_xt_add(b1, b); let w1 = xt(w); assert(w1 == a2 ^ (b2 ^ b1) ^ c1 ^ d1);
    lemma_lin4(a2, b2 ^ b1, c1, d1); lemma_xt_add(b2, b1); let w2 = xt(w1); assert(w2 == a3 ^ (b3 ^ b2) ^ c2 ^ d2);
    lemma_lin4(a3, b3 ^ b2, c2, d2); lemma_xt_add(b3, b2); let w3 = xt(w2); assert(w3 == a4 ^ (b4 ^ b3) ^ c3 ^ d3);
    lemma_lin4(a, b1, c1 ^ c, d); lemma_xt_add(c1, c); let x1 = xt(x); assert(x1 == a1 ^ b2 ^ (c2 ^ c1) ^ d1);
    lemma_lin4(a1, b2, c2 ^ c1, d1); lemma_xt_add(c2, c1); let x2 = xt(x1); assert(x2 == a2 ^ b3 ^ (c3 ^ c2) ^ d2);
    lemma_lin4(a2, b3, c3 ^ c2, d2); lemma_xt_add(c3, c2); let x3 = xt(x2); assert(x3 == a3 ^ b4 ^ (c4 ^ c3) ^ d3);
    lemma_lin4(a, b, c1, d1 ^ d); lemma_xt_add(d1, d); let y1 = xt(y); assert(y1 == a1 ^ b1 ^ c2 ^ (d2 ^ d1));
    lemma_lin4(a1, b1, c2, d2 ^ d1); lemma_xt_add(d2, d1); let y2 = xt(y1); assert(y2 == a2 ^ b2 ^ c3 ^ (d3 ^ d2));
    lemma_lin4(a2, b2, c3, d3 ^ d2); lemma_xt_add(d3, d2); let y3 = xt(y2); assert(y3 == a3 ^ b3 ^ c4 ^ (d4 ^ d3));
    lemma_lin4(a1 ^ a, b, c, d1); lemma_xt_add(a1, a); let z1 = xt(z); assert(z1 == (a2 ^ a1) ^ b1 ^ c1 ^ d2);
    lemma_lin4(a2 ^ a1, b1, c1, d2); lemma_xt_add(a2, a1); let z2 = xt(z1); assert(z2 == (a3 ^ a2) ^ b2 ^ c2 ^ d3);
    lemma_lin4(a3 ^ a2, b2, c2, d3); lemma_xt_add(a3, a2); let z3 = xt(z2); assert(z3 == (a4 ^ a3) ^ b3 ^ c3 ^ d4);
    // now the sums cancel
    assert(
        (w == a1 ^ (b1 ^ b) ^ c ^ d && w1 == a2 ^ (b2 ^ b1) ^ c1 ^ d1 && w2 == a3 ^ (b3 ^ b2) ^ c2 ^ d2 && w3 == a4 ^ (b4 ^ b3) ^ c3 ^ d3
        && x == a ^ b1 ^ (c1 ^ c) ^ d && x1 == a1 ^ b2 ^ (c2 ^ c1) ^ d1 && x2 == a2 ^ b3 ^ (c3 ^ c2) ^ d2 && x3 == a3 ^ b4 ^ (c4 ^ c3) ^ d3
        && y == a ^ b ^ c1 ^ (d1 ^ d) && y1 == a1 ^ b1 ^ c2 ^ (d2 ^ d1) && y2 == a2 ^ b2 ^ c3 ^ (d3 ^ d2) && y3 == a3 ^ b3 ^ c4 ^ (d4 ^ d3)
        && z == (a1 ^ a) ^ b ^ c ^ d1 && z1 == (a2 ^ a1) ^ b1 ^ c1 ^ d2 && z2 == (a3 ^ a2) ^ b2 ^ c2 ^ d3 && z3 == (a4 ^ a3) ^ b3 ^ c3 ^ d4) ==>
        (w3 ^ w2 ^ w1) ^ (x3 ^ x1 ^ x) ^ (y3 ^ y2 ^ y) ^ (z3 ^ z) == a
        && (w3 ^ w) ^ (x3 ^ x2 ^ x1) ^ (y3 ^ y1 ^ y) ^ (z3 ^ z2 ^ z) == b
        && (w3 ^ w2 ^ w) ^ (x3 ^ x) ^ (y3 ^ y2 ^ y1) ^ (z3 ^ z1 ^ z) == c
        && (w3 ^ w1 ^ w) ^ (x3 ^ x2 ^ x) ^ (y3 ^ y) ^ (z3 ^ z2 ^ z1) == d) by(bit_vector);
}
proof fn lemma_lin4(a: u8, b: u8, c: u8, d: u8) ensures xt(a ^ b ^ c ^ d) == xt(a) ^ xt(b) ^ xt(c) ^ xt(d)
{ lemma_xt_add(a ^ b ^ c, d); lemma_xt_add(a ^ b, c); lemma_xt_add(a, b); }
proof fn lemma_rnd_len(key: Seq<u8>, b: Seq<u8>, n: int) ensures rnd(key, b, n).len() == 16 { }
/// decryption inverts encryption
proof fn lemma_dec(key: Seq<u8>, b: Seq<u8>, n: int)
    requires b.len() == 16, key.len() >= 4, 0 <= n <= nrounds(key),
    ensures irnd(key, aes_enc(key, b), n) == if n == 0 { b } else { s_shift(s_sub(rnd(key, b, n - 1))) },
    decreases nrounds(key) - n
{
    let nr = nrounds(key);
    if n == nr { lemma_ark_inv(key, s_shift(s_sub(rnd(key, b, nr - 1))), nr); }
    else {
        lemma_dec(key, b, n + 1);
        lemma_rnd_len(key, b, n);
        lemma_round_inv(rnd(key, b, n));
        if n == 0 { lemma_ark_inv(key, b, 0); }
        else {
            let t = s_shift(s_sub(rnd(key, b, n - 1)));
            lemma_ark_inv(key, s_mix(false, t), n); lemma_mix_inv(t);
        }
    }
}
proof fn lemma_aes_inverse(key: Seq<u8>, b: Seq<u8>)
    requires b.len() == 16, key.len() >= 4, ensures aes_dec(key, aes_enc(key, b)) == b, aes_enc(key, b).len() == 16,
{ lemma_dec(key, b, 0); lemma_rnd_len(key, b, nrounds(key)); }
proof fn lemma_rcon()
    ensures rcn(1) == 1u8, rcn(2) == 2u8, rcn(3) == 4u8, rcn(4) == 8u8, rcn(5) == 16u8, rcn(6) == 32u8, rcn(7) == 64u8, rcn(8) == 128u8, rcn(9) == 0x1bu8, rcn(10) == 0x36u8,
{ assert(rcn(1) == 1u8 && rcn(2) == 2u8 && rcn(3) == 4u8 && rcn(4) == 8u8 && rcn(5) == 16u8 && rcn(6) == 32u8 && rcn(7) == 64u8 && rcn(8) == 128u8 && rcn(9) == 0x1bu8 && rcn(10) == 0x36u8) by(compute_only); }
proof fn lemma_kw_len(key: Seq<u8>, i: int) requires key.len() >= 4, ensures kw(key, i).len() == 4 { }
}
fn main() {}
