//@include head.inc
//@include u128_spec.inc
//@include u128_contract.inc
//@include aes_contract.inc
//@include gcm_spec.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
pub assume_specification [u128::reverse_bits] (x: u128) -> (r: u128) ensures r == rev128(x);
#[verifier::external_body]
fn vx_eq_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@), { unimplemented!() }
//@item crypto/aes/gcm.rs struct Gcm
proof fn lemma_shr_bytes(x: u128, n: int, j: int)
    requires 1 <= n <= 16, 0 <= j < n,
    ensures ub(x >> ((8 * (16 - n)) as u128), 16 - n + j) == ub(x, j),
{
    let k = n as u128; let l = j as u128;
    assert(1 <= k <= 16 && l < k ==> ((x >> mul(8u128, sub(16u128, k))) >> sub(120u128, mul(8u128, add(sub(16u128, k), l)))) as u8 == (x >> sub(120u128, mul(8u128, l))) as u8) by(bit_vector);
}
proof fn lemma_shrl_bytes(x: u128, n: int, j: int)
    requires 1 <= n <= 16, 0 <= j < 16,
    ensures ub((x >> ((8 * (16 - n)) as u128)) << ((8 * (16 - n)) as u128), j) == if j < n { ub(x, j) } else { 0u8 },
{
    let k = n as u128; let l = j as u128;
    assert(1 <= k <= 16 && l < 16 ==> (((x >> mul(8u128, sub(16u128, k))) << mul(8u128, sub(16u128, k))) >> sub(120u128, mul(8u128, l))) as u8 == if l < k { (x >> sub(120u128, mul(8u128, l))) as u8 } else { 0u8 }) by(bit_vector);
}
/// one (possibly partial) block of counter mode
proof fn lemma_ctr_block(s: Seq<u8>, e: Seq<u8>, x: u128, o: Seq<u8>)
    requires
        1 <= s.len() <= 16, e.len() == 16, x == blk(s) ^ blk(e),
        o == ublk(x >> ((8 * (16 - s.len())) as u128)).subrange(16 - s.len(), 16),
    ensures
        o == Seq::new(s.len(), |j: int| s[j] ^ e[j]),
        ((x >> ((8 * (16 - s.len())) as u128)) << ((8 * (16 - s.len())) as u128)) == blk(o),
{
    let n = s.len() as int;
    assert forall|j: int| 0 <= j < 16 implies ub(x, j) == ub(blk(s), j) ^ ub(blk(e), j) by { lemma_ub_or(blk(s), blk(e), j); }
    assert forall|j: int| 0 <= j < n implies #[trigger] o[j] == s[j] ^ e[j] by { lemma_shr_bytes(x, n, j); lemma_blkn_bytes(s, n, j); lemma_blkn_bytes(e, 16, j); }
    assert(o =~= Seq::new(s.len(), |j: int| s[j] ^ e[j]));
    let y = (x >> ((8 * (16 - s.len())) as u128)) << ((8 * (16 - s.len())) as u128);
    assert forall|j: int| 0 <= j < 16 implies ub(y, j) == ub(blk(o), j) by {
        lemma_shrl_bytes(x, n, j); lemma_blkn_bytes(o, n, j);
        if j < n { lemma_shr_bytes(x, n, j); }
    }
    lemma_ub_ext(y, blk(o));
}
proof fn lemma_inc(j: u128, n: u128)
    requires n < 0x1_0000_0000,
    ensures
        incn(j, n as int) == (j & !0xFFFFFFFFu128) | (((j as int + n as int) % 0x1_0000_0000_0000_0000_0000_0000_0000_0000int) as u128 & 0xFFFFFFFFu128),
{
    let w = ((j as int + n as int) % 0x1_0000_0000_0000_0000_0000_0000_0000_0000int) as u128;
    assert(w & 0xFFFFFFFFu128 == w % 0x1_0000_0000u128) by(bit_vector);
    assert((j as int % 0x1_0000_0000 + n as int) % 0x1_0000_0000 == w as int % 0x1_0000_0000);
}
proof fn lemma_inc96(b: Seq<u8>, n: int)
    requires b.len() == 12, n >= 0,
    ensures (blk(b) | 1u128) as int % 0x1_0000_0000 == 1, incn(blk(b) | 1u128, n) == ((blk(b) | 1u128) & !0xFFFFFFFFu128) | (((1 + n) % 0x1_0000_0000) as u128),
{
    lemma_blkn_mask(b, 12);
    let x = blk(b);
    assert(x & (0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> 96u128) == 0u128 ==> (x | 1u128) % 0x1_0000_0000u128 == 1u128) by(bit_vector);
}
fn vx_zero16() -> (r: [u8; 16]) ensures r@ == Seq::new(16, |i: int| 0u8), { let z = [0u8; 16]; assert(z@ =~= Seq::new(16, |i: int| 0u8)); z }
proof fn lemma_out_step(key: Seq<u8>, iv: Seq<u8>, d: Seq<u8>, k: int, e: Seq<u8>, oi: Seq<u8>)
    requires
        0 <= k, 16 * k < d.len(), e == aes_enc(key, ublk(incn(gcm_j0(key, iv), k + 1))), e.len() == 16,
        oi == Seq::new(pb16(d, k).len(), |j: int| pb16(d, k)[j] ^ e[j]),
    ensures
        oi == pb16(gcm_crypt(key, iv, d), k),
        16 * (k + 1) <= d.len() ==> gcm_crypt(key, iv, d).subrange(0, 16 * k) + oi == gcm_crypt(key, iv, d).subrange(0, 16 * (k + 1)),
        16 * (k + 1) >= d.len() ==> gcm_crypt(key, iv, d).subrange(0, 16 * k) + oi == gcm_crypt(key, iv, d),
{
    let full = gcm_crypt(key, iv, d);
    assert forall|j: int| 0 <= j < oi.len() implies oi[j] == #[trigger] pb16(full, k)[j] by { assert((16 * k + j) / 16 == k && (16 * k + j) % 16 == j); }
    assert(oi =~= pb16(full, k));
    assert(16 * (k + 1) <= d.len() ==> full.subrange(0, 16 * k) + oi =~= full.subrange(0, 16 * (k + 1)));
    assert(16 * (k + 1) >= d.len() ==> full.subrange(0, 16 * k) + oi =~= full);
}
impl Gcm {
//@fn crypto/aes/gcm.rs impl Gcm :: fn gmult
//@ret r
//@spec
    ensures r == gf(a, b),
//@before 0
    let ghost a0 = a; let ghost b0 = b;
    proof { assert(b0 >> 0u128 == b0) by(bit_vector); }
//@loop 0 it
    invariant
        a == xtimes(a0, it.index()), p == pmul(a0, b0, it.index()),
        it.index() < 128 ==> b == b0 >> (it.index() as u128),
//@in 0 start
    proof {
        let k = it.index() as u128;
        assert(k < 127 ==> (b0 >> k) >> 1u128 == b0 >> add(k, 1u128)) by(bit_vector);
        let aa = a;
        assert(aa ^ 0u128 == aa) by(bit_vector);
        assert((aa << 1u128) ^ 0u128 == (aa << 1u128)) by(bit_vector);
        let pp = p;
        assert(pp ^ 0u128 == pp) by(bit_vector);
    }
//@end
    proof { reveal(gf); }
//@endfn
//@fn crypto/aes/gcm.rs impl Gcm :: fn gcm
//@ret r
//@spec
    requires
        key@.len() == 16 || key@.len() == 24 || key@.len() == 32,
        iv@.len() < 0x1000_0000_0000_0000, data@.len() < 0x1000_0000_0000_0000, additional_data@.len() < 0x1000_0000_0000_0000,
    ensures
        r is Ok, r->Ok_0.0@ == gcm_crypt(key@, iv@, data@),
        r->Ok_0.1@ == gcm_tag(key@, iv@, if encrypt { gcm_crypt(key@, iv@, data@) } else { data@ }, additional_data@),
//@subst `output.append(&mut out_i_bytes.to_vec())` => `output.extend_from_slice(out_i_bytes)` opt
//@nloops 3
//@subst `[0; 16]` => `vx_zero16()` opt
//@start
    proof { axiom_aes_len(key@, Seq::new(16, |i: int| 0u8)); }
//@after `let H =`
    proof { assert(H == gcm_h(key@)); }
//@loop 0
    invariant
        iv_len == iv@.len(), iv@.len() < 0x1000_0000_0000_0000, H == gcm_h(key@), N == ghash(0, H, iv@, i__k as int),
//@in 0 start
    proof { assert(16 * i__k < iv_len); }
//@in 0 end
    proof { assert(add@ =~= pb16(iv@, i__k as int)); }
//@after `let len = (iv.len() * 8) as u128`
    proof { assert(nb16(iv_len as int) == (iv_len + 15) / 16); }
//@before `let mut auth_tag`
    let ghost j0 = Yi;
    proof { assert(j0 == gcm_j0(key@, iv@)); }
//@loop 1
    invariant
        m == additional_data@.len(), m < 0x1000_0000_0000_0000, X == ghash(0, H, additional_data@, i__k as int),
//@in 1 start
    proof { assert(16 * i__k < m); }
//@in 1 end
    proof { assert(add@ =~= pb16(additional_data@, i__k as int)); }
//@before 2
    let ghost x1 = X;
    let ghost ct = if encrypt { gcm_crypt(key@, iv@, data@) } else { data@ };
//@loop 2
    invariant
        n == data@.len(), n < 0x1000_0000_0000_0000, iv@.len() < 0x1000_0000_0000_0000, aes_wf(aes, key@), Yi == j0, j0 == gcm_j0(key@, iv@), H == gcm_h(key@),
        counter == (i__k + (if iv@.len() == 12 { 1int } else { 0int })) % 0x1_0000_0000,
        ct == if encrypt { gcm_crypt(key@, iv@, data@) } else { data@ },
        16 * i__k <= n ==> output@ == gcm_crypt(key@, iv@, data@).subrange(0, 16 * i__k),
        16 * i__k > n ==> output@ == gcm_crypt(key@, iv@, data@),
        X == ghash(x1, H, ct, i__k as int),
//@in 2 start
    let ghost c0 = counter;
    proof { assert(16 * i__k < n);
        assert(forall|c: u128| #[trigger] (c & 0xFFFF_FFFFu128) == c % 0x1_0000_0000u128) by (bit_vector); assert(counter < 0x1_0000_0000); }
//@before `let Ek_Y`
    proof {
        let off = if iv@.len() == 12 { 1int } else { 0int };
        assert(counter == (i__k + off + 1) % 0x1_0000_0000);
        if iv@.len() == 12 { lemma_inc96(iv@, i__k + 1); } else { lemma_inc(j0, counter);
            assert(incn(j0, counter as int) == incn(j0, i__k + 1)); }
        assert(Yi == incn(j0, i__k + 1));
        axiom_aes_len(key@, ublk(Yi));
    }
//@before `output.`
    proof {
        assert(data_slice@ =~= pb16(data@, i__k as int));
        assert(overflow == 8 * (16 - data_slice@.len()));
        lemma_ctr_block(data_slice@, Ek_Y@, data_u128 ^ blk(Ek_Y@), out_i_bytes@);
        lemma_out_step(key@, iv@, data@, i__k as int, Ek_Y@, out_i_bytes@);
    }
//@before `let len = ((m as`
    proof {
        assert(m as u128 * 8 <= 0xffff_ffff_ffff_ffff); 
        assert(nb16(n as int) == (n + 15) / 16 && nb16(m as int) == (m + 15) / 16);
        if n == 0 { assert(gcm_crypt(key@, iv@, data@) =~= output@); }
        assert(output@ =~= gcm_crypt(key@, iv@, data@));
    }
//@endfn
//@fn crypto/aes/gcm.rs impl Cipher for Gcm :: fn encrypt
//@ret r
//@spec
    requires
        key@.len() == 16 || key@.len() == 24 || key@.len() == 32,
        iv@.len() < 0x1000_0000_0000_0000, plaintext@.len() < 0x1000_0000_0000_0000, additional_data@.len() < 0x1000_0000_0000_0000,
    ensures
        r is Ok, r->Ok_0.0@ == gcm_crypt(key@, iv@, plaintext@), r->Ok_0.1@ == gcm_tag(key@, iv@, gcm_crypt(key@, iv@, plaintext@), additional_data@),
//@endfn
//@fn crypto/aes/gcm.rs impl Cipher for Gcm :: fn decrypt
//@ret r
//@subst `T != auth_tag` => `!vx_eq_bytes(&T, auth_tag)` opt
//@subst `T == auth_tag` => `vx_eq_bytes(&T, auth_tag)` opt
//@spec
    requires
        key@.len() == 16 || key@.len() == 24 || key@.len() == 32,
        iv@.len() < 0x1000_0000_0000_0000, ciphertext@.len() < 0x1000_0000_0000_0000, additional_data@.len() < 0x1000_0000_0000_0000,
    ensures
        auth_tag@ == gcm_tag(key@, iv@, ciphertext@, additional_data@) ==> r is Ok && r->Ok_0@ == gcm_crypt(key@, iv@, ciphertext@),
        auth_tag@ != gcm_tag(key@, iv@, ciphertext@, additional_data@) ==> r == Result::<Vec<u8>, TlsError>::Err(TlsError::BadRecordMac),
//@endfn
}
/// what was sealed opens to the plaintext
proof fn lemma_gcm_inverse(key: Seq<u8>, iv: Seq<u8>, p: Seq<u8>)
    ensures gcm_crypt(key, iv, gcm_crypt(key, iv, p)) == p,
{
    assert forall|i: int| 0 <= i < p.len() implies gcm_crypt(key, iv, gcm_crypt(key, iv, p))[i] == p[i] by {
        let a = p[i]; let b = aes_enc(key, ublk(incn(gcm_j0(key, iv), i / 16 + 1)))[i % 16];
        assert((a ^ b) ^ b == a) by(bit_vector);
    }
    assert(gcm_crypt(key, iv, gcm_crypt(key, iv, p)) =~= p);
}
}
fn main() {}
