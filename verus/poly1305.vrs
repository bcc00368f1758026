//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include bytes_contract.inc
//@include chacha_spec.inc
//@include chacha_contract.inc
//@include poly_spec.inc
//@item net/alert.rs enum TlsError nodisc derive=PartialEq,Eq,Structural
//@item crypto/ciphersuite.rs enum CipherSuite derive=PartialEq,Eq,Structural,Clone,Copy
/// `==` of byte sequences, written out
#[verifier::external_body]
fn vx_eq_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@), { unimplemented!() }
#[verifier::external_body]
fn vec_to_arr16(v: Vec<u8>) -> (r: [u8; 16]) requires v@.len() == 16, ensures r@ == v@, { unimplemented!() }
proof fn lemma_iand_le(a: int, b: int)
    ensures 0 <= iand(a, b), b >= 0 ==> iand(a, b) <= b, decreases a
{ if a > 0 && b > 0 { lemma_iand_le(a / 2, b / 2);
    let x = a % 2; let y = b % 2;
    assert(0 <= x * y <= y) by(nonlinear_arith) requires 0 <= x <= 1, 0 <= y <= 1; } }
proof fn lemma_acc_bound(r: int, m: Seq<u8>, n: int)
    ensures 0 <= poly_acc(r, m, n) < P1305(), decreases n
{ }
/// the low n bytes of a number are a prefix of its bytes, padded
proof fn lemma_enc_resize(s: Seq<u8>, n: int)
    requires 0 <= n,
    ensures Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { 0u8 }) == enc_le(le(s), n),
{
    assert forall|i: int| 0 <= i < n implies (if i < s.len() { s[i] } else { 0u8 }) == #[trigger] enc_le(le(s), n)[i] by {
        if i < s.len() { lemma_le_digit(s, i); }
        else {
            lemma_le_bound(s); lemma_ipow2_add(8 * s.len() as int, 8 * (i - s.len()));
            assert(ipow2(8 * i) >= ipow2(8 * s.len() as int)) by(nonlinear_arith) requires ipow2(8 * i) == ipow2(8 * s.len() as int) * ipow2(8 * (i - s.len())), ipow2(8 * (i - s.len())) > 0, ipow2(8 * s.len() as int) > 0;
            assert(le(s) / ipow2(8 * i) == 0) by(nonlinear_arith) requires 0 <= le(s) < ipow2(8 * i);
        }
    }
    assert(Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { 0u8 }) =~= enc_le(le(s), n));
}
proof fn lemma_le_push1(b: Seq<u8>)
    ensures le(b.push(1u8)) == pnum(b),
{ assert(b.push(1u8).drop_last() =~= b); assert(1 * ipow2(8 * b.len() as int) == ipow2(8 * b.len() as int)); }
proof fn lemma_p128()
    ensures ipow2(128) == {{HEX:100000000000000000000000000000000}}
{ lemma_ipow2_add(64, 64); assert(ipow2(64) == 0x1_0000_0000_0000_0000) by(compute); 
  assert(0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int == {{HEX:100000000000000000000000000000000}}) by(compute); }
proof fn lemma_step_nonneg(rr: int, m: Seq<u8>, k: int)
    requires rr >= 0, 0 <= k < nblocks(m), m.len() < 0x1000_0000_0000_0000,
    ensures pnum(pblock(m, k)) >= 0, poly_acc(rr, m, k) >= 0, rr * (poly_acc(rr, m, k) + pnum(pblock(m, k))) >= 0,
        le(pblock(m, k).push(1u8)) == pnum(pblock(m, k)),
        pblock(m, k).len() == 16 ==> pnum(pblock(m, k)) == le(pblock(m, k)) + {{HEX:100000000000000000000000000000000}},
        le(pblock(m, k)) >= 0, poly_acc(rr, m, k) < P1305(),
        poly_acc(rr, m, k + 1) == (rr * (poly_acc(rr, m, k) + pnum(pblock(m, k)))) % P1305(),
{
    lemma_acc_bound(rr, m, k); lemma_le_push1(pblock(m, k)); lemma_le_bound(pblock(m, k)); lemma_p128();
    lemma_ipow2_8(8 * pblock(m, k).len() as int);
    assert(rr * (poly_acc(rr, m, k) + pnum(pblock(m, k))) >= 0) by(nonlinear_arith) requires rr >= 0, poly_acc(rr, m, k) + pnum(pblock(m, k)) >= 0;
}
struct Poly1305();
impl Poly1305 {
//@fn crypto/chacha20/poly1305.rs impl Poly1305 :: fn key_gen
//@ret r
//@spec
    requires key@.len() == 32, iv@.len() == 12,
    ensures r@ == otk(key@, iv@), r@.len() == 32,
//@endfn
//@fn crypto/chacha20/poly1305.rs impl Poly1305 :: fn mac
//@ret r
//@subst `bytes::ByteOrder` => `ByteOrder` all
//@subst `ret.try_into().unwrap()` => `vec_to_arr16(ret)`
//@spec
    requires key@.len() >= 32, msg@.len() < 0x1000_0000_0000_0000,
    ensures r@ == poly_mac(key@, msg@),
//@start
    let ghost rr = clamp(le(key@.subrange(0, 16)));
    proof { lemma_le_bound(key@.subrange(0, 16)); lemma_iand_le(le(key@.subrange(0, 16)), {{HEX:0ffffffc0ffffffc0ffffffc0fffffff}}); }
//@loop 0
    invariant
        msg@.len() < 0x1000_0000_0000_0000, p.v@ == P1305(), r.v@ == rr, rr >= 0,
        a.v@ == poly_acc(rr, msg@, i - 1),
//@in 0 start
    let ghost k = i as int - 1;
    proof { lemma_step_nonneg(rr, msg@, k); assert(16 * k < msg@.len()); }
//@before `bytes::to_ibig_le(&buf)`
    proof { assert(buf@ =~= pblock(msg@, k).push(1u8)); }
//@before `a += n;`
    proof { assert(n.v@ == pnum(pblock(msg@, k))); }
//@after `let mut ret`
    let ghost ret0 = ret@;
//@before `a += s;`
    proof { lemma_acc_bound(rr, msg@, nblocks(msg@)); lemma_le_bound(key@.subrange(16, 32)); }
//@end
    proof {
        lemma_enc_resize(ret0, 16);
        assert(ret@ =~= Seq::new(16, |i: int| if i < ret0.len() { ret0[i] } else { 0u8 }));
    }
//@endfn
//@fn crypto/chacha20/poly1305.rs impl Poly1305 :: fn pad16
//@spec
    requires old(input)@.len() < 0x7fff_ffff_ffff_0000,
    ensures final(input)@ == old(input)@ + zpad16(x as int),
//@end
    proof { assert(input@ =~= old(input)@ + zpad16(x as int)); }
//@endfn
//@fn crypto/chacha20/poly1305.rs impl Poly1305 :: fn get_mac_data
//@ret r
//@spec
    requires ciphertext@.len() < 0x0fff_0000_0000_0000, additional_data@.len() < 0x0fff_0000_0000_0000,
    ensures r@ == poly_data(ciphertext@, additional_data@), r@.len() < 0x1fff_8000_0000_0000,
//@endfn
//@fn crypto/chacha20/poly1305.rs impl Cipher for Poly1305 :: fn encrypt
//@ret r
//@spec
    requires key@.len() == 32, iv@.len() == 12, plaintext@.len() < 0x07ff_0000_0000_0000, additional_data@.len() < 0x07ff_0000_0000_0000,
    ensures
        r is Ok,
        r->Ok_0.0@ == seal_ct(key@, iv@, plaintext@),
        r->Ok_0.1@ == seal_tag(key@, iv@, seal_ct(key@, iv@, plaintext@), additional_data@),
//@endfn
//@fn crypto/chacha20/poly1305.rs impl Cipher for Poly1305 :: fn decrypt
//@ret r
//@subst `tag == auth_tag` => `vx_eq_bytes(&tag, auth_tag)` opt
//@subst `tag != auth_tag` => `!vx_eq_bytes(&tag, auth_tag)` opt
//@spec
    requires key@.len() == 32, iv@.len() == 12, ciphertext@.len() < 0x07ff_0000_0000_0000, additional_data@.len() < 0x07ff_0000_0000_0000,
    ensures
        auth_tag@ == seal_tag(key@, iv@, ciphertext@, additional_data@) ==> r is Ok && r->Ok_0@ == chacha_enc(key@, iv@, 1, ciphertext@),
        auth_tag@ != seal_tag(key@, iv@, ciphertext@, additional_data@) ==> r == Result::<Vec<u8>, TlsError>::Err(TlsError::BadRecordMac),
//@endfn
}
}
fn main() {}
