use vstd::prelude::*;
verus! {
//@include common.inc
//@probes
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@include hash_contract.inc
//@include hmac_spec.inc
//@item hash/hmac.rs struct Hmac
impl<'a> Hmac<'a> {
//@fn hash/hmac.rs impl Hmac :: fn new
//@ret r
//@spec
    ensures r.hash == hash, r.key@ == key@, r.input@ == Seq::<u8>::empty(),
//@endfn
//@fn hash/hmac.rs impl Hmac :: fn update
//@spec
    ensures final(self).hash == old(self).hash, final(self).key@ == old(self).key@, final(self).input@ == old(self).input@ + buf@,
//@endfn
//@fn hash/hmac.rs impl Hmac :: fn result
//@ret r
//@spec
    requires self.key@.len() < MAXKEY(), self.input@.len() < MAXKEY(),
    ensures r@ == hmac_s(self.hash, self.key@, self.input@), r@.len() == hlen(self.hash),
//@before 0
    let ghost eff: Seq<u8> = key@;
    proof {
        axiom_sha_len(self.key@);
        assert(eff == (if self.key@.len() > bsize(self.hash) { hash_s(self.hash, self.key@) } else { self.key@ }));
    }
//@loop 0
    invariant
        size == bsize(self.hash), eff == key@, key@.len() <= size, padded_key@.len() == 128,
        forall|j: int| 0 <= j < i ==> padded_key@[j] == eff[j],
        forall|j: int| i <= j < 128 ==> padded_key@[j] == 0,
//@after 0
    proof { assert(padded_key@.subrange(0, size as int) =~= hmac_key(self.hash, self.key@)); }
//@loop 1
    invariant
        size == bsize(self.hash), padded_key@.len() == 128, k_opad@.len() == 128, k_ipad@.len() == 128,
        forall|j: int| 0 <= j < i ==> k_opad@[j] == padded_key@[j] ^ 0x5c,
        forall|j: int| 0 <= j < i ==> k_ipad@[j] == padded_key@[j] ^ 0x36,
//@after 1
    proof {
        let hk = padded_key@.subrange(0, size as int);
        assert(k_opad@.subrange(0, size as int) =~= xor_pad(hk, 0x5c));
        assert(k_ipad@.subrange(0, size as int) =~= xor_pad(hk, 0x36));
    }
//@end
    proof {
        let hk = hmac_key(self.hash, self.key@);
        assert(input@ =~= xor_pad(hk, 0x5c));
        assert(k_ipad_text@ =~= xor_pad(hk, 0x36) + self.input@);
    }
//@before `sha256(&input)`
    proof { assert(self.hash == HashType::SHA256); assert(input@ =~= xor_pad(hmac_key(self.hash, self.key@), 0x5c) + sha256_s(xor_pad(hmac_key(self.hash, self.key@), 0x36) + self.input@)); }
//@before `sha384(&input)`
    proof { assert(self.hash == HashType::SHA384); assert(input@ =~= xor_pad(hmac_key(self.hash, self.key@), 0x5c) + sha384_s(xor_pad(hmac_key(self.hash, self.key@), 0x36) + self.input@)); }
//@endfn
}
}
fn main() {}
