use vstd::prelude::*;
verus! {
//@include common.inc
//@probes
//@item hash/mod.rs enum HashType derive=PartialEq,Eq,Structural,Clone,Copy
//@include hash_contract.inc
//@include hmac_spec.inc
//@include hmac_contract.inc
//@include hkdf_spec.inc
proof fn lemma_ts_len(h: HashType, prk: Seq<u8>, info: Seq<u8>, n: int)
    requires n >= 0,
    ensures hkdf_ts(h, prk, info, n).len() == n * hlen(h), n > 0 ==> hkdf_t(h, prk, info, n).len() == hlen(h),
    decreases n
{
    axiom_sha_lens();
    if n > 0 {
        lemma_ts_len(h, prk, info, n - 1);
        assert(n * hlen(h) == (n - 1) * hlen(h) + hlen(h)) by(nonlinear_arith);
    }
}
proof fn axiom_sha_lens()
    ensures forall|m: Seq<u8>| (#[trigger] sha256_s(m)).len() == 32, forall|m: Seq<u8>| (#[trigger] sha384_s(m)).len() == 48,
{
    assert forall|m: Seq<u8>| (#[trigger] sha256_s(m)).len() == 32 by { axiom_sha_len(m); }
    assert forall|m: Seq<u8>| (#[trigger] sha384_s(m)).len() == 48 by { axiom_sha_len(m); }
}
//@item hash/hkdf.rs struct Hkdf
impl Hkdf {
//@fn hash/hkdf.rs impl Hkdf :: fn from_prk
//@ret r
//@spec
    ensures r.hash == hash, r.pseudo_random_key == pseudo_random_key,
//@endfn
//@fn hash/hkdf.rs impl Hkdf :: fn extract
//@ret r
//@spec
    requires salt@.len() < MAXKEY(), ikm@.len() < MAXKEY(),
    ensures r.hash == hash, r.pseudo_random_key@ == hmac_s(hash, salt@, ikm@), r.pseudo_random_key@.len() == hlen(hash),
//@after `hmac.update(ikm);`
    proof { assert(hmac.input@ =~= ikm@); }
//@endfn
//@fn hash/hkdf.rs impl Hkdf :: fn expand
//@ret r
//@subst `okm.extend(&last[..needed]);` => `okm.extend_from_slice(&last[..needed]);` opt
//@spec
    requires self.pseudo_random_key@.len() < MAXKEY(), info@.len() < 0x1000_0000_0000,
    ensures
        out_len > 255 * hlen(self.hash) ==> r is None,
        out_len <= 255 * hlen(self.hash) ==> r is Some && r->0@ == hkdf_okm(self.hash, self.pseudo_random_key@, info@, out_len as int),
        r is Some ==> r->0@.len() == out_len,
//@nloops 1
//@loop 0
        invariant
            hash_len == hlen(self.hash), out_len <= 255 * hash_len, self.pseudo_random_key@.len() < MAXKEY(), info@.len() < 0x1000_0000_0000,
            okm@.len() == (if (i as int) * hash_len <= out_len { (i as int) * hash_len } else { out_len as int }),
            i == 0 || (i as int - 1) * hash_len < out_len,
            last@ == hkdf_t(self.hash, self.pseudo_random_key@, info@, i as int),
            last@.len() <= 48,
            okm@ == hkdf_ts(self.hash, self.pseudo_random_key@, info@, i as int).subrange(0, okm@.len() as int),
            hkdf_ts(self.hash, self.pseudo_random_key@, info@, i as int).len() == (i as int) * hash_len,
        decreases out_len - okm@.len(),
//@in 0 start
            proof {
                assert((i as int) < 255) by(nonlinear_arith) requires (i as int) * hash_len < out_len, out_len <= 255 * hash_len, hash_len > 0;
                lemma_ts_len(self.hash, self.pseudo_random_key@, info@, i as int + 1);
                assert((i as int + 1) * hash_len == (i as int) * hash_len + hash_len) by(nonlinear_arith);
            }
            let ghost okm0 = okm@;
//@before `last = hmac.result();`
            proof { assert(hmac.input@ =~= last@ + info@ + seq![i]); assert((i as int) * hash_len == (i as int - 1) * hash_len + hash_len) by(nonlinear_arith); }
//@in 0 end
            proof {
                let ts0 = hkdf_ts(self.hash, self.pseudo_random_key@, info@, i as int - 1);
                let ts1 = hkdf_ts(self.hash, self.pseudo_random_key@, info@, i as int);
                assert(ts1 == ts0 + last@);
                assert(okm0 =~= ts0);
                assert(okm@ =~= ts1.subrange(0, okm@.len() as int));
            }
//@after 0
        proof {
            lemma_ts_len(self.hash, self.pseudo_random_key@, info@, i as int);
            let n = hkdf_blocks(self.hash, out_len as int);
            assert(n == i) by(nonlinear_arith) requires n == (out_len + hash_len - 1) / hash_len as int, hash_len > 0, i == 0 || (i - 1) * hash_len < out_len, out_len <= i * hash_len;
        }
//@endfn
}
}
fn main() {}
