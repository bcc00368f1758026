//@include head.inc
//@include ibig.inc
//@include bytes_spec.inc
//@include der_types.inc
//@include der_spec.inc
//@include slice_len.inc
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
    // proved in unit bytesint
    #[verifier::external_body]
    fn to_u128_be_fill(b: &[u8]) -> (r: u128) ensures b@.len() <= 16 ==> r == bei(b@), { unimplemented!() }
}
impl DerType {
//@fn utils/der.rs impl DerType :: fn from_u8
//@ret r
//@spec
    ensures r is Some ==> form_ok(tag, r->0), plain_tag(tag) ==> r is Some,
//@start
    proof {
        let t = tag;
        assert((t & 0x1Fu8 == 0x10 && (t >> 5u8 & 1u8) == 1 && t >> 6u8 == 0) ==> t == 0x30) by(bit_vector);
        assert((t & 0x1Fu8 == 0x11 && (t >> 5u8 & 1u8) == 1 && t >> 6u8 == 0) ==> t == 0x31) by(bit_vector);
        assert((t & 0x1Fu8 == 2 && (t >> 5u8 & 1u8) != 1 && t >> 6u8 == 0) ==> t == 2) by(bit_vector);
        assert((t & 0x1Fu8 == 3 && (t >> 5u8 & 1u8) != 1 && t >> 6u8 == 0) ==> t == 3) by(bit_vector);
        assert((t & 0x1Fu8 == 6 && (t >> 5u8 & 1u8) != 1 && t >> 6u8 == 0) ==> t == 6) by(bit_vector);
        assert((t & 0x1Fu8 == 0x17 && (t >> 5u8 & 1u8) != 1 && t >> 6u8 == 0) ==> t == 0x17) by(bit_vector);
        assert(t == 0x30 || t == 0x31 ==> (t & 0x1Fu8 == sub(t, 0x20)) && (t >> 5u8 & 1u8) == 1 && t >> 6u8 == 0 && (t >> 6u8 & 3u8) != 2) by(bit_vector);
        assert(t == 2 || t == 3 || t == 6 || t == 0x17 ==> (t & 0x1Fu8 == t) && (t >> 5u8 & 1u8) == 0 && t >> 6u8 == 0 && (t >> 6u8 & 3u8) != 2) by(bit_vector);
    }
//@endfn
}
//@fn utils/der.rs fn get_len
//@ret r
//@spec
    requires *old(consumed) <= len@.len(),
    ensures
        r is Ok ==> der_len(len@, *old(consumed) as int) == Some((r->Ok_0 as int, *final(consumed) as int)), r is Ok ==> *old(consumed) < *final(consumed) <= len@.len(),
        r is Err ==> der_len(len@, *old(consumed) as int) is None,
//@start
    proof {
        axiom_slice_len(len);
        if *consumed < len@.len() { let b = len@[*consumed as int]; assert((b >> 7u8 & 1u8) == 1 <==> b >= 128) by(bit_vector); assert((b & 0x80u8 != 0 <==> b >= 128) && (b & 0x80u8 == 0x80u8 <==> b >= 128) && (b >> 7u8 == 1 <==> b >= 128) && (b >> 7u8 != 0 <==> b >= 128)) by(bit_vector); assert(b >= 128 ==> (b & 0x7Fu8) == sub(b, 128)) by(bit_vector); }
        assert forall|s: Seq<u8>| s.len() <= 8 implies #[trigger] bei(s) <= 0xffff_ffff_ffff_ffff by { lemma_be_bound(s); lemma_pow8(s.len() as int); }
    }
//@endfn
proof fn lemma_pow8(n: int) requires 0 <= n <= 8, ensures ipow2(8 * n) <= 0x1_0000_0000_0000_0000,
{ lemma_ipow2_8(0); lemma_ipow2_8(8); lemma_ipow2_8(16); lemma_ipow2_8(24); lemma_ipow2_8(32); lemma_ipow2_8(40); lemma_ipow2_8(48); lemma_ipow2_8(56); assert(ipow2(0) == 1); }
//@fn utils/der.rs fn der_parse
//@ret r
//@spec
    requires *old(consumed) <= data@.len(),
    ensures
        r is Ok ==> *old(consumed) < data@.len() && der_elem(data@, *old(consumed) as int) == Some((r->Ok_0.0 as int, *final(consumed) as int)) && form_ok(data@[*old(consumed) as int], r->Ok_0.1),
        r is Ok ==> *old(consumed) + 2 <= *final(consumed) && *final(consumed) + r->Ok_0.0 <= data@.len(),
        r is Err ==> *old(consumed) >= data@.len() || !plain_tag(data@[*old(consumed) as int]) || der_elem(data@, *old(consumed) as int) is None,
//@start
    proof { axiom_slice_len(data); }
//@endfn
}
fn main() {}
