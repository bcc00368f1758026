// ---- contracts of the hash functions: proved in units sha256, sha384; assumed here ----
pub uninterp spec fn sha256_s(m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha384_s(m: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
fn sha256(message: &[u8]) -> (r: Vec<u8>)
    requires message@.len() < 0x20_0000_0000_0000,
    ensures r@ == sha256_s(message@), r@.len() == 32,
{ unimplemented!() }
#[verifier::external_body]
fn sha384(message: &[u8]) -> (r: Vec<u8>)
    requires message@.len() < 0x20_0000_0000_0000,
    ensures r@ == sha384_s(message@), r@.len() == 48,
{ unimplemented!() }
pub proof fn axiom_sha_len(m: Seq<u8>)
    ensures sha256_s(m).len() == 32, sha384_s(m).len() == 48,
{ admit(); }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
