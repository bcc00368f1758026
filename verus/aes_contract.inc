// ---- contract of AES: proved in unit aes, assumed here ----
pub uninterp spec fn aes_enc(key: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub proof fn axiom_aes_len(key: Seq<u8>, b: Seq<u8>) ensures aes_enc(key, b).len() == 16, { admit(); }
//@item crypto/aes/cipher.rs enum Blocksize derive=Clone,Copy
struct AES { dummy: u8 }
/// the object holds the key schedule of `key`
uninterp spec fn aes_wf(a: AES, key: Seq<u8>) -> bool;
spec fn bs_bits(b: Blocksize) -> int { match b { Blocksize::B128 => 128, Blocksize::B192 => 192, Blocksize::B256 => 256 } }
impl Blocksize {
    #[verifier::external_body]
    fn new(u: usize) -> (r: Option<Blocksize>)
        ensures r is Some <==> (u == 128 || u == 192 || u == 256), r is Some ==> bs_bits(r->0) == u,
    { unimplemented!() }
}
impl AES {
    #[verifier::external_body]
    fn init(key: &[u8], blocksize: Blocksize) -> (r: AES) requires key@.len() * 8 == bs_bits(blocksize), ensures aes_wf(r, key@), { unimplemented!() }
    #[verifier::external_body]
    fn encrypt(&mut self, input: [u8; 16]) -> (r: [u8; 16])
        requires exists|key: Seq<u8>| #[trigger] aes_wf(*old(self), key),
        ensures forall|key: Seq<u8>| #[trigger] aes_wf(*old(self), key) ==> aes_wf(*final(self), key) && r@ == aes_enc(key, input@),
    { unimplemented!() }
}
