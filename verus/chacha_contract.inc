// ---- contracts of ChaCha20: proved in unit chacha20, assumed here ----
struct ChaCha20Block { state: [u32; 16] }
struct ChaCha20();
impl ChaCha20Block {
    #[verifier::external_body]
    fn init(key: &[u8], iv: &[u8], counter: u32) -> (r: Option<Self>)
        ensures r is Some <==> (key@.len() == 32 && iv@.len() == 12), r is Some ==> r->0.state@ == init_s(key@, iv@, counter),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_block(&mut self) -> (r: [u8; 64]) ensures r@ == block_of(old(self).state@), { unimplemented!() }
}
impl ChaCha20 {
    #[verifier::external_body]
    fn encrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> (r: Option<Vec<u8>>)
        requires counter < 0x1_0000_0000, input@.len() < 0x1000_0000_0000_0000,
        ensures r is Some <==> (key@.len() == 32 && iv@.len() == 12) || input@.len() == 0, r is Some ==> r->0@ == chacha_enc(key@, iv@, counter as int, input@),
    { unimplemented!() }
    #[verifier::external_body]
    fn decrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> (r: Option<Vec<u8>>)
        requires counter < 0x1_0000_0000, input@.len() < 0x1000_0000_0000_0000,
        ensures r is Some <==> (key@.len() == 32 && iv@.len() == 12) || input@.len() == 0, r is Some ==> r->0@ == chacha_enc(key@, iv@, counter as int, input@),
    { unimplemented!() }
}
