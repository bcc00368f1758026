// ---- contracts of utils::bytes: proved in unit bytesnum, assumed here ----
#[derive(PartialEq, Eq, Structural)]
enum ByteOrder { Little, Big }
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
    #[verifier::external_body]
    fn to_ibig_le(b: &[u8]) -> (r: IBig) requires b@.len() < 0x1000_0000_0000_0000, ensures r.v@ == le(b@), { unimplemented!() }
    #[verifier::external_body]
    fn to_ibig_be(b: &[u8]) -> (r: IBig) requires b@.len() < 0x1000_0000_0000_0000, ensures r.v@ == bei(b@), { unimplemented!() }
    #[verifier::external_body]
    fn ibig_to_vec(num: IBig, order: ByteOrder) -> (r: Vec<u8>)
        requires num.v@ >= 0,
        ensures
            order == ByteOrder::Big ==> bei(r@) == num.v@ && (r@.len() > 0 ==> r@[0] != 0),
            order == ByteOrder::Little ==> le(r@) == num.v@ && (r@.len() > 0 ==> r@.last() != 0),
    { unimplemented!() }
    #[verifier::external_body]
    fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> (r: [u8; 32])
        requires num.v@ >= 0,
        ensures
            num.v@ < ipow2(256) && order == ByteOrder::Big ==> r@ == enc_be(num.v@, 32),
            order == ByteOrder::Little ==> r@ == enc_le(num.v@, 32),
    { unimplemented!() }
    #[verifier::external_body]
    fn u64_to_bytes_le(num: u64) -> (r: [u8; 8]) ensures r@ == enc_le(num as int, 8), { unimplemented!() }
}
