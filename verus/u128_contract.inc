// ---- contracts of the 128-bit conversions in utils::bytes: proved in unit bytesint, assumed here ----
#[allow(non_camel_case_types)]
struct bytes {}
impl bytes {
    #[verifier::external_body]
    fn u128_to_bytes_be(num: u128) -> (r: [u8; 16]) ensures r@ == ublk(num), { unimplemented!() }
    #[verifier::external_body]
    fn to_u128_be(bytes: &[u8]) -> (r: u128) ensures r == blk(bytes@), { unimplemented!() }
}
