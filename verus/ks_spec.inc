//@include ks_spec0.inc
/// key length of a suite
pub open spec fn suite_key_len(cs: CipherSuite) -> int { if cs == CipherSuite::TLS_AES_128_GCM_SHA256 { 16int } else { 32int } }
