/// a slice never holds more than isize::MAX bytes (a rule of the language)
#[verifier::external_body]
proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= 0x7fff_ffff_ffff_ffff, { unimplemented!() }
