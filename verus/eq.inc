// ---- `==` between slices, vectors and arrays of bytes compares their contents (std, trusted) ----
#[verifier::external_body]
proof fn ax_eq()
    ensures
        <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec(), forall|a: &[u8], b: &[u8]| #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@),
        <[u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec(), forall|a: &[u8], b: &Vec<u8>| #[trigger] <[u8] as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@),
        <Vec<u8> as PartialEqSpec<[u8]>>::obeys_eq_spec(), forall|a: &Vec<u8>, b: &[u8]| #[trigger] <Vec<u8> as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@),
        <Vec<u8> as PartialEqSpec<Vec<u8>>>::obeys_eq_spec(), forall|a: &Vec<u8>, b: &Vec<u8>| #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@),
        <Vec<u8> as PartialEqSpec<&[u8]>>::obeys_eq_spec(), forall|a: &Vec<u8>, b: &&[u8]| #[trigger] <Vec<u8> as PartialEqSpec<&[u8]>>::eq_spec(a, b) == (a@ == b@),
        <&[u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec(), forall|a: &&[u8], b: &Vec<u8>| #[trigger] <&[u8] as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@),
{}
