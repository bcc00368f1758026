// proved in unit der
#[allow(non_camel_case_types)]
struct der {}
impl der {
    #[verifier::external_body]
    fn der_parse(consumed: &mut usize, data: &[u8]) -> (r: Result<(usize, EncodedForm), ParseError>)
        requires *old(consumed) <= data@.len(),
        ensures
            r is Ok ==> *old(consumed) < data@.len() && der_elem(data@, *old(consumed) as int) == Some((r->Ok_0.0 as int, *final(consumed) as int)) && form_ok(data@[*old(consumed) as int], r->Ok_0.1),
            r is Ok ==> *old(consumed) + 2 <= *final(consumed) && *final(consumed) + r->Ok_0.0 <= data@.len(),
            r is Err ==> *old(consumed) >= data@.len() || !plain_tag(data@[*old(consumed) as int]) || der_elem(data@, *old(consumed) as int) is None,
    { unimplemented!() }
}
