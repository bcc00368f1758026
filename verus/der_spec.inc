// ---- X.690: definite lengths; an element's content is [body, body + size) ----
pub open spec fn der_len(d: Seq<u8>, p: int) -> Option<(int, int)> {
    if p >= d.len() { None } else if d[p] < 128 { Some((d[p] as int, p + 1)) }
    else { let k = d[p] as int - 128; if k == 0 || k > 8 || p + 1 + k > d.len() { None } else { Some((bei(d.subrange(p + 1, p + 1 + k)), p + 1 + k)) } }
}
/// the element that begins at p, whole: size and place of its content
pub open spec fn der_elem(d: Seq<u8>, p: int) -> Option<(int, int)>
{ match der_len(d, p + 1) { Some((n, b)) => if b + n <= d.len() { Some((n, b)) } else { None }, None => None } }
