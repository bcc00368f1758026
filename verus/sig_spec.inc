/// a non-negative INTEGER element at p: its value and the place behind it
pub open spec fn int_at(d: Seq<u8>, p: int) -> Option<(int, int)> {
    if 0 <= p < d.len() && d[p] == 2 { match der_elem(d, p) { Some((n, b)) => if n > 0 && d[b] < 128 { Some((bei(d.subrange(b, b + n)), b + n)) } else { None }, None => None } } else { None }
}
/// SEQUENCE { INTEGER r, INTEGER s } at the front of d: r, s and the number of bytes
pub open spec fn sig_at(d: Seq<u8>) -> Option<(int, int, int)> {
    if d.len() == 0 || d[0] != 0x30 { None } else { match der_elem(d, 0) { None => None, Some((n, b)) => match int_at(d, b) { None => None, Some((r, p)) => match int_at(d, p) { None => None,
        Some((s, q)) => if q == b + n { Some((r, s, q)) } else { None } } } } }
}
