/// little-endian and big-endian value of a byte string
pub open spec fn le(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { le(s.drop_last()) + (s.last() as int) * ipow2(8 * (s.len() - 1)) } }
pub open spec fn bei(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { bei(s.drop_last()) * 256 + s.last() as int } }
/// the n bytes of v, little-endian / big-endian
pub open spec fn enc_le(v: int, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| ((v / ipow2(8 * i)) % 256) as u8) }
pub open spec fn enc_be(v: int, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| ((v / ipow2(8 * (n - 1 - i))) % 256) as u8) }
proof fn lemma_ipow2_8(n: int)
    requires n >= 0, ensures ipow2(n + 8) == 256 * ipow2(n), ipow2(n) > 0, decreases n
{ reveal_with_fuel(ipow2, 9); if n > 0 { lemma_ipow2_8(n - 1); } }
proof fn lemma_ipow2_add(a: int, b: int)
    requires a >= 0, b >= 0, ensures ipow2(a + b) == ipow2(a) * ipow2(b), ipow2(a) > 0, ipow2(b) > 0, decreases a, b
{
    if a > 0 { lemma_ipow2_add(a - 1, b); assert(2 * (ipow2(a - 1) * ipow2(b)) == (2 * ipow2(a - 1)) * ipow2(b)) by(nonlinear_arith); }
    else if b > 0 { lemma_ipow2_add(a, b - 1); }
}
proof fn lemma_le_bound(s: Seq<u8>)
    ensures 0 <= le(s) < ipow2(8 * s.len() as int), decreases s.len()
{
    if s.len() > 0 {
        lemma_le_bound(s.drop_last()); lemma_ipow2_8(8 * (s.len() - 1));
        assert(0 <= (s.last() as int) * ipow2(8 * (s.len() - 1)) <= 255 * ipow2(8 * (s.len() - 1))) by(nonlinear_arith) requires 0 <= s.last() as int <= 255, ipow2(8 * (s.len() - 1)) > 0;
    }
}
proof fn lemma_be_bound(s: Seq<u8>)
    ensures 0 <= bei(s) < ipow2(8 * s.len() as int), decreases s.len()
{ if s.len() > 0 { lemma_be_bound(s.drop_last()); lemma_ipow2_8(8 * (s.len() - 1)); } }
/// byte i of s is a digit of its little-endian value
proof fn lemma_le_digit(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures s[i] == ((le(s) / ipow2(8 * i)) % 256) as u8,
    decreases s.len()
{
    let n = s.len() as int; let p = ipow2(8 * i); let q = ipow2(8 * (n - 1));
    lemma_le_bound(s.drop_last()); lemma_ipow2_8(8 * (n - 1)); lemma_ipow2_8(8 * i);
    let lo = le(s.drop_last()); let t = s.last() as int;
    if i == n - 1 {
        assert((lo + t * q) / q == t) by(nonlinear_arith) requires 0 <= lo < q, q > 0;
    } else {
        lemma_le_digit(s.drop_last(), i);
        lemma_ipow2_add(8 * i, 8 * (n - 1 - i)); lemma_ipow2_8(8 * (n - 2 - i));
        let k = ipow2(8 * (n - 2 - i));
        // t * q = p * 256 * (k * t)
        assert(ipow2(8 * (n - 1 - i)) == 256 * k);
        assert(t * q == p * (256 * (k * t))) by(nonlinear_arith) requires q == p * (256 * k);
        assert((lo + p * (256 * (k * t))) / p == lo / p + 256 * (k * t)) by(nonlinear_arith) requires p > 0;
        assert((lo / p + 256 * (k * t)) % 256 == (lo / p) % 256) by(nonlinear_arith);
        assert(s.drop_last()[i] == s[i]);
    }
}
proof fn lemma_be_digit(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures s[i] == ((bei(s) / ipow2(8 * (s.len() - 1 - i))) % 256) as u8,
    decreases s.len()
{
    let n = s.len() as int; let hi = bei(s.drop_last()); let t = s.last() as int;
    lemma_be_bound(s.drop_last());
    if i == n - 1 {
        assert(ipow2(0) == 1);
        assert(((hi * 256 + t) / 1) % 256 == t);
    } else {
        lemma_be_digit(s.drop_last(), i);
        let p = ipow2(8 * (n - 2 - i));
        lemma_ipow2_8(8 * (n - 2 - i));
        assert((hi * 256 + t) / (256 * p) == hi / p) by(nonlinear_arith) requires 0 <= t < 256, p > 0, hi >= 0;
        assert(s.drop_last()[i] == s[i]);
    }
}
proof fn lemma_enc_le(s: Seq<u8>) ensures s == enc_le(le(s), s.len() as int)
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] enc_le(le(s), s.len() as int)[i] by { lemma_le_digit(s, i); }
    assert(s =~= enc_le(le(s), s.len() as int));
}
proof fn lemma_enc_be(s: Seq<u8>) ensures s == enc_be(bei(s), s.len() as int)
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] enc_be(bei(s), s.len() as int)[i] by { lemma_be_digit(s, i); }
    assert(s =~= enc_be(bei(s), s.len() as int));
}
