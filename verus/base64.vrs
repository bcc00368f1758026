//@include head.inc
/// `&str`: its characters and the number of bytes of their UTF-8 form
struct VStr<'a> { c: &'a [char], n: usize }
pub open spec fn wf_str(s: VStr<'_>) -> bool { s.n >= s.c@.len() && s.n < 0x1000_0000_0000_0000 && ((forall|i: int| 0 <= i < s.c@.len() ==> #[trigger] s.c@[i] < '\u{80}') ==> s.n == s.c@.len()) }
impl<'a> VStr<'a> {
    fn len(&self) -> (r: usize) ensures r == self.n, { self.n }
    fn chars(&self) -> (r: VChars<'a>) ensures r.c@ == self.c@, r.i == 0, { VChars { c: self.c, i: 0 } }
}
struct VChars<'a> { c: &'a [char], i: usize }
impl<'a> VChars<'a> {
    fn next(&mut self) -> (r: Option<char>)
        requires old(self).i <= old(self).c@.len(),
        ensures final(self).c == old(self).c, r is Some == (old(self).i < old(self).c@.len()), r is Some ==> r->0 == old(self).c@[old(self).i as int] && final(self).i == old(self).i + 1, r is None ==> final(self).i == old(self).i,
    { if self.i < self.c.len() { let x = self.c[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
//@strconst utils/base64.rs CHARS
/// RFC 4648, table 1
pub open spec fn sym(v: u8) -> char { if v < 26 { (v + 65) as u8 as char } else if v < 52 { (v + 71) as u8 as char } else if v < 62 { (v - 4) as u8 as char } else if v == 62 { 43u8 as char } else { 47u8 as char } }
pub open spec fn val(c: char) -> Option<u8> {
    if 'A' <= c <= 'Z' { Some((c as u8 - 65) as u8) } else if 'a' <= c <= 'z' { Some((c as u8 - 71) as u8) } else if '0' <= c <= '9' { Some((c as u8 + 4) as u8) } else if c == '+' { Some(62u8) } else if c == '/' { Some(63u8) } else { None }
}
/// the constant of the source is that table
proof fn lemma_chars()
    ensures CHARS_s().len() == 64, forall|i: int| 0 <= i < 64 ==> (#[trigger] CHARS_s()[i]) as char == sym(i as u8) && CHARS_s()[i] < 123,
{
    assert(CHARS_s().len() == 64) by(compute_only);
    assert forall|i: int| 0 <= i < 64 implies (#[trigger] CHARS_s()[i]) as char == sym(i as u8) && CHARS_s()[i] < 123 by {
        assert(all_ok(64)) by(compute_only);
        lemma_all(64, i);
    }
}
pub open spec fn all_ok(n: nat) -> bool decreases n { if n == 0 { true } else { all_ok((n - 1) as nat) && CHARS_s()[n - 1] as char == sym((n - 1) as u8) && CHARS_s()[n - 1] < 123 } }
proof fn lemma_all(n: nat, i: int) requires all_ok(n), 0 <= i < n, ensures CHARS_s()[i] as char == sym(i as u8) && CHARS_s()[i] < 123, decreases n { if i < n - 1 { lemma_all((n - 1) as nat, i); } }
proof fn lemma_sym(v: u8) requires v < 64, ensures val(sym(v)) == Some(v), sym(v) != '=' , sym(v) < '\u{80}' {}
proof fn lemma_val(c: char) requires val(c) is Some, ensures val(c)->0 < 64, sym(val(c)->0) == c, c != '=', c < '{' {}
// ---- encoding: 3 bytes, 4 characters ----
pub open spec fn g(x: Seq<u8>, i: int) -> u8 { if 0 <= i < x.len() { x[i] } else { 0 } }
pub open spec fn six(x: Seq<u8>, i: int) -> u8 {
    let k = 3 * (i / 4); let a = g(x, k); let b = g(x, k + 1); let c = g(x, k + 2);
    if i % 4 == 0 { a >> 2u8 } else if i % 4 == 1 { ((a & 3u8) << 4u8) | (b >> 4u8) } else if i % 4 == 2 { ((b & 15u8) << 2u8) | (c >> 6u8) } else { c & 63u8 }
}
pub open spec fn groups(n: int) -> int { (n + 2) / 3 }
pub open spec fn pad(n: int) -> int { 3 * groups(n) - n }
pub open spec fn enc_s(x: Seq<u8>) -> Seq<char> { Seq::new((4 * groups(x.len() as int)) as nat, |i: int| if i >= 4 * groups(x.len() as int) - pad(x.len() as int) { '=' } else { sym(six(x, i)) }) }
// ---- decoding ----
pub open spec fn npad(s: Seq<char>) -> int { if s.len() < 4 || s.last() != '=' { 0 } else if s[s.len() - 2] == '=' { 2 } else { 1 } }
pub open spec fn dec_ok(s: Seq<char>) -> bool { s.len() % 4 == 0 && forall|i: int| 0 <= i < s.len() - npad(s) ==> val(#[trigger] s[i]) is Some }
pub open spec fn v(s: Seq<char>, i: int) -> u8 { if val(s[i]) is Some { val(s[i])->0 } else { 0 } }
pub open spec fn byte(s: Seq<char>, j: int) -> u8 {
    let k = 4 * (j / 3);
    if j % 3 == 0 { (v(s, k) << 2u8) | (v(s, k + 1) >> 4u8) } else if j % 3 == 1 { (v(s, k + 1) << 4u8) | (v(s, k + 2) >> 2u8) } else { (v(s, k + 2) << 6u8) | v(s, k + 3) }
}
pub open spec fn dec_s(s: Seq<char>) -> Seq<u8> { Seq::new((3 * (s.len() as int / 4) - npad(s)) as nat, |j: int| byte(s, j)) }
proof fn lemma_ascii(c: char) requires val(c) is Some || c == '=', ensures c < '{' { if val(c) is Some { lemma_val(c); } }
/// nothing but the alphabet and `=` in the first m characters: they are ASCII
proof fn lemma_ok_ascii(s: Seq<char>, m: int)
    requires 0 <= m <= s.len(), forall|i: int| 0 <= i < m ==> val(#[trigger] s[i]) is Some || s[i] == '=',
    ensures forall|i: int| 0 <= i < m ==> #[trigger] s[i] < '\u{80}',
{ assert forall|i: int| 0 <= i < m implies #[trigger] s[i] < '\u{80}' by { lemma_ascii(s[i]); } }
proof fn lemma_bits(a: u8, b: u8, c: u8)
    ensures
        (a >> 2u8) < 64, (((a & 3u8) << 4u8) | (b >> 4u8)) < 64, (((b & 15u8) << 2u8) | (c >> 6u8)) < 64, (c & 63u8) < 64,
        ((a >> 2u8) << 2u8) | ((((a & 3u8) << 4u8) | (b >> 4u8)) >> 4u8) == a,
        ((((a & 3u8) << 4u8) | (b >> 4u8)) << 4u8) | ((((b & 15u8) << 2u8) | (c >> 6u8)) >> 2u8) == b,
        ((((b & 15u8) << 2u8) | (c >> 6u8)) << 6u8) | (c & 63u8) == c,
{
    assert((a >> 2u8) < 64 && (((a & 3u8) << 4u8) | (b >> 4u8)) < 64 && (((b & 15u8) << 2u8) | (c >> 6u8)) < 64 && (c & 63u8) < 64) by(bit_vector);
    assert(((a >> 2u8) << 2u8) | ((((a & 3u8) << 4u8) | (b >> 4u8)) >> 4u8) == a) by(bit_vector);
    assert(((((a & 3u8) << 4u8) | (b >> 4u8)) << 4u8) | ((((b & 15u8) << 2u8) | (c >> 6u8)) >> 2u8) == b) by(bit_vector);
    assert(((((b & 15u8) << 2u8) | (c >> 6u8)) << 6u8) | (c & 63u8) == c) by(bit_vector);
}
proof fn lemma_six(x: Seq<u8>, i: int) requires i >= 0, ensures six(x, i) < 64 { let k = 3 * (i / 4); lemma_bits(g(x, k), g(x, k + 1), g(x, k + 2)); }
/// decoding inverts encoding
proof fn lemma_inverse(x: Seq<u8>) ensures dec_ok(enc_s(x)), dec_s(enc_s(x)) == x,
{
    let s = enc_s(x); let n = x.len() as int;
    assert forall|i: int| 0 <= i < s.len() implies six(x, i) < 64 && val(sym(six(x, i))) == Some(#[trigger] six(x, i)) && sym(six(x, i)) != '=' by { lemma_six(x, i); lemma_sym(six(x, i)); }
    if n > 0 { let z = s[s.len() - 1]; let y = s[s.len() - 2]; let m = six(x, s.len() - 1); let m2 = six(x, s.len() - 2); }
    assert(npad(s) == pad(n));
    assert forall|i: int| 0 <= i < s.len() - npad(s) implies val(#[trigger] s[i]) is Some by { let m = six(x, i); }
    assert forall|j: int| 0 <= j < n implies #[trigger] dec_s(s)[j] == x[j] by {
        let k = 4 * (j / 3); let b = 3 * (j / 3);
        lemma_bits(g(x, b), g(x, b + 1), g(x, b + 2));
        let (m0, m1, m2, m3) = (six(x, k), six(x, k + 1), six(x, k + 2), six(x, k + 3));
        assert(k / 4 == j / 3 && (k + 1) / 4 == j / 3 && (k + 2) / 4 == j / 3 && (k + 3) / 4 == j / 3);
        assert(b + j % 3 == j);
        if j % 3 == 0 { assert(k + 1 < s.len() - pad(n)); } else if j % 3 == 1 { assert(k + 2 < s.len() - pad(n)); } else { assert(k + 3 < s.len() - pad(n)); }
    }
    assert(dec_s(s) =~= x);
}
//@fn utils/base64.rs fn encode
//@ret r
//@subst `-> String` => `-> Vec<char>`
//@subst `out.iter().collect()` => `out`
//@resub `CHARS\.chars\(\)\.nth\(([^()]*)\)\.unwrap\(\)` => `(CHARS_at(\1) as char)` opt
//@subst `let mut out = Vec::new()` => `let mut out: Vec<char> = Vec::new()` opt
//@spec
    requires input@.len() < 0x1000_0000_0000_0000,
    ensures r@ == enc_s(input@),
//@start
    proof {
        lemma_chars();
    }
    let ghost n = input@.len() as int;
//@loop 0
    invariant
        input@.len() < 0x1000_0000_0000_0000, n == input@.len(), index % 3 == 0, index <= n + 2, index <= 3 * groups(n), add == (if index >= n && n > 0 { pad(n) } else { 0 }),
        out@.len() == 4 * (index / 3), forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == sym(six(input@, i)),
        CHARS_s().len() == 64, forall|i: int| 0 <= i < 64 ==> (#[trigger] CHARS_s()[i]) as char == sym(i as u8) && CHARS_s()[i] < 123,
    decreases n + 2 - index,
//@in 0 start
    let ghost i0 = index as int; let ghost o0 = out@;
//@loop 1 it
    invariant
        n == input@.len(), index < n, index == i0, index % 3 == 0, n < 0x1000_0000_0000_0000, add == (if index + i > n { index + i - n } else { 0 }),
        forall|j: int| 0 <= j < i ==> #[trigger] tmp@[j] == g(input@, index + j),
//@after 1
    proof {
        let (a, b, c) = (tmp@[0], tmp@[1], tmp@[2]);
        lemma_bits(a, b, c);
        assert((a >> 2u8) & 63u8 == a >> 2u8 && ((((a & 3u8) << 4u8) | (b >> 4u8)) & 63u8) == (((a & 3u8) << 4u8) | (b >> 4u8)) && ((((b & 15u8) << 2u8) | (c >> 6u8)) & 63u8) == (((b & 15u8) << 2u8) | (c >> 6u8))) by(bit_vector);
    }
//@in 0 end
    proof {
        lemma_bits(tmp@[0], tmp@[1], tmp@[2]);
        let k = 4 * (i0 / 3); let x = input@;
        assert(k / 4 == i0 / 3 && (k + 1) / 4 == i0 / 3 && (k + 2) / 4 == i0 / 3 && (k + 3) / 4 == i0 / 3 && 3 * (i0 / 3) == i0);
        assert(six(x, k) == tmp@[0] >> 2u8); assert(six(x, k + 1) == ((tmp@[0] & 3u8) << 4u8) | (tmp@[1] >> 4u8));
        assert(six(x, k + 2) == ((tmp@[1] & 15u8) << 2u8) | (tmp@[2] >> 6u8)); assert(six(x, k + 3) == tmp@[2] & 63u8);
        assert(index / 3 == i0 / 3 + 1);
        assert forall|i: int| 0 <= i < out@.len() implies #[trigger] out@[i] == sym(six(input@, i)) by { if i < k { assert(o0[i] == sym(six(input@, i))); } }
    }
//@loop 2 it
    invariant
        n == input@.len(), n > 0, add == pad(n), l == out@.len() - 1, out@.len() == 4 * groups(n),
        forall|j: int| 0 <= j < out@.len() ==> #[trigger] out@[j] == (if j > l - i { '=' } else { sym(six(input@, j)) }),
//@end
    proof { assert(out@ =~= enc_s(input@)); }
//@endfn
//@fn utils/base64.rs fn decode
//@ret r
//@subst `input: &str` => `input: &VStr<'_>`
//@resub `'z' as usize \+ 1` => `123` opt
//@resub `CHARS\.as_bytes\(\)\.len\(\)` => `CHARS_len()` opt
//@resub `CHARS\.as_bytes\(\)\[([^\[\]]*)\]` => `CHARS_at(\1)` opt
//@subst `CHARS.contains(ch)` => `CHARS_has(ch)` opt
//@subst `let mut out = vec![]` => `let mut out: Vec<u8> = Vec::new()` opt
//@spec
    requires wf_str(*input),
    ensures (r is Some) == dec_ok(input.c@), r is Some ==> r->0@ == dec_s(input.c@),
//@start
    proof { lemma_chars(); }
    let ghost s = input.c@; let ghost n = input.n as int;
    proof {
        if dec_ok(s) {
            assert forall|i: int| 0 <= i < s.len() implies val(#[trigger] s[i]) is Some || s[i] == '=' by {}
            lemma_ok_ascii(s, s.len() as int);
        }
        assert(dec_ok(s) ==> s.len() == n);
    }
//@loop 0 it
    invariant
        CHARS_s().len() == 64, forall|k: int| 0 <= k < 64 ==> (#[trigger] CHARS_s()[k]) as char == sym(k as u8) && CHARS_s()[k] < 123,
        forall|k: int| 0 <= k < i ==> reverse_characters@[#[trigger] CHARS_s()[k] as int] == k,
//@in 0 end
    proof { assert forall|k: int| 0 <= k < i implies CHARS_s()[k] != CHARS_s()[i as int] by { lemma_sym(k as u8); lemma_sym(i as u8); } }
//@loop 1
    invariant
        CHARS_s().len() == 64, forall|k: int| 0 <= k < 64 ==> (#[trigger] CHARS_s()[k]) as char == sym(k as u8) && CHARS_s()[k] < 123,
        forall|k: int| 0 <= k < 64 ==> reverse_characters@[#[trigger] CHARS_s()[k] as int] == k,
        s == input.c@, n == input.n, n == len, wf_str(*input), dec_ok(s) ==> s.len() == n, n % 4 == 0,
        consumed % 4 == 0, consumed <= n, input_iter.c@ == s, input_iter.i == consumed, consumed <= s.len(),
        forall|k: int| 0 <= k < consumed ==> val(#[trigger] s[k]) is Some || s[k] == '=' && k >= n - 2,
        padding_len == (if consumed == n && n > 0 { eqs(s, n, n) } else { 0 }), consumed == n && n > 0 && s[n - 2] == '=' ==> s[n - 1] == '=',
        out@.len() == 3 * (consumed / 4), forall|j: int| 0 <= j < out@.len() ==> #[trigger] out@[j] == byte(s, j),
    decreases n - consumed,
//@in 1 start
    let ghost c0 = consumed as int; let ghost o0 = out@;
//@loop 2 it
    invariant
        CHARS_s().len() == 64, forall|k: int| 0 <= k < 64 ==> (#[trigger] CHARS_s()[k]) as char == sym(k as u8) && CHARS_s()[k] < 123,
        forall|k: int| 0 <= k < 64 ==> reverse_characters@[#[trigger] CHARS_s()[k] as int] == k,
        s == input.c@, n == input.n, n == len, wf_str(*input), dec_ok(s) ==> s.len() == n, n % 4 == 0,
        consumed == c0 + 4, c0 % 4 == 0, consumed <= n, input_iter.c@ == s, input_iter.i == c0 + i, c0 + i <= s.len(),
        forall|k: int| 0 <= k < c0 + i ==> val(#[trigger] s[k]) is Some || s[k] == '=' && k >= n - 2,
        padding_len == eqs(s, n, c0 + i), i == 4 && consumed == n && s[n - 2] == '=' ==> s[n - 1] == '=',
        forall|j: int| 0 <= j < i ==> #[trigger] tmp@[j] == v(s, c0 + j),
//@in 2 start
    proof {
        lemma_ok_ascii(s, c0 + i);
        assert(s.len() == c0 + i ==> s.len() == n); assert(c0 + i < s.len());
        let c = s[c0 + i]; if val(c) is Some { lemma_val(c); assert(CHARS_s()[val(c)->0 as int] as char == c); }
        assert forall|k: int| 0 <= k < 64 implies val((#[trigger] CHARS_s()[k]) as char) == Some(k as u8) by { lemma_sym(k as u8); }
    }
//@in 1 end
    proof {
        assert(c0 / 4 + 1 == consumed / 4);
        assert forall|j: int| 0 <= j < out@.len() implies #[trigger] out@[j] == byte(s, j) by {
            if j < 3 * (c0 / 4) { assert(o0[j] == byte(s, j)); } else { assert(j / 3 == c0 / 4 && 4 * (j / 3) == c0); assert(v(s, c0) == tmp@[0] && v(s, c0 + 1) == tmp@[1] && v(s, c0 + 2) == tmp@[2] && v(s, c0 + 3) == tmp@[3]); }
        }
    }
//@before 3
    let ghost o1 = out@;
    proof {
        lemma_ok_ascii(s, n);
        assert(n == len && consumed == n);
        assert(s.len() == n) by { if s.len() > n { assert(s.len() <= n); } }
        assert(padding_len == npad(s));
        assert(dec_ok(s));
    }
//@loop 3 it
    invariant o1.len() == 3 * (n / 4), padding_len <= 2, padding_len > 0 ==> n >= 4, out@ == o1.subrange(0, o1.len() - it.index()),
//@end
    proof { assert(out@ =~= dec_s(s)); }
//@endfn
/// number of `=` among the last two of the n characters, so far as they are among the first m
pub open spec fn eqs(s: Seq<char>, n: int, m: int) -> int { (if m >= n - 1 && s[n - 2] == '=' { 1int } else { 0 }) + (if m >= n && s[n - 1] == '=' { 1int } else { 0 }) }
}
fn main() {}
