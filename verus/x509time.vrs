//@include head.inc
//@item utils/x509.rs struct UtcTime
//@item utils/x509.rs struct Validity
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
/// `&str`: its UTF-8 bytes; slicing must cut at character boundaries
struct VStr<'a> { b: &'a [u8] }
impl<'a> VStr<'a> {
    spec fn boundary(&self, i: int) -> bool { i == 0 || i == self.b@.len() || (0 < i < self.b@.len() && !(128 <= self.b@[i] < 192)) }
    fn as_bytes(&self) -> (r: &'a [u8]) ensures r@ == self.b@, { self.b }
    fn vx_from(&self, i: usize) -> (r: VStr<'a>) requires i <= self.b@.len(), self.boundary(i as int), ensures r.b@ == self.b@.subrange(i as int, self.b@.len() as int), { VStr { b: &self.b[i..] } }
    fn vx_to(&self, i: usize) -> (r: VStr<'a>) requires i <= self.b@.len(), self.boundary(i as int), ensures r.b@ == self.b@.subrange(0, i as int), { VStr { b: &self.b[..i] } }
    fn vx_sub(&self, i: usize, j: usize) -> (r: VStr<'a>) requires i <= j <= self.b@.len(), self.boundary(i as int), self.boundary(j as int), ensures r.b@ == self.b@.subrange(i as int, j as int), { VStr { b: &self.b[i..j] } }
    /// the only byte of a string of one byte
    fn vx_one(&self) -> (r: u8) requires self.b@.len() == 1, ensures r == self.b@[0], { self.b[0] }
}
// ---- dates (proleptic Gregorian calendar) ----
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn mlen(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
/// days from 1 January 1970 to 1 January of y; days of the months before m
pub open spec fn ydays(y: int) -> int decreases y - 1970 { if y <= 1970 { 0 } else { ydays(y - 1) + if leap(y - 1) { 366int } else { 365int } } }
pub open spec fn mdays(y: int, m: int) -> int decreases m { if m <= 1 { 0 } else { mdays(y, m - 1) + mlen(y, m - 1) } }
pub open spec fn unix(t: UtcTime) -> int { if t.year < 1970 { 0 } else { (ydays(t.year as int) + mdays(t.year as int, t.month as int) + t.day - 1) * 86400 + t.hour * 3600 + t.minute * 60 + t.second } }
pub open spec fn real(t: UtcTime) -> bool { 1 <= t.month <= 12 && 1 <= t.day <= mlen(t.year as int, t.month as int) && t.hour <= 23 && t.minute <= 59 && t.second <= 59 }
pub open spec fn is_dig(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn two(b: Seq<u8>, i: int) -> int { (b[i] - 48) * 10 + (b[i + 1] - 48) }
pub open spec fn full_year(yy: int) -> int { if yy < 50 { 2000 + yy } else { 1900 + yy } }
/// YYMMDDHHMMSSZ of a real date and time
pub open spec fn utc(b: Seq<u8>) -> bool {
    &&& b.len() == 13 && b[12] == 90 && forall|i: int| 0 <= i < 12 ==> is_dig(#[trigger] b[i])
    &&& 1 <= two(b, 2) <= 12 && 1 <= two(b, 4) <= mlen(full_year(two(b, 0)), two(b, 2)) && two(b, 6) <= 23 && two(b, 8) <= 59 && two(b, 10) <= 59
}
proof fn lemma_leaps(y: int)
    requires y >= 1970, ensures ydays(y) == (y - 1970) * 365 + ((y - 1) - 1968) / 4 - ((y - 1) - 1900) / 100 + ((y - 1) - 1600) / 400, decreases y
{ if y > 1970 { lemma_leaps(y - 1); } }
//@fn utils/bytes.rs fn str_to_u8
//@ret r
//@subst `s: &str` => `s: &VStr<'_>`
//@resub `match &s\[\.\.1\]` => `match s.vx_to(1).vx_one()` opt
//@resub `"([0-9])" =>` => `b'\1' =>` opt
//@spec
    requires s.b@.len() >= 1, is_dig(s.b@[0]), s.boundary(1),
    ensures r == s.b@[0] - 48,
//@endfn
//@fn utils/bytes.rs fn str_to_u16
//@ret r
//@subst `s: &str` => `s: &VStr<'_>`
//@resub `&s\[\.\.(\d+)\]` => `&s.vx_to(\1)` opt
//@resub `&s\[(\d+)\.\.(\d+)\]` => `&s.vx_sub(\1, \2)` opt
//@spec
    requires s.b@.len() >= 2, is_dig(s.b@[0]), is_dig(s.b@[1]), s.boundary(2),
    ensures r == two(s.b@, 0),
//@endfn
//@fn utils/x509.rs fn is_leap_year
//@ret r
//@spec
    ensures r == leap(year as int),
//@endfn
impl UtcTime {
//@fn utils/x509.rs impl UtcTime :: fn from_utc_timestamp
//@ret r
//@subst `t: &str` => `t: &VStr<'_>`
//@resub `&t\[(\d+)\.\.\]` => `&t.vx_from(\1)` opt
//@resub `&t\[(\d+)\.\.(\d+)\]` => `&t.vx_sub(\1, \2)` opt
//@spec
    ensures
        (r is Some) == utc(t.b@),
        r is Some ==> real(r->0) && r->0.year == full_year(two(t.b@, 0)) && r->0.month == two(t.b@, 2) && r->0.day == two(t.b@, 4) && r->0.hour == two(t.b@, 6) && r->0.minute == two(t.b@, 8) && r->0.second == two(t.b@, 10),
//@loop 0 it
    invariant
        digits@ == t.b@, digits@.len() == 13, it.seq().len() == 12, forall|k: int| 0 <= k < 12 ==> *#[trigger] it.seq()[k] == digits@[k], forall|k: int| 0 <= k < it.index() ==> is_dig(#[trigger] digits@[k]),
//@endfn
//@fn utils/x509.rs impl UtcTime :: fn get_unix_timestamp
//@ret r
//@spec
    requires real(*self),
    ensures r == unix(*self),
//@start
        proof { if self.year >= 1970 { lemma_leaps(self.year as int); } reveal_with_fuel(mdays, 13); }
//@endfn
}
// ---- the clock (std): seconds since 1970, of unknown value ----
#[verifier::external_body]
struct SystemTime { p: usize }
#[verifier::external_body]
struct Duration { p: usize }
struct UNIX_EPOCH {}
pub uninterp spec fn clock_read(secs: u64) -> bool;
impl Duration { uninterp spec fn secs(&self) -> u64; #[verifier::external_body] fn as_secs(&self) -> (r: u64) ensures r == self.secs(), { unimplemented!() } }
impl SystemTime {
    #[verifier::external_body] fn now() -> (r: SystemTime) { unimplemented!() }
    /// the clock is not before 1970 (otherwise the program stops with a message)
    #[verifier::external_body] fn duration_since(&self, e: UNIX_EPOCH) -> (r: Result<Duration, ()>) ensures r is Ok, clock_read(r->Ok_0.secs()), { unimplemented!() }
}
impl Validity {
//@fn utils/x509.rs impl Validity :: fn new
//@ret r
//@spec
    ensures r.not_before is None, r.not_after is None,
//@endfn
//@fn utils/x509.rs impl Validity :: fn is_valid
//@ret r
//@resub `\bUNIX_EPOCH\b` => `UNIX_EPOCH {}` opt
//@spec
    requires self.not_before is Some ==> real(self.not_before->0), self.not_after is Some ==> real(self.not_after->0),
    ensures
        exists|now: u64| #[trigger] clock_read(now) && r == ((self.not_before is Some ==> now >= unix(self.not_before->0)) && (self.not_after is Some ==> now <= unix(self.not_after->0))),
//@start
        let ghost t0 = self;
//@endfn
}
}
fn main() {}
