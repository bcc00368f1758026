//@include head.inc
//@item utils/pem.rs enum PemState derive=PartialEq,Eq,Structural,Clone,Copy
// ---- text: the length in bytes of its UTF-8 form (what is in it does not matter for termination and panics) ----
#[derive(Clone, Copy)]
struct VStr { n: usize }
impl VStr {
    fn len(&self) -> (r: usize) ensures r == self.n, { self.n }
    /// whether the text begins with `p`: nothing shorter does
    #[verifier::external_body]
    fn starts_with(&self, p: &[u8]) -> (r: bool) ensures r ==> self.n >= p@.len(), { unimplemented!() }
    /// `get(i..j)` of a text: `None` where the range is none or cuts a character
    #[verifier::external_body]
    fn vx_get(&self, i: usize, j: usize) -> (r: Option<VStr>) ensures r is Some ==> i <= j <= self.n && (r->0).n == j - i, { unimplemented!() }
    /// `&s[i..j]`: where the characters end is not known here, so only the whole text may be taken
    #[verifier::external_body]
    fn vx_sub(&self, i: usize, j: usize) -> (r: VStr) requires i == 0 && j == self.n, ensures r == *self, { unimplemented!() }
    fn to_string(&self) -> (r: VString) ensures r.n == self.n, { VString { n: self.n } }
}
struct VString { n: usize }
impl VString {
    fn new() -> (r: VString) ensures r.n == 0, { VString { n: 0 } }
    fn len(&self) -> (r: usize) ensures r == self.n, { self.n }
    fn is_empty(&self) -> (r: bool) ensures r == (self.n == 0), { self.n == 0 }
    fn to_owned(&self) -> (r: VString) ensures r.n == self.n, { VString { n: self.n } }
    fn clone(&self) -> (r: VString) ensures r.n == self.n, { VString { n: self.n } }
    fn clear(&mut self) ensures final(self).n == 0, { self.n = 0; }
    fn push_str(&mut self, s: VStr) requires old(self).n + s.n < 0x1000_0000_0000_0000, ensures final(self).n == old(self).n + s.n, { self.n = self.n + s.n; }
    /// `split('\n')`: the lines of the text together are no longer than the text
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: Vec<VStr>) ensures r@.len() >= 1, r@.len() <= self.n + 1, sum(r@, r@.len() as int) <= self.n, { unimplemented!() }
}
struct VMap { k: usize }
impl VMap {
    fn new() -> VMap { VMap { k: 0 } }
    #[verifier::external_body]
    fn insert(&mut self, k: VString, v: Vec<u8>) -> Option<Vec<u8>> { unimplemented!() }
}
pub open spec fn sum(l: Seq<VStr>, i: int) -> int decreases i { if i <= 0 { 0 } else { sum(l, i - 1) + l[i - 1].n } }
proof fn lemma_sum(l: Seq<VStr>, i: int, j: int) requires 0 <= i <= j <= l.len(), ensures 0 <= sum(l, i) <= sum(l, j), decreases j { if i < j { lemma_sum(l, i, j - 1); } else if i > 0 { lemma_sum(l, i - 1, i - 1); } }
mod fs { 
    use super::*;
    /// the file's text, or an error
    #[verifier::external_body]
    pub(super) fn read_to_string(p: VString) -> (r: Result<VString, u8>) ensures r is Ok ==> (r->Ok_0).n < 0x1000_0000_0000_0000, { unimplemented!() }
}
mod base64 {
    use super::*;
    /// proved never to panic by unit base64 for texts below 2^60 bytes
    #[verifier::external_body]
    pub(super) fn decode(s: &VString) -> (r: Option<Vec<u8>>) requires s.n < 0x1000_0000_0000_0000, { unimplemented!() }
}
//@fn utils/pem.rs fn get_pem_content_from_file
//@resub `\bString\b` => `VString` all
//@resub `HashMap<VString, Vec<u8>>` => `VMap` all
//@resub `HashMap::` => `VMap::` opt all
//@resub `\.starts_with\("` => `.starts_with(b"` opt all
//@resub `\.get\(([^()]*)\.\.\(?(.*?)\)?\)\?` => `.vx_get(\1, \2)?` opt
//@resub `\.split\('\\n'\)` => `.vx_lines()` opt
//@resub `current_content \+= (\w+);` => `current_content.push_str(\1);` opt
//@resub `state != PemState::End` => `!matches!(state, PemState::End)` opt
//@loop 0 it
    invariant
        current_content.n <= sum(it.seq(), it.index@), sum(it.seq(), it.seq().len() as int) < 0x1000_0000_0000_0000,
//@in 0 start
    proof { lemma_sum(it.seq(), it.index@ + 1, it.seq().len() as int); lemma_sum(it.seq(), 0, it.index@); }
//@endfn
fn main() {}
} // verus!
