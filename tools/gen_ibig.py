"""writes verus/ibig.inc: the ibig::IBig operations the code uses, assumed to be mathematical integers"""
o = []
w = o.append
w("//TRUST-GROUP ibig::IBig (dependency) behaves as exact mathematical integers: + - * / % << >> & pow, comparison, clone, literals, From<u8..usize,i32>")
w("// ---- ibig::IBig (dependency): assumed to be exact integer arithmetic; every body below is trusted ----")
w("pub struct IBig { pub v: Ghost<int> }")
w("pub  open spec fn ib(v: int) -> IBig { IBig { v: Ghost(v) } }")
w("pub  open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }")
w("/// division rounding towards zero")
w("pub  open spec fn tdiv(a: int, b: int) -> int { if (a < 0) == (b < 0) { iabs(a) / iabs(b) } else { -(iabs(a) / iabs(b)) } }")
w("/// remainder with the sign of the dividend")
w("pub  open spec fn trem(a: int, b: int) -> int { if a < 0 { -(iabs(a) % iabs(b)) } else { iabs(a) % iabs(b) } }")
w("pub  open spec fn ipow2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * ipow2(n - 1) } }")
w("pub  open spec fn ipow(a: int, n: int) -> int decreases n { if n <= 0 { 1 } else { a * ipow(a, n - 1) } }")
w("/// bitwise and of non-negative integers")
w("pub  open spec fn iand(a: int, b: int) -> int decreases a { if a <= 0 || b <= 0 { 0 } else { (a % 2) * (b % 2) + 2 * iand(a / 2, b / 2) } }")
w("#[verifier::external_body]\nfn ibig_lit(v: Ghost<int>) -> (r: IBig) ensures r.v@ == v@, { unimplemented!() }")
w("""impl Clone for IBig { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl IBig {
    #[verifier::external_body] fn pow(&self, n: usize) -> (r: IBig) ensures r.v@ == ipow(self.v@, n as int), { unimplemented!() }
}""")
OPS = [("Add", "add", "a + b", "true"), ("Sub", "sub", "a - b", "true"), ("Mul", "mul", "a * b", "true"), ("Div", "div", "tdiv(a, b)", "b != 0"), ("Rem", "rem", "trem(a, b)", "b != 0")]
for T, f, e, req in OPS:
    for L in ("IBig", "&IBig"):
        for R in ("IBig", "&IBig") + (("i32",) if T in ("Div","Rem","Mul") and L == "IBig" else ()):
            rv = "o.v@" if R != "i32" else "o as int"
            ex = e.replace("b", rv).replace("a", "self.v@") if False else None
            def sub(s):
                import re
                return re.sub(r"\b([ab])\b", lambda m: "self.v@" if m.group(1) == "a" else "(%s)" % rv, s)
            w("impl %sSpecImpl<%s> for %s { open spec fn obeys_%s_spec() -> bool { true } open spec fn %s_req(self, o: %s) -> bool { %s } open spec fn %s_spec(self, o: %s) -> IBig { ib(%s) } }" % (T, R, L, f, f, R, sub(req), f, R, sub(e)))
            w("impl core::ops::%s<%s> for %s { type Output = IBig; #[verifier::external_body] fn %s(self, o: %s) -> IBig { unimplemented!() } }" % (T, R, L, f, R))
for T, f, e, ty, rv, req in [("Shl", "shl", "self.v@ * ipow2(o as int)", "usize", "", "true"), ("Shr", "shr", "self.v@ / ipow2(o as int)", "usize", "", "true"), ("BitAnd", "bitand", "iand(self.v@, o.v@)", "IBig", "", "self.v@ >= 0 && o.v@ >= 0")]:
    w("impl %sSpecImpl<%s> for IBig { open spec fn obeys_%s_spec() -> bool { true } open spec fn %s_req(self, o: %s) -> bool { %s } open spec fn %s_spec(self, o: %s) -> IBig { ib(%s) } }" % (T, ty, f, f, ty, req, f, ty, e))
    w("impl core::ops::%s<%s> for IBig { type Output = IBig; #[verifier::external_body] fn %s(self, o: %s) -> IBig { unimplemented!() } }" % (T, ty, f, ty))
for T, f, e, R, req in [("AddAssign", "add_assign", "self.v@ + o.v@", "IBig", "true"), ("SubAssign", "sub_assign", "self.v@ - o.v@", "IBig", "true"), ("MulAssign", "mul_assign", "self.v@ * o.v@", "IBig", "true"), ("RemAssign", "rem_assign", "trem(self.v@, o.v@)", "IBig", "o.v@ != 0"), ("BitAndAssign", "bitand_assign", "iand(self.v@, o.v@)", "IBig", "self.v@ >= 0 && o.v@ >= 0")]:
    w("impl %sSpecImpl<%s> for IBig { open spec fn obeys_%s_spec() -> bool { true } open spec fn %s_req(&self, o: %s) -> bool { %s } open spec fn %s_spec(&self, o: %s) -> &Self { &ib(%s) } }" % (T, R, f, f, R, req, f, R, e))
    w("impl core::ops::%s<%s> for IBig { #[verifier::external_body] fn %s(&mut self, o: %s) { unimplemented!() } }" % (T, R, f, R))
w("impl PartialEqSpecImpl for IBig { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &IBig) -> bool { self.v@ == o.v@ } }")
w("impl PartialEq for IBig { #[verifier::external_body] fn eq(&self, o: &IBig) -> bool { unimplemented!() } }")
w("impl PartialOrdSpecImpl for IBig { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &IBig) -> Option<core::cmp::Ordering> { if self.v@ < o.v@ { Some(core::cmp::Ordering::Less) } else if self.v@ == o.v@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } } }")
w("impl PartialOrd for IBig { #[verifier::external_body] fn partial_cmp(&self, o: &IBig) -> Option<core::cmp::Ordering> { unimplemented!() } }")
for t in ("u8", "u16", "u32", "i32", "u64", "usize"):
    w("impl FromSpecImpl<%s> for IBig { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: %s) -> IBig { ib(x as int) } }" % (t, t))
    w("impl core::convert::From<%s> for IBig { #[verifier::external_body] fn from(x: %s) -> (r: Self) { unimplemented!() } }" % (t, t))
w("//TRUST-END")
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "ibig.inc"), "w").write("\n".join(o) + "\n")
