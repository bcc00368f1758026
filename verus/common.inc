// 64-bit target
global size_of usize == 8;
// ---- assumed contracts of core/alloc functions (trusted; listed in evidence) ----
pub assume_specification<T: Clone> [<[T]>::to_vec] (x: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@ == x@;
/// std::cmp::min at usize, written out
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if b < a { b } else { a } }
/// number of iterations of (0..n).step_by(s)
fn vx_steps(n: usize, s: usize) -> (r: usize) requires s > 0, ensures r == (n as int + s as int - 1) / (s as int),
{
    if n % s == 0 { assert((n as int + s as int - 1) / (s as int) == n as int / s as int) by(nonlinear_arith) requires n as int % s as int == 0, s > 0; n / s }
    else {
        assert((n as int + s as int - 1) / (s as int) == n as int / s as int + 1) by(nonlinear_arith) requires n as int % s as int != 0, s > 0;
        assert(n as int / s as int <= n as int) by(nonlinear_arith) requires s > 0, n >= 0;
        proof { if n as int / s as int == n as int { assert(n as int % s as int == 0) by(nonlinear_arith) requires n as int / s as int == n as int, s > 0, n >= 0; } }
        n / s + 1
    }
}
/// number of iterations of (a..b).step_by(s)
fn vx_steps_from(a: usize, b: usize, s: usize) -> (r: usize) requires s > 0,
    ensures r == (if b <= a { 0 } else { (b as int - a as int + s as int - 1) / (s as int) }),
{ if b <= a { 0 } else { vx_steps(b - a, s) } }
