// ===== lib/dft.rs: the floating-point values of the search read as real numbers, and the discrete Fourier transform =====
//@subst \bF32\s*::\s*vx_lit\b => F64::vx_lit
//@subst \bf64\b => F64
/// f64, read as the real number it holds: its arithmetic is taken as exact
pub mod vx_f64 {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct F64 { pub x: u64 }
impl View for F64 { type V = real; uninterp spec fn view(&self) -> real; }
pub uninterp spec fn mkf(r: real) -> F64;
pub broadcast axiom fn mkf_view(r: real) ensures (#[trigger] mkf(r))@ == r;
}
pub use vx_f64::{F64, mkf};
broadcast use vx_f64::mkf_view;
pub trait VxReal { spec fn rv(self) -> real; }
impl VxReal for usize { open spec fn rv(self) -> real { (self as int) as real } }
impl VxReal for i8 { open spec fn rv(self) -> real { (self as int) as real } }
impl VxReal for isize { open spec fn rv(self) -> real { (self as int) as real } }
impl VxReal for F64 { open spec fn rv(self) -> real { self@ } }
impl F64 {
    #[verifier::external_body] pub fn vx_lit(k: i64) -> (r: F64) ensures r@ == (k as int) as real / 2real { unimplemented!() }
    #[verifier::external_body] pub fn vx_of<T: VxReal>(k: T) -> (r: F64) ensures r@ == k.rv() { unimplemented!() }
}
pub open spec fn close(a: real, k: int) -> bool { -0.5real < (k as real) - a < 0.5real }
/// the nearest integer: away from half-integers there is only one
#[verifier::external_body]
pub fn vx_iround(a: F64) -> (r: isize) ensures r == iround(a), forall|k: int| isize::MIN <= k <= isize::MAX && #[trigger] close(a@, k) ==> r == k { unimplemented!() }
/// rounding, half away from zero
pub open spec fn round_away(a: real) -> int { let f = a.floor(); if a - (f as real) < 0.5real || (a - (f as real) == 0.5real && a < 0real) { f } else { f + 1 } }
/// what is got when the rounded value is cast to isize
pub open spec fn iround(a: F64) -> int { let k = round_away(a@); if k < isize::MIN { isize::MIN as int } else if k > isize::MAX { isize::MAX as int } else { k } }
pub proof fn lemma_iround(a: F64, k: int)
    ensures close(a@, k) && isize::MIN <= k <= isize::MAX ==> iround(a) == k, -9000000000000000000real <= a@ <= 9000000000000000000real ==> a@ - 1real <= (iround(a) as real) <= a@ + 1real,
{ let f = a@.floor(); assert((f as real) <= a@ < (f as real) + 1real); }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
use vstd::std_specs::ops::{AddSpecImpl, MulSpecImpl, SubSpecImpl};
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl};
macro_rules! real_op { ($($t:ident $f:ident $s:ident $ob:ident $rq:ident $sp:ident $op:tt;)*) => { verus! { $(
    impl core::ops::$t for F64 { type Output = F64; #[verifier::external_body] fn $f(self, o: F64) -> (r: F64) { unimplemented!() } }
    impl $s<F64> for F64 { open spec fn $ob() -> bool { true } open spec fn $rq(self, o: F64) -> bool { true } open spec fn $sp(self, o: F64) -> F64 { mkf(self@ $op o@) } }
    impl<'a, 'b> core::ops::$t<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn $f(self, o: &'b F64) -> (r: F64) { unimplemented!() } }
    impl<'a, 'b> $s<&'b F64> for &'a F64 { open spec fn $ob() -> bool { true } open spec fn $rq(self, o: &'b F64) -> bool { true } open spec fn $sp(self, o: &'b F64) -> F64 { mkf(self@ $op o@) } }
)* } } }
real_op! { Add add AddSpecImpl obeys_add_spec add_req add_spec +; Sub sub SubSpecImpl obeys_sub_spec sub_req sub_spec -; Mul mul MulSpecImpl obeys_mul_spec mul_req mul_spec *; }
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for F64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F64) -> bool { self@ == o@ } }
impl PartialOrdSpecImpl for F64 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F64) -> Option<core::cmp::Ordering> { Some(if self@ < o@ { core::cmp::Ordering::Less } else if self@ > o@ { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }) }
}
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
/// num_complex::Complex
#[derive(Clone, Copy)]
pub struct Complex<T> { pub re: T, pub im: T }
impl Complex<F64> {
    pub fn new(re: F64, im: F64) -> (r: Complex<F64>) ensures r.re == re, r.im == im { Complex { re, im } }
    #[verifier::external_body] pub fn norm_sqr(&self) -> (r: F64) ensures r@ == self.re@ * self.re@ + self.im@ * self.im@ { unimplemented!() }
    #[verifier::external_body] pub fn conj(&self) -> (r: Complex<F64>) ensures r.re@ == self.re@, r.im@ == -self.im@ { unimplemented!() }
}
pub open spec fn mkc(re: real, im: real) -> Complex<F64> { Complex { re: mkf(re), im: mkf(im) } }
pub open spec fn cmulv(a: Complex<F64>, b: Complex<F64>) -> Complex<F64> { mkc(a.re@ * b.re@ - a.im@ * b.im@, a.re@ * b.im@ + a.im@ * b.re@) }
impl core::ops::Mul for Complex<F64> { type Output = Complex<F64>; #[verifier::external_body] fn mul(self, o: Complex<F64>) -> (r: Complex<F64>) { unimplemented!() } }
impl MulSpecImpl<Complex<F64>> for Complex<F64> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Complex<F64>) -> bool { true } open spec fn mul_spec(self, o: Complex<F64>) -> Complex<F64> { cmulv(self, o) } }
impl<'a> core::ops::Mul<Complex<F64>> for &'a Complex<F64> { type Output = Complex<F64>; #[verifier::external_body] fn mul(self, o: Complex<F64>) -> (r: Complex<F64>) { unimplemented!() } }
impl<'a> MulSpecImpl<Complex<F64>> for &'a Complex<F64> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Complex<F64>) -> bool { true } open spec fn mul_spec(self, o: Complex<F64>) -> Complex<F64> { cmulv(*self, o) } }
impl<'a, 'b> core::ops::Mul<&'b Complex<F64>> for &'a Complex<F64> { type Output = Complex<F64>; #[verifier::external_body] fn mul(self, o: &'b Complex<F64>) -> (r: Complex<F64>) { unimplemented!() } }
impl<'a, 'b> MulSpecImpl<&'b Complex<F64>> for &'a Complex<F64> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: &'b Complex<F64>) -> bool { true } open spec fn mul_spec(self, o: &'b Complex<F64>) -> Complex<F64> { cmulv(*self, *o) } }
impl core::ops::Sub for Complex<F64> { type Output = Complex<F64>; #[verifier::external_body] fn sub(self, o: Complex<F64>) -> (r: Complex<F64>) { unimplemented!() } }
impl SubSpecImpl<Complex<F64>> for Complex<F64> { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Complex<F64>) -> bool { true } open spec fn sub_spec(self, o: Complex<F64>) -> Complex<F64> { mkc(self.re@ - o.re@, self.im@ - o.im@) } }

// ---- sums of real numbers
pub open spec fn rsum(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(f, n - 1) + f(n - 1) } }
pub proof fn lemma_rsum_ext(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures rsum(f, n) == rsum(g, n),
    decreases n,
{ if n > 0 { lemma_rsum_ext(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn lemma_rsum_lin(f: spec_fn(int) -> real, g: spec_fn(int) -> real, h: spec_fn(int) -> real, a: real, b: real, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == f(i) * a + g(i) * b,
    ensures rsum(h, n) == rsum(f, n) * a + rsum(g, n) * b,
    decreases n,
{
    if n > 0 {
        lemma_rsum_lin(f, g, h, a, b, n - 1);
        assert(h(n - 1) == f(n - 1) * a + g(n - 1) * b);
        let (x, y, p, q) = (rsum(f, n - 1), rsum(g, n - 1), f(n - 1), g(n - 1));
        assert((x + p) * a + (y + q) * b == (x * a + y * b) + (p * a + q * b)) by(nonlinear_arith);
    } else { assert(0real * a + 0real * b == 0real) by(nonlinear_arith); }
}
pub open spec fn rows(ff: spec_fn(int, int) -> real, m: int) -> spec_fn(int) -> real { |i: int| rsum(|j: int| ff(i, j), m) }
pub open spec fn cols(ff: spec_fn(int, int) -> real, n: int) -> spec_fn(int) -> real { |j: int| rsum(|i: int| ff(i, j), n) }
pub proof fn lemma_rsum_zero(f: spec_fn(int) -> real, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real,
    ensures rsum(f, n) == 0real,
    decreases n,
{ if n > 0 { lemma_rsum_zero(f, n - 1); assert(f(n - 1) == 0real); } }
pub proof fn lemma_rsum_swap(ff: spec_fn(int, int) -> real, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures rsum(rows(ff, m), n) == rsum(cols(ff, n), m),
    decreases n,
{
    if n == 0 { lemma_rsum_zero(cols(ff, 0), m); }
    else {
        lemma_rsum_swap(ff, n - 1, m);
        let f = cols(ff, n - 1); let g = |j: int| ff(n - 1, j); let h = cols(ff, n);
        assert forall|j: int| 0 <= j < m implies #[trigger] h(j) == f(j) * 1real + g(j) * 1real by {
            let c = |i: int| ff(i, j);
            assert(rsum(c, n) == rsum(c, n - 1) + c(n - 1));
            assert(f(j) == rsum(c, n - 1));
        }
        lemma_rsum_lin(f, g, h, 1real, 1real, m);
        assert(rows(ff, m)(n - 1) == rsum(g, m));
    }
}
pub proof fn lemma_rsum_tele(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] g(i) == f(i + 1),
    ensures rsum(g, n) == rsum(f, n) - f(0) + f(n),
    decreases n,
{ if n > 0 { lemma_rsum_tele(f, g, n - 1); assert(g(n - 1) == f(n)); } }
pub open spec fn periodic(f: spec_fn(int) -> real, n: int) -> bool { forall|i: int| #[trigger] f(i + n) == f(i) }
pub open spec fn shifted(f: spec_fn(int) -> real, s: int) -> spec_fn(int) -> real { |i: int| f(i + s) }
pub proof fn lemma_rsum_shift(f: spec_fn(int) -> real, s: int, n: int)
    requires n >= 0, s >= 0, periodic(f, n),
    ensures rsum(shifted(f, s), n) == rsum(f, n),
    decreases s,
{
    if s == 0 { lemma_rsum_ext(shifted(f, 0), f, n); }
    else {
        lemma_rsum_shift(f, s - 1, n);
        let (g, h) = (shifted(f, s - 1), shifted(f, s));
        assert forall|i: int| 0 <= i < n implies #[trigger] h(i) == g(i + 1) by { assert(i + 1 + (s - 1) == i + s); }
        lemma_rsum_tele(g, h, n);
        assert(g(n) == f(s - 1 + n)); assert(f((s - 1) + n) == f(s - 1)); assert(g(0) == f(s - 1));
    }
}
pub proof fn lemma_rsum_bound(f: spec_fn(int) -> real, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> -1real <= #[trigger] f(i) <= 1real,
    ensures -(n as real) <= rsum(f, n) <= n as real,
    decreases n,
{ if n > 0 { lemma_rsum_bound(f, n - 1); assert(-1real <= f(n - 1) <= 1real); } }
pub proof fn lemma_rsum_int(f: spec_fn(int) -> int, g: spec_fn(int) -> real, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == f(i) as real,
    ensures rsum(g, n) == sum(f, n) as real,
    decreases n,
{ if n > 0 { lemma_rsum_int(f, g, n - 1); assert(g(n - 1) == f(n - 1) as real); } }

// ---- cosine and sine of 2*pi*j/n
pub mod vx_trig {
use super::*;
pub uninterp spec fn co(n: int, j: int) -> real;
pub uninterp spec fn si(n: int, j: int) -> real;
pub axiom fn trig_diff(n: int, a: int, b: int) requires n > 0 ensures co(n, a - b) == co(n, a) * co(n, b) + si(n, a) * si(n, b), si(n, a - b) == si(n, a) * co(n, b) - co(n, a) * si(n, b);
pub axiom fn trig_turn(n: int, a: int) requires n > 0 ensures co(n, a + n) == co(n, a), si(n, a + n) == si(n, a);
pub axiom fn trig_zero(n: int) requires n > 0 ensures co(n, 0) == 1real, si(n, 0) == 0real;
pub axiom fn trig_unit(n: int, a: int) requires n > 0 ensures co(n, a) * co(n, a) + si(n, a) * si(n, a) == 1real;
}
pub use vx_trig::*;
pub proof fn lemma_turns(n: int, a: int, m: int)
    requires n > 0, m >= 0,
    ensures co(n, a + m * n) == co(n, a), si(n, a + m * n) == si(n, a),
    decreases m,
{ if m > 0 { lemma_turns(n, a, m - 1); trig_turn(n, a + (m - 1) * n); assert(a + (m - 1) * n + n == a + m * n) by(nonlinear_arith); } else { assert(a + 0 * n == a); } }
// ---- transforms of sequences of period n
pub open spec fn cf(y: spec_fn(int) -> real, n: int, k: int) -> spec_fn(int) -> real { |j: int| y(j) * co(n, j * k) }
pub open spec fn sf(y: spec_fn(int) -> real, n: int, k: int) -> spec_fn(int) -> real { |j: int| y(j) * si(n, j * k) }
pub open spec fn fre(y: spec_fn(int) -> real, n: int, k: int) -> real { rsum(cf(y, n, k), n) }
pub open spec fn fim(y: spec_fn(int) -> real, n: int, k: int) -> real { -rsum(sf(y, n, k), n) }
pub open spec fn ccf(a: spec_fn(int) -> real, b: spec_fn(int) -> real, t: int) -> spec_fn(int) -> real { |m: int| a(t + m) * b(m) }
pub open spec fn cc(a: spec_fn(int) -> real, b: spec_fn(int) -> real, n: int) -> spec_fn(int) -> real { |t: int| rsum(ccf(a, b, t), n) }
pub proof fn lemma_cf_periodic(y: spec_fn(int) -> real, n: int, k: int)
    requires n > 0, k >= 0, periodic(y, n),
    ensures periodic(cf(y, n, k), n), periodic(sf(y, n, k), n),
{
    assert forall|i: int| #[trigger] cf(y, n, k)(i + n) == cf(y, n, k)(i) by { lemma_turns(n, i * k, k); assert((i + n) * k == i * k + k * n) by(nonlinear_arith); assert(y(i + n) == y(i)); }
    assert forall|i: int| #[trigger] sf(y, n, k)(i + n) == sf(y, n, k)(i) by { lemma_turns(n, i * k, k); assert((i + n) * k == i * k + k * n) by(nonlinear_arith); assert(y(i + n) == y(i)); }
}
pub open spec fn wc(a: spec_fn(int) -> real, b: spec_fn(int) -> real, n: int, k: int) -> spec_fn(int, int) -> real { |t: int, m: int| a(t + m) * b(m) * co(n, t * k) }
pub open spec fn ws(a: spec_fn(int) -> real, b: spec_fn(int) -> real, n: int, k: int) -> spec_fn(int, int) -> real { |t: int, m: int| a(t + m) * b(m) * si(n, t * k) }
pub proof fn lemma_wk_row(a: spec_fn(int) -> real, b: spec_fn(int) -> real, n: int, k: int, t: int)
    ensures cf(cc(a, b, n), n, k)(t) == rows(wc(a, b, n, k), n)(t), sf(cc(a, b, n), n, k)(t) == rows(ws(a, b, n, k), n)(t),
{
    let g = ccf(a, b, t);
    let (hc, hs) = (|m: int| wc(a, b, n, k)(t, m), |m: int| ws(a, b, n, k)(t, m));
    let (c, s) = (co(n, t * k), si(n, t * k));
    assert forall|m: int| 0 <= m < n implies #[trigger] hc(m) == g(m) * c + g(m) * 0real by { alg_zero(g(m)); }
    assert forall|m: int| 0 <= m < n implies #[trigger] hs(m) == g(m) * s + g(m) * 0real by { alg_zero(g(m)); }
    lemma_rsum_lin(g, g, hc, c, 0real, n);
    lemma_rsum_lin(g, g, hs, s, 0real, n);
    alg_zero(rsum(g, n));
}
pub proof fn alg_zero(z: real) ensures z * 0real == 0real { assert(z * 0real == 0real) by(nonlinear_arith); }
pub proof fn alg_assoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c) { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
pub proof fn alg_dist(a: real, b: real, c: real) ensures a * (b + c) == a * b + a * c, a * (b - c) == a * b - a * c, (b + c) * a == b * a + c * a, (b - c) * a == b * a - c * a {
    assert(a * (b + c) == a * b + a * c) by(nonlinear_arith); assert(a * (b - c) == a * b - a * c) by(nonlinear_arith); assert((b + c) * a == b * a + c * a) by(nonlinear_arith); assert((b - c) * a == b * a - c * a) by(nonlinear_arith);
}
pub proof fn alg_swap(a: real, b: real, c: real, d: real) ensures (a * b) * (c * d) == (a * c) * (b * d) {
    alg_assoc(a, b, c * d); alg_assoc(b, c, d); alg_neg(b, c); alg_assoc(c, b, d); alg_assoc(a, c, b * d);
}
pub proof fn alg_c(x: real, v: real, p: real, q: real, c: real, s: real) ensures x * v * (p * c + q * s) == (x * p) * (v * c) + (x * q) * (v * s) { alg_dist(x * v, p * c, q * s); alg_swap(x, v, p, c); alg_swap(x, v, q, s); }
pub proof fn alg_s(x: real, v: real, p: real, q: real, c: real, s: real) ensures x * v * (q * c - p * s) == (x * q) * (v * c) + (x * p) * (-(v * s)) { alg_dist(x * v, q * c, p * s); alg_swap(x, v, q, c); alg_swap(x, v, p, s); alg_neg(x * p, v * s); }
pub proof fn alg_neg(x: real, y: real) ensures x * (-y) == -(x * y), x * y == y * x, (-x) * (-y) == x * y, (-x) * y == -(x * y) { assert(x * (-y) == -(x * y)) by(nonlinear_arith); assert(x * y == y * x) by(nonlinear_arith); assert((-x) * (-y) == x * y) by(nonlinear_arith); assert((-x) * y == -(x * y)) by(nonlinear_arith); }
pub proof fn lemma_wk_col(a: spec_fn(int) -> real, b: spec_fn(int) -> real, n: int, k: int, m: int, ca: real, sa: real)
    requires n > 0, k >= 0, m >= 0, periodic(a, n), ca == rsum(cf(a, n, k), n), sa == rsum(sf(a, n, k), n),
    ensures cols(wc(a, b, n, k), n)(m) == cf(b, n, k)(m) * ca + sf(b, n, k)(m) * sa, cols(ws(a, b, n, k), n)(m) == cf(b, n, k)(m) * sa + sf(b, n, k)(m) * (-ca),
{
    lemma_cf_periodic(a, n, k);
    let (hc, hs) = (|t: int| wc(a, b, n, k)(t, m), |t: int| ws(a, b, n, k)(t, m));
    let (pa, qa) = (shifted(cf(a, n, k), m), shifted(sf(a, n, k), m));
    let (c, s, v) = (co(n, m * k), si(n, m * k), b(m));
    let (vc, vs) = (v * c, v * s);
    assert forall|t: int| 0 <= t < n implies #[trigger] hc(t) == pa(t) * vc + qa(t) * vs by {
        lemma_diff(n, t, m, k);
        alg_c(a(t + m), v, co(n, (t + m) * k), si(n, (t + m) * k), c, s);
    }
    assert forall|t: int| 0 <= t < n implies #[trigger] hs(t) == qa(t) * vc + pa(t) * (-vs) by {
        lemma_diff(n, t, m, k);
        alg_s(a(t + m), v, co(n, (t + m) * k), si(n, (t + m) * k), c, s);
    }
    lemma_rsum_lin(pa, qa, hc, vc, vs, n);
    lemma_rsum_lin(qa, pa, hs, vc, -vs, n);
    lemma_rsum_shift(cf(a, n, k), m, n); lemma_rsum_shift(sf(a, n, k), m, n);
    alg_neg(ca, vc); alg_neg(sa, vs); alg_neg(sa, vc); alg_neg(ca, vs); alg_neg(vs, ca);
}
/// the correlation theorem: the transform of the correlation of a and b is that of a times the conjugate of that of b
pub proof fn lemma_wk(a: spec_fn(int) -> real, b: spec_fn(int) -> real, n: int, k: int)
    requires n > 0, k >= 0, periodic(a, n), periodic(b, n),
    ensures fre(cc(a, b, n), n, k) == fre(a, n, k) * fre(b, n, k) + fim(a, n, k) * fim(b, n, k),
        fim(cc(a, b, n), n, k) == fim(a, n, k) * fre(b, n, k) - fre(a, n, k) * fim(b, n, k),
{
    let y = cc(a, b, n);
    let (ca, sa, cb, sb) = (rsum(cf(a, n, k), n), rsum(sf(a, n, k), n), rsum(cf(b, n, k), n), rsum(sf(b, n, k), n));
    let (fc, fs) = (wc(a, b, n, k), ws(a, b, n, k));
    assert forall|t: int| 0 <= t < n implies #[trigger] cf(y, n, k)(t) == rows(fc, n)(t) by { lemma_wk_row(a, b, n, k, t); }
    assert forall|t: int| 0 <= t < n implies #[trigger] sf(y, n, k)(t) == rows(fs, n)(t) by { lemma_wk_row(a, b, n, k, t); }
    lemma_rsum_ext(cf(y, n, k), rows(fc, n), n);
    lemma_rsum_ext(sf(y, n, k), rows(fs, n), n);
    lemma_rsum_swap(fc, n, n);
    lemma_rsum_swap(fs, n, n);
    let (pb, qb) = (cf(b, n, k), sf(b, n, k));
    assert forall|m: int| 0 <= m < n implies #[trigger] cols(fc, n)(m) == pb(m) * ca + qb(m) * sa by { lemma_wk_col(a, b, n, k, m, ca, sa); }
    assert forall|m: int| 0 <= m < n implies #[trigger] cols(fs, n)(m) == pb(m) * sa + qb(m) * (-ca) by { lemma_wk_col(a, b, n, k, m, ca, sa); }
    lemma_rsum_lin(pb, qb, cols(fc, n), ca, sa, n);
    lemma_rsum_lin(pb, qb, cols(fs, n), sa, -ca, n);
    alg_neg(ca, cb); alg_neg(sa, sb); alg_neg(sa, cb); alg_neg(ca, sb); alg_neg(cb, sa); alg_neg(sb, ca);
}
pub proof fn lemma_diff(n: int, t: int, m: int, k: int)
    requires n > 0,
    ensures co(n, t * k) == co(n, (t + m) * k) * co(n, m * k) + si(n, (t + m) * k) * si(n, m * k), si(n, t * k) == si(n, (t + m) * k) * co(n, m * k) - co(n, (t + m) * k) * si(n, m * k),
{ trig_diff(n, (t + m) * k, m * k); assert((t + m) * k - m * k == t * k) by(nonlinear_arith); }
// ---- sequences of signs
pub open spec fn rs(s: Seq<i8>) -> spec_fn(int) -> real { |i: int| (s[i % (s.len() as int)] as int) as real }
pub proof fn lemma_rs_periodic(s: Seq<i8>)
    requires s.len() > 0,
    ensures periodic(rs(s), s.len() as int),
{ let n = s.len() as int; assert forall|i: int| #[trigger] rs(s)(i + n) == rs(s)(i) by { lemma_mod_add_multiple(i, 1, n); assert(i + 1 * n == i + n); } }
pub open spec fn sre(s: Seq<i8>, k: int) -> real { fre(rs(s), s.len() as int, k) }
pub open spec fn sim(s: Seq<i8>, k: int) -> real { fim(rs(s), s.len() as int, k) }
/// power spectral density
pub open spec fn psd(s: Seq<i8>, k: int) -> real { sre(s, k) * sre(s, k) + sim(s, k) * sim(s, k) }
pub proof fn lemma_psd_pos(s: Seq<i8>, k: int) ensures psd(s, k) >= 0real { let (a, b) = (sre(s, k), sim(s, k)); assert(a * a + b * b >= 0real) by(nonlinear_arith); }
pub open spec fn cross_real(x: Seq<i8>, y: Seq<i8>) -> spec_fn(int) -> real { |t: int| cross(x, y, t) as real }
pub proof fn lemma_cross_cc(x: Seq<i8>, y: Seq<i8>, t: int)
    requires x.len() == y.len(), x.len() > 0, 0 <= t < x.len(),
    ensures cc(rs(x), rs(y), x.len() as int)(t) == cross(x, y, t) as real,
{
    let n = x.len() as int;
    let f = cross_f(x, y, t);
    let g = |i: int| rs(x)(i) * rs(y)(i - t);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == f(i) as real by {
        lemma_mod_unique(i, i, 0, n); let (a, b) = (x[i] as int, y[(i - t) % n] as int);
        assert((a * b) as real == (a as real) * (b as real)) by(nonlinear_arith);
    }
    lemma_rsum_int(f, g, n);
    lemma_rs_periodic(x); lemma_rs_periodic(y);
    assert forall|i: int| #[trigger] g(i + n) == g(i) by { assert(rs(x)(i + n) == rs(x)(i)); assert(rs(y)((i - t) + n) == rs(y)(i - t)); assert((i - t) + n == i + n - t); }
    lemma_rsum_shift(g, t, n);
    let h = ccf(rs(x), rs(y), t);
    assert forall|m: int| 0 <= m < n implies #[trigger] h(m) == shifted(g, t)(m) by { assert(m + t - t == m); assert(t + m == m + t); }
    lemma_rsum_ext(h, shifted(g, t), n);
}
/// the transform of the correlations of two sequences
pub proof fn lemma_cross_dft(x: Seq<i8>, y: Seq<i8>, k: int)
    requires x.len() == y.len(), x.len() > 0, k >= 0,
    ensures fre(cross_real(x, y), x.len() as int, k) == sre(x, k) * sre(y, k) + sim(x, k) * sim(y, k),
        fim(cross_real(x, y), x.len() as int, k) == sim(x, k) * sre(y, k) - sre(x, k) * sim(y, k),
{
    let n = x.len() as int;
    lemma_rs_periodic(x); lemma_rs_periodic(y);
    lemma_wk(rs(x), rs(y), n, k);
    let (p, q) = (cc(rs(x), rs(y), n), cross_real(x, y));
    assert forall|t: int| 0 <= t < n implies #[trigger] cf(p, n, k)(t) == cf(q, n, k)(t) by { lemma_cross_cc(x, y, t); }
    assert forall|t: int| 0 <= t < n implies #[trigger] sf(p, n, k)(t) == sf(q, n, k)(t) by { lemma_cross_cc(x, y, t); }
    lemma_rsum_ext(cf(p, n, k), cf(q, n, k), n);
    lemma_rsum_ext(sf(p, n, k), sf(q, n, k), n);
}
// ---- what the computed values stand for
pub open spec fn near(a: real, b: real, e: real) -> bool { -e <= a - b <= e }
/// the error assumed of a component of a transform of n signs (FFTW: a few units in the last place of numbers up to n)
pub open spec fn dft_err(n: int) -> real { 0.000000001real / (n as real) }
pub open spec fn dft_at(d: Seq<Complex<F64>>, s: Seq<i8>, k: int) -> bool { near(d[k].re@, sre(s, k), dft_err(s.len() as int)) && near(d[k].im@, sim(s, k), dft_err(s.len() as int)) }
pub open spec fn is_dft(d: Seq<Complex<F64>>, s: Seq<i8>) -> bool { d.len() == s.len() / 2 + 1 && forall|k: int| 0 <= k <= s.len() / 2 ==> #[trigger] dft_at(d, s, k) }
pub open spec fn psd_err() -> real { 0.00000001real }
pub open spec fn psd_at(v: Seq<F64>, s: Seq<i8>, k: int) -> bool { near(v[k]@, psd(s, k), psd_err()) }
pub open spec fn is_psd(v: Seq<F64>, s: Seq<i8>) -> bool { v.len() == s.len() / 2 + 1 && forall|k: int| 0 <= k <= s.len() / 2 ==> #[trigger] psd_at(v, s, k) }
pub open spec fn tr_at(f: Seq<Complex<F64>>, y: spec_fn(int) -> real, n: int, k: int) -> bool { near(f[k].re@, fre(y, n, k), 0.001real) && near(f[k].im@, fim(y, n, k), 0.001real) }
/// f is, up to rounding, the transform of y
pub open spec fn is_tr(f: Seq<Complex<F64>>, y: spec_fn(int) -> real, n: int) -> bool { f.len() == n / 2 + 1 && forall|k: int| 0 <= k <= n / 2 ==> #[trigger] tr_at(f, y, n, k) }
/// values for which the error of the inverse transform is assumed
pub open spec fn bounded(y: spec_fn(int) -> real, n: int) -> bool { forall|t: int| 0 <= t < n ==> -1000000real <= #[trigger] y(t) <= 1000000real }
pub open spec fn vals_at(v: Seq<F64>, y: spec_fn(int) -> real, t: int) -> bool { near(v[t]@, y(t), 0.01real) }
pub open spec fn is_vals(v: Seq<F64>, y: spec_fn(int) -> real, n: int) -> bool { v.len() == n && forall|t: int| 0 <= t < n ==> #[trigger] vals_at(v, y, t) }
/// the lengths for which the errors above are assumed
pub open spec fn maxdft() -> int { 1000 }
pub open spec fn okseq(s: Seq<i8>, n: int) -> bool { s.len() == n && 0 < n <= maxdft() && pm(s) }

pub proof fn lemma_trig_bound(n: int, a: int)
    requires n > 0,
    ensures -1real <= co(n, a) <= 1real, -1real <= si(n, a) <= 1real,
{ trig_unit(n, a); alg_unit(co(n, a), si(n, a)); alg_unit(si(n, a), co(n, a)); }
pub proof fn alg_unit(c: real, s: real) requires c * c + s * s == 1real ensures -1real <= c <= 1real {
    assert(s * s >= 0real) by(nonlinear_arith);
    if c > 1real { assert(c * c > 1real) by(nonlinear_arith) requires c > 1real; }
    if c < -1real { assert(c * c > 1real) by(nonlinear_arith) requires c < -1real; }
}
pub proof fn lemma_dft_bound(s: Seq<i8>, k: int)
    requires pm(s), s.len() > 0,
    ensures -(s.len() as int as real) <= sre(s, k) <= s.len() as int as real, -(s.len() as int as real) <= sim(s, k) <= s.len() as int as real,
{
    let n = s.len() as int;
    let (f, g) = (cf(rs(s), n, k), sf(rs(s), n, k));
    assert forall|i: int| 0 <= i < n implies -1real <= #[trigger] f(i) <= 1real by { lemma_trig_bound(n, i * k); lemma_mod_unique(i, i, 0, n); alg_sign(rs(s)(i), co(n, i * k)); }
    assert forall|i: int| 0 <= i < n implies -1real <= #[trigger] g(i) <= 1real by { lemma_trig_bound(n, i * k); lemma_mod_unique(i, i, 0, n); alg_sign(rs(s)(i), si(n, i * k)); }
    lemma_rsum_bound(f, n); lemma_rsum_bound(g, n);
}
pub proof fn alg_sign(x: real, c: real) requires x == 1real || x == -1real, -1real <= c <= 1real ensures -1real <= x * c <= 1real {
    if x == 1real { assert(1real * c == c) by(nonlinear_arith); } else { assert((-1real) * c == -c) by(nonlinear_arith); }
}
/// the error of a product: |a - p|, |b - q| <= e = c / n, |p|, |q| <= n, n >= 1, c <= 1
pub proof fn alg_prod(a: real, b: real, p: real, q: real, e: real, n: real, c: real)
    requires near(a, p, e), near(b, q, e), -n <= p <= n, -n <= q <= n, n >= 1real, e * n == c, 0real <= c <= 1real, e >= 0real,
    ensures near(a * b, p * q, 3real * c),
{
    let (u, v) = (a - p, b - q);
    assert(a * b == p * q + (p * v + u * q + u * v)) by { alg_dist(a, q, v); assert(b == q + v); alg_dist(q, p, u); assert(a == p + u); alg_dist(v, p, u); alg_neg(p, q); alg_neg(q, u); alg_neg(q, p); alg_neg(v, p); alg_neg(v, u); alg_neg(a, q); alg_neg(a, v); }
    alg_absprod(p, v, n, e); alg_absprod(u, q, e, n); alg_absprod(u, v, e, e);
    alg_neg(n, e);
    assert(e * e <= e * n) by { assert(e <= n) by { alg_le(e, n, c); } alg_mono(e, e, n); }
}
pub proof fn alg_le(e: real, n: real, c: real) requires e * n == c, 0real <= c <= 1real, n >= 1real, e >= 0real ensures e <= n {
    if e > n { alg_mono(e, 1real, n); alg_one(e); }
}
pub proof fn alg_one(e: real) ensures e * 1real == e { assert(e * 1real == e) by(nonlinear_arith); }
pub proof fn alg_mono(k: real, x: real, y: real) requires k >= 0real, x <= y ensures k * x <= k * y { assert(k * x <= k * y) by(nonlinear_arith) requires k >= 0real, x <= y; }
pub proof fn alg_absprod(x: real, y: real, a: real, b: real)
    requires -a <= x <= a, -b <= y <= b, a >= 0real, b >= 0real,
    ensures -(a * b) <= x * y <= a * b,
{
    if y >= 0real { alg_mono(y, x, a); alg_mono(y, -a, x); alg_mono(a, y, b); alg_neg(x, y); alg_neg(a, y); alg_neg(y, a); alg_neg(a, b); }
    else { alg_mono(-y, x, a); alg_mono(-y, -a, x); alg_mono(a, -y, b); alg_neg(x, y); alg_neg(y, x); alg_neg(a, y); alg_neg(y, a); alg_neg(a, b); alg_neg(a, -y); alg_neg(-y, a); alg_neg(-y, x); }
}

pub proof fn alg_div(c: real, n: real) requires n >= 1real ensures (c / n) * n == c { assert((c / n) * n == c) by(nonlinear_arith) requires n >= 1real; }
pub proof fn alg_div0(c: real, n: real) requires n >= 1real, c >= 0real ensures c / n >= 0real { assert(c / n >= 0real) by(nonlinear_arith) requires n >= 1real, c >= 0real; }
pub open spec fn normv(c: Complex<F64>) -> real { c.re@ * c.re@ + c.im@ * c.im@ }
/// products of transforms are accurate
pub proof fn lemma_dft_prods(d: Seq<Complex<F64>>, s: Seq<i8>, e: Seq<Complex<F64>>, t: Seq<i8>, n: int, k: int)
    requires okseq(s, n), okseq(t, n), dft_at(d, s, k), dft_at(e, t, k),
    ensures
        near(d[k].re@ * e[k].re@ + d[k].im@ * e[k].im@, sre(s, k) * sre(t, k) + sim(s, k) * sim(t, k), psd_err()),
        near(d[k].im@ * e[k].re@ - d[k].re@ * e[k].im@, sim(s, k) * sre(t, k) - sre(s, k) * sim(t, k), psd_err()),
{
    let (c, r) = (0.000000001real, n as real);
    alg_div(c, r); alg_div0(c, r);
    lemma_dft_bound(s, k); lemma_dft_bound(t, k);
    alg_prod(d[k].re@, e[k].re@, sre(s, k), sre(t, k), c / r, r, c);
    alg_prod(d[k].im@, e[k].im@, sim(s, k), sim(t, k), c / r, r, c);
    alg_prod(d[k].im@, e[k].re@, sim(s, k), sre(t, k), c / r, r, c);
    alg_prod(d[k].re@, e[k].im@, sre(s, k), sim(t, k), c / r, r, c);
}
pub proof fn lemma_norm(d: Seq<Complex<F64>>, s: Seq<i8>, n: int, k: int)
    requires okseq(s, n), dft_at(d, s, k),
    ensures near(normv(d[k]), psd(s, k), psd_err()),
{ lemma_dft_prods(d, s, d, s, n, k); }
// ---- the filter
pub open spec fn okfile(f: Seq<Vec<i8>>, n: int) -> bool { forall|i: int| 0 <= i < f.len() ==> okseq(#[trigger] f[i]@, n) }
pub open spec fn flen(f: Seq<Vec<i8>>, g: Seq<Vec<i8>>) -> int { if f.len() > 0 { f[0]@.len() as int } else if g.len() > 0 { g[0]@.len() as int } else { 1 } }
/// all sequences are sequences of signs of one length
pub open spec fn okfiles(f: Seq<Vec<i8>>, g: Seq<Vec<i8>>) -> bool { okfile(f, flen(f, g)) && okfile(g, flen(f, g)) }
/// the number of pairs before the j-th of row i
pub open spec fn area(i: int, m: int, j: int) -> int { i * m + j }
pub proof fn lemma_area(i: int, m: int) ensures area(i + 1, m, 0) == area(i, m, m) { assert((i + 1) * m == i * m + m) by(nonlinear_arith); }
pub open spec fn psum_le(s: Seq<i8>, t: Seq<i8>, b: real, k: int) -> bool { psd(s, k) + psd(t, k) <= b }
pub open spec fn fits(s: Seq<i8>, t: Seq<i8>, b: real, lo: int) -> bool { forall|k: int| lo <= k <= s.len() / 2 ==> #[trigger] psum_le(s, t, b, k) }
pub open spec fn data_ok(d: SequencePairData, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>) -> bool {
    0 <= d.seq_enum1.0 < f.len() && 0 <= d.seq_enum2.0 < g.len() && d.seq_enum1.1@ == f[d.seq_enum1.0 as int]@ && d.seq_enum2.1@ == g[d.seq_enum2.0 as int]@
    && is_dft(d.dft1@, d.seq_enum1.1@) && is_dft(d.dft2@, d.seq_enum2.1@) && is_psd(d.norm1@, d.seq_enum1.1@) && is_psd(d.norm2@, d.seq_enum2.1@)
}
pub open spec fn all_data_ok(r: Seq<SequencePairData>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>) -> bool { forall|m: int| 0 <= m < r.len() ==> data_ok(#[trigger] r[m], f, g) }
pub open spec fn entry_is(r: Seq<SequencePairData>, m: int, i: int, j: int) -> bool { 0 <= m < r.len() && r[m].seq_enum1.0 == i && r[m].seq_enum2.0 == j }
pub open spec fn entered(r: Seq<SequencePairData>, i: int, j: int) -> bool { exists|m: int| #[trigger] entry_is(r, m, i, j) }
pub open spec fn kept_at(r: Seq<SequencePairData>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, i: int, j: int) -> bool { fits(f[i]@, g[j]@, b, 1) ==> entered(r, i, j) }
/// every pair before (p, q) that meets the bound is listed
pub open spec fn kept_to(r: Seq<SequencePairData>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int, q: int) -> bool {
    forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p || (i == p && j < q)) ==> #[trigger] kept_at(r, f, g, b, i, j)
}
pub proof fn lemma_entered_push(r: Seq<SequencePairData>, x: SequencePairData, i: int, j: int)
    ensures entered(r, i, j) ==> entered(r.push(x), i, j), x.seq_enum1.0 == i && x.seq_enum2.0 == j ==> entered(r.push(x), i, j),
{
    if entered(r, i, j) { let m = choose|m: int| entry_is(r, m, i, j); assert(entry_is(r.push(x), m, i, j)); }
    if x.seq_enum1.0 == i && x.seq_enum2.0 == j { assert(entry_is(r.push(x), r.len() as int, i, j)); }
}
pub open spec fn step_of(o: Seq<SequencePairData>, r: Seq<SequencePairData>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int, q: int) -> bool {
    (r == o && !fits(f[p]@, g[q]@, b, 1)) || (r.len() == o.len() + 1 && r == o.push(r.last()) && r.last().seq_enum1.0 == p && r.last().seq_enum2.0 == q && data_ok(r.last(), f, g))
}
pub proof fn lemma_step(o: Seq<SequencePairData>, r: Seq<SequencePairData>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int, q: int)
    requires 0 <= p < f.len(), 0 <= q < g.len(), all_data_ok(o, f, g), kept_to(o, f, g, b, p, q), step_of(o, r, f, g, b, p, q),
    ensures all_data_ok(r, f, g), kept_to(r, f, g, b, p, q + 1),
{
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p || (i == p && j < q + 1)) implies #[trigger] kept_at(r, f, g, b, i, j) by {
        if i != p || j != q { assert(kept_at(o, f, g, b, i, j)); }
        if r.len() == o.len() + 1 { lemma_entered_push(o, r.last(), i, j); }
    }
    assert forall|m: int| 0 <= m < r.len() implies data_ok(#[trigger] r[m], f, g) by { if m < o.len() { assert(data_ok(o[m], f, g)); } }
}
pub proof fn lemma_row_end(r: Seq<SequencePairData>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int)
    requires kept_to(r, f, g, b, p, g.len() as int),
    ensures kept_to(r, f, g, b, p + 1, 0),
{ assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p + 1 || (i == p + 1 && j < 0)) implies #[trigger] kept_at(r, f, g, b, i, j) by { } }
/// a computed sum above the bound and the tolerance: the bound is exceeded
pub proof fn lemma_exceeds(s: Seq<i8>, t: Seq<i8>, u: real, v: real, b: real, lo: int, k: int)
    requires near(u, psd(s, k), psd_err()), near(v, psd(t, k), psd_err()), u + v > b + 0.000001real, lo <= k <= s.len() / 2,
    ensures !fits(s, t, b, lo),
{ if fits(s, t, b, lo) { assert(psum_le(s, t, b, k)); } }

pub open spec fn centry(r: Seq<(&Vec<i8>, &Vec<i8>)>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, m: int, i: int, j: int) -> bool { 0 <= m < r.len() && r[m].0@ == f[i]@ && r[m].1@ == g[j]@ }
pub open spec fn centered(r: Seq<(&Vec<i8>, &Vec<i8>)>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, i: int, j: int) -> bool { exists|m: int| #[trigger] centry(r, f, g, m, i, j) }
pub open spec fn ckept_at(r: Seq<(&Vec<i8>, &Vec<i8>)>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, i: int, j: int) -> bool { fits(f[i]@, g[j]@, b, 0) ==> centered(r, f, g, i, j) }
pub open spec fn ckept_to(r: Seq<(&Vec<i8>, &Vec<i8>)>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int, q: int) -> bool {
    forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p || (i == p && j < q)) ==> #[trigger] ckept_at(r, f, g, b, i, j)
}
pub proof fn lemma_cstep(o: Seq<(&Vec<i8>, &Vec<i8>)>, r: Seq<(&Vec<i8>, &Vec<i8>)>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int, q: int)
    requires 0 <= p < f.len(), 0 <= q < g.len(), ckept_to(o, f, g, b, p, q),
        (r == o && !fits(f[p]@, g[q]@, b, 0)) || (r.len() == o.len() + 1 && r == o.push(r.last()) && centry(r, f, g, o.len() as int, p, q)),
    ensures ckept_to(r, f, g, b, p, q + 1),
{
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p || (i == p && j < q + 1)) implies #[trigger] ckept_at(r, f, g, b, i, j) by {
        if i != p || j != q { assert(ckept_at(o, f, g, b, i, j)); if centered(o, f, g, i, j) { let m = choose|m: int| centry(o, f, g, m, i, j); assert(centry(r, f, g, m, i, j)); } }
    }
}
pub proof fn lemma_crow_end(r: Seq<(&Vec<i8>, &Vec<i8>)>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int)
    requires ckept_to(r, f, g, b, p, g.len() as int),
    ensures ckept_to(r, f, g, b, p + 1, 0),
{ assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p + 1 || (i == p + 1 && j < 0)) implies #[trigger] ckept_at(r, f, g, b, i, j) by { } }

pub open spec fn eentry(r: Seq<((usize, &Vec<i8>), (usize, &Vec<i8>))>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, m: int, i: int, j: int) -> bool { 0 <= m < r.len() && r[m].0.0 == i && r[m].1.0 == j && r[m].0.1@ == f[i]@ && r[m].1.1@ == g[j]@ }
pub open spec fn eentered(r: Seq<((usize, &Vec<i8>), (usize, &Vec<i8>))>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, i: int, j: int) -> bool { exists|m: int| #[trigger] eentry(r, f, g, m, i, j) }
pub open spec fn ekept_at(r: Seq<((usize, &Vec<i8>), (usize, &Vec<i8>))>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, i: int, j: int) -> bool { fits(f[i]@, g[j]@, b, 0) ==> eentered(r, f, g, i, j) }
pub open spec fn ekept_to(r: Seq<((usize, &Vec<i8>), (usize, &Vec<i8>))>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int, q: int) -> bool {
    forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p || (i == p && j < q)) ==> #[trigger] ekept_at(r, f, g, b, i, j)
}
pub proof fn lemma_estep(o: Seq<((usize, &Vec<i8>), (usize, &Vec<i8>))>, r: Seq<((usize, &Vec<i8>), (usize, &Vec<i8>))>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int, q: int)
    requires 0 <= p < f.len(), 0 <= q < g.len(), ekept_to(o, f, g, b, p, q),
        (r == o && !fits(f[p]@, g[q]@, b, 0)) || (r.len() == o.len() + 1 && r == o.push(r.last()) && eentry(r, f, g, o.len() as int, p, q)),
    ensures ekept_to(r, f, g, b, p, q + 1),
{
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p || (i == p && j < q + 1)) implies #[trigger] ekept_at(r, f, g, b, i, j) by {
        if i != p || j != q { assert(ekept_at(o, f, g, b, i, j)); if eentered(o, f, g, i, j) { let m = choose|m: int| eentry(o, f, g, m, i, j); assert(eentry(r, f, g, m, i, j)); } }
    }
}
pub proof fn lemma_erow_end(r: Seq<((usize, &Vec<i8>), (usize, &Vec<i8>))>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, b: real, p: int)
    requires ekept_to(r, f, g, b, p, g.len() as int),
    ensures ekept_to(r, f, g, b, p + 1, 0),
{ assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() && (i < p + 1 || (i == p + 1 && j < 0)) implies #[trigger] ekept_at(r, f, g, b, i, j) by { } }

// ---- the keys
pub open spec fn fv(x: F64) -> real { x@ }
pub open spec fn real_is(c: Complex<F64>, x: F64) -> bool { c.re@ == x@ && c.im@ == 0real }
pub open spec fn prod_at(c: Complex<F64>, a: Complex<F64>, b: Complex<F64>) -> bool { c.re@ == a.re@ * b.re@ - a.im@ * b.im@ && c.im@ == a.re@ * b.im@ + a.im@ * b.re@ }
/// a times the conjugate of b
pub open spec fn cre(a: Complex<F64>, b: Complex<F64>) -> real { a.re@ * b.re@ + a.im@ * b.im@ }
pub open spec fn cim(a: Complex<F64>, b: Complex<F64>) -> real { a.im@ * b.re@ - a.re@ * b.im@ }
pub open spec fn cprod_at(c: Complex<F64>, a: Complex<F64>, b: Complex<F64>) -> bool { c.re@ == cre(a, b) && c.im@ == cim(a, b) }
pub proof fn lemma_conj(a: Complex<F64>, b: Complex<F64>)
    ensures a.re@ * b.re@ - a.im@ * (-b.im@) == cre(a, b), a.re@ * (-b.im@) + a.im@ * b.re@ == cim(a, b),
{ alg_neg(a.im@, b.im@); alg_neg(a.re@, b.im@); }
pub open spec fn psd_key(v: real, n: int, side: EquationSide) -> real { if side is LEFT { v } else { (4 * n) as real - v } }
/// the oriented difference of the cross power spectra is imaginary; this is its imaginary part
pub open spec fn cpsd_key(a: Complex<F64>, b: Complex<F64>, t: (SequenceTag, SequenceTag)) -> real { if forward(t) { cim(a, b) - cim(b, a) } else { cim(b, a) - cim(a, b) } }
pub open spec fn is_autos(v: Seq<isize>, s: Seq<i8>) -> bool { v.len() == s.len() && forall|t: int| 0 <= t < s.len() ==> #[trigger] v[t] == auto(s, t) && -s.len() <= v[t] <= s.len() }
pub open spec fn psd_of(v: Seq<F64>, n: int) -> bool { exists|s: Seq<i8>| okseq(s, n) && is_psd(v, s) }
pub open spec fn conj_is(c: Complex<F64>, a: Complex<F64>) -> bool { c.re@ == a.re@ && c.im@ == -a.im@ }
pub proof fn lemma_cross_bounded(x: Seq<i8>, y: Seq<i8>, t: int)
    requires pm(x), pm(y), x.len() == y.len(), x.len() > 0,
    ensures -x.len() <= cross(x, y, t) <= x.len(),
{
    let f = cross_f(x, y, t);
    assert forall|i: int| 0 <= i < x.len() implies -1 <= #[trigger] f(i) <= 1 by { lemma_mod_range(i - t, y.len() as int); let (a, b) = (x[i] as int, y[(i - t) % (y.len() as int)] as int); if a == 1 { assert(1 * b == b) by(nonlinear_arith); } else { assert(a == -1); assert((-1) * b == -b) by(nonlinear_arith); } }
    lemma_sum_bound(f, x.len() as int, 1);
}
pub proof fn lemma_auto_bounded(s: Seq<i8>, t: int)
    requires pm(s), s.len() > 0,
    ensures -s.len() <= auto(s, t) <= s.len(),
{ lemma_auto_is_cross(s, t); lemma_cross_bounded(s, s, t); }
pub proof fn lemma_cross_real_bounded(x: Seq<i8>, y: Seq<i8>, n: int)
    requires okseq(x, n), okseq(y, n),
    ensures bounded(cross_real(x, y), n),
{ assert forall|t: int| 0 <= t < n implies -1000000real <= #[trigger] cross_real(x, y)(t) <= 1000000real by { lemma_cross_bounded(x, y, t); } }
pub proof fn lemma_psd_tr(v: Seq<F64>, c: Seq<Complex<F64>>, s: Seq<i8>, n: int)
    requires okseq(s, n), is_psd(v, s), c.len() == v.len(), forall|k: int| 0 <= k < c.len() ==> real_is(#[trigger] c[k], v[k]),
    ensures is_tr(c, cross_real(s, s), n), bounded(cross_real(s, s), n),
{
    let y = cross_real(s, s);
    lemma_cross_real_bounded(s, s, n);
    assert forall|k: int| 0 <= k <= n / 2 implies #[trigger] tr_at(c, y, n, k) by {
        assert(psd_at(v, s, k)); assert(real_is(c[k], v[k]));
        lemma_cross_dft(s, s, k); alg_neg(sre(s, k), sim(s, k));
    }
}
/// products of transforms are accurate, at all frequencies
pub proof fn lemma_all_cross(d: Seq<Complex<F64>>, x: Seq<i8>, e: Seq<Complex<F64>>, y: Seq<i8>, n: int)
    requires okseq(x, n), okseq(y, n), is_dft(d, x), is_dft(e, y),
    ensures forall|k: int| 0 <= k <= n / 2 ==> #[trigger] cross_tr_at(d, x, e, y, n, k),
{
    assert forall|k: int| 0 <= k <= n / 2 implies #[trigger] cross_tr_at(d, x, e, y, n, k) by {
        assert(dft_at(d, x, k)); assert(dft_at(e, y, k));
        lemma_dft_prods(d, x, e, y, n, k); lemma_cross_dft(x, y, k);
    }
}
pub open spec fn cross_tr_at(d: Seq<Complex<F64>>, x: Seq<i8>, e: Seq<Complex<F64>>, y: Seq<i8>, n: int, k: int) -> bool {
    near(cre(d[k], e[k]), fre(cross_real(x, y), n, k), psd_err()) && near(cim(d[k], e[k]), fim(cross_real(x, y), n, k), psd_err())
}
/// what the pointwise product of the transform of x with the conjugate of that of y is
pub open spec fn all_prods(p: Seq<Complex<F64>>, d: Seq<Complex<F64>>, e: Seq<Complex<F64>>) -> bool { p.len() == d.len() && (forall|k: int| 0 <= k < p.len() ==> prod_at(#[trigger] p[k], d[k], e[k])) }
pub proof fn is_trs(d: Seq<Complex<F64>>, x: Seq<i8>, e: Seq<Complex<F64>>, y: Seq<i8>, n: int, ec: Seq<Complex<F64>>)
    requires okseq(x, n), okseq(y, n), is_dft(d, x), is_dft(e, y), ec.len() == e.len(), forall|k: int| 0 <= k < ec.len() ==> conj_is(#[trigger] ec[k], e[k]),
    ensures bounded(cross_real(x, y), n), forall|p: Seq<Complex<F64>>| #[trigger] all_prods(p, d, ec) ==> is_tr(p, cross_real(x, y), n),
{
    lemma_cross_real_bounded(x, y, n); lemma_all_cross(d, x, e, y, n);
    assert forall|p: Seq<Complex<F64>>| #[trigger] all_prods(p, d, ec) implies is_tr(p, cross_real(x, y), n) by {
        assert forall|k: int| 0 <= k <= n / 2 implies #[trigger] tr_at(p, cross_real(x, y), n, k) by {
            assert(cross_tr_at(d, x, e, y, n, k)); assert(prod_at(p[k], d[k], ec[k])); assert(conj_is(ec[k], e[k])); lemma_conj(d[k], e[k]);
        }
    }
}

// ---- what this means for valid quadruples
pub open spec fn fourth(q: QV, i: int) -> Seq<i8> { if i == 0 { q.a } else if i == 1 { q.b } else if i == 2 { q.c } else { q.d } }
pub open spec fn delta(n: int) -> spec_fn(int) -> real { |t: int| if t == 0 { (4 * n) as real } else { 0real } }
pub proof fn lemma_delta(n: int, k: int)
    requires n > 0,
    ensures fre(delta(n), n, k) == (4 * n) as real, fim(delta(n), n, k) == 0real,
{ lemma_delta_to(n, k, n); }
pub proof fn lemma_delta_to(n: int, k: int, m: int)
    requires n > 0, 1 <= m,
    ensures rsum(cf(delta(n), n, k), m) == (4 * n) as real, rsum(sf(delta(n), n, k), m) == 0real,
    decreases m,
{
    let (f, g) = (cf(delta(n), n, k), sf(delta(n), n, k));
    if m == 1 {
        trig_zero(n); assert(0 * k == 0) by(nonlinear_arith);
        alg_one((4 * n) as real); alg_zero((4 * n) as real);
        assert(rsum(f, 1) == rsum(f, 0) + f(0)); assert(rsum(g, 1) == rsum(g, 0) + g(0));
    } else {
        lemma_delta_to(n, k, m - 1);
        let (c, s) = (co(n, (m - 1) * k), si(n, (m - 1) * k));
        alg_zero(c); alg_zero(s); alg_neg(c, 0real); alg_neg(s, 0real);
        assert(f(m - 1) == 0real * c); assert(g(m - 1) == 0real * s);
    }
}
/// transforms add up
pub proof fn lemma_tr_add(a: spec_fn(int) -> real, b: spec_fn(int) -> real, c: spec_fn(int) -> real, n: int, k: int)
    requires forall|t: int| 0 <= t < n ==> #[trigger] c(t) == a(t) + b(t),
    ensures fre(c, n, k) == fre(a, n, k) + fre(b, n, k), fim(c, n, k) == fim(a, n, k) + fim(b, n, k),
{
    assert forall|t: int| 0 <= t < n implies #[trigger] cf(c, n, k)(t) == cf(a, n, k)(t) * 1real + cf(b, n, k)(t) * 1real by { assert(c(t) == a(t) + b(t)); alg_dist(co(n, t * k), a(t), b(t)); alg_one(cf(a, n, k)(t)); alg_one(cf(b, n, k)(t)); }
    assert forall|t: int| 0 <= t < n implies #[trigger] sf(c, n, k)(t) == sf(a, n, k)(t) * 1real + sf(b, n, k)(t) * 1real by { assert(c(t) == a(t) + b(t)); alg_dist(si(n, t * k), a(t), b(t)); alg_one(sf(a, n, k)(t)); alg_one(sf(b, n, k)(t)); }
    lemma_rsum_lin(cf(a, n, k), cf(b, n, k), cf(c, n, k), 1real, 1real, n);
    lemma_rsum_lin(sf(a, n, k), sf(b, n, k), sf(c, n, k), 1real, 1real, n);
    alg_one(rsum(cf(a, n, k), n)); alg_one(rsum(cf(b, n, k), n)); alg_one(rsum(sf(a, n, k), n)); alg_one(rsum(sf(b, n, k), n));
}
/// the power spectra of complementary sequences add up to 4n at every frequency
pub proof fn theorem_psd_sum(q: QV, k: int)
    requires wfv(q), q.n > 0, complementary(q), k >= 0,
    ensures psd(q.a, k) + psd(q.b, k) + psd(q.c, k) + psd(q.d, k) == (4 * q.n) as real,
{
    let n = q.n;
    let (a, b, c, d) = (cross_real(q.a, q.a), cross_real(q.b, q.b), cross_real(q.c, q.c), cross_real(q.d, q.d));
    lemma_cross_dft(q.a, q.a, k); lemma_cross_dft(q.b, q.b, k); lemma_cross_dft(q.c, q.c, k); lemma_cross_dft(q.d, q.d, k);
    let ab = |t: int| a(t) + b(t);
    let cd = |t: int| c(t) + d(t);
    lemma_tr_add(a, b, ab, n, k); lemma_tr_add(c, d, cd, n, k);
    assert forall|t: int| 0 <= t < n implies #[trigger] delta(n)(t) == ab(t) + cd(t) by {
        lemma_auto_is_cross(q.a, t); lemma_auto_is_cross(q.b, t); lemma_auto_is_cross(q.c, t); lemma_auto_is_cross(q.d, t);
        if t == 0 { lemma_auto0(q.a); lemma_auto0(q.b); lemma_auto0(q.c); lemma_auto0(q.d); } else { assert(compl_at(q, t)); }
    }
    lemma_tr_add(ab, cd, delta(n), n, k); lemma_delta(n, k);
}
/// no pair of members of a valid quadruple exceeds the bound
pub proof fn theorem_kept(q: QV, i: int, j: int, lo: int)
    requires wfv(q), q.n > 0, complementary(q), 0 <= i < 4, 0 <= j < 4, i != j, lo >= 0,
    ensures fits(fourth(q, i), fourth(q, j), (4 * q.n) as real, lo),
{
    assert forall|k: int| lo <= k <= fourth(q, i).len() / 2 implies #[trigger] psum_le(fourth(q, i), fourth(q, j), (4 * q.n) as real, k) by {
        theorem_psd_sum(q, k);
        lemma_psd_pos(q.a, k); lemma_psd_pos(q.b, k); lemma_psd_pos(q.c, k); lemma_psd_pos(q.d, k);
    }
}
/// the two pairs of a valid quadruple, at any frequency: the PSD keys agree up to rounding
pub proof fn theorem_psd_keys(q: QV, i: int, j: int, u: int, v: int, k: int, a: real, b: real, c: real, d: real)
    requires wfv(q), q.n > 0, complementary(q), k >= 0, 0 <= i < 4, 0 <= j < 4, 0 <= u < 4, 0 <= v < 4, i != j, i != u, i != v, j != u, j != v, u != v,
        near(a, psd(fourth(q, i), k), psd_err()), near(b, psd(fourth(q, j), k), psd_err()), near(c, psd(fourth(q, u), k), psd_err()), near(d, psd(fourth(q, v), k), psd_err()),
    ensures near(psd_key(a + b, q.n, EquationSide::LEFT), psd_key(c + d, q.n, EquationSide::RIGHT), 4real * psd_err()),
{ theorem_psd_sum(q, k); }
pub open spec fn xd_real(x: Seq<i8>, y: Seq<i8>) -> spec_fn(int) -> real { |t: int| xd(x, y, t) as real }
/// the difference of the cross spectra of two sequences is the transform of the difference of their correlations
pub proof fn lemma_cpsd(x: Seq<i8>, y: Seq<i8>, k: int)
    requires x.len() == y.len(), x.len() > 0, k >= 0,
    ensures fim(xd_real(x, y), x.len() as int, k) == 2real * (sim(x, k) * sre(y, k) - sre(x, k) * sim(y, k)),
{
    let n = x.len() as int;
    lemma_cross_dft(x, y, k); lemma_cross_dft(y, x, k);
    assert forall|t: int| 0 <= t < n implies #[trigger] cross_real(x, y)(t) == xd_real(x, y)(t) + cross_real(y, x)(t) by { }
    lemma_tr_add(xd_real(x, y), cross_real(y, x), cross_real(x, y), n, k);
    alg_neg(sre(x, k), sim(y, k)); alg_neg(sim(x, k), sre(y, k));
}
/// oriented differences that cancel at every offset: the CPSD keys cancel up to rounding
pub proof fn theorem_cpsd_keys(x: Seq<i8>, y: Seq<i8>, s: (SequenceTag, SequenceTag), u: Seq<i8>, v: Seq<i8>, r: (SequenceTag, SequenceTag), dx: Seq<Complex<F64>>, dy: Seq<Complex<F64>>, du: Seq<Complex<F64>>, dv: Seq<Complex<F64>>, n: int, k: int)
    requires okseq(x, n), okseq(y, n), okseq(u, n), okseq(v, n), 0 <= k <= n / 2, dft_at(dx, x, k), dft_at(dy, y, k), dft_at(du, u, k), dft_at(dv, v, k),
        forall|t: int| 1 <= t < n ==> #[trigger] cancel_at(x, y, s, u, v, r, t),
    ensures near(cpsd_key(dx[k], dy[k], s), -cpsd_key(du[k], dv[k], r), 8real * psd_err()),
{
    let (x1, y1) = if forward(s) { (x, y) } else { (y, x) };
    let (u1, v1) = if forward(r) { (u, v) } else { (v, u) };
    let (p, q, z) = (xd_real(x1, y1), xd_real(u1, v1), |t: int| 0real);
    assert forall|t: int| 0 <= t < n implies #[trigger] z(t) == p(t) + q(t) by {
        if t == 0 { lemma_cross0(x1, y1); lemma_cross0(u1, v1); } else { assert(cancel_at(x, y, s, u, v, r, t)); }
    }
    lemma_tr_add(p, q, z, n, k);
    assert forall|t: int| 0 <= t < n implies #[trigger] sf(z, n, k)(t) == 0real by { alg_zero(si(n, t * k)); alg_neg(si(n, t * k), 0real); }
    lemma_rsum_zero(sf(z, n, k), n);
    lemma_cpsd(x1, y1, k); lemma_cpsd(u1, v1, k);
    lemma_dft_prods(dx, x, dy, y, n, k); lemma_dft_prods(dy, y, dx, x, n, k);
    lemma_dft_prods(du, u, dv, v, n, k); lemma_dft_prods(dv, v, du, u, n, k);
    alg_neg(sre(x, k), sim(y, k)); alg_neg(sim(x, k), sre(y, k)); alg_neg(sre(u, k), sim(v, k)); alg_neg(sim(u, k), sre(v, k));
}
/// values that agree up to rounding, away from half-integers, round to the same integer
pub proof fn theorem_rounding(a: real, b: real, e: real, k: int)
    requires near(a, b, e), 0real <= e, -0.5real + e < (k as real) - a < 0.5real - e,
    ensures close(a, k), close(b, k),
{ }
pub proof fn lemma_auto0(s: Seq<i8>)
    requires pm(s), s.len() > 0,
    ensures auto(s, 0) == s.len(),
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] auto_f(s, 0)(i) == 1 by { lemma_mod_unique(i, i, 0, n); assert(i + 0 == i); }
    lemma_ones(auto_f(s, 0), n);
}
pub proof fn lemma_ones(f: spec_fn(int) -> int, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 1,
    ensures sum(f, n) == n,
    decreases n,
{ if n > 0 { lemma_ones(f, n - 1); assert(f(n - 1) == 1); } }
