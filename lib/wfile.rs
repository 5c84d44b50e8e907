// ===== lib/wfile.rs: stand-ins for the functions that write the pair files =====
//@subst (?<!')&\s*str\b => &VxStr
//@subst \b(\w+)\s+as\s+f64\b => F64::vx_of(\1)
//@subst \b[fF]64\s*::\s*EPSILON\b => F64::vx_lit(0)
//@subst (?<![\w."])(\d+)\.(\d+)(?![\w."]) => F64::vx_dec(\1,1\2)
impl VxStr { #[verifier::external_body] pub fn vx_is(&self, o: &str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
pub mod fs { use vstd::prelude::*; use super::*; #[verifier::external_body] pub fn create_dir_all<T: VxText>(t: T) -> (r: Result<(), Error>) { unimplemented!() } }
/// the digits after the point, behind a one
#[verifier::opaque] pub open spec fn after_point(m: int) -> real { ((m - tens(m)) as real) / (tens(m) as real) }
#[verifier::opaque] pub open spec fn tens(m: int) -> int decreases m { if m < 10 { 1 } else { 10 * tens(m / 10) } }
pub proof fn lemma_point(m: int, t: int) requires tens(m) == t, m - t == 1, t > 0 ensures after_point(m) == 1real / (t as real) { reveal(after_point); assert((m - tens(m)) as real == 1real); }
pub proof fn lemma_div3(t: int) requires t == 1000 ensures 1real / (t as real) == 0.001real { assert((t as real) == 1000real); assert(1real / 1000real == 0.001real); }
pub proof fn lemma_div4(t: int) requires t == 10000 ensures 1real / (t as real) == 0.0001real { assert((t as real) == 10000real); assert(1real / 10000real == 0.0001real); }
pub proof fn lemma_div5(t: int) requires t == 100000 ensures 1real / (t as real) == 0.00001real { assert((t as real) == 100000real); assert(1real / 100000real == 0.00001real); }
pub proof fn lemma_div6(t: int) requires t == 1000000 ensures 1real / (t as real) == 0.000001real { assert((t as real) == 1000000real); assert(1real / 1000000real == 0.000001real); }
pub proof fn lemma_after_point() ensures after_point(10001) == 0.0001real, after_point(100001) == 0.00001real, after_point(1000001) == 0.000001real, after_point(1001) == 0.001real {
    reveal_with_fuel(tens, 9);
    lemma_point(10001, 10000); lemma_point(100001, 100000); lemma_point(1000001, 1000000); lemma_point(1001, 1000);
    lemma_div3(1000); lemma_div4(10000); lemma_div5(100000); lemma_div6(1000000);
}
impl F64 {
    #[verifier::external_body] pub fn vx_dec(i: i64, m: i64) -> (r: F64) ensures r@ == (i as int) as real + after_point(m as int) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F64) { unimplemented!() }
    #[verifier::external_body] pub fn fract(self) -> (r: F64) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures r@ == (if self@ < 0real { -self@ } else { self@ }) { unimplemented!() }
}
pub mod vx_close {
use vstd::prelude::*;
use super::{VxFile, wrote};
/// used at the end of a function that opened the file: what the file holds when it is closed
pub axiom fn axiom_closed(f: VxFile) ensures wrote(f.name@, f.data@);
}
