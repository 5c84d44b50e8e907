// ===== lib/write.rs: what the result files are to contain =====
pub open spec fn sign_char(x: i8) -> char { if x == 1 { '+' } else { '-' } }
/// a sequence of signs as a text
pub open spec fn sign_text(s: Seq<i8>) -> Seq<char> { Seq::new(s.len(), |i: int| sign_char(s[i])) }
pub open spec fn nl() -> Seq<char> { "\n"@ }
pub open spec fn seq_lines(v: Seq<Vec<i8>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| sign_text(v[i]@) + nl()) }
pub open spec fn quad_line(q: (isize, isize, isize, isize)) -> Seq<char> {
    int_text(q.0 as int) + " "@ + int_text(q.1 as int) + " "@ + int_text(q.2 as int) + " "@ + int_text(q.3 as int) + "\n"@
}
pub open spec fn quad_lines(v: Seq<(isize, isize, isize, isize)>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| quad_line(v[i])) }
pub open spec fn tag_text(t: SequenceTag) -> Seq<char> { match t { SequenceTag::W => "W"@, SequenceTag::X => "X"@, SequenceTag::Y => "Y"@, SequenceTag::Z => "Z"@ } }
pub open spec fn type_text(t: SequenceType) -> Seq<char> {
    match t { SequenceType::Williamson => "ws"@, SequenceType::WilliamsonType => "wts"@, SequenceType::QuaternionType => "qts"@, SequenceType::ItoType => "its"@,
        SequenceType::ExtraTypeI => "et1"@, SequenceType::ExtraTypeII => "et2"@, SequenceType::ExtraTypeIII => "et3"@ }
}
/// the rowsums found for a length
pub uninterp spec fn rowsums_of(p: usize, t: SequenceType) -> Seq<(isize, isize, isize, isize)>;

// ---- the floating-point values of the search: F64 stands for f64, its arithmetic is left open
//@subst \bF32\s*::\s*vx_lit\b => F64::vx_lit
//@subst \b(\w+)\s+as\s+f64\b => F64::vx_of(\1)
//@subst \bf64\s*::\s*EPSILON\b => F64::vx_lit(0)
//@subst (?<![\w."])(\d+\.\d+)(?![\w."]) => F64::vx_dec("\1")
//@subst \bf64\b => F64
#[derive(Clone, Copy)]
pub struct F64 { x: u64 }
pub uninterp spec fn rounded(a: F64) -> isize;
pub uninterp spec fn exceeds(a: F64, b: F64) -> bool;
pub uninterp spec fn fdec(s: Seq<char>) -> F64;
pub uninterp spec fn fabs(a: F64) -> F64;
pub uninterp spec fn flit(k: i64) -> F64;
pub uninterp spec fn fof(k: usize) -> F64;
pub uninterp spec fn fmul(a: F64, b: F64) -> F64;
pub fn vx_iround(a: F64) -> (r: isize) ensures r == rounded(a), r > isize::MIN { a.vx_round() }
impl F64 {
    #[verifier::external_body] pub fn vx_lit(k: i64) -> (r: F64) ensures r == flit(k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_of(k: usize) -> (r: F64) ensures r == fof(k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_round(self) -> (r: isize) ensures r == rounded(self), r > isize::MIN { unimplemented!() }
    #[verifier::external_body] pub fn vx_dec(s: &str) -> (r: F64) ensures r == fdec(s@) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F64) { unimplemented!() }
    #[verifier::external_body] pub fn fract(self) -> (r: F64) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures r == fabs(self) { unimplemented!() }
}
impl core::ops::Mul for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> (r: F64) { unimplemented!() } }
impl MulSpecImpl<F64> for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { fmul(self, o) } }
impl core::ops::Sub for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> (r: F64) { unimplemented!() } }
pub uninterp spec fn fsub(a: F64, b: F64) -> F64;
impl SubSpecImpl<F64> for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F64) -> bool { true } open spec fn sub_spec(self, o: F64) -> F64 { fsub(self, o) } }
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> (r: bool) { unimplemented!() } }
pub open spec fn fcmp(a: F64, b: F64) -> Option<core::cmp::Ordering> { if exceeds(a, b) { Some(core::cmp::Ordering::Greater) } else if exceeds(b, a) { Some(core::cmp::Ordering::Less) } else { fcmp_else(a, b) } }
pub uninterp spec fn fcmp_other(a: F64, b: F64) -> bool;
pub open spec fn fcmp_else(a: F64, b: F64) -> Option<core::cmp::Ordering> { if fcmp_other(a, b) { Some(core::cmp::Ordering::Equal) } else { None } }
impl PartialOrdSpecImpl for F64 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F64) -> Option<core::cmp::Ordering> { fcmp(*self, *o) }
}
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub struct Complex<T> { pub re: T, pub im: T }
