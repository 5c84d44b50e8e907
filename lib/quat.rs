// ===== lib/quat.rs: quaternions over multiples of 1/2 (cgmath::Quaternion<f32>, assumed exact on them) =====
/// an f32 that is k/2 (negative zero is not told apart), or, if tiny, k/2 plus something strictly between 0 and 1/2
pub struct F32 { pub k: Ghost<int>, pub tiny: Ghost<bool> }
pub struct V3 { pub x: F32, pub y: F32, pub z: F32 }
pub struct Quaternion { pub s: F32, pub v: V3 }
/// values up to 2^22: all multiples of 1/4 up to there are representable
pub open spec fn maxf() -> int { 0x80_0000 }
pub open spec fn okf(a: F32) -> bool { !a.tiny@ && -maxf() <= a.k@ <= maxf() }
pub open spec fn ff(k: int) -> F32 { F32 { k: Ghost(k), tiny: Ghost(false) } }
pub ghost struct H { pub s: int, pub x: int, pub y: int, pub z: int }
/// the value in halves
pub open spec fn hv(q: Quaternion) -> H { H { s: q.s.k@, x: q.v.x.k@, y: q.v.y.k@, z: q.v.z.k@ } }
pub open spec fn hq(h: H) -> Quaternion { Quaternion { s: ff(h.s), v: V3 { x: ff(h.x), y: ff(h.y), z: ff(h.z) } } }
pub open spec fn flat(q: Quaternion) -> bool { !q.s.tiny@ && !q.v.x.tiny@ && !q.v.y.tiny@ && !q.v.z.tiny@ }
pub open spec fn okq(q: Quaternion) -> bool { okf(q.s) && okf(q.v.x) && okf(q.v.y) && okf(q.v.z) }
pub open spec fn is1i(x: int) -> bool { x == 1 || x == -1 }
pub open spec fn one2(h: H) -> bool {
    ||| ((h.s == 2 || h.s == -2) && h.x == 0 && h.y == 0 && h.z == 0)
    ||| ((h.x == 2 || h.x == -2) && h.s == 0 && h.y == 0 && h.z == 0)
    ||| ((h.y == 2 || h.y == -2) && h.s == 0 && h.x == 0 && h.z == 0)
    ||| ((h.z == 2 || h.z == -2) && h.s == 0 && h.x == 0 && h.y == 0)
}
pub open spec fn all1(h: H) -> bool { is1i(h.s) && is1i(h.x) && is1i(h.y) && is1i(h.z) }
/// one of the 24 units (the Hurwitz quaternions of norm one): plus or minus 1, i, j, k, or all entries plus or minus one half
pub open spec fn unit24(h: H) -> bool { one2(h) || all1(h) }
pub open spec fn isu(q: Quaternion) -> bool { flat(q) && unit24(hv(q)) }
/// twice the product
#[verifier::opaque]
pub open spec fn hraw(a: H, b: H) -> H {
    H {
        s: a.s * b.s - a.x * b.x - a.y * b.y - a.z * b.z,
        x: a.s * b.x + a.x * b.s + a.y * b.z - a.z * b.y,
        y: a.s * b.y + a.y * b.s + a.z * b.x - a.x * b.z,
        z: a.s * b.z + a.z * b.s + a.x * b.y - a.y * b.x,
    }
}
pub open spec fn hmul(a: H, b: H) -> H { let r = hraw(a, b); H { s: r.s / 2, x: r.x / 2, y: r.y / 2, z: r.z / 2 } }
pub open spec fn hadd(a: H, b: H) -> H { H { s: a.s + b.s, x: a.x + b.x, y: a.y + b.y, z: a.z + b.z } }
pub open spec fn hneg(a: H) -> H { H { s: -a.s, x: -a.x, y: -a.y, z: -a.z } }
pub open spec fn hconj(a: H) -> H { H { s: a.s, x: -a.x, y: -a.y, z: -a.z } }
pub open spec fn h0() -> H { H { s: 0, x: 0, y: 0, z: 0 } }
pub open spec fn h1() -> H { H { s: 2, x: 0, y: 0, z: 0 } }
pub open spec fn hscale(k: int, a: H) -> H { H { s: k * a.s / 2, x: k * a.x / 2, y: k * a.y / 2, z: k * a.z / 2 } }

impl Clone for F32 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for F32 { }
impl Clone for V3 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for V3 { }
impl Clone for Quaternion { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Quaternion { }
impl F32 {
    /// the literal k/2
    #[verifier::external_body]
    pub fn vx_lit(k: i32) -> (r: F32) ensures r == ff(k as int) { unimplemented!() }
    /// n as f32
    #[verifier::external_body]
    pub fn vx_of(n: usize) -> (r: F32) requires 2 * n <= maxf(), ensures r == ff(2 * n) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F32) requires okf(self), ensures r == ff(if self.k@ < 0 { -self.k@ } else { self.k@ }) { unimplemented!() }
    /// f32::EPSILON.sqrt()
    #[verifier::external_body]
    pub fn vx_sqrt_eps() -> (r: F32) ensures r == (F32 { k: Ghost(0), tiny: Ghost(true) }) { unimplemented!() }
}
impl Quaternion {
    #[verifier::external_body]
    pub fn new(w: F32, x: F32, y: F32, z: F32) -> (r: Quaternion) ensures r == (Quaternion { s: w, v: V3 { x: x, y: y, z: z } }) { unimplemented!() }
    #[verifier::external_body]
    pub fn conjugate(self) -> (r: Quaternion) requires okq(self), ensures r == hq(hconj(hv(self))) { unimplemented!() }
}
impl PartialEq for F32 { #[verifier::external_body] fn eq(&self, o: &F32) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { *self == *o }
}
impl PartialOrd for F32 { #[verifier::external_body] fn partial_cmp(&self, o: &F32) -> (r: Option<std::cmp::Ordering>) { unimplemented!() } }
pub open spec fn cmpf(a: F32, b: F32) -> std::cmp::Ordering {
    if a.k@ < b.k@ || (a.k@ == b.k@ && !a.tiny@ && b.tiny@) { std::cmp::Ordering::Less }
    else if a.k@ > b.k@ || (a.tiny@ && !b.tiny@) { std::cmp::Ordering::Greater }
    else { std::cmp::Ordering::Equal }
}
impl PartialOrdSpecImpl for F32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F32) -> Option<std::cmp::Ordering> { Some(cmpf(*self, *o)) }
}
impl std::ops::Neg for F32 { type Output = F32; #[verifier::external_body] fn neg(self) -> F32 { unimplemented!() } }
impl NegSpecImpl for F32 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { okf(self) }
    open spec fn neg_spec(self) -> F32 { ff(-self.k@) }
}
impl std::ops::Sub<F32> for F32 { type Output = F32; #[verifier::external_body] fn sub(self, o: F32) -> F32 { unimplemented!() } }
impl SubSpecImpl<F32> for F32 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F32) -> bool { okf(self) && okf(o) && -maxf() <= self.k@ - o.k@ <= maxf() }
    open spec fn sub_spec(self, o: F32) -> F32 { ff(self.k@ - o.k@) }
}
impl PartialEq for Quaternion { #[verifier::external_body] fn eq(&self, o: &Quaternion) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Quaternion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Quaternion) -> bool { *self == *o }
}
impl std::ops::Neg for Quaternion { type Output = Quaternion; #[verifier::external_body] fn neg(self) -> Quaternion { unimplemented!() } }
impl NegSpecImpl for Quaternion {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { okq(self) }
    open spec fn neg_spec(self) -> Quaternion { hq(hneg(hv(self))) }
}
impl std::ops::Add<Quaternion> for Quaternion { type Output = Quaternion; #[verifier::external_body] fn add(self, o: Quaternion) -> Quaternion { unimplemented!() } }
impl AddSpecImpl<Quaternion> for Quaternion {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Quaternion) -> bool { okq(self) && okq(o) && okq(hq(hadd(hv(self), hv(o)))) }
    open spec fn add_spec(self, o: Quaternion) -> Quaternion { hq(hadd(hv(self), hv(o))) }
}
impl std::ops::AddAssign<Quaternion> for Quaternion { #[verifier::external_body] fn add_assign(&mut self, o: Quaternion) { unimplemented!() } }
impl AddAssignSpecImpl<Quaternion> for Quaternion {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: Quaternion) -> bool { okq(*self) && okq(o) && okq(hq(hadd(hv(*self), hv(o)))) }
    open spec fn add_assign_spec(&self, o: Quaternion) -> &Quaternion { &hq(hadd(hv(*self), hv(o))) }
}
impl std::ops::Mul<Quaternion> for Quaternion { type Output = Quaternion; #[verifier::external_body] fn mul(self, o: Quaternion) -> Quaternion { unimplemented!() } }
impl MulSpecImpl<Quaternion> for Quaternion {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Quaternion) -> bool { isu(self) && isu(o) }
    open spec fn mul_spec(self, o: Quaternion) -> Quaternion { hq(hmul(hv(self), hv(o))) }
}
impl<'a> std::ops::Mul<&'a Quaternion> for Quaternion { type Output = Quaternion; #[verifier::external_body] fn mul(self, o: &'a Quaternion) -> Quaternion { unimplemented!() } }
impl<'a> MulSpecImpl<&'a Quaternion> for Quaternion {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &'a Quaternion) -> bool { isu(self) && isu(*o) }
    open spec fn mul_spec(self, o: &'a Quaternion) -> Quaternion { hq(hmul(hv(self), hv(*o))) }
}
impl<'a> std::ops::Mul<Quaternion> for &'a Quaternion { type Output = Quaternion; #[verifier::external_body] fn mul(self, o: Quaternion) -> Quaternion { unimplemented!() } }
impl<'a> MulSpecImpl<Quaternion> for &'a Quaternion {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Quaternion) -> bool { isu(*self) && isu(o) }
    open spec fn mul_spec(self, o: Quaternion) -> Quaternion { hq(hmul(hv(*self), hv(o))) }
}
impl std::ops::Mul<F32> for Quaternion { type Output = Quaternion; #[verifier::external_body] fn mul(self, o: F32) -> Quaternion { unimplemented!() } }
impl MulSpecImpl<F32> for Quaternion {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F32) -> bool { okq(self) && (o == ff(2) || o == ff(-2)) }
    open spec fn mul_spec(self, o: F32) -> Quaternion { if o.k@ == 2 { self } else { hq(hneg(hv(self))) } }
}
impl std::ops::Mul<Quaternion> for F32 { type Output = Quaternion; #[verifier::external_body] fn mul(self, o: Quaternion) -> Quaternion { unimplemented!() } }
impl MulSpecImpl<Quaternion> for F32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Quaternion) -> bool { okq(o) && (self == ff(2) || self == ff(-2)) }
    open spec fn mul_spec(self, o: Quaternion) -> Quaternion { if self.k@ == 2 { o } else { hq(hneg(hv(o))) } }
}
/// (-1).pow(i) as f32
#[verifier::external_body]
pub fn vx_signf(i: u32) -> (r: F32) ensures r == ff(if i % 2 == 0 { 2int } else { -2int }) { unimplemented!() }

// ---------- facts about units ----------
/// products with small factors
pub open spec fn smul(a: int, b: int) -> int {
    if a == 0 || b == 0 { 0 } else if a == 1 { b } else if a == -1 { -b } else if a == 2 { 2 * b } else { -2 * b }
}
pub proof fn lemma_smul(a: int, b: int)
    requires -2 <= a <= 2,
    ensures a * b == smul(a, b),
{
    assert(a == 0 ==> a * b == 0) by(nonlinear_arith);
    assert(b == 0 ==> a * b == 0) by(nonlinear_arith);
    assert(a == 1 ==> a * b == b) by(nonlinear_arith);
    assert(a == -1 ==> a * b == -b) by(nonlinear_arith);
    assert(a == 2 ==> a * b == 2 * b) by(nonlinear_arith);
    assert(a == -2 ==> a * b == -2 * b) by(nonlinear_arith);
}
pub proof fn lemma_unit_small(h: H)
    requires unit24(h),
    ensures -2 <= h.s <= 2, -2 <= h.x <= 2, -2 <= h.y <= 2, -2 <= h.z <= 2,
{ }
/// hraw for a with small components, without multiplications
pub open spec fn hraws(a: H, b: H) -> H {
    H {
        s: smul(a.s, b.s) - smul(a.x, b.x) - smul(a.y, b.y) - smul(a.z, b.z),
        x: smul(a.s, b.x) + smul(a.x, b.s) + smul(a.y, b.z) - smul(a.z, b.y),
        y: smul(a.s, b.y) + smul(a.y, b.s) + smul(a.z, b.x) - smul(a.x, b.z),
        z: smul(a.s, b.z) + smul(a.z, b.s) + smul(a.x, b.y) - smul(a.y, b.x),
    }
}
pub proof fn lemma_hraws(a: H, b: H)
    requires unit24(a),
    ensures hraw(a, b) == hraws(a, b),
{
    reveal(hraw);
    lemma_unit_small(a);
    lemma_smul(a.s, b.s); lemma_smul(a.x, b.x); lemma_smul(a.y, b.y); lemma_smul(a.z, b.z);
    lemma_smul(a.s, b.x); lemma_smul(a.x, b.s); lemma_smul(a.y, b.z); lemma_smul(a.z, b.y);
    lemma_smul(a.s, b.y); lemma_smul(a.y, b.s); lemma_smul(a.z, b.x); lemma_smul(a.x, b.z);
    lemma_smul(a.s, b.z); lemma_smul(a.z, b.s); lemma_smul(a.x, b.y); lemma_smul(a.y, b.x);
}
/// the product of two units is a unit, and twice it is hraw
pub proof fn lemma_unit_mul(a: H, b: H)
    requires unit24(a), unit24(b),
    ensures unit24(hmul(a, b)), hraw(a, b) == hadd(hmul(a, b), hmul(a, b)),
{
    lemma_hraws(a, b);
    if one2(a) {
        if a.s != 0 { } else if a.x != 0 { } else if a.y != 0 { } else { }
    } else {
        lemma_all1_x(a, b);
    }
}
pub open spec fn sg(p: bool) -> int { if p { 1 } else { -1 } }
pub proof fn lemma_all1_x(a: H, b: H)
    requires all1(a), unit24(b), hraw(a, b) == hraws(a, b),
    ensures unit24(hmul(a, b)), hraw(a, b) == hadd(hmul(a, b), hmul(a, b)),
{
    if one2(b) {
        if b.s != 0 { } else if b.x != 0 { } else if b.y != 0 { } else { }
    } else if a.s == 1 { 
        if a.x == 1 { if a.y == 1 { if a.z == 1 { lemma_leaf(true, true, true, true, a, b); } else { lemma_leaf(true, true, true, false, a, b); } } else { if a.z == 1 { lemma_leaf(true, true, false, true, a, b); } else { lemma_leaf(true, true, false, false, a, b); } } }
        else { if a.y == 1 { if a.z == 1 { lemma_leaf(true, false, true, true, a, b); } else { lemma_leaf(true, false, true, false, a, b); } } else { if a.z == 1 { lemma_leaf(true, false, false, true, a, b); } else { lemma_leaf(true, false, false, false, a, b); } } }
    } else {
        if a.x == 1 { if a.y == 1 { if a.z == 1 { lemma_leaf(false, true, true, true, a, b); } else { lemma_leaf(false, true, true, false, a, b); } } else { if a.z == 1 { lemma_leaf(false, true, false, true, a, b); } else { lemma_leaf(false, true, false, false, a, b); } } }
        else { if a.y == 1 { if a.z == 1 { lemma_leaf(false, false, true, true, a, b); } else { lemma_leaf(false, false, true, false, a, b); } } else { if a.z == 1 { lemma_leaf(false, false, false, true, a, b); } else { lemma_leaf(false, false, false, false, a, b); } } }
    }
}
pub open spec fn bmul(p: bool, q: bool, r: bool, s: bool, w: bool, x: bool, y: bool, z: bool) -> H {
    H {
        s: sg(p == w) - sg(q == x) - sg(r == y) - sg(s == z),
        x: sg(p == x) + sg(q == w) + sg(r == z) - sg(s == y),
        y: sg(p == y) + sg(r == w) + sg(s == x) - sg(q == z),
        z: sg(p == z) + sg(s == w) + sg(q == y) - sg(r == x),
    }
}
pub open spec fn bsq(b: int) -> bool { b == 0 || b == 2 || b == -2 || b == 4 || b == -4 }
pub proof fn lemma_bmul(p: bool, q: bool, r: bool, s: bool, w: bool, x: bool, y: bool, z: bool)
    ensures ({ let m = bmul(p, q, r, s, w, x, y, z); &&& bsq(m.s) && bsq(m.x) && bsq(m.y) && bsq(m.z) &&& unit24(H { s: m.s / 2, x: m.x / 2, y: m.y / 2, z: m.z / 2 }) }),
{ }
pub proof fn lemma_leaf(p: bool, q: bool, r: bool, s: bool, a: H, b: H)
    requires a == (H { s: sg(p), x: sg(q), y: sg(r), z: sg(s) }), all1(b), hraw(a, b) == hraws(a, b),
    ensures unit24(hmul(a, b)), hraw(a, b) == hadd(hmul(a, b), hmul(a, b)),
{
    lemma_bmul(p, q, r, s, b.s == 1, b.x == 1, b.y == 1, b.z == 1);
    assert(hraws(a, b) == bmul(p, q, r, s, b.s == 1, b.x == 1, b.y == 1, b.z == 1));
}
pub proof fn lemma_unit_conj(a: H)
    requires unit24(a),
    ensures unit24(hconj(a)), unit24(hneg(a)),
{ }
pub proof fn lemma_unit_one(a: H)
    requires unit24(a),
    ensures hmul(a, hconj(a)) == h1(), hmul(hconj(a), a) == h1(), hraw(a, hconj(a)) == hadd(h1(), h1()), hraw(hconj(a), a) == hadd(h1(), h1()),
{
    let b = hconj(a);
    lemma_hraws(a, b); lemma_hraws(b, a);
    if one2(a) {
        if a.s != 0 { } else if a.x != 0 { } else if a.y != 0 { } else { }
    } else {
        lemma_sqs(a.s); lemma_sqs(a.x); lemma_sqs(a.y); lemma_sqs(a.z);
        lemma_sw(a.s, a.x); lemma_sw(a.s, a.y); lemma_sw(a.s, a.z); lemma_sw(a.x, a.y); lemma_sw(a.x, a.z); lemma_sw(a.y, a.z);
        assert(hraws(a, b).s == 4 && hraws(b, a).s == 4);
        assert(hraws(a, b).x == 0 && hraws(b, a).x == 0);
        assert(hraws(a, b).y == 0 && hraws(b, a).y == 0);
        assert(hraws(a, b).z == 0 && hraws(b, a).z == 0);
    }
}
pub proof fn lemma_sqs(a: int) requires is1i(a), ensures smul(a, a) == 1, smul(a, -a) == -1, smul(-a, a) == -1, { }
pub proof fn lemma_sw(a: int, b: int) requires is1i(a), is1i(b), ensures smul(a, b) == smul(b, a), smul(a, -b) == -smul(a, b), smul(-a, b) == -smul(a, b), smul(b, -a) == -smul(a, b), smul(-b, a) == -smul(a, b), { }
pub proof fn lemma_hq(q: Quaternion)
    ensures flat(q) ==> hq(hv(q)) == q, forall|h: H| hv(#[trigger] hq(h)) == h && flat(hq(h)),
{ }
