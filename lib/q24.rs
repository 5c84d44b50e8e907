// ===== lib/q24.rs: the table of units and its accessors =====
//@subst \bQ24\b => vx_Q24()
//@subst \bQPLUS\b => vx_QPLUS()
//@subst \bQUADRUPLETS\b => vx_init_QUADRUPLETS()
//@subst \bQ([01IJKQ])\b => vx_init_Q\1()
pub open spec fn hh(s: int, x: int, y: int, z: int) -> H { H { s: s, x: x, y: y, z: z } }
/// the i-th of the 24 units in halves: +1 -1 +i -i +j -j +k -k, then q and s = (1 +- i +- j +- k)/2 times the same units
pub open spec fn q24h(i: int) -> H {
    if i == 0 { hh(2, 0, 0, 0) } else if i == 1 { hh(-2, 0, 0, 0) } else if i == 2 { hh(0, 2, 0, 0) } else if i == 3 { hh(0, -2, 0, 0) }
    else if i == 4 { hh(0, 0, 2, 0) } else if i == 5 { hh(0, 0, -2, 0) } else if i == 6 { hh(0, 0, 0, 2) } else if i == 7 { hh(0, 0, 0, -2) }
    else if i == 8 { hh(1, 1, 1, 1) } else if i == 9 { hh(-1, -1, -1, -1) } else if i == 10 { hh(-1, 1, 1, -1) } else if i == 11 { hh(1, -1, -1, 1) }
    else if i == 12 { hh(-1, -1, 1, 1) } else if i == 13 { hh(1, 1, -1, -1) } else if i == 14 { hh(-1, 1, -1, 1) } else if i == 15 { hh(1, -1, 1, -1) }
    else if i == 16 { hh(1, -1, -1, -1) } else if i == 17 { hh(-1, 1, 1, 1) } else if i == 18 { hh(1, 1, -1, 1) } else if i == 19 { hh(-1, -1, 1, -1) }
    else if i == 20 { hh(1, 1, 1, -1) } else if i == 21 { hh(-1, -1, -1, 1) } else if i == 22 { hh(1, -1, 1, 1) } else { hh(-1, 1, -1, -1) }
}
/// v[i] is the i-th unit
pub open spec fn is_unit_no(q: Quaternion, i: int) -> bool { flat(q) && hv(q) == q24h(i) }
pub open spec fn unit_table(v: Seq<Quaternion>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] is_unit_no(v[i], i) }
pub proof fn lemma_q24h_unit(i: int)
    requires 0 <= i < 24,
    ensures unit24(q24h(i)),
{ }
pub proof fn lemma_q24h_inj(i: int, j: int)
    requires 0 <= i < 24, 0 <= j < 24, q24h(i) == q24h(j),
    ensures i == j,
{ }
/// every unit is in the table
pub open spec fn unit_no(h: H) -> int {
    if h.s == 2 { 0 } else if h.s == -2 { 1 } else if h.x == 2 { 2 } else if h.x == -2 { 3 } else if h.y == 2 { 4 } else if h.y == -2 { 5 } else if h.z == 2 { 6 } else if h.z == -2 { 7 }
    else if h.s == 1 {
        if h.x == 1 { if h.y == 1 { if h.z == 1 { 8 } else { 20 } } else { if h.z == 1 { 18 } else { 13 } } }
        else { if h.y == 1 { if h.z == 1 { 22 } else { 15 } } else { if h.z == 1 { 11 } else { 16 } } }
    } else {
        if h.x == 1 { if h.y == 1 { if h.z == 1 { 17 } else { 10 } } else { if h.z == 1 { 14 } else { 23 } } }
        else { if h.y == 1 { if h.z == 1 { 12 } else { 19 } } else { if h.z == 1 { 21 } else { 9 } } }
    }
}
pub proof fn lemma_unit_no(h: H)
    requires unit24(h),
    ensures 0 <= unit_no(h) < 24, q24h(unit_no(h)) == h,
{ if one2(h) { } else { } }
pub proof fn lemma_unit_table(v: Seq<Quaternion>, n: int)
    requires unit_table(v, n), n <= 24,
    ensures forall|i: int| 0 <= i < n ==> isu(#[trigger] v[i]) && hv(v[i]) == q24h(i) && v[i] == hq(q24h(i)),
{
    assert forall|i: int| 0 <= i < n implies isu(#[trigger] v[i]) && hv(v[i]) == q24h(i) && v[i] == hq(q24h(i)) by {
        assert(is_unit_no(v[i], i)); lemma_q24h_unit(i); lemma_hq(v[i]);
    }
}
/// the products of q and s with the eight units
pub proof fn lemma_products(b: int)
    requires b == 8 || b == 16,
    ensures hmul(q24h(b), q24h(2)) == q24h(b + 2), hmul(q24h(b), q24h(3)) == q24h(b + 3), hmul(q24h(b), q24h(4)) == q24h(b + 4),
        hmul(q24h(b), q24h(5)) == q24h(b + 5), hmul(q24h(b), q24h(6)) == q24h(b + 6), hmul(q24h(b), q24h(7)) == q24h(b + 7), hneg(q24h(b)) == q24h(b + 1),
{
    assert(hmul(q24h(8), q24h(2)) == q24h(10)) by(compute_only); assert(hmul(q24h(8), q24h(3)) == q24h(11)) by(compute_only); assert(hmul(q24h(8), q24h(4)) == q24h(12)) by(compute_only); assert(hmul(q24h(8), q24h(5)) == q24h(13)) by(compute_only); assert(hmul(q24h(8), q24h(6)) == q24h(14)) by(compute_only); assert(hmul(q24h(8), q24h(7)) == q24h(15)) by(compute_only); assert(hneg(q24h(8)) == q24h(9)) by(compute_only);
    assert(hmul(q24h(16), q24h(2)) == q24h(18)) by(compute_only); assert(hmul(q24h(16), q24h(3)) == q24h(19)) by(compute_only); assert(hmul(q24h(16), q24h(4)) == q24h(20)) by(compute_only); assert(hmul(q24h(16), q24h(5)) == q24h(21)) by(compute_only); assert(hmul(q24h(16), q24h(6)) == q24h(22)) by(compute_only); assert(hmul(q24h(16), q24h(7)) == q24h(23)) by(compute_only); assert(hneg(q24h(16)) == q24h(17)) by(compute_only);
}
// the lazy_statics: assumed to yield the value of their initialisers, which are verified as vx_init_Q24 / vx_init_QPLUS
#[verifier::external_body]
pub fn vx_Q24() -> (r: &'static Vec<Quaternion>)
    ensures unit_table(r@, 24),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_QPLUS() -> (r: &'static Vec<Quaternion>)
    ensures unit_table(r@, 16),
{ unimplemented!() }
