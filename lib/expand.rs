// ===== lib/expand.rs: from Williamson-type representatives to Quaternion-type classes =====
pub open spec fn qtst() -> spec_fn(QV, QV) -> bool { type_step(SequenceType::QuaternionType) }
pub open spec fn wtst() -> spec_fn(QV, QV) -> bool { type_step(SequenceType::WilliamsonType) }
/// the first sequence negated (a) and shifted by half its length (b)
pub open spec fn ngw(q: QV, a: bool) -> QV { if a { negq(q, SequenceTag::W) } else { q } }
pub open spec fn hfw(q: QV, b: bool) -> QV { if b { shiftq1(q, SequenceTag::W, q.n / 2) } else { q } }
pub open spec fn chg(q: QV, a: bool, b: bool) -> QV { ngw(hfw(q, b), a) }
/// p is, up to Quaternion-type equivalence, one of the changed forms of q
pub open spec fn qt_of_chg(q: QV, p: QV) -> bool { exists|a: bool, b: bool| (b ==> q.n % 2 == 0) && #[trigger] reach(qtst(), chg(q, a, b), p) }

pub proof fn lemma_chg_wf(q: QV)
    requires wfl(q), q.n >= 1,
    ensures forall|a: bool| wfl(#[trigger] ngw(q, a)) && ngw(q, a).n == q.n, forall|b: bool| wfl(#[trigger] hfw(q, b)) && hfw(q, b).n == q.n,
        forall|a: bool, b: bool| wfl(#[trigger] chg(q, a, b)) && chg(q, a, b).n == q.n,
{
    lemma_wf_parts(q);
    assert(shiftq1(q, SequenceTag::W, q.n / 2) == hshift(q, q.n / 2, true, false, false, false));
    lemma_wf_parts(hfw(q, true));
}
pub proof fn lemma_qt_step(q: QV, x: QV, y: QV, f: VxOp)
    requires reach(qtst(), q, x), type_op(SequenceType::QuaternionType, f), op_rel(f, x, y),
    ensures reach(qtst(), q, y),
{
    assert(qtst()(x, y));
    lemma_reach_step(qtst(), q, x, y);
}
pub proof fn lemma_qt_one(x: QV, y: QV, f: VxOp)
    requires type_op(SequenceType::QuaternionType, f), op_rel(f, x, y),
    ensures reach(qtst(), x, y),
{ lemma_reach_refl(qtst(), x); lemma_qt_step(x, x, y, f); }
/// negating two sequences is a Quaternion-type equivalence
pub proof fn lemma_qt_two_negs(q: QV, x: QV, g: SequenceTag, h: SequenceTag)
    requires reach(qtst(), q, x),
    ensures reach(qtst(), q, negq(negq(x, g), h)),
{
    let (w, xx) = (SequenceTag::W, SequenceTag::X);
    let y = swapq(negq(x, g), w, xx);
    let k = if h == w { xx } else if h == xx { w } else { h };
    let z = swapq(negq(y, k), w, xx);
    assert(op_negate_swap(x, y));
    lemma_qt_step(q, x, y, VxOp::equivalent_negate_swap);
    assert(op_negate_swap(y, z));
    lemma_qt_step(q, y, z, VxOp::equivalent_negate_swap);
    assert(z == negq(negq(x, g), h));
}
pub proof fn lemma_negneg_l(q: QV)
    requires wfl(q),
    ensures forall|g: SequenceTag| negq(#[trigger] negq(q, g), g) == q,
{ lemma_neg2(q.a); lemma_neg2(q.b); lemma_neg2(q.c); lemma_neg2(q.d); }

// ---------- a change before a step instead of after it ----------
pub proof fn lemma_step_neg(x: QV, y: QV)
    requires wfl(x), x.n >= 1, qtst()(x, y),
    ensures reach(qtst(), negq(x, SequenceTag::W), negq(y, SequenceTag::W)), wfl(y), y.n == x.n,
{
    let ty = SequenceType::QuaternionType;
    let w = SequenceTag::W;
    let f = choose|f: VxOp| type_op(ty, f) && #[trigger] op_rel(f, x, y);
    lemma_op_wf(f, x, y);
    let m = negq(x, w);
    lemma_reach_refl(qtst(), m);
    if f != VxOp::equivalent_negate_swap {
        lemma_comm_neg(ty, f, x, y, w);
        lemma_qt_one(m, negq(y, w), f);
    } else if y != x {
        let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && y == #[trigger] swapq(negq(x, g), u, v);
        let z = swapq(negq(m, g), u, v);
        assert(op_negate_swap(m, z));
        lemma_qt_step(m, m, z, f);
        // w in x is found at t in y
        let t = if u == w { v } else if v == w { u } else { w };
        lemma_wf_parts(x); lemma_wf_parts(negq(x, g)); lemma_negneg_l(y);
        assert(z == negq(y, t));
        lemma_negneg_l(z);
        lemma_qt_two_negs(m, z, t, w);
        assert(negq(z, t) == y);
        assert(negq(negq(z, t), w) == negq(y, w));
    }
}
/// all steps but the even alternation commute with the half shift
pub proof fn lemma_shift_shift(s: Seq<i8>, k: int, l: int)
    requires s.len() >= 1,
    ensures shift(shift(s, k), l) == shift(shift(s, l), k),
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] shift(shift(s, k), l)[i] == shift(shift(s, l), k)[i] by {
        lemma_mod_in(i + l, n); lemma_mod_in(i + k, n);
        lemma_addmod(i + l, k, n); lemma_addmod(i + k, l, n);
    }
    assert(shift(shift(s, k), l) =~= shift(shift(s, l), k));
}
pub proof fn lemma_addmod(a: int, b: int, n: int)
    requires n >= 1,
    ensures (a % n + b) % n == (a + b) % n,
{ vstd::arithmetic::div_mod::lemma_add_mod_noop_right(b, a, n); }
/// the half shift and an automorphism of even order commute
pub proof fn lemma_perm_half(s: Seq<i8>, k: int)
    requires s.len() >= 1, s.len() % 2 == 0, k % 2 == 1,
    ensures shift(perm(s, k), s.len() as int / 2) == perm(shift(s, s.len() as int / 2), k),
{
    let n = s.len() as int;
    let h = n / 2;
    assert(n == 2 * h);
    assert forall|i: int| 0 <= i < n implies #[trigger] shift(perm(s, k), h)[i] == perm(shift(s, h), k)[i] by {
        lemma_mod_in(i + h, n); lemma_mod_in(i * k, n);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(i + h, k, n);
        assert(((i + h) % n * k) % n == ((i + h) * k) % n);
        lemma_addmod(i * k, h, n);
        let m = k / 2;
        assert(k == 2 * m + 1);
        assert((i + h) * k == n * m + (i * k + h)) by (nonlinear_arith) requires k == 2 * m + 1, n == 2 * h;
        vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(m, i * k + h, n);
    }
    assert(shift(perm(s, k), h) =~= perm(shift(s, h), k));
}
/// the alternation after a half shift: the half shift after the alternation, negated when n/2 is odd
pub proof fn lemma_alt_half(s: Seq<i8>)
    requires s.len() >= 1, s.len() % 2 == 0, nomin(s),
    ensures ({ let h = s.len() as int / 2; altn(shift(s, h)) == if h % 2 == 1 { neg(shift(altn(s), h)) } else { shift(altn(s), h) } }),
{
    let n = s.len() as int;
    let h = n / 2;
    assert(n == 2 * h);
    let r = if h % 2 == 1 { neg(shift(altn(s), h)) } else { shift(altn(s), h) };
    assert forall|i: int| 0 <= i < n implies #[trigger] altn(shift(s, h))[i] == r[i] by {
        lemma_mod_in(i + h, n);
        let j = (i + h) % n;
        assert(j == i + h || j == i + h - n) by {
            if i + h < n { vstd::arithmetic::div_mod::lemma_small_mod((i + h) as nat, n as nat); }
            else { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(i + h, n); vstd::arithmetic::div_mod::lemma_small_mod((i + h - n) as nat, n as nat); }
        }
        assert(s[j] > -128);
    }
    assert(altn(shift(s, h)) =~= r);
}
pub proof fn lemma_coprime_odd(n: int, k: int)
    requires n % 2 == 0, n >= 1, k >= 1, coprime_def(n, k),
    ensures k % 2 == 1,
{
    if k % 2 == 0 {
        assert(divides(2, n)) by { assert((n / 2) * 2 == n); }
        assert(divides(2, k)) by { assert((k / 2) * 2 == k); }
        assert(false);
    }
}
pub proof fn lemma_half_ns(x: QV, y: QV)
    requires wfl(x), x.n >= 1, x.n % 2 == 0, op_negate_swap(x, y), y != x,
    ensures reach(qtst(), hfw(x, true), hfw(y, true)),
{
    let w = SequenceTag::W;
    let h = x.n / 2;
    let m = hfw(x, true);
    let d = hfw(y, true);
    lemma_reach_refl(qtst(), m);
    let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && y == #[trigger] swapq(negq(x, g), u, v);
    let z = swapq(negq(m, g), u, v);
    assert(op_negate_swap(m, z));
    lemma_qt_step(m, m, z, VxOp::equivalent_negate_swap);
    let t = if u == w { v } else if v == w { u } else { w };
    lemma_seq_comm(x.a, h);
    lemma_half_ns_eq(x, u, v, g, t);
    assert(z == shiftq1(y, t, h));
    if t != w { lemma_half_move(m, y, z, t); } else { assert(z == d); }
}
pub proof fn lemma_half_ns_eq(x: QV, u: SequenceTag, v: SequenceTag, g: SequenceTag, t: SequenceTag)
    requires wfl(x), x.n >= 1, u != v, t == if u == SequenceTag::W { v } else if v == SequenceTag::W { u } else { SequenceTag::W },
        shift(neg(x.a), x.n / 2) == neg(shift(x.a, x.n / 2)),
    ensures swapq(negq(hfw(x, true), g), u, v) == shiftq1(swapq(negq(x, g), u, v), t, x.n / 2),
{ }
pub proof fn lemma_half_move(q: QV, y: QV, z: QV, t: SequenceTag)
    requires wfl(y), y.n >= 1, y.n % 2 == 0, t != SequenceTag::W, z == shiftq1(y, t, y.n / 2), reach(qtst(), q, z),
    ensures reach(qtst(), q, hfw(y, true)),
{
    let h = y.n / 2;
    lemma_shift_back(y.b, h, h); lemma_shift_back(y.c, h, h); lemma_shift_back(y.d, h, h);
    let d = hfw(y, true);
    let b = t == SequenceTag::X; let c = t == SequenceTag::Y; let e = t == SequenceTag::Z;
    assert(d == hshift(z, h, true, b, c, e));
    assert(op_dual_half(z, d));
    lemma_qt_step(q, z, d, VxOp::equivalent_dual_half_shift);
}
pub proof fn lemma_half_alt(x: QV)
    requires wfl(x), x.n >= 1, x.n % 2 == 0,
    ensures hfw(altq(x), true) == altq(chg(x, (x.n / 2) % 2 == 1, true)),
{
    let h = x.n / 2;
    lemma_alt_half(x.a);
    lemma_chg_wf(x); lemma_wf_parts(x); lemma_chg_wf(altq(x));
    assert(hfw(x, true).a == shift(x.a, h) && hfw(altq(x), true).a == shift(altn(x.a), h));
    lemma_seq_comm(shift(x.a, h), 0);
    lemma_neg2(shift(altn(x.a), h));
}
pub proof fn lemma_step_half(x: QV, y: QV)
    requires wfl(x), x.n >= 1, x.n % 2 == 0, qtst()(x, y),
    ensures exists|a: bool| #[trigger] reach(qtst(), chg(x, a, true), hfw(y, true)), wfl(y), y.n == x.n,
{
    let ty = SequenceType::QuaternionType;
    let f = choose|f: VxOp| type_op(ty, f) && #[trigger] op_rel(f, x, y);
    lemma_op_wf(f, x, y);
    let h = x.n / 2;
    let m = hfw(x, true);
    let d = hfw(y, true);
    lemma_reach_refl(qtst(), m);
    assert(chg(x, false, true) == m);
    if y == x { assert(reach(qtst(), chg(x, false, true), d)); return; }
    match f {
        VxOp::equivalent_uniform_shift => {
            let k = choose|k: int| 1 <= k < x.n && y == #[trigger] shiftq(x, k);
            lemma_shift_shift(x.a, h, k);
            assert(d == shiftq(m, k));
            lemma_qt_one(m, d, f);
        }
        VxOp::equivalent_automorphism => {
            let k = choose|k: int| 1 <= k <= x.n && coprime_def(x.n, k) && y == #[trigger] permq(x, k);
            lemma_coprime_odd(x.n, k);
            lemma_perm_half(x.a, k);
            assert(d == permq(m, k));
            lemma_qt_one(m, d, f);
        }
        VxOp::equivalent_even_alternated_negation => {
            lemma_half_alt(x);
            let c = chg(x, h % 2 == 1, true);
            lemma_qt_one(c, d, f);
            assert(reach(qtst(), chg(x, h % 2 == 1, true), d));
            return;
        }
        VxOp::equivalent_negate_swap => { lemma_half_ns(x, y); }
        _ => {
            assert(op_dual_half(x, y));
            assert(op_dual_half(m, d));
            lemma_qt_one(m, d, VxOp::equivalent_dual_half_shift);
        }
    }
    assert(reach(qtst(), chg(x, false, true), d));
}
pub proof fn lemma_chain_neg(x: QV, y: QV, a: bool)
    requires wfl(x), x.n >= 1, reach(qtst(), x, y),
    ensures reach(qtst(), ngw(x, a), ngw(y, a)),
{
    let inv = |z: QV| wfl(z) && z.n == x.n && reach(qtst(), ngw(x, a), ngw(z, a));
    lemma_reach_refl(qtst(), ngw(x, a));
    assert forall|z: QV, t: QV| inv(z) && #[trigger] qtst()(z, t) implies inv(t) by {
        lemma_step_neg(z, t);
        lemma_reach_refl(qtst(), z);
        lemma_reach_step(qtst(), z, z, t);
        lemma_reach_trans(qtst(), ngw(x, a), ngw(z, a), ngw(t, a));
    }
    lemma_reach_inv(qtst(), inv, x, y);
}
pub proof fn lemma_ngw2(q: QV, a: bool, b: bool)
    requires wfl(q),
    ensures ngw(ngw(q, a), b) == ngw(q, a != b),
{ lemma_negneg_l(q); }
/// every change of y comes, up to Quaternion-type equivalence, from a change of x
pub open spec fn chg_back(x: QV, y: QV) -> bool { forall|a: bool, b: bool| (b ==> y.n % 2 == 0) ==> qt_of_chg(x, #[trigger] chg(y, a, b)) }
pub proof fn lemma_chg_step(x: QV, y: QV)
    requires wfl(x), x.n >= 1, qtst()(x, y),
    ensures chg_back(x, y), wfl(y), y.n == x.n,
{
    lemma_step_neg(x, y);
    lemma_chg_wf(x);
    assert forall|a: bool, b: bool| (b ==> y.n % 2 == 0) implies qt_of_chg(x, #[trigger] chg(y, a, b)) by {
        let e = if b { lemma_step_half(x, y); choose|e: bool| #[trigger] reach(qtst(), chg(x, e, true), hfw(y, true)) } else {
            lemma_reach_refl(qtst(), x); lemma_reach_step(qtst(), x, x, y); assert(chg(x, false, false) == x); false };
        assert(reach(qtst(), chg(x, e, b), hfw(y, b)));
        lemma_chain_neg(chg(x, e, b), hfw(y, b), a);
        lemma_ngw2(hfw(x, b), e, a);
        assert(reach(qtst(), chg(x, e != a, b), chg(y, a, b)));
    }
}
pub proof fn lemma_chg_chg(q: QV, a: bool, b: bool, c: bool, d: bool)
    requires wfl(q), q.n >= 1, (b || d) ==> q.n % 2 == 0,
    ensures chg(chg(q, a, b), c, d) == chg(q, a != c, b != d),
{
    lemma_chg_wf(q);
    let h = q.n / 2;
    if q.n % 2 == 0 { lemma_shift_back(q.a, h, h); }
    lemma_seq_comm(hfw(q, b).a, h);
    lemma_neg2(q.a); assert(nomin(hfw(q, true).a)); lemma_neg2(shift(q.a, h));
}
/// along a chain of Quaternion-type steps
pub proof fn lemma_chg_chain(x: QV, y: QV)
    requires wfl(x), x.n >= 1, reach(qtst(), x, y),
    ensures chg_back(x, y), wfl(y), y.n == x.n,
{
    let inv = |z: QV| wfl(z) && z.n == x.n && chg_back(x, z);
    assert(inv(x)) by { assert forall|a: bool, b: bool| (b ==> x.n % 2 == 0) implies qt_of_chg(x, #[trigger] chg(x, a, b)) by { lemma_reach_refl(qtst(), chg(x, a, b)); } }
    assert forall|z: QV, t: QV| inv(z) && #[trigger] qtst()(z, t) implies inv(t) by {
        lemma_chg_step(z, t);
        assert forall|a: bool, b: bool| (b ==> t.n % 2 == 0) implies qt_of_chg(x, #[trigger] chg(t, a, b)) by {
            assert(qt_of_chg(z, chg(t, a, b)));
            let (c, d) = choose|c: bool, d: bool| (d ==> z.n % 2 == 0) && #[trigger] reach(qtst(), chg(z, c, d), chg(t, a, b));
            assert(qt_of_chg(x, chg(z, c, d)));
            let (e, g) = choose|e: bool, g: bool| (g ==> x.n % 2 == 0) && #[trigger] reach(qtst(), chg(x, e, g), chg(z, c, d));
            lemma_reach_trans(qtst(), chg(x, e, g), chg(z, c, d), chg(t, a, b));
        }
    }
    lemma_reach_inv(qtst(), inv, x, y);
}
/// one Williamson-type step: Quaternion-type equivalent after a change
pub proof fn lemma_wt_step(y: QV, p: QV)
    requires wfl(y), y.n >= 1, wtst()(y, p),
    ensures qt_of_chg(y, p), wfl(p), p.n == y.n,
{
    let f = choose|f: VxOp| type_op(SequenceType::WilliamsonType, f) && #[trigger] op_rel(f, y, p);
    lemma_op_wf(f, y, p);
    lemma_chg_wf(y);
    let w = SequenceTag::W;
    let m = negq(y, w);
    let h = y.n / 2;
    lemma_negneg_l(y);
    lemma_reach_refl(qtst(), y); lemma_reach_refl(qtst(), m); lemma_reach_refl(qtst(), hfw(y, true));
    assert(chg(y, false, false) == y && chg(y, true, false) == m && chg(y, false, true) == hfw(y, true));
    if p == y { assert(reach(qtst(), chg(y, false, false), p)); return; }
    match f {
        VxOp::equivalent_negate => {
            let g = choose|g: SequenceTag| p == #[trigger] negq(y, g);
            if g != w {
                lemma_qt_two_negs(m, m, w, g);
                assert(negq(negq(m, w), g) == p);
            }
            assert(reach(qtst(), chg(y, true, false), p));
        }
        VxOp::equivalent_reorder => {
            let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] swapq(y, u, v);
            assert(swapq(negq(m, w), u, v) == p);
            assert(op_negate_swap(m, p));
            lemma_qt_one(m, p, VxOp::equivalent_negate_swap);
            assert(reach(qtst(), chg(y, true, false), p));
        }
        VxOp::equivalent_single_half_shift => {
            let z = hfw(y, true);
            if y.n % 2 == 0 {
                lemma_shift_back(y.a, h, h);
                if p != z { assert(op_dual_half(z, p)); lemma_qt_one(z, p, VxOp::equivalent_dual_half_shift); }
                assert(reach(qtst(), chg(y, false, true), p));
            }
        }
        _ => {
            lemma_qt_one(y, p, f);
            assert(reach(qtst(), chg(y, false, false), p));
        }
    }
}
/// Williamson-type equivalence is Quaternion-type equivalence after one of the (at most four) changes
pub proof fn lemma_wt_qt(q: QV, p: QV)
    requires wfl(q), q.n >= 1, reach(wtst(), q, p),
    ensures qt_of_chg(q, p),
{
    let inv = |y: QV| wfl(y) && y.n == q.n && qt_of_chg(q, y);
    lemma_reach_refl(qtst(), q);
    assert(chg(q, false, false) == q);
    assert(inv(q));
    assert forall|y: QV, z: QV| inv(y) && #[trigger] wtst()(y, z) implies inv(z) by {
        lemma_wt_step(y, z);
        let (a, b) = choose|a: bool, b: bool| (b ==> q.n % 2 == 0) && #[trigger] reach(qtst(), chg(q, a, b), y);
        let (c, d) = choose|c: bool, d: bool| (d ==> y.n % 2 == 0) && #[trigger] reach(qtst(), chg(y, c, d), z);
        let x = chg(q, a, b);
        lemma_chg_wf(q);
        lemma_chg_chain(x, y);
        assert(qt_of_chg(x, chg(y, c, d)));
        let (e, g) = choose|e: bool, g: bool| (g ==> x.n % 2 == 0) && #[trigger] reach(qtst(), chg(x, e, g), chg(y, c, d));
        lemma_reach_trans(qtst(), chg(x, e, g), chg(y, c, d), z);
        lemma_chg_chg(q, a, b, e, g);
        assert(reach(qtst(), chg(q, a != e, b != g), z));
    }
    lemma_reach_inv(wtst(), inv, q, p);
}

// ---------- the converse: every Quaternion-type equivalence and every change is a Williamson-type equivalence ----------
pub proof fn lemma_wt_one(q: QV, x: QV, y: QV, f: VxOp)
    requires reach(wtst(), q, x), type_op(SequenceType::WilliamsonType, f), op_rel(f, x, y),
    ensures reach(wtst(), q, y),
{ assert(wtst()(x, y)); lemma_reach_step(wtst(), q, x, y); }
pub proof fn lemma_wt_half(q: QV, x: QV, b: bool, t: SequenceTag)
    requires reach(wtst(), q, x), x.n % 2 == 0,
    ensures reach(wtst(), q, if b { shiftq1(x, t, x.n / 2) } else { x }),
{
    if b {
        let h = x.n / 2;
        let y = shiftq1(x, t, h);
        assert(y == hshift(x, h, t == SequenceTag::W, t == SequenceTag::X, t == SequenceTag::Y, t == SequenceTag::Z));
        assert(op_single_half(x, y));
        lemma_wt_one(q, x, y, VxOp::equivalent_single_half_shift);
    }
}
pub proof fn lemma_wt_halves(q: QV, x: QV, a: bool, b: bool, c: bool, d: bool)
    requires reach(wtst(), q, x), x.n % 2 == 0,
    ensures reach(wtst(), q, hshift(x, x.n / 2, a, b, c, d)),
{
    let h = x.n / 2;
    lemma_wt_half(q, x, a, SequenceTag::W);
    let y = hshift(x, h, a, false, false, false);
    lemma_wt_half(q, y, b, SequenceTag::X);
    let z = hshift(x, h, a, b, false, false);
    lemma_wt_half(q, z, c, SequenceTag::Y);
    let t = hshift(x, h, a, b, c, false);
    lemma_wt_half(q, t, d, SequenceTag::Z);
}
pub proof fn lemma_qt_in_wt(q: QV, p: QV)
    requires wfl(q), q.n >= 1, reach(qtst(), q, p),
    ensures reach(wtst(), q, p),
{
    let inv = |x: QV| reach(wtst(), q, x);
    lemma_reach_refl(wtst(), q);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] qtst()(x, y) implies inv(y) by {
        let f = choose|f: VxOp| type_op(SequenceType::QuaternionType, f) && #[trigger] op_rel(f, x, y);
        if y != x {
            match f {
                VxOp::equivalent_negate_swap => {
                    let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && y == #[trigger] swapq(negq(x, g), u, v);
                    assert(op_negate(x, negq(x, g)));
                    lemma_wt_one(q, x, negq(x, g), VxOp::equivalent_negate);
                    assert(op_reorder(negq(x, g), y));
                    lemma_wt_one(q, negq(x, g), y, VxOp::equivalent_reorder);
                }
                VxOp::equivalent_dual_half_shift => {
                    let h = x.n / 2;
                    lemma_wt_halves(q, x, true, true, false, false); lemma_wt_halves(q, x, true, false, true, false); lemma_wt_halves(q, x, true, false, false, true);
                    lemma_wt_halves(q, x, false, true, true, false); lemma_wt_halves(q, x, false, true, false, true); lemma_wt_halves(q, x, false, false, true, true);
                    lemma_wt_halves(q, x, true, true, true, true);
                }
                _ => { lemma_wt_one(q, x, y, f); }
            }
        }
    }
    lemma_reach_inv(qtst(), inv, q, p);
}
pub proof fn lemma_chg_in_wt(q: QV, a: bool, b: bool)
    requires wfl(q), q.n >= 1, b ==> q.n % 2 == 0,
    ensures reach(wtst(), q, chg(q, a, b)),
{
    lemma_reach_refl(wtst(), q);
    if b { lemma_wt_half(q, q, b, SequenceTag::W); }
    let x = hfw(q, b);
    if a { assert(op_negate(x, chg(q, a, b))); lemma_wt_one(q, x, chg(q, a, b), VxOp::equivalent_negate); }
}

// ---------- the lists ----------
/// inp: the found quadruples, and changed forms of them
pub open spec fn is_chg_of(found: Seq<QuadSeq>, k: int, p: QV) -> bool { exists|i: int, a: bool, b: bool| 0 <= i < k && (b ==> found[i]@.n % 2 == 0) && p == #[trigger] chg(found[i]@, a, b) }
pub open spec fn holds(inp: Seq<QuadSeq>, p: QV) -> bool { exists|j: int| 0 <= j < inp.len() && (#[trigger] inp[j])@ == p }
/// the proper changes of the first k found quadruples, in a list
pub open spec fn chgs_upto(found: Seq<QuadSeq>, k: int, l: Seq<QuadSeq>) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> is_chg_of(found, k, (#[trigger] l[j])@)
    &&& forall|i: int, a: bool, b: bool| 0 <= i < k && (b ==> found[i]@.n % 2 == 0) && (a || b) ==> holds(l, #[trigger] chg(found[i]@, a, b))
}
/// the found quadruples with all their changes
#[verifier::opaque]
pub open spec fn expanded(found: Seq<QuadSeq>, l: Seq<QuadSeq>) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> is_chg_of(found, found.len() as int, (#[trigger] l[j])@)
    &&& forall|i: int, a: bool, b: bool| 0 <= i < found.len() && (b ==> found[i]@.n % 2 == 0) ==> holds(l, #[trigger] chg(found[i]@, a, b))
}
pub open spec fn is_wt_of(found: Seq<QuadSeq>, p: QV) -> bool { exists|i: int| 0 <= i < found.len() && reach(wtst(), (#[trigger] found[i])@, p) }
pub open spec fn rep_at(out: Seq<QuadSeq>, p: QV, j: int) -> bool { 0 <= j < out.len() && reach(qtst(), p, out[j]@) }
/// C22: every quadruple that is Williamson-type equivalent to a found one has exactly one Quaternion-type representative in the list,
/// and every representative is Williamson-type equivalent to a found one
#[verifier::opaque]
pub open spec fn covers(found: Seq<QuadSeq>, out: Seq<QuadSeq>) -> bool {
    &&& forall|p: QV| #[trigger] is_wt_of(found, p) ==> exists|j: int| #[trigger] rep_at(out, p, j)
    &&& forall|p: QV, j: int, k: int| is_wt_of(found, p) && #[trigger] rep_at(out, p, j) && #[trigger] rep_at(out, p, k) ==> j == k
    &&& forall|j: int| 0 <= j < out.len() ==> is_wt_of(found, (#[trigger] out[j])@)
}
pub proof fn lemma_wt_len(q: QV, p: QV)
    requires wfl(q), q.n >= 1, reach(wtst(), q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_type_sym(SequenceType::WilliamsonType, q, p); }
pub proof fn theorem_expand(found: Seq<QuadSeq>, n: int, inp: Seq<QuadSeq>, out: Seq<QuadSeq>)
    requires n >= 1, list_ok(found, n), expanded(found, inp), transversal(qtst(), inp, out),
    ensures covers(found, out),
{
    reveal(covers); reveal(expanded);
    assert forall|p: QV| #[trigger] is_wt_of(found, p) implies exists|j: int| #[trigger] rep_at(out, p, j) by {
        let i = choose|i: int| 0 <= i < found.len() && reach(wtst(), (#[trigger] found[i])@, p);
        let q = found[i]@;
        lemma_wt_qt(q, p);
        let (a, b) = choose|a: bool, b: bool| (b ==> q.n % 2 == 0) && #[trigger] reach(qtst(), chg(q, a, b), p);
        assert(holds(inp, chg(q, a, b)));
        let m = choose|m: int| 0 <= m < inp.len() && (#[trigger] inp[m])@ == chg(q, a, b);
        assert(into_list(qtst(), inp[m]@, out));
        let j = choose|j: int| 0 <= j < out.len() && reach(qtst(), inp[m]@, (#[trigger] out[j])@);
        lemma_chg_wf(q);
        lemma_type_sym(SequenceType::QuaternionType, chg(q, a, b), p);
        lemma_reach_trans(qtst(), p, chg(q, a, b), out[j]@);
        assert(rep_at(out, p, j));
    }
    assert forall|p: QV, j: int, k: int| is_wt_of(found, p) && #[trigger] rep_at(out, p, j) && #[trigger] rep_at(out, p, k) implies j == k by {
        let i = choose|i: int| 0 <= i < found.len() && reach(wtst(), (#[trigger] found[i])@, p);
        lemma_wt_len(found[i]@, p);
        lemma_type_sym(SequenceType::QuaternionType, p, out[j]@);
        lemma_type_sym(SequenceType::QuaternionType, p, out[k]@);
        lemma_reach_trans(qtst(), out[j]@, p, out[k]@);
        lemma_reach_trans(qtst(), out[k]@, p, out[j]@);
        assert(j < k ==> !reach(qtst(), out[j]@, out[k]@));
        assert(k < j ==> !reach(qtst(), out[k]@, out[j]@));
    }
    assert forall|j: int| 0 <= j < out.len() implies is_wt_of(found, (#[trigger] out[j])@) by {
        assert(from_list(qtst(), inp, out[j]@));
        let m = choose|m: int| 0 <= m < inp.len() && reach(qtst(), (#[trigger] inp[m])@, out[j]@);
        assert(is_chg_of(found, found.len() as int, inp[m]@));
        let (i, a, b) = choose|i: int, a: bool, b: bool| 0 <= i < found.len() && (b ==> found[i]@.n % 2 == 0) && inp[m]@ == #[trigger] chg(found[i]@, a, b);
        let q = found[i]@;
        lemma_chg_wf(q);
        lemma_chg_in_wt(q, a, b);
        lemma_qt_in_wt(chg(q, a, b), out[j]@);
        lemma_reach_trans(wtst(), q, chg(q, a, b), out[j]@);
    }
}
pub proof fn lemma_expanded(found: Seq<QuadSeq>, l: Seq<QuadSeq>)
    requires chgs_upto(found, found.len() as int, l),
    ensures expanded(found, found + l),
{
    reveal(expanded);
    let inp = found + l;
    assert forall|j: int| 0 <= j < inp.len() implies is_chg_of(found, found.len() as int, (#[trigger] inp[j])@) by {
        if j < found.len() { assert(inp[j]@ == chg(found[j]@, false, false)); } else { assert(inp[j] == l[j - found.len()]); }
    }
    assert forall|i: int, a: bool, b: bool| 0 <= i < found.len() && (b ==> found[i]@.n % 2 == 0) implies holds(inp, #[trigger] chg(found[i]@, a, b)) by {
        if a || b {
            assert(holds(l, chg(found[i]@, a, b)));
            let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j])@ == chg(found[i]@, a, b);
            assert(inp[found.len() + j]@ == chg(found[i]@, a, b));
        } else { assert(inp[i]@ == chg(found[i]@, a, b)); }
    }
}
pub proof fn lemma_list_pm(l: Seq<QuadSeq>, n: int)
    requires list_pm(l, n),
    ensures list_ok(l, n),
{ assert forall|i: int| 0 <= i < l.len() implies wfx(#[trigger] l[i]) && l[i]@.n == n by { assert(wfq(l[i])); lemma_wfv_wfl(l[i]@); } }
pub proof fn lemma_chg_pm(q: QV)
    requires wfv(q), q.n >= 1,
    ensures forall|a: bool, b: bool| wfv(#[trigger] chg(q, a, b)) && chg(q, a, b).n == q.n,
{
    assert(shiftq1(q, SequenceTag::W, q.n / 2) == hshift(q, q.n / 2, true, false, false, false));
    assert forall|a: bool, b: bool| wfv(#[trigger] chg(q, a, b)) && chg(q, a, b).n == q.n by { lemma_pm_parts(q); lemma_pm_parts(hfw(q, b)); }
}
/// the changed quadruples, written with the changed first sequence
pub proof fn lemma_chg_seqs(q: QV)
    ensures
        chg(q, true, false) == set(q, SequenceTag::W, neg(q.a)), chg(q, false, true) == set(q, SequenceTag::W, shift(q.a, q.n / 2)),
        chg(q, true, true) == set(q, SequenceTag::W, neg(shift(q.a, q.n / 2))),
{ }
pub open spec fn chgs_of(q: QV, l0: Seq<QuadSeq>, l: Seq<QuadSeq>) -> bool {
    &&& l.len() >= l0.len()
    &&& forall|j: int| 0 <= j < l0.len() ==> #[trigger] l[j] == l0[j]
    &&& forall|j: int| l0.len() <= j < l.len() ==> wfq(#[trigger] l[j]) && (l[j]@ == chg(q, true, false) || (q.n % 2 == 0 && (l[j]@ == chg(q, false, true) || l[j]@ == chg(q, true, true))))
    &&& holds(l, chg(q, true, false))
    &&& q.n % 2 == 0 ==> holds(l, chg(q, false, true)) && holds(l, chg(q, true, true))
}
pub proof fn lemma_chgs_step(found: Seq<QuadSeq>, n: int, k: int, l0: Seq<QuadSeq>, l: Seq<QuadSeq>)
    requires 0 <= k < found.len(), list_pm(found, n), n >= 1, chgs_upto(found, k, l0), list_pm(l0, n), chgs_of(found[k]@, l0, l),
    ensures chgs_upto(found, k + 1, l), list_pm(l, n),
{
    assert(wfq(found[k]));
    lemma_chg_pm(found[k]@);
    assert forall|j: int| 0 <= j < l.len() implies is_chg_of(found, k + 1, (#[trigger] l[j])@) && wfq(l[j]) && l[j]@.n == n by {
        if j < l0.len() {
            assert(wfq(l0[j]) && l0[j]@.n == n);
            assert(is_chg_of(found, k, l0[j]@));
            let (i, a, b) = choose|i: int, a: bool, b: bool| 0 <= i < k && (b ==> found[i]@.n % 2 == 0) && l0[j]@ == #[trigger] chg(found[i]@, a, b);
            assert(l[j]@ == chg(found[i]@, a, b));
        } else { let q = found[k]@; assert(chg(q, true, false) == chg(found[k]@, true, false)); }
    }
    assert forall|i: int, a: bool, b: bool| 0 <= i < k + 1 && (b ==> found[i]@.n % 2 == 0) && (a || b) implies holds(l, #[trigger] chg(found[i]@, a, b)) by {
        if i < k {
            assert(holds(l0, chg(found[i]@, a, b)));
            let j = choose|j: int| 0 <= j < l0.len() && (#[trigger] l0[j])@ == chg(found[i]@, a, b);
            assert(l[j]@ == chg(found[i]@, a, b));
        } else { assert(chg(found[k]@, a, b) == chg(found[i]@, a, b)); }
    }
}
#[verifier::opaque]
pub open spec fn exp_inv(found: Seq<QuadSeq>, n: int, k: int, l: Seq<QuadSeq>) -> bool { n >= 1 && list_pm(found, n) && chgs_upto(found, k, l) && list_pm(l, n) }
pub proof fn lemma_exp_start(found: Seq<QuadSeq>, n: int)
    requires n >= 1, list_pm(found, n),
    ensures exp_inv(found, n, 0, Seq::empty()),
{ reveal(exp_inv); }
pub proof fn lemma_exp_at(found: Seq<QuadSeq>, n: int, k: int, l: Seq<QuadSeq>)
    requires exp_inv(found, n, k, l), 0 <= k < found.len(),
    ensures wfq(found[k]), found[k]@.n == n,
        wfv(set(found[k]@, SequenceTag::W, neg(found[k]@.a))),
        n % 2 == 0 ==> wfv(set(found[k]@, SequenceTag::W, shift(found[k]@.a, n / 2))) && wfv(set(found[k]@, SequenceTag::W, neg(shift(found[k]@.a, n / 2)))),
        forall|i: int| 0 <= i < n ==> #[trigger] found[k]@.a[i] > -128, forall|i: int| 0 <= i < n ==> #[trigger] shift(found[k]@.a, n / 2)[i] > -128,
{
    reveal(exp_inv);
    assert(wfq(found[k]));
    let q = found[k]@;
    lemma_chg_pm(q); lemma_chg_seqs(q); lemma_wfv_wfl(q); lemma_wf_parts(q); lemma_chg_wf(q);
    assert(wfv(chg(q, true, false)) && wfv(chg(q, false, true)) && wfv(chg(q, true, true)));
    assert(nomin(chg(q, false, true).a));
}
/// q: the k-th found quadruple; its changes were appended, in any order
pub open spec fn is_ch(q: QV, x: QuadSeq, c: int) -> bool {
    x.size == q.n && if c == 0 { x@ == set(q, SequenceTag::W, neg(q.a)) } else if c == 1 { x@ == set(q, SequenceTag::W, shift(q.a, q.n / 2)) } else { x@ == set(q, SequenceTag::W, neg(shift(q.a, q.n / 2))) }
}
pub open spec fn has_ch(q: QV, l0: int, l: Seq<QuadSeq>, c: int) -> bool {
    if q.n % 2 == 0 { is_ch(q, l[l0], c) || is_ch(q, l[l0 + 1], c) || is_ch(q, l[l0 + 2], c) } else { is_ch(q, l[l0], c) }
}
pub open spec fn any_ch(q: QV, x: QuadSeq) -> bool { is_ch(q, x, 0) || (q.n % 2 == 0 && (is_ch(q, x, 1) || is_ch(q, x, 2))) }
pub proof fn lemma_exp_step(found: Seq<QuadSeq>, n: int, k: int, l0: Seq<QuadSeq>, l: Seq<QuadSeq>)
    requires
        exp_inv(found, n, k, l0), 0 <= k < found.len(), l.len() == l0.len() + if n % 2 == 0 { 3int } else { 1int },
        forall|j: int| 0 <= j < l0.len() ==> #[trigger] l[j] == l0[j],
        any_ch(found[k]@, l[l0.len() as int]), n % 2 == 0 ==> any_ch(found[k]@, l[l0.len() as int + 1]) && any_ch(found[k]@, l[l0.len() as int + 2]),
        has_ch(found[k]@, l0.len() as int, l, 0), n % 2 == 0 ==> has_ch(found[k]@, l0.len() as int, l, 1) && has_ch(found[k]@, l0.len() as int, l, 2),
    ensures exp_inv(found, n, k + 1, l),
{
    lemma_exp_at(found, n, k, l0);
    reveal(exp_inv);
    let q = found[k]@;
    let m = l0.len() as int;
    lemma_chg_seqs(q); lemma_chg_pm(q);
    assert forall|j: int| m <= j < l.len() implies wfq(#[trigger] l[j]) && (l[j]@ == chg(q, true, false) || (q.n % 2 == 0 && (l[j]@ == chg(q, false, true) || l[j]@ == chg(q, true, true)))) by {
        assert(j == m || (n % 2 == 0 && (j == m + 1 || j == m + 2)));
        assert(any_ch(q, l[j]));
        assert(wfv(chg(q, true, false)) && wfv(chg(q, false, true)) && wfv(chg(q, true, true)));
    }
    assert(holds(l, l[m]@));
    if n % 2 == 0 { assert(holds(l, l[m + 1]@)); assert(holds(l, l[m + 2]@)); }
    lemma_chgs_step(found, n, k, l0, l);
}
pub proof fn lemma_exp_end(found: Seq<QuadSeq>, n: int, l: Seq<QuadSeq>)
    requires exp_inv(found, n, found.len() as int, l),
    ensures expanded(found, found + l), list_pm(found + l, n), list_ok(found, n),
{
    reveal(exp_inv);
    lemma_expanded(found, l); lemma_list_pm(found, n);
    assert forall|i: int| 0 <= i < (found + l).len() implies wfq(#[trigger] (found + l)[i]) && (found + l)[i]@.n == n by {
        if i < found.len() { assert(wfq(found[i])); } else { assert(wfq(l[i - found.len()])); assert((found + l)[i] == l[i - found.len()]); }
    }
}
