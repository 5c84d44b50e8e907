// ===== lib/equiv.rs: the equivalence operations on abstract quadruples and why they preserve each sequence type =====
pub open spec fn neg8(x: i8) -> i8 { (0 - x) as i8 }
pub open spec fn neg(s: Seq<i8>) -> Seq<i8> { Seq::new(s.len(), |i: int| neg8(s[i])) }
/// every second element (the odd positions) negated
pub open spec fn altn(s: Seq<i8>) -> Seq<i8> { Seq::new(s.len(), |i: int| if i % 2 == 1 { neg8(s[i]) } else { s[i] }) }
pub open spec fn shift(s: Seq<i8>, k: int) -> Seq<i8> { Seq::new(s.len(), |i: int| s[(i + k) % (s.len() as int)]) }
pub open spec fn perm(s: Seq<i8>, k: int) -> Seq<i8> { Seq::new(s.len(), |i: int| s[(i * k) % (s.len() as int)]) }
pub open spec fn rev(s: Seq<i8>) -> Seq<i8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }

pub open spec fn swapq(q: QV, u: SequenceTag, v: SequenceTag) -> QV { set(set(q, u, get(q, v)), v, get(q, u)) }
pub open spec fn negq(q: QV, t: SequenceTag) -> QV { set(q, t, neg(get(q, t))) }
pub open spec fn shiftq1(q: QV, t: SequenceTag, k: int) -> QV { set(q, t, shift(get(q, t), k)) }
pub open spec fn shiftq(q: QV, k: int) -> QV { QV { n: q.n, a: shift(q.a, k), b: shift(q.b, k), c: shift(q.c, k), d: shift(q.d, k) } }
pub open spec fn permq(q: QV, k: int) -> QV { QV { n: q.n, a: perm(q.a, k), b: perm(q.b, k), c: perm(q.c, k), d: perm(q.d, k) } }
pub open spec fn altq(q: QV) -> QV { QV { n: q.n, a: altn(q.a), b: altn(q.b), c: altn(q.c), d: altn(q.d) } }
pub open spec fn revq(q: QV) -> QV { QV { n: q.n, a: rev(q.a), b: rev(q.b), c: rev(q.c), d: rev(q.d) } }

pub proof fn lemma_negmul(x: int, y: int)
    ensures (-x) * y == -(x * y), x * (-y) == -(x * y), (-x) * (-y) == x * y,
{
    assert((-x) * y == -(x * y) && x * (-y) == -(x * y) && (-x) * (-y) == x * y) by (nonlinear_arith);
}

// ---------- negation ----------
pub proof fn lemma_neg_pm(s: Seq<i8>)
    requires pm(s),
    ensures pm(neg(s)), neg(s).len() == s.len(),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] neg(s)[i] == 1 || neg(s)[i] == -1 by { assert(s[i] == 1 || s[i] == -1); }
}

pub proof fn lemma_auto_neg(s: Seq<i8>, t: int)
    requires pm(s),
    ensures auto(neg(s), t) == auto(s, t),
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] auto_f(neg(s), t)(i) == auto_f(s, t)(i) by {
        let j = (i + t) % n;
        lemma_mod_range(i + t, n);
        assert(s[i] == 1 || s[i] == -1);
        assert(s[j] == 1 || s[j] == -1);
        assert(neg(s)[i] == -s[i] && neg(s)[j] == -s[j]);
    }
    lemma_sum_ext(auto_f(neg(s), t), auto_f(s, t), n);
}

pub proof fn lemma_cross_neg(x: Seq<i8>, y: Seq<i8>, t: int)
    requires pm(x), pm(y), x.len() == y.len(),
    ensures
        cross(neg(x), y, t) == -cross(x, y, t),
        cross(x, neg(y), t) == -cross(x, y, t),
        cross(neg(x), neg(y), t) == cross(x, y, t),
{
    let n = x.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] neg(x)[i] == -x[i] by { assert(x[i] == 1 || x[i] == -1); }
    assert forall|i: int| 0 <= i < n implies #[trigger] neg(y)[i] == -y[i] by { assert(y[i] == 1 || y[i] == -1); }
    assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(neg(x), y, t)(i) == -cross_f(x, y, t)(i) by {
        lemma_mod_range(i - t, n);
        lemma_negmul(x[i] as int, y[(i - t) % n] as int);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(x, neg(y), t)(i) == -cross_f(x, y, t)(i) by {
        lemma_mod_range(i - t, n);
        lemma_negmul(x[i] as int, y[(i - t) % n] as int);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(neg(x), neg(y), t)(i) == cross_f(x, y, t)(i) by {
        lemma_mod_range(i - t, n);
        lemma_negmul(x[i] as int, y[(i - t) % n] as int);
    }
    lemma_sum_neg(cross_f(neg(x), y, t), cross_f(x, y, t), n);
    lemma_sum_neg(cross_f(x, neg(y), t), cross_f(x, y, t), n);
    lemma_sum_ext(cross_f(neg(x), neg(y), t), cross_f(x, y, t), n);
}

pub proof fn lemma_neg_all(q: QV, g: SequenceTag, t: int)
    requires wfv(q),
    ensures
        wfv(negq(q, g)),
        forall|x: SequenceTag| #[trigger] auto(get(negq(q, g), x), t) == auto(get(q, x), t),
        forall|x: SequenceTag, y: SequenceTag| x != y ==> #[trigger] cross(get(negq(q, g), x), get(negq(q, g), y), t)
            == (if x == g || y == g { -cross(get(q, x), get(q, y), t) } else { cross(get(q, x), get(q, y), t) }),
{
    lemma_neg_pm(get(q, g));
    lemma_auto_neg(get(q, g), t);
    assert forall|x: SequenceTag, y: SequenceTag| x != y implies #[trigger] cross(get(negq(q, g), x), get(negq(q, g), y), t)
            == (if x == g || y == g { -cross(get(q, x), get(q, y), t) } else { cross(get(q, x), get(q, y), t) }) by {
        lemma_cross_neg(get(q, x), get(q, y), t);
    }
}

/// swapping two sequences flips the sign of the quaternion cross condition
pub open spec fn qanti_at(q: QV, t: int) -> bool {
    &&& xd(q.a, q.b, t) == -xd(q.d, q.c, t)
    &&& xd(q.a, q.c, t) == -xd(q.b, q.d, t)
    &&& xd(q.a, q.d, t) == -xd(q.c, q.b, t)
}
pub proof fn lemma_neg_anti(q: QV, g: SequenceTag, t: int)
    requires wfv(q), qcross_at(q, t),
    ensures qanti_at(negq(q, g), t),
{
    let s = get(q, g);
    lemma_cross_neg(s, q.a, t); lemma_cross_neg(s, q.b, t); lemma_cross_neg(s, q.c, t); lemma_cross_neg(s, q.d, t);
    lemma_cross_neg(q.a, s, t); lemma_cross_neg(q.b, s, t); lemma_cross_neg(q.c, s, t); lemma_cross_neg(q.d, s, t);
}
pub proof fn lemma_swap_anti(q: QV, u: SequenceTag, v: SequenceTag, t: int)
    requires qanti_at(q, t), u != v,
    ensures qcross_at(swapq(q, u, v), t),
{
}
/// negate one sequence and swap two: a quaternion-type quadruple stays one
pub proof fn lemma_ns_qts(q: QV, g: SequenceTag, u: SequenceTag, v: SequenceTag)
    requires wfv(q), u != v,
    ensures wfv(swapq(negq(q, g), u, v)), is_qts(q) ==> is_qts(swapq(negq(q, g), u, v)),
{
    let m = negq(q, g);
    let p = swapq(m, u, v);
    lemma_neg_pm(get(q, g));
    if is_qts(q) {
        assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by {
            assert(compl_at(q, t));
            lemma_auto_neg(get(q, g), t);
            assert(compl_at(m, t));
        }
        assert forall|t: int| 0 <= t < p.n implies #[trigger] qcross_at(p, t) by {
            assert(qcross_at(q, t));
            lemma_neg_anti(q, g, t);
            lemma_swap_anti(m, u, v, t);
        }
    }
}

/// negating one sequence keeps amicability and symmetry
pub proof fn lemma_neg_valid(q: QV, g: SequenceTag)
    requires wfv(q),
    ensures wfv(negq(q, g)), is_wts(q) ==> is_wts(negq(q, g)), is_ws(q) ==> is_ws(negq(q, g)),
{
    let p = negq(q, g);
    lemma_neg_pm(get(q, g));
    if complementary(q) {
        assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by {
            assert(compl_at(q, t));
            lemma_auto_neg(get(q, g), t);
        }
    }
    if amicable(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] amic_at(p, t) by {
            assert(amic_at(q, t));
            lemma_cross_neg(get(q, g), q.a, t); lemma_cross_neg(get(q, g), q.b, t); lemma_cross_neg(get(q, g), q.c, t); lemma_cross_neg(get(q, g), q.d, t);
            lemma_cross_neg(q.a, get(q, g), t); lemma_cross_neg(q.b, get(q, g), t); lemma_cross_neg(q.c, get(q, g), t); lemma_cross_neg(q.d, get(q, g), t);
        }
    }
    if symmetric(q) {
        let s = get(q, g);
        assert forall|t: int| 1 <= t < s.len() implies #[trigger] neg(s)[t] == neg(s)[s.len() - t] by { assert(s[t] == s[s.len() - t]); }
    }
}

pub proof fn lemma_swap_valid(q: QV, u: SequenceTag, v: SequenceTag)
    requires wfv(q), u != v,
    ensures wfv(swapq(q, u, v)), is_wts(q) ==> is_wts(swapq(q, u, v)), is_ws(q) ==> is_ws(swapq(q, u, v)),
{
    let p = swapq(q, u, v);
    if complementary(q) {
        assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by { assert(compl_at(q, t)); }
    }
    if amicable(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] amic_at(p, t) by { assert(amic_at(q, t)); }
    }
}

// ---------- cyclic shift ----------
pub proof fn lemma_shift_pm(s: Seq<i8>, k: int)
    requires pm(s),
    ensures pm(shift(s, k)), shift(s, k).len() == s.len(),
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] shift(s, k)[i] == 1 || shift(s, k)[i] == -1 by {
        lemma_mod_range(i + k, n);
        assert(s[(i + k) % n] == 1 || s[(i + k) % n] == -1);
    }
}

pub proof fn lemma_auto_shift(s: Seq<i8>, k: int, t: int)
    ensures auto(shift(s, k), t) == auto(s, t),
{
    let n = s.len() as int;
    if n > 0 {
        let f = auto_f(s, t);
        let g = |i: int| f((i + k) % n);
        assert forall|i: int| 0 <= i < n implies #[trigger] auto_f(shift(s, k), t)(i) == g(i) by {
            lemma_mod_range(i + t, n);
            lemma_mod_range(i + k, n);
            lemma_mod_add_l(i + t, k, n);
            lemma_mod_add_l(i + k, t, n);
            assert(i + t + k == i + k + t);
        }
        lemma_sum_ext(auto_f(shift(s, k), t), g, n);
        lemma_sum_shift(f, k, n);
    }
}

/// C_{shift_k x, shift_l y}(t) = C_{x,y}(t + k - l)
pub proof fn lemma_cross_shift(x: Seq<i8>, y: Seq<i8>, k: int, l: int, t: int)
    requires x.len() == y.len(),
    ensures cross(shift(x, k), shift(y, l), t) == cross(x, y, t + k - l),
{
    let n = x.len() as int;
    if n > 0 {
        let f = cross_f(x, y, t + k - l);
        let g = |i: int| f((i + k) % n);
        assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(shift(x, k), shift(y, l), t)(i) == g(i) by {
            lemma_mod_range(i - t, n);
            lemma_mod_range(i + k, n);
            lemma_mod_add_l(i - t, l, n);
            lemma_mod_add_l(i + k, -(t + k - l), n);
            assert(i - t + l == i + k - (t + k - l));
        }
        lemma_sum_ext(cross_f(shift(x, k), shift(y, l), t), g, n);
        lemma_sum_shift(f, k, n);
    }
}

/// correlations only depend on the offset modulo n
pub proof fn lemma_cross_mod(x: Seq<i8>, y: Seq<i8>, t: int)
    requires x.len() == y.len(), x.len() > 0,
    ensures cross(x, y, t) == cross(x, y, t % (x.len() as int)),
{
    let n = x.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(x, y, t)(i) == cross_f(x, y, t % n)(i) by {
        lemma_mod_sub_r(i, t, n);
    }
    lemma_sum_ext(cross_f(x, y, t), cross_f(x, y, t % n), n);
}
pub proof fn lemma_auto_mod(x: Seq<i8>, t: int)
    requires x.len() > 0,
    ensures auto(x, t) == auto(x, t % (x.len() as int)),
{
    let n = x.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] auto_f(x, t)(i) == auto_f(x, t % n)(i) by {
        lemma_mod_add_l(t, i, n);
    }
    lemma_sum_ext(auto_f(x, t), auto_f(x, t % n), n);
}

pub proof fn lemma_shift0(s: Seq<i8>)
    ensures shift(s, 0) == s,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] shift(s, 0)[i] == s[i] by { lemma_mod_range(i, s.len() as int); }
    assert(shift(s, 0) =~= s);
}

/// the same cyclic shift of all four sequences
pub proof fn lemma_shift_valid(q: QV, k: int)
    requires wfv(q),
    ensures wfv(shiftq(q, k)), is_qts(q) ==> is_qts(shiftq(q, k)), is_wts(q) ==> is_wts(shiftq(q, k)),
{
    let p = shiftq(q, k);
    lemma_shift_pm(q.a, k); lemma_shift_pm(q.b, k); lemma_shift_pm(q.c, k); lemma_shift_pm(q.d, k);
    if complementary(q) {
        assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by {
            assert(compl_at(q, t));
            lemma_auto_shift(q.a, k, t); lemma_auto_shift(q.b, k, t); lemma_auto_shift(q.c, k, t); lemma_auto_shift(q.d, k, t);
        }
    }
    assert forall|x: Seq<i8>, y: Seq<i8>, t: int| x.len() == y.len() implies #[trigger] cross(shift(x, k), shift(y, k), t) == cross(x, y, t) by {
        lemma_cross_shift(x, y, k, k, t);
    }
    if amicable(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] amic_at(p, t) by { assert(amic_at(q, t)); }
    }
    if qcross(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] qcross_at(p, t) by { assert(qcross_at(q, t)); }
    }
}

// ---------- half shifts (n even) ----------
/// the cross correlations of a quadruple in which the tags marked by m are shifted by h = n/2
pub open spec fn hshift(q: QV, h: int, wa: bool, wb: bool, wc: bool, wd: bool) -> QV {
    QV { n: q.n, a: if wa { shift(q.a, h) } else { q.a }, b: if wb { shift(q.b, h) } else { q.b },
         c: if wc { shift(q.c, h) } else { q.c }, d: if wd { shift(q.d, h) } else { q.d } }
}

pub proof fn lemma_cross_half(x: Seq<i8>, y: Seq<i8>, h: int, wx: bool, wy: bool, t: int)
    requires x.len() == y.len(), x.len() > 0, 2 * h == x.len(),
    ensures
        cross(if wx { shift(x, h) } else { x }, if wy { shift(y, h) } else { y }, t)
            == cross(x, y, if wx == wy { t % (2 * h) } else { (t + h) % (2 * h) }),
{
    lemma_shift0(x); lemma_shift0(y);
    let k = if wx { h } else { 0 };
    let l = if wy { h } else { 0 };
    lemma_cross_shift(x, y, k, l, t);
    lemma_cross_mod(x, y, t + k - l);
    if !wx && wy { lemma_mod_cong(t + h, t - h, 1, 2 * h); }
}

pub proof fn lemma_half_compl(q: QV, h: int, wa: bool, wb: bool, wc: bool, wd: bool)
    requires wfv(q), complementary(q), q.n > 0, 2 * h == q.n,
    ensures wfv(hshift(q, h, wa, wb, wc, wd)), complementary(hshift(q, h, wa, wb, wc, wd)),
{
    let p = hshift(q, h, wa, wb, wc, wd);
    lemma_shift_pm(q.a, h); lemma_shift_pm(q.b, h); lemma_shift_pm(q.c, h); lemma_shift_pm(q.d, h);
    assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by {
        assert(compl_at(q, t));
        lemma_auto_shift(q.a, h, t); lemma_auto_shift(q.b, h, t); lemma_auto_shift(q.c, h, t); lemma_auto_shift(q.d, h, t);
    }
}

/// shifting an even number of sequences by n/2 keeps quaternion type
pub proof fn lemma_half_qts(q: QV, h: int, wa: bool, wb: bool, wc: bool, wd: bool)
    requires wfv(q), q.n > 0, 2 * h == q.n, (wa == wb) == (wc == wd),
    ensures wfv(hshift(q, h, wa, wb, wc, wd)), is_qts(q) ==> is_qts(hshift(q, h, wa, wb, wc, wd)),
{
    let p = hshift(q, h, wa, wb, wc, wd);
    lemma_shift_pm(q.a, h); lemma_shift_pm(q.b, h); lemma_shift_pm(q.c, h); lemma_shift_pm(q.d, h);
    if is_qts(q) {
        lemma_half_compl(q, h, wa, wb, wc, wd);
        assert forall|t: int| 0 <= t < p.n implies #[trigger] qcross_at(p, t) by {
            lemma_mod_range(t, q.n); lemma_mod_range(t + h, q.n);
            assert(qcross_at(q, t % q.n)); assert(qcross_at(q, (t + h) % q.n));
            lemma_cross_half(q.a, q.b, h, wa, wb, t); lemma_cross_half(q.b, q.a, h, wb, wa, t);
            lemma_cross_half(q.a, q.c, h, wa, wc, t); lemma_cross_half(q.c, q.a, h, wc, wa, t);
            lemma_cross_half(q.a, q.d, h, wa, wd, t); lemma_cross_half(q.d, q.a, h, wd, wa, t);
            lemma_cross_half(q.b, q.c, h, wb, wc, t); lemma_cross_half(q.c, q.b, h, wc, wb, t);
            lemma_cross_half(q.b, q.d, h, wb, wd, t); lemma_cross_half(q.d, q.b, h, wd, wb, t);
            lemma_cross_half(q.c, q.d, h, wc, wd, t); lemma_cross_half(q.d, q.c, h, wd, wc, t);
        }
    }
}

/// shifting any of the sequences by n/2 keeps Williamson type and symmetry
pub proof fn lemma_half_valid(q: QV, h: int, wa: bool, wb: bool, wc: bool, wd: bool)
    requires wfv(q), q.n > 0, 2 * h == q.n,
    ensures wfv(hshift(q, h, wa, wb, wc, wd)),
        is_wts(q) ==> is_wts(hshift(q, h, wa, wb, wc, wd)),
        is_ws(q) ==> is_ws(hshift(q, h, wa, wb, wc, wd)),
{
    let p = hshift(q, h, wa, wb, wc, wd);
    lemma_shift_pm(q.a, h); lemma_shift_pm(q.b, h); lemma_shift_pm(q.c, h); lemma_shift_pm(q.d, h);
    if complementary(q) { lemma_half_compl(q, h, wa, wb, wc, wd); }
    if amicable(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] amic_at(p, t) by {
            lemma_mod_range(t, q.n); lemma_mod_range(t + h, q.n);
            assert(amic_at(q, t % q.n)); assert(amic_at(q, (t + h) % q.n));
            lemma_cross_half(q.a, q.b, h, wa, wb, t); lemma_cross_half(q.b, q.a, h, wb, wa, t);
            lemma_cross_half(q.a, q.c, h, wa, wc, t); lemma_cross_half(q.c, q.a, h, wc, wa, t);
            lemma_cross_half(q.a, q.d, h, wa, wd, t); lemma_cross_half(q.d, q.a, h, wd, wa, t);
            lemma_cross_half(q.b, q.c, h, wb, wc, t); lemma_cross_half(q.c, q.b, h, wc, wb, t);
            lemma_cross_half(q.b, q.d, h, wb, wd, t); lemma_cross_half(q.d, q.b, h, wd, wb, t);
            lemma_cross_half(q.c, q.d, h, wc, wd, t); lemma_cross_half(q.d, q.c, h, wd, wc, t);
        }
    }
    if symmetric(q) {
        lemma_sym_half(q.a, h); lemma_sym_half(q.b, h); lemma_sym_half(q.c, h); lemma_sym_half(q.d, h);
    }
}

pub proof fn lemma_sym_half(s: Seq<i8>, h: int)
    requires sym1(s), s.len() > 0, 2 * h == s.len(),
    ensures sym1(shift(s, h)),
{
    let n = s.len() as int;
    assert forall|t: int| 1 <= t < n implies #[trigger] shift(s, h)[t] == shift(s, h)[n - t] by {
        // s[(t+h)%n] against s[(n-t+h)%n]
        if t < h {
            lemma_mod_range(t + h, n);
            lemma_mod_cong(n - t + h, h - t, 1, n); lemma_mod_range(h - t, n);
            assert(s[t + h] == s[n - (t + h)]);
        } else if t == h {
        } else {
            lemma_mod_cong(t + h, t - h, 1, n); lemma_mod_range(t - h, n);
            lemma_mod_range(n - t + h, n);
            assert(s[t - h] == s[n - (t - h)]);
        }
    }
}

// ---------- alternating negation (n even) ----------
pub open spec fn sg(t: int) -> int { if t % 2 == 0 { 1 } else { -1 } }

pub proof fn lemma_alt_pm(s: Seq<i8>)
    requires pm(s),
    ensures pm(altn(s)), altn(s).len() == s.len(),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] altn(s)[i] == 1 || altn(s)[i] == -1 by { assert(s[i] == 1 || s[i] == -1); }
}

pub proof fn lemma_parity_mod(x: int, n: int)
    requires n > 0, n % 2 == 0,
    ensures (x % n) % 2 == x % 2,
{
    lemma_mod_decomp(x, n);
    let h = n / 2;
    assert((x / n) * n == 2 * ((x / n) * h)) by (nonlinear_arith) requires n == 2 * h;
}

pub proof fn lemma_auto_alt(s: Seq<i8>, t: int)
    requires pm(s), s.len() % 2 == 0, s.len() > 0,
    ensures t % 2 == 0 ==> auto(altn(s), t) == auto(s, t), t % 2 != 0 ==> auto(altn(s), t) == -auto(s, t),
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] auto_f(altn(s), t)(i) == (if t % 2 == 0 { auto_f(s, t)(i) } else { -auto_f(s, t)(i) }) by {
        let j = (i + t) % n;
        lemma_mod_range(i + t, n);
        lemma_parity_mod(i + t, n);
        assert(s[i] == 1 || s[i] == -1);
        assert(s[j] == 1 || s[j] == -1);
        assert(altn(s)[i] == (if i % 2 == 1 { -s[i] } else { s[i] as int }));
        assert(altn(s)[j] == (if j % 2 == 1 { -s[j] } else { s[j] as int }));
        lemma_negmul(s[i] as int, s[j] as int);
    }
    if t % 2 == 0 { lemma_sum_ext(auto_f(altn(s), t), auto_f(s, t), n); } else { lemma_sum_neg(auto_f(altn(s), t), auto_f(s, t), n); }
}

pub proof fn lemma_cross_alt(x: Seq<i8>, y: Seq<i8>, t: int)
    requires pm(x), pm(y), x.len() == y.len(), x.len() % 2 == 0, x.len() > 0,
    ensures t % 2 == 0 ==> cross(altn(x), altn(y), t) == cross(x, y, t), t % 2 != 0 ==> cross(altn(x), altn(y), t) == -cross(x, y, t),
{
    let n = x.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(altn(x), altn(y), t)(i) == (if t % 2 == 0 { cross_f(x, y, t)(i) } else { -cross_f(x, y, t)(i) }) by {
        let j = (i - t) % n;
        lemma_mod_range(i - t, n);
        lemma_parity_mod(i - t, n);
        assert(x[i] == 1 || x[i] == -1);
        assert(y[j] == 1 || y[j] == -1);
        assert(altn(x)[i] == (if i % 2 == 1 { -x[i] } else { x[i] as int }));
        assert(altn(y)[j] == (if j % 2 == 1 { -y[j] } else { y[j] as int }));
        lemma_negmul(x[i] as int, y[j] as int);
    }
    if t % 2 == 0 { lemma_sum_ext(cross_f(altn(x), altn(y), t), cross_f(x, y, t), n); } else { lemma_sum_neg(cross_f(altn(x), altn(y), t), cross_f(x, y, t), n); }
}

pub proof fn lemma_alt_valid(q: QV)
    requires wfv(q), q.n > 0, q.n % 2 == 0,
    ensures wfv(altq(q)), is_qts(q) ==> is_qts(altq(q)), is_wts(q) ==> is_wts(altq(q)), is_ws(q) ==> is_ws(altq(q)),
{
    let p = altq(q);
    lemma_alt_pm(q.a); lemma_alt_pm(q.b); lemma_alt_pm(q.c); lemma_alt_pm(q.d);
    if complementary(q) {
        assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by {
            assert(compl_at(q, t));
            lemma_auto_alt(q.a, t); lemma_auto_alt(q.b, t); lemma_auto_alt(q.c, t); lemma_auto_alt(q.d, t);
        }
    }
    assert forall|x: Seq<i8>, y: Seq<i8>, t: int| pm(x) && pm(y) && x.len() == y.len() && x.len() == q.n implies
        (#[trigger] cross(altn(x), altn(y), t) == (if t % 2 == 0 { cross(x, y, t) } else { -cross(x, y, t) })) by { lemma_cross_alt(x, y, t); }
    if amicable(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] amic_at(p, t) by { assert(amic_at(q, t)); }
    }
    if qcross(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] qcross_at(p, t) by { assert(qcross_at(q, t)); }
    }
    if symmetric(q) {
        lemma_sym_alt(q.a); lemma_sym_alt(q.b); lemma_sym_alt(q.c); lemma_sym_alt(q.d);
    }
}
pub proof fn lemma_sym_alt(s: Seq<i8>)
    requires sym1(s), s.len() % 2 == 0,
    ensures sym1(altn(s)),
{
    assert forall|t: int| 1 <= t < s.len() implies #[trigger] altn(s)[t] == altn(s)[s.len() - t] by { assert(s[t] == s[s.len() - t]); }
}

// ---------- automorphisms i -> k i ----------
pub proof fn lemma_perm_pm(s: Seq<i8>, k: int)
    requires pm(s),
    ensures pm(perm(s, k)), perm(s, k).len() == s.len(),
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] perm(s, k)[i] == 1 || perm(s, k)[i] == -1 by {
        lemma_mod_range(i * k, n);
        assert(s[(i * k) % n] == 1 || s[(i * k) % n] == -1);
    }
}

pub proof fn lemma_auto_perm(s: Seq<i8>, k: int, ki: int, t: int)
    requires s.len() > 0, (k * ki) % (s.len() as int) == 1int % (s.len() as int),
    ensures auto(perm(s, k), t) == auto(s, (t * k) % (s.len() as int)),
{
    let n = s.len() as int;
    let t2 = (t * k) % n;
    let f = auto_f(s, t2);
    let g = |i: int| f((i * k) % n);
    assert forall|i: int| 0 <= i < n implies #[trigger] auto_f(perm(s, k), t)(i) == g(i) by {
        lemma_mod_range(i + t, n);
        lemma_mod_range(i * k, n);
        lemma_mod_mul_l(i + t, k, n);
        lemma_mod_add_l(i * k, t2, n);
        lemma_mod_add_l(t * k, i * k, n);
        assert((i + t) * k == i * k + t * k) by (nonlinear_arith);
    }
    lemma_sum_ext(auto_f(perm(s, k), t), g, n);
    lemma_sum_mul(f, k, ki, n);
}

pub proof fn lemma_cross_perm(x: Seq<i8>, y: Seq<i8>, k: int, ki: int, t: int)
    requires x.len() > 0, x.len() == y.len(), (k * ki) % (x.len() as int) == 1int % (x.len() as int),
    ensures cross(perm(x, k), perm(y, k), t) == cross(x, y, (t * k) % (x.len() as int)),
{
    let n = x.len() as int;
    let t2 = (t * k) % n;
    let f = cross_f(x, y, t2);
    let g = |i: int| f((i * k) % n);
    assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(perm(x, k), perm(y, k), t)(i) == g(i) by {
        lemma_mod_range(i - t, n);
        lemma_mod_range(i * k, n);
        lemma_mod_mul_l(i - t, k, n);
        lemma_mod_add_l(i * k, -t2, n);
        lemma_mod_sub_r(i * k, t * k, n);
        assert((i - t) * k == i * k - t * k) by (nonlinear_arith);
    }
    lemma_sum_ext(cross_f(perm(x, k), perm(y, k), t), g, n);
    lemma_sum_mul(f, k, ki, n);
}

/// t -> k t permutes the non-zero residues
pub proof fn lemma_unit_nonzero(t: int, k: int, ki: int, n: int)
    requires n > 0, 1 <= t < n, (k * ki) % n == 1int % n,
    ensures 1 <= (t * k) % n < n,
{
    lemma_mod_range(t * k, n);
    if (t * k) % n == 0 {
        lemma_mod_mul_l(t * k, ki, n);
        assert((t * k) * ki == (k * ki) * t) by (nonlinear_arith);
        lemma_mod_mul_l(k * ki, t, n);
        lemma_mod_mul_l(1, t, n);
        lemma_mod_range(t, n);
        assert(0 * ki == 0);
        lemma_mod_range(0, n);
    }
}


pub proof fn lemma_perm_valid(q: QV, k: int)
    requires wfv(q), q.n > 0, unit_mod(k, q.n),
    ensures wfv(permq(q, k)), is_qts(q) ==> is_qts(permq(q, k)), is_wts(q) ==> is_wts(permq(q, k)), is_ws(q) ==> is_ws(permq(q, k)),
{
    let n = q.n;
    let ki = choose|ki: int| #[trigger] (k * ki) % n == 1int % n;
    let p = permq(q, k);
    lemma_perm_pm(q.a, k); lemma_perm_pm(q.b, k); lemma_perm_pm(q.c, k); lemma_perm_pm(q.d, k);
    if complementary(q) {
        assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by {
            lemma_unit_nonzero(t, k, ki, n);
            assert(compl_at(q, (t * k) % n));
            lemma_auto_perm(q.a, k, ki, t); lemma_auto_perm(q.b, k, ki, t); lemma_auto_perm(q.c, k, ki, t); lemma_auto_perm(q.d, k, ki, t);
        }
    }
    assert forall|x: Seq<i8>, y: Seq<i8>, t: int| x.len() == n && y.len() == n implies
        #[trigger] cross(perm(x, k), perm(y, k), t) == cross(x, y, (t * k) % n) by { lemma_cross_perm(x, y, k, ki, t); }
    if amicable(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] amic_at(p, t) by { lemma_mod_range(t * k, n); assert(amic_at(q, (t * k) % n)); }
    }
    if qcross(q) {
        assert forall|t: int| 0 <= t < p.n implies #[trigger] qcross_at(p, t) by { lemma_mod_range(t * k, n); assert(qcross_at(q, (t * k) % n)); }
    }
    if symmetric(q) {
        lemma_sym_perm(q.a, k, ki); lemma_sym_perm(q.b, k, ki); lemma_sym_perm(q.c, k, ki); lemma_sym_perm(q.d, k, ki);
    }
}
pub proof fn lemma_sym_perm(s: Seq<i8>, k: int, ki: int)
    requires sym1(s), s.len() > 0, (k * ki) % (s.len() as int) == 1int % (s.len() as int),
    ensures sym1(perm(s, k)),
{
    let n = s.len() as int;
    assert forall|t: int| 1 <= t < n implies #[trigger] perm(s, k)[t] == perm(s, k)[n - t] by {
        lemma_unit_nonzero(t, k, ki, n);
        let j = (t * k) % n;
        // (n-t)k = -tk = n - j  (mod n)
        assert((n - t) * k == -(t * k) + k * n) by (nonlinear_arith);
        lemma_mod_cong((n - t) * k, -(t * k), k, n);
        lemma_mod_sub_r(0, t * k, n);
        lemma_mod_cong(0 - j, n - j, -1, n);
        lemma_mod_range(n - j, n);
        assert(s[j] == s[n - j]);
    }
}

// ---------- reversal ----------
pub proof fn lemma_rev_valid(q: QV)
    requires wfv(q), q.n > 0,
    ensures wfv(revq(q)), is_qts(q) ==> is_qts(revq(q)), is_wts(q) ==> is_wts(revq(q)),
{
    // rev(s)[i] = s[n-1-i] = perm(shift(s,n-1),-1)[i]
    let n = q.n;
    assert forall|s: Seq<i8>| s.len() == n implies #[trigger] rev(s) =~= perm(shift(s, n - 1), -1) by {
        assert forall|i: int| 0 <= i < n implies rev(s)[i] == perm(shift(s, n - 1), -1)[i] by {
            assert(i * -1 == -i);
            lemma_mod_range(-i, n);
            lemma_mod_add_l(-i, n - 1, n);
            lemma_mod_range(n - 1 - i, n);
        }
    }
    lemma_shift_valid(q, n - 1);
    assert((-1) * (-1) == 1int);
    assert(((-1) * (-1int)) % n == 1int % n);
    lemma_perm_valid(shiftq(q, n - 1), -1);
    assert(revq(q) == permq(shiftq(q, n - 1), -1));
}
