// ===== lib/corr.rs: periodic correlations and the three sequence types (definitions from the paper / README) =====
pub open spec fn pm(s: Seq<i8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 1 || s[i] == -1 }

/// A_s(t) = sum_i s[i] s[i+t], indices modulo the length
pub open spec fn auto_f(s: Seq<i8>, t: int) -> spec_fn(int) -> int { |i: int| s[i] * s[(i + t) % (s.len() as int)] }
pub open spec fn auto(s: Seq<i8>, t: int) -> int { sum(auto_f(s, t), s.len() as int) }

/// C_{x,y}(t) = sum_i x[i] y[i-t], indices modulo the length
pub open spec fn cross_f(x: Seq<i8>, y: Seq<i8>, t: int) -> spec_fn(int) -> int { |i: int| x[i] * y[(i - t) % (y.len() as int)] }
pub open spec fn cross(x: Seq<i8>, y: Seq<i8>, t: int) -> int { sum(cross_f(x, y, t), x.len() as int) }

pub open spec fn rowsum_f(s: Seq<i8>) -> spec_fn(int) -> int { |i: int| s[i] as int }
pub open spec fn rowsum_of(s: Seq<i8>) -> int { sum(rowsum_f(s), s.len() as int) }

/// the abstract value of a QuadSeq
pub ghost struct QV { pub n: int, pub a: Seq<i8>, pub b: Seq<i8>, pub c: Seq<i8>, pub d: Seq<i8> }

pub open spec fn wfv(q: QV) -> bool {
    &&& q.n >= 0
    &&& q.a.len() == q.n && q.b.len() == q.n && q.c.len() == q.n && q.d.len() == q.n
    &&& pm(q.a) && pm(q.b) && pm(q.c) && pm(q.d)
}

pub open spec fn compl_at(q: QV, t: int) -> bool { auto(q.a, t) + auto(q.b, t) + auto(q.c, t) + auto(q.d, t) == 0 }
pub open spec fn complementary(q: QV) -> bool { forall|t: int| 1 <= t < q.n ==> #[trigger] compl_at(q, t) }

pub open spec fn amic2(x: Seq<i8>, y: Seq<i8>, t: int) -> bool { cross(x, y, t) == cross(y, x, t) }
pub open spec fn amic_at(q: QV, t: int) -> bool {
    &&& amic2(q.a, q.b, t) && amic2(q.a, q.c, t) && amic2(q.a, q.d, t)
    &&& amic2(q.b, q.c, t) && amic2(q.b, q.d, t) && amic2(q.c, q.d, t)
}
pub open spec fn amicable(q: QV) -> bool { forall|t: int| 0 <= t < q.n ==> #[trigger] amic_at(q, t) }

/// antisymmetric part of the cross correlation
pub open spec fn xd(x: Seq<i8>, y: Seq<i8>, t: int) -> int { cross(x, y, t) - cross(y, x, t) }
pub open spec fn qcross_at(q: QV, t: int) -> bool {
    &&& xd(q.a, q.b, t) == xd(q.d, q.c, t)
    &&& xd(q.a, q.c, t) == xd(q.b, q.d, t)
    &&& xd(q.a, q.d, t) == xd(q.c, q.b, t)
}
pub open spec fn qcross(q: QV) -> bool { forall|t: int| 0 <= t < q.n ==> #[trigger] qcross_at(q, t) }

pub open spec fn sym1(s: Seq<i8>) -> bool { forall|t: int| 1 <= t < s.len() ==> #[trigger] s[t] == s[s.len() - t] }
pub open spec fn sym_at(q: QV, t: int) -> bool {
    &&& q.a[t] == q.a[q.a.len() - t] && q.b[t] == q.b[q.b.len() - t]
    &&& q.c[t] == q.c[q.c.len() - t] && q.d[t] == q.d[q.d.len() - t]
}
pub open spec fn symmetric(q: QV) -> bool { sym1(q.a) && sym1(q.b) && sym1(q.c) && sym1(q.d) }

pub open spec fn is_qts(q: QV) -> bool { complementary(q) && qcross(q) }
pub open spec fn is_wts(q: QV) -> bool { complementary(q) && amicable(q) }
pub open spec fn is_ws(q: QV) -> bool { complementary(q) && symmetric(q) }

// ---------- elementary facts ----------
pub proof fn lemma_auto_f(s: Seq<i8>, t: int, i: int)
    ensures auto_f(s, t)(i) == s[i] * s[(i + t) % (s.len() as int)],
{ }

pub proof fn lemma_pm_mul(x: i8, y: i8)
    requires x == 1 || x == -1, y == 1 || y == -1,
    ensures x * y == 1 || x * y == -1,
{ }

/// cross correlation at offset 0 is symmetric
pub proof fn lemma_cross0(x: Seq<i8>, y: Seq<i8>)
    requires x.len() == y.len(),
    ensures cross(x, y, 0) == cross(y, x, 0),
{
    let n = x.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] cross_f(x, y, 0)(i) == cross_f(y, x, 0)(i) by {
        lemma_mod_range(i, n);
        assert(x[i] * y[i] == y[i] * x[i]) by (nonlinear_arith);
    }
    lemma_sum_ext(cross_f(x, y, 0), cross_f(y, x, 0), n);
}

// ---------- half of the offsets determine all of them ----------
/// C_{x,y}(-t) = C_{y,x}(t)
pub proof fn lemma_cross_swap(x: Seq<i8>, y: Seq<i8>, t: int)
    requires x.len() == y.len(), x.len() >= 1,
    ensures cross(x, y, -t) == cross(y, x, t), cross(x, y, x.len() - t) == cross(y, x, t),
{
    let n = x.len() as int;
    let f = cross_f(y, x, t);
    lemma_sum_shift(f, t, n);
    let g = |i: int| f((i + t) % n);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == cross_f(x, y, -t)(i) && g(i) == cross_f(x, y, n - t)(i) by {
        lemma_mod_range(i + t, n); lemma_mod_add_l(i + t, -t, n); lemma_mod_range(i, n); lemma_mod_cong(i + t, i - (n - t), 1, n);
        let (u, v) = (y[(i + t) % n] as int, x[i] as int);
        assert(u * v == v * u) by(nonlinear_arith);
    }
    lemma_sum_ext(g, cross_f(x, y, -t), n);
    lemma_sum_ext(g, cross_f(x, y, n - t), n);
}
pub proof fn lemma_xd_half(x: Seq<i8>, y: Seq<i8>, t: int)
    requires x.len() == y.len(), x.len() >= 1,
    ensures xd(x, y, x.len() - t) == -xd(x, y, t), xd(y, x, t) == -xd(x, y, t),
{ lemma_cross_swap(x, y, t); lemma_cross_swap(y, x, t); }
pub proof fn lemma_auto_half(x: Seq<i8>, t: int)
    requires x.len() >= 1,
    ensures auto(x, x.len() - t) == auto(x, t),
{
    let n = x.len() as int;
    let f = auto_f(x, n - t);
    lemma_sum_shift(f, t, n);
    let g = |i: int| f((i + t) % n);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == auto_f(x, t)(i) by {
        lemma_mod_range(i + t, n); lemma_mod_add_l(i + t, n - t, n); lemma_mod_range(i, n); lemma_mod_cong(i + t + (n - t), i, 1, n);
        let (u, v) = (x[(i + t) % n] as int, x[i] as int);
        assert(u * v == v * u) by(nonlinear_arith);
    }
    lemma_sum_ext(g, auto_f(x, t), n);
}
pub proof fn lemma_compl_half(q: QV, t: int)
    requires wfv(q), q.n >= 1,
    ensures compl_at(q, q.n - t) == compl_at(q, t),
{ lemma_auto_half(q.a, t); lemma_auto_half(q.b, t); lemma_auto_half(q.c, t); lemma_auto_half(q.d, t); }
pub proof fn lemma_amic_half(q: QV, t: int)
    requires wfv(q), q.n >= 1,
    ensures amic_at(q, q.n - t) == amic_at(q, t),
{
    lemma_xd_half(q.a, q.b, t); lemma_xd_half(q.a, q.c, t); lemma_xd_half(q.a, q.d, t); lemma_xd_half(q.b, q.c, t); lemma_xd_half(q.b, q.d, t); lemma_xd_half(q.c, q.d, t);
}
pub proof fn lemma_qcross_half(q: QV, t: int)
    requires wfv(q), q.n >= 1,
    ensures qcross_at(q, q.n - t) == qcross_at(q, t),
{
    lemma_xd_half(q.a, q.b, t); lemma_xd_half(q.a, q.c, t); lemma_xd_half(q.a, q.d, t); lemma_xd_half(q.b, q.c, t); lemma_xd_half(q.b, q.d, t); lemma_xd_half(q.c, q.d, t);
}
pub proof fn lemma_qcross0(q: QV)
    requires wfv(q),
    ensures qcross_at(q, 0), amic_at(q, 0),
{
    lemma_cross0(q.a, q.b); lemma_cross0(q.a, q.c); lemma_cross0(q.a, q.d); lemma_cross0(q.b, q.c); lemma_cross0(q.b, q.d); lemma_cross0(q.c, q.d);
}
