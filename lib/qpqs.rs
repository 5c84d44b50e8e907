// ===== lib/qpqs.rs: quadruples of signs and units =====
pub open spec fn pm1(a: i8) -> bool { a == 1 || a == -1 }
/// the unit of a sign quadruple: (-1+i+j+k)/2 * (a+bi+cj+dk)/2, in halves
pub open spec fn qv(a: i8, b: i8, c: i8, d: i8) -> H {
    H { s: (-a - b - c - d) / 2, x: (a - b - c + d) / 2, y: (a + b - c - d) / 2, z: (a - b + c - d) / 2 }
}
pub open spec fn pm4(a: i8, b: i8, c: i8, d: i8) -> bool { pm1(a) && pm1(b) && pm1(c) && pm1(d) }
pub proof fn lemma_qv_inj(a: i8, b: i8, c: i8, d: i8, a2: i8, b2: i8, c2: i8, d2: i8)
    requires pm4(a, b, c, d), pm4(a2, b2, c2, d2), qv(a, b, c, d) == qv(a2, b2, c2, d2),
    ensures a == a2, b == b2, c == c2, d == d2,
{
    let h = qv(a, b, c, d);
    assert(2 * h.s == -a - b - c - d && 2 * h.x == a - b - c + d && 2 * h.y == a + b - c - d && 2 * h.z == a - b + c - d);
}
pub proof fn lemma_qv_unit(a: i8, b: i8, c: i8, d: i8)
    requires pm4(a, b, c, d),
    ensures unit24(qv(a, b, c, d)), 0 <= unit_no(qv(a, b, c, d)) < 16, q24h(unit_no(qv(a, b, c, d))) == qv(a, b, c, d),
{ }
/// the table row of a unit
pub open spec fn quad_is(t: (i8, i8, i8, i8), h: H) -> bool { pm4(t.0, t.1, t.2, t.3) && qv(t.0, t.1, t.2, t.3) == h }
pub open spec fn quad_table(v: Seq<(i8, i8, i8, i8)>) -> bool { v.len() == 16 && forall|i: int| 0 <= i < 16 ==> quad_is(#[trigger] v[i], q24h(i)) }
/// entry i of a quaternion sequence is the unit of entry i of the quadruple
pub open spec fn qs_of(q: QV, v: Seq<Quaternion>) -> bool {
    &&& v.len() == q.n
    &&& forall|i: int| 0 <= i < q.n ==> entry_of(q, #[trigger] v[i], i)
}
pub open spec fn entry_of(q: QV, u: Quaternion, i: int) -> bool { flat(u) && hv(u) == qv(q.a[i], q.b[i], q.c[i], q.d[i]) }
/// all entries are among the sixteen units of the table
pub open spec fn allplus(v: Seq<Quaternion>) -> bool { forall|i: int| 0 <= i < v.len() ==> plus(#[trigger] v[i]) }
pub open spec fn plus(q: Quaternion) -> bool { isu(q) && unit_no(hv(q)) < 16 }

/// two quadruples with the same quaternion sequence are equal
pub proof fn lemma_qs_of_inj(p: QV, q: QV, v: Seq<Quaternion>)
    requires wfv(p), wfv(q), qs_of(p, v), qs_of(q, v),
    ensures p == q,
{
    assert forall|i: int| 0 <= i < v.len() implies p.a[i] == q.a[i] && p.b[i] == q.b[i] && p.c[i] == q.c[i] && p.d[i] == q.d[i] by {
        assert(entry_of(p, v[i], i) && entry_of(q, v[i], i));
        lemma_qv_inj(p.a[i], p.b[i], p.c[i], p.d[i], q.a[i], q.b[i], q.c[i], q.d[i]);
    }
    assert(p.a =~= q.a); assert(p.b =~= q.b); assert(p.c =~= q.c); assert(p.d =~= q.d);
}
pub proof fn lemma_qs_of_units(q: QV, v: Seq<Quaternion>)
    requires wfv(q), qs_of(q, v),
    ensures allu(v), allplus(v),
{
    assert forall|i: int| 0 <= i < v.len() implies isu(#[trigger] v[i]) && plus(v[i]) by {
        assert(entry_of(q, v[i], i));
        lemma_qv_unit(q.a[i], q.b[i], q.c[i], q.d[i]);
    }
}

pub open spec fn pp(x: i8, y: i8) -> int { smul(x as int, y as int) }
/// twice the product v * conj(w) of the units of two sign quadruples
pub open spec fn pairh(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8, g: i8, h: i8) -> H {
    H {
        s: pp(a, e) + pp(b, f) + pp(c, g) + pp(d, h),
        x: pp(c, e) - pp(a, g) - pp(d, f) + pp(b, h),
        y: pp(d, e) - pp(a, h) - pp(b, g) + pp(c, f),
        z: pp(b, e) - pp(a, f) - pp(c, h) + pp(d, g),
    }
}
pub open spec fn sgi(p: bool) -> i8 { if p { 1i8 } else { -1i8 } }
/// (exhaustive over the 16 quadruples on the left)
pub proof fn lemma_pair_leaf(p: bool, q: bool, r: bool, s: bool, e: i8, f: i8, g: i8, h: i8, w: H)
    requires 2 * w.s == -e - f - g - h, 2 * w.x == e - f - g + h, 2 * w.y == e + f - g - h, 2 * w.z == e - f + g - h,
    ensures hraws(qv(sgi(p), sgi(q), sgi(r), sgi(s)), hconj(w)) == pairh(sgi(p), sgi(q), sgi(r), sgi(s), e, f, g, h),
{
    if p { if q { lemma_pair_leaf2(true, true, r, s, e, f, g, h, w); } else { lemma_pair_leaf2(true, false, r, s, e, f, g, h, w); } }
    else { if q { lemma_pair_leaf2(false, true, r, s, e, f, g, h, w); } else { lemma_pair_leaf2(false, false, r, s, e, f, g, h, w); } }
}
pub proof fn lemma_pair_leaf2(p: bool, q: bool, r: bool, s: bool, e: i8, f: i8, g: i8, h: i8, w: H)
    requires 2 * w.s == -e - f - g - h, 2 * w.x == e - f - g + h, 2 * w.y == e + f - g - h, 2 * w.z == e - f + g - h,
    ensures hraws(qv(sgi(p), sgi(q), sgi(r), sgi(s)), hconj(w)) == pairh(sgi(p), sgi(q), sgi(r), sgi(s), e, f, g, h),
{
    if r { if s { lemma_pair_leaf3(p, q, true, true, e, f, g, h, w); } else { lemma_pair_leaf3(p, q, true, false, e, f, g, h, w); } }
    else { if s { lemma_pair_leaf3(p, q, false, true, e, f, g, h, w); } else { lemma_pair_leaf3(p, q, false, false, e, f, g, h, w); } }
}
pub proof fn lemma_pair_leaf3(p: bool, q: bool, r: bool, s: bool, e: i8, f: i8, g: i8, h: i8, w: H)
    requires 2 * w.s == -e - f - g - h, 2 * w.x == e - f - g + h, 2 * w.y == e + f - g - h, 2 * w.z == e - f + g - h,
    ensures hraws(qv(sgi(p), sgi(q), sgi(r), sgi(s)), hconj(w)) == pairh(sgi(p), sgi(q), sgi(r), sgi(s), e, f, g, h),
{
    let u = qv(sgi(p), sgi(q), sgi(r), sgi(s));
    let c = hconj(w);
    let l = hraws(u, c);
    let m = pairh(sgi(p), sgi(q), sgi(r), sgi(s), e, f, g, h);
    if p { if q { if r { if s { } else { } } else { if s { } else { } } } else { if r { if s { } else { } } else { if s { } else { } } } }
    else { if q { if r { if s { } else { } } else { if s { } else { } } } else { if r { if s { } else { } } else { if s { } else { } } } }
}
pub proof fn lemma_pair(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8, g: i8, h: i8)
    requires pm4(a, b, c, d), pm4(e, f, g, h),
    ensures hraw(qv(a, b, c, d), hconj(qv(e, f, g, h))) == pairh(a, b, c, d, e, f, g, h),
        unit24(qv(a, b, c, d)), unit24(hconj(qv(e, f, g, h))),
{
    lemma_qv_unit(a, b, c, d); lemma_qv_unit(e, f, g, h); lemma_unit_conj(qv(e, f, g, h));
    lemma_hraws(qv(a, b, c, d), hconj(qv(e, f, g, h)));
    let w = qv(e, f, g, h);
    assert(2 * w.s == -e - f - g - h && 2 * w.x == e - f - g + h && 2 * w.y == e + f - g - h && 2 * w.z == e - f + g - h);
    lemma_pair_leaf(a == 1, b == 1, c == 1, d == 1, e, f, g, h, qv(e, f, g, h));
}
// ---------- the autocorrelation of the unit sequence in terms of the correlations of the four sign sequences ----------
/// Hat(i) = x[i] * y[(i+t) % n]
pub open spec fn sh_f(x: Seq<i8>, y: Seq<i8>, t: int) -> spec_fn(int) -> int { |i: int| x[i] * y[(i + t) % (y.len() as int)] }
/// sum of x[i] y[i+t] is cross(y, x, t)
pub proof fn lemma_sh_cross(x: Seq<i8>, y: Seq<i8>, t: int)
    requires x.len() == y.len(), x.len() > 0,
    ensures sum(sh_f(x, y, t), x.len() as int) == cross(y, x, t),
{
    let n = x.len() as int;
    let f = cross_f(y, x, t);
    lemma_sum_shift(f, t, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] sh_f(x, y, t)(i) == (|i: int| f((i + t) % n))(i) by {
        lemma_mod_range(i + t, n);
        lemma_mod_add_l(i + t, -t, n);
        lemma_mod_range(i, n);
        assert(((i + t) % n - t) % n == i);
        let u = y[(i + t) % n];
        let w = x[i];
        assert(w * u == u * w) by(nonlinear_arith);
    }
    lemma_sum_ext(sh_f(x, y, t), |i: int| f((i + t) % n), n);
}
pub open spec fn lin4(f: spec_fn(int) -> int, g: spec_fn(int) -> int, h: spec_fn(int) -> int, k: spec_fn(int) -> int, a: int, b: int, c: int, d: int) -> spec_fn(int) -> int
{ |i: int| a * f(i) + b * g(i) + c * h(i) + d * k(i) }
pub proof fn lemma_lin4(w: spec_fn(int) -> int, f: spec_fn(int) -> int, g: spec_fn(int) -> int, h: spec_fn(int) -> int, k: spec_fn(int) -> int, b: int, c: int, d: int, n: int)
    requires n >= 0, b == 1 || b == -1, c == 1 || c == -1, d == 1 || d == -1,
        forall|i: int| 0 <= i < n ==> 2 * #[trigger] w(i) == f(i) + smul(b, g(i)) + smul(c, h(i)) + smul(d, k(i)),
    ensures 2 * sum(w, n) == sum(f, n) + smul(b, sum(g, n)) + smul(c, sum(h, n)) + smul(d, sum(k, n)),
    decreases n,
{
    if n > 0 { lemma_lin4(w, f, g, h, k, b, c, d, n - 1); assert(2 * w(n - 1) == f(n - 1) + smul(b, g(n - 1)) + smul(c, h(n - 1)) + smul(d, k(n - 1))); }
}
pub proof fn lemma_pp(x: i8, y: i8)
    requires pm1(x),
    ensures pp(x, y) == x * y,
{ lemma_smul(x as int, y as int); }
/// twice a term of the autocorrelation
pub proof fn lemma_qterm_pair(q: QV, v: Seq<Quaternion>, t: int, i: int)
    requires wfv(q), qs_of(q, v), 0 <= i < q.n,
    ensures ({
        let n = q.n; let j = (i + t) % n;
        let h = qterm(v, t)(i);
        let p = pairh(q.a[i], q.b[i], q.c[i], q.d[i], q.a[j], q.b[j], q.c[j], q.d[j]);
        0 <= j < n && p == hadd(h, h)
    }),
{
    let n = q.n; let j = (i + t) % n;
    lemma_mod_range(i + t, n);
    assert(entry_of(q, v[i], i) && entry_of(q, v[j], j));
    lemma_pair(q.a[i], q.b[i], q.c[i], q.d[i], q.a[j], q.b[j], q.c[j], q.d[j]);
    lemma_unit_mul(hv(v[i]), hconj(hv(v[j])));
}
/// twice the autocorrelation at t
pub proof fn lemma_qac_parts(q: QV, v: Seq<Quaternion>, t: int)
    requires wfv(q), qs_of(q, v), q.n > 0,
    ensures
        2 * qac(v, t).s == auto(q.a, t) + auto(q.b, t) + auto(q.c, t) + auto(q.d, t),
        2 * qac(v, t).x == xd(q.a, q.c, t) - xd(q.b, q.d, t),
        2 * qac(v, t).y == xd(q.a, q.d, t) - xd(q.c, q.b, t),
        2 * qac(v, t).z == xd(q.a, q.b, t) - xd(q.d, q.c, t),
{
    let n = q.n;
    let (a, b, c, d) = (q.a, q.b, q.c, q.d);
    let w = qterm(v, t);
    assert forall|i: int| 0 <= i < n implies ({
        let j = (i + t) % n;
        &&& 2 * (#[trigger] w(i)).s == a[i] * a[j] + b[i] * b[j] + c[i] * c[j] + d[i] * d[j]
        &&& 2 * w(i).x == c[i] * a[j] - a[i] * c[j] - d[i] * b[j] + b[i] * d[j]
        &&& 2 * w(i).y == d[i] * a[j] - a[i] * d[j] - b[i] * c[j] + c[i] * b[j]
        &&& 2 * w(i).z == b[i] * a[j] - a[i] * b[j] - c[i] * d[j] + d[i] * c[j]
    }) by {
        let j = (i + t) % n;
        lemma_qterm_pair(q, v, t, i);
        lemma_pp(a[i], a[j]); lemma_pp(b[i], b[j]); lemma_pp(c[i], c[j]); lemma_pp(d[i], d[j]);
        lemma_pp(c[i], a[j]); lemma_pp(a[i], c[j]); lemma_pp(d[i], b[j]); lemma_pp(b[i], d[j]);
        lemma_pp(d[i], a[j]); lemma_pp(a[i], d[j]); lemma_pp(b[i], c[j]); lemma_pp(c[i], b[j]);
        lemma_pp(b[i], a[j]); lemma_pp(a[i], b[j]); lemma_pp(c[i], d[j]); lemma_pp(d[i], c[j]);
    }
    lemma_lin4(|i: int| w(i).s, auto_f(a, t), auto_f(b, t), auto_f(c, t), auto_f(d, t), 1, 1, 1, n);
    lemma_sh_cross(c, a, t); lemma_sh_cross(a, c, t); lemma_sh_cross(d, b, t); lemma_sh_cross(b, d, t);
    lemma_lin4(|i: int| w(i).x, sh_f(c, a, t), sh_f(a, c, t), sh_f(d, b, t), sh_f(b, d, t), -1, -1, 1, n);
    lemma_sh_cross(d, a, t); lemma_sh_cross(a, d, t); lemma_sh_cross(b, c, t); lemma_sh_cross(c, b, t);
    lemma_lin4(|i: int| w(i).y, sh_f(d, a, t), sh_f(a, d, t), sh_f(b, c, t), sh_f(c, b, t), -1, -1, 1, n);
    lemma_sh_cross(b, a, t); lemma_sh_cross(a, b, t); lemma_sh_cross(d, c, t);
    lemma_sh_cross(c, d, t);
    lemma_lin4(|i: int| w(i).z, sh_f(b, a, t), sh_f(a, b, t), sh_f(c, d, t), sh_f(d, c, t), -1, -1, 1, n);
}
/// C03: the quaternion sequence is perfect exactly if the quadruple is Quaternion-type
pub proof fn lemma_perfect_iff_qts(q: QV, v: Seq<Quaternion>)
    requires wfv(q), qs_of(q, v), q.n > 0,
    ensures perfect(v) <==> is_qts(q),
{
    let n = q.n;
    assert(v.len() == n);
    lemma_cross0(q.a, q.b); lemma_cross0(q.a, q.c); lemma_cross0(q.a, q.d); lemma_cross0(q.c, q.d); lemma_cross0(q.b, q.d); lemma_cross0(q.b, q.c);
    assert(qcross_at(q, 0));
    if perfect(v) {
        assert forall|t: int| 1 <= t < n implies #[trigger] compl_at(q, t) by { assert(zero_at(v, t)); lemma_qac_parts(q, v, t); }
        assert forall|t: int| 0 <= t < n implies #[trigger] qcross_at(q, t) by { if t > 0 { assert(zero_at(v, t)); lemma_qac_parts(q, v, t); } }
    }
    if is_qts(q) {
        assert forall|t: int| 1 <= t < n implies #[trigger] zero_at(v, t) by { assert(compl_at(q, t) && qcross_at(q, t)); lemma_qac_parts(q, v, t); }
    }
}
