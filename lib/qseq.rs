// ===== lib/qseq.rs: sequences over the 24 units and their autocorrelation =====
/// the largest length for which f32 sums are exact
pub open spec fn hcomp(h: H, c: int) -> int { if c == 0 { h.s } else if c == 1 { h.x } else if c == 2 { h.y } else { h.z } }
pub open spec fn hsum(f: spec_fn(int) -> H, n: int) -> H {
    H { s: sum(|i: int| f(i).s, n), x: sum(|i: int| f(i).x, n), y: sum(|i: int| f(i).y, n), z: sum(|i: int| f(i).z, n) }
}
pub proof fn lemma_hsum0(f: spec_fn(int) -> H)
    ensures hsum(f, 0) == h0(),
{ }
pub proof fn lemma_hsum_step(f: spec_fn(int) -> H, n: int)
    requires n >= 0,
    ensures hsum(f, n + 1) == hadd(hsum(f, n), f(n)),
{ }
pub proof fn lemma_hsum_ext(f: spec_fn(int) -> H, g: spec_fn(int) -> H, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures hsum(f, n) == hsum(g, n),
{
    lemma_sum_ext(|i: int| f(i).s, |i: int| g(i).s, n);
    lemma_sum_ext(|i: int| f(i).x, |i: int| g(i).x, n);
    lemma_sum_ext(|i: int| f(i).y, |i: int| g(i).y, n);
    lemma_sum_ext(|i: int| f(i).z, |i: int| g(i).z, n);
}
pub proof fn lemma_hsum_conj(f: spec_fn(int) -> H, g: spec_fn(int) -> H, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == hconj(g(i)),
    ensures hsum(f, n) == hconj(hsum(g, n)),
{
    lemma_sum_ext(|i: int| f(i).s, |i: int| g(i).s, n);
    lemma_sum_neg(|i: int| f(i).x, |i: int| g(i).x, n);
    lemma_sum_neg(|i: int| f(i).y, |i: int| g(i).y, n);
    lemma_sum_neg(|i: int| f(i).z, |i: int| g(i).z, n);
}
pub proof fn lemma_hsum_bound(f: spec_fn(int) -> H, n: int, b: int)
    requires n >= 0, b >= 0, forall|i: int| 0 <= i < n ==> hbd(#[trigger] f(i), b),
    ensures hbd(hsum(f, n), n * b),
{
    lemma_sum_bound(|i: int| f(i).s, n, b);
    lemma_sum_bound(|i: int| f(i).x, n, b);
    lemma_sum_bound(|i: int| f(i).y, n, b);
    lemma_sum_bound(|i: int| f(i).z, n, b);
    assert(-b * n == -(n * b) && b * n == n * b) by(nonlinear_arith);
}
pub open spec fn hbd(h: H, b: int) -> bool { -b <= h.s <= b && -b <= h.x <= b && -b <= h.y <= b && -b <= h.z <= b }
pub proof fn lemma_hsum_shift(f: spec_fn(int) -> H, s: int, n: int)
    requires n > 0,
    ensures hsum(|i: int| f((i + s) % n), n) == hsum(f, n),
{
    let (fs, fx, fy, fz) = (|i: int| f(i).s, |i: int| f(i).x, |i: int| f(i).y, |i: int| f(i).z);
    lemma_sum_shift(fs, s, n); lemma_sum_shift(fx, s, n); lemma_sum_shift(fy, s, n); lemma_sum_shift(fz, s, n);
    let g = |i: int| f((i + s) % n);
    lemma_sum_ext(|i: int| g(i).s, |i: int| fs((i + s) % n), n);
    lemma_sum_ext(|i: int| g(i).x, |i: int| fx((i + s) % n), n);
    lemma_sum_ext(|i: int| g(i).y, |i: int| fy((i + s) % n), n);
    lemma_sum_ext(|i: int| g(i).z, |i: int| fz((i + s) % n), n);
}

/// all entries are units
pub open spec fn allu(v: Seq<Quaternion>) -> bool { forall|i: int| 0 <= i < v.len() ==> isu(#[trigger] v[i]) }
/// the i-th term of the periodic autocorrelation at t
pub open spec fn qterm(v: Seq<Quaternion>, t: int) -> spec_fn(int) -> H {
    |i: int| hmul(hv(v[i]), hconj(hv(v[(i + t) % (v.len() as int)])))
}
/// the periodic autocorrelation at t (in halves): sum over i of v[i] * conj(v[i+t])
pub open spec fn qac(v: Seq<Quaternion>, t: int) -> H { hsum(qterm(v, t), v.len() as int) }
/// a perfect sequence: autocorrelation zero at every nonzero offset
pub open spec fn zero_at(v: Seq<Quaternion>, t: int) -> bool { qac(v, t) == h0() }
pub open spec fn perfect(v: Seq<Quaternion>) -> bool { forall|t: int| 1 <= t < v.len() ==> #[trigger] zero_at(v, t) }

pub proof fn lemma_hmul_conj(a: H, b: H)
    ensures hconj(hraw(a, b)) == hraw(hconj(b), hconj(a)),
{
    reveal(hraw);
    let (p, q, u, s) = (a.s, a.x, a.y, a.z);
    let (e, f, g, h) = (b.s, b.x, b.y, b.z);
    assert(p * e == e * p && q * f == (-f) * (-q) && u * g == (-g) * (-u) && s * h == (-h) * (-s)) by(nonlinear_arith);
    assert(-(p * f) == (-f) * p && -(q * e) == e * (-q) && -(u * h) == -((-h) * (-u)) && s * g == (-g) * (-s)) by(nonlinear_arith);
    assert(-(p * g) == (-g) * p && -(u * e) == e * (-u) && -(s * f) == -((-f) * (-s)) && q * h == (-h) * (-q)) by(nonlinear_arith);
    assert(-(p * h) == (-h) * p && -(s * e) == e * (-s) && -(q * g) == -((-g) * (-q)) && u * f == (-f) * (-u)) by(nonlinear_arith);
}
/// conj(a * conj(b)) = b * conj(a) for units
pub proof fn lemma_term_conj(a: H, b: H)
    requires unit24(a), unit24(b),
    ensures hmul(b, hconj(a)) == hconj(hmul(a, hconj(b))),
{
    lemma_unit_conj(a); lemma_unit_conj(b);
    lemma_hmul_conj(a, hconj(b));
    lemma_unit_mul(a, hconj(b)); lemma_unit_mul(b, hconj(a));
    assert(hconj(hconj(b)) == b);
}
pub proof fn lemma_qterm_unit(v: Seq<Quaternion>, t: int, i: int)
    requires allu(v), 0 <= i < v.len(),
    ensures unit24(qterm(v, t)(i)), hbd(qterm(v, t)(i), 2),
        0 <= (i + t) % (v.len() as int) < v.len(), isu(v[(i + t) % (v.len() as int)]), isu(v[i]),
        unit24(hconj(hv(v[(i + t) % (v.len() as int)]))),
{
    let n = v.len() as int;
    lemma_mod_range(i + t, n);
    lemma_unit_conj(hv(v[(i + t) % n]));
    lemma_unit_mul(hv(v[i]), hconj(hv(v[(i + t) % n])));
    lemma_unit_small(qterm(v, t)(i));
}
/// R(n - t) = conj(R(t))
pub proof fn lemma_qac_conj(v: Seq<Quaternion>, t: int)
    requires allu(v), v.len() > 0,
    ensures qac(v, v.len() - t) == hconj(qac(v, t)),
{
    let n = v.len() as int;
    let f = qterm(v, n - t);
    let g = |i: int| f((i + t) % n);
    lemma_hsum_shift(f, t, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == hconj(qterm(v, t)(i)) by {
        lemma_qterm_unit(v, t, i);
        lemma_mod_add_l(i + t, n - t, n);
        lemma_mod_add_multiple(i, 1, n);
        lemma_mod_range(i, n);
        assert(((i + t) % n + (n - t)) % n == i);
        lemma_term_conj(hv(v[i]), hv(v[(i + t) % n]));
    }
    lemma_hsum_conj(g, qterm(v, t), n);
}
/// checking the offsets 1 ..= (n+1)/2 is enough
pub proof fn lemma_half_enough(v: Seq<Quaternion>)
    requires allu(v), forall|t: int| 1 <= t <= v.len() / 2 ==> #[trigger] zero_at(v, t),
    ensures perfect(v),
{
    let n = v.len() as int;
    assert forall|t: int| 1 <= t < n implies #[trigger] zero_at(v, t) by {
        if t > n / 2 {
            lemma_qac_conj(v, n - t);
            assert(zero_at(v, n - t));
            assert(n - (n - t) == t);
        }
    }
}
pub open spec fn wfqs(q: QS) -> bool { q.values@.len() == q.size && q.size <= maxq() && allu(q.values@) }

/// one step of the autocorrelation loop
pub proof fn lemma_qac_step(v: Seq<Quaternion>, t: int, i: int, acc: Quaternion)
    requires allu(v), v.len() <= maxq(), 0 <= i < v.len(), flat(acc), hv(acc) == hsum(qterm(v, t), i), hbd(hv(acc), 2 * i),
    ensures ({
        let n = v.len() as int;
        let a = v[i]; let b = v[(i + t) % n];
        let c = hq(hconj(hv(b)));
        let p = hq(hmul(hv(a), hv(c)));
        let r = hq(hadd(hv(acc), hv(p)));
        &&& isu(a) && okq(b) && isu(c) && okq(acc) && okq(p) && okq(r)
        &&& hv(r) == hsum(qterm(v, t), i + 1) && hbd(hv(r), 2 * (i + 1)) && flat(r) && 0 <= (i + t) % n < n
    }),
{
    let n = v.len() as int;
    lemma_qterm_unit(v, t, i);
    lemma_hsum_step(qterm(v, t), i);
    lemma_unit_small(hv(v[(i + t) % n]));
    let c = hq(hconj(hv(v[(i + t) % n])));
    lemma_hq(c);
}
