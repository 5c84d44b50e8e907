// ===== lib/qhm.rs: quaternionic matrices =====
pub open spec fn qent(m: QHM, i: int, j: int) -> Quaternion { m.matrix@[i]@[j] }
pub open spec fn wfqm(m: QHM) -> bool { m.size <= maxq() && m.matrix@.len() == m.size && forall|i: int| 0 <= i < m.size ==> (#[trigger] m.matrix@[i])@.len() == m.size }
pub open spec fn unitm(m: QHM) -> bool { forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> isu(#[trigger] qent(m, i, j)) }
/// the term of the inner product of rows a and b (in halves)
pub open spec fn inner_f(m: QHM, a: int, b: int) -> spec_fn(int) -> H { |k: int| hmul(hv(qent(m, a, k)), hconj(hv(qent(m, b, k)))) }
pub open spec fn inner(m: QHM, a: int, b: int) -> H { hsum(inner_f(m, a, b), m.size as int) }
pub open spec fn inner_ok(m: QHM, a: int, b: int) -> bool { inner(m, a, b) == (if a == b { hh(2 * m.size, 0, 0, 0) } else { h0() }) }
/// M M* = n I
pub open spec fn is_qhm(m: QHM) -> bool { forall|a: int, b: int| 0 <= a < m.size && 0 <= b < m.size ==> #[trigger] inner_ok(m, a, b) }
/// row r is the sequence shifted right by r
pub open spec fn is_qcirc(m: QHM, v: Seq<Quaternion>) -> bool {
    wfqm(m) && m.size == v.len() && forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==> #[trigger] qent(m, i, j) == v[(j - i) % (v.len() as int)]
}
/// one step of the inner product loop
pub proof fn lemma_inner_step(m: QHM, a: int, b: int, k: int, acc: Quaternion)
    requires wfqm(m), unitm(m), 0 <= a < m.size, 0 <= b < m.size, 0 <= k < m.size, flat(acc), hv(acc) == hsum(inner_f(m, a, b), k), hbd(hv(acc), 2 * k),
    ensures ({
        let x = qent(m, a, k); let y = qent(m, b, k);
        let c = hq(hconj(hv(y)));
        let p = hq(hmul(hv(x), hv(c)));
        let r = hq(hadd(hv(acc), hv(p)));
        &&& isu(x) && okq(y) && isu(c) && okq(acc) && okq(p) && okq(r)
        &&& hv(r) == hsum(inner_f(m, a, b), k + 1) && hbd(hv(r), 2 * (k + 1)) && flat(r)
    }),
{
    let x = qent(m, a, k); let y = qent(m, b, k);
    assert(isu(x) && isu(y));
    lemma_unit_conj(hv(y));
    lemma_unit_mul(hv(x), hconj(hv(y)));
    lemma_unit_small(hmul(hv(x), hconj(hv(y))));
    lemma_unit_small(hv(y));
    lemma_hsum_step(inner_f(m, a, b), k);
    lemma_hq(hq(hconj(hv(y))));
}
/// the inner product of two rows of a circulant matrix is an autocorrelation
pub proof fn lemma_circ_inner(m: QHM, v: Seq<Quaternion>, a: int, b: int)
    requires is_qcirc(m, v), 0 <= a < v.len(), 0 <= b < v.len(),
    ensures inner(m, a, b) == qac(v, a - b),
{
    let n = v.len() as int;
    let f = inner_f(m, a, b);
    lemma_hsum_shift(f, a, n);
    let g = |i: int| f((i + a) % n);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == qterm(v, a - b)(i) by {
        let k = (i + a) % n;
        lemma_mod_range(i + a, n);
        lemma_mod_add_l(i + a, -a, n); lemma_mod_range(i, n);
        lemma_mod_add_l(i + a, -b, n);
        assert(qent(m, a, k) == v[(k - a) % n] && qent(m, b, k) == v[(k - b) % n]);
        assert((k - a) % n == i && (k - b) % n == (i + (a - b)) % n);
    }
    lemma_hsum_ext(g, qterm(v, a - b), n);
}
pub proof fn lemma_hsum_const(f: spec_fn(int) -> H, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == h1(),
    ensures hsum(f, n) == hh(2 * n, 0, 0, 0),
    decreases n,
{
    if n > 0 { lemma_hsum_const(f, n - 1); lemma_hsum_step(f, n - 1); }
}
/// C13: the circulant matrix is quaternionic Hadamard exactly if the sequence is perfect
pub proof fn lemma_qhm_iff_perfect(m: QHM, v: Seq<Quaternion>)
    requires is_qcirc(m, v), allu(v),
    ensures is_qhm(m) <==> perfect(v),
{
    let n = v.len() as int;
    if is_qhm(m) {
        assert forall|t: int| 1 <= t < n implies #[trigger] zero_at(v, t) by { assert(inner_ok(m, t, 0)); lemma_circ_inner(m, v, t, 0); }
    }
    if perfect(v) {
        assert forall|a: int, b: int| 0 <= a < m.size && 0 <= b < m.size implies #[trigger] inner_ok(m, a, b) by {
            lemma_circ_inner(m, v, a, b);
            if a > b { assert(zero_at(v, a - b)); }
            else if a == b {
                assert forall|i: int| 0 <= i < n implies #[trigger] qterm(v, 0)(i) == h1() by { lemma_mod_range(i, n); assert(isu(v[i])); lemma_unit_one(hv(v[i])); }
                lemma_hsum_const(qterm(v, 0), n);
            } else {
                lemma_qac_conj(v, b - a);
                assert(zero_at(v, b - a));
                lemma_hsum_per(v, a - b);
            }
        }
    }
}
/// the autocorrelation has period n
pub proof fn lemma_hsum_per(v: Seq<Quaternion>, t: int)
    requires v.len() > 0,
    ensures qac(v, t) == qac(v, t + v.len()),
{
    let n = v.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] qterm(v, t)(i) == qterm(v, t + n)(i) by {
        lemma_mod_add_multiple(i + t, 1, n);
        assert(i + t + 1 * n == i + (t + n));
    }
    lemma_hsum_ext(qterm(v, t), qterm(v, t + n), n);
}
/// entries after dephasing the columns, and after dephasing the rows of that
pub open spec fn dc(m: QHM, i: int, j: int) -> Quaternion { hq(hmul(hv(qent(m, i, j)), hconj(hv(qent(m, 0, j))))) }
pub open spec fn dr(m: QHM, i: int, j: int) -> Quaternion { hq(hmul(hconj(hv(dc(m, i, 0))), hv(dc(m, i, j)))) }
pub open spec fn is_dephased_q(m: QHM, r: QHM) -> bool {
    &&& wfqm(r) && r.size == m.size
    &&& forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] qent(r, i, j) == dr(m, i, j)
    &&& forall|i: int| 0 <= i < m.size ==> #[trigger] qent(r, i, 0) == hq(h1())
    &&& forall|j: int| 0 <= j < m.size ==> #[trigger] qent(r, 0, j) == hq(h1())
    &&& unitm(r)
}
pub proof fn lemma_dc(m: QHM, i: int, j: int)
    requires unitm(m), 0 <= i < m.size, 0 <= j < m.size,
    ensures isu(qent(m, i, j)), isu(qent(m, 0, j)), okq(qent(m, 0, j)), isu(hq(hconj(hv(qent(m, 0, j))))), isu(dc(m, i, j)), dc(m, i, j) == hq(hmul(hv(qent(m, i, j)), hv(hq(hconj(hv(qent(m, 0, j))))))),
        i == 0 ==> dc(m, i, j) == hq(h1()),
{
    let x = qent(m, i, j); let y = qent(m, 0, j);
    assert(isu(x) && isu(y));
    lemma_unit_conj(hv(y)); lemma_unit_small(hv(y)); lemma_unit_mul(hv(x), hconj(hv(y)));
    if i == 0 { lemma_unit_one(hv(x)); }
}
pub proof fn lemma_dr(m: QHM, i: int, j: int)
    requires unitm(m), 0 <= i < m.size, 0 <= j < m.size,
    ensures isu(dc(m, i, 0)), isu(dc(m, i, j)), okq(dc(m, i, 0)), isu(hq(hconj(hv(dc(m, i, 0))))), isu(dr(m, i, j)), dr(m, i, j) == hq(hmul(hv(hq(hconj(hv(dc(m, i, 0))))), hv(dc(m, i, j)))),
        i == 0 ==> dr(m, i, j) == hq(h1()), j == 0 ==> dr(m, i, j) == hq(h1()),
{
    lemma_dc(m, i, 0); lemma_dc(m, i, j);
    let x = dc(m, i, 0); let y = dc(m, i, j);
    lemma_unit_conj(hv(x)); lemma_unit_small(hv(x)); lemma_unit_mul(hconj(hv(x)), hv(y));
    if i == 0 || j == 0 { lemma_unit_one(hv(x)); }
}
pub proof fn lemma_dephased(m: QHM, r: QHM)
    requires wfqm(m), unitm(m), wfqm(r), r.size == m.size, forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] qent(r, i, j) == dr(m, i, j),
    ensures is_dephased_q(m, r),
{
    assert forall|i: int| 0 <= i < m.size implies #[trigger] qent(r, i, 0) == hq(h1()) by { lemma_dr(m, i, 0); }
    assert forall|j: int| 0 <= j < m.size implies #[trigger] qent(r, 0, j) == hq(h1()) by { lemma_dr(m, 0, j); }
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size implies isu(#[trigger] qent(r, i, j)) by { lemma_dr(m, i, j); }
}
/// two entries outside the first row and column that do not commute
pub open spec fn commutes(a: Quaternion, b: Quaternion) -> bool { hmul(hv(a), hv(b)) == hmul(hv(b), hv(a)) }
pub open spec fn has_noncommuting(m: QHM) -> bool {
    exists|i: int, j: int, k: int, l: int| 1 <= i < m.size && 1 <= j < m.size && 1 <= k < m.size && 1 <= l < m.size && !commutes(#[trigger] qent(m, i, j), #[trigger] qent(m, k, l))
}
/// slice::contains, written as the loop it is
pub fn vx_qcontains(v: &Vec<Quaternion>, x: &Quaternion) -> (r: bool)
    ensures r == v@.contains(*x),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x,
        decreases v@.len() - i,
    {
        if v[i] == *x { return true; }
        i += 1;
    }
    false
}
/// the first k rows of the circulant matrix
pub open spec fn circ_rows(m: Seq<Vec<Quaternion>>, k: int, v: Seq<Quaternion>) -> bool {
    &&& m.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] m[i])@.len() == v.len()
    &&& forall|i: int, j: int| 0 <= i < k && 0 <= j < v.len() ==> #[trigger] m[i]@[j] == v[(j - i) % (v.len() as int)]
}
/// the elements met so far are entries, commute with one another, and include every entry before (i, j)
pub open spec fn is_entry(m: QHM, q: Quaternion, a: int, b: int) -> bool { 1 <= a < m.size && 1 <= b < m.size && q == qent(m, a, b) }
#[verifier::opaque]
pub open spec fn uniq_of(m: QHM, u: Seq<Quaternion>) -> bool { forall|k: int| 0 <= k < u.len() ==> has_ent(m, #[trigger] u[k]) }
pub open spec fn has_ent(m: QHM, q: Quaternion) -> bool { exists|a: int, b: int| is_entry(m, q, a, b) }
#[verifier::opaque]
pub open spec fn uniq_commute(u: Seq<Quaternion>) -> bool { forall|k: int, l: int| 0 <= k < u.len() && 0 <= l < u.len() ==> commutes(#[trigger] u[k], #[trigger] u[l]) }
#[verifier::opaque]
pub open spec fn uniq_all(m: QHM, u: Seq<Quaternion>, i: int, j: int) -> bool {
    forall|a: int, b: int| 1 <= a < m.size && 1 <= b < m.size && (a < i || (a == i && b < j)) ==> u.contains(#[trigger] qent(m, a, b))
}
pub proof fn lemma_uniq_start(m: QHM)
    ensures uniq_of(m, Seq::empty()), uniq_commute(Seq::empty()), forall|i: int, j: int| i <= 1 && j <= 1 ==> #[trigger] uniq_all(m, Seq::empty(), i, j),
        m.size <= 1 ==> (forall|u: Seq<Quaternion>, i: int, j: int| #[trigger] uniq_all(m, u, i, j)),
{ reveal(uniq_of); reveal(uniq_commute); reveal(uniq_all); }
pub proof fn lemma_uniq_entry(m: QHM, u: Seq<Quaternion>, k: int)
    requires unitm(m), uniq_of(m, u), 0 <= k < u.len(),
    ensures isu(u[k]),
{
    reveal(uniq_of);
    assert(has_ent(m, u[k]));
    let (a, b) = choose|a: int, b: int| is_entry(m, u[k], a, b);
    assert(isu(qent(m, a, b)));
}
pub proof fn lemma_noncommuting(m: QHM, u: Seq<Quaternion>, k: int, i: int, j: int)
    requires uniq_of(m, u), 0 <= k < u.len(), 1 <= i < m.size, 1 <= j < m.size, !commutes(qent(m, i, j), u[k]),
    ensures has_noncommuting(m),
{
    reveal(uniq_of);
    assert(has_ent(m, u[k]));
    let (a, b) = choose|a: int, b: int| is_entry(m, u[k], a, b);
    assert(!commutes(qent(m, i, j), qent(m, a, b)));
}
pub proof fn lemma_uniq_step(m: QHM, before: Seq<Quaternion>, u: Seq<Quaternion>, i: int, j: int)
    requires uniq_of(m, before), uniq_commute(before), uniq_all(m, before, i, j), 1 <= i < m.size, 1 <= j < m.size,
        (before.contains(qent(m, i, j)) && u == before) || (u == before.push(qent(m, i, j)) && forall|k: int| 0 <= k < before.len() ==> commutes(qent(m, i, j), #[trigger] before[k])),
    ensures uniq_of(m, u), uniq_commute(u), uniq_all(m, u, i, j + 1),
{
    reveal(uniq_of); reveal(uniq_commute); reveal(uniq_all);
    assert(is_entry(m, qent(m, i, j), i, j));
    let x = qent(m, i, j);
    assert(u.contains(x)) by { if u == before.push(x) { assert(u[before.len() as int] == x); } }
    assert forall|k: int| 0 <= k < u.len() implies has_ent(m, #[trigger] u[k]) by {
        if k < before.len() { assert(u[k] == before[k]); assert(has_ent(m, before[k])); } else { assert(is_entry(m, u[k], i, j)); }
    }
    assert forall|k: int, l: int| 0 <= k < u.len() && 0 <= l < u.len() implies commutes(#[trigger] u[k], #[trigger] u[l]) by {
        if k < before.len() && l < before.len() { assert(commutes(before[k], before[l])); }
    }
    assert forall|a: int, b: int| 1 <= a < m.size && 1 <= b < m.size && (a < i || (a == i && b < j + 1)) implies u.contains(#[trigger] qent(m, a, b)) by {
        if !(a == i && b == j) {
            assert(before.contains(qent(m, a, b)));
            let k = choose|k: int| 0 <= k < before.len() && before[k] == qent(m, a, b);
            assert(u[k] == before[k]);
        }
    }
}
pub proof fn lemma_uniq_row(m: QHM, u: Seq<Quaternion>, i: int)
    requires uniq_all(m, u, i, m.size as int) || (m.size <= 1 && uniq_all(m, u, i, 1)),
    ensures uniq_all(m, u, i + 1, 1),
{ reveal(uniq_all); }
pub proof fn lemma_uniq_end(m: QHM, u: Seq<Quaternion>)
    requires uniq_commute(u), uniq_all(m, u, m.size as int, 1) || m.size <= 1,
    ensures !has_noncommuting(m),
{
    reveal(uniq_commute); reveal(uniq_all);
    assert forall|i: int, j: int, k: int, l: int| 1 <= i < m.size && 1 <= j < m.size && 1 <= k < m.size && 1 <= l < m.size implies commutes(#[trigger] qent(m, i, j), #[trigger] qent(m, k, l)) by {
        assert(u.contains(qent(m, i, j)) && u.contains(qent(m, k, l)));
        let p = choose|p: int| 0 <= p < u.len() && u[p] == qent(m, i, j);
        let q = choose|q: int| 0 <= q < u.len() && u[q] == qent(m, k, l);
        assert(commutes(u[p], u[q]));
    }
}
