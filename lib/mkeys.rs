// ===== lib/mkeys.rs: match keys of pairs of sequences: the equations they decide =====
/// the key of (x, y) equals the complementary key of (u, v) exactly if everything cancels at every nonzero offset
pub proof fn lemma_key_match(ka: Seq<isize>, kc: Seq<isize>, la: Seq<isize>, lc: Seq<isize>, x: Seq<i8>, y: Seq<i8>, s: (SequenceTag, SequenceTag), u: Seq<i8>, v: Seq<i8>, r: (SequenceTag, SequenceTag))
    requires
        x.len() >= 1, y.len() == x.len(), u.len() == x.len(), v.len() == x.len(),
        is_auto_key(ka, x, y), is_cross_key(kc, x, y, s), is_auto_ckey(la, u, v), is_cross_ckey(lc, u, v, r),
    ensures (ka == la && kc == lc) <==> (forall|t: int| 1 <= t < x.len() ==> #[trigger] cancel_at(x, y, s, u, v, r, t)),
{
    let n = x.len() as int;
    if ka == la && kc == lc {
        assert forall|t: int| 1 <= t < n implies #[trigger] cancel_at(x, y, s, u, v, r, t) by {
            if t <= n / 2 {
                assert(ka[t - 1] == la[t - 1] && kc[t - 1] == lc[t - 1]);
            } else {
                let o = n - t;
                assert(ka[o - 1] == la[o - 1] && kc[o - 1] == lc[o - 1]);
                lemma_auto_half(x, o); lemma_auto_half(y, o); lemma_auto_half(u, o); lemma_auto_half(v, o);
                lemma_xd_half(x, y, o); lemma_xd_half(y, x, o); lemma_xd_half(u, v, o); lemma_xd_half(v, u, o);
            }
        }
    }
    if forall|t: int| 1 <= t < n ==> #[trigger] cancel_at(x, y, s, u, v, r, t) {
        assert forall|i: int| 0 <= i < ka.len() implies ka[i] == la[i] by { assert(cancel_at(x, y, s, u, v, r, i + 1)); }
        assert forall|i: int| 0 <= i < kc.len() implies kc[i] == lc[i] by { assert(cancel_at(x, y, s, u, v, r, i + 1)); }
        assert(ka =~= la); assert(kc =~= lc);
    }
}
// ---------- the matching equations ----------
/// equation 0 pairs (Z, W) with (X, Y), 1 pairs (Z, X) with (Y, W), 2 pairs (Z, Y) with (W, X)
pub open spec fn meq(q: QV, e: int, t: int) -> bool {
    if e == 0 { xd(q.d, q.a, t) + xd(q.b, q.c, t) == 0 } else if e == 1 { xd(q.d, q.b, t) + xd(q.c, q.a, t) == 0 } else { xd(q.d, q.c, t) + xd(q.a, q.b, t) == 0 }
}
pub open spec fn meqs_at(q: QV, t: int) -> bool { meq(q, 0, t) && meq(q, 1, t) && meq(q, 2, t) }
pub open spec fn meqs(q: QV) -> bool { forall|t: int| 0 <= t < q.n ==> #[trigger] meqs_at(q, t) }
/// the equation of a pairing
pub open spec fn own(t: (SequenceTag, SequenceTag)) -> int {
    if (t.0 == SequenceTag::W && t.1 == SequenceTag::Z) || (t.0 == SequenceTag::Z && t.1 == SequenceTag::W) || (t.0 == SequenceTag::X && t.1 == SequenceTag::Y) || (t.0 == SequenceTag::Y && t.1 == SequenceTag::X) { 0 }
    else if (t.0 == SequenceTag::X && t.1 == SequenceTag::Z) || (t.0 == SequenceTag::Z && t.1 == SequenceTag::X) || (t.0 == SequenceTag::W && t.1 == SequenceTag::Y) || (t.0 == SequenceTag::Y && t.1 == SequenceTag::W) { 1 }
    else { 2 }
}
pub open spec fn rem_at(q: QV, o: int, t: int) -> bool { (o == 0 || meq(q, 0, t)) && (o == 1 || meq(q, 1, t)) && (o == 2 || meq(q, 2, t)) }
pub open spec fn rem_all(q: QV, o: int) -> bool { forall|t: int| 0 <= t < q.n ==> #[trigger] rem_at(q, o, t) }
pub open spec fn four_tags(g: Seq<SequenceTag>) -> bool { g.len() == 4 && g[0] != g[1] && g[0] != g[2] && g[0] != g[3] && g[1] != g[2] && g[1] != g[3] && g[2] != g[3] }
pub open spec fn tagged(s: Seq<Seq<i8>>, g: Seq<SequenceTag>, t: SequenceTag) -> Seq<i8> {
    if g[0] == t { s[0] } else if g[1] == t { s[1] } else if g[2] == t { s[2] } else { s[3] }
}
#[verifier::opaque]
pub open spec fn tagi(g: Seq<SequenceTag>, t: SequenceTag) -> int { if g[0] == t { 0 } else if g[1] == t { 1 } else if g[2] == t { 2 } else { 3 } }
pub open spec fn tagq(s: Seq<Seq<i8>>, g: Seq<SequenceTag>) -> QV {
    QV { n: s[0].len() as int, a: tagged(s, g, SequenceTag::W), b: tagged(s, g, SequenceTag::X), c: tagged(s, g, SequenceTag::Y), d: tagged(s, g, SequenceTag::Z) }
}
pub proof fn lemma_rem_half(q: QV, o: int, t: int)
    requires wfv(q), q.n >= 1,
    ensures rem_at(q, o, q.n - t) == rem_at(q, o, t),
{
    lemma_xd_half(q.d, q.a, t); lemma_xd_half(q.b, q.c, t); lemma_xd_half(q.d, q.b, t); lemma_xd_half(q.c, q.a, t); lemma_xd_half(q.d, q.c, t); lemma_xd_half(q.a, q.b, t);
}
pub proof fn lemma_rem0(q: QV, o: int)
    requires wfv(q),
    ensures rem_at(q, o, 0),
{ lemma_cross0(q.d, q.a); lemma_cross0(q.b, q.c); lemma_cross0(q.d, q.b); lemma_cross0(q.c, q.a); lemma_cross0(q.d, q.c); lemma_cross0(q.a, q.b); }
/// keys that match and a passed remaining test: exactly the Quaternion-type quadruples
pub proof fn lemma_match_qts(ka: Seq<isize>, kc: Seq<isize>, la: Seq<isize>, lc: Seq<isize>, s: Seq<Seq<i8>>, g: Seq<SequenceTag>)
    requires
        four_tags(g), s.len() == 4, s[0].len() >= 1, s[1].len() == s[0].len(), s[2].len() == s[0].len(), s[3].len() == s[0].len(),
        pm(s[0]), pm(s[1]), pm(s[2]), pm(s[3]),
        is_auto_key(ka, s[0], s[1]), is_cross_key(kc, s[0], s[1], (g[0], g[1])), is_auto_ckey(la, s[2], s[3]), is_cross_ckey(lc, s[2], s[3], (g[2], g[3])),
    ensures (ka == la && kc == lc && rem_all(tagq(s, g), own((g[0], g[1])))) <==> is_qts(tagq(s, g)),
{
    let q = tagq(s, g);
    let (p, r) = ((g[0], g[1]), (g[2], g[3]));
    let n = q.n;
    lemma_key_match(ka, kc, la, lc, s[0], s[1], p, s[2], s[3], r);
    assert forall|t: int| 0 <= t < n implies (#[trigger] cancel_at(s[0], s[1], p, s[2], s[3], r, t) <==> compl_at(q, t) && meq(q, own(p), t)) by {
        lemma_xd_half(q.a, q.b, t); lemma_xd_half(q.a, q.c, t); lemma_xd_half(q.a, q.d, t); lemma_xd_half(q.b, q.c, t); lemma_xd_half(q.b, q.d, t); lemma_xd_half(q.c, q.d, t);
    }
    lemma_cross0(q.a, q.b); lemma_cross0(q.a, q.c); lemma_cross0(q.a, q.d); lemma_cross0(q.b, q.c); lemma_cross0(q.b, q.d); lemma_cross0(q.c, q.d);
    assert(meqs_at(q, 0));
    if ka == la && kc == lc && rem_all(q, own(p)) {
        assert forall|t: int| 1 <= t < n implies #[trigger] compl_at(q, t) by { assert(cancel_at(s[0], s[1], p, s[2], s[3], r, t)); }
        assert forall|t: int| 0 <= t < n implies #[trigger] meqs_at(q, t) by { if t > 0 { assert(cancel_at(s[0], s[1], p, s[2], s[3], r, t)); assert(rem_at(q, own(p), t)); } }
        lemma_meqs_qts(q);
    }
    if is_qts(q) {
        lemma_qts_meqs(q);
        assert forall|t: int| 1 <= t < n implies #[trigger] cancel_at(s[0], s[1], p, s[2], s[3], r, t) by { assert(compl_at(q, t)); assert(meqs_at(q, t)); }
        assert forall|t: int| 0 <= t < n implies #[trigger] rem_at(q, own(p), t) by { assert(meqs_at(q, t)); }
    }
}
// ---------- the equations of QuadSeq and those of the matching are equivalent ----------
// The first say that the columns of the matrix of blocks are orthogonal, the second that its rows are.
pub type Mat = spec_fn(int, int) -> int;
pub open spec fn bcirc(s: Seq<i8>, i: int, j: int) -> int { s[(j - i) % (s.len() as int)] as int }
#[verifier::opaque]
pub open spec fn ablk(a: Mat, r: int, c: int, s: Seq<i8>, g: int) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] a(r + i, c + j) == g * bcirc(s, i, j)
}
pub open spec fn bsel(q: QV, r: int, c: int) -> (Seq<i8>, int) {
    if r == 0 { if c == 0 { (q.a, 1) } else if c == 1 { (q.b, 1) } else if c == 2 { (q.c, 1) } else { (q.d, 1) } }
    else if r == 1 { if c == 0 { (q.b, 1) } else if c == 1 { (q.a, -1) } else if c == 2 { (q.d, -1) } else { (q.c, 1) } }
    else if r == 2 { if c == 0 { (q.c, 1) } else if c == 1 { (q.d, 1) } else if c == 2 { (q.a, -1) } else { (q.b, -1) } }
    else { if c == 0 { (q.d, 1) } else if c == 1 { (q.c, -1) } else if c == 2 { (q.b, 1) } else { (q.a, -1) } }
}
pub open spec fn bidx(i: int, n: int) -> int { if i < n { 0 } else if i < 2 * n { 1 } else if i < 3 * n { 2 } else { 3 } }
pub open spec fn bmat(q: QV) -> Mat {
    |i: int, j: int| {
        let (r, c) = (bidx(i, q.n), bidx(j, q.n));
        let (s, g) = bsel(q, r, c);
        g * bcirc(s, i - r * q.n, j - c * q.n)
    }
}
pub proof fn lemma_bidx(b: int, i: int, n: int)
    requires 0 <= b < 4, 0 <= i < n,
    ensures bidx(b * n + i, n) == b,
{ if b == 0 { assert(0 * n == 0); } else if b == 1 { assert(1 * n == n); } else if b == 2 { assert(2 * n == n + n) by(nonlinear_arith); } else { assert(3 * n == n + n + n) by(nonlinear_arith); } }
pub proof fn lemma_bidx_in(x: int, n: int)
    requires 0 <= x < 4 * n,
    ensures 0 <= x - bidx(x, n) * n < n, 0 <= bidx(x, n) < 4,
{ assert(0 * n == 0 && 1 * n == n && 2 * n == n + n && 3 * n == n + n + n) by(nonlinear_arith); }
pub proof fn lemma_ablk(q: QV, r: int, c: int)
    requires wfv(q), 0 <= r < 4, 0 <= c < 4,
    ensures ablk(bmat(q), r * q.n, c * q.n, bsel(q, r, c).0, bsel(q, r, c).1),
{
    reveal(ablk);
    let n = q.n;
    let (s, g) = bsel(q, r, c);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] bmat(q)(r * n + i, c * n + j) == g * bcirc(s, i, j) by {
        lemma_bidx(r, i, n); lemma_bidx(c, j, n);
    }
}
/// columns k and l of two circulant matrices
pub open spec fn cc_f(s: Seq<i8>, t: Seq<i8>, k: int, l: int) -> spec_fn(int) -> int { |i: int| bcirc(s, i, k) * bcirc(t, i, l) }
pub proof fn lemma_cc(s: Seq<i8>, t: Seq<i8>, k: int, l: int)
    requires s.len() == t.len(), s.len() >= 1,
    ensures sum(cc_f(s, t, k, l), s.len() as int) == cross(s, t, (k - l) % (s.len() as int)),
{
    let n = s.len() as int;
    let o = (k - l) % n;
    let f = cross_f(s, t, o);
    let pi = |i: int| (k - i) % n;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] pi(i) < n && pi(pi(i)) == i by {
        lemma_mod_range(k - i, n); lemma_mod_sub_r(k, k - i, n); lemma_mod_range(i, n);
    }
    lemma_sum_perm(f, pi, pi, n);
    let g = |i: int| f(pi(i));
    assert forall|i: int| 0 <= i < n implies #[trigger] cc_f(s, t, k, l)(i) == g(i) by {
        lemma_mod_range(k - i, n);
        lemma_mod_add_l(k - i, -o, n);
        lemma_mod_sub_r(k - i, k - l, n);
        assert((k - i) - (k - l) == l - i);
    }
    lemma_sum_ext(cc_f(s, t, k, l), g, n);
}
/// rows i and k of two circulant matrices
pub open spec fn rr_f(s: Seq<i8>, t: Seq<i8>, i: int, k: int) -> spec_fn(int) -> int { |j: int| bcirc(s, i, j) * bcirc(t, k, j) }
pub proof fn lemma_rr(s: Seq<i8>, t: Seq<i8>, k: int)
    requires s.len() == t.len(), s.len() >= 1,
    ensures sum(rr_f(s, t, 0, k), s.len() as int) == cross(s, t, k),
{
    let n = s.len() as int;
    assert forall|j: int| 0 <= j < n implies #[trigger] rr_f(s, t, 0, k)(j) == cross_f(s, t, k)(j) by { lemma_mod_range(j, n); }
    lemma_sum_ext(rr_f(s, t, 0, k), cross_f(s, t, k), n);
}
/// the sum over four blocks
pub proof fn lemma_four(f: spec_fn(int) -> int, f0: spec_fn(int) -> int, f1: spec_fn(int) -> int, f2: spec_fn(int) -> int, f3: spec_fn(int) -> int, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f0(i) == f(i), forall|i: int| 0 <= i < n ==> #[trigger] f1(i) == f(n + i),
        forall|i: int| 0 <= i < n ==> #[trigger] f2(i) == f(2 * n + i), forall|i: int| 0 <= i < n ==> #[trigger] f3(i) == f(3 * n + i),
    ensures sum(f, 4 * n) == sum(f0, n) + sum(f1, n) + sum(f2, n) + sum(f3, n),
{
    lemma_sum_split(f, n, 3 * n);
    let g1 = |i: int| f(n + i);
    lemma_sum_split(g1, n, 2 * n);
    let g2 = |i: int| g1(n + i);
    lemma_sum_split(g2, n, n);
    let g3 = |i: int| g2(n + i);
    lemma_sum_ext(f, f0, n); lemma_sum_ext(g1, f1, n); lemma_sum_ext(g2, f2, n); lemma_sum_ext(g3, f3, n);
}
pub open spec fn sgc(q: QV, r: int, c: int, d: int, t: int) -> int { bsel(q, r, c).1 * bsel(q, r, d).1 * cross(bsel(q, r, c).0, bsel(q, r, d).0, t) }
pub proof fn lemma_col_part(q: QV, r: int, c: int, d: int, k: int, l: int, f: spec_fn(int) -> int)
    requires wfv(q), q.n >= 1, 0 <= r < 4, 0 <= c < 4, 0 <= d < 4, 0 <= k < q.n, 0 <= l < q.n,
        forall|i: int| 0 <= i < q.n ==> #[trigger] f(i) == bmat(q)(r * q.n + i, c * q.n + k) * bmat(q)(r * q.n + i, d * q.n + l),
    ensures sum(f, q.n) == sgc(q, r, c, d, (k - l) % q.n),
{
    let n = q.n;
    let ((s, g), (t, h)) = (bsel(q, r, c), bsel(q, r, d));
    lemma_ablk(q, r, c); lemma_ablk(q, r, d);
    reveal(ablk);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g * h * cc_f(s, t, k, l)(i) by {
        let (x, y) = (bcirc(s, i, k), bcirc(t, i, l));
        assert(g * x * (h * y) == g * h * (x * y)) by(nonlinear_arith);
    }
    lemma_sum_scale(cc_f(s, t, k, l), f, g * h, n);
    lemma_cc(s, t, k, l);
}
pub proof fn lemma_col_dot(q: QV, c: int, d: int, k: int, l: int)
    requires wfv(q), q.n >= 1, 0 <= c < 4, 0 <= d < 4, 0 <= k < q.n, 0 <= l < q.n,
    ensures cdot(bmat(q), 4 * q.n, c * q.n + k, d * q.n + l) == sgc(q, 0, c, d, (k - l) % q.n) + sgc(q, 1, c, d, (k - l) % q.n) + sgc(q, 2, c, d, (k - l) % q.n) + sgc(q, 3, c, d, (k - l) % q.n),
{
    let n = q.n;
    let a = bmat(q);
    let f = |i: int| a(i, c * n + k) * a(i, d * n + l);
    let f0 = |i: int| f(0 * n + i);
    let f1 = |i: int| f(1 * n + i);
    let f2 = |i: int| f(2 * n + i);
    let f3 = |i: int| f(3 * n + i);
    assert(0 * n == 0 && 1 * n == n);
    lemma_four(f, f0, f1, f2, f3, n);
    lemma_col_part(q, 0, c, d, k, l, f0); lemma_col_part(q, 1, c, d, k, l, f1); lemma_col_part(q, 2, c, d, k, l, f2); lemma_col_part(q, 3, c, d, k, l, f3);
}
pub open spec fn sgr(q: QV, r: int, c: int, t: int) -> int { bsel(q, 0, c).1 * bsel(q, r, c).1 * cross(bsel(q, 0, c).0, bsel(q, r, c).0, t) }
pub proof fn lemma_row_part(q: QV, r: int, c: int, k: int, f: spec_fn(int) -> int)
    requires wfv(q), q.n >= 1, 0 <= r < 4, 0 <= c < 4, 0 <= k < q.n,
        forall|j: int| 0 <= j < q.n ==> #[trigger] f(j) == bmat(q)(0, c * q.n + j) * bmat(q)(r * q.n + k, c * q.n + j),
    ensures sum(f, q.n) == sgr(q, r, c, k),
{
    let n = q.n;
    let ((s, g), (t, h)) = (bsel(q, 0, c), bsel(q, r, c));
    lemma_ablk(q, 0, c); lemma_ablk(q, r, c);
    reveal(ablk);
    assert(0 * n == 0);
    assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == g * h * rr_f(s, t, 0, k)(j) by {
        let (x, y) = (bcirc(s, 0, j), bcirc(t, k, j));
        assert(bmat(q)(0 * n + 0, c * n + j) == g * x);
        assert(bmat(q)(r * n + k, c * n + j) == h * y);
        assert(g * x * (h * y) == g * h * (x * y)) by(nonlinear_arith);
    }
    lemma_sum_scale(rr_f(s, t, 0, k), f, g * h, n);
    lemma_rr(s, t, k);
}
pub proof fn lemma_row_dot(q: QV, r: int, k: int)
    requires wfv(q), q.n >= 1, 0 <= r < 4, 0 <= k < q.n,
    ensures rdot(bmat(q), 4 * q.n, 0, r * q.n + k) == sgr(q, r, 0, k) + sgr(q, r, 1, k) + sgr(q, r, 2, k) + sgr(q, r, 3, k),
{
    let n = q.n;
    let a = bmat(q);
    let f = |j: int| a(0, j) * a(r * n + k, j);
    let f0 = |j: int| f(0 * n + j);
    let f1 = |j: int| f(1 * n + j);
    let f2 = |j: int| f(2 * n + j);
    let f3 = |j: int| f(3 * n + j);
    assert(0 * n == 0 && 1 * n == n);
    lemma_four(f, f0, f1, f2, f3, n);
    lemma_row_part(q, r, 0, k, f0); lemma_row_part(q, r, 1, k, f1); lemma_row_part(q, r, 2, k, f2); lemma_row_part(q, r, 3, k, f3);
}
pub proof fn lemma_bmat_pm(q: QV)
    requires wfv(q), q.n >= 1,
    ensures pm2(bmat(q), 4 * q.n),
{
    let n = q.n;
    assert forall|i: int, j: int| 0 <= i < 4 * n && 0 <= j < 4 * n implies is1(#[trigger] bmat(q)(i, j)) by {
        let (r, c) = (bidx(i, n), bidx(j, n));
        lemma_mod_range((j - c * n) - (i - r * n), n);
        let (s, g) = bsel(q, r, c);
        let x = bcirc(s, i - r * n, j - c * n);
        assert(is1(x)); assert(is1(g));
        assert(1 * x == x && -1 * x == -x) by(nonlinear_arith);
    }
}
pub proof fn lemma_bcols_orth(q: QV, x: int, y: int)
    requires wfv(q), is_qts(q), q.n >= 1, 0 <= x < 4 * q.n, 0 <= y < 4 * q.n, x != y,
    ensures cdot(bmat(q), 4 * q.n, x, y) == 0,
{
    let n = q.n;
    let (c, d) = (bidx(x, n), bidx(y, n));
    let (k, l) = (x - c * n, y - d * n);
    let t = (k - l) % n;
    assert(0 <= k < n) by { lemma_bidx_in(x, n); }
    assert(0 <= l < n) by { lemma_bidx_in(y, n); }
    lemma_mod_range(k - l, n);
    assert(qcross_at(q, t));
    if c == d { lemma_mod_ne(k, l, n); assert(compl_at(q, t)); }
    lemma_auto_is_cross(q.a, t); lemma_auto_is_cross(q.b, t); lemma_auto_is_cross(q.c, t); lemma_auto_is_cross(q.d, t);
    lemma_col_dot(q, c, d, k, l);
    lemma_sgc(q, 0, c, d, t); lemma_sgc(q, 1, c, d, t); lemma_sgc(q, 2, c, d, t); lemma_sgc(q, 3, c, d, t);
}
pub proof fn lemma_sgc(q: QV, r: int, c: int, d: int, t: int)
    requires 0 <= r < 4, 0 <= c < 4, 0 <= d < 4,
    ensures sgc(q, r, c, d, t) == if bsel(q, r, c).1 == bsel(q, r, d).1 { cross(bsel(q, r, c).0, bsel(q, r, d).0, t) } else { -cross(bsel(q, r, c).0, bsel(q, r, d).0, t) },
{
    let z = cross(bsel(q, r, c).0, bsel(q, r, d).0, t);
    assert(1 * 1 * z == z && -1 * 1 * z == -z && 1 * -1 * z == -z && -1 * -1 * z == z) by(nonlinear_arith);
}
pub proof fn lemma_mod_ne(k: int, l: int, n: int)
    requires n >= 1, 0 <= k < n, 0 <= l < n, k != l,
    ensures (k - l) % n != 0,
{
    if k > l { lemma_mod_range(k - l, n); } else { lemma_mod_unique(k - l, k - l + n, -1, n); }
}
pub proof fn lemma_sgr(q: QV, r: int, c: int, t: int)
    requires 0 <= r < 4, 0 <= c < 4,
    ensures sgr(q, r, c, t) == if bsel(q, 0, c).1 == bsel(q, r, c).1 { cross(bsel(q, 0, c).0, bsel(q, r, c).0, t) } else { -cross(bsel(q, 0, c).0, bsel(q, r, c).0, t) },
{
    let z = cross(bsel(q, 0, c).0, bsel(q, r, c).0, t);
    assert(1 * 1 * z == z && -1 * 1 * z == -z && 1 * -1 * z == -z && -1 * -1 * z == z) by(nonlinear_arith);
}
/// Quaternion-type quadruples satisfy the matching equations
pub proof fn lemma_qts_meqs(q: QV)
    requires wfv(q), is_qts(q), q.n >= 1,
    ensures meqs(q),
{
    let n = q.n;
    let a = bmat(q);
    lemma_bmat_pm(q);
    assert forall|x: int, y: int| 0 <= x < 4 * n && 0 <= y < 4 * n && x != y implies #[trigger] cdot(a, 4 * n, x, y) == 0 by { lemma_bcols_orth(q, x, y); }
    assert forall|t: int| 0 <= t < n implies #[trigger] meqs_at(q, t) by {
        assert forall|r: int| 1 <= r < 4 implies #[trigger] sgr(q, r, 0, t) + sgr(q, r, 1, t) + sgr(q, r, 2, t) + sgr(q, r, 3, t) == 0 by {
            lemma_bidx(r, t, n);
            lemma_row_dot(q, r, t);
            lemma_transpose_orth(a, 4 * n, 0, r * n + t);
        }
        lemma_eqs_of_rows(q, 1, t); lemma_eqs_of_rows(q, 2, t); lemma_eqs_of_rows(q, 3, t);
        assert(sgr(q, 1, 0, t) + sgr(q, 1, 1, t) + sgr(q, 1, 2, t) + sgr(q, 1, 3, t) == 0);
        assert(sgr(q, 2, 0, t) + sgr(q, 2, 1, t) + sgr(q, 2, 2, t) + sgr(q, 2, 3, t) == 0);
        assert(sgr(q, 3, 0, t) + sgr(q, 3, 1, t) + sgr(q, 3, 2, t) + sgr(q, 3, 3, t) == 0);
    }
}
pub proof fn lemma_eqs_of_rows(q: QV, r: int, t: int)
    requires 1 <= r < 4,
    ensures
        r == 1 ==> sgr(q, r, 0, t) + sgr(q, r, 1, t) + sgr(q, r, 2, t) + sgr(q, r, 3, t) == xd(q.a, q.b, t) + xd(q.d, q.c, t),
        r == 2 ==> sgr(q, r, 0, t) + sgr(q, r, 1, t) + sgr(q, r, 2, t) + sgr(q, r, 3, t) == xd(q.a, q.c, t) + xd(q.b, q.d, t),
        r == 3 ==> sgr(q, r, 0, t) + sgr(q, r, 1, t) + sgr(q, r, 2, t) + sgr(q, r, 3, t) == xd(q.a, q.d, t) + xd(q.c, q.b, t),
{ lemma_sgr(q, r, 0, t); lemma_sgr(q, r, 1, t); lemma_sgr(q, r, 2, t); lemma_sgr(q, r, 3, t); }
/// complementary quadruples satisfying the matching equations are Quaternion-type
pub proof fn lemma_meqs_qts(q: QV)
    requires wfv(q), complementary(q), meqs(q), q.n >= 1,
    ensures is_qts(q),
{
    let p = QV { n: q.n, a: q.a, b: q.c, c: q.b, d: q.d };
    assert forall|t: int| 1 <= t < p.n implies #[trigger] compl_at(p, t) by { assert(compl_at(q, t)); }
    assert forall|t: int| 0 <= t < p.n implies #[trigger] qcross_at(p, t) by { assert(meqs_at(q, t)); }
    lemma_qts_meqs(p);
    assert forall|t: int| 0 <= t < q.n implies #[trigger] qcross_at(q, t) by { assert(meqs_at(p, t)); }
}
pub proof fn lemma_tagi(s: Seq<&Vec<i8>>, g: Seq<SequenceTag>)
    requires four_tags(g), s.len() == 4,
    ensures tagok(g, SequenceTag::W), tagok(g, SequenceTag::X), tagok(g, SequenceTag::Y), tagok(g, SequenceTag::Z),
        vq(s, g).a == s[tagi(g, SequenceTag::W)]@, vq(s, g).b == s[tagi(g, SequenceTag::X)]@, vq(s, g).c == s[tagi(g, SequenceTag::Y)]@, vq(s, g).d == s[tagi(g, SequenceTag::Z)]@,
{ reveal(tagi); reveal(vq); reveal(tagok); }
#[verifier::opaque]
pub open spec fn tagok(g: Seq<SequenceTag>, t: SequenceTag) -> bool { 0 <= tagi(g, t) < 4 && g[tagi(g, t)] == t && forall|j: int| 0 <= j < 4 && #[trigger] g[j] == t ==> j == tagi(g, t) }
pub proof fn lemma_vq(s: Seq<&Vec<i8>>, g: Seq<SequenceTag>)
    requires four_tags(g), s.len() == 4, pm(s[0]@), pm(s[1]@), pm(s[2]@), pm(s[3]@), s[0]@.len() <= maxn(), s[1]@.len() == s[0]@.len(), s[2]@.len() == s[0]@.len(), s[3]@.len() == s[0]@.len(),
    ensures wfv(vq(s, g)), vq(s, g).n == s[0]@.len(),
{ reveal(vq); }
#[verifier::opaque]
pub open spec fn vq(s: Seq<&Vec<i8>>, g: Seq<SequenceTag>) -> QV { tagq(seq![s[0]@, s[1]@, s[2]@, s[3]@], g) }
pub open spec fn vo(g: Seq<SequenceTag>) -> int { own((g[0], g[1])) }
