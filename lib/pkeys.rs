// ===== lib/pkeys.rs: the keys of pairs of sequences, for matching by power spectral densities: rounded values =====
pub open spec fn option_is(m: MatchOption) -> bool { m is PSD }
/// clearly nearer to one integer than to any other
pub open spec fn clearly(v: real, k: int) -> bool { -0.499999real <= (k as real) - v <= 0.499999real }
pub open spec fn clear_at(v: real) -> bool { exists|k: int| #[trigger] clearly(v, k) }
pub open spec fn rnd(v: real) -> int { choose|k: int| #[trigger] close(v, k) }
pub proof fn lemma_rnd(v: real, a: real)
    requires clear_at(v), near(a, v, 0.0000005real),
    ensures close(a, rnd(v)), close(v, rnd(v)),
{
    let k = choose|k: int| #[trigger] clearly(v, k);
    assert(close(v, k));
    assert(close(v, rnd(v)));
    assert(k == rnd(v));
}
pub proof fn lemma_rnd_is(v: real, k: int)
    requires close(v, k),
    ensures rnd(v) == k,
{ assert(close(v, rnd(v))); }
/// the imaginary part of the oriented difference of the cross spectra
pub open spec fn xp(x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag), k: int) -> real { if forward(t) { fim(xd_real(x, y), x.len() as int, k) } else { fim(xd_real(y, x), x.len() as int, k) } }
pub open spec fn pp(x: Seq<i8>, y: Seq<i8>, k: int) -> real { psd(x, k) + psd(y, k) }
pub open spec fn avals(x: Seq<i8>, y: Seq<i8>) -> Seq<int> { Seq::new((x.len() / 2) as nat, |i: int| rnd(pp(x, y, i + 1))) }
pub open spec fn cvals(x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag)) -> Seq<int> { Seq::new((x.len() / 2) as nat, |i: int| rnd(xp(x, y, t, i + 1))) }
pub open spec fn side_a(c: Side, v: Seq<int>) -> Seq<int> { if c.side is LEFT { v } else { Seq::new(v.len(), |i: int| 4 * c.n - v[i]) } }
pub open spec fn side_x(c: Side, v: Seq<int>) -> Seq<int> { Seq::new(v.len(), |i: int| signed(c.side, v[i])) }
/// no value of the pair lies near a half-integer
pub open spec fn clear_vals(ty: SequenceType, t: (SequenceTag, SequenceTag), x: Seq<i8>, y: Seq<i8>, k: int) -> bool { clear_at(pp(x, y, k)) && (ty is QuaternionType ==> clear_at(xp(x, y, t, k))) }
pub open spec fn clear_pair(ty: SequenceType, t: (SequenceTag, SequenceTag), x: Seq<i8>, y: Seq<i8>) -> bool { forall|k: int| 1 <= k <= x.len() / 2 ==> #[trigger] clear_vals(ty, t, x, y, k) }
/// a pair of a Williamson-type quadruple has no cross values
pub open spec fn wkept(c: Side, x: Seq<i8>, y: Seq<i8>) -> bool {
    clear_pair(c.ty, c.tags, x, y) && (c.ty is WilliamsonType ==> forall|k: int| 1 <= k <= x.len() / 2 ==> #[trigger] xp(x, y, c.tags, k) == 0real)
}
// ---- the values computed
pub open spec fn irounds(v: Seq<F64>) -> Seq<int> { Seq::new(v.len(), |i: int| iround(v[i])) }
pub open spec fn irounds_im(side: EquationSide, v: Seq<Complex<F64>>) -> Seq<int> { Seq::new(v.len(), |i: int| signed(side, iround(v[i].im))) }
pub open spec fn small_im(c: Complex<F64>) -> bool { near(c.im@, 0real, 0.0000001real) }
pub open spec fn all_small(v: Seq<Complex<F64>>) -> bool { forall|i: int| 0 <= i < v.len() ==> small_im(#[trigger] v[i]) }
pub open spec fn psds_are(v: Seq<F64>, d: SequencePairData, n: int, side: EquationSide) -> bool {
    v.len() == d.norm1@.len() - 1 && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k])@ == psd_key(d.norm1@[k + 1]@ + d.norm2@[k + 1]@, n, side)
}
pub open spec fn cpsds_are(v: Seq<Complex<F64>>, d: SequencePairData, t: (SequenceTag, SequenceTag), n: int) -> bool {
    v.len() == n / 2 && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).im@ == cpsd_key(d.dft1@[k + 1], d.dft2@[k + 1], t)
}
pub open spec fn short(v: Seq<i8>) -> bool { v.len() <= maxdft() }
/// the rounded sums are the exact ones, if these are clear
pub proof fn lemma_psd_vals(c: Side, d: SequencePairData, v: Seq<F64>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>)
    requires data_ok(d, f, g), psds_are(v, d, c.n, c.side), okseq(d.seq_enum1.1@, c.n), okseq(d.seq_enum2.1@, c.n),
    ensures v.len() == c.n / 2, wkept(c, d.seq_enum1.1@, d.seq_enum2.1@) ==> irounds(v) == side_a(c, avals(d.seq_enum1.1@, d.seq_enum2.1@)),
{
    let (x, y) = (d.seq_enum1.1@, d.seq_enum2.1@);
    if wkept(c, x, y) {
        assert(irounds(v) =~= side_a(c, avals(x, y))) by {
            assert forall|i: int| 0 <= i < v.len() implies iround(v[i]) == side_a(c, avals(x, y))[i] by {
                assert(psd_at(d.norm1@, x, i + 1)); assert(psd_at(d.norm2@, y, i + 1));
                assert(clear_vals(c.ty, c.tags, x, y, i + 1));
                let a = d.norm1@[i + 1]@ + d.norm2@[i + 1]@;
                lemma_rnd(pp(x, y, i + 1), a);
                let k = rnd(pp(x, y, i + 1));
                lemma_pp_bound(x, y, c.n, i + 1);
                lemma_iround(v[i], if c.side is LEFT { k } else { 4 * c.n - k });
            }
        }
    }
}
pub proof fn lemma_sq(a: real, b: real, n: real)
    requires -n <= a <= n, -n <= b <= n, n >= 0real,
    ensures 0real <= a * a + b * b <= 2real * n * n, -(n * n) <= a * b <= n * n,
{
    assert(0real <= a * a <= n * n) by(nonlinear_arith) requires -n <= a <= n, n >= 0real;
    assert(0real <= b * b <= n * n) by(nonlinear_arith) requires -n <= b <= n, n >= 0real;
    assert(-(n * n) <= a * b <= n * n) by(nonlinear_arith) requires -n <= a <= n, -n <= b <= n, n >= 0real;
    assert(2real * n * n == n * n + n * n) by(nonlinear_arith);
}
pub proof fn lemma_small_sq(n: real)
    requires 0real <= n <= 1000real,
    ensures n * n <= 1000000real,
{ assert(n * n <= 1000000real) by(nonlinear_arith) requires 0real <= n <= 1000real; }
pub proof fn lemma_pp_bound(x: Seq<i8>, y: Seq<i8>, n: int, k: int)
    requires okseq(x, n), okseq(y, n), k >= 0,
    ensures 0real <= pp(x, y, k) <= 4000000real,
{
    lemma_dft_bound(x, k); lemma_dft_bound(y, k); let r = n as real; lemma_small_sq(r);
    lemma_sq(sre(x, k), sim(x, k), r); lemma_sq(sre(y, k), sim(y, k), r);
    assert(2real * r * r == 2real * (r * r)) by(nonlinear_arith);
}
pub proof fn lemma_xp(x: Seq<i8>, y: Seq<i8>, t: (SequenceTag, SequenceTag), n: int, k: int)
    requires okseq(x, n), okseq(y, n), k >= 0,
    ensures
        forward(t) ==> xp(x, y, t, k) == 2real * (sim(x, k) * sre(y, k) - sre(x, k) * sim(y, k)),
        !forward(t) ==> xp(x, y, t, k) == 2real * (sim(y, k) * sre(x, k) - sre(y, k) * sim(x, k)),
        -4000000real <= xp(x, y, t, k) <= 4000000real,
{
    lemma_cpsd(x, y, k); lemma_cpsd(y, x, k);
    lemma_dft_bound(x, k); lemma_dft_bound(y, k); let r = n as real; lemma_small_sq(r);
    lemma_sq(sre(x, k), sim(y, k), r); lemma_sq(sim(x, k), sre(y, k), r); lemma_sq(sre(y, k), sim(x, k), r); lemma_sq(sim(y, k), sre(x, k), r);
}
pub proof fn lemma_cpsd_near(d: SequencePairData, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, t: (SequenceTag, SequenceTag), n: int, k: int)
    requires data_ok(d, f, g), okseq(d.seq_enum1.1@, n), okseq(d.seq_enum2.1@, n), 0 <= k <= n / 2,
    ensures near(cpsd_key(d.dft1@[k], d.dft2@[k], t), xp(d.seq_enum1.1@, d.seq_enum2.1@, t, k), 0.0000001real),
{
    let (x, y) = (d.seq_enum1.1@, d.seq_enum2.1@);
    assert(dft_at(d.dft1@, x, k)); assert(dft_at(d.dft2@, y, k));
    lemma_dft_prods(d.dft1@, x, d.dft2@, y, n, k); lemma_dft_prods(d.dft2@, y, d.dft1@, x, n, k);
    lemma_xp(x, y, t, n, k);
    let (a, b, p, q) = (sre(x, k), sim(x, k), sre(y, k), sim(y, k));
    assert(b * p - a * q == -(q * a - p * b)) by(nonlinear_arith);
}
pub proof fn lemma_cpsd_vals(c: Side, d: SequencePairData, v: Seq<Complex<F64>>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>)
    requires data_ok(d, f, g), cpsds_are(v, d, c.tags, c.n), okseq(d.seq_enum1.1@, c.n), okseq(d.seq_enum2.1@, c.n),
    ensures
        forall|i: int| 0 <= i < v.len() ==> -5000000 <= iround((#[trigger] v[i]).im) <= 5000000,
        c.ty is QuaternionType && wkept(c, d.seq_enum1.1@, d.seq_enum2.1@) ==> irounds_im(c.side, v) == side_x(c, cvals(d.seq_enum1.1@, d.seq_enum2.1@, c.tags)),
        c.ty is WilliamsonType && wkept(c, d.seq_enum1.1@, d.seq_enum2.1@) ==> all_small(v),
{
    let (x, y) = (d.seq_enum1.1@, d.seq_enum2.1@);
    assert forall|i: int| 0 <= i < v.len() implies -5000000 <= iround((#[trigger] v[i]).im) <= 5000000 by {
        lemma_cpsd_near(d, f, g, c.tags, c.n, i + 1); lemma_xp(x, y, c.tags, c.n, i + 1); lemma_iround(v[i].im, 0);
    }
    if c.ty is QuaternionType && wkept(c, x, y) {
        assert(irounds_im(c.side, v) =~= side_x(c, cvals(x, y, c.tags))) by {
            assert forall|i: int| 0 <= i < v.len() implies iround(v[i].im) == cvals(x, y, c.tags)[i] by {
                assert(clear_vals(c.ty, c.tags, x, y, i + 1));
                lemma_cpsd_near(d, f, g, c.tags, c.n, i + 1); lemma_xp(x, y, c.tags, c.n, i + 1);
                lemma_rnd(xp(x, y, c.tags, i + 1), v[i].im@);
                lemma_iround(v[i].im, rnd(xp(x, y, c.tags, i + 1)));
            }
        }
    }
    if c.ty is WilliamsonType && wkept(c, x, y) {
        assert forall|i: int| 0 <= i < v.len() implies small_im(#[trigger] v[i]) by { assert(xp(x, y, c.tags, i + 1) == 0real); lemma_cpsd_near(d, f, g, c.tags, c.n, i + 1); }
    }
}
// ---- the keys of the two pairs of a valid quadruple
pub proof fn lemma_xp_cancel(x: Seq<i8>, y: Seq<i8>, s: (SequenceTag, SequenceTag), u: Seq<i8>, v: Seq<i8>, r: (SequenceTag, SequenceTag), n: int, k: int)
    requires x.len() == n, y.len() == n, u.len() == n, v.len() == n, n > 0, k >= 0, forall|t: int| 1 <= t < n ==> #[trigger] od(x, y, s, t) + od(u, v, r, t) == 0,
    ensures xp(x, y, s, k) + xp(u, v, r, k) == 0real,
{
    let (x1, y1) = if forward(s) { (x, y) } else { (y, x) };
    let (u1, v1) = if forward(r) { (u, v) } else { (v, u) };
    let (p, q, z) = (xd_real(x1, y1), xd_real(u1, v1), |t: int| 0real);
    assert forall|t: int| 0 <= t < n implies #[trigger] z(t) == p(t) + q(t) by {
        if t == 0 { lemma_cross0(x1, y1); lemma_cross0(u1, v1); } else { assert(od(x, y, s, t) + od(u, v, r, t) == 0); }
    }
    lemma_tr_add(p, q, z, n, k);
    assert forall|t: int| 0 <= t < n implies #[trigger] sf(z, n, k)(t) == 0real by { alg_zero(si(n, t * k)); alg_neg(si(n, t * k), 0real); }
    lemma_rsum_zero(sf(z, n, k), n);
}
pub proof fn lemma_xp_none(x: Seq<i8>, y: Seq<i8>, s: (SequenceTag, SequenceTag), n: int, k: int)
    requires x.len() == n, y.len() == n, n > 0, k >= 0, forall|t: int| 1 <= t < n ==> #[trigger] od(x, y, s, t) == 0,
    ensures xp(x, y, s, k) == 0real,
{ lemma_xp_cancel(x, y, s, x, y, s, n, k); }
pub proof fn lemma_pp_sum(q: QV, g: Tg, k: int)
    requires wfv(q), q.n >= 1, complementary(q), k >= 0, tags_distinct(g),
    ensures pp(get(q, g.0), get(q, g.1), k) + pp(get(q, g.2), get(q, g.3), k) == (4 * q.n) as real,
{ theorem_psd_sum(q, k); }
pub proof fn lemma_same_key(ty: SequenceType, q: QV, p: Option<RowsumPairing>)
    requires wfv(q), is_type(q, ty), q.n >= 1, clear_quad(ty, q, p),
    ensures ({ let g = tags_for(p); ckey(left(ty, q.n, g), get(q, g.0), get(q, g.1)) == ckey(right(ty, q.n, g), get(q, g.2), get(q, g.3)) }),
{
    let g = tags_for(p);
    let (x, y, u, v) = (get(q, g.0), get(q, g.1), get(q, g.2), get(q, g.3));
    let (cl, cr) = (left(ty, q.n, g), right(ty, q.n, g));
    assert(side_a(cl, avals(x, y)) =~= side_a(cr, avals(u, v))) by {
        assert forall|i: int| 0 <= i < x.len() / 2 implies avals(x, y)[i] == 4 * q.n - avals(u, v)[i] by {
            lemma_pp_sum(q, g, i + 1);
            assert(clear_vals(ty, (g.2, g.3), u, v, i + 1));
            lemma_rnd(pp(u, v, i + 1), pp(u, v, i + 1));
            lemma_rnd_is(pp(x, y, i + 1), 4 * q.n - rnd(pp(u, v, i + 1)));
        }
    }
    if ty is QuaternionType {
        assert forall|t: int| 1 <= t < q.n implies #[trigger] od(x, y, (g.0, g.1), t) + od(u, v, (g.2, g.3), t) == 0 by { lemma_opposite(q, p, t); }
        assert(side_x(cl, cvals(x, y, (g.0, g.1))) =~= side_x(cr, cvals(u, v, (g.2, g.3)))) by {
            assert forall|i: int| 0 <= i < x.len() / 2 implies cvals(x, y, (g.0, g.1))[i] == -cvals(u, v, (g.2, g.3))[i] by {
                lemma_xp_cancel(x, y, (g.0, g.1), u, v, (g.2, g.3), q.n, i + 1);
                assert(clear_vals(ty, (g.2, g.3), u, v, i + 1));
                let w = xp(u, v, (g.2, g.3), i + 1);
                lemma_rnd(w, w);
                lemma_rnd_is(xp(x, y, (g.0, g.1), i + 1), -rnd(w));
            }
        }
    }
}
pub proof fn lemma_fits(ty: SequenceType, q: QV, s: SequenceTag, t: SequenceTag, side: EquationSide)
    requires wfv(q), is_type(q, ty), q.n >= 1, s != t, clear_pair(ty, (s, t), get(q, s), get(q, t)),
    ensures fits(get(q, s), get(q, t), (4 * q.n) as real, 1), wkept(Side { ty: ty, tags: (s, t), n: q.n, side: side }, get(q, s), get(q, t)),
{
    theorem_kept(q, tag_no(s), tag_no(t), 1);
    let (x, y) = (get(q, s), get(q, t));
    assert(fourth(q, tag_no(s)) == x && fourth(q, tag_no(t)) == y);
    if ty is WilliamsonType {
        assert forall|u: int| 1 <= u < q.n implies #[trigger] od(x, y, (s, t), u) == 0 by { assert(amic_at(q, u)); }
        assert forall|k: int| 1 <= k <= x.len() / 2 implies #[trigger] xp(x, y, (s, t), k) == 0real by { lemma_xp_none(x, y, (s, t), q.n, k); }
    }
}
