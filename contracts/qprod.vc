@fn sequences/product.rs sequence_product
@spec
    requires wfqs(*qs1), wfqs(*qs2), qs1.size * qs2.size <= maxq(),
    ensures wfqs(r), is_prod(r.values@, qs1.values@, qs2.values@),
        r.size == qs1.size * qs2.size,
        (qs1.size > 0 && qs2.size > 0 && coprime_def(qs1.size as int, qs2.size as int) && perfect(qs1.values@) && perfect(qs2.values@)) ==> perfect(r.values@),
@loop 0
    invariant result.symmetry is None, wfqs(result), result.size == p * q, p * q <= maxq(), forall|k: int| 0 <= k < i * q ==> #[trigger] result.values@[k] == pent(qs1.values@, qs2.values@, k),
@loop 1
    invariant result.symmetry is None, wfqs(result), result.size == p * q, p * q <= maxq(), 0 <= i < p, forall|k: int| 0 <= k < i * q + j ==> #[trigger] result.values@[k] == pent(qs1.values@, qs2.values@, k),
@at fs
    assert(0 * qs2.size == 0) by(nonlinear_arith);
@at L1s
    assert(0 <= i * q + j < p * q && i * q >= 0) by(nonlinear_arith) requires 0 <= i < p, 0 <= j < q;
    assert((i * q + j) % (q as int) == j) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * q + j, q as int, i as int, j as int); }
    lemma_prod_unit(qs1.values@, qs2.values@, i * q + j);
@at L0e
    assert((i + 1) * q == i * q + q) by(nonlinear_arith);
@at fe
    if qs1.size > 0 && qs2.size > 0 && coprime_def(qs1.size as int, qs2.size as int) && perfect(qs1.values@) && perfect(qs2.values@) { lemma_prod_perfect(qs1.values@, qs2.values@, vx_ret.values@); }
