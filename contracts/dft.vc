@fn sequences/fourier.rs dft_sequence
@spec
    ensures okseq(seq@, seq@.len() as int) ==> is_dft(r@, seq@),
@fn sequences/fourier.rs inverse_dft
@spec
    ensures r@.len() == n, forall|y: spec_fn(int) -> real| #[trigger] is_tr(freq@, y, n as int) && 0 < n <= maxdft() && bounded(y, n as int) ==> is_vals(r@, y, n as int),
@fn sequences/fourier.rs iter_over_enumerate_filtered_couples_psds
@spec
    requires okfiles(sequences1@, sequences2@),
    ensures all_data_ok(r@, sequences1@, sequences2@), kept_to(r@, sequences1@, sequences2@, bound@, sequences1@.len() as int, 0), r@.len() <= usize::MAX, r@.len() <= area(sequences1@.len() as int, sequences2@.len() as int, 0),
@loop 0
    invariant all_data_ok(vx_out4@, sequences1@, sequences2@), kept_to(vx_out4@, sequences1@, sequences2@, bound@, vx_k0_4 as int, 0), vx_out4@.len() <= area(vx_k0_4 as int, sequences2@.len() as int, 0),
@loop 1
    invariant all_data_ok(vx_out4@, sequences1@, sequences2@), kept_to(vx_out4@, sequences1@, sequences2@, bound@, vx_k0_4 as int, vx_k1_4 as int), vx_out4@.len() <= area(vx_k0_4 as int, sequences2@.len() as int, vx_k1_4 as int),
@at L1s
    !raw
    let ghost vx_o = vx_out4@;
    let ghost vx_s = sequences1@[vx_k0_4 as int]@;
    let ghost vx_t = sequences2@[vx_k1_4 as int]@;
    let ghost vx_n = flen(sequences1@, sequences2@);
    proof { assert(okseq(vx_s, vx_n)); assert(okseq(vx_t, vx_n)); }
@loop 2
    invariant vx_out1@.len() == it2.index@, it2.seq().len() == dft1@.len(), forall|k: int| 0 <= k < dft1@.len() ==> *(#[trigger] it2.seq()[k]) == dft1@[k],
        forall|k: int| 0 <= k < vx_out1@.len() ==> near(fv(#[trigger] vx_out1@[k]), psd(vx_s, k), psd_err()),
@at L2s
    assert(dft_at(dft1@, vx_s, it2.index@)); lemma_norm(dft1@, vx_s, vx_n, it2.index@);
@loop 3
    invariant vx_out2@.len() == it3.index@, it3.seq().len() == dft2@.len(), forall|k: int| 0 <= k < dft2@.len() ==> *(#[trigger] it3.seq()[k]) == dft2@[k],
        forall|k: int| 0 <= k < vx_out2@.len() ==> near(fv(#[trigger] vx_out2@[k]), psd(vx_t, k), psd_err()),
@at L3s
    assert(dft_at(dft2@, vx_t, it3.index@)); lemma_norm(dft2@, vx_t, vx_n, it3.index@);
@loop 4
    invariant vx_n1_3 == it4.index@, vx_n2_3 == it4.index@, it4.seq().len() == norm1@.len(), forall|k: int| 0 <= k < norm1@.len() ==> *(#[trigger] it4.seq()[k]) == norm1@[k],
        vx_out3 ==> !fits(vx_s, vx_t, bound@, 1),
@at L4s
    let k = it4.index@;
    assert(psd_at(norm1@, vx_s, k)); assert(psd_at(norm2@, vx_t, k));
    if k >= 1 && norm1@[k]@ + norm2@[k]@ > bound@ + 0.000001real { lemma_exceeds(vx_s, vx_t, norm1@[k]@, norm2@[k]@, bound@, 1, k); }
@at L1e
    lemma_step(vx_o, vx_out4@, sequences1@, sequences2@, bound@, vx_k0_4 as int, vx_k1_4 as int);
@at L0e
    lemma_area(vx_k0_4 as int, sequences2@.len() as int);
    lemma_row_end(vx_out4@, sequences1@, sequences2@, bound@, vx_k0_4 as int);
@at fe
    assert(vx_ret@.len() == vx_ret.len());
@fn sequences/fourier.rs iter_over_filtered_couples
@spec
    requires okfiles(sequences1@, sequences2@),
    ensures ckept_to(r@, sequences1@, sequences2@, bound@, sequences1@.len() as int, 0),
@loop 0
    invariant ckept_to(vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int, 0),
@loop 1
    invariant ckept_to(vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int, vx_k1_2 as int),
@at L1s
    !raw
    let ghost vx_o = vx_out2@;
    let ghost vx_s = sequences1@[vx_k0_2 as int]@;
    let ghost vx_t = sequences2@[vx_k1_2 as int]@;
    let ghost vx_n = flen(sequences1@, sequences2@);
    proof { assert(okseq(vx_s, vx_n)); assert(okseq(vx_t, vx_n)); }
@loop 2
    invariant vx_hit ==> !fits(vx_s, vx_t, bound@, 0),
@at L2s
    let k = vx_z1 as int;
    assert(dft_at(dft1@, vx_s, k)); assert(dft_at(dft2@, vx_t, k)); lemma_norm(dft1@, vx_s, vx_n, k); lemma_norm(dft2@, vx_t, vx_n, k);
    let (u, v) = (normv(dft1@[k]), normv(dft2@[k]));
    if u + v > bound@ + 0.000001real { lemma_exceeds(vx_s, vx_t, u, v, bound@, 0, k); }
@at L1e
    lemma_cstep(vx_o, vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int, vx_k1_2 as int);
@at L0e
    lemma_crow_end(vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int);
@fn sequences/fourier.rs iter_over_enumerate_filtered_couples
@spec
    requires okfiles(sequences1@, sequences2@),
    ensures ekept_to(r@, sequences1@, sequences2@, bound@, sequences1@.len() as int, 0),
@loop 0
    invariant ekept_to(vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int, 0),
@loop 1
    invariant ekept_to(vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int, vx_k1_2 as int),
@at L1s
    !raw
    let ghost vx_o = vx_out2@;
    let ghost vx_s = sequences1@[vx_k0_2 as int]@;
    let ghost vx_t = sequences2@[vx_k1_2 as int]@;
    let ghost vx_n = flen(sequences1@, sequences2@);
    proof { assert(okseq(vx_s, vx_n)); assert(okseq(vx_t, vx_n)); }
@loop 2
    invariant vx_hit ==> !fits(vx_s, vx_t, bound@, 0),
@at L2s
    let k = vx_z1 as int;
    assert(dft_at(dft1@, vx_s, k)); assert(dft_at(dft2@, vx_t, k)); lemma_norm(dft1@, vx_s, vx_n, k); lemma_norm(dft2@, vx_t, vx_n, k);
    let (u, v) = (normv(dft1@[k]), normv(dft2@[k]));
    if u + v > bound@ + 0.000001real { lemma_exceeds(vx_s, vx_t, u, v, bound@, 0, k); }
@at L1e
    lemma_estep(vx_o, vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int, vx_k1_2 as int);
@at L0e
    lemma_erow_end(vx_out2@, sequences1@, sequences2@, bound@, vx_k0_2 as int);
@fn sequences/sequence.rs seq_multiply_pointwise_complex
@spec
    requires seq1@.len() == seq2@.len(),
    ensures all_prods(r@, seq1@, seq2@),
@loop 0
    invariant vx_out1@.len() == it0.index@, vx_n1_1 == it0.index@, it0.seq().len() == seq1@.len(), forall|k: int| 0 <= k < seq1@.len() ==> *(#[trigger] it0.seq()[k]) == seq1@[k],
        forall|k: int| 0 <= k < vx_out1@.len() ==> prod_at(#[trigger] vx_out1@[k], seq1@[k], seq2@[k]),
@fn sequences/matching.rs compute_auto_correlation_dft
@spec
    requires psd_of(psd_vec@, len as int),
    ensures forall|s: Seq<i8>| okseq(s, len as int) && #[trigger] is_psd(psd_vec@, s) ==> is_autos(r@, s),
@loop 0
    invariant vx_out1@.len() == it0.index@, it0.seq().len() == psd_vec@.len(), forall|k: int| 0 <= k < psd_vec@.len() ==> *(#[trigger] it0.seq()[k]) == psd_vec@[k],
        forall|k: int| 0 <= k < vx_out1@.len() ==> real_is(#[trigger] vx_out1@[k], psd_vec@[k]),
@at L1b
    assert forall|s: Seq<i8>| okseq(s, len as int) && #[trigger] is_psd(psd_vec@, s) implies is_tr(complex_psd@, cross_real(s, s), len as int) && bounded(cross_real(s, s), len as int) by { lemma_psd_tr(psd_vec@, complex_psd@, s, len as int); }
@loop 1
    invariant vx_out2@.len() == it1.index@, it1.seq().len() == len, forall|s: Seq<i8>| okseq(s, len as int) && #[trigger] is_psd(psd_vec@, s) ==> is_vals(it1.seq(), cross_real(s, s), len as int),
        forall|s: Seq<i8>, t: int| okseq(s, len as int) && #[trigger] is_psd(psd_vec@, s) && 0 <= t < vx_out2@.len() ==> #[trigger] vx_out2@[t] == auto(s, t),
@at L1s
    assert forall|s: Seq<i8>| okseq(s, len as int) && #[trigger] is_psd(psd_vec@, s) implies close(it1.seq()[it1.index@]@, auto(s, it1.index@)) by {
        assert(vals_at(it1.seq(), cross_real(s, s), it1.index@)); lemma_auto_is_cross(s, it1.index@);
    }
    assert forall|s: Seq<i8>| okseq(s, len as int) && #[trigger] is_psd(psd_vec@, s) implies -maxdft() <= auto(s, it1.index@) <= maxdft() by { lemma_auto_bounded(s, it1.index@); }
@at fe
    assert forall|s: Seq<i8>| okseq(s, len as int) && #[trigger] is_psd(psd_vec@, s) implies is_autos(res@, s) by {
        assert forall|t: int| 0 <= t < s.len() implies #[trigger] res@[t] == auto(s, t) && -s.len() <= res@[t] <= s.len() by { lemma_auto_bounded(s, t); }
    }
@fn sequences/matching.rs compute_auto_correlation_pair_dft
@spec
    requires psd_of(psd_vec1@, len1 as int), psd_of(psd_vec2@, len2 as int), len1 == len2,
    ensures forall|x: Seq<i8>, y: Seq<i8>| okseq(x, len1 as int) && okseq(y, len1 as int) && #[trigger] is_psd(psd_vec1@, x) && #[trigger] is_psd(psd_vec2@, y) ==> is_auto_key(r@, x, y),
@loop 0
    invariant auto1@.len() == len1, auto2@.len() == len1,
        forall|t: int| 0 <= t < len1 ==> -maxdft() <= #[trigger] auto1@[t] <= maxdft(), forall|t: int| 0 <= t < len1 ==> -maxdft() <= #[trigger] auto2@[t] <= maxdft(),
        res@.len() == offset - 1, forall|k: int| 0 <= k < res@.len() ==> #[trigger] res@[k] == auto1@[k + 1] + auto2@[k + 1],
@at L0b
    let x = choose|x: Seq<i8>| okseq(x, len1 as int) && is_psd(psd_vec1@, x);
    let y = choose|y: Seq<i8>| okseq(y, len1 as int) && is_psd(psd_vec2@, y);
    assert(is_autos(auto1@, x)); assert(is_autos(auto2@, y));
@at fe
    assert forall|x: Seq<i8>, y: Seq<i8>| okseq(x, len1 as int) && okseq(y, len1 as int) && #[trigger] is_psd(psd_vec1@, x) && #[trigger] is_psd(psd_vec2@, y) implies is_auto_key(res@, x, y) by {
        assert(is_autos(auto1@, x)); assert(is_autos(auto2@, y));
        assert forall|i: int| 0 <= i < res@.len() implies #[trigger] res@[i] == auto(x, i + 1) + auto(y, i + 1) by { assert(auto1@[i + 1] == auto(x, i + 1)); assert(auto2@[i + 1] == auto(y, i + 1)); }
    }
@fn sequences/matching.rs compute_psd_pair
@spec
    requires psd_vec1@.len() == psd_vec2@.len(), psd_vec1@.len() >= 1, len <= maxdft(),
    ensures r@.len() == psd_vec1@.len() - 1, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == psd_key(psd_vec1@[k + 1]@ + psd_vec2@[k + 1]@, len as int, side),
@loop 0
    invariant vx_n1_1 == it0.index@, vx_n2_1 == vx_out1@.len(), vx_out1@.len() == (if it0.index@ == 0 { 0 } else { it0.index@ - 1 }), it0.seq().len() == psd_vec1@.len(), forall|k: int| 0 <= k < psd_vec1@.len() ==> *(#[trigger] it0.seq()[k]) == psd_vec1@[k],
        forall|k: int| 0 <= k < vx_out1@.len() ==> fv(#[trigger] vx_out1@[k]) == psd_vec1@[k + 1]@ + psd_vec2@[k + 1]@,
@loop 1
    invariant vx_n1_2 == it1.index@, vx_n2_2 == vx_out2@.len(), vx_out2@.len() == (if it1.index@ == 0 { 0 } else { it1.index@ - 1 }), it1.seq().len() == psd_vec1@.len(), forall|k: int| 0 <= k < psd_vec1@.len() ==> *(#[trigger] it1.seq()[k]) == psd_vec1@[k],
        forall|k: int| 0 <= k < vx_out2@.len() ==> fv(#[trigger] vx_out2@[k]) == ((4 * len) as int) as real - (psd_vec1@[k + 1]@ + psd_vec2@[k + 1]@),
@at L0s
    assert(it0.index@ < psd_vec1.len());
@at L1s
    assert(it1.index@ < psd_vec1.len());
@fn sequences/matching.rs compute_cross_psd
@spec
    requires dft1@.len() == dft2@.len(),
    ensures r@.len() == dft1@.len(), forall|k: int| 0 <= k < r@.len() ==> cprod_at(#[trigger] r@[k], dft1@[k], dft2@[k]),
@loop 0
    invariant vx_out1@.len() == it0.index@, vx_n1_1 == it0.index@, it0.seq().len() == dft1@.len(), forall|k: int| 0 <= k < dft1@.len() ==> *(#[trigger] it0.seq()[k]) == dft1@[k],
        forall|k: int| 0 <= k < vx_out1@.len() ==> cprod_at(#[trigger] vx_out1@[k], dft1@[k], dft2@[k]),
@at L0s
    lemma_conj(dft1@[it0.index@], dft2@[it0.index@]);
@fn sequences/matching.rs compute_cross_psd_pair
@spec
    requires dft1@.len() == dft2@.len(), dft1@.len() == len / 2 + 1, tags.0 != tags.1,
    ensures r@.len() == len / 2, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).im@ == cpsd_key(dft1@[k + 1], dft2@[k + 1], *tags),
@loop 0
    invariant res@.len() == offset - 1, forall|k: int| 0 <= k < res@.len() ==> (#[trigger] res@[k]).im@ == cpsd_key(dft1@[k + 1], dft2@[k + 1], *tags),
@fn sequences/matching.rs compute_cross_correlations_dft
@spec
    requires 0 < len <= maxdft(), dft1@.len() == len / 2 + 1, dft2@.len() == len / 2 + 1, tags.0 != tags.1,
    ensures forall|x: Seq<i8>, y: Seq<i8>| okseq(x, len as int) && okseq(y, len as int) && #[trigger] is_dft(dft1@, x) && #[trigger] is_dft(dft2@, y) ==> is_cross_key(r@, x, y, *tags),
@loop 0
    invariant vx_out1@.len() == it0.index@, it0.seq().len() == dft1@.len(), forall|k: int| 0 <= k < dft1@.len() ==> *(#[trigger] it0.seq()[k]) == dft1@[k],
        forall|k: int| 0 <= k < vx_out1@.len() ==> conj_is(#[trigger] vx_out1@[k], dft1@[k]),
@loop 1
    invariant vx_out2@.len() == it1.index@, it1.seq().len() == dft2@.len(), forall|k: int| 0 <= k < dft2@.len() ==> *(#[trigger] it1.seq()[k]) == dft2@[k],
        forall|k: int| 0 <= k < vx_out2@.len() ==> conj_is(#[trigger] vx_out2@[k], dft2@[k]),
@at L2b
    let n = len as int;
    assert forall|x: Seq<i8>, y: Seq<i8>| okseq(x, n) && okseq(y, n) && #[trigger] is_dft(dft1@, x) && #[trigger] is_dft(dft2@, y) implies is_vals(cross1@, cross_real(x, y), n) && is_vals(cross2@, cross_real(y, x), n) by {
        lemma_all_cross(dft1@, x, dft2@, y, n); lemma_all_cross(dft2@, y, dft1@, x, n);
        is_trs(dft1@, x, dft2@, y, n, dft2_conj@); is_trs(dft2@, y, dft1@, x, n, dft1_conj@);
    }
@loop 2
    invariant res@.len() == offset - 1, cross1@.len() == len, cross2@.len() == len,
        forall|x: Seq<i8>, y: Seq<i8>| okseq(x, len as int) && okseq(y, len as int) && #[trigger] is_dft(dft1@, x) && #[trigger] is_dft(dft2@, y) ==> is_vals(cross1@, cross_real(x, y), len as int) && is_vals(cross2@, cross_real(y, x), len as int),
        forall|x: Seq<i8>, y: Seq<i8>, k: int| okseq(x, len as int) && okseq(y, len as int) && #[trigger] is_dft(dft1@, x) && #[trigger] is_dft(dft2@, y) && 0 <= k < res@.len() ==> #[trigger] res@[k] == od(x, y, *tags, k + 1),
@at L2s
    let t = offset as int;
    assert forall|x: Seq<i8>, y: Seq<i8>| okseq(x, len as int) && okseq(y, len as int) && #[trigger] is_dft(dft1@, x) && #[trigger] is_dft(dft2@, y) implies close(cross1@[t]@ - cross2@[t]@, xd(x, y, t)) && close(cross2@[t]@ - cross1@[t]@, xd(y, x, t)) && -0x7fff_ffff <= xd(x, y, t) <= 0x7fff_ffff && xd(y, x, t) == -xd(x, y, t) by {
        assert(vals_at(cross1@, cross_real(x, y), t)); assert(vals_at(cross2@, cross_real(y, x), t));
        lemma_cross_bounded(x, y, t); lemma_cross_bounded(y, x, t);
    }
