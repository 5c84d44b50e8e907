@fn sequences/rowsum.rs sequence_to_string #c23
@opts str=vx
@spec
    requires pm(seq@),
    ensures r@ == sign_text(seq@),
@loop 0
    invariant pm(seq@), it0.seq().len() == seq@.len(), forall|i: int| 0 <= i < seq@.len() ==> *(#[trigger] it0.seq()[i]) == seq@[i], res_str@ == sign_text(seq@.take(it0.index@)),
@at L0b
    reveal_strlit(""); assert(res_str@ =~= sign_text(seq@.take(0)));
@at L0s
!raw let ghost vx_i = it0.index@; proof { reveal_strlit("+"); reveal_strlit("-"); assert(pm(seq@)); assert(seq@[vx_i] == 1 || seq@[vx_i] == -1); }
@at L0e
    assert(res_str@ =~= sign_text(seq@.take(vx_i + 1)));
@at L0a
    assert(seq@.take(seq@.len() as int) =~= seq@);

@fn find/find_write.rs quad_to_string
@opts str=vx
@spec
    ensures r@ == quad_line(q),

@fn sequences/williamson.rs SequenceTag::to_string
@opts str=vx
@spec
    ensures r@ == tag_text(*self),

@fn sequences/symmetries.rs SequenceType::to_string
@opts str=vx
@spec
    ensures r@ == type_text(*self),

@fn sequences/rowsum.rs generate_rowsums #c23
@spec
    ensures r@ == rowsums_of(p, seqtype),

@fn find/find_write.rs write_rowsums
@opts str=vx
@loop 0
    invariant
        it0.seq().len() == rs@.len(), forall|i: int| 0 <= i < rs@.len() ==> *(#[trigger] it0.seq()[i]) == rs@[i],
        vx_out1@ == joined_text(quad_lines(rs@).take(it0.index@)),
@at L0b
    reveal_strlit("");
    assert(vx_out1@ =~= joined_text(quad_lines(rs@).take(0)));
@at L0s
!raw let ghost vx_i = it0.index@; proof { lemma_joined_take(quad_lines(rs@), vx_i); }
@at L0a
    assert(quad_lines(rs@).take(rs@.len() as int) =~= quad_lines(rs@));
@at fe
    assert(vx_file_ok(f, "results/pairs/"@ + type_text(seqtype) + "/find_"@ + int_text(p as int) + "/rowsums.quad"@, quad_lines(rowsums_of(p, seqtype))));

@fn find/find_write.rs write_sequences
@opts str=vx
@spec
    requires forall|i: int| 0 <= i < sequences@.len() ==> pm(#[trigger] sequences@[i]@),
@loop 0
    invariant
        it0.seq().len() == sequences@.len(), forall|i: int| 0 <= i < sequences@.len() ==> *(#[trigger] it0.seq()[i]) == sequences@[i],
        forall|i: int| 0 <= i < sequences@.len() ==> pm(#[trigger] sequences@[i]@),
        f.name@ == folder_path@ + "/seq_"@ + tag_text(*tag) + ".seq"@,
        f.data@ == utf8(joined_text(seq_lines(sequences@).take(it0.index@))),
@at L0s
!raw let ghost vx_i = it0.index@; proof { lemma_joined_take(seq_lines(sequences@), vx_i); }
@at fe
    assert(seq_lines(sequences@).take(sequences@.len() as int) =~= seq_lines(sequences@));
    assert(vx_file_ok(f, folder_path@ + "/seq_"@ + tag_text(*tag) + ".seq"@, seq_lines(sequences@)));

@fn sequences/fourier.rs iter_over_enumerate_filtered_couples_psds #c23
@subst impl Iterator\s*<\s*Item\s*=\s*(SequencePairData\s*<\s*'a\s*>)\s*> => Vec<\1>
@spec
    ensures r@ == kept_pairs(*sequences1, *sequences2, bound), r@.len() <= usize::MAX,

@fn sequences/matching.rs compute_auto_correlation_pair_dft #c23
@spec
    ensures r@ == auto_key(*psd_vec1, len1, *psd_vec2, len2), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] > isize::MIN,

@fn sequences/matching.rs compute_cross_correlations_dft #c23
@spec
    ensures r@ == cross_key(*dft1, *dft2, *tags, len), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] > isize::MIN,

@fn sequences/matching.rs compute_psd_pair #c23
@spec
    ensures r@ == psd_key(*psd_vec1, *psd_vec2, len, side),

@fn sequences/matching.rs compute_cross_psd_pair #c23
@spec
    ensures r@ == cpsd_key(dft1, dft2, *tags, len),

@fn find/find_write.rs verify_rowsums
@spec
    requires all_short(sequences.0@), all_short(sequences.1@),
    ensures r == (all_rowsum(sequences.0@, tag_rowsum(*tags.0, rs)) && all_rowsum(sequences.1@, tag_rowsum(*tags.1, rs))),
@loop 0
    invariant it0.seq().len() == sequences.0@.len(), forall|i: int| 0 <= i < sequences.0@.len() ==> *(#[trigger] it0.seq()[i]) == sequences.0@[i],
        forall|i: int| 0 <= i < it0.index@ ==> rowsum_of((#[trigger] sequences.0@[i])@) == rowsum_0,
@at L0s
    let vx_i = it0.index@; assert(*it0.seq()[vx_i] == sequences.0@[vx_i]); assert(sequences.0@[vx_i]@.len() <= maxn());
@loop 1
    invariant it1.seq().len() == sequences.1@.len(), forall|i: int| 0 <= i < sequences.1@.len() ==> *(#[trigger] it1.seq()[i]) == sequences.1@[i],
        forall|i: int| 0 <= i < it1.index@ ==> rowsum_of((#[trigger] sequences.1@[i])@) == rowsum_1,
@at L1s
    let vx_i = it1.index@; assert(*it1.seq()[vx_i] == sequences.1@[vx_i]); assert(sequences.1@[vx_i]@.len() <= maxn());

@fn find/find_write.rs write_seq_pairs
@opts str=vx
@spec
    requires
        all_short(sequences.0@), all_short(sequences.1@),
        all_rowsum(sequences.0@, tag_rowsum(*tags.0, rs)), all_rowsum(sequences.1@, tag_rowsum(*tags.1, rs)),
        seqtype is QuaternionType || seqtype is WilliamsonType || seqtype is Williamson,
@at fs
!raw let ghost vx_c = Pairs { ty: seqtype, tags: (*tags.0, *tags.1), p: p, side: side, by: match_option };
@at L0b
!raw let ghost vx_v = kept_pairs(*sequences.0, *sequences.1, fmul(flit(8), fof(p)));
proof { reveal_strlit(""); assert(pair_lines(vx_c, vx_v.take(0)) =~= Seq::empty()); assert(buffer@ =~= Seq::empty()); assert(f.data@ + utf8(buffer@) =~= utf8(joined_text(pair_lines(vx_c, vx_v.take(0))))); }
@loop 0
    invariant
        it0.seq() == vx_v, vx_v.len() <= usize::MAX, counter <= it0.index@, counter == pair_lines(vx_c, vx_v.take(it0.index@)).len(),
        f.name@ == folder_path@ + "/pair_"@ + tag_text(*tags.0) + tag_text(*tags.1) + ".pair"@,
        f.data@ + utf8(buffer@) == utf8(joined_text(pair_lines(vx_c, vx_v.take(it0.index@)))),
@at L0s
!raw let ghost vx_i = it0.index@; let ghost vx_d = vx_v[vx_i]; let ghost vx_b = f.data@ + utf8(buffer@); proof { lemma_pair_lines(vx_c, vx_v, vx_i); assert(pair == vx_d); }
@at L0e
    assert(f.data@ + utf8(buffer@) =~= vx_b + utf8(if pair_kept(vx_c, vx_d) { pair_line(vx_c, vx_d) } else { Seq::empty() }));
@at L0a
    assert(vx_v.take(vx_v.len() as int) =~= vx_v);
@loop 1
    invariant it1.seq() == auto_of(vx_d), result@ == num_key(signs_on(side, auto_of(vx_d)).take(it1.index@)), forall|i: int| 0 <= i < it1.seq().len() ==> #[trigger] it1.seq()[i] > isize::MIN,
@at L1b
    lemma_num_key0(signs_on(side, auto_of(vx_d)));
@at L1s
    lemma_num_key(signs_on(side, auto_of(vx_d)), it1.index@);
@loop 2
    invariant it2.seq() == cross_of(vx_c, vx_d), result@ == num_key(signs_on(side, auto_of(vx_d))) + num_key(signs_on(side, cross_of(vx_c, vx_d)).take(it2.index@)), forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] > isize::MIN,
@at L2b
    lemma_num_key0(signs_on(side, cross_of(vx_c, vx_d))); assert(result@ =~= num_key(signs_on(side, auto_of(vx_d))) + Seq::empty());
@at L2s
    lemma_num_key(signs_on(side, cross_of(vx_c, vx_d)), it2.index@);
@loop 3
    invariant it3.seq() == cross_of(vx_c, vx_d), vx_out1 == (exists|i: int| 0 <= i < it3.index@ && #[trigger] cross_of(vx_c, vx_d)[i] != 0),
@loop 4
    invariant it4.seq() == psd_key(vx_d.norm1, vx_d.norm2, p, side), result@ == num_key(rounds(it4.seq()).take(it4.index@)),
@at L4b
    lemma_num_key0(rounds(psd_values@));
@at L4s
    lemma_num_key(rounds(psd_key(vx_d.norm1, vx_d.norm2, p, side)), it4.index@);
@loop 5
    invariant it5.seq() == cpsd_of(vx_c, vx_d), result@ == num_key(rounds(psd_key(vx_d.norm1, vx_d.norm2, p, side))) + num_key(im_rounds(side, cpsd_of(vx_c, vx_d)).take(it5.index@)),
@at L5b
    lemma_num_key0(im_rounds(side, cpsd_of(vx_c, vx_d))); assert(result@ =~= num_key(rounds(psd_key(vx_d.norm1, vx_d.norm2, p, side))) + Seq::empty());
@at L5s
    lemma_num_key(im_rounds(side, cpsd_of(vx_c, vx_d)), it5.index@);
@loop 6
    invariant it6.seq() == cpsd_of(vx_c, vx_d), vx_out2 == (exists|i: int| 0 <= i < it6.index@ && exceeds(fabs((#[trigger] cpsd_of(vx_c, vx_d)[i]).im), fdec("0.0001"@))),
@at fe
    assert(vx_file_ok(f, folder_path@ + "/pair_"@ + tag_text(*tags.0) + tag_text(*tags.1) + ".pair"@, pair_lines(vx_c, vx_v)));
    assert(vx_ret == pair_lines(vx_c, vx_v).len());

@fn find/find_write.rs join_pairs #c23
@spec
    ensures r@.len() <= 0x10_0000_0000,

@fn find/find_unique.rs reduce_to_canonical_reps #c23
@spec
    ensures true,

@fn sequences/equivalence.rs negated #c23
@spec
    ensures true,

@fn sequences/equivalence.rs half_shift #c23
@spec
    ensures true,

@fn sequences/williamson.rs QuadSeq::sequence #c23
@spec
    ensures true,

@fn sequences/williamson.rs QuadSeq::set_sequence #c23
@spec
    ensures true,

@fn sequences/williamson.rs QuadSeq::is_amicable #c23
@spec
    ensures true,

@fn sequences/williamson.rs QuadSeq::to_qs #c23
@spec
    ensures r == qs_of(*self),

@fn sequences/sequence.rs QS::to_string_raw #c23
@spec
    ensures r@ == raw_text(*self),

@fn sequences/williamson.rs QuadSeq::to_string #c23
@spec
    ensures r@ == quad_text(*self),

@fn main.rs find_write_quad_seq #c23
@opts str=vx
@at fs
!raw let ghost mut vx_found = Seq::<QuadSeq>::empty();
@at L1b
    reveal_strlit(""); lemma_text_at(raw_lines(result@));
    assert(vx_out1@ =~= Seq::<char>::empty()); assert(text_at(vx_out1@, raw_lines(result@), 0));
@loop 1
    invariant it1.seq().len() == result@.len(), forall|i: int| 0 <= i < result@.len() ==> *(#[trigger] it1.seq()[i]) == result@[i], text_at(vx_out1@, raw_lines(result@), it1.index@),
@at L1s
    assert(joined_text(raw_lines(result@).take(it1.index@ + 1)) == joined_text(raw_lines(result@).take(it1.index@)) + raw_lines(result@)[it1.index@]);
@at L2b
    vx_found = result@; reveal_strlit(""); lemma_text_at(text_lines(result@));
    assert(vx_out2@ =~= Seq::<char>::empty()); assert(text_at(vx_out2@, text_lines(result@), 0));
@loop 2
    invariant it2.seq().len() == result@.len(), forall|i: int| 0 <= i < result@.len() ==> *(#[trigger] it2.seq()[i]) == result@[i], text_at(vx_out2@, text_lines(result@), it2.index@),
@at L2s
    assert(joined_text(text_lines(result@).take(it2.index@ + 1)) == joined_text(text_lines(result@).take(it2.index@)) + text_lines(result@)[it2.index@]);
@at L4b
    reveal_strlit(""); lemma_text_at(raw_lines(qt_reduced@));
    assert(vx_out3@ =~= Seq::<char>::empty()); assert(text_at(vx_out3@, raw_lines(qt_reduced@), 0));
@loop 4
    invariant it4.seq().len() == qt_reduced@.len(), forall|i: int| 0 <= i < qt_reduced@.len() ==> *(#[trigger] it4.seq()[i]) == qt_reduced@[i], text_at(vx_out3@, raw_lines(qt_reduced@), it4.index@),
@at L4s
    assert(joined_text(raw_lines(qt_reduced@).take(it4.index@ + 1)) == joined_text(raw_lines(qt_reduced@).take(it4.index@)) + raw_lines(qt_reduced@)[it4.index@]);
@at L5b
    reveal_strlit(""); lemma_text_at(text_lines(qt_reduced@));
    assert(vx_out4@ =~= Seq::<char>::empty()); assert(text_at(vx_out4@, text_lines(qt_reduced@), 0));
@loop 5
    invariant it5.seq().len() == qt_reduced@.len(), forall|i: int| 0 <= i < qt_reduced@.len() ==> *(#[trigger] it5.seq()[i]) == qt_reduced@[i], text_at(vx_out4@, text_lines(qt_reduced@), it5.index@),
@at L5s
    assert(joined_text(text_lines(qt_reduced@).take(it5.index@ + 1)) == joined_text(text_lines(qt_reduced@).take(it5.index@)) + text_lines(qt_reduced@)[it5.index@]);
@at I2e
    assert(vx_file_ok(f_seq, result_path(seqtype, i, "/result-qts.seq"@), raw_lines(qt_reduced@)));
    assert(vx_file_ok(f_qseq, result_path(seqtype, i, "/result-qts.qseq"@), text_lines(qt_reduced@)));
@at fe
    assert(vx_file_ok(f_seq, result_path(seqtype, i, "/result.seq"@), raw_lines(vx_found)));
    assert(vx_file_ok(f_qseq, result_path(seqtype, i, "/result.qseq"@), text_lines(vx_found)));

@fn find/find_unique.rs find #c23
@opts str=vx
@spec
    ensures r@ == unique_text(size as int),

@fn main.rs find_unique_williamson_type_of_size
@opts str=vx
@at fe
    assert(f.name@ == "./results/sequences/unique_wts/"@ + int_text(i as int) + ".seq"@); assert(f.data@ == utf8(unique_text(i as int)));

@fn find/find_write.rs join_pairs #c22
@spec
    ensures r@.len() >= 1, r@.len() <= 0x10_0000_0000, list_pm(r@, p as int),

@fn main.rs find_write_quad_seq #c22
@opts str=vx
@spec
    requires seqtype == SequenceType::WilliamsonType ==> 1 <= i <= 31,
@at fs
!raw let ghost mut vx_found = Seq::<QuadSeq>::empty(); let ghost mut vx_new = Seq::<QuadSeq>::empty();
@at L1b
    reveal_strlit(""); lemma_text_at(raw_lines(result@));
    assert(vx_out1@ =~= Seq::<char>::empty()); assert(text_at(vx_out1@, raw_lines(result@), 0));
@loop 1
    invariant it1.seq().len() == result@.len(), forall|i: int| 0 <= i < result@.len() ==> *(#[trigger] it1.seq()[i]) == result@[i], text_at(vx_out1@, raw_lines(result@), it1.index@),
@at L1s
    assert(joined_text(raw_lines(result@).take(it1.index@ + 1)) == joined_text(raw_lines(result@).take(it1.index@)) + raw_lines(result@)[it1.index@]);
@at L2b
    vx_found = result@; reveal_strlit(""); lemma_text_at(text_lines(result@));
    assert(vx_out2@ =~= Seq::<char>::empty()); assert(text_at(vx_out2@, text_lines(result@), 0));
@loop 2
    invariant it2.seq().len() == result@.len(), forall|i: int| 0 <= i < result@.len() ==> *(#[trigger] it2.seq()[i]) == result@[i], text_at(vx_out2@, text_lines(result@), it2.index@),
@at L2s
    assert(joined_text(text_lines(result@).take(it2.index@ + 1)) == joined_text(text_lines(result@).take(it2.index@)) + text_lines(result@)[it2.index@]);
@at L3b
    assert(result@ == vx_found); lemma_exp_start(vx_found, i as int); assert(new_quad_seq_list@ =~= Seq::empty());
@loop 3
    invariant
        1 <= i <= 31, result@ == vx_found, it3.seq().len() == vx_found.len(), forall|j: int| 0 <= j < vx_found.len() ==> *(#[trigger] it3.seq()[j]) == vx_found[j],
        exp_inv(vx_found, i as int, it3.index@, new_quad_seq_list@),
@at L3s
!raw let ghost vx_l0 = new_quad_seq_list@; let ghost vx_k = it3.index@; proof { assert(*it3.seq()[vx_k] == vx_found[vx_k]); lemma_exp_at(vx_found, i as int, vx_k, vx_l0); }
@at L3e
    lemma_exp_step(vx_found, i as int, vx_k, vx_l0, new_quad_seq_list@);
@at L3a
    vx_new = new_quad_seq_list@; lemma_exp_end(vx_found, i as int, vx_new);
@at L4b
    reveal_strlit(""); lemma_text_at(raw_lines(qt_reduced@));
    assert(result@ == vx_found + vx_new); theorem_expand(vx_found, i as int, result@, qt_reduced@);
    assert(vx_out3@ =~= Seq::<char>::empty()); assert(text_at(vx_out3@, raw_lines(qt_reduced@), 0));
@loop 4
    invariant covers(vx_found, qt_reduced@), it4.seq().len() == qt_reduced@.len(), forall|i: int| 0 <= i < qt_reduced@.len() ==> *(#[trigger] it4.seq()[i]) == qt_reduced@[i], text_at(vx_out3@, raw_lines(qt_reduced@), it4.index@),
@at L4s
    assert(joined_text(raw_lines(qt_reduced@).take(it4.index@ + 1)) == joined_text(raw_lines(qt_reduced@).take(it4.index@)) + raw_lines(qt_reduced@)[it4.index@]);
@at L5b
    reveal_strlit(""); lemma_text_at(text_lines(qt_reduced@));
    assert(vx_out4@ =~= Seq::<char>::empty()); assert(text_at(vx_out4@, text_lines(qt_reduced@), 0));
@loop 5
    invariant covers(vx_found, qt_reduced@), it5.seq().len() == qt_reduced@.len(), forall|i: int| 0 <= i < qt_reduced@.len() ==> *(#[trigger] it5.seq()[i]) == qt_reduced@[i], text_at(vx_out4@, text_lines(qt_reduced@), it5.index@),
@at L5s
    assert(joined_text(text_lines(qt_reduced@).take(it5.index@ + 1)) == joined_text(text_lines(qt_reduced@).take(it5.index@)) + text_lines(qt_reduced@)[it5.index@]);
@at I2e
    assert(covers(vx_found, qt_reduced@));
    assert(vx_file_ok(f_qseq, result_path(seqtype, i, "/result-qts.qseq"@), text_lines(qt_reduced@)));
    assert(vx_file_ok(f_seq, result_path(seqtype, i, "/result-qts.seq"@), raw_lines(qt_reduced@)));
@at fe
    assert(vx_file_ok(f_qseq, result_path(seqtype, i, "/result.qseq"@), text_lines(vx_found)));
