@fn sequences/matching.rs compute_auto_correlation
@spec
    requires pm(seq@), seq@.len() <= maxn(),
    ensures r@.len() == seq@.len() / 2, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == auto(seq@, i + 1) && -seq@.len() <= r@[i] <= seq@.len(),
@loop 0
    invariant res@.len() == offset - 1, forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] == auto(seq@, i + 1) && -seq@.len() <= res@[i] <= seq@.len(),

@fn sequences/matching.rs compute_auto_correlation_pair
@spec
    requires pm(seq1@), pm(seq2@), seq1@.len() == seq2@.len(), seq1@.len() <= maxn(),
    ensures is_auto_key(r@, seq1@, seq2@),
@loop 0
    invariant vx_out1@.len() == it0.index@, vx_n1_1 == it0.index@, auto1@.len() == auto2@.len(), auto1@.len() == seq1@.len() / 2,
        it0.seq().len() == auto1@.len(), forall|i: int| 0 <= i < auto1@.len() ==> *(#[trigger] it0.seq()[i]) == auto1@[i],
        forall|i: int| 0 <= i < vx_out1@.len() ==> #[trigger] vx_out1@[i] == auto(seq1@, i + 1) + auto(seq2@, i + 1),

@fn sequences/matching.rs compute_cross_correlations
@spec
    requires pm(seq1@), pm(seq2@), seq1@.len() == seq2@.len(), seq1@.len() <= maxn(), tags.0 != tags.1,
    ensures is_cross_key(r@, seq1@, seq2@, *tags),
@loop 0
    invariant res@.len() == offset - 1, forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] == od(seq1@, seq2@, *tags, i + 1),

@fn sequences/matching.rs compute_complementary_auto_correlations
@spec
    requires pm(seq1@), pm(seq2@), seq1@.len() == seq2@.len(), seq1@.len() <= maxn(),
    ensures is_auto_ckey(r@, seq1@, seq2@),
@loop 0
    invariant res@.len() == offset - 1, forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] == -(auto(seq1@, i + 1) + auto(seq2@, i + 1)),

@fn sequences/matching.rs compute_complementary_cross_correlations
@spec
    requires pm(seq1@), pm(seq2@), seq1@.len() == seq2@.len(), seq1@.len() <= maxn(), tags.0 != tags.1,
    ensures is_cross_ckey(r@, seq1@, seq2@, *tags),
@loop 0
    invariant res@.len() == offset - 1, forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] == -od(seq1@, seq2@, *tags, i + 1),

@fn sequences/matching.rs MatchData::new
@spec
    ensures r.auto_correlation_values == auto_correlation_values, r.cross_correlation_values == cross_correlation_values,
@fn sequences/matching.rs MatchData::from
@spec
    requires pm(seq1@), pm(seq2@), seq1@.len() == seq2@.len(), seq1@.len() <= maxn(), tags.0 != tags.1,
    ensures is_auto_key(r.auto_correlation_values@, seq1@, seq2@), is_cross_key(r.cross_correlation_values@, seq1@, seq2@, *tags),

@fn sequences/matching.rs verify_cross_correlation
@spec
    requires
        four_tags(tags@), pm(sequences@[0]@), pm(sequences@[1]@), pm(sequences@[2]@), pm(sequences@[3]@), sequences@[0]@.len() <= maxn(),
        sequences@[1]@.len() == sequences@[0]@.len(), sequences@[2]@.len() == sequences@[0]@.len(), sequences@[3]@.len() == sequences@[0]@.len(),
    ensures r == rem_all(vq(sequences@, tags@), vo(tags@)),
@at fs
    lemma_tagi(sequences@, tags@);
    reveal(tagok);
    lemma_vq(sequences@, tags@);
@loop 0
    invariant i > tagi(tags@, SequenceTag::W) ==> res == Some(sequences@[tagi(tags@, SequenceTag::W)]),
@at L0s
    reveal(tagok);
@at L0a
    reveal(tagok);
@loop 1
    invariant i > tagi(tags@, SequenceTag::X) ==> res == Some(sequences@[tagi(tags@, SequenceTag::X)]),
@at L1s
    reveal(tagok);
@at L1a
    reveal(tagok);
@loop 2
    invariant i > tagi(tags@, SequenceTag::Y) ==> res == Some(sequences@[tagi(tags@, SequenceTag::Y)]),
@at L2s
    reveal(tagok);
@at L2a
    reveal(tagok);
@loop 3
    invariant i > tagi(tags@, SequenceTag::Z) ==> res == Some(sequences@[tagi(tags@, SequenceTag::Z)]),
@at L3s
    reveal(tagok);
@at L3a
    reveal(tagok);
@loop 4
    invariant forall|t: int| 0 <= t < offset ==> #[trigger] rem_at(vq(sequences@, tags@), vo(tags@), t),
@at L4s
    assert(rem_all(vq(sequences@, tags@), vo(tags@)) ==> rem_at(vq(sequences@, tags@), vo(tags@), offset as int));
@at L4b
    lemma_rem0(vq(sequences@, tags@), vo(tags@));
    assert(seqw@ == vq(sequences@, tags@).a && seqx@ == vq(sequences@, tags@).b && seqy@ == vq(sequences@, tags@).c && seqz@ == vq(sequences@, tags@).d);
@at L4a
    assert forall|t: int| 0 <= t < vq(sequences@, tags@).n implies #[trigger] rem_at(vq(sequences@, tags@), vo(tags@), t) by { lemma_rem_half(vq(sequences@, tags@), vo(tags@), t); }
