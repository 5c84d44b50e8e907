@fn sequences/rowsum.rs quad_contains_zero
@spec
    ensures r == zero4(r4(*quad)),

@fn sequences/rowsum.rs quad_contains_dup
@spec
    ensures r == dup4(r4(*quad)),

@fn sequences/rowsum.rs has_sorted_rowsums
@spec
    requires wfq(*seq),
    ensures r == sorted_rs(rs4(seq@)),
@at fs
    lemma_parity(seq.a@); lemma_parity(seq.b@); lemma_parity(seq.c@); lemma_parity(seq.d@);

@fn sequences/equivalence.rs filter_by_rowsums
@spec
    requires forall|i: int| 0 <= i < sequences@.len() ==> wfq(#[trigger] sequences@[i]),
    ensures views(r@) == kept(sequences@, sequences@.len() as int),
@loop 0
    invariant views(vx_out1@) == kept(sequences@, it0.index@ as int), it0.seq().len() == sequences@.len(), forall|j: int| 0 <= j < sequences@.len() ==> *#[trigger] it0.seq()[j] == sequences@[j],
@at L0b
    assert(views(vx_out1@) =~= Seq::<QV>::empty());
@at L0s
!raw let ghost vx_o = vx_out1@; proof { assert(*it0.seq()[it0.index@] == sequences@[it0.index@]); assert(wfq(sequences@[it0.index@])); }
@at L0e
    let q = sequences@[it0.index@]@;
    if sorted_rs(rs4(q)) { assert(views(vx_out1@) =~= views(vx_o).push(q)); } else { assert(vx_out1@ == vx_o); }

@fn sequences/rowsum.rs generate_rowsums #c11
@spec
    requires 4 * p <= lim(),
    ensures is_rowsum_list(p as int, seqtype is QuaternionType, r@),
        1 <= p <= maxn() ==> all_covered(seqtype, p as int, r@),
@loop 0
    invariant
        is_dec_list(4 * p as int, it0.seq()), rs_inv(p as int, seqtype is QuaternionType, it0.seq(), it0.index@, total_quadruplets@),
        parity == p % 2,
@at L0s
!raw let ghost l = it0.seq(); let ghost k = it0.index@; let ghost o0 = total_quadruplets@; proof { assert(l[k] == elm); assert(l.contains(l[k])); assert(dec4(4 * p as int, elm));
    assert forall|i: int| 0 <= i < l.len() implies sorted4(#[trigger] l[i]) by { assert(l.contains(l[i])); } }
@at L0e
    lemma_rs_step(p as int, seqtype is QuaternionType, l, k, o0, total_quadruplets@, total_quadruplets@.last());
@at fe
    assert(exists|l: Seq<Quad>| #[trigger] is_dec_list(4 * p as int, l) && rs_inv(p as int, seqtype is QuaternionType, l, l.len() as int, vx_ret@));
    let l = choose|l: Seq<Quad>| #[trigger] is_dec_list(4 * p as int, l) && rs_inv(p as int, seqtype is QuaternionType, l, l.len() as int, vx_ret@);
    lemma_rs_end(p as int, seqtype is QuaternionType, l, vx_ret@);
    if 1 <= p <= maxn() { lemma_all_covered(seqtype, p as int, vx_ret@); }
