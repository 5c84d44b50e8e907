@fn sequences/equivalence.rs seq_less_than
@spec
    requires seq1@.len() == seq2@.len(),
    ensures r == lexlt(seq1@, seq2@),
@at fs
    reveal(lexlt);
@loop 0
    invariant 0 <= index <= seq1@.len(), forall|j: int| 0 <= j < index ==> seq1@[j] == seq2@[j],
    decreases seq1@.len() - index,
@at L0s
    reveal(lexlt);
    assert(seq1@[index as int] < seq2@[index as int] ==> lexat(seq1@, seq2@, index as int));
    assert(seq1@[index as int] > seq2@[index as int] ==> lexat(seq2@, seq1@, index as int));
    if seq1@[index as int] > seq2@[index as int] { lemma_lex_asym(seq2@, seq1@); }
@at fe
    assert(seq1@ =~= seq2@); lemma_lex_irr(seq1@);

@fn sequences/williamson.rs seq_less_than
@spec
    requires seq1@.len() == seq2@.len(),
    ensures r == lexlt(seq1@, seq2@),
@at fs
    reveal(lexlt);
@loop 0
    invariant 0 <= index <= seq1@.len(), forall|j: int| 0 <= j < index ==> seq1@[j] == seq2@[j],
    decreases seq1@.len() - index,
@at L0s
    reveal(lexlt);
    assert(seq1@[index as int] < seq2@[index as int] ==> lexat(seq1@, seq2@, index as int));
    assert(seq1@[index as int] > seq2@[index as int] ==> lexat(seq2@, seq1@, index as int));
    if seq1@[index as int] > seq2@[index as int] { lemma_lex_asym(seq2@, seq1@); }
@at fe
    assert(seq1@ =~= seq2@); lemma_lex_irr(seq1@);

@fn sequences/equivalence.rs will_less_than_aux
@spec
    requires seq1@.len() == seq2@.len(),
    ensures (r is LT) == lexlt(seq1@, seq2@), (r is GT) == lexlt(seq2@, seq1@), (r is EQUAL) == (seq1@ == seq2@),
@at fs
    reveal(lexlt);
@loop 0
    invariant 0 <= index <= seq1@.len(), forall|j: int| 0 <= j < index ==> seq1@[j] == seq2@[j],
    decreases seq1@.len() - index,
@at L0s
    reveal(lexlt);
    assert(seq1@[index as int] < seq2@[index as int] ==> lexat(seq1@, seq2@, index as int));
    assert(seq1@[index as int] > seq2@[index as int] ==> lexat(seq2@, seq1@, index as int));
    if seq1@[index as int] > seq2@[index as int] { lemma_lex_asym(seq2@, seq1@); }
    if seq1@[index as int] < seq2@[index as int] { lemma_lex_asym(seq1@, seq2@); }
@at fe
    assert(seq1@ =~= seq2@); lemma_lex_irr(seq1@);

@fn sequences/equivalence.rs will_less_than
@spec
    requires same_len(will1@, will2@),
    ensures r == qlt(will1@, will2@),
@at fs
    if lexlt(will2@.a, will1@.a) { lemma_lex_asym(will2@.a, will1@.a); }
    if lexlt(will2@.b, will1@.b) { lemma_lex_asym(will2@.b, will1@.b); }
    if lexlt(will2@.c, will1@.c) { lemma_lex_asym(will2@.c, will1@.c); }
    lemma_lex_irr(will1@.a); lemma_lex_irr(will1@.b); lemma_lex_irr(will1@.c);

@fn find/find_unique.rs find_minimum
@subst let mut (\w+) = None; => let mut \1: Option<&QuadSeq> = None;
@spec
    requires exists|q: QV| class@.contains(q), one_size(class@),
    ensures class@.contains(r@), forall|p: QV| #[trigger] class@.contains(p) ==> !qlt(p, r@),
@loop 0
    invariant
        one_size(class@),
        it0.index@ == 0 ==> mini is None,
        it0.index@ > 0 ==> mini is Some && class@.contains((mini->0)@),
        forall|j: int| 0 <= j < it0.seq().len() ==> class@.contains(#[trigger] it0.seq()[j]@),
        forall|p: QV| #[trigger] class@.contains(p) ==> 0 <= vx_pos(*class, p) < it0.seq().len() && it0.seq()[vx_pos(*class, p)]@ == p,
        forall|j: int| 0 <= j < it0.index@ ==> !qlt(#[trigger] it0.seq()[j]@, (mini->0)@),
@at L0s
!raw let ghost old_mini = mini;
@at L0e
    let s = it0.seq(); let k = it0.index@;
    assert(class@.contains(s[k]@));
    if k > 0 {
        let m = (old_mini->0)@;
        assert(class@.contains(m));
        assert(same_len(s[k]@, m) && same_len(m, s[k]@));
        assert forall|j: int| 0 <= j < k implies !qlt(#[trigger] s[j]@, (mini->0)@) by {
            assert(class@.contains(s[j]@));
            assert(same_len(s[j]@, s[k]@) && same_len(s[j]@, m));
            lemma_qlt_order(s[j]@, s[k]@, m); lemma_qlt_order(s[j]@, m, m);
            lemma_qlt_order(s[k]@, s[j]@, m); lemma_qlt_order(s[j]@, s[k]@, m);
        }
    }
    lemma_qlt_order((mini->0)@, (mini->0)@, (mini->0)@);
