@fn sequences/rowsum.rs rowsum
@spec
    requires seq@.len() <= maxn(),
    ensures r == rowsum_of(seq@),
@loop 0
    invariant vx_sum == sum(rowsum_f(seq@), it0.index@ as int), -128 * it0.index@ <= vx_sum <= 128 * it0.index@, it0.seq().len() == seq@.len(),
        forall|j: int| 0 <= j < seq@.len() ==> *#[trigger] it0.seq()[j] == seq@[j],
@at L0s
    assert(*it0.seq()[it0.index@] == seq@[it0.index@]);
    assert(rowsum_f(seq@)(it0.index@) == seq@[it0.index@] as int);

@fn sequences/rowsum.rs gen_seq_rec
@spec
    requires
        current_pos <= old(seq)@.len() <= maxn(), remaining_ones <= maxn(),
        forall|j: int| current_pos <= j < old(seq)@.len() ==> old(seq)@[j] == -1,
    ensures
        final(seq)@ == old(seq)@, nodup(r@), r@.len() <= pw(old(seq)@.len() - current_pos),
        forall|t: Seq<i8>| #[trigger] has(r@, t) <==> ext(old(seq)@, remaining_ones as int, current_pos as int, t),
    decreases old(seq)@.len() - current_pos,
@at fs
    broadcast use group_has;
    let s0 = seq@; let p = current_pos as int; let k = remaining_ones as int; lemma_pw(s0.len() - p);
    assert forall|t: Seq<i8>| k == 0 implies (#[trigger] ext(s0, k, p, t) <==> t == s0) by { lemma_ones_pm_zero(s0, t, p); }
    assert forall|t: Seq<i8>| #[trigger] ext(s0, k, p, t) implies k <= s0.len() - p by { lemma_ones_bound(t, p); }
    if p < s0.len() {
        let s1 = s0.update(p, 1i8);
        assert(s1.update(p, -1i8) =~= s0);
        assert forall|t: Seq<i8>| (#[trigger] ext(s0, k, p, t) <==> ext(s0, k, p + 1, t) || ext(s1, k - 1, p + 1, t)) && !(ext(s0, k, p + 1, t) && ext(s1, k - 1, p + 1, t)) by { lemma_gen_step(s0, s1, k, p, t); }
    }

@fn sequences/rowsum.rs generate_sequences_with_rowsum
@spec
    requires size <= maxn(), -size <= rowsum <= size,
    ensures nodup(r@), r@.len() <= pw(size as int), forall|t: Seq<i8>| #[trigger] has(r@, t) <==> with_sum(size as int, rowsum as int, t),
@at fs
    broadcast use group_has;
    let m = Seq::new(size as nat, |i: int| -1i8); lemma_pw(size as int);
    assert forall|t: Seq<i8>| t.len() == size && pm(t) implies #[trigger] rowsum_of(t) == 2 * ones(t, 0) - size by { lemma_sum_ones(t, 0); }
    assert forall|t: Seq<i8>, k: int| #[trigger] ext(m, k, 0, t) <==> t.len() == size && pm(t) && ones(t, 0) == k by { }

@fn sequences/rowsum.rs square_sum
@spec
    requires 0 <= s.0 <= top() + 1, 0 <= s.1 <= top() + 1, 0 <= s.2 <= top() + 1, 0 <= s.3 <= top() + 1,
    ensures r == sq4(*s),
@at fs
    lemma_sq_one(s.0 as int); lemma_sq_one(s.1 as int); lemma_sq_one(s.2 as int); lemma_sq_one(s.3 as int);

@fn sequences/rowsum.rs increment_squares
@spec
    requires state4(*old(s), bound as int), old(s).0 * old(s).0 <= bound, bound <= lim(),
    ensures state4(*final(s), bound as int), lex4(*old(s), *final(s)), forall|t: Quad| #[trigger] skipped(*old(s), *final(s), t) && sorted4(t) ==> sq4(t) > bound,
@at fs
!raw let ghost q = *s; proof { lemma_small(q, bound as int); 
    assert forall|r: Quad, t: Quad| nextof(q, r, bound as int) && #[trigger] skipped(q, r, t) && sorted4(t) implies sq4(t) > bound by { lemma_skip(q, r, bound as int); } }

@fn sequences/rowsum.rs sum_of_four_squares
@subst (\w+)\.clone\(\) => \1
@spec
    requires p <= lim(),
    ensures is_dec_list(p as int, r@),
@loop 0
    invariant state4(squares, p as int), listed(p as int, squares_list@, squares), p <= lim(), 0 <= squares.0 * squares.0 <= 0x400_0000_4000_0001,
    decreases top() + 2 - squares.0, top() + 2 - squares.1, top() + 2 - squares.2, top() + 2 - squares.3,
@at L0s
!raw let ghost q0 = squares; let ghost l0 = squares_list@; proof { lemma_small(q0, p as int); }
@at L0e
    lemma_listed_step(p as int, l0, q0, squares_list@, squares);
    lemma_sq_one(squares.0 as int);
@at fe
    lemma_listed_end(p as int, squares_list@, squares);

@fn sequences/rowsum.rs generate_rowsums
@spec
    requires 4 * p <= lim(),
    ensures is_rowsum_list(p as int, seqtype is QuaternionType, r@),
@loop 0
    invariant
        is_dec_list(4 * p as int, it0.seq()), rs_inv(p as int, seqtype is QuaternionType, it0.seq(), it0.index@, total_quadruplets@),
        parity == p % 2,
@at L0s
!raw let ghost l = it0.seq(); let ghost k = it0.index@; let ghost o0 = total_quadruplets@; proof { assert(l[k] == elm); assert(l.contains(l[k])); assert(dec4(4 * p as int, elm));
    assert forall|i: int| 0 <= i < l.len() implies sorted4(#[trigger] l[i]) by { assert(l.contains(l[i])); } }
@at L0e
    lemma_rs_step(p as int, seqtype is QuaternionType, l, k, o0, total_quadruplets@, total_quadruplets@.last());
@at fe
    assert(exists|l: Seq<Quad>| #[trigger] is_dec_list(4 * p as int, l) && rs_inv(p as int, seqtype is QuaternionType, l, l.len() as int, vx_ret@));
    let l = choose|l: Seq<Quad>| #[trigger] is_dec_list(4 * p as int, l) && rs_inv(p as int, seqtype is QuaternionType, l, l.len() as int, vx_ret@);
    lemma_rs_end(p as int, seqtype is QuaternionType, l, vx_ret@);
