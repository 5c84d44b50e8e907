@fn sequences/equivalence.rs coprime
@spec
    requires a > 0 || b > 0,
    ensures r == coprime_def(a as int, b as int), r == coprime_def(b as int, a as int),
@at fs
!raw let ghost a0 = a as int; let ghost b0 = b as int; proof { if a0 < b0 { lemma_gcd_swap_less(a0, b0); } else if b0 < a0 { lemma_gcd_swap_less(b0, a0); } lemma_coprime_gcd(a0, b0); }
@loop 0
    invariant gcd(a as int, b as int) == gcd(a0, b0),
    decreases b,
@at fe
    lemma_coprime_gcd(b0, a0);
    assert(gcd(a0, b0) == a as int);

@fn sequences/equivalence.rs COPRIMES
@spec
    ensures coprime_table(r@),
@loop 0
    invariant list@.len() == i, forall|m: int| 1 <= m < i ==> lists_coprimes(#[trigger] list@[m]@, m),
@loop 1
    invariant
        sorted_strict(coprimes@),
        forall|m: int| 0 <= m < coprimes@.len() ==> 1 <= #[trigger] coprimes@[m] < j && coprime_def(i as int, coprimes@[m] as int),
        forall|k: int| 1 <= k < j && #[trigger] coprime_def(i as int, k) ==> exists|m: int| 0 <= m < coprimes@.len() && #[trigger] coprimes@[m] == k,
@at L1s
!raw let ghost before = coprimes@;
@at L1e
    if coprime_def(i as int, j as int) {
        assert(coprimes@ == before.push(j));
        assert(coprimes@[before.len() as int] == j);
        assert forall|k: int| 1 <= k <= j && #[trigger] coprime_def(i as int, k) implies exists|m: int| 0 <= m < coprimes@.len() && #[trigger] coprimes@[m] == k by {
            if k < j {
                let m = choose|m: int| 0 <= m < before.len() && #[trigger] before[m] == k;
                assert(coprimes@[m] == k);
            }
        }
    }

@fn sequences/equivalence.rs negated
@spec
    requires forall|i: int| 0 <= i < seq@.len() ==> #[trigger] seq@[i] > -128,
    ensures r@ == neg(seq@),
@loop 0
    invariant s@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] s@[j] == neg8(seq@[j]),
@at fe
    assert(s@ =~= neg(seq@));

@fn sequences/equivalence.rs alt_negated
@spec
    requires forall|i: int| 0 <= i < seq@.len() ==> #[trigger] seq@[i] > -128, frequency == 2,
    ensures r@ == altn(seq@),
@loop 0
    invariant count == i, s@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] s@[j] == altn(seq@)[j],
@at fe
    assert(s@ =~= altn(seq@));

@fn sequences/equivalence.rs half_shift
@spec
    requires seq@.len() % 2 == 0, seq@.len() <= maxn(),
    ensures r@ == shift(seq@, seq@.len() as int / 2),
@loop 0
    invariant s@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] s@[j] == shift(seq@, seq@.len() as int / 2)[j],
@at fe
    assert(s@ =~= shift(seq@, seq@.len() as int / 2));

@fn sequences/equivalence.rs permute
@spec
    requires seq@.len() * coprime <= maxn(),
    ensures r@ == perm(seq@, coprime as int),
@loop 0
    invariant result@.len() == index, forall|j: int| 0 <= j < index ==> #[trigger] result@[j] == perm(seq@, coprime as int)[j],
@at L0s
    assert(index * coprime <= maxn()) by (nonlinear_arith) requires index <= n, n * coprime <= maxn(), coprime >= 0;
@at fe
    assert(result@ =~= perm(seq@, coprime as int));

@fn sequences/equivalence.rs swap
@spec
    requires
        (seqtag1 == SequenceTag::W && seqtag2 != SequenceTag::W) || (seqtag1 == SequenceTag::X && (seqtag2 == SequenceTag::Y || seqtag2 == SequenceTag::Z)) || (seqtag1 == SequenceTag::Y && seqtag2 == SequenceTag::Z),
    ensures final(will)@ == swapq(old(will)@, seqtag1, seqtag2),

@fn sequences/equivalence.rs equivalent_negate_swap
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_negate_swap(seq@, p),
        wfv(seq@) && is_qts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_qts(p),
@at fe
    lemma_op_negate_swap(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_negate_swap(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_reorder
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_reorder(seq@, p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
        wfv(seq@) && is_ws(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_ws(p),
@at fe
    lemma_op_reorder(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_reorder(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_negate
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_negate(seq@, p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
        wfv(seq@) && is_ws(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_ws(p),
@at fe
    lemma_op_negate(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_negate(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_uniform_shift
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_uniform_shift(seq@, p),
        wfv(seq@) && is_qts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_qts(p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
@loop 0
    invariant forall|p: QV| #[trigger] res@.contains(p) <==> op_shift_upto(seq@, offset as int, p),
@loop 1
    invariant s.size == seq.size, s.a@.len() == s.size, s.b@.len() == s.size, s.c@.len() == s.size, s.d@.len() == s.size,
        forall|j: int| 0 <= j < index ==> #[trigger] s.a@[j] == shiftq(seq@, offset as int).a[j],
        forall|j: int| 0 <= j < index ==> #[trigger] s.b@[j] == shiftq(seq@, offset as int).b[j],
        forall|j: int| 0 <= j < index ==> #[trigger] s.c@[j] == shiftq(seq@, offset as int).c[j],
        forall|j: int| 0 <= j < index ==> #[trigger] s.d@[j] == shiftq(seq@, offset as int).d[j],
@at L1a
    assert(s.a@ =~= shiftq(seq@, offset as int).a); assert(s.b@ =~= shiftq(seq@, offset as int).b); assert(s.c@ =~= shiftq(seq@, offset as int).c); assert(s.d@ =~= shiftq(seq@, offset as int).d);
    assert(s@ == shiftq(seq@, offset as int));
@at fe
    lemma_op_uniform_shift(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_uniform_shift(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_even_alternated_negation
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_even_alt(seq@, p),
        wfv(seq@) && is_qts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_qts(p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
        wfv(seq@) && is_ws(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_ws(p),
@at fs
    lemma_op_even_alt(seq@);
@at fe
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_even_alt(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_automorphism
@spec
    requires wfx(*seq), 1 <= seq.size <= 100,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_automorphism(seq@, p),
        wfv(seq@) && is_qts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_qts(p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
        wfv(seq@) && is_ws(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_ws(p),
@subst \bCOPRIMES\b => vx_tab
@at fs
!raw let vx_tab = vx_COPRIMES();
@loop 0
    invariant
        lists_coprimes(vx_tab@[seq.size as int]@, seq.size as int), it0.seq().len() == vx_tab@[seq.size as int]@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == vx_tab@[seq.size as int]@[j],
        forall|p: QV| #[trigger] res@.contains(p) <==> (p == seq@ || exists|j: int| 0 <= j < it0.index@ && p == #[trigger] permq(seq@, vx_tab@[seq.size as int]@[j] as int)),
@at L0s
!raw let ghost before = res@; proof {
    assert(*k == *it0.seq()[it0.index@]);
    assert(seq.size * *k <= maxn()) by (nonlinear_arith) requires seq.size <= 100, *k <= 100; }
@at L0e
    assert(res@ == before.insert(permq(seq@, *k as int)));
    assert forall|p: QV| #[trigger] res@.contains(p) <==> (p == seq@ || exists|j: int| 0 <= j < it0.index@ + 1 && p == #[trigger] permq(seq@, vx_tab@[seq.size as int]@[j] as int)) by {
        if p == permq(seq@, *k as int) { assert(p == permq(seq@, vx_tab@[seq.size as int]@[it0.index@] as int)); }
        if exists|j: int| 0 <= j < it0.index@ && p == #[trigger] permq(seq@, vx_tab@[seq.size as int]@[j] as int) {
            let j = choose|j: int| 0 <= j < it0.index@ && p == #[trigger] permq(seq@, vx_tab@[seq.size as int]@[j] as int);
            assert(j < it0.index@ + 1);
        }
    }
@at fe
    lemma_op_automorphism(seq@);
    let t = vx_tab@[seq.size as int]@;
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_automorphism(seq@, p) by {
        if exists|j: int| 0 <= j < t.len() && p == #[trigger] permq(seq@, t[j] as int) {
            let j = choose|j: int| 0 <= j < t.len() && p == #[trigger] permq(seq@, t[j] as int);
            assert(coprime_def(seq@.n, t[j] as int));
        }
        if exists|k: int| 1 <= k <= seq@.n && coprime_def(seq@.n, k) && p == #[trigger] permq(seq@, k) {
            let k = choose|k: int| 1 <= k <= seq@.n && coprime_def(seq@.n, k) && p == #[trigger] permq(seq@, k);
            let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == k;
            assert(p == permq(seq@, t[j] as int));
        }
    }

@fn sequences/equivalence.rs equivalent_dual_half_shift
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::rlimit(40)]
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_dual_half(seq@, p),
        wfv(seq@) && is_qts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_qts(p),
@at fs
    if seq@.n % 2 == 0 { lemma_hpart(seq@, seq@.n / 2); }
@loop 1
    invariant s@ == hpart(seq@, offset as int,
        if couple.0 == SequenceTag::W || couple.1 == SequenceTag::W { index as int } else { 0 }, if couple.0 == SequenceTag::X || couple.1 == SequenceTag::X { index as int } else { 0 },
        if couple.0 == SequenceTag::Y || couple.1 == SequenceTag::Y { index as int } else { 0 }, if couple.0 == SequenceTag::Z || couple.1 == SequenceTag::Z { index as int } else { 0 }),
@loop 3
    invariant s@ == hpart(seq@, offset as int,
        if tag == SequenceTag::W { index as int } else { seq@.n }, if tag == SequenceTag::X { index as int } else if tag == SequenceTag::W { 0 } else { seq@.n },
        if tag == SequenceTag::Y { index as int } else if tag == SequenceTag::Z { seq@.n } else { 0 }, if tag == SequenceTag::Z { index as int } else { 0 }),
@at fe
    lemma_op_dual_half(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_dual_half(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_single_half_shift
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_single_half(seq@, p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
        wfv(seq@) && is_ws(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_ws(p),
@at fs
    if seq@.n % 2 == 0 { lemma_hpart(seq@, seq@.n / 2); }
@loop 1
    invariant s@ == hpart(seq@, offset as int,
        if tag == SequenceTag::W { index as int } else { 0 }, if tag == SequenceTag::X { index as int } else { 0 },
        if tag == SequenceTag::Y { index as int } else { 0 }, if tag == SequenceTag::Z { index as int } else { 0 }),
@at fe
    lemma_op_single_half(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_single_half(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_uniform_half_shift
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_single_half(seq@, p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
        wfv(seq@) && is_ws(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_ws(p),
@at fs
    if seq@.n % 2 == 0 { lemma_hpart(seq@, seq@.n / 2); }
@loop 1
    invariant s@ == hpart(seq@, offset as int,
        if tag == SequenceTag::W { index as int } else { 0 }, if tag == SequenceTag::X { index as int } else { 0 },
        if tag == SequenceTag::Y { index as int } else { 0 }, if tag == SequenceTag::Z { index as int } else { 0 }),
@at fe
    lemma_op_single_half(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_single_half(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_reverse
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures
        forall|p: QV| #[trigger] r@.contains(p) <==> op_reverse(seq@, p),
        wfv(seq@) && is_qts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_qts(p),
        wfv(seq@) && is_wts(seq@) ==> forall|p: QV| #[trigger] r@.contains(p) ==> wfv(p) && p.n == seq@.n && is_wts(p),
@loop 0
    invariant s.size == seq.size, s.a@.len() == s.size, s.b@.len() == s.size, s.c@.len() == s.size, s.d@.len() == s.size,
        forall|j: int| 0 <= j < index ==> #[trigger] s.a@[j] == revq(seq@).a[j],
        forall|j: int| 0 <= j < index ==> #[trigger] s.b@[j] == revq(seq@).b[j],
        forall|j: int| 0 <= j < index ==> #[trigger] s.c@[j] == revq(seq@).c[j],
        forall|j: int| 0 <= j < index ==> #[trigger] s.d@[j] == revq(seq@).d[j],
@at L0a
    assert(s.a@ =~= revq(seq@).a); assert(s.b@ =~= revq(seq@).b); assert(s.c@ =~= revq(seq@).c); assert(s.d@ =~= revq(seq@).d);
    assert(s@ == revq(seq@));
@at fe
    lemma_op_reverse(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_reverse(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_double_negate
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures forall|p: QV| #[trigger] r@.contains(p) <==> op_double_negate(seq@, p),
@at fe
    lemma_op_double_negate(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_double_negate(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_alternated_negation
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures forall|p: QV| #[trigger] r@.contains(p) <==> op_alt(seq@, p),
@at fe
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_alt(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_disjoint_swaps
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures forall|p: QV| #[trigger] r@.contains(p) <==> op_disjoint(seq@, p),
@at fe
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_disjoint(seq@, p) by { }

@fn sequences/equivalence.rs equivalent_double_reorder
@spec
    requires wfx(*seq), seq.size >= 1,
    ensures forall|p: QV| #[trigger] r@.contains(p) <==> op_double_reorder(seq@, p),
@at fe
    lemma_op_double_reorder(seq@);
    assert forall|p: QV| #[trigger] res@.contains(p) <==> op_double_reorder(seq@, p) by { }
