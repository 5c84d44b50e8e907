@fn sequences/equivalence.rs generate_canonical_representative
@spec
    requires wfx(*seq), 1 <= seq.size <= 100,
    ensures reach(type_step(seqtype), seq@, r@), forall|p: QV| #[trigger] reach(type_step(seqtype), seq@, p) ==> !qlt(p, r@),
@at fs
!raw let ghost st = type_step(seqtype); proof { lemma_type_step_all(seqtype); lemma_reach_refl(st, seq@); }
@loop 0
    invariant
        forall|j: int| 0 <= j < it0.seq().len() ==> reach(st, seq@, #[trigger] it0.seq()[j]@) && wfl(it0.seq()[j]@) && it0.seq()[j]@.n == seq@.n,
        reach(st, seq@, mini@) && wfl(mini@) && mini@.n == seq@.n,
        forall|p: QV| #[trigger] reach(st, seq@, p) ==> exists|j: int| 0 <= j < it0.seq().len() && #[trigger] it0.seq()[j]@ == p,
        forall|j: int| 0 <= j < it0.index@ ==> !qlt(#[trigger] it0.seq()[j]@, mini@),
@at L0s
!raw let ghost m0 = mini@; proof { assert(it0.seq()[it0.index@]@ == elm@); }
@at L0e
    assert forall|j: int| 0 <= j < it0.index@ + 1 implies !qlt(#[trigger] it0.seq()[j]@, mini@) by { lemma_qlt_order(it0.seq()[j]@, mini@, m0); lemma_qlt_order(mini@, m0, it0.seq()[j]@); lemma_qlt_order(mini@, it0.seq()[j]@, m0); lemma_qlt_order(it0.seq()[j]@, m0, mini@); }

@fn sequences/equivalence.rs generate_equivalent_quad_seqs
@subst \.into_iter\(\)\s*\.collect\(\) => .into_iter()
@spec
    requires quad_seq_list@.len() >= 1 ==> list_ok(quad_seq_list@, quad_seq_list@[0]@.n) && 1 <= quad_seq_list@[0]@.n <= 100,
    ensures
        forall|j: int| 0 <= j < r@.len() ==> #[trigger] from_list(type_step(seqtype), quad_seq_list@, r@[j]@),
        forall|p: QV| #[trigger] from_list(type_step(seqtype), quad_seq_list@, p) ==> exists|j: int| 0 <= j < r@.len() && #[trigger] r@[j]@ == p,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@,
@at fs
!raw let ghost st = type_step(seqtype); let ghost inp = quad_seq_list@; proof { lemma_type_step_all(seqtype); }
@loop 0
    invariant
        it0.seq().len() == inp.len(), forall|j: int| 0 <= j < inp.len() ==> #[trigger] it0.seq()[j] == inp[j],
        forall|p: QV| #[trigger] result@.contains(p) ==> from_upto(st, inp, it0.index@, p),
        forall|p: QV| #[trigger] from_upto(st, inp, it0.index@, p) ==> result@.contains(p),
@at L0s
!raw let ghost res0 = result@; let ghost k = it0.index@; proof { assert(it0.seq()[k] == inp[k]); assert(wfx(inp[k]) && inp[k]@.n == inp[0]@.n); lemma_from_upto(st, inp, k); if res0.contains(inp[k]@) { lemma_from_skip(st, inp, k); } }
@loop 1
    invariant
        forall|j: int| 0 <= j < it1.seq().len() ==> reach(st, inp[k]@, #[trigger] it1.seq()[j]@),
        forall|p: QV| #[trigger] reach(st, inp[k]@, p) ==> exists|j: int| 0 <= j < it1.seq().len() && #[trigger] it1.seq()[j]@ == p,
        forall|p: QV| #[trigger] result@.contains(p) ==> res0.contains(p) || reach(st, inp[k]@, p),
        forall|p: QV| #[trigger] res0.contains(p) ==> result@.contains(p),
        forall|j: int| 0 <= j < it1.index@ ==> result@.contains(#[trigger] it1.seq()[j]@),
@at L1a
    assert forall|p: QV| #[trigger] reach(st, inp[k]@, p) implies result@.contains(p) by { }
@at L0e
    assert forall|p: QV| #[trigger] result@.contains(p) implies from_upto(st, inp, k + 1, p) by { }
    assert forall|p: QV| #[trigger] from_upto(st, inp, k + 1, p) implies result@.contains(p) by { }
@at fe
    assert forall|p: QV| #[trigger] from_upto(st, inp, inp.len() as int, p) implies in_list(vx_ret@, p) by { assert(result@.contains(p)); }
    assert forall|p: QV| #[trigger] from_list(st, inp, p) implies exists|j: int| 0 <= j < vx_ret@.len() && #[trigger] vx_ret@[j]@ == p by { assert(from_upto(st, inp, inp.len() as int, p)); }
    assert forall|j: int| 0 <= j < vx_ret@.len() implies #[trigger] from_list(st, inp, vx_ret@[j]@) by { assert(from_upto(st, inp, inp.len() as int, vx_ret@[j]@)); }

@fn sequences/williamson.rs QuadSeq::equivalent_to
@spec
    requires wfx(*self), 1 <= self.size <= 100,
    ensures r == reach(type_step(seqtype), self@, quad_seq@),
@at fs
    lemma_type_step_all(seqtype);

@fn sequences/equivalence.rs qt_canonical
@opts collect=set
@spec
    requires rep_type(seqtype), wfq(*seq), 1 <= seq.size <= 31, forall|s: QV| #[trigger] symmetries@.contains(s) ==> symb(s, seq@.n), exists|h: Seq<VxOp>| is_group(h, seq@.n, symmetries@),
    ensures wfq(r), r@.n == seq@.n, forall|h: Seq<VxOp>| #[trigger] is_group(h, seq@.n, symmetries@) ==> rep_of(seqtype, h, seq@, r@),
@at fs
!raw let ghost ty = seqtype; let ghost q = seq@; let ghost n = seq@.n;
    let ghost h0 = choose|h: Seq<VxOp>| is_group(h, n, symmetries@);
    proof {
    assert(ty == SequenceType::QuaternionType ==> cstep(ty) == step_ns()); assert(ty != SequenceType::QuaternionType ==> cstep(ty) == step_sn());
    lemma_reach_refl(step_of(h0), q);
    assert forall|h: Seq<VxOp>, p: QV| #[trigger] reach(step_of(h), q, p) implies wfv(p) && p.n == n by { lemma_reach_wfv(h, q, p); }
    assert forall|h: Seq<VxOp>, c: QV| #[trigger] form(ty, h, q, c) implies wfv(c) && wfl(c) && c.n == n by { lemma_form_wf(ty, h, q, c); lemma_wfv_wfl(c); }
    assert forall|h: Seq<VxOp>, cls: Set<QV>, s: Seq<QuadSeq>, out: Set<QV>| #[trigger] is_cls(step_of(h), q, cls) && #[trigger] lists_set(s, cls) && #[trigger] forms_inv(ty, s, s.len() as int, out)
        implies all_forms(ty, h, q, out) && (exists|c: QV| out.contains(c)) by { lemma_forms_finish(ty, h, q, cls, s, out); }
    }
@loop 0
    invariant
        ty == SequenceType::QuaternionType, list_wfq(it0.seq(), n), forms_inv(ty, it0.seq(), it0.index@, vx_out1@),
@at L0s
!raw let ghost o0 = vx_out1@; let ghost k = it0.index@;  proof { assert(it0.seq()[k]@ == s@); assert(wfq(it0.seq()[k])); }
@at L0e
    lemma_forms_step(ty, it0.seq(), k, o0, vx_m1_1@);
@loop 1
    invariant
        rep_type(ty), ty != SequenceType::QuaternionType, list_wfq(it1.seq(), n), forms_inv(ty, it1.seq(), it1.index@, vx_out2@),
@at L1s
!raw let ghost o0 = vx_out2@; let ghost k = it1.index@;  proof { assert(it1.seq()[k]@ == s@); assert(wfq(it1.seq()[k])); }
@at L1e
    lemma_forms_step(ty, it1.seq(), k, o0, vx_m1_2@);
@loop 2
    invariant
        best_upto(it2.seq(), it2.index@, vx_out3), refs_wfl(it2.seq(), n), refs_of(it2.seq(), ns_canonical_forms), ns_canonical_forms@.len() == it2.seq().len(),
@at L2s
!raw let ghost b0 = vx_out3; let ghost k = it2.index@; proof { assert(it2.seq()[k] == vx_x3); }
@at L2e
    lemma_best_step(it2.seq(), n, k, b0, vx_out3);
@at fe
    assert(all_forms(ty, h0, q, ns_canonical_forms@));
    assert(ns_canonical_forms@.contains(vx_ret@));

@fn sequences/equivalence.rs equiv
@spec
    requires wfq(*seq1), wfq(*seq2), seq1.size == seq2.size, 1 <= seq1.size <= 31, is_type(seq1@, seqtype), is_type(seq2@, seqtype),
    ensures rep_type(seqtype) ==> r == reach(type_step(seqtype), seq1@, seq2@),
@at fs
    if rep_type(seqtype) { lemma_pair_all(seqtype); lemma_link(seqtype, seq1@, seq2@); }
    assert(seqtype == SequenceType::QuaternionType ==> cstep(seqtype) == step_ns()); assert(seqtype != SequenceType::QuaternionType ==> cstep(seqtype) == step_sn());

@fn find/find_unique.rs reduce_to_equivalence
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@spec
    requires sequences@.len() >= 1 ==> list_ok(sequences@, sequences@[0]@.n) && 1 <= sequences@[0]@.n <= 31,
    ensures transversal(step_of(equivalences@), sequences@, r@),
@at fs
!raw let ghost fs = equivalences@; let ghost st = step_of(fs); let ghost inp = sequences@; let ghost n = sequences@[0]@.n;
@loop 0
    invariant
        it0.seq().len() == inp.len(), forall|j: int| 0 <= j < inp.len() ==> #[trigger] it0.seq()[j] == inp[j],
        classes_inv(fs, inp, it0.index@, classes@),
@at L0s
!raw let ghost cs0 = classes@; let ghost k = it0.index@; proof { assert(it0.seq()[k] == inp[k]); assert(wfx(inp[k]) && inp[k]@.n == n); }
@loop 1
    invariant
        it1.seq().len() == cs0.len(), forall|c: int| 0 <= c < cs0.len() ==> #[trigger] it1.seq()[c] == cs0[c],
        new_seq, classes@ == cs0,
        forall|c: int| 0 <= c < it1.index@ ==> !(#[trigger] cs0[c])@.contains(inp[k]@),
    ensures
        classes@ == cs0, new_seq == !covered(cs0, inp[k]@),
@at L1s
    let c = it1.index@; assert(it1.seq()[c] == cs0[c]); assert(cs0[c]@.contains(inp[k]@) ==> covered(cs0, inp[k]@));
@at L0e
    if covered(cs0, inp[k]@) { lemma_classes_skip(fs, inp, k, cs0); }
    else { let s = classes@.last(); assert(classes@ =~= cs0.push(s)); assert(is_cls(st, inp[k]@, s@)); lemma_classes_push(fs, n, inp, k, cs0, s); }
@loop 2
    invariant
        it2.seq().len() == classes@.len(), forall|c: int| 0 <= c < classes@.len() ==> #[trigger] it2.seq()[c] == classes@[c],
        classes_inv(fs, inp, inp.len() as int, classes@), picked(classes@, vx_out1@, it2.index@),
@at L2s
    let c2 = it2.index@; assert(it2.seq()[c2] == classes@[c2]); assert(cls_upto(st, inp, inp.len() as int, classes@[c2]@)); lemma_cls_upto_size(fs, n, inp, inp.len() as int, classes@[c2]@);
@at fe
    lemma_classes_finish(fs, n, inp, classes@, vx_ret@);

@fn find/find_unique.rs reduce_to_equivalence_par
@subst \.into_iter\(\)\s*\.collect\(\) => .into_iter()
@spec
    requires sequences@.len() >= 1 ==> list_ok(sequences@, sequences@[0]@.n) && 1 <= sequences@[0]@.n <= 31,
    ensures transversal(step_of(equivalences@), sequences@, r@),
@at fs
!raw let ghost fs = equivalences@; let ghost st = step_of(fs); let ghost inp = sequences@; let ghost n = sequences@[0]@.n;
    proof { assert forall|k: int, s: Set<QV>| 0 <= k < inp.len() && #[trigger] is_cls(st, inp[k]@, s) implies one_size(s) && s.contains(inp[k]@) by { lemma_cls_size(fs, inp[k]@, s); } }
@loop 0
    invariant
        it0.seq().len() == inp.len(), forall|j: int| 0 <= j < inp.len() ==> #[trigger] it0.seq()[j] == inp[j],
        par_inv(fs, inp, it0.index@, res@),
@at L0s
!raw let ghost res0 = res@; let ghost k = it0.index@; proof { assert(it0.seq()[k] == inp[k]); assert(wfx(inp[k]) && inp[k]@.n == n);
 }
@at L0e
    assert forall|m: QV| #[trigger] is_min_of(st, inp[k]@, m) implies par_inv(fs, inp, k + 1, res0.insert(m)) by { lemma_par_step(fs, inp, k, res0, m); }
    assert(exists|m: QV| res@ == #[trigger] res0.insert(m) && is_min_of(st, inp[k]@, m));
@at fe
    lemma_par_finish(fs, n, inp, res@, vx_ret@);

@fn find/find_unique.rs reduce_to_equivalence_set_dif
@subst \.clone\(\)\s*\.into_iter\(\) => .clone()
@subst \.into_iter\(\)\s*\.collect\(\) => .into_iter()
@spec
    requires sequences@.len() >= 1 ==> list_ok(sequences@, sequences@[0]@.n) && 1 <= sequences@[0]@.n <= 31,
    ensures transversal(step_of(equivalences@), sequences@, r@),
@at fs
!raw let ghost fs = equivalences@; let ghost st = step_of(fs); let ghost inp = sequences@; let ghost n = sequences@[0]@.n;
@at L0b
    assert forall|p: QV| #[trigger] res@.contains(p) <==> in_list(inp, p) by { }
    lemma_sd_start(fs, inp, res@);
@loop 0
    invariant
        it0.seq().len() == inp.len(), forall|j: int| 0 <= j < inp.len() ==> #[trigger] it0.seq()[j] == inp[j],
        sd_inv(fs, inp, it0.index@, res@),
@at L0s
!raw let ghost res0 = res@; let ghost k = it0.index@; proof { assert(it0.seq()[k] == inp[k]); assert(wfx(inp[k]) && inp[k]@.n == n); lemma_reach_refl(st, inp[k]@); }
@at L1b
    assert forall|p: QV| #[trigger] reach(st, inp[k]@, p) && p != inp[k]@ implies new_class@.contains(p) by { }
@loop 1
    invariant
        forall|j: int| 0 <= j < it1.seq().len() ==> reach(st, inp[k]@, #[trigger] it1.seq()[j]@) && it1.seq()[j]@ != inp[k]@,
        forall|p: QV| #[trigger] reach(st, inp[k]@, p) && p != inp[k]@ ==> exists|j: int| 0 <= j < it1.seq().len() && #[trigger] it1.seq()[j]@ == p,
        forall|p: QV| #[trigger] res@.contains(p) ==> res0.contains(p),
        forall|p: QV| #[trigger] res0.contains(p) && (p == inp[k]@ || !reach(st, inp[k]@, p)) ==> res@.contains(p),
        forall|j: int| 0 <= j < it1.index@ ==> !res@.contains(#[trigger] it1.seq()[j]@),
@at L0e
    if res0.contains(inp[k]@) { lemma_sd_step(fs, n, inp, k, res0, res@); } else { lemma_sd_skip(fs, inp, k, res0); }
@at fe
    lemma_sd_finish(fs, n, inp, res@, vx_ret@);

@fn find/find_unique.rs reduce_to_canonical_reps
@subst \bequivalent_\w+ => VxOp::\g<0>
@spec
    requires rep_type(seqtype), sequences@.len() >= 1 ==> list_pm(sequences@, sequences@[0]@.n) && 1 <= sequences@[0]@.n <= 31,
    ensures transversal(type_step(seqtype), sequences@, r@),
@at fs
!raw let ghost ty = seqtype; let ghost inp = sequences@; let ghost n = sequences@[0]@.n; proof { if inp.len() >= 1 { assert(wfq(inp[0])); } lemma_h_short(ty); }
@at L0b
    let h = choose|h: Seq<VxOp>| is_group(h, n, symmetries@) && h_list(ty, h);
    assert(exists|h: Seq<VxOp>| is_group(h, n, symmetries@) && h_list(ty, h));
@loop 0
    invariant
        it0.seq().len() == inp.len(), forall|j: int| 0 <= j < inp.len() ==> #[trigger] it0.seq()[j] == inp[j],
        forall|h: Seq<VxOp>| is_group(h, n, symmetries@) && #[trigger] h_list(ty, h) ==> reps_inv(ty, h, inp, it0.index@, vx_seen2_1@, vx_out1@),
@at L0s
!raw let ghost out0 = vx_out1@; let ghost seen0 = vx_seen2_1@; let ghost k = it0.index@; proof { assert(it0.seq()[k] == inp[k]); assert(wfq(inp[k]) && inp[k]@.n == n); }
@at L0e
    assert forall|h: Seq<VxOp>| is_group(h, n, symmetries@) && #[trigger] h_list(ty, h) implies reps_inv(ty, h, inp, k + 1, vx_seen2_1@, vx_out1@) by {
        let r = choose|r: QV| rep_of(ty, h, inp[k]@, r) && vx_seen2_1@ == seen0.insert(r) && (seen0.contains(r) ==> vx_out1@ == out0) && (!seen0.contains(r) ==> vx_out1@.len() == out0.len() + 1 && vx_out1@[out0.len() as int]@ == r);
        lemma_reps_step(ty, h, inp, k, seen0, out0, r, vx_seen2_1@, vx_out1@);
    }
@at L0a
    let h = choose|h: Seq<VxOp>| is_group(h, n, symmetries@) && h_list(ty, h);
    lemma_reps_finish(ty, h, n, inp, vx_seen2_1@, vx_out1@);
