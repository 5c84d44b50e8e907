@fn sequences/symmetries.rs SequenceType::equivalences
@subst \bequivalent_\w+ => VxOp::\g<0>
@spec
    ensures is_type_ops(*self, r@),
@at fe
    let s = vx_ret@;
    assert forall|f: VxOp| (exists|i: int| 0 <= i < s.len() && s[i] == f) <==> #[trigger] type_op(*self, f) by {
        if s.len() > 0 { assert(s[0] == s[0]); } if s.len() > 1 { assert(s[1] == s[1]); } if s.len() > 2 { assert(s[2] == s[2]); }
        if s.len() > 3 { assert(s[3] == s[3]); } if s.len() > 4 { assert(s[4] == s[4]); } if s.len() > 5 { assert(s[5] == s[5]); }
    }

@fn sequences/equivalence.rs generate_equivalence_class
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@spec
    requires wfx(*seq), 1 <= seq.size <= 100,
    ensures forall|p: QV| #[trigger] r@.contains(p) <==> reach(step_of(equivalences@), seq@, p),
        forall|p: QV| #[trigger] reach(step_of(equivalences@), seq@, p) ==> r@.contains(p),
        r@.contains(seq@), forall|p: QV| #[trigger] r@.contains(p) ==> wfl(p) && p.n == seq@.n,
@at fs
!raw let ghost q0 = seq@; let ghost fs = equivalences@; let ghost st = step_of(fs); proof { lemma_step_all(fs, q0); }
@loop 0
    invariant
        class@.contains(q0), wfl(q0), 1 <= q0.n <= 100, q0.n <= maxn(), fs == equivalences@, st == step_of(fs),
        forall|p: QV| #[trigger] class@.contains(p) ==> reach(st, q0, p) && wfl(p) && p.n == q0.n,
        forall|x: QV, y: QV, f: VxOp| #[trigger] reach(st, q0, x) && fs.contains(f) && #[trigger] op_rel(f, x, y) ==> reach(st, q0, y),
    ensures
        class@.contains(q0), forall|p: QV| #[trigger] class@.contains(p) ==> reach(st, q0, p) && wfl(p) && p.n == q0.n,
        forall|p: QV| #[trigger] reach(st, q0, p) ==> class@.contains(p),
@loop 1
    invariant
        forall|p: QV| #[trigger] new@.contains(p) ==> reach(st, q0, p) && wfl(p) && p.n == q0.n,
        forall|j: int| 0 <= j < it1.seq().len() ==> class@.contains(#[trigger] it1.seq()[j]@),
        forall|p: QV| #[trigger] class@.contains(p) ==> 0 <= vx_pos(class, p) < it1.seq().len() && it1.seq()[vx_pos(class, p)]@ == p,
        forall|j: int, f: VxOp, y: QV| 0 <= j < it1.index@ && fs.contains(f) && #[trigger] op_rel(f, it1.seq()[j]@, y) ==> class@.contains(y) || new@.contains(y),
@at L1s
!raw let ghost x0 = seq@; let ghost new0 = new@; proof { assert(it1.seq()[it1.index@]@ == x0); assert(class@.contains(x0)); lemma_ops_wf(x0); }
@loop 2
    invariant
        forall|p: QV| #[trigger] new0.contains(p) ==> new@.contains(p),
        forall|p: QV| #[trigger] new@.contains(p) ==> reach(st, q0, p) && wfl(p) && p.n == q0.n,
        forall|j: int| 0 <= j < it2.seq().len() ==> #[trigger] it2.seq()[j] == fs[j], it2.seq().len() == fs.len(),
        forall|j: int, y: QV| 0 <= j < it2.index@ && #[trigger] op_rel(fs[j], x0, y) ==> class@.contains(y) || new@.contains(y),
@at L2s
!raw let ghost f0 = *equivalence; let ghost new1 = new@; proof { assert(it2.seq()[it2.index@] == f0); assert(fs.contains(f0)); }
@loop 3
    invariant
        forall|p: QV| #[trigger] new1.contains(p) ==> new@.contains(p),
        forall|p: QV| #[trigger] new@.contains(p) ==> reach(st, q0, p) && wfl(p) && p.n == q0.n,
        forall|j: int| 0 <= j < it3.seq().len() ==> op_rel(f0, x0, #[trigger] it3.seq()[j]@),
        forall|y: QV| #[trigger] op_rel(f0, x0, y) ==> exists|j: int| 0 <= j < it3.seq().len() && #[trigger] it3.seq()[j]@ == y,
        forall|j: int| 0 <= j < it3.index@ ==> class@.contains(#[trigger] it3.seq()[j]@) || new@.contains(it3.seq()[j]@),
@at L1a
    if new@.len() == 0 {
        assert(new@ =~= Set::<QV>::empty());
        assert forall|x: QV, y: QV, f: VxOp| #[trigger] class@.contains(x) && fs.contains(f) && #[trigger] op_rel(f, x, y) implies class@.contains(y) by {
            let j = vx_pos(class, x);
        }
        lemma_closed(fs, q0, class@);
    }
@loop 4
    invariant
        class@.contains(q0), forall|p: QV| #[trigger] class@.contains(p) ==> reach(st, q0, p) && wfl(p) && p.n == q0.n,
        forall|j: int| 0 <= j < it4.seq().len() ==> reach(st, q0, #[trigger] it4.seq()[j]@) && wfl(it4.seq()[j]@) && it4.seq()[j]@.n == q0.n,
