@fn sequences/williamson.rs QUADRUPLETS #all16
@spec
    ensures all16(r@),

@fn find/find_unique.rs find_recursive
@spec
    requires wfq(*old(will)), size == old(will).size, index <= size, 1 <= size <= maxq(),
    ensures wfq(*final(will)), final(will).size == size, agree(final(will)@, old(will)@, index as int),
        final(sequences)@.len() >= old(sequences)@.len(), final(sequences)@.take(old(sequences)@.len() as int) == old(sequences)@,
        lists(final(sequences)@.skip(old(sequences)@.len() as int), old(will)@, index as int),
        once(final(sequences)@.skip(old(sequences)@.len() as int)), index == 0 ==> lists_all(final(sequences)@.skip(old(sequences)@.len() as int), size as int),
    decreases size - index,
@at fs
!raw let vx_quads = vx_init_QUADRUPLETS(); let ghost w0 = will@; let ghost s0 = sequences@; let ghost n0 = sequences@.len() as int; let ghost t = vx_quads@; proof { assert(s0.skip(n0) =~= Seq::empty()); assert(s0.take(n0) =~= s0); lemma_rows_empty(w0, index as int, t);
    if index >= size {
        if is_qts(w0) {
            assert forall|x: QuadSeq| x@ == w0 implies lists((#[trigger] s0.push(x)).skip(n0), w0, index as int) && once(s0.push(x).skip(n0)) && s0.push(x).take(n0) == s0 by {
                assert(s0.push(x).skip(n0) =~= seq![x]); assert(s0.push(x).take(n0) =~= s0); lemma_leaf_hits(w0, seq![x]);
            }
        } else { lemma_leaf_hits(w0, s0.skip(n0)); }
    } }
@subst \bQUADRUPLETS\.iter => vx_quads.iter
@loop 0
    invariant it0.seq().len() == 16, forall|j: int| 0 <= j < 16 ==> *#[trigger] it0.seq()[j] == vx_quads@[j], t == vx_quads@, all16(t),
        wfq(*will), will.size == size, agree(will@, w0, index as int), wfv(w0), w0.n == size, index < size,
        sequences@.len() >= n0, sequences@.take(n0) == s0, n0 == s0.len(),
        lists_rows(sequences@.skip(n0), w0, index as int, t, it0.index@), once(sequences@.skip(n0)),
@at L0s
!raw let ghost before = sequences@; let ghost wb = will@; let ghost m = it0.index@ as int;
@at L0e
    let e = sequences@.skip(before.len() as int);
    let w1 = QV { n: wb.n, a: wb.a.update(index as int, t[m].0), b: wb.b.update(index as int, t[m].1), c: wb.c.update(index as int, t[m].2), d: wb.d.update(index as int, t[m].3) };
    assert(at(w1, index as int) == t[m]);
    assert forall|j: int| 0 <= j < index implies #[trigger] at(w1, j) == at(w0, j) by { assert(at(wb, j) == at(w0, j)); }
    assert forall|j: int| 0 <= j < index implies #[trigger] at(will@, j) == at(w0, j) by { assert(at(w1, j) == at(w0, j)); assert(at(will@, j) == at(w1, j)); }
    lemma_row_step(before.skip(n0), e, w0, w1, index as int, t, m);
    assert(sequences@ =~= before + e);
    assert(sequences@.skip(n0) =~= before.skip(n0) + e);
    assert(sequences@.take(n0) =~= s0) by { assert(before.take(n0) =~= s0); }
@at fe
    lemma_rows_all(sequences@.skip(n0), w0, index as int, t);
    if index == 0 { lemma_lists_all(sequences@.skip(n0), w0); }

@fn find/find_unique.rs find_aux
@spec
    requires 1 <= size <= maxq(),
    ensures lists_all(r@, size as int), once(r@),
@at fe
    assert(vx_ret@.skip(0) =~= vx_ret@);
