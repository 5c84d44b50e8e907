@fn find/find_write.rs get_line_from
@spec
    requires seq is Some, seq->0 is Ok, wf_line(seq->0->Ok_0@),
    ensures r.0@ == key(seq->0->Ok_0@), r.1 == idx(seq->0->Ok_0@),
@at fs
    lemma_first(seq->0->Ok_0@, sep());
    assert(head(seq->0->Ok_0@, sep()) + sep() =~= key(seq->0->Ok_0@)) by { let k = first(seq->0->Ok_0@, sep()); assert(sep() == seq->0->Ok_0@.subrange(k, k + sep().len())); }

@fn find/find_write.rs get_sequence_aux
@spec
    requires tags_apart(*order), in_range(*sequences, *order, *indices),
    ensures r@ == pick(*sequences, *order, *indices, tag),

@fn find/find_write.rs get_sequences
@spec
    requires tags_apart(*order), in_range(*sequences, *order, *indices),
    ensures r.0@ == pick(*sequences, *order, *indices, SequenceTag::W), r.1@ == pick(*sequences, *order, *indices, SequenceTag::X),
        r.2@ == pick(*sequences, *order, *indices, SequenceTag::Y), r.3@ == pick(*sequences, *order, *indices, SequenceTag::Z),

@fn find/find_write.rs join_pairs_files
@opts iproduct=ref
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::loop_isolation(false)]
@spec
    requires readable(filenames.0@), readable(filenames.1@),
        join_ok(Join { a: file_lines(filenames.0@), b: file_lines(filenames.1@), l: *sequences, o: *order, ty: seqtype }),
    ensures
        forall|i: int| 0 <= i < r@.len() ==> wfq(#[trigger] r@[i]),
        qvs(r@).to_multiset() == joined(Join { a: file_lines(filenames.0@), b: file_lines(filenames.1@), l: *sequences, o: *order, ty: seqtype }).to_multiset(),
@at fs
!raw let ghost vx_c = Join { a: file_lines(filenames.0@), b: file_lines(filenames.1@), l: *sequences, o: *order, ty: seqtype }; proof { lemma_join_lines(vx_c); }
@loop 0
    invariant
        join_ok(vx_c),
        at_line(lines12, line12, vx_c.a), at_line(lines34, line34, vx_c.b),
        past(vx_c, cur(lines12, line12), cur(lines34, line34)),
        forall|i: int| 0 <= i < result@.len() ==> wfq(#[trigger] result@[i]), qvs(result@) == rows(vx_c, cur(lines12, line12)),
        cur(lines34, line34) == vx_c.b.len() || cur(lines34, line34) < vx_c.b.len(),
    decreases vx_c.a.len() - cur(lines12, line12) + vx_c.b.len() - cur(lines34, line34),
@at L0b
    assert(qvs(result@) =~= Seq::<QV>::empty());
@at L0s
!raw let ghost vx_p = cur(lines12, line12); let ghost vx_r = cur(lines34, line34);
proof { assert(wf_line(vx_c.a[vx_p])); assert(wf_line(vx_c.b[vx_r])); lemma_total(key(vx_c.a[vx_p]), key(vx_c.b[vx_r])); }
@at L0e
    if sless(key(vx_c.a[vx_p]), key(vx_c.b[vx_r])) { lemma_asym(key(vx_c.a[vx_p]), key(vx_c.b[vx_r])); lemma_skip_a(vx_c, vx_p, vx_r); }
    else if key(vx_c.a[vx_p]) != key(vx_c.b[vx_r]) { lemma_skip_b(vx_c, vx_p, vx_r); }
@loop 1
    invariant
        line12 is Some, at_line(lines12, line12, vx_c.a), seq12@ == key(vx_c.a[cur(lines12, line12)]), indices12 == idx(vx_c.a[cur(lines12, line12)]),
        group(possible_matching_12@, vx_c.a, vx_p, cur(lines12, line12), current_seq@),
    ensures
        at_line(lines12, line12, vx_c.a),
        group(possible_matching_12@, vx_c.a, vx_p, cur(lines12, line12), current_seq@),
        same_keys(vx_c.a, vx_p, cur(lines12, line12), current_seq@),
    decreases vx_c.a.len() - cur(lines12, line12),
@at L1s
    assert(forall|i: int| 0 <= i < vx_c.a.len() ==> wf_line(#[trigger] vx_c.a[i]));
@loop 2
    invariant
        line34 is Some, at_line(lines34, line34, vx_c.b), seq34@ == key(vx_c.b[cur(lines34, line34)]), indices34 == idx(vx_c.b[cur(lines34, line34)]),
        group(possible_matching_34@, vx_c.b, vx_r, cur(lines34, line34), current_seq@),
    ensures
        at_line(lines34, line34, vx_c.b),
        group(possible_matching_34@, vx_c.b, vx_r, cur(lines34, line34), current_seq@),
        same_keys(vx_c.b, vx_r, cur(lines34, line34), current_seq@),
    decreases vx_c.b.len() - cur(lines34, line34),
@at L2s
    assert(forall|i: int| 0 <= i < vx_c.b.len() ==> wf_line(#[trigger] vx_c.b[i]));
@at L3b
    lemma_group(vx_c, vx_p, cur(lines12, line12), vx_r, cur(lines34, line34), current_seq@);
@loop 3
    invariant forall|i: int| 0 <= i < result@.len() ==> wfq(#[trigger] result@[i]), qvs(result@) == rows(vx_c, vx_p + it3.index@),
@at L4b
    assert(row(vx_c, vx_p + it3.index@, vx_r) == Seq::<QV>::empty());
    assert(rows(vx_c, vx_p + it3.index@) + row(vx_c, vx_p + it3.index@, vx_r) =~= rows(vx_c, vx_p + it3.index@));
@loop 4
    invariant forall|i: int| 0 <= i < result@.len() ==> wfq(#[trigger] result@[i]), qvs(result@) == rows(vx_c, vx_p + it3.index@) + row(vx_c, vx_p + it3.index@, vx_r + it4.index@),
@at L4s
!raw let ghost vx_i = vx_p + it3.index@; let ghost vx_j = vx_r + it4.index@; let ghost vx_b = result@;
proof { lemma_quad(vx_c, vx_i, vx_j); assert(key(vx_c.a[vx_i]) == current_seq@); assert(key(vx_c.b[vx_j]) == current_seq@); assert(possible_matching_12@[vx_i - vx_p] == idx(vx_c.a[vx_i])); assert(possible_matching_34@[vx_j - vx_r] == idx(vx_c.b[vx_j])); }
@at L4e
    assert(indices == indices_of(vx_c, vx_i, vx_j));
    let x = quad_at(vx_c, vx_i, vx_j);
    if is_type(x, vx_c.ty) {
        assert(qvs(result@) =~= qvs(vx_b).push(x));
        assert(rows(vx_c, vx_i) + row(vx_c, vx_i, vx_j).push(x) =~= (rows(vx_c, vx_i) + row(vx_c, vx_i, vx_j)).push(x));
    } else { assert(result@ == vx_b); }
@at L4a
    assert(row(vx_c, vx_p + it3.index@, vx_c.b.len() as int) == row(vx_c, vx_p + it3.index@, cur(lines34, line34))) by { assert(row(vx_c, vx_p + it3.index@, vx_r) == Seq::<QV>::empty()); }
@at L0a
    let p = cur(lines12, line12); let r = cur(lines34, line34);
    lemma_tail(vx_c, p, r);
