@fn find/find_write.rs string_to_sequence #c19
@opts str=vx
@spec
    requires exists|t: Seq<i8>| pm(t) && s@ == #[trigger] sign_text(t),
    ensures pm(r@), sign_text(r@) == s@,
@loop 0
    invariant it0.seq() == s@, pm(res@), sign_text(res@) == s@.take(it0.index@),
@at L0b
    assert(sign_text(res@) =~= s@.take(0));
@at L0s
!raw let ghost vx_i = it0.index@; proof { let t = choose|t: Seq<i8>| pm(t) && s@ == #[trigger] sign_text(t); assert(s@[vx_i] == sign_char(t[vx_i])); }
@at L0e
    assert(sign_text(res@) =~= s@.take(vx_i + 1));
@at L0a
    assert(s@.take(s@.len() as int) =~= s@);

@fn find/find_write.rs file_to_sequences #c19
@opts str=vx
@spec
    requires readable(filename@), exists|l: Seq<Seq<i8>>| all_pm(l) && file_lines(filename@) == #[trigger] texts_of(l),
    ensures forall|l: Seq<Seq<i8>>| all_pm(l) && file_lines(filename@) == #[trigger] texts_of(l) ==> reads(r@, l),
@at fs
!raw let ghost vx_l = choose|l: Seq<Seq<i8>>| all_pm(l) && file_lines(filename@) == #[trigger] texts_of(l);
@loop 0
    invariant
        all_pm(vx_l), it0.seq().len() == vx_l.len(), forall|i: int| 0 <= i < vx_l.len() ==> (#[trigger] it0.seq()[i]) is Ok && it0.seq()[i]->Ok_0@ == sign_text(vx_l[i]),
        reads(seq@, vx_l.take(it0.index@)),
@at L0s
!raw let ghost vx_i = it0.index@; proof { assert(it0.seq()[vx_i]->Ok_0@ == sign_text(vx_l[vx_i])); assert(pm(vx_l[vx_i])); }
@at L0e
    lemma_sign_text(seq@[vx_i]@, vx_l[vx_i]);
    assert forall|k: int| 0 <= k < vx_i + 1 implies (#[trigger] seq@[k])@ == vx_l.take(vx_i + 1)[k] by { if k < vx_i { assert(vx_l.take(vx_i)[k] == vx_l[k]); } }
@at fe
    assert(file_lines(filename@) == texts_of(vx_l));
    assert forall|l: Seq<Seq<i8>>| all_pm(l) && file_lines(filename@) == #[trigger] texts_of(l) implies reads(vx_ret@, l) by {
        assert(l.len() == texts_of(l).len());
        assert forall|k: int| 0 <= k < l.len() implies l[k] == vx_l[k] by { assert(texts_of(l)[k] == texts_of(vx_l)[k]); lemma_sign_text(l[k], vx_l[k]); }
        assert(l =~= vx_l);
    }

@fn find/find_write.rs get_tag_from_filename #c19
@opts str=vx
@spec
    requires exists|t: SequenceTag, u: SequenceTag| filename@ == #[trigger] pair_name(t, u),
    ensures filename@ == pair_name(r.0, r.1),
@at fs
    let (t, u) = choose|t: SequenceTag, u: SequenceTag| filename@ == #[trigger] pair_name(t, u); lemma_names(Seq::empty(), t, u);

@fn find/find_write.rs get_sequences_from_dir #c19
@opts str=vx
@spec
    requires exists|l: SL| #[trigger] seq_files(directory@, l),
    ensures forall|l: SL| #[trigger] seq_files(directory@, l) ==> reads4(r, l),
@at fs
!raw let ghost vx_l = choose|l: SL| #[trigger] seq_files(directory@, l); let ghost vx_d = dir_list(directory@);
@loop 0
    invariant
        seq_files(directory@, vx_l), vx_d == dir_list(directory@),
        it0.seq().len() == vx_d.len(), forall|i: int| 0 <= i < vx_d.len() ==> (#[trigger] it0.seq()[i]) is Ok && it0.seq()[i]->Ok_0@ == vx_d[i],
        vx_d.take(it0.index@).contains(in_dir(directory@, seq_name(SequenceTag::W))) ==> reads(sequence_w@, vx_l.w),
        vx_d.take(it0.index@).contains(in_dir(directory@, seq_name(SequenceTag::X))) ==> reads(sequence_x@, vx_l.x),
        vx_d.take(it0.index@).contains(in_dir(directory@, seq_name(SequenceTag::Y))) ==> reads(sequence_y@, vx_l.y),
        vx_d.take(it0.index@).contains(in_dir(directory@, seq_name(SequenceTag::Z))) ==> reads(sequence_z@, vx_l.z),
@at L0b
    assert(vx_d.take(0) =~= Seq::empty());
@at L0s
!raw let ghost vx_i = it0.index@; proof {
    assert(it0.seq()[vx_i]->Ok_0@ == vx_d[vx_i]);
    lemma_names(directory@, SequenceTag::W, SequenceTag::W); lemma_names(directory@, SequenceTag::X, SequenceTag::X); lemma_names(directory@, SequenceTag::Y, SequenceTag::Y); lemma_names(directory@, SequenceTag::Z, SequenceTag::Z);
    lemma_names_differ();
    assert forall|t: SequenceTag| true implies in_dir(directory@, #[trigger] seq_name(t)) == vx_d[vx_i] || (vx_d.take(vx_i + 1).contains(in_dir(directory@, seq_name(t))) ==> vx_d.take(vx_i).contains(in_dir(directory@, seq_name(t)))) by { if in_dir(directory@, seq_name(t)) != vx_d[vx_i] && vx_d.take(vx_i + 1).contains(in_dir(directory@, seq_name(t))) { lemma_take_has(vx_d, vx_i, in_dir(directory@, seq_name(t))); } }
    if is_seq_file(vx_d[vx_i]) {
        let t = choose|t: SequenceTag| vx_d[vx_i] == in_dir(directory@, #[trigger] seq_name(t));
        lemma_in_dir(directory@, t);
    }
    }
@at fe
    assert(vx_d.take(vx_d.len() as int) =~= vx_d);
    assert(dir_list(directory@).contains(in_dir(directory@, seq_name(SequenceTag::W))) && dir_list(directory@).contains(in_dir(directory@, seq_name(SequenceTag::X))) && dir_list(directory@).contains(in_dir(directory@, seq_name(SequenceTag::Y))) && dir_list(directory@).contains(in_dir(directory@, seq_name(SequenceTag::Z))));
    assert forall|l: SL| #[trigger] seq_files(directory@, l) implies reads4(vx_ret, l) by { lemma_same_lists(directory@, l, vx_l); }

@fn find/find_write.rs get_order_from_dir #c19
@opts str=vx
@spec
    requires exists|g: Tg, i: int, j: int| #[trigger] pair_files_at(directory@, g, i, j),
    ensures forall|g: Tg, i: int, j: int| #[trigger] pair_files_at(directory@, g, i, j) ==> r.0.0@ == dir_list(directory@)[i] && r.0.1@ == dir_list(directory@)[j] && r.1 == g,
@at fs
!raw let ghost vx_c = choose|c: (Tg, int, int)| pair_files_at(directory@, c.0, c.1, c.2); let ghost vx_d = dir_list(directory@); let ghost (vx_g, vx_p, vx_q) = (vx_c.0, vx_c.1, vx_c.2);
proof { let (g, i, j) = choose|g: Tg, i: int, j: int| #[trigger] pair_files_at(directory@, g, i, j); let c = (g, i, j); assert(pair_files_at(directory@, c.0, c.1, c.2)); }
@loop 0
    invariant
        pair_files_at(directory@, vx_g, vx_p, vx_q), vx_d == dir_list(directory@),
        it0.seq().len() == vx_d.len(), forall|i: int| 0 <= i < vx_d.len() ==> (#[trigger] it0.seq()[i]) is Ok && it0.seq()[i]->Ok_0@ == vx_d[i],
        texts(filenames@) && texts(pathnames@), filenames@.len() == pathnames@.len(), filenames@.len() == (if vx_p < it0.index@ { 1int } else { 0 }) + (if vx_q < it0.index@ { 1int } else { 0 }),
        vx_p < it0.index@ ==> text_at(pathnames@, 0, vx_d[vx_p]) && text_at(filenames@, 0, pair_name(vx_g.0, vx_g.1)),
        vx_q < it0.index@ ==> text_at(pathnames@, 1, vx_d[vx_q]) && text_at(filenames@, 1, pair_name(vx_g.2, vx_g.3)),
@at L0s
!raw let ghost vx_i = it0.index@; proof { assert(it0.seq()[vx_i]->Ok_0@ == vx_d[vx_i]); lemma_names(directory@, vx_g.0, vx_g.1); lemma_names(directory@, vx_g.2, vx_g.3); }
@at fe
    assert forall|g: Tg, i: int, j: int| #[trigger] pair_files_at(directory@, g, i, j) implies vx_ret.0.0@ == vx_d[i] && vx_ret.0.1@ == vx_d[j] && vx_ret.1 == g by {
        lemma_names(directory@, vx_g.0, vx_g.1); lemma_names(directory@, vx_g.2, vx_g.3); lemma_names(directory@, g.0, g.1); lemma_names(directory@, g.2, g.3);
        assert(is_pair_file(vx_d[vx_p]) && is_pair_file(vx_d[vx_q])); assert(is_pair_file(vx_d[i]) && is_pair_file(vx_d[j]));
        assert(i == vx_p && j == vx_q);
        lemma_pair_name(g.0, g.1, vx_ret.1.0, vx_ret.1.1, directory@); lemma_pair_name(g.2, g.3, vx_ret.1.2, vx_ret.1.3, directory@);
    }

@fn find/find_write.rs join_pairs #c19
@opts str=vx
@spec
    requires rep_type(seqtype), 1 <= p <= 31, search_ready(seqtype, p as int, root_name(seqtype, p as int)),
    ensures search_result(seqtype, p as int, r@),
@at fs
!raw let ghost vx_n = p as int; let ghost vx_ty = seqtype; let ghost vx_r = root_name(seqtype, p as int); let ghost vx_d = dir_list(vx_r);
proof { lemma_found_start(vx_ty, vx_n, vx_d); }
@loop 0
    invariant
        1 <= vx_n <= 31, rep_type(vx_ty), search_ready(vx_ty, vx_n, vx_r), vx_d == dir_list(vx_r), vx_ty == seqtype,
        it0.seq().len() == vx_d.len(), forall|i: int| 0 <= i < vx_d.len() ==> (#[trigger] it0.seq()[i]) is Ok && it0.seq()[i]->Ok_0@ == vx_d[i],
        found_ok(vx_ty, vx_n, result@), found_upto(vx_ty, vx_n, vx_d, it0.index@, result@),
@at L0s
!raw let ghost vx_i = it0.index@; let ghost vx_p = vx_d[vx_i]; let ghost vx_s = result@;
proof { assert(it0.seq()[vx_i]->Ok_0@ == vx_p); if is_a_dir(vx_p) { lemma_dir_start(vx_ty, vx_n, vx_p); } else { lemma_found_skip(vx_ty, vx_n, vx_d, vx_i, vx_s); } }
@at I0e
    let x = result@.skip(vx_s.len() as int);
    assert(result@ =~= vx_s + x);
    lemma_dir_all(vx_ty, vx_n, vx_p, sequences, pathnames.0@, pathnames.1@, order);
    lemma_found_add(vx_ty, vx_n, vx_d, vx_i, vx_s, x, dir_join(vx_ty, sequences, pathnames.0@, pathnames.1@, order));
@at L0a
    lemma_found_res(vx_ty, vx_n, result@); lemma_norms_start(vx_ty, result@);
@loop 1
    invariant
        1 <= vx_n <= 31, vx_ty == SequenceType::QuaternionType, res_ok(result@, vx_n),
        it1.seq().len() == result@.len(), forall|i: int| 0 <= i < result@.len() ==> *(#[trigger] it1.seq()[i]) == result@[i],
        norms_upto(vx_ty, result@, it1.index@, vx_out1@), forall|v: QV| #[trigger] vx_seen2_1@.contains(v) <==> has_q(vx_out1@, v),
@at L1s
!raw let ghost vx_o = vx_out1@; let ghost vx_k = it1.index@; proof { assert(*it1.seq()[vx_k] == result@[vx_k]); }
@at L1e
    lemma_has_push(vx_o, vx_m1_1); lemma_norms_step(vx_ty, result@, vx_k, vx_o, vx_out1@, vx_m1_1);
@at L1a
    lemma_norms_list(vx_ty, vx_n, result@, vx_out1@);
@loop 2
    invariant
        1 <= vx_n <= 31, vx_ty == SequenceType::WilliamsonType || vx_ty == SequenceType::Williamson, res_ok(result@, vx_n),
        it2.seq().len() == result@.len(), forall|i: int| 0 <= i < result@.len() ==> *(#[trigger] it2.seq()[i]) == result@[i],
        norms_upto(vx_ty, result@, it2.index@, vx_out2@), forall|v: QV| #[trigger] vx_seen2_2@.contains(v) <==> has_q(vx_out2@, v),
@at L2s
!raw let ghost vx_o = vx_out2@; let ghost vx_k = it2.index@; proof { assert(*it2.seq()[vx_k] == result@[vx_k]); }
@at L2e
    lemma_has_push(vx_o, vx_m1_2); lemma_norms_step(vx_ty, result@, vx_k, vx_o, vx_out2@, vx_m1_2);
@at L2a
    lemma_norms_list(vx_ty, vx_n, result@, vx_out2@);
@at fe
    lemma_norms_list(vx_ty, vx_n, result@, filtered@);
    theorem_search(vx_ty, vx_n, vx_r, result@, filtered@, vx_ret@);
