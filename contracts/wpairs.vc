@fn find/find_write.rs write_seq_pairs #c19
@opts str=vx
@spec
    requires
        okfile(sequences.0@, p as int), okfile(sequences.1@, p as int), 0 < p <= maxdft(),
        all_rowsum(sequences.0@, tag_rowsum(*tags.0, rs)), all_rowsum(sequences.1@, tag_rowsum(*tags.1, rs)), *tags.0 != *tags.1,
        seqtype is QuaternionType || seqtype is WilliamsonType || seqtype is Williamson, match_option is CORRELATION,
    ensures r <= area(sequences.0@.len() as int, sequences.1@.len() as int, 0), has_pair_file(Side { ty: seqtype, tags: (*tags.0, *tags.1), n: p as int, side: side }, folder_path@, sequences.0@, sequences.1@),
@at fs
!raw let ghost vx_c = Side { ty: seqtype, tags: (*tags.0, *tags.1), n: p as int, side: side }; let ghost (vx_f, vx_g) = (sequences.0@, sequences.1@); proof { lemma_okfiles(vx_f, vx_g, p as int); }
@at L0b
!raw let ghost mut vx_ls: Seq<Seq<char>> = Seq::empty();
proof { lemma_lines_start(vx_c, vx_f.len() as int, vx_g.len() as int); lemma_lines_none(vx_c, vx_f, vx_g); reveal_strlit(""); assert(ended(vx_ls) =~= Seq::empty()); assert(buffer@ =~= Seq::empty()); assert(f.data@ + utf8(buffer@) =~= utf8(joined_text(ended(vx_ls)))); }
@loop 0
    invariant
        all_data_ok(it0.seq(), vx_f, vx_g), kept_to(it0.seq(), vx_f, vx_g, (4 * p) as real, vx_f.len() as int, 0), it0.seq().len() <= usize::MAX, it0.seq().len() <= area(vx_f.len() as int, vx_g.len() as int, 0),
        counter == vx_ls.len(), vx_ls.len() <= it0.index@,
        f.name@ == folder_path@ + "/pair_"@ + tag_text(*tags.0) + tag_text(*tags.1) + ".pair"@,
        f.data@ + utf8(buffer@) == utf8(joined_text(ended(vx_ls))),
        lines_upto(vx_c, it0.seq(), it0.index@, vx_ls, vx_f.len() as int, vx_g.len() as int),
        it0.index@ < it0.seq().len() || pairs_in(vx_c, vx_f, vx_g, vx_ls),
@at L0s
!raw let ghost vx_v = it0.seq(); let ghost vx_i = it0.index@; let ghost vx_d = pair; let ghost vx_b = f.data@ + utf8(buffer@); let ghost (vx_x, vx_y) = (vx_d.seq_enum1.1@, vx_d.seq_enum2.1@);
proof { assert(vx_d == vx_v[vx_i]); assert(data_ok(vx_v[vx_i], vx_f, vx_g)); assert(okseq(vx_x, p as int) && okseq(vx_y, p as int)); }
@at L0e
    assert(f.data@ + utf8(buffer@) =~= vx_b + utf8(if wkept(vx_c, vx_x, vx_y) { line_of(ckey(vx_c, vx_x, vx_y), vx_d) + nl() } else { Seq::empty() }));
    lemma_ckey_text(vx_c, vx_x, vx_y);
    lemma_lines_step(vx_c, vx_v, vx_i, vx_ls, wkept(vx_c, vx_x, vx_y), ckey(vx_c, vx_x, vx_y), vx_f.len() as int, vx_g.len() as int);
    lemma_ended_push(vx_ls, line_of(ckey(vx_c, vx_x, vx_y), vx_d));
    if wkept(vx_c, vx_x, vx_y) { vx_ls = vx_ls.push(line_of(ckey(vx_c, vx_x, vx_y), vx_d)); }
    lemma_lines_last(vx_c, vx_v, vx_i + 1, vx_f, vx_g, vx_ls);
@loop 1
    invariant it1.seq().len() == avals(vx_x, vx_y).len(), forall|i: int| 0 <= i < it1.seq().len() ==> #[trigger] it1.seq()[i] == avals(vx_x, vx_y)[i] && it1.seq()[i] > isize::MIN, result@ == num_key(on_side(side, avals(vx_x, vx_y)).take(it1.index@)),
@at L1b
    lemma_num_key0(on_side(side, avals(vx_x, vx_y))); lemma_auto_vals(autoc_values@, vx_x, vx_y); lemma_cross_vals(crossc_values@, vx_x, vx_y, vx_c.tags);
@at L1s
    lemma_num_key(on_side(side, avals(vx_x, vx_y)), it1.index@);
@loop 2
    invariant it2.seq().len() == cvals(vx_x, vx_y, vx_c.tags).len(), forall|i: int| 0 <= i < it2.seq().len() ==> #[trigger] it2.seq()[i] == cvals(vx_x, vx_y, vx_c.tags)[i] && it2.seq()[i] > isize::MIN, result@ == akey(vx_c, vx_x, vx_y) + num_key(on_side(side, cvals(vx_x, vx_y, vx_c.tags)).take(it2.index@)),
@at L2b
    lemma_num_key0(on_side(side, cvals(vx_x, vx_y, vx_c.tags))); assert(result@ =~= akey(vx_c, vx_x, vx_y) + Seq::empty());
@at L2s
    lemma_num_key(on_side(side, cvals(vx_x, vx_y, vx_c.tags)), it2.index@);
@loop 3
    invariant it3.seq().len() == cvals(vx_x, vx_y, vx_c.tags).len(), forall|i: int| 0 <= i < it3.seq().len() ==> #[trigger] it3.seq()[i] == cvals(vx_x, vx_y, vx_c.tags)[i], vx_out1 == any_cross(vx_x, vx_y, vx_c.tags, it3.index@),
@at L3s
    assert(it3.seq()[it3.index@] == cvals(vx_x, vx_y, vx_c.tags)[it3.index@]);
@at L3a
    lemma_wkept(vx_c, vx_x, vx_y);
@loop 4
    invariant false,
@loop 5
    invariant false,
@loop 6
    invariant false,
@at fe
    assert(f.data@ == utf8(joined_text(ended(vx_ls))));
    vx_close::axiom_closed(f);
    assert(pair_file(vx_c, folder_path@, vx_f, vx_g, vx_ls));

@fn find/find_write.rs write_seq_pairs #c25
@opts str=vx
@spec
    requires
        okfile(sequences.0@, p as int), okfile(sequences.1@, p as int), 0 < p <= maxdft(),
        all_rowsum(sequences.0@, tag_rowsum(*tags.0, rs)), all_rowsum(sequences.1@, tag_rowsum(*tags.1, rs)), *tags.0 != *tags.1,
        seqtype is QuaternionType || seqtype is WilliamsonType || seqtype is Williamson, option_is(match_option),
    ensures r <= area(sequences.0@.len() as int, sequences.1@.len() as int, 0), has_pair_file(Side { ty: seqtype, tags: (*tags.0, *tags.1), n: p as int, side: side }, folder_path@, sequences.0@, sequences.1@),
@at fs
!raw let ghost vx_c = Side { ty: seqtype, tags: (*tags.0, *tags.1), n: p as int, side: side }; let ghost (vx_f, vx_g) = (sequences.0@, sequences.1@); proof { lemma_okfiles(vx_f, vx_g, p as int); }
@at L0b
!raw let ghost mut vx_ls: Seq<Seq<char>> = Seq::empty();
proof { lemma_lines_start(vx_c, vx_f.len() as int, vx_g.len() as int); lemma_lines_none(vx_c, vx_f, vx_g); reveal_strlit(""); assert(ended(vx_ls) =~= Seq::empty()); assert(buffer@ =~= Seq::empty()); assert(f.data@ + utf8(buffer@) =~= utf8(joined_text(ended(vx_ls)))); }
@loop 0
    invariant
        all_data_ok(it0.seq(), vx_f, vx_g), kept_to(it0.seq(), vx_f, vx_g, (4 * p) as real, vx_f.len() as int, 0), it0.seq().len() <= usize::MAX, it0.seq().len() <= area(vx_f.len() as int, vx_g.len() as int, 0),
        counter == vx_ls.len(), vx_ls.len() <= it0.index@,
        f.name@ == folder_path@ + "/pair_"@ + tag_text(*tags.0) + tag_text(*tags.1) + ".pair"@,
        f.data@ + utf8(buffer@) == utf8(joined_text(ended(vx_ls))),
        lines_upto(vx_c, it0.seq(), it0.index@, vx_ls, vx_f.len() as int, vx_g.len() as int),
        it0.index@ < it0.seq().len() || pairs_in(vx_c, vx_f, vx_g, vx_ls),
@at L0s
!raw let ghost vx_v = it0.seq(); let ghost vx_i = it0.index@; let ghost vx_d = pair; let ghost vx_t = f.data@ + utf8(buffer@); let ghost mut vx_a: Seq<int> = Seq::empty(); let ghost mut vx_b: Seq<int> = Seq::empty(); let ghost (vx_x, vx_y) = (vx_d.seq_enum1.1@, vx_d.seq_enum2.1@);
proof { assert(vx_d == vx_v[vx_i]); assert(data_ok(vx_v[vx_i], vx_f, vx_g)); assert(okseq(vx_x, p as int) && okseq(vx_y, p as int)); }
@at L0e
    let vx_w = counter > vx_ls.len();
    let vx_k = some_text(if seqtype is QuaternionType { num_key(vx_a) + num_key(vx_b) } else { num_key(vx_a) });
    lemma_key_text(vx_a, vx_b);
    assert(wkept(vx_c, vx_x, vx_y) ==> vx_w && vx_k == ckey(vx_c, vx_x, vx_y));
    assert(f.data@ + utf8(buffer@) =~= vx_t + utf8(if vx_w { line_of(vx_k, vx_d) + nl() } else { Seq::empty() }));
    lemma_lines_step(vx_c, vx_v, vx_i, vx_ls, vx_w, vx_k, vx_f.len() as int, vx_g.len() as int);
    lemma_ended_push(vx_ls, line_of(vx_k, vx_d));
    if vx_w { vx_ls = vx_ls.push(line_of(vx_k, vx_d)); }
    lemma_lines_last(vx_c, vx_v, vx_i + 1, vx_f, vx_g, vx_ls);
@loop 1
    invariant false,
@loop 2
    invariant false,
@loop 3
    invariant false,
@at L4b
    vx_a = irounds(psd_values@); vx_b = irounds_im(side, cpsd_values@);
    lemma_psd_vals(vx_c, vx_d, psd_values@, vx_f, vx_g); lemma_cpsd_vals(vx_c, vx_d, cpsd_values@, vx_f, vx_g);
    lemma_num_key0(vx_a); lemma_num_key0(vx_b);
@loop 4
    invariant it4.seq().len() == vx_a.len(), forall|i: int| 0 <= i < it4.seq().len() ==> iround(#[trigger] it4.seq()[i]) == vx_a[i], result@ == num_key(vx_a.take(it4.index@)),
@at L4s
    lemma_num_key(vx_a, it4.index@); assert(iround(it4.seq()[it4.index@]) == vx_a[it4.index@]);
@at L5b
    assert(result@ =~= num_key(vx_a) + Seq::empty());
@loop 5
    invariant it5.seq().len() == vx_b.len(), forall|i: int| 0 <= i < it5.seq().len() ==> signed(side, iround((#[trigger] it5.seq()[i]).im)) == vx_b[i] && iround(it5.seq()[i].im) > isize::MIN, result@ == num_key(vx_a) + num_key(vx_b.take(it5.index@)),
@at L5s
    lemma_num_key(vx_b, it5.index@); assert(signed(side, iround(it5.seq()[it5.index@].im)) == vx_b[it5.index@]);
@loop 6
    invariant all_small(it6.seq()) ==> !vx_out2,
@at L6s
    lemma_after_point();
    assert(all_small(it6.seq()) ==> small_im(it6.seq()[it6.index@]));
@at fe
    assert(f.data@ == utf8(joined_text(ended(vx_ls))));
    vx_close::axiom_closed(f);
    assert(pair_file(vx_c, folder_path@, vx_f, vx_g, vx_ls));

@fn find/find_write.rs write_sequences #c19
@opts str=vx
@spec
    requires forall|i: int| 0 <= i < sequences@.len() ==> pm(#[trigger] sequences@[i]@),
    ensures seq_file(folder_path@, *tag, sequences@),
@loop 0
    invariant
        it0.seq().len() == sequences@.len(), forall|i: int| 0 <= i < sequences@.len() ==> *(#[trigger] it0.seq()[i]) == sequences@[i],
        forall|i: int| 0 <= i < sequences@.len() ==> pm(#[trigger] sequences@[i]@),
        f.name@ == folder_path@ + "/seq_"@ + tag_text(*tag) + ".seq"@,
        f.data@ == utf8(joined_text(ended(texts_v(sequences@)).take(it0.index@))),
@at L0b
    lemma_seq_lines0(sequences@);
@at L0s
!raw let ghost vx_i = it0.index@; proof { lemma_seq_lines(sequences@, vx_i); }
@at fe
    vx_close::axiom_closed(f);

@fn find/find_write.rs symmetric
@spec
    requires seq@.len() <= isize::MAX,
    ensures r == sym1(seq@),
@loop 0
    invariant n == seq@.len(), forall|i: int| 1 <= i < t ==> #[trigger] seq@[i] == seq@[n - i],
@at fe
    assert forall|t: int| 1 <= t < seq@.len() implies #[trigger] seq@[t] == seq@[seq@.len() - t] by { if 2 * t > seq@.len() { assert(seq@[seq@.len() - t] == seq@[t]); } }

@fn main.rs str_to_seqtype #c19
@opts str=vx
@spec
    requires exists|ty: SequenceType| n@ == type_text(ty),
    ensures type_text(r) == n@, forall|ty: SequenceType| n@ == type_text(ty) ==> r == ty,
@at fs
    assert forall|a: SequenceType, b: SequenceType| #[trigger] type_text(a) == #[trigger] type_text(b) implies a == b by { lemma_type_text(a, b); }

@fn find/find_write.rs write_pairs_rowsum #c19
@opts str=vx
@subst \bsymmetric\( => vx_symmetric(
@spec
    requires 0 < p <= 31, -p <= rs.0 <= p, -p <= rs.1 <= p, -p <= rs.2 <= p, -p <= rs.3 <= p, option_is(match_option),
        folder@ == type_text(SequenceType::QuaternionType) || folder@ == type_text(SequenceType::WilliamsonType) || folder@ == type_text(SequenceType::Williamson),
    ensures r <= 0x8000_0000_0000_0000 && r <= 2 * (pw(p as int) * pw(p as int)), forall|ty: SequenceType| folder@ == type_text(ty) ==> dir_written(ty, p as int, dir_name(folder@, p as int, rs), rs, tags_for(pairing)),
@at fs
!raw broadcast use lemma_has_self; proof { lemma_pw31(p as int); lemma_area31(pw(p as int)); }
@loop 0
    invariant plain_is(p as int, rs.0 as int, it0.seq()), vx_out1@ == symf(it0.seq(), it0.index@), sym_done(p as int, rs.0 as int, it0.seq(), it0.index@, vx_out1@),
@at L0b
    lemma_sym_start(p as int, rs.0 as int);
@at L0s
!raw let ghost vx_v = it0.seq(); let ghost vx_i = it0.index@; proof { assert(vx_x1 == vx_v[vx_i]); assert(has(vx_v, vx_x1@)); }
@at L0e
    lemma_sym_end(p as int, rs.0 as int, vx_v, vx_i + 1);
@loop 1
    invariant plain_is(p as int, rs.1 as int, it1.seq()), vx_out2@ == symf(it1.seq(), it1.index@), sym_done(p as int, rs.1 as int, it1.seq(), it1.index@, vx_out2@),
@at L1b
    lemma_sym_start(p as int, rs.1 as int);
@at L1s
!raw let ghost vx_v = it1.seq(); let ghost vx_i = it1.index@; proof { assert(vx_x2 == vx_v[vx_i]); assert(has(vx_v, vx_x2@)); }
@at L1e
    lemma_sym_end(p as int, rs.1 as int, vx_v, vx_i + 1);
@loop 2
    invariant plain_is(p as int, rs.2 as int, it2.seq()), vx_out3@ == symf(it2.seq(), it2.index@), sym_done(p as int, rs.2 as int, it2.seq(), it2.index@, vx_out3@),
@at L2b
    lemma_sym_start(p as int, rs.2 as int);
@at L2s
!raw let ghost vx_v = it2.seq(); let ghost vx_i = it2.index@; proof { assert(vx_x3 == vx_v[vx_i]); assert(has(vx_v, vx_x3@)); }
@at L2e
    lemma_sym_end(p as int, rs.2 as int, vx_v, vx_i + 1);
@loop 3
    invariant plain_is(p as int, rs.3 as int, it3.seq()), vx_out4@ == symf(it3.seq(), it3.index@), sym_done(p as int, rs.3 as int, it3.seq(), it3.index@, vx_out4@),
@at L3b
    lemma_sym_start(p as int, rs.3 as int);
@at L3s
!raw let ghost vx_v = it3.seq(); let ghost vx_i = it3.index@; proof { assert(vx_x4 == vx_v[vx_i]); assert(has(vx_v, vx_x4@)); }
@at L3e
    lemma_sym_end(p as int, rs.3 as int, vx_v, vx_i + 1);
@at fe
    let v = (sequences_0@, sequences_1@, sequences_2@, sequences_3@);
    assert(lists_are(seqtype, p as int, rs, v));
    assert(dir_files(seqtype, p as int, folder_path@, rs, tags_for(pairing), v));

@fn find/find_write.rs write_pairs #c19
@opts str=vx
@spec
    requires 1 <= p <= 31, seqtype is QuaternionType || seqtype is WilliamsonType || seqtype is Williamson, option_is(match_option), countable(p as int, seqtype is QuaternionType),
    ensures all_written(seqtype, p as int, pairing), unambiguous(seqtype, p as int, pairing) ==> all_held(seqtype, p as int, pairing), exists|l: Seq<Quad>| #[trigger] is_rowsum_list(p as int, seqtype is QuaternionType, l),
@at fs
!raw let ghost vx_n = p as int; let ghost vx_q = seqtype is QuaternionType; let ghost vx_m = 2 * (pw(vx_n) * pw(vx_n)); proof { lemma_pw31(vx_n); lemma_countable(vx_n, vx_q, vx_m); }
@at L1b
!raw let ghost vx_l = rowsums@; proof { assert(is_rowsum_list(vx_n, vx_q, vx_l)); }
@loop 1
    invariant it1.seq() == vx_l, is_rowsum_list(vx_n, vx_q, vx_l), folder@ == type_text(seqtype), counter <= it1.index@ * vx_m, vx_l.len() * vx_m <= u64::MAX,
        forall|i: int| 0 <= i < it1.index@ ==> dir_written(seqtype, vx_n, dir_name(type_text(seqtype), vx_n, #[trigger] vx_l[i]), vx_l[i], tags_for(pairing)),
@at L1s
!raw let ghost vx_i = it1.index@; proof { assert(rs == vx_l[vx_i]); assert(vx_l.contains(vx_l[vx_i])); lemma_rowsum_bound(vx_n, vx_q, rs); lemma_count(vx_i, vx_l.len() as int, vx_m); }
@at fe
    assert forall|t: Quad| #[trigger] rowsums4(vx_n, vx_q, t) implies dir_written(seqtype, vx_n, dir_name(type_text(seqtype), vx_n, t), t, tags_for(pairing)) by { assert(vx_l.contains(t)); }
    if unambiguous(seqtype, vx_n, pairing) { theorem_all_held(seqtype, vx_n, pairing); }

@fn find/find_write.rs get_indices
@spec
    ensures (pairing is Some && (pair == 1 || pair == 2)) <==> r is Some, r is Some ==> r->0 == (if pair == 1 { (tag_no(tags_for(pairing).0) as usize, tag_no(tags_for(pairing).1) as usize) } else { (tag_no(tags_for(pairing).2) as usize, tag_no(tags_for(pairing).3) as usize) }),

@fn find/find_write.rs write_pair_single_rowsum #c19
@opts str=vx
@subst \bsymmetric\( => vx_symmetric(
@spec
    requires 0 < p <= 31, -p <= rs.0 <= p, -p <= rs.1 <= p, -p <= rs.2 <= p, -p <= rs.3 <= p, option_is(match_option), pairing is Some, pair == 1 || pair == 2,
        folder@ == type_text(SequenceType::QuaternionType) || folder@ == type_text(SequenceType::WilliamsonType) || folder@ == type_text(SequenceType::Williamson),
    ensures forall|ty: SequenceType| folder@ == type_text(ty) ==> half_written(ty, p as int, dir_name(folder@, p as int, rs), rs, half_of(ty, p as int, tags_for(pairing), pair)),
@at fs
!raw broadcast use lemma_has_self; let ghost vx_g = tags_for(pairing); let ghost vx_c = if pair == 1 { (vx_g.0, vx_g.1) } else { (vx_g.2, vx_g.3) }; let ghost vx_r = (tag_rowsum(vx_c.0, rs), tag_rowsum(vx_c.1, rs)); proof { lemma_pw31(p as int); lemma_area31(pw(p as int)); }
@loop 0
    invariant plain_is(p as int, vx_r.0, it0.seq()), vx_out1@ == symf(it0.seq(), it0.index@), sym_done(p as int, vx_r.0, it0.seq(), it0.index@, vx_out1@),
@at L0b
    lemma_sym_start(p as int, vx_r.0);
@at L0s
!raw let ghost vx_v = it0.seq(); let ghost vx_i = it0.index@; proof { assert(vx_x1 == vx_v[vx_i]); assert(has(vx_v, vx_x1@)); }
@at L0e
    lemma_sym_end(p as int, vx_r.0, vx_v, vx_i + 1);
@loop 1
    invariant plain_is(p as int, vx_r.1, it1.seq()), vx_out2@ == symf(it1.seq(), it1.index@), sym_done(p as int, vx_r.1, it1.seq(), it1.index@, vx_out2@),
@at L1b
    lemma_sym_start(p as int, vx_r.1);
@at L1s
!raw let ghost vx_v = it1.seq(); let ghost vx_i = it1.index@; proof { assert(vx_x2 == vx_v[vx_i]); assert(has(vx_v, vx_x2@)); }
@at L1e
    lemma_sym_end(p as int, vx_r.1, vx_v, vx_i + 1);
@at fe
    assert(half_files(seqtype, p as int, folder_path@, rs, half_of(seqtype, p as int, vx_g, pair), sequences_0@, sequences_1@));
