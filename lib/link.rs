// ===== lib/link.rs: the files written are what the reading half needs, if the disk and the external sort do their part =====
/// the name has these lines
pub open spec fn has_lines(name: Seq<char>, v: Seq<Seq<char>>) -> bool { readable(name) && file_lines(name) == v }
/// a file of these lines was sorted by bytes into the named one
pub open spec fn sorted_to(name: Seq<char>, v: Seq<Seq<char>>, w: Seq<Seq<char>>) -> bool { has_lines(name, w) && same_lines(v, w) && sorted_lines(w) }
pub open spec fn has_sorted(name: Seq<char>, v: Seq<Seq<char>>) -> bool { exists|w: Seq<Seq<char>>| #[trigger] sorted_to(name, v, w) }
pub open spec fn seq_path(dir: Seq<char>, t: SequenceTag) -> Seq<char> { dir + "/seq_"@ + tag_text(t) + ".seq"@ }
pub open spec fn pair_path(dir: Seq<char>, t: SequenceTag, u: SequenceTag) -> Seq<char> { dir + "/pair_"@ + tag_text(t) + tag_text(u) + ".pair"@ }
pub open spec fn two_pairs(d: Seq<char>, g: Tg) -> bool { exists|i: int, j: int| #[trigger] pair_files_at(d, g, i, j) }
pub open spec fn other(g: Tg) -> Tg { (g.2, g.3, g.0, g.1) }
/// the directory read as d is the one written as dir: it lists the four lists and the two sorted pair files, in any order, and each holds what was written
pub open spec fn on_disk(d: Seq<char>, dir: Seq<char>, g: Tg) -> bool {
    &&& is_a_dir(d) && listable(d)
    &&& forall|i: int| 0 <= i < dir_list(d).len() && is_seq_file(#[trigger] dir_list(d)[i]) ==> exists|t: SequenceTag| dir_list(d)[i] == in_dir(d, #[trigger] seq_name(t))
    &&& forall|t: SequenceTag| dir_list(d).contains(in_dir(d, #[trigger] seq_name(t)))
    &&& two_pairs(d, g) || two_pairs(d, other(g))
    &&& forall|t: SequenceTag, v: Seq<Seq<char>>| #[trigger] wrote_lines(seq_path(dir, t), v) ==> has_lines(in_dir(d, seq_name(t)), v)
    &&& forall|v: Seq<Seq<char>>| #[trigger] wrote_lines(pair_path(dir, g.0, g.1), v) ==> has_sorted(in_dir(d, pair_name(g.0, g.1)), v)
    &&& forall|v: Seq<Seq<char>>| #[trigger] wrote_lines(pair_path(dir, g.2, g.3), v) ==> has_sorted(in_dir(d, pair_name(g.2, g.3)), v)
}
/// some directory of the root is that of rowsum t
pub open spec fn placed(ty: SequenceType, n: int, ds: Seq<Seq<char>>, t: Quad, g: Tg) -> bool { exists|k: int| 0 <= k < ds.len() && on_disk(#[trigger] ds[k], dir_name(type_text(ty), n, t), g) }
pub open spec fn rowsum_dir(ty: SequenceType, n: int, d: Seq<char>, t: Quad, g: Tg) -> bool { rowsums4(n, ty is QuaternionType, t) && on_disk(d, dir_name(type_text(ty), n, t), g) }
/// the root lists the directories of the rowsums and no others
pub open spec fn root_on_disk(ty: SequenceType, n: int, root: Seq<char>, g: Tg) -> bool {
    &&& listable(root)
    &&& forall|k: int| 0 <= k < dir_list(root).len() && is_a_dir(#[trigger] dir_list(root)[k]) ==> exists|t: Quad| #[trigger] rowsum_dir(ty, n, dir_list(root)[k], t, g)
    &&& forall|t: Quad| #[trigger] rowsums4(n, ty is QuaternionType, t) ==> placed(ty, n, dir_list(root), t, g)
}
pub proof fn lemma_seq_files(d: Seq<char>, dir: Seq<char>, g: Tg, v: V4)
    requires on_disk(d, dir, g), seq_file(dir, SequenceTag::W, v.0), seq_file(dir, SequenceTag::X, v.1), seq_file(dir, SequenceTag::Y, v.2), seq_file(dir, SequenceTag::Z, v.3),
        all_pm(seqs_of(v.0)), all_pm(seqs_of(v.1)), all_pm(seqs_of(v.2)), all_pm(seqs_of(v.3)),
    ensures seq_files(d, sl_of(v)),
{
    let l = sl_of(v);
    assert forall|t: SequenceTag| readable(in_dir(d, #[trigger] seq_name(t))) && file_lines(in_dir(d, seq_name(t))) == texts_of(sl(l, t)) && all_pm(sl(l, t)) by {
        let x = v4(v, t);
        assert(sl(l, t) == seqs_of(x));
        assert(texts_v(x) =~= texts_of(seqs_of(x)));
        assert(seq_file(dir, t, x));
        assert(wrote_lines(seq_path(dir, t), texts_v(x)));
    }
}
pub proof fn lemma_dir_ready(ty: SequenceType, n: int, d: Seq<char>, t: Quad, p: Option<RowsumPairing>)
    requires 1 <= n, on_disk(d, dir_name(type_text(ty), n, t), tags_for(p)), held(ty, n, dir_name(type_text(ty), n, t), t, tags_for(p)),
    ensures ready_for(ty, n, d, t),
{
    let dir = dir_name(type_text(ty), n, t); let g = tags_for(p);
    let (v, a, b) = choose|v: V4, a: Seq<Seq<char>>, b: Seq<Seq<char>>| #[trigger] dir_holds(ty, n, dir, t, g, v, a, b);
    let l = sl_of(v);
    assert(wrote_lines(pair_path(dir, g.0, g.1), a)); assert(wrote_lines(pair_path(dir, g.2, g.3), b));
    assert(has_sorted(in_dir(d, pair_name(g.0, g.1)), a)); assert(has_sorted(in_dir(d, pair_name(g.2, g.3)), b));
    let x = choose|w: Seq<Seq<char>>| #[trigger] sorted_to(in_dir(d, pair_name(g.0, g.1)), a, w);
    let y = choose|w: Seq<Seq<char>>| #[trigger] sorted_to(in_dir(d, pair_name(g.2, g.3)), b, w);
    let f = PF { g: g, a: x, b: y };
    lemma_sorted_files(ty, n, t, l, PF { g: g, a: a, b: b }, x, y);
    assert(rs_files(ty, n, t, l, f));
    assert(all_pm(l.w) && all_pm(l.x) && all_pm(l.y) && all_pm(l.z)) by { reveal(rs_files); }
    lemma_seq_files(d, dir, g, v);
    if two_pairs(d, g) {
        let (i, j) = choose|i: int, j: int| #[trigger] pair_files_at(d, g, i, j);
        assert(dir_list(d)[i] == in_dir(d, pair_name(g.0, g.1)) && dir_list(d)[j] == in_dir(d, pair_name(g.2, g.3)));
        assert(file_is(dir_list(d)[i], f.a)); assert(file_is(dir_list(d)[j], f.b));
        assert(pair_files_at(d, f.g, i, j));
        assert(pairs_are(d, f));
        assert(dir_ready(ty, n, d, t, l, f));
    } else {
        let h = swap_halves(f);
        let (i, j) = choose|i: int, j: int| #[trigger] pair_files_at(d, other(g), i, j);
        lemma_swap_halves(ty, n, t, l, f);
        assert(dir_list(d)[j] == in_dir(d, pair_name(g.0, g.1)) && dir_list(d)[i] == in_dir(d, pair_name(g.2, g.3)));
        assert(file_is(dir_list(d)[i], h.a)); assert(file_is(dir_list(d)[j], h.b));
        assert(pair_files_at(d, h.g, i, j));
        assert(pairs_are(d, h));
        assert(dir_ready(ty, n, d, t, l, h));
    }
}
/// what write_pairs leaves, sorted, is what join_pairs needs
pub proof fn theorem_ready(ty: SequenceType, n: int, p: Option<RowsumPairing>, l: Seq<Quad>, root: Seq<char>)
    requires 1 <= n <= 31, all_held(ty, n, p), is_rowsum_list(n, ty is QuaternionType, l), root_on_disk(ty, n, root, tags_for(p)),
    ensures search_ready(ty, n, root),
{
    let g = tags_for(p); let ds = dir_list(root);
    lemma_all_covered(ty, n, l);
    assert forall|k: int| 0 <= k < ds.len() && is_a_dir(#[trigger] ds[k]) implies some_ready(ty, n, ds[k]) by {
        let t = choose|t: Quad| #[trigger] rowsum_dir(ty, n, ds[k], t, g);
        lemma_dir_ready(ty, n, ds[k], t, p);
        let (a, f) = choose|a: SL, f: PF| #[trigger] dir_ready(ty, n, ds[k], t, a, f);
        assert(dir_ready(ty, n, ds[k], t, a, f));
    }
    assert forall|t: Quad| #[trigger] l.contains(t) implies has_ready(ty, n, ds, t) by {
        assert(rowsums4(n, ty is QuaternionType, t));
        assert(placed(ty, n, ds, t, g));
        let k = choose|k: int| 0 <= k < ds.len() && on_disk(#[trigger] ds[k], dir_name(type_text(ty), n, t), g);
        lemma_dir_ready(ty, n, ds[k], t, p);
    }
}
