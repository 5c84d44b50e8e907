// ===== lib/wpairs.rs: what the files of a rowsum are to hold, with the exact keys =====
pub proof fn lemma_ended_push(v: Seq<Seq<char>>, t: Seq<char>)
    ensures joined_text(ended(v.push(t))) == joined_text(ended(v)) + (t + nl()),
{ assert(ended(v.push(t)) =~= ended(v).push(t + nl())); lemma_joined_push(ended(v), t + nl()); }

pub proof fn lemma_okfiles(f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, n: int)
    requires okfile(f, n), okfile(g, n),
    ensures okfiles(f, g),
{ }
/// what a pair file is written from
pub ghost struct Side { pub ty: SequenceType, pub tags: (SequenceTag, SequenceTag), pub n: int, pub side: EquationSide }
pub open spec fn akey(c: Side, x: Seq<i8>, y: Seq<i8>) -> Seq<char> { num_key(side_a(c, avals(x, y))) }
pub open spec fn xkey(c: Side, x: Seq<i8>, y: Seq<i8>) -> Seq<char> { num_key(side_x(c, cvals(x, y, c.tags))) }
pub open spec fn some_text(k: Seq<char>) -> Seq<char> { if k.len() == 0 { k + "_"@ } else { k } }
/// the key of a pair of sequences: the values of its side of the equations
pub open spec fn ckey(c: Side, x: Seq<i8>, y: Seq<i8>) -> Seq<char> { some_text(if c.ty is QuaternionType { akey(c, x, y) + xkey(c, x, y) } else { akey(c, x, y) }) }
pub open spec fn line_of(k: Seq<char>, d: SequencePairData) -> Seq<char> { k + (":_"@ + int_text(d.seq_enum1.0 as int) + "_"@ + int_text(d.seq_enum2.0 as int)) }
pub proof fn lemma_num_plain(v: Seq<int>)
    ensures forall|i: int| 0 <= i < num_key(v).len() ==> #[trigger] num_key(v)[i] != ':', num_key(v).len() > 0 ==> num_key(v)[num_key(v).len() - 1] == '_', v.len() > 0 ==> num_key(v).len() > 0,
    decreases v.len(),
{
    reveal_strlit("_");
    if v.len() > 0 {
        let w = v.drop_last(); let k = v.len() - 1;
        lemma_num_plain(w); lemma_num_key(v, k); lemma_num_key0(v);
        assert(v.take(k) =~= w); assert(v.take(k + 1) =~= v);
        lemma_int_text(v[k]); assert(!plain_char(':'));
        let (a, b) = (num_key(w), int_text(v[k]) + "_"@);
        assert(num_key(v) == a + b);
        assert forall|i: int| 0 <= i < num_key(v).len() implies #[trigger] num_key(v)[i] != ':' by { if i < a.len() { assert((a + b)[i] == a[i]); } else { let j = i - a.len(); assert((a + b)[i] == b[j]); if j < int_text(v[k]).len() { assert(b[j] == int_text(v[k])[j]); } } }
    } else { assert(num_lines(v) =~= Seq::<Seq<char>>::empty()); }
}
pub proof fn lemma_ckey_text(c: Side, x: Seq<i8>, y: Seq<i8>)
    ensures key_text(ckey(c, x, y)),
{ lemma_key_text(side_a(c, avals(x, y)), side_x(c, cvals(x, y, c.tags))); }
/// keys made of numbers are plain
pub proof fn lemma_key_text(u: Seq<int>, v: Seq<int>)
    ensures key_text(some_text(num_key(u))), key_text(some_text(num_key(u) + num_key(v))),
{
    reveal_strlit("_");
    let (a, b) = (num_key(u), num_key(v));
    lemma_num_plain(u); lemma_num_plain(v);
    assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != ':' by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
    if (a + b).len() > 0 { if b.len() > 0 { assert((a + b)[(a + b).len() - 1] == b[b.len() - 1]); } else { assert((a + b)[(a + b).len() - 1] == a[a.len() - 1]); } }
}
/// the lines written for the first m pairs
#[verifier::opaque]
pub open spec fn lines_upto(c: Side, v: Seq<SequencePairData>, m: int, ls: Seq<Seq<char>>, m1: int, m2: int) -> bool {
    &&& lines_ok(ls, m1, m2)
    &&& forall|k: int| 0 <= k < m && wkept(c, (#[trigger] v[k]).seq_enum1.1@, v[k].seq_enum2.1@) ==> has_line(ls, ckey(c, v[k].seq_enum1.1@, v[k].seq_enum2.1@), v[k].seq_enum1.0 as int, v[k].seq_enum2.0 as int)
}
pub proof fn lemma_lines_start(c: Side, m1: int, m2: int)
    ensures forall|v: Seq<SequencePairData>| #[trigger] lines_upto(c, v, 0, Seq::empty(), m1, m2),
{ reveal(lines_upto); }
pub proof fn lemma_line_push(ls: Seq<Seq<char>>, t: Seq<char>, k: Seq<char>, i: int, j: int)
    requires has_line(ls, k, i, j),
    ensures has_line(ls.push(t), k, i, j),
{ let x = choose|x: int| 0 <= x < ls.len() && line_is(#[trigger] ls[x], k, i, j); assert(ls.push(t)[x] == ls[x]); }
pub proof fn lemma_lines_step(c: Side, v: Seq<SequencePairData>, m: int, ls: Seq<Seq<char>>, w: bool, key: Seq<char>, m1: int, m2: int)
    requires lines_upto(c, v, m, ls, m1, m2), 0 <= m < v.len(), v[m].seq_enum1.0 < m1, v[m].seq_enum2.0 < m2,
        w ==> key_text(key), wkept(c, v[m].seq_enum1.1@, v[m].seq_enum2.1@) ==> w && key == ckey(c, v[m].seq_enum1.1@, v[m].seq_enum2.1@),
    ensures lines_upto(c, v, m + 1, if w { ls.push(line_of(key, v[m])) } else { ls }, m1, m2),
{
    reveal(lines_upto);
    let d = v[m]; let (x, y, i, j) = (d.seq_enum1.1@, d.seq_enum2.1@, d.seq_enum1.0 as int, d.seq_enum2.0 as int);
    let t = line_of(key, d);
    let l2 = if w { ls.push(t) } else { ls };
    if w {
        assert(line_is(t, key, i, j));
        assert(l2[ls.len() as int] == t);
        assert forall|z: int| 0 <= z < l2.len() implies line_ok(#[trigger] l2[z], m1, m2) by { if z < ls.len() { assert(l2[z] == ls[z]); } else { assert(line_is(t, key, i, j)); } }
    }
    assert forall|k: int| 0 <= k < m + 1 && wkept(c, (#[trigger] v[k]).seq_enum1.1@, v[k].seq_enum2.1@) implies has_line(l2, ckey(c, v[k].seq_enum1.1@, v[k].seq_enum2.1@), v[k].seq_enum1.0 as int, v[k].seq_enum2.0 as int) by {
        if k < m { if w { lemma_line_push(ls, t, ckey(c, v[k].seq_enum1.1@, v[k].seq_enum2.1@), v[k].seq_enum1.0 as int, v[k].seq_enum2.0 as int); } }
        else { assert(line_is(l2[ls.len() as int], ckey(c, x, y), i, j)); }
    }
}
/// the lines for two lists: every pair that may belong to a valid quadruple has one
pub open spec fn pair_in(c: Side, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, ls: Seq<Seq<char>>, i: int, j: int) -> bool {
    fits(f[i]@, g[j]@, (4 * c.n) as real, 1) && wkept(c, f[i]@, g[j]@) ==> has_line(ls, ckey(c, f[i]@, g[j]@), i, j)
}
#[verifier::opaque]
pub open spec fn pairs_in(c: Side, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, ls: Seq<Seq<char>>) -> bool {
    &&& lines_ok(ls, f.len() as int, g.len() as int)
    &&& forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() ==> #[trigger] pair_in(c, f, g, ls, i, j)
}
pub proof fn lemma_lines_end(c: Side, v: Seq<SequencePairData>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, ls: Seq<Seq<char>>)
    requires lines_upto(c, v, v.len() as int, ls, f.len() as int, g.len() as int), all_data_ok(v, f, g), kept_to(v, f, g, (4 * c.n) as real, f.len() as int, 0),
    ensures pairs_in(c, f, g, ls),
{
    reveal(lines_upto); reveal(pairs_in);
    assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < g.len() implies #[trigger] pair_in(c, f, g, ls, i, j) by {
        if fits(f[i]@, g[j]@, (4 * c.n) as real, 1) && wkept(c, f[i]@, g[j]@) {
            assert(kept_at(v, f, g, (4 * c.n) as real, i, j));
            let m = choose|m: int| #[trigger] entry_is(v, m, i, j);
            assert(data_ok(v[m], f, g));
        }
    }
}
pub proof fn lemma_lines_last(c: Side, v: Seq<SequencePairData>, m: int, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, ls: Seq<Seq<char>>)
    requires lines_upto(c, v, m, ls, f.len() as int, g.len() as int), all_data_ok(v, f, g), kept_to(v, f, g, (4 * c.n) as real, f.len() as int, 0),
    ensures m < v.len() || m > v.len() || pairs_in(c, f, g, ls),
{ if m == v.len() { lemma_lines_end(c, v, f, g, ls); } }
pub proof fn lemma_lines_none(c: Side, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>)
    ensures forall|v: Seq<SequencePairData>| v.len() == 0 && #[trigger] all_data_ok(v, f, g) && kept_to(v, f, g, (4 * c.n) as real, f.len() as int, 0) ==> pairs_in(c, f, g, Seq::empty()),
{
    assert forall|v: Seq<SequencePairData>| v.len() == 0 && #[trigger] all_data_ok(v, f, g) && kept_to(v, f, g, (4 * c.n) as real, f.len() as int, 0) implies pairs_in(c, f, g, Seq::empty()) by {
        lemma_lines_start(c, f.len() as int, g.len() as int);
        assert(lines_upto(c, v, 0, Seq::empty(), f.len() as int, g.len() as int));
        lemma_lines_end(c, v, f, g, Seq::empty());
    }
}
/// the file of a pairing was written for two lists
pub open spec fn pair_file(c: Side, dir: Seq<char>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, ls: Seq<Seq<char>>) -> bool {
    wrote_lines(dir + "/pair_"@ + tag_text(c.tags.0) + tag_text(c.tags.1) + ".pair"@, ls) && pairs_in(c, f, g, ls)
}
pub open spec fn has_pair_file(c: Side, dir: Seq<char>, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>) -> bool { exists|ls: Seq<Seq<char>>| #[trigger] pair_file(c, dir, f, g, ls) }
pub proof fn lemma_seq_lines(v: Seq<Vec<i8>>, i: int)
    requires 0 <= i < v.len(),
    ensures joined_text(ended(texts_v(v)).take(i + 1)) == joined_text(ended(texts_v(v)).take(i)) + (sign_text(v[i]@) + nl()), joined_text(ended(texts_v(v)).take(0)) == Seq::<char>::empty(), ended(texts_v(v)).take(v.len() as int) == ended(texts_v(v)),
{ lemma_joined_take(ended(texts_v(v)), i); assert(ended(texts_v(v)).take(v.len() as int) =~= ended(texts_v(v))); }
pub proof fn lemma_seq_lines0(v: Seq<Vec<i8>>)
    ensures joined_text(ended(texts_v(v)).take(0)) == Seq::<char>::empty(), ended(texts_v(v)).take(v.len() as int) == ended(texts_v(v)),
{ assert(ended(texts_v(v)).take(v.len() as int) =~= ended(texts_v(v))); }

// ---- all files of a rowsum
/// exactly the sequences a quadruple of this type can have there
pub open spec fn member(ty: SequenceType, n: int, s: int, t: Seq<i8>) -> bool { with_sum(n, s, t) && (ty is Williamson ==> sym1(t)) }
pub open spec fn list_is(ty: SequenceType, n: int, s: int, v: Seq<Vec<i8>>) -> bool { nodup(v) && forall|t: Seq<i8>| #[trigger] has(v, t) <==> member(ty, n, s, t) }
pub open spec fn plain_is(n: int, s: int, v: Seq<Vec<i8>>) -> bool { nodup(v) && v.len() <= pw(n) && forall|t: Seq<i8>| #[trigger] has(v, t) <==> with_sum(n, s, t) }
/// those of the first k sequences which are symmetric
pub open spec fn symf(v: Seq<Vec<i8>>, k: int) -> Seq<Vec<i8>> decreases k { if k <= 0 { Seq::empty() } else if sym1(v[k - 1]@) { symf(v, k - 1).push(v[k - 1]) } else { symf(v, k - 1) } }
pub open spec fn sym_done(n: int, s: int, v: Seq<Vec<i8>>, k: int, o: Seq<Vec<i8>>) -> bool { k < v.len() || (list_is(SequenceType::Williamson, n, s, o) && o.len() <= pw(n)) }
pub proof fn lemma_symf(v: Seq<Vec<i8>>, k: int)
    requires 0 <= k <= v.len(), nodup(v),
    ensures nodup(symf(v, k)), symf(v, k).len() <= k, forall|t: Seq<i8>| #[trigger] has(symf(v, k), t) <==> sym1(t) && has(v.take(k), t),
    decreases k,
{
    if k > 0 {
        lemma_symf(v, k - 1);
        let (a, b, x) = (symf(v, k - 1), symf(v, k), v[k - 1]);
        assert(has(v.take(k), x@)) by { assert(v.take(k)[k - 1]@ == x@); }
        assert forall|t: Seq<i8>| #[trigger] has(v.take(k), t) <==> t == x@ || has(v.take(k - 1), t) by {
            if has(v.take(k), t) { let i = choose|i: int| 0 <= i < k && #[trigger] v.take(k)[i]@ == t; if i < k - 1 { assert(v.take(k - 1)[i]@ == t); } }
            if has(v.take(k - 1), t) { let i = choose|i: int| 0 <= i < k - 1 && #[trigger] v.take(k - 1)[i]@ == t; assert(v.take(k)[i]@ == t); }
        }
        if sym1(x@) {
            assert forall|t: Seq<i8>| #[trigger] has(b, t) <==> t == x@ || has(a, t) by {
                if has(b, t) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i]@ == t; if i < a.len() { assert(a[i]@ == t); } }
                if has(a, t) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i]@ == t; assert(b[i]@ == t); }
                assert(b[a.len() as int]@ == x@);
            }
            assert(has(a, x@) == false) by { if has(a, x@) { assert(has(v.take(k - 1), x@)); let i = choose|i: int| 0 <= i < k - 1 && #[trigger] v.take(k - 1)[i]@ == x@; assert(v[i]@ == v[k - 1]@); } }
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i]@ != #[trigger] b[j]@ by { if j == a.len() { if b[i]@ == x@ { assert(a[i]@ == x@); assert(has(a, x@)); } } else { assert(a[i]@ != a[j]@); } }
        }
    } else { assert forall|t: Seq<i8>| (#[trigger] has(symf(v, 0), t)) == false by { } }
}
pub proof fn lemma_sym_start(n: int, s: int)
    ensures forall|v: Seq<Vec<i8>>, o: Seq<Vec<i8>>| plain_is(n, s, v) && o.len() == 0 ==> #[trigger] sym_done(n, s, v, 0, o),
{ assert forall|v: Seq<Vec<i8>>, o: Seq<Vec<i8>>| plain_is(n, s, v) && o.len() == 0 implies #[trigger] sym_done(n, s, v, 0, o) by { if v.len() == 0 { lemma_sym_end(n, s, v, 0); assert(o =~= symf(v, 0)); } } }
pub broadcast proof fn lemma_has_self(v: Seq<Vec<i8>>, i: int)
    requires 0 <= i < v.len(),
    ensures has(v, (#[trigger] v[i])@),
{ }
pub proof fn lemma_type_text(a: SequenceType, b: SequenceType)
    ensures type_text(a) == type_text(b) ==> a == b,
{
    reveal_strlit("qts"); reveal_strlit("wts"); reveal_strlit("ws"); reveal_strlit("its"); reveal_strlit("et1"); reveal_strlit("et2"); reveal_strlit("et3");
    let (x, y) = (type_text(a), type_text(b));
    assert(x == y ==> x.len() == y.len() && x[0] == y[0] && x.last() == y.last());
}
pub proof fn lemma_sym_end(n: int, s: int, v: Seq<Vec<i8>>, k: int)
    requires plain_is(n, s, v), 0 <= k <= v.len(),
    ensures sym_done(n, s, v, k, symf(v, k)),
{ if k == v.len() { lemma_symf(v, k); assert(v.take(k) =~= v); } }
pub open spec fn lists_are(ty: SequenceType, n: int, t: Quad, v: V4) -> bool { forall|g: SequenceTag| list_is(ty, n, tag_rowsum(g, t), #[trigger] v4(v, g)) }
pub open spec fn left(ty: SequenceType, n: int, g: Tg) -> Side { Side { ty: ty, tags: (g.0, g.1), n: n, side: EquationSide::LEFT } }
pub open spec fn right(ty: SequenceType, n: int, g: Tg) -> Side { Side { ty: ty, tags: (g.2, g.3), n: n, side: EquationSide::RIGHT } }
/// the six files of a rowsum were written: the four lists, and the lines of the two pairs
pub open spec fn dir_files(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, g: Tg, v: V4) -> bool {
    &&& lists_are(ty, n, t, v)
    &&& seq_file(dir, SequenceTag::W, v.0) && seq_file(dir, SequenceTag::X, v.1) && seq_file(dir, SequenceTag::Y, v.2) && seq_file(dir, SequenceTag::Z, v.3)
    &&& has_pair_file(left(ty, n, g), dir, v4(v, g.0), v4(v, g.1))
    &&& has_pair_file(right(ty, n, g), dir, v4(v, g.2), v4(v, g.3))
}
pub open spec fn dir_written(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, g: Tg) -> bool { exists|v: V4| #[trigger] dir_files(ty, n, dir, t, g, v) }

/// the keys of the pairs of every valid quadruple say what they are to say
pub open spec fn clear_quad(ty: SequenceType, q: QV, p: Option<RowsumPairing>) -> bool {
    let g = tags_for(p);
    clear_pair(ty, (g.0, g.1), get(q, g.0), get(q, g.1)) && clear_pair(ty, (g.2, g.3), get(q, g.2), get(q, g.3))
}
pub open spec fn unambiguous(ty: SequenceType, n: int, p: Option<RowsumPairing>) -> bool { forall|q: QV| wfv(q) && q.n == n && is_type(q, ty) ==> #[trigger] clear_quad(ty, q, p) }

// ---- such files hold every valid quadruple with these rowsums
pub open spec fn rs_of(q: QV, t: SequenceTag) -> int { rowsum_of(get(q, t)) }
/// what the two pairs have to say of each other
pub open spec fn opposite(q: QV, g: Tg, t: int) -> bool { od(get(q, g.0), get(q, g.1), (g.0, g.1), t) + od(get(q, g.2), get(q, g.3), (g.2, g.3), t) == 0 }
pub proof fn lemma_opposite(q: QV, p: Option<RowsumPairing>, t: int)
    requires wfv(q), is_qts(q), 1 <= t < q.n,
    ensures opposite(q, tags_for(p), t),
{
    lemma_qts_meqs(q); assert(meqs_at(q, t));
    lemma_xd_half(q.a, q.b, t); lemma_xd_half(q.a, q.c, t); lemma_xd_half(q.a, q.d, t); lemma_xd_half(q.b, q.c, t); lemma_xd_half(q.b, q.d, t); lemma_xd_half(q.c, q.d, t);
}
pub open spec fn tag_no(t: SequenceTag) -> int { match t { SequenceTag::W => 0, SequenceTag::X => 1, SequenceTag::Y => 2, SequenceTag::Z => 3 } }
pub proof fn lemma_line_for(c: Side, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, ls: Seq<Seq<char>>, i: int, j: int)
    requires pairs_in(c, f, g, ls), 0 <= i < f.len(), 0 <= j < g.len(), fits(f[i]@, g[j]@, (4 * c.n) as real, 1), wkept(c, f[i]@, g[j]@),
    ensures has_line(ls, ckey(c, f[i]@, g[j]@), i, j),
{ reveal(pairs_in); assert(pair_in(c, f, g, ls, i, j)); }
pub proof fn lemma_lines_of(c: Side, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>, ls: Seq<Seq<char>>)
    requires pairs_in(c, f, g, ls),
    ensures lines_ok(ls, f.len() as int, g.len() as int),
{ reveal(pairs_in); }
pub proof fn lemma_member(ty: SequenceType, q: QV, t: Quad, v: V4, g: SequenceTag) -> (i: int)
    requires wfv(q), is_type(q, ty), lists_are(ty, q.n, t, v), rs_is(q, t),
    ensures 0 <= i < v4(v, g).len(), v4(v, g)[i]@ == get(q, g),
{
    assert(list_is(ty, q.n, tag_rowsum(g, t), v4(v, g)));
    assert(member(ty, q.n, tag_rowsum(g, t), get(q, g)));
    assert(has(v4(v, g), get(q, g)));
    choose|i: int| 0 <= i < v4(v, g).len() && #[trigger] v4(v, g)[i]@ == get(q, g)
}
pub proof fn lemma_list_signs(ty: SequenceType, n: int, s: int, v: Seq<Vec<i8>>)
    requires list_is(ty, n, s, v),
    ensures all_signs(seqs_of(v), n),
{ assert forall|k: int| 0 <= k < seqs_of(v).len() implies pm(#[trigger] seqs_of(v)[k]) && seqs_of(v)[k].len() == n by { assert(has(v, v[k]@)); } }
pub proof fn theorem_written(ty: SequenceType, n: int, t: Quad, p: Option<RowsumPairing>, v: V4, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires n >= 1, lists_are(ty, n, t, v), unambiguous(ty, n, p),
        ({ let g = tags_for(p); pairs_in(left(ty, n, g), v4(v, g.0), v4(v, g.1), a) && pairs_in(right(ty, n, g), v4(v, g.2), v4(v, g.3), b) }),
    ensures rs_files(ty, n, t, sl_of(v), PF { g: tags_for(p), a: a, b: b }),
{
    reveal(rs_files);
    let g = tags_for(p); let l = sl_of(v); let f = PF { g: g, a: a, b: b };
    lemma_list_signs(ty, n, t.0 as int, v4(v, SequenceTag::W)); lemma_list_signs(ty, n, t.1 as int, v4(v, SequenceTag::X)); lemma_list_signs(ty, n, t.2 as int, v4(v, SequenceTag::Y)); lemma_list_signs(ty, n, t.3 as int, v4(v, SequenceTag::Z));
    lemma_lines_of(left(ty, n, g), v4(v, g.0), v4(v, g.1), a); lemma_lines_of(right(ty, n, g), v4(v, g.2), v4(v, g.3), b);
    assert forall|s: SequenceTag| #[trigger] sl(l, s) == seqs_of(v4(v, s)) by { }
    assert forall|q: QV| wfv(q) && q.n == n && is_type(q, ty) && rs_is(q, t) implies #[trigger] found(l, f, q) by {
        let i = (lemma_member(ty, q, t, v, g.0), lemma_member(ty, q, t, v, g.1), lemma_member(ty, q, t, v, g.2), lemma_member(ty, q, t, v, g.3));
        assert(clear_quad(ty, q, p));
        lemma_fits(ty, q, g.0, g.1, EquationSide::LEFT); lemma_fits(ty, q, g.2, g.3, EquationSide::RIGHT);
        lemma_line_for(left(ty, n, g), v4(v, g.0), v4(v, g.1), a, i.0, i.1);
        lemma_line_for(right(ty, n, g), v4(v, g.2), v4(v, g.3), b, i.2, i.3);
        lemma_same_key(ty, q, p);
        let k = ckey(left(ty, n, g), get(q, g.0), get(q, g.1));
        assert(has_line(f.a, k, i.0, i.1) && has_line(f.b, k, i.2, i.3));
        assert(meet(f, i));
        assert(names4(l, g, i, q));
    }
}
/// the directory as written is, once its pair files are sorted, what the reading half needs (lib/joinall.rs)
pub proof fn theorem_dir(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, p: Option<RowsumPairing>)
    requires n >= 1, dir_written(ty, n, dir, t, tags_for(p)), unambiguous(ty, n, p),
    ensures held(ty, n, dir, t, tags_for(p)),
{
    let g = tags_for(p);
    let v = choose|v: V4| #[trigger] dir_files(ty, n, dir, t, g, v);
    let a = choose|a: Seq<Seq<char>>| #[trigger] pair_file(left(ty, n, g), dir, v4(v, g.0), v4(v, g.1), a);
    let b = choose|b: Seq<Seq<char>>| #[trigger] pair_file(right(ty, n, g), dir, v4(v, g.2), v4(v, g.3), b);
    theorem_written(ty, n, t, p, v, a, b);
    assert(dir_holds(ty, n, dir, t, g, v, a, b));
}
pub proof fn lemma_area31(m: int)
    requires m * m <= 0x4000_0000_0000_0000,
    ensures forall|a: int, b: int| 0 <= a <= m && 0 <= b <= m ==> #[trigger] area(a, b, 0) <= m * m && area(a, b, 0) <= 0x4000_0000_0000_0000,
{ assert forall|a: int, b: int| 0 <= a <= m && 0 <= b <= m implies #[trigger] area(a, b, 0) <= m * m && area(a, b, 0) <= 0x4000_0000_0000_0000 by { assert(a * b <= m * m) by(nonlinear_arith) requires 0 <= a <= m, 0 <= b <= m; } }
/// every rowsum of length n has its files
pub open spec fn all_written(ty: SequenceType, n: int, p: Option<RowsumPairing>) -> bool {
    forall|t: Quad| #[trigger] rowsums4(n, ty is QuaternionType, t) ==> dir_written(ty, n, dir_name(type_text(ty), n, t), t, tags_for(p))
}
/// the pairs counted for a length fit in 64 bits
pub open spec fn countable(n: int, qts: bool) -> bool { forall|l: Seq<Quad>| #[trigger] is_rowsum_list(n, qts, l) ==> l.len() * (2 * (pw(n) * pw(n))) <= u64::MAX }
pub proof fn lemma_countable(n: int, qts: bool, m: int)
    requires countable(n, qts), m == 2 * (pw(n) * pw(n)),
    ensures forall|l: Seq<Quad>| #[trigger] is_rowsum_list(n, qts, l) ==> l.len() * m <= u64::MAX,
{ }
pub proof fn lemma_count(i: int, k: int, m: int)
    requires 0 <= i < k, m >= 0,
    ensures (i + 1) * m == i * m + m, (i + 1) * m <= k * m,
{ assert((i + 1) * m == i * m + m) by(nonlinear_arith); assert((i + 1) * m <= k * m) by(nonlinear_arith) requires i + 1 <= k, m >= 0; }
pub proof fn lemma_within(x: int, n: int)
    requires x * x <= 4 * n, x % 2 == n % 2, n >= 1,
    ensures -n <= x <= n,
{
    if x > n || x < -n {
        let a = if x > 0 { x } else { -x };
        assert(a * a == x * x) by(nonlinear_arith) requires a == x || a == -x;
        if n >= 4 { assert(a * a >= (n + 1) * (n + 1)) by(nonlinear_arith) requires a >= n + 1, n >= 4; assert((n + 1) * (n + 1) == n * n + 2 * n + 1) by(nonlinear_arith); assert(n * n >= 4 * n) by(nonlinear_arith) requires n >= 4; }
        else { assert(a >= n + 2); assert(a * a >= (n + 2) * (n + 2)) by(nonlinear_arith) requires a >= n + 2, n >= 1; assert((n + 2) * (n + 2) == n * n + 4 * n + 4) by(nonlinear_arith); assert(n * n >= 0) by(nonlinear_arith); }
    }
}
pub proof fn lemma_rowsum_bound(n: int, qts: bool, t: Quad)
    requires rowsums4(n, qts, t), n >= 1,
    ensures -n <= t.0 <= n, -n <= t.1 <= n, -n <= t.2 <= n, -n <= t.3 <= n,
{
    let q = choose|q: Quad| dec4(4 * n, q) && par4(q, n) && #[trigger] from4(qts, q, t);
    let (a, b, c, d) = (q.0 as int, q.1 as int, q.2 as int, q.3 as int);
    assert(a * a >= 0 && b * b >= 0 && c * c >= 0 && d * d >= 0) by(nonlinear_arith);
    lemma_within(a, n); lemma_within(b, n); lemma_within(c, n); lemma_within(d, n);
}
// ---- the two halves written by separate processes
pub open spec fn half_files(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, c: Side, f: Seq<Vec<i8>>, g: Seq<Vec<i8>>) -> bool {
    &&& list_is(ty, n, tag_rowsum(c.tags.0, t), f) && list_is(ty, n, tag_rowsum(c.tags.1, t), g)
    &&& seq_file(dir, c.tags.0, f) && seq_file(dir, c.tags.1, g) && has_pair_file(c, dir, f, g)
}
pub open spec fn half_written(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, c: Side) -> bool { exists|f: Seq<Vec<i8>>, g: Seq<Vec<i8>>| #[trigger] half_files(ty, n, dir, t, c, f, g) }
pub open spec fn half_of(ty: SequenceType, n: int, g: Tg, pair: u8) -> Side { if pair == 1 { left(ty, n, g) } else { right(ty, n, g) } }
pub proof fn theorem_halves(ty: SequenceType, n: int, dir: Seq<char>, t: Quad, p: Option<RowsumPairing>)
    requires half_written(ty, n, dir, t, half_of(ty, n, tags_for(p), 1)), half_written(ty, n, dir, t, half_of(ty, n, tags_for(p), 2)),
    ensures dir_written(ty, n, dir, t, tags_for(p)),
{
    let g = tags_for(p);
    let (a, b) = choose|a: Seq<Vec<i8>>, b: Seq<Vec<i8>>| #[trigger] half_files(ty, n, dir, t, left(ty, n, g), a, b);
    let (c, d) = choose|c: Seq<Vec<i8>>, d: Seq<Vec<i8>>| #[trigger] half_files(ty, n, dir, t, right(ty, n, g), c, d);
    let v: V4 = if p == Some(RowsumPairing::WX) { (a, b, c, d) } else if p == Some(RowsumPairing::WY) { (a, c, b, d) } else { (a, c, d, b) };
    assert(v4(v, g.0) == a && v4(v, g.1) == b && v4(v, g.2) == c && v4(v, g.3) == d);
    assert forall|s: SequenceTag| list_is(ty, n, tag_rowsum(s, t), #[trigger] v4(v, s)) by { }
    assert(dir_files(ty, n, dir, t, g, v));
}
pub proof fn theorem_all_held(ty: SequenceType, n: int, p: Option<RowsumPairing>)
    requires n >= 1, all_written(ty, n, p), unambiguous(ty, n, p),
    ensures all_held(ty, n, p),
{
    assert forall|t: Quad| #[trigger] rowsums4(n, ty is QuaternionType, t) implies held(ty, n, dir_name(type_text(ty), n, t), t, tags_for(p)) by { theorem_dir(ty, n, dir_name(type_text(ty), n, t), t, p); }
}
