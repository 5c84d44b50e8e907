// ===== lib/joinall.rs: the search as a whole, from the directories of the rowsums to the representatives =====
//@subst \.\s*append\s*\( => .vx_append(
pub trait VxAppend<T>: Sized { spec fn vx_seq(&self) -> Seq<T>; fn vx_append(&mut self, other: &mut Vec<T>) ensures final(self).vx_seq() == old(self).vx_seq() + old(other)@, final(self).vx_seq().skip(old(self).vx_seq().len() as int) == old(other)@; }
impl<T> VxAppend<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_append(&mut self, other: &mut Vec<T>) { let ghost (a, b) = (self@, other@); self.append(other); proof { assert((a + b).skip(a.len() as int) =~= b); } }
}
pub open spec fn colon_at(s: Seq<char>, c: int) -> bool { 0 < c < s.len() - 1 && s[c - 1] == '_' && s[c] == ':' && s[c + 1] == '_' && forall|i: int| 0 <= i < s.len() && i != c ==> #[trigger] s[i] != ':' }
pub proof fn lemma_colon(s: Seq<char>, c: int)
    requires colon_at(s, c),
    ensures occurs(s, sep()), first(s, sep()) == c - 1,
{
    reveal_strlit("_:_");
    assert(s.subrange(c - 1, c + 2) =~= sep()); assert(occ(s, sep(), c - 1));
    lemma_first(s, sep());
    let k = first(s, sep()); assert(s.subrange(k, k + 3)[1] == sep()[1]); assert(s[k + 1] == ':');
}
pub proof fn lemma_no_colon(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != ':',
    ensures !occurs(s, sep()),
{ reveal_strlit("_:_"); if occurs(s, sep()) { let k = choose|k: int| occ(s, sep(), k); assert(s.subrange(k, k + 3)[1] == sep()[1]); assert(s[k + 1] == ':'); } }
pub proof fn lemma_no_bar(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '_',
    ensures !occurs(s, bar()),
{ reveal_strlit("_"); if occurs(s, bar()) { let k = choose|k: int| occ(s, bar(), k); assert(s.subrange(k, k + 1)[0] == bar()[0]); assert(s[k] == '_'); } }
pub proof fn lemma_one_bar(x: Seq<char>, y: Seq<char>)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != '_',
    ensures occurs(x + bar() + y, bar()), head(x + bar() + y, bar()) == x, tail(x + bar() + y, bar()) == y,
{
    reveal_strlit("_");
    let s = x + bar() + y; let n = x.len() as int;
    assert(s.subrange(n, n + 1) =~= bar()); assert(occ(s, bar(), n));
    lemma_first(s, bar());
    let k = first(s, bar()); assert(s.subrange(k, k + 1)[0] == bar()[0]);
    if k < n { assert(s[k] == x[k]); assert(s[k] == '_'); }
    if k > n { assert(!occ(s, bar(), n)); }
    assert(s.take(n) =~= x); assert(s.skip(n + 1) =~= y);
}
/// what a line that was written says
pub proof fn lemma_line(s: Seq<char>, k: Seq<char>, i: int, j: int)
    requires line_is(s, k, i, j), 0 <= i <= usize::MAX, 0 <= j <= usize::MAX,
    ensures wf_line(s), key(s) == k + ":_"@, idx(s) == (i as usize, j as usize),
{
    lemma_int_text(i); lemma_int_text(j); lemma_number(i); lemma_number(j);
    assert(!plain_char('_') && !plain_char(':'));
    reveal_strlit(":_"); reveal_strlit("_"); reveal_strlit("_:_");
    let (a, b) = (int_text(i), int_text(j));
    let u = a + "_"@ + b;
    let c = k.len() as int;
    assert(s =~= k + ":_"@ + u);
    assert forall|x: int| 0 <= x < s.len() && x != c implies #[trigger] s[x] != ':' by {
        if x < c { assert(s[x] == k[x]); } else if x == c + 1 { } else { assert(s[x] == u[x - c - 2]); let y = x - c - 2; if y < a.len() { assert(u[y] == a[y]); } else if y > a.len() { assert(u[y] == b[y - a.len() - 1]); } else { assert(u[y] == '_'); } }
    }
    assert(s[c] == ':' && s[c + 1] == '_' && s[c - 1] == k[c - 1]);
    lemma_colon(s, c);
    assert(tail(s, sep()) =~= u); assert(key(s) =~= k + ":_"@);
    assert forall|y: int| 0 <= y < u.len() implies #[trigger] u[y] != ':' by { assert(s[y + c + 2] == u[y]); }
    lemma_no_colon(u);
    assert(rest(s) == u);
    lemma_one_bar(a, b); lemma_no_bar(b);
}
pub open spec fn sorted_lines(a: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> sle(#[trigger] a[i], #[trigger] a[j]) }
pub open spec fn file_is(name: Seq<char>, a: Seq<Seq<char>>) -> bool { readable(name) && file_lines(name) == a && sorted_lines(a) }
pub open spec fn pairs_are(d: Seq<char>, f: PF) -> bool { exists|i: int, j: int| #[trigger] pair_files_at(d, f.g, i, j) && file_is(dir_list(d)[i], f.a) && file_is(dir_list(d)[j], f.b) }
/// the directory of a rowsum after its pair files are sorted
pub open spec fn dir_ready(ty: SequenceType, n: int, d: Seq<char>, t: Quad, l: SL, f: PF) -> bool { is_a_dir(d) && seq_files(d, l) && pairs_are(d, f) && rs_files(ty, n, t, l, f) }
pub open spec fn some_ready(ty: SequenceType, n: int, d: Seq<char>) -> bool { exists|t: Quad, l: SL, f: PF| #[trigger] dir_ready(ty, n, d, t, l, f) }
pub open spec fn ready_for(ty: SequenceType, n: int, d: Seq<char>, t: Quad) -> bool { exists|l: SL, f: PF| #[trigger] dir_ready(ty, n, d, t, l, f) }
pub open spec fn has_ready(ty: SequenceType, n: int, ds: Seq<Seq<char>>, t: Quad) -> bool { exists|k: int| 0 <= k < ds.len() && ready_for(ty, n, #[trigger] ds[k], t) }
/// every directory listed is that of a rowsum, and the rowsums are enough (C11)
pub open spec fn search_ready(ty: SequenceType, n: int, root: Seq<char>) -> bool {
    &&& listable(root)
    &&& forall|k: int| 0 <= k < dir_list(root).len() && is_a_dir(#[trigger] dir_list(root)[k]) ==> some_ready(ty, n, dir_list(root)[k])
    &&& exists|tl: Seq<Quad>| #[trigger] all_covered(ty, n, tl) && forall|t: Quad| #[trigger] tl.contains(t) ==> has_ready(ty, n, dir_list(root), t)
}
pub open spec fn root_name(ty: SequenceType, p: int) -> Seq<char> { "./results/pairs/"@ + type_text(ty) + "/find_"@ + int_text(p) }
pub open spec fn valid(ty: SequenceType, n: int, q: QV) -> bool { wfv(q) && q.n == n && is_type(q, ty) }

// ---- one directory
pub open spec fn joins(c: Join, ty: SequenceType, n: int, t: Quad) -> bool {
    &&& forall|q: QV| #[trigger] joined(c).contains(q) ==> valid(ty, n, q)
    &&& forall|q: QV| valid(ty, n, q) && rs_is(q, t) ==> #[trigger] joined(c).contains(q)
}
pub proof fn lemma_row_has(c: Join, i: int, j: int, m: int)
    requires 0 <= j < m, key(c.a[i]) == key(c.b[j]), is_type(quad_at(c, i, j), c.ty),
    ensures row(c, i, m).contains(quad_at(c, i, j)),
    decreases m,
{
    if m - 1 == j { let s = row(c, i, m); assert(s[s.len() - 1] == quad_at(c, i, j)); }
    else { lemma_row_has(c, i, j, m - 1); let s = row(c, i, m - 1); let k = choose|k: int| 0 <= k < s.len() && s[k] == quad_at(c, i, j); assert(row(c, i, m)[k] == s[k]); }
}
pub proof fn lemma_rows_has(c: Join, i: int, q: QV, m: int)
    requires 0 <= i < m, row(c, i, c.b.len() as int).contains(q),
    ensures rows(c, m).contains(q),
    decreases m,
{
    let (x, y) = (rows(c, m - 1), row(c, m - 1, c.b.len() as int));
    if m - 1 == i { let k = choose|k: int| 0 <= k < y.len() && y[k] == q; assert((x + y)[x.len() + k] == q); }
    else { lemma_rows_has(c, i, q, m - 1); let k = choose|k: int| 0 <= k < x.len() && x[k] == q; assert((x + y)[k] == q); }
}
pub open spec fn at_lines(c: Join, i: int, j: int, q: QV) -> bool { 0 <= i < c.a.len() && 0 <= j < c.b.len() && q == quad_at(c, i, j) && is_type(q, c.ty) }
pub proof fn lemma_row_from(c: Join, i: int, m: int, q: QV)
    requires 0 <= i < c.a.len(), 0 <= m <= c.b.len(), row(c, i, m).contains(q),
    ensures exists|j: int| #[trigger] at_lines(c, i, j, q),
    decreases m,
{
    if m > 0 {
        let s = row(c, i, m); let k = choose|k: int| 0 <= k < s.len() && s[k] == q;
        let s0 = row(c, i, m - 1);
        if k < s0.len() { assert(s0[k] == q); lemma_row_from(c, i, m - 1, q); } else { assert(at_lines(c, i, m - 1, q)); }
    }
}
pub proof fn lemma_rows_from(c: Join, m: int, q: QV)
    requires 0 <= m <= c.a.len(), rows(c, m).contains(q),
    ensures exists|i: int, j: int| #[trigger] at_lines(c, i, j, q),
    decreases m,
{
    if m > 0 {
        let (x, y) = (rows(c, m - 1), row(c, m - 1, c.b.len() as int));
        let k = choose|k: int| 0 <= k < (x + y).len() && (x + y)[k] == q;
        if k < x.len() { assert(x[k] == q); lemma_rows_from(c, m - 1, q); } else { assert(y[k - x.len()] == q); lemma_row_from(c, m - 1, c.b.len() as int, q); }
    }
}
pub proof fn lemma_dir_ok(ty: SequenceType, n: int, t: Quad, l: SL, f: PF, v: Lists, c: Join)
    requires rs_files(ty, n, t, l, f), sorted_lines(f.a), sorted_lines(f.b), reads4(v, l), 1 <= n <= maxq(), c == (Join { a: f.a, b: f.b, l: v, o: f.g, ty: ty }),
    ensures join_ok(c), lists_ok(v, n),
{
    reveal(rs_files);
    assert(v.0.len() == l.w.len() && v.1.len() == l.x.len() && v.2.len() == l.y.len() && v.3.len() == l.z.len());
    assert forall|x: int| 0 <= x < f.a.len() implies wf_line(#[trigger] f.a[x]) && idx(f.a[x]).0 < list(v, f.g.0).len() && idx(f.a[x]).1 < list(v, f.g.1).len() by {
        assert(line_ok(f.a[x], sl(l, f.g.0).len() as int, sl(l, f.g.1).len() as int));
        let (k, i, j) = choose|k: Seq<char>, i: int, j: int| 0 <= i < sl(l, f.g.0).len() && 0 <= j < sl(l, f.g.1).len() && #[trigger] line_is(f.a[x], k, i, j);
        lemma_line(f.a[x], k, i, j);
    }
    assert forall|x: int| 0 <= x < f.b.len() implies wf_line(#[trigger] f.b[x]) && idx(f.b[x]).0 < list(v, f.g.2).len() && idx(f.b[x]).1 < list(v, f.g.3).len() by {
        assert(line_ok(f.b[x], sl(l, f.g.2).len() as int, sl(l, f.g.3).len() as int));
        let (k, i, j) = choose|k: Seq<char>, i: int, j: int| 0 <= i < sl(l, f.g.2).len() && 0 <= j < sl(l, f.g.3).len() && #[trigger] line_is(f.b[x], k, i, j);
        lemma_line(f.b[x], k, i, j);
    }
    assert(file_ok(c.a, list(c.l, c.o.0), list(c.l, c.o.1))); assert(file_ok(c.b, list(c.l, c.o.2), list(c.l, c.o.3)));
    assert(signs_list(v.0@, n)) by { assert forall|k: int| 0 <= k < v.0@.len() implies pm((#[trigger] v.0@[k])@) && v.0@[k]@.len() == n by { assert(pm(l.w[k])); } }
    assert(signs_list(v.1@, n)) by { assert forall|k: int| 0 <= k < v.1@.len() implies pm((#[trigger] v.1@[k])@) && v.1@[k]@.len() == n by { assert(pm(l.x[k])); } }
    assert(signs_list(v.2@, n)) by { assert forall|k: int| 0 <= k < v.2@.len() implies pm((#[trigger] v.2@[k])@) && v.2@[k]@.len() == n by { assert(pm(l.y[k])); } }
    assert(signs_list(v.3@, n)) by { assert forall|k: int| 0 <= k < v.3@.len() implies pm((#[trigger] v.3@[k])@) && v.3@[k]@.len() == n by { assert(pm(l.z[k])); } }
    assert(lists_ok(v, n));
    reveal(join_ok);
}
pub proof fn lemma_list_reads(v: Lists, l: SL, t: SequenceTag, i: int)
    requires reads4(v, l), 0 <= i < sl(l, t).len(),
    ensures list(v, t).len() == sl(l, t).len(), list(v, t)[i]@ == sl(l, t)[i],
{ }
pub proof fn lemma_dir_has(ty: SequenceType, n: int, t: Quad, l: SL, f: PF, v: Lists, c: Join, q: QV)
    requires rs_files(ty, n, t, l, f), reads4(v, l), 1 <= n <= maxq(), c == (Join { a: f.a, b: f.b, l: v, o: f.g, ty: ty }), valid(ty, n, q), rs_is(q, t),
    ensures joined(c).contains(q),
{
    reveal(rs_files);
    assert(v.0.len() == l.w.len() && v.1.len() == l.x.len() && v.2.len() == l.y.len() && v.3.len() == l.z.len());
    assert(found(l, f, q));
    let i = choose|i: Ix| #[trigger] names4(l, f.g, i, q) && meet(f, i);
    let k = choose|k: Seq<char>| #[trigger] has_line(f.a, k, i.0, i.1) && has_line(f.b, k, i.2, i.3);
    let x = choose|x: int| 0 <= x < f.a.len() && line_is(#[trigger] f.a[x], k, i.0, i.1);
    let y = choose|y: int| 0 <= y < f.b.len() && line_is(#[trigger] f.b[y], k, i.2, i.3);
    lemma_list_reads(v, l, f.g.0, i.0); lemma_list_reads(v, l, f.g.1, i.1); lemma_list_reads(v, l, f.g.2, i.2); lemma_list_reads(v, l, f.g.3, i.3);
    lemma_line(f.a[x], k, i.0, i.1); lemma_line(f.b[y], k, i.2, i.3);
    assert(key(c.a[x]) == key(c.b[y]));
    let z = indices_of(c, x, y);
    assert(z == (i.0 as usize, i.1 as usize, i.2 as usize, i.3 as usize));
    assert forall|s: SequenceTag| pick(v, c.o, z, s) == get(q, s) by {
        assert(s == f.g.0 || s == f.g.1 || s == f.g.2 || s == f.g.3) by { lemma_four_tags(f.g, s); }
    }
    let r = quad_at(c, x, y);
    assert(pick(v, c.o, z, SequenceTag::W) == q.a && pick(v, c.o, z, SequenceTag::X) == q.b && pick(v, c.o, z, SequenceTag::Y) == q.c && pick(v, c.o, z, SequenceTag::Z) == q.d);
    assert(r == q);
    lemma_row_has(c, x, y, c.b.len() as int);
    lemma_rows_has(c, x, q, c.a.len() as int);
}
pub proof fn lemma_four_tags(g: Tg, s: SequenceTag)
    requires tags_distinct(g),
    ensures s == g.0 || s == g.1 || s == g.2 || s == g.3,
{ }
pub proof fn lemma_dir_from(n: int, v: Lists, c: Join, q: QV)
    requires join_ok(c), lists_ok(v, n), c.l == v, joined(c).contains(q),
    ensures valid(c.ty, n, q),
{
    lemma_rows_from(c, c.a.len() as int, q);
    let (i, j) = choose|i: int, j: int| #[trigger] at_lines(c, i, j, q);
    lemma_quad(c, i, j);
    let z = indices_of(c, i, j);
    let k = index_of(c.o, z, SequenceTag::W);
    reveal(join_ok);
    assert(0 <= k < v.0@.len()) by { lemma_four_tags(c.o, SequenceTag::W); }
    assert(v.0@[k]@.len() == n);
}
pub proof fn lemma_dir_join(ty: SequenceType, n: int, d: Seq<char>, t: Quad, l: SL, f: PF, v: Lists, c: Join)
    requires dir_ready(ty, n, d, t, l, f), reads4(v, l), 1 <= n <= maxq(), c == (Join { a: f.a, b: f.b, l: v, o: f.g, ty: ty }),
    ensures join_ok(c), joins(c, ty, n, t),
{
    lemma_dir_ok(ty, n, t, l, f, v, c);
    assert forall|q: QV| #[trigger] joined(c).contains(q) implies valid(ty, n, q) by { lemma_dir_from(n, v, c, q); }
    assert forall|q: QV| valid(ty, n, q) && rs_is(q, t) implies #[trigger] joined(c).contains(q) by { lemma_dir_has(ty, n, t, l, f, v, c, q); }
}

/// what the calls for one directory give
pub open spec fn dir_read(d: Seq<char>, v: Lists, p1: Seq<char>, p2: Seq<char>, o: Tags) -> bool {
    &&& forall|l: SL| #[trigger] seq_files(d, l) ==> reads4(v, l)
    &&& forall|g: Tg, i: int, j: int| #[trigger] pair_files_at(d, g, i, j) ==> p1 == dir_list(d)[i] && p2 == dir_list(d)[j] && o == g
}
pub open spec fn dir_join(ty: SequenceType, v: Lists, p1: Seq<char>, p2: Seq<char>, o: Tags) -> Join { Join { a: file_lines(p1), b: file_lines(p2), l: v, o: o, ty: ty } }
pub open spec fn joins_all(c: Join, ty: SequenceType, n: int, d: Seq<char>) -> bool {
    &&& forall|q: QV| #[trigger] joined(c).contains(q) ==> valid(ty, n, q)
    &&& forall|q: QV, t: Quad| #[trigger] ready_for(ty, n, d, t) && #[trigger] rs_is(q, t) && valid(ty, n, q) ==> joined(c).contains(q)
}
pub proof fn lemma_dir_one(ty: SequenceType, n: int, d: Seq<char>, t: Quad, l: SL, f: PF, v: Lists, p1: Seq<char>, p2: Seq<char>, o: Tags)
    requires dir_read(d, v, p1, p2, o), dir_ready(ty, n, d, t, l, f), 1 <= n <= maxq(),
    ensures readable(p1), readable(p2), join_ok(dir_join(ty, v, p1, p2, o)), joins(dir_join(ty, v, p1, p2, o), ty, n, t),
{
    let (i, j) = choose|i: int, j: int| #[trigger] pair_files_at(d, f.g, i, j) && file_is(dir_list(d)[i], f.a) && file_is(dir_list(d)[j], f.b);
    assert(seq_files(d, l));
    lemma_dir_join(ty, n, d, t, l, f, v, dir_join(ty, v, p1, p2, o));
}
pub proof fn lemma_dir_all(ty: SequenceType, n: int, d: Seq<char>, v: Lists, p1: Seq<char>, p2: Seq<char>, o: Tags)
    requires dir_read(d, v, p1, p2, o), some_ready(ty, n, d), 1 <= n <= maxq(),
    ensures readable(p1), readable(p2), join_ok(dir_join(ty, v, p1, p2, o)), joins_all(dir_join(ty, v, p1, p2, o), ty, n, d),
{
    let c = dir_join(ty, v, p1, p2, o);
    let (t, l, f) = choose|t: Quad, l: SL, f: PF| #[trigger] dir_ready(ty, n, d, t, l, f);
    lemma_dir_one(ty, n, d, t, l, f, v, p1, p2, o);
    assert forall|q: QV, t: Quad| #[trigger] ready_for(ty, n, d, t) && #[trigger] rs_is(q, t) && valid(ty, n, q) implies joined(c).contains(q) by {
        let (l2, f2) = choose|l: SL, f: PF| #[trigger] dir_ready(ty, n, d, t, l, f);
        lemma_dir_one(ty, n, d, t, l2, f2, v, p1, p2, o);
    }
}
pub proof fn lemma_dir_pre(ty: SequenceType, n: int, d: Seq<char>)
    requires some_ready(ty, n, d),
    ensures exists|l: SL| #[trigger] seq_files(d, l), exists|g: Tg, i: int, j: int| #[trigger] pair_files_at(d, g, i, j),
{
    let (t, l, f) = choose|t: Quad, l: SL, f: PF| #[trigger] dir_ready(ty, n, d, t, l, f);
    let (i, j) = choose|i: int, j: int| #[trigger] pair_files_at(d, f.g, i, j) && file_is(dir_list(d)[i], f.a) && file_is(dir_list(d)[j], f.b);
    assert(seq_files(d, l));
}
// ---- what has been found
pub open spec fn has_q(s: Seq<QuadSeq>, q: QV) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j]@ == q }
#[verifier::opaque]
pub open spec fn found_ok(ty: SequenceType, n: int, s: Seq<QuadSeq>) -> bool { forall|j: int| 0 <= j < s.len() ==> wfq(#[trigger] s[j]) && valid(ty, n, s[j]@) }
#[verifier::opaque]
pub open spec fn found_upto(ty: SequenceType, n: int, ds: Seq<Seq<char>>, k: int, s: Seq<QuadSeq>) -> bool {
    forall|i: int, q: QV, t: Quad| 0 <= i < k && is_a_dir(ds[i]) && #[trigger] ready_for(ty, n, ds[i], t) && #[trigger] rs_is(q, t) && valid(ty, n, q) ==> has_q(s, q)
}
pub proof fn lemma_found_start(ty: SequenceType, n: int, ds: Seq<Seq<char>>)
    ensures found_ok(ty, n, Seq::empty()), found_upto(ty, n, ds, 0, Seq::empty()),
{ reveal(found_ok); reveal(found_upto); }
pub proof fn lemma_found_skip(ty: SequenceType, n: int, ds: Seq<Seq<char>>, k: int, s: Seq<QuadSeq>)
    requires found_upto(ty, n, ds, k, s), !is_a_dir(ds[k]),
    ensures found_upto(ty, n, ds, k + 1, s),
{ reveal(found_upto); }
pub proof fn lemma_found_add(ty: SequenceType, n: int, ds: Seq<Seq<char>>, k: int, s: Seq<QuadSeq>, x: Seq<QuadSeq>, c: Join)
    requires found_ok(ty, n, s), found_upto(ty, n, ds, k, s), joins_all(c, ty, n, ds[k]), qvs(x).to_multiset() == joined(c).to_multiset(), forall|i: int| 0 <= i < x.len() ==> wfq(#[trigger] x[i]),
    ensures found_ok(ty, n, s + x), found_upto(ty, n, ds, k + 1, s + x),
{
    reveal(found_ok); reveal(found_upto);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let u = s + x;
    assert forall|j: int| 0 <= j < u.len() implies wfq(#[trigger] u[j]) && valid(ty, n, u[j]@) by {
        if j < s.len() { assert(u[j] == s[j]); } else {
            let i = j - s.len(); assert(u[j] == x[i]); assert(qvs(x)[i] == x[i]@); assert(qvs(x).contains(x[i]@));
            assert(qvs(x).to_multiset().count(x[i]@) > 0); assert(joined(c).to_multiset().count(x[i]@) > 0); assert(joined(c).contains(x[i]@));
        }
    }
    assert forall|i: int, q: QV, t: Quad| 0 <= i < k + 1 && is_a_dir(ds[i]) && #[trigger] ready_for(ty, n, ds[i], t) && #[trigger] rs_is(q, t) && valid(ty, n, q) implies has_q(u, q) by {
        if i < k { assert(has_q(s, q)); let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j]@ == q; assert(u[j]@ == q); }
        else {
            assert(joined(c).contains(q)); assert(joined(c).to_multiset().count(q) > 0); assert(qvs(x).to_multiset().count(q) > 0); assert(qvs(x).contains(q));
            let j = choose|j: int| 0 <= j < qvs(x).len() && qvs(x)[j] == q; assert(u[s.len() + j]@ == q);
        }
    }
}

pub open spec fn res_ok(s: Seq<QuadSeq>, n: int) -> bool { forall|j: int| 0 <= j < s.len() ==> wfq(#[trigger] s[j]) && s[j]@.n == n }
pub proof fn lemma_found_res(ty: SequenceType, n: int, s: Seq<QuadSeq>)
    requires found_ok(ty, n, s),
    ensures res_ok(s, n),
{ reveal(found_ok); }
/// before the calls for one directory
pub proof fn lemma_dir_start(ty: SequenceType, n: int, d: Seq<char>)
    requires some_ready(ty, n, d), 1 <= n <= maxq(),
    ensures
        exists|l: SL| #[trigger] seq_files(d, l), exists|g: Tg, i: int, j: int| #[trigger] pair_files_at(d, g, i, j),
        forall|g: Tg, i: int, j: int| #[trigger] pair_files_at(d, g, i, j) ==> readable(dir_list(d)[i]) && readable(dir_list(d)[j]),
        forall|v: Lists, p1: Seq<char>, p2: Seq<char>, o: Tags| dir_read(d, v, p1, p2, o) ==> #[trigger] join_ok(Join { a: file_lines(p1), b: file_lines(p2), l: v, o: o, ty: ty }),
{
    lemma_dir_pre(ty, n, d);
    let (t, l, f) = choose|t: Quad, l: SL, f: PF| #[trigger] dir_ready(ty, n, d, t, l, f);
    let (x, y) = choose|i: int, j: int| #[trigger] pair_files_at(d, f.g, i, j) && file_is(dir_list(d)[i], f.a) && file_is(dir_list(d)[j], f.b);
    assert forall|g: Tg, i: int, j: int| #[trigger] pair_files_at(d, g, i, j) implies readable(dir_list(d)[i]) && readable(dir_list(d)[j]) by {
        lemma_names(d, g.0, g.1); lemma_names(d, g.2, g.3); lemma_names(d, f.g.0, f.g.1); lemma_names(d, f.g.2, f.g.3);
        assert(is_pair_file(dir_list(d)[i]) && is_pair_file(dir_list(d)[j]) && is_pair_file(dir_list(d)[x]) && is_pair_file(dir_list(d)[y]));
    }
    assert forall|v: Lists, p1: Seq<char>, p2: Seq<char>, o: Tags| dir_read(d, v, p1, p2, o) implies #[trigger] join_ok(Join { a: file_lines(p1), b: file_lines(p2), l: v, o: o, ty: ty }) by {
        lemma_dir_all(ty, n, d, v, p1, p2, o);
    }
}
// ---- keeping one normal form of each
#[verifier::opaque]
pub open spec fn norms_upto(ty: SequenceType, s: Seq<QuadSeq>, k: int, o: Seq<QuadSeq>) -> bool {
    &&& forall|j: int| 0 <= j < o.len() ==> wfq(#[trigger] o[j]) && from_c(ty, s, o[j]@)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] into_c(ty, s[i]@, o)
}
pub open spec fn from_c(ty: SequenceType, s: Seq<QuadSeq>, p: QV) -> bool { exists|i: int| 0 <= i < s.len() && reach(cstep(ty), (#[trigger] s[i])@, p) }
pub open spec fn into_c(ty: SequenceType, q: QV, o: Seq<QuadSeq>) -> bool { exists|j: int| 0 <= j < o.len() && reach(cstep(ty), q, (#[trigger] o[j])@) }
pub proof fn lemma_norms_start(ty: SequenceType, s: Seq<QuadSeq>)
    ensures norms_upto(ty, s, 0, Seq::empty()),
{ reveal(norms_upto); }
/// the next normal form m: kept, or one of those kept before
pub proof fn lemma_norms_step(ty: SequenceType, s: Seq<QuadSeq>, k: int, o: Seq<QuadSeq>, o2: Seq<QuadSeq>, m: QuadSeq)
    requires norms_upto(ty, s, k, o), 0 <= k < s.len(), wfq(m), reach(cstep(ty), s[k]@, m@), o2 == o.push(m) || (o2 == o && has_q(o, m@)),
    ensures norms_upto(ty, s, k + 1, o2),
{
    reveal(norms_upto);
    assert forall|j: int| 0 <= j < o2.len() implies wfq(#[trigger] o2[j]) && from_c(ty, s, o2[j]@) by { if j < o.len() { assert(o2[j] == o[j]); } else { assert(reach(cstep(ty), s[k]@, o2[j]@)); } }
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] into_c(ty, s[i]@, o2) by {
        if i < k { assert(into_c(ty, s[i]@, o)); let j = choose|j: int| 0 <= j < o.len() && reach(cstep(ty), s[i]@, (#[trigger] o[j])@); assert(o2[j] == o[j]); }
        else if o2 == o.push(m) { assert(o2[o.len() as int]@ == m@); }
        else { let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j]@ == m@; assert(reach(cstep(ty), s[k]@, o2[j]@)); }
    }
}
// ---- the types are kept by their operations
pub proof fn lemma_op_valid(ty: SequenceType, n: int, f: VxOp, q: QV, p: QV)
    requires rep_type(ty), valid(ty, n, q), n >= 1, type_op(ty, f), op_rel(f, q, p),
    ensures valid(ty, n, p),
{
    lemma_op_pm(f, q, p);
    lemma_wfv_wfl(q);
    match f {
        VxOp::equivalent_negate_swap => { lemma_op_negate_swap(q); }
        VxOp::equivalent_negate => { lemma_op_negate(q); }
        VxOp::equivalent_reorder => { lemma_op_reorder(q); }
        VxOp::equivalent_uniform_shift => { lemma_op_uniform_shift(q); }
        VxOp::equivalent_automorphism => { lemma_op_automorphism(q); }
        VxOp::equivalent_even_alternated_negation => { lemma_op_even_alt(q); }
        VxOp::equivalent_dual_half_shift => { lemma_op_dual_half(q); }
        VxOp::equivalent_single_half_shift => { lemma_op_single_half(q); }
        _ => { }
    }
}
pub proof fn lemma_reach_valid(ty: SequenceType, n: int, q: QV, p: QV)
    requires rep_type(ty), valid(ty, n, q), n >= 1, reach(type_step(ty), q, p),
    ensures valid(ty, n, p),
{
    let inv = |x: QV| valid(ty, n, x);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] type_step(ty)(x, y) implies inv(y) by {
        let f = choose|f: VxOp| type_op(ty, f) && #[trigger] op_rel(f, x, y);
        lemma_op_valid(ty, n, f, x, y);
    }
    lemma_reach_inv(type_step(ty), inv, q, p);
}
/// the answer of a search
pub open spec fn search_result(ty: SequenceType, n: int, r: Seq<QuadSeq>) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> valid(ty, n, (#[trigger] r[j])@)
    &&& forall|q: QV| valid(ty, n, q) ==> #[trigger] into_list(type_step(ty), q, r)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> !reach(type_step(ty), (#[trigger] r[i])@, (#[trigger] r[j])@)
}
pub proof fn lemma_norms_list(ty: SequenceType, n: int, s: Seq<QuadSeq>, o: Seq<QuadSeq>)
    requires rep_type(ty), n >= 1, found_ok(ty, n, s), norms_upto(ty, s, s.len() as int, o),
    ensures forall|j: int| 0 <= j < o.len() ==> wfq(#[trigger] o[j]) && o[j]@.n == n && valid(ty, n, o[j]@), list_pm(o, n),
{
    reveal(found_ok); reveal(norms_upto);
    assert forall|j: int| 0 <= j < o.len() implies wfq(#[trigger] o[j]) && o[j]@.n == n && valid(ty, n, o[j]@) by {
        let i = choose|i: int| 0 <= i < s.len() && reach(cstep(ty), (#[trigger] s[i])@, o[j]@);
        lemma_creach(ty, s[i]@, o[j]@); lemma_reach_valid(ty, n, s[i]@, o[j]@);
    }
}
pub proof fn theorem_search(ty: SequenceType, n: int, root: Seq<char>, s: Seq<QuadSeq>, o: Seq<QuadSeq>, r: Seq<QuadSeq>)
    requires rep_type(ty), 1 <= n <= 31, search_ready(ty, n, root), found_ok(ty, n, s), found_upto(ty, n, dir_list(root), dir_list(root).len() as int, s),
        norms_upto(ty, s, s.len() as int, o), transversal(type_step(ty), o, r),
    ensures search_result(ty, n, r),
{
    let st = type_step(ty);
    lemma_norms_list(ty, n, s, o);
    assert forall|j: int| 0 <= j < r.len() implies valid(ty, n, (#[trigger] r[j])@) by {
        assert(from_list(st, o, r[j]@));
        let i = choose|i: int| 0 <= i < o.len() && reach(st, (#[trigger] o[i])@, r[j]@);
        lemma_reach_valid(ty, n, o[i]@, r[j]@);
    }
    let tl = choose|tl: Seq<Quad>| #[trigger] all_covered(ty, n, tl) && forall|t: Quad| #[trigger] tl.contains(t) ==> has_ready(ty, n, dir_list(root), t);
    assert forall|q: QV| valid(ty, n, q) implies #[trigger] into_list(st, q, r) by {
        assert(covered(ty, tl, q));
        let (p, t) = choose|p: QV, t: Quad| #[trigger] sorted_member(ty, tl, q, p, t);
        lemma_type_list(ty);
        assert(reach(st, q, p));
        lemma_reach_valid(ty, n, q, p);
        assert(rs4(p) == r4(t)); assert(rs_is(p, t));
        assert(has_ready(ty, n, dir_list(root), t));
        let k = choose|k: int| 0 <= k < dir_list(root).len() && ready_for(ty, n, #[trigger] dir_list(root)[k], t);
        assert(has_q(s, p)) by { reveal(found_upto); }
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == p;
        assert(into_c(ty, s[i]@, o)) by { reveal(norms_upto); }
        let j = choose|j: int| 0 <= j < o.len() && reach(cstep(ty), p, (#[trigger] o[j])@);
        lemma_creach(ty, p, o[j]@);
        assert(into_list(st, o[j]@, r));
        let m = choose|m: int| 0 <= m < r.len() && reach(st, o[j]@, (#[trigger] r[m])@);
        lemma_reach_trans(st, q, p, o[j]@); lemma_reach_trans(st, q, o[j]@, r[m]@);
    }
}
pub proof fn lemma_has_push(o: Seq<QuadSeq>, m: QuadSeq)
    ensures forall|v: QV| #[trigger] has_q(o.push(m), v) <==> has_q(o, v) || v == m@,
{
    let u = o.push(m);
    assert forall|v: QV| #[trigger] has_q(u, v) <==> has_q(o, v) || v == m@ by {
        if has_q(u, v) { let j = choose|j: int| 0 <= j < u.len() && #[trigger] u[j]@ == v; if j < o.len() { assert(o[j]@ == v); } }
        if has_q(o, v) { let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j]@ == v; assert(u[j]@ == v); }
        if v == m@ { assert(u[o.len() as int]@ == v); }
    }
}
