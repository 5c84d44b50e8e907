// ===== lib/join.rs: joining two sorted pair files =====
pub struct VxLines { pub lines: Ghost<Seq<Seq<char>>>, pub pos: Ghost<int> }
pub type VxLine = Option<Result<VxStr, Error>>;
#[verifier::external_body]
pub fn read_lines(name: &VxStr) -> (r: Result<VxLines, Error>) ensures readable(name@) ==> r is Ok && r->Ok_0.lines@ == file_lines(name@) && r->Ok_0.pos@ == 0 { unimplemented!() }
impl VxLines {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<VxStr, Error>>)
        ensures
            final(self).lines@ == old(self).lines@,
            0 <= old(self).pos@ < old(self).lines@.len() ==> r is Some && r->0 is Ok && r->0->Ok_0@ == old(self).lines@[old(self).pos@] && final(self).pos@ == old(self).pos@ + 1,
            !(0 <= old(self).pos@ < old(self).lines@.len()) ==> r is None && final(self).pos@ == old(self).pos@,
    { unimplemented!() }
}

// ---- what the lines of a pair file say
pub open spec fn sep() -> Seq<char> { "_:_"@ }
pub open spec fn bar() -> Seq<char> { "_"@ }
/// the key with its separator
pub open spec fn key(s: Seq<char>) -> Seq<char> { s.take(first(s, sep()) + sep().len()) }
pub open spec fn rest(s: Seq<char>) -> Seq<char> { head(tail(s, sep()), sep()) }
pub open spec fn text1(s: Seq<char>) -> Seq<char> { head(rest(s), bar()) }
pub open spec fn text2(s: Seq<char>) -> Seq<char> { head(tail(rest(s), bar()), bar()) }
pub open spec fn idx(s: Seq<char>) -> (usize, usize) { (number(text1(s))->0, number(text2(s))->0) }
pub open spec fn wf_line(s: Seq<char>) -> bool { occurs(s, sep()) && occurs(rest(s), bar()) && number(text1(s)) is Some && number(text2(s)) is Some }
/// lines in byte order have keys in byte order
pub proof fn lemma_key_order(s: Seq<char>, t: Seq<char>)
    requires occurs(s, sep()), occurs(t, sep()), sle(s, t),
    ensures sle(key(s), key(t)),
{
    let (u, v) = (key(s), key(t));
    lemma_first(s, sep()); lemma_first(t, sep());
    let n = sep().len() as int;
    let (x, y) = (first(s, sep()), first(t, sep()));
    lemma_total(u, v);
    if sless(v, u) {
        let d = choose|d: int| less_at(v, u, d);
        if d == v.len() {
            assert(v.take(d) =~= v);
            assert(s.subrange(y, y + n) =~= t.subrange(y, y + n)) by {
                assert forall|i: int| 0 <= i < n implies #[trigger] s.subrange(y, y + n)[i] == t.subrange(y, y + n)[i] by { assert(u.take(d)[y + i] == v[y + i]); }
            }
            assert(occ(s, sep(), y));
            assert(false);
        } else {
            assert(t.take(d) =~= v.take(d)); assert(s.take(d) =~= u.take(d));
            assert(less_at(t, s, d));
            lemma_asym(s, t);
        }
    }
}
pub type Lists = (Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>);
pub type Tags = (SequenceTag, SequenceTag, SequenceTag, SequenceTag);
pub open spec fn list(l: Lists, t: SequenceTag) -> Seq<Vec<i8>> {
    match t { SequenceTag::W => l.0@, SequenceTag::X => l.1@, SequenceTag::Y => l.2@, SequenceTag::Z => l.3@ }
}
pub open spec fn tags_apart(o: Tags) -> bool { o.0 != o.1 && o.0 != o.2 && o.0 != o.3 && o.1 != o.2 && o.1 != o.3 && o.2 != o.3 }
/// the index that belongs to a tag
pub open spec fn index_of(o: Tags, i: (usize, usize, usize, usize), t: SequenceTag) -> int {
    if t == o.0 { i.0 as int } else if t == o.1 { i.1 as int } else if t == o.2 { i.2 as int } else { i.3 as int }
}
pub open spec fn pick(l: Lists, o: Tags, i: (usize, usize, usize, usize), t: SequenceTag) -> Seq<i8> { list(l, t)[index_of(o, i, t)]@ }
pub open spec fn in_range(l: Lists, o: Tags, i: (usize, usize, usize, usize)) -> bool {
    i.0 < list(l, o.0).len() && i.1 < list(l, o.1).len() && i.2 < list(l, o.2).len() && i.3 < list(l, o.3).len()
}
pub open spec fn signs_list(s: Seq<Vec<i8>>, n: int) -> bool { forall|k: int| 0 <= k < s.len() ==> pm((#[trigger] s[k])@) && s[k]@.len() == n }
pub open spec fn lists_ok(l: Lists, n: int) -> bool { 1 <= n <= maxq() && signs_list(l.0@, n) && signs_list(l.1@, n) && signs_list(l.2@, n) && signs_list(l.3@, n) }
pub open spec fn lists_same_len(l: Lists) -> bool { exists|n: int| lists_ok(l, n) }
pub open spec fn file_ok(a: Seq<Seq<char>>, l1: Seq<Vec<i8>>, l2: Seq<Vec<i8>>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> wf_line(#[trigger] a[i]) && idx(a[i]).0 < l1.len() && idx(a[i]).1 < l2.len()
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> sle(#[trigger] a[i], #[trigger] a[j])
}
pub struct Join { pub a: Seq<Seq<char>>, pub b: Seq<Seq<char>>, pub l: Lists, pub o: Tags, pub ty: SequenceType }
#[verifier::opaque]
pub open spec fn join_ok(c: Join) -> bool {
    &&& tags_apart(c.o) && lists_same_len(c.l)
    &&& file_ok(c.a, list(c.l, c.o.0), list(c.l, c.o.1)) && file_ok(c.b, list(c.l, c.o.2), list(c.l, c.o.3))
}
/// the quadruple that two lines name
pub open spec fn indices_of(c: Join, i: int, j: int) -> (usize, usize, usize, usize) { (idx(c.a[i]).0, idx(c.a[i]).1, idx(c.b[j]).0, idx(c.b[j]).1) }
pub open spec fn quad_at(c: Join, i: int, j: int) -> QV {
    let x = indices_of(c, i, j);
    QV { n: pick(c.l, c.o, x, SequenceTag::W).len() as int, a: pick(c.l, c.o, x, SequenceTag::W), b: pick(c.l, c.o, x, SequenceTag::X), c: pick(c.l, c.o, x, SequenceTag::Y), d: pick(c.l, c.o, x, SequenceTag::Z) }
}
/// line i of the first file with the first j lines of the second: the valid quadruples with equal keys
pub open spec fn row(c: Join, i: int, j: int) -> Seq<QV>
    decreases j,
{
    if j <= 0 { Seq::empty() }
    else if key(c.a[i]) == key(c.b[j - 1]) && is_type(quad_at(c, i, j - 1), c.ty) { row(c, i, j - 1).push(quad_at(c, i, j - 1)) }
    else { row(c, i, j - 1) }
}
pub open spec fn rows(c: Join, i: int) -> Seq<QV>
    decreases i,
{ if i <= 0 { Seq::empty() } else { rows(c, i - 1) + row(c, i - 1, c.b.len() as int) } }
pub open spec fn joined(c: Join) -> Seq<QV> { rows(c, c.a.len() as int) }
pub open spec fn qvs(s: Seq<QuadSeq>) -> Seq<QV> { s.map_values(|q: QuadSeq| q@) }

/// no line of a from p on has the key of a line of b before r
#[verifier::opaque]
pub open spec fn past(c: Join, p: int, r: int) -> bool { forall|i: int, j: int| p <= i < c.a.len() && 0 <= j < r ==> key(#[trigger] c.a[i]) != key(#[trigger] c.b[j]) }
pub proof fn lemma_keys(c: Join)
    requires join_ok(c),
    ensures forall|i: int, j: int| 0 <= i <= j < c.a.len() ==> sle(key(#[trigger] c.a[i]), key(#[trigger] c.a[j])),
        forall|i: int, j: int| 0 <= i <= j < c.b.len() ==> sle(key(#[trigger] c.b[i]), key(#[trigger] c.b[j])),
{
    reveal(join_ok); reveal(past);
    assert forall|i: int, j: int| 0 <= i <= j < c.a.len() implies sle(key(#[trigger] c.a[i]), key(#[trigger] c.a[j])) by { if i < j { lemma_key_order(c.a[i], c.a[j]); } }
    assert forall|i: int, j: int| 0 <= i <= j < c.b.len() implies sle(key(#[trigger] c.b[i]), key(#[trigger] c.b[j])) by { if i < j { lemma_key_order(c.b[i], c.b[j]); } }
}
pub proof fn lemma_row_none(c: Join, i: int, lo: int, hi: int)
    requires 0 <= lo <= hi, forall|j: int| lo <= j < hi ==> key(c.a[i]) != key(#[trigger] c.b[j]),
    ensures row(c, i, hi) == row(c, i, lo),
    decreases hi - lo,
{ if lo < hi { lemma_row_none(c, i, lo, hi - 1); assert(key(c.a[i]) != key(c.b[hi - 1])); } }
/// the smaller key of the first file is passed over
pub proof fn lemma_skip_a(c: Join, p: int, r: int)
    requires join_ok(c), past(c, p, r), 0 <= p < c.a.len(), 0 <= r < c.b.len(), sless(key(c.a[p]), key(c.b[r])),
    ensures past(c, p + 1, r), rows(c, p + 1) == rows(c, p),
{
    reveal(join_ok); reveal(past);
    lemma_keys(c);
    assert forall|j: int| 0 <= j < c.b.len() implies key(c.a[p]) != key(#[trigger] c.b[j]) by {
        if j >= r { assert(sle(key(c.b[r]), key(c.b[j]))); lemma_asym(key(c.a[p]), key(c.b[r])); }
    }
    lemma_row_none(c, p, 0, c.b.len() as int);
    assert(rows(c, p + 1) =~= rows(c, p));
}
pub proof fn lemma_skip_b(c: Join, p: int, r: int)
    requires join_ok(c), past(c, p, r), 0 <= p < c.a.len(), 0 <= r < c.b.len(), sless(key(c.b[r]), key(c.a[p])),
    ensures past(c, p, r + 1),
{
    reveal(join_ok); reveal(past);
    lemma_keys(c);
    assert forall|i: int, j: int| p <= i < c.a.len() && 0 <= j < r + 1 implies key(#[trigger] c.a[i]) != key(#[trigger] c.b[j]) by {
        if j == r { assert(sle(key(c.a[p]), key(c.a[i]))); lemma_asym(key(c.a[p]), key(c.b[r])); }
    }
}
/// a[p..p1] and b[r..r1] are all the lines with one key
pub open spec fn same_keys(a: Seq<Seq<char>>, lo: int, hi: int, k: Seq<char>) -> bool {
    0 <= lo < hi <= a.len() && (forall|i: int| lo <= i < hi ==> key(#[trigger] a[i]) == k) && (hi < a.len() ==> key(a[hi]) != k)
}
pub proof fn lemma_group(c: Join, p: int, p1: int, r: int, r1: int, k: Seq<char>)
    requires join_ok(c), past(c, p, r), same_keys(c.a, p, p1, k), same_keys(c.b, r, r1, k),
    ensures past(c, p1, r1),
        forall|i: int| p <= i < p1 ==> #[trigger] row(c, i, r) == Seq::<QV>::empty() && row(c, i, c.b.len() as int) == row(c, i, r1),
{
    reveal(join_ok); reveal(past);
    lemma_keys(c);
    assert forall|j: int| r1 <= j < c.b.len() implies key(#[trigger] c.b[j]) != k by {
        assert(key(c.b[r]) == k); assert(sle(key(c.b[r]), key(c.b[r1]))); assert(sle(key(c.b[r1]), key(c.b[j]))); lemma_asym(key(c.b[r1]), k);
    }
    assert forall|i: int| p1 <= i < c.a.len() implies key(#[trigger] c.a[i]) != k by {
        assert(key(c.a[p]) == k); assert(sle(key(c.a[p]), key(c.a[p1]))); assert(sle(key(c.a[p1]), key(c.a[i]))); lemma_asym(key(c.a[p1]), k);
    }
    assert forall|i: int| p <= i < p1 implies #[trigger] row(c, i, r) == Seq::<QV>::empty() && row(c, i, c.b.len() as int) == row(c, i, r1) by {
        assert(key(c.a[i]) == k);
        lemma_row_none(c, i, 0, r);
        lemma_row_none(c, i, r1, c.b.len() as int);
    }
}
/// the reader stands at line cur
pub open spec fn cur(l: VxLines, x: VxLine) -> int { if x is Some { l.pos@ - 1 } else { l.pos@ } }
pub open spec fn at_line(l: VxLines, x: VxLine, a: Seq<Seq<char>>) -> bool {
    &&& l.lines@ == a && 0 <= l.pos@ <= a.len()
    &&& x is Some ==> l.pos@ >= 1 && x->0 is Ok && x->0->Ok_0@ == a[l.pos@ - 1]
    &&& x is None ==> l.pos@ == a.len()
}
pub open spec fn group(v: Seq<(usize, usize)>, a: Seq<Seq<char>>, lo: int, hi: int, k: Seq<char>) -> bool {
    0 <= lo <= hi <= a.len() && v.len() == hi - lo && forall|i: int| lo <= i < hi ==> v[i - lo] == idx(#[trigger] a[i]) && key(a[i]) == k
}
pub proof fn lemma_quad(c: Join, i: int, j: int)
    requires join_ok(c), 0 <= i < c.a.len(), 0 <= j < c.b.len(),
    ensures in_range(c.l, c.o, indices_of(c, i, j)), wfv(quad_at(c, i, j)), 1 <= quad_at(c, i, j).n <= maxq(),
{
    reveal(join_ok); reveal(past);
    let x = indices_of(c, i, j);
    assert(wf_line(c.a[i]) && wf_line(c.b[j]));
    let n = choose|n: int| lists_ok(c.l, n);
    assert forall|t: SequenceTag| pm(#[trigger] pick(c.l, c.o, x, t)) && pick(c.l, c.o, x, t).len() == n by {
        assert(0 <= index_of(c.o, x, t) < list(c.l, t).len());
        assert(signs_list(list(c.l, t), n));
    }
    assert(pm(pick(c.l, c.o, x, SequenceTag::W)) && pm(pick(c.l, c.o, x, SequenceTag::X)) && pm(pick(c.l, c.o, x, SequenceTag::Y)) && pm(pick(c.l, c.o, x, SequenceTag::Z)));
}
/// one of the files is used up: nothing more to find
pub proof fn lemma_tail(c: Join, p: int, r: int)
    requires past(c, p, r), 0 <= p <= c.a.len(), 0 <= r <= c.b.len(), p == c.a.len() || r == c.b.len(),
    ensures rows(c, p) == joined(c),
    decreases c.a.len() - p,
{
    reveal(join_ok); reveal(past);
    if p < c.a.len() {
        lemma_row_none(c, p, 0, r);
        assert(rows(c, p + 1) =~= rows(c, p));
        lemma_tail(c, p + 1, r);
    }
}
pub proof fn lemma_join_lines(c: Join)
    requires join_ok(c),
    ensures tags_apart(c.o), past(c, 0, 0), forall|i: int| 0 <= i < c.a.len() ==> wf_line(#[trigger] c.a[i]), forall|i: int| 0 <= i < c.b.len() ==> wf_line(#[trigger] c.b[i]),
{ reveal(join_ok); reveal(past); }
