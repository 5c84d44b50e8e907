// ===== lib/pipe.rs: what the files of a search hold =====
pub open spec fn sign_char(x: i8) -> char { if x == 1 { '+' } else { '-' } }
/// a sequence of signs as a text
pub open spec fn sign_text(s: Seq<i8>) -> Seq<char> { Seq::new(s.len(), |i: int| sign_char(s[i])) }
pub open spec fn tag_text(t: SequenceTag) -> Seq<char> { match t { SequenceTag::W => "W"@, SequenceTag::X => "X"@, SequenceTag::Y => "Y"@, SequenceTag::Z => "Z"@ } }
pub open spec fn type_text(t: SequenceType) -> Seq<char> {
    match t { SequenceType::Williamson => "ws"@, SequenceType::WilliamsonType => "wts"@, SequenceType::QuaternionType => "qts"@, SequenceType::ItoType => "its"@,
        SequenceType::ExtraTypeI => "et1"@, SequenceType::ExtraTypeII => "et2"@, SequenceType::ExtraTypeIII => "et3"@ }
}
pub type Ix = (int, int, int, int);
pub type Tg = (SequenceTag, SequenceTag, SequenceTag, SequenceTag);
/// the four lists of sequences of a directory
pub ghost struct SL { pub w: Seq<Seq<i8>>, pub x: Seq<Seq<i8>>, pub y: Seq<Seq<i8>>, pub z: Seq<Seq<i8>> }
pub open spec fn sl(l: SL, t: SequenceTag) -> Seq<Seq<i8>> { match t { SequenceTag::W => l.w, SequenceTag::X => l.x, SequenceTag::Y => l.y, SequenceTag::Z => l.z } }
/// the lines of its two pair files, and the sequences they pair
pub ghost struct PF { pub g: Tg, pub a: Seq<Seq<char>>, pub b: Seq<Seq<char>> }
pub open spec fn tags_distinct(o: Tg) -> bool { o.0 != o.1 && o.0 != o.2 && o.0 != o.3 && o.1 != o.2 && o.1 != o.3 && o.2 != o.3 }
/// a line: a key, which ends with a bar and has no colon, and two indices
pub open spec fn key_text(k: Seq<char>) -> bool { k.len() >= 1 && k[k.len() - 1] == '_' && forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] != ':' }
pub open spec fn line_is(s: Seq<char>, k: Seq<char>, i: int, j: int) -> bool { key_text(k) && s == k + (":_"@ + int_text(i) + "_"@ + int_text(j)) }
pub open spec fn line_ok(s: Seq<char>, m1: int, m2: int) -> bool { exists|k: Seq<char>, i: int, j: int| 0 <= i < m1 && 0 <= j < m2 && #[trigger] line_is(s, k, i, j) }
pub open spec fn lines_ok(a: Seq<Seq<char>>, m1: int, m2: int) -> bool { forall|x: int| 0 <= x < a.len() ==> line_ok(#[trigger] a[x], m1, m2) }
/// a has a line with this key and these indices
pub open spec fn has_line(a: Seq<Seq<char>>, k: Seq<char>, i: int, j: int) -> bool { exists|x: int| 0 <= x < a.len() && line_is(#[trigger] a[x], k, i, j) }
/// the two files have lines with one key and these indices
pub open spec fn meet(f: PF, i: Ix) -> bool { exists|k: Seq<char>| #[trigger] has_line(f.a, k, i.0, i.1) && has_line(f.b, k, i.2, i.3) }
pub open spec fn names(l: Seq<Seq<i8>>, i: int, s: Seq<i8>) -> bool { 0 <= i < l.len() && l[i] == s }
pub open spec fn names4(l: SL, g: Tg, i: Ix, q: QV) -> bool { names(sl(l, g.0), i.0, get(q, g.0)) && names(sl(l, g.1), i.1, get(q, g.1)) && names(sl(l, g.2), i.2, get(q, g.2)) && names(sl(l, g.3), i.3, get(q, g.3)) }
/// q can be read off two lines with one key
pub open spec fn found(l: SL, f: PF, q: QV) -> bool { exists|i: Ix| #[trigger] names4(l, f.g, i, q) && meet(f, i) }
pub open spec fn all_signs(l: Seq<Seq<i8>>, n: int) -> bool { forall|k: int| 0 <= k < l.len() ==> pm(#[trigger] l[k]) && l[k].len() == n }
pub open spec fn rs_is(q: QV, t: Quad) -> bool { rowsum_of(q.a) == t.0 && rowsum_of(q.b) == t.1 && rowsum_of(q.c) == t.2 && rowsum_of(q.d) == t.3 }
/// the directory of a rowsum: its lists are sequences of length n, its lines are well formed, and every valid quadruple with the rowsums can be found
#[verifier::opaque]
pub open spec fn rs_files(ty: SequenceType, n: int, t: Quad, l: SL, f: PF) -> bool {
    &&& all_signs(l.w, n) && all_signs(l.x, n) && all_signs(l.y, n) && all_signs(l.z, n)
    &&& tags_distinct(f.g)
    &&& lines_ok(f.a, sl(l, f.g.0).len() as int, sl(l, f.g.1).len() as int)
    &&& lines_ok(f.b, sl(l, f.g.2).len() as int, sl(l, f.g.3).len() as int)
    &&& forall|q: QV| wfv(q) && q.n == n && is_type(q, ty) && rs_is(q, t) ==> #[trigger] found(l, f, q)
}
/// the rowsums the search goes through: every valid quadruple of length n is related to one with these rowsums (C11)
pub open spec fn swap_halves(f: PF) -> PF { PF { g: (f.g.2, f.g.3, f.g.0, f.g.1), a: f.b, b: f.a } }
pub proof fn lemma_swap_halves(ty: SequenceType, n: int, t: Quad, l: SL, f: PF)
    requires rs_files(ty, n, t, l, f),
    ensures rs_files(ty, n, t, l, swap_halves(f)),
{
    reveal(rs_files);
    let h = swap_halves(f);
    assert forall|q: QV| wfv(q) && q.n == n && is_type(q, ty) && rs_is(q, t) implies #[trigger] found(l, h, q) by {
        assert(found(l, f, q));
        lemma_swap_found(l, f, q);
    }
}
pub proof fn lemma_swap_found(l: SL, f: PF, q: QV)
    requires found(l, f, q),
    ensures found(l, swap_halves(f), q),
{
    let h = swap_halves(f);
    let i = choose|i: Ix| #[trigger] names4(l, f.g, i, q) && meet(f, i);
    let k = choose|k: Seq<char>| #[trigger] has_line(f.a, k, i.0, i.1) && has_line(f.b, k, i.2, i.3);
    let j = (i.2, i.3, i.0, i.1);
    assert(names4(l, h.g, j, q)); assert(has_line(h.a, k, j.0, j.1)); assert(has_line(h.b, k, j.2, j.3)); assert(meet(h, j));
    assert(found(l, h, q));
}
/// the same lines in another order
pub open spec fn same_lines(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { a.to_multiset() == b.to_multiset() }
pub proof fn lemma_same_has(a: Seq<Seq<char>>, b: Seq<Seq<char>>, x: int) -> (y: int)
    requires same_lines(a, b), 0 <= x < a.len(),
    ensures 0 <= y < b.len(), b[y] == a[x],
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.contains(a[x])); assert(a.to_multiset().count(a[x]) > 0); assert(b.to_multiset().count(a[x]) > 0); assert(b.contains(a[x]));
    choose|y: int| 0 <= y < b.len() && b[y] == a[x]
}
pub proof fn lemma_same_line(a: Seq<Seq<char>>, b: Seq<Seq<char>>, k: Seq<char>, i: int, j: int)
    requires same_lines(a, b), has_line(a, k, i, j),
    ensures has_line(b, k, i, j),
{
    let x = choose|x: int| 0 <= x < a.len() && line_is(#[trigger] a[x], k, i, j);
    let u = lemma_same_has(a, b, x);
    assert(line_is(b[u], k, i, j));
}
pub proof fn lemma_same_found(l: SL, f: PF, h: PF, q: QV)
    requires found(l, f, q), f.g == h.g, same_lines(f.a, h.a), same_lines(f.b, h.b),
    ensures found(l, h, q),
{
    let i = choose|i: Ix| #[trigger] names4(l, f.g, i, q) && meet(f, i);
    let k = choose|k: Seq<char>| #[trigger] has_line(f.a, k, i.0, i.1) && has_line(f.b, k, i.2, i.3);
    lemma_same_line(f.a, h.a, k, i.0, i.1); lemma_same_line(f.b, h.b, k, i.2, i.3);
    assert(names4(l, h.g, i, q)); assert(meet(h, i));
}
/// sorting the lines of the pair files changes nothing
pub proof fn lemma_sorted_files(ty: SequenceType, n: int, t: Quad, l: SL, f: PF, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires rs_files(ty, n, t, l, f), same_lines(f.a, a), same_lines(f.b, b),
    ensures rs_files(ty, n, t, l, PF { g: f.g, a: a, b: b }),
{
    reveal(rs_files);
    let h = PF { g: f.g, a: a, b: b };
    assert forall|x: int| 0 <= x < a.len() implies line_ok(#[trigger] a[x], sl(l, f.g.0).len() as int, sl(l, f.g.1).len() as int) by { let y = lemma_same_has(a, f.a, x); assert(line_ok(f.a[y], sl(l, f.g.0).len() as int, sl(l, f.g.1).len() as int)); }
    assert forall|x: int| 0 <= x < b.len() implies line_ok(#[trigger] b[x], sl(l, f.g.2).len() as int, sl(l, f.g.3).len() as int) by { let y = lemma_same_has(b, f.b, x); assert(line_ok(f.b[y], sl(l, f.g.2).len() as int, sl(l, f.g.3).len() as int)); }
    assert forall|q: QV| wfv(q) && q.n == n && is_type(q, ty) && rs_is(q, t) implies #[trigger] found(l, h, q) by {
        assert(found(l, f, q)); lemma_same_found(l, f, h, q);
    }
}
