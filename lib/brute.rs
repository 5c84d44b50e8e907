// ===== lib/brute.rs: brute-force search =====
//@subst \bQUADRUPLETS\b => vx_init_QUADRUPLETS()
pub open spec fn is1(x: i8) -> bool { x == 1 || x == -1 }
pub open spec fn idx16(t: Seq<(i8, i8, i8, i8)>, x: (i8, i8, i8, i8)) -> int {
    if t[0] == x { 0 } else if t[1] == x { 1 } else if t[2] == x { 2 } else if t[3] == x { 3 } else if t[4] == x { 4 } else if t[5] == x { 5 }
    else if t[6] == x { 6 } else if t[7] == x { 7 } else if t[8] == x { 8 } else if t[9] == x { 9 } else if t[10] == x { 10 } else if t[11] == x { 11 }
    else if t[12] == x { 12 } else if t[13] == x { 13 } else if t[14] == x { 14 } else { 15 }
}
pub open spec fn pm4t(x: (i8, i8, i8, i8)) -> bool { is1(x.0) && is1(x.1) && is1(x.2) && is1(x.3) }
/// each of the sixteen sign patterns once
pub open spec fn all16(t: Seq<(i8, i8, i8, i8)>) -> bool {
    &&& t.len() == 16
    &&& forall|i: int| 0 <= i < 16 ==> pm4t(#[trigger] t[i])
    &&& forall|i: int, j: int| 0 <= i < j < 16 ==> #[trigger] t[i] != #[trigger] t[j]
    &&& forall|x: (i8, i8, i8, i8)| pm4t(x) ==> t[#[trigger] idx16(t, x)] == x
}
pub open spec fn at(q: QV, j: int) -> (i8, i8, i8, i8) { (q.a[j], q.b[j], q.c[j], q.d[j]) }
/// x and w agree on the first n positions
pub open spec fn agree(x: QV, w: QV, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] at(x, j) == at(w, j) }
/// a quadruple of length n whose quaternion sequence is perfect (to_qs: exactly the Quaternion-type ones)
pub open spec fn hit(x: QV, n: int) -> bool { wfv(x) && x.n == n && is_qts(x) }
pub open spec fn in_seq(s: Seq<QuadSeq>, x: QV) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k]@ == x }
#[verifier::opaque]
pub open spec fn once(s: Seq<QuadSeq>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i]@ != #[trigger] s[j]@ }
/// s lists the hits that agree with w on the first i positions and whose value there is in the first m rows of the table (all: m < 0)
pub open spec fn row_ok(t: Seq<(i8, i8, i8, i8)>, m: int, v: (i8, i8, i8, i8)) -> bool { exists|r: int| 0 <= r < m && #[trigger] t[r] == v }
#[verifier::opaque]
pub open spec fn lists(s: Seq<QuadSeq>, w: QV, i: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> hit((#[trigger] s[k])@, w.n) && agree(s[k]@, w, i)
    &&& forall|x: QV| hit(x, w.n) && agree(x, w, i) ==> #[trigger] in_seq(s, x)
}
#[verifier::opaque]
pub open spec fn lists_rows(s: Seq<QuadSeq>, w: QV, i: int, t: Seq<(i8, i8, i8, i8)>, m: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> hit((#[trigger] s[k])@, w.n) && agree(s[k]@, w, i) && row_ok(t, m, at(s[k]@, i))
    &&& forall|x: QV| hit(x, w.n) && agree(x, w, i) && row_ok(t, m, at(x, i)) ==> #[trigger] in_seq(s, x)
}
pub proof fn lemma_rows_empty(w: QV, i: int, t: Seq<(i8, i8, i8, i8)>)
    ensures lists_rows(Seq::empty(), w, i, t, 0), once(Seq::empty()),
{ reveal(lists_rows); reveal(once); }
/// the leaf: all positions are fixed
pub proof fn lemma_leaf_hits(w: QV, e: Seq<QuadSeq>)
    requires wfv(w), e.len() == (if is_qts(w) { 1int } else { 0 }), e.len() == 1 ==> e[0]@ == w,
    ensures lists(e, w, w.n), once(e),
{
    reveal(lists); reveal(once);
    assert forall|x: QV| hit(x, w.n) && agree(x, w, w.n) implies #[trigger] in_seq(e, x) by {
        assert forall|j: int| 0 <= j < w.n implies x.a[j] == w.a[j] && x.b[j] == w.b[j] && x.c[j] == w.c[j] && x.d[j] == w.d[j] by { assert(at(x, j) == at(w, j)); }
        assert(x.a =~= w.a && x.b =~= w.b && x.c =~= w.c && x.d =~= w.d);
        assert(x == w);
        assert(e[0]@ == x);
    }
}
/// one more row of the table: s lists the first m rows, e what the recursive call for row m added
pub proof fn lemma_row_step(s: Seq<QuadSeq>, e: Seq<QuadSeq>, w: QV, w1: QV, i: int, t: Seq<(i8, i8, i8, i8)>, m: int)
    requires 0 <= i < w.n, w1.n == w.n, agree(w1, w, i), at(w1, i) == t[m], all16(t), 0 <= m < 16,
        lists_rows(s, w, i, t, m), once(s), lists(e, w1, i + 1), once(e),
    ensures lists_rows(s + e, w, i, t, m + 1), once(s + e),
{
    reveal(lists); reveal(lists_rows); reveal(once);
    let u = s + e;
    assert forall|k: int| 0 <= k < u.len() implies hit((#[trigger] u[k])@, w.n) && agree(u[k]@, w, i) && row_ok(t, m + 1, at(u[k]@, i)) by {
        if k < s.len() {
            assert(u[k] == s[k]);
            let r = choose|r: int| 0 <= r < m && #[trigger] t[r] == at(s[k]@, i);
            assert(0 <= r < m + 1 && t[r] == at(u[k]@, i));
        } else {
            let x = e[k - s.len()];
            assert(u[k] == x);
            assert forall|j: int| 0 <= j < i implies #[trigger] at(x@, j) == at(w, j) by { assert(at(w1, j) == at(w, j)); }
            assert(at(x@, i) == at(w1, i));
            assert(t[m] == at(x@, i));
        }
    }
    assert forall|x: QV| hit(x, w.n) && agree(x, w, i) && row_ok(t, m + 1, at(x, i)) implies #[trigger] in_seq(u, x) by {
        let r = choose|r: int| 0 <= r < m + 1 && #[trigger] t[r] == at(x, i);
        if r < m {
            assert(row_ok(t, m, at(x, i)));
            assert(in_seq(s, x));
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k]@ == x;
            assert(u[k]@ == x);
        } else {
            assert forall|j: int| 0 <= j < i + 1 implies #[trigger] at(x, j) == at(w1, j) by { if j < i { assert(at(x, j) == at(w, j)); assert(at(w1, j) == at(w, j)); } }
            assert(in_seq(e, x));
            let k = choose|k: int| 0 <= k < e.len() && #[trigger] e[k]@ == x;
            assert(u[s.len() + k]@ == x);
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < u.len() implies #[trigger] u[k]@ != #[trigger] u[l]@ by {
        if l < s.len() { assert(u[k] == s[k] && u[l] == s[l]); }
        else if k >= s.len() { assert(u[k] == e[k - s.len()] && u[l] == e[l - s.len()]); }
        else {
            assert(u[k] == s[k] && u[l] == e[l - s.len()]);
            let r = choose|r: int| 0 <= r < m && #[trigger] t[r] == at(s[k]@, i);
            assert(at(e[l - s.len()]@, i) == at(w1, i));
            assert(t[r] != t[m]);
        }
    }
}
pub proof fn lemma_rows_all(s: Seq<QuadSeq>, w: QV, i: int, t: Seq<(i8, i8, i8, i8)>)
    requires all16(t), lists_rows(s, w, i, t, 16), 0 <= i < w.n,
    ensures lists(s, w, i),
{
    reveal(lists); reveal(lists_rows);
    assert forall|x: QV| hit(x, w.n) && agree(x, w, i) implies #[trigger] in_seq(s, x) by {
        let v = at(x, i);
        assert(is1(x.a[i]) && is1(x.b[i]) && is1(x.c[i]) && is1(x.d[i]));
        assert(pm4t(v));
        let r = idx16(t, v);
        assert(t[r] == v && 0 <= r < 16);
        assert(row_ok(t, 16, v));
    }
}
pub proof fn lemma_lists_prefix(s: Seq<QuadSeq>, w: QV, w2: QV, i: int)
    requires lists(s, w, i), w2.n == w.n, agree(w2, w, i),
    ensures lists(s, w2, i),
{
    reveal(lists);
    assert forall|k: int| 0 <= k < s.len() implies hit((#[trigger] s[k])@, w2.n) && agree(s[k]@, w2, i) by {
        assert forall|j: int| 0 <= j < i implies #[trigger] at(s[k]@, j) == at(w2, j) by { assert(at(s[k]@, j) == at(w, j)); assert(at(w2, j) == at(w, j)); }
    }
    assert forall|x: QV| hit(x, w2.n) && agree(x, w2, i) implies #[trigger] in_seq(s, x) by {
        assert forall|j: int| 0 <= j < i implies #[trigger] at(x, j) == at(w, j) by { assert(at(x, j) == at(w2, j)); assert(at(w2, j) == at(w, j)); }
    }
}
/// the whole search
pub open spec fn lists_all(s: Seq<QuadSeq>, n: int) -> bool {
    (forall|k: int| 0 <= k < s.len() ==> hit((#[trigger] s[k])@, n)) && (forall|x: QV| hit(x, n) ==> #[trigger] in_seq(s, x))
}
pub proof fn lemma_lists_all(s: Seq<QuadSeq>, w: QV)
    requires lists(s, w, 0),
    ensures lists_all(s, w.n),
{ reveal(lists); assert forall|x: QV| hit(x, w.n) implies #[trigger] in_seq(s, x) by { assert(agree(x, w, 0)); } }
