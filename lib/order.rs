// ===== lib/order.rs: lexicographic order =====
/// s is smaller than t at the first place where they differ
#[verifier::opaque]
pub open spec fn lexlt(s: Seq<i8>, t: Seq<i8>) -> bool {
    exists|k: int| 0 <= k < s.len() && #[trigger] lexat(s, t, k)
}
pub open spec fn lexat(s: Seq<i8>, t: Seq<i8>, k: int) -> bool { s[k] < t[k] && forall|j: int| 0 <= j < k ==> s[j] == t[j] }

pub open spec fn qlt(q: QV, p: QV) -> bool {
    lexlt(q.a, p.a) || (q.a == p.a && (lexlt(q.b, p.b) || (q.b == p.b && (lexlt(q.c, p.c) || (q.c == p.c && lexlt(q.d, p.d))))))
}
pub open spec fn same_len(q: QV, p: QV) -> bool { q.a.len() == p.a.len() && q.b.len() == p.b.len() && q.c.len() == p.c.len() && q.d.len() == p.d.len() }

/// all quadruples of the set have one size
pub open spec fn one_size(s: Set<QV>) -> bool { forall|q: QV, p: QV| #[trigger] s.contains(q) && #[trigger] s.contains(p) ==> same_len(q, p) && q.n == p.n }

pub proof fn lemma_lex_irr(s: Seq<i8>)
    ensures !lexlt(s, s),
{ reveal(lexlt); }
pub proof fn lemma_lex_asym(s: Seq<i8>, t: Seq<i8>)
    requires s.len() == t.len(), lexlt(s, t),
    ensures !lexlt(t, s), s != t,
{
    reveal(lexlt);
    let k = choose|k: int| 0 <= k < s.len() && #[trigger] lexat(s, t, k);
    if lexlt(t, s) {
        let m = choose|m: int| 0 <= m < t.len() && #[trigger] lexat(t, s, m);
        if k < m { assert(t[k] == s[k]); } else if m < k { assert(s[m] == t[m]); }
    }
}
pub proof fn lemma_lex_trans(s: Seq<i8>, t: Seq<i8>, u: Seq<i8>)
    requires s.len() == t.len(), t.len() == u.len(), lexlt(s, t), lexlt(t, u),
    ensures lexlt(s, u),
{
    reveal(lexlt);
    let k = choose|k: int| 0 <= k < s.len() && #[trigger] lexat(s, t, k);
    let m = choose|m: int| 0 <= m < t.len() && #[trigger] lexat(t, u, m);
    let w = if k < m { k } else { m };
    assert(lexat(s, u, w));
}
pub proof fn lemma_first_diff(s: Seq<i8>, t: Seq<i8>, n: int) -> (k: int)
    requires s.len() == t.len(), 0 <= n <= s.len(),
    ensures 0 <= k <= n, forall|j: int| 0 <= j < k ==> s[j] == t[j], k < n ==> s[k] != t[k],
    decreases n,
{
    if n == 0 { 0 } else {
        let k = lemma_first_diff(s, t, n - 1);
        if k < n - 1 { k } else if s[n - 1] != t[n - 1] { n - 1 } else { n }
    }
}
pub proof fn lemma_lex_total(s: Seq<i8>, t: Seq<i8>)
    requires s.len() == t.len(),
    ensures s == t || lexlt(s, t) || lexlt(t, s),
{
    reveal(lexlt);
    let k = lemma_first_diff(s, t, s.len() as int);
    if k < s.len() {
        if s[k] < t[k] { assert(lexat(s, t, k)); } else { assert(lexat(t, s, k)); }
    } else { assert(s =~= t); }
}
/// strict total order on the quadruples of one length
pub proof fn lemma_qlt_order(q: QV, p: QV, r: QV)
    requires same_len(q, p), same_len(p, r), q.n == p.n,
    ensures
        !qlt(q, q),
        qlt(q, p) ==> !qlt(p, q) && q != p,
        q == p || qlt(q, p) || qlt(p, q),
        qlt(q, p) && qlt(p, r) ==> qlt(q, r),
{
    lemma_lex_irr(q.a); lemma_lex_irr(q.b); lemma_lex_irr(q.c); lemma_lex_irr(q.d);
    if lexlt(q.a, p.a) { lemma_lex_asym(q.a, p.a); } if lexlt(q.b, p.b) { lemma_lex_asym(q.b, p.b); }
    if lexlt(q.c, p.c) { lemma_lex_asym(q.c, p.c); } if lexlt(q.d, p.d) { lemma_lex_asym(q.d, p.d); }
    lemma_lex_total(q.a, p.a); lemma_lex_total(q.b, p.b); lemma_lex_total(q.c, p.c); lemma_lex_total(q.d, p.d);
    if qlt(q, p) && qlt(p, r) {
        if lexlt(q.a, p.a) && lexlt(p.a, r.a) { lemma_lex_trans(q.a, p.a, r.a); }
        if lexlt(q.b, p.b) && lexlt(p.b, r.b) { lemma_lex_trans(q.b, p.b, r.b); }
        if lexlt(q.c, p.c) && lexlt(p.c, r.c) { lemma_lex_trans(q.c, p.c, r.c); }
        if lexlt(q.d, p.d) && lexlt(p.d, r.d) { lemma_lex_trans(q.d, p.d, r.d); }
    }
}
