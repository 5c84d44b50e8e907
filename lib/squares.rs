// ===== lib/squares.rs: four squares =====
pub open spec fn sq4(q: Quad) -> int { q.0 * q.0 + q.1 * q.1 + q.2 * q.2 + q.3 * q.3 }
pub open spec fn sorted4(q: Quad) -> bool { 0 <= q.0 <= q.1 <= q.2 <= q.3 }
/// a sorted decomposition of p
pub open spec fn dec4(p: int, q: Quad) -> bool { sorted4(q) && sq4(q) == p }
pub open spec fn lex4(q: Quad, t: Quad) -> bool {
    q.0 < t.0 || (q.0 == t.0 && (q.1 < t.1 || (q.1 == t.1 && (q.2 < t.2 || (q.2 == t.2 && q.3 < t.3)))))
}
pub open spec fn lim() -> int { 0x400_0000_0000_0000 }
pub open spec fn top() -> int { 0x2000_0000 }
pub proof fn lemma_sq_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures a * a <= b * b, 0 <= a * a,
{ assert(a * a <= a * b) by(nonlinear_arith) requires 0 <= a <= b; assert(a * b <= b * b) by(nonlinear_arith) requires 0 <= a <= b; assert(0 <= a * a) by(nonlinear_arith) requires 0 <= a; }
pub proof fn lemma_sq_top(a: int)
    requires 0 <= a, a * a <= lim(),
    ensures a <= top(),
{ if a > top() { lemma_sq_mono(top() + 1, a); assert(0x2000_0001 * 0x2000_0001 > 0x400_0000_0000_0000) by(compute); } }
/// a state of the enumeration: in bounds, and within the bound unless all four entries agree
pub open spec fn state4(q: Quad, bound: int) -> bool {
    sorted4(q) && q.3 <= top() + 1 && (sq4(q) <= bound || (q.0 == q.1 && q.1 == q.2 && q.2 == q.3))
}
/// t lies strictly between the two states
pub open spec fn skipped(q: Quad, r: Quad, t: Quad) -> bool { lex4(q, t) && lex4(t, r) }
pub proof fn lemma_small(q: Quad, bound: int)
    requires state4(q, bound), q.0 * q.0 <= bound <= lim(),
    ensures q.3 <= top(), q.0 <= top(), 0 <= q.0 * q.0 <= top() * top(), 0 <= q.1 * q.1 <= top() * top(), 0 <= q.2 * q.2 <= top() * top(), 0 <= q.3 * q.3 <= top() * top(),
{
    lemma_sq_mono(0, q.0 as int); lemma_sq_mono(0, q.1 as int); lemma_sq_mono(0, q.2 as int); lemma_sq_mono(0, q.3 as int);
    lemma_sq_top(q.3 as int);
    lemma_sq_mono(q.0 as int, top()); lemma_sq_mono(q.1 as int, top()); lemma_sq_mono(q.2 as int, top()); lemma_sq_mono(q.3 as int, top());
}
pub proof fn lemma_sq_one(a: int)
    requires 0 <= a <= top() + 1,
    ensures 0 <= a * a <= 0x400_0000_4000_0001,
{ lemma_sq_mono(a, top() + 1); assert(0x2000_0001 * 0x2000_0001 == 0x400_0000_4000_0001) by(compute); }
pub open spec fn sqi(a: int, b: int, c: int, d: int) -> int { a * a + b * b + c * c + d * d }
pub open spec fn is4(r: Quad, a: int, b: int, c: int, d: int) -> bool { r.0 == a && r.1 == b && r.2 == c && r.3 == d }
/// one of the four steps of the enumeration
pub open spec fn nextof(q: Quad, r: Quad, bound: int) -> bool {
    let s1 = sqi(q.0 as int, q.1 as int, q.2 as int, q.3 + 1) > bound;
    let s2 = sqi(q.0 as int, q.1 as int, q.2 + 1, q.2 + 1) > bound;
    let s3 = sqi(q.0 as int, q.1 + 1, q.1 + 1, q.1 + 1) > bound;
    ||| is4(r, q.0 as int, q.1 as int, q.2 as int, q.3 + 1)
    ||| (s1 && is4(r, q.0 as int, q.1 as int, q.2 + 1, q.2 + 1))
    ||| (s1 && s2 && is4(r, q.0 as int, q.1 + 1, q.1 + 1, q.1 + 1))
    ||| (s1 && s2 && s3 && is4(r, q.0 + 1, q.0 + 1, q.0 + 1, q.0 + 1))
}
/// nothing that sums to at most the bound is passed over
pub proof fn lemma_skip(q: Quad, r: Quad, bound: int)
    requires
        sorted4(q), q.3 <= top(),
        nextof(q, r, bound),
    ensures forall|t: Quad| #[trigger] skipped(q, r, t) && sorted4(t) ==> sq4(t) > bound, lex4(q, r),
{
    assert forall|t: Quad| #[trigger] skipped(q, r, t) && sorted4(t) implies sq4(t) > bound by {
        let (a, b, c, d) = (q.0 as int, q.1 as int, q.2 as int, q.3 as int);
        if t.0 == q.0 && t.1 == q.1 && t.2 == q.2 { lemma_sq_mono(d + 1, t.3 as int); }
        else if t.0 == q.0 && t.1 == q.1 { lemma_sq_mono(c + 1, t.2 as int); lemma_sq_mono(c + 1, t.3 as int); }
        else if t.0 == q.0 { lemma_sq_mono(b + 1, t.1 as int); lemma_sq_mono(b + 1, t.2 as int); lemma_sq_mono(b + 1, t.3 as int); }
    }
}
/// what has been listed when the enumeration is at q
pub open spec fn listed(p: int, l: Seq<Quad>, q: Quad) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> dec4(p, #[trigger] l[i]) && lex4(l[i], q)
    &&& forall|t: Quad| #[trigger] dec4(p, t) && lex4(t, q) ==> l.contains(t)
    &&& l.no_duplicates()
}
pub proof fn lemma_lex4(q: Quad, t: Quad)
    ensures q == t || lex4(q, t) || lex4(t, q), lex4(q, t) ==> !lex4(t, q) && q != t, !lex4(q, q),
{ }
pub proof fn lemma_listed_step(p: int, l: Seq<Quad>, q: Quad, l2: Seq<Quad>, r: Quad)
    requires listed(p, l, q), lex4(q, r), forall|t: Quad| #[trigger] skipped(q, r, t) && sorted4(t) ==> sq4(t) > p, sorted4(q),
        sq4(q) == p ==> l2 == l.push(q), sq4(q) != p ==> l2 == l,
    ensures listed(p, l2, r),
{
    assert forall|t: Quad| #[trigger] dec4(p, t) && lex4(t, r) implies l2.contains(t) by {
        lemma_lex4(q, t);
        if lex4(q, t) { assert(skipped(q, r, t)); }
        else if t == q { assert(l2[l.len() as int] == q); }
        else { assert(l.contains(t)); let i = choose|i: int| 0 <= i < l.len() && l[i] == t; assert(l2[i] == t); }
    }
    assert forall|i: int| 0 <= i < l2.len() implies dec4(p, #[trigger] l2[i]) && lex4(l2[i], r) by { if i < l.len() { assert(l2[i] == l[i]); } else { assert(l2[i] == q); } }
    assert forall|i: int, j: int| 0 <= i < l2.len() && 0 <= j < l2.len() && i != j implies l2[i] != l2[j] by {
        if i < l.len() && j < l.len() { assert(l[i] != l[j]); } else if i < l.len() { assert(lex4(l[i], q)); } else { assert(lex4(l[j], q)); }
    }
}
pub proof fn lemma_listed_end(p: int, l: Seq<Quad>, q: Quad)
    requires listed(p, l, q), sorted4(q), q.0 * q.0 > p || 4 * (q.0 * q.0) > p,
    ensures is_dec_list(p, l),
{
    assert forall|t: Quad| #[trigger] dec4(p, t) implies l.contains(t) by {
        if !lex4(t, q) { lemma_sq_mono(q.0 as int, t.0 as int); lemma_sq_mono(t.0 as int, t.1 as int); lemma_sq_mono(t.1 as int, t.2 as int); lemma_sq_mono(t.2 as int, t.3 as int); lemma_sq_mono(0, t.1 as int); lemma_sq_mono(0, t.2 as int); lemma_sq_mono(0, t.3 as int); }
    }
    assert forall|t: Quad| l.contains(t) implies #[trigger] dec4(p, t) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == t; assert(dec4(p, l[i])); }
}
/// exactly the sorted decompositions of p, each once
pub open spec fn is_dec_list(p: int, l: Seq<Quad>) -> bool {
    &&& forall|t: Quad| #[trigger] l.contains(t) ==> dec4(p, t)
    &&& forall|t: Quad| #[trigger] dec4(p, t) ==> l.contains(t)
    &&& l.no_duplicates()
}
// rowsums of one length
pub open spec fn par4(q: Quad, n: int) -> bool { q.0 % 2 == n % 2 && q.1 % 2 == n % 2 && q.2 % 2 == n % 2 && q.3 % 2 == n % 2 }
pub open spec fn distinct4(q: Quad) -> bool { q.0 != 0 && q.1 != 0 && q.2 != 0 && q.3 != 0 && q.0 != q.1 && q.0 != q.2 && q.0 != q.3 && q.1 != q.2 && q.1 != q.3 && q.2 != q.3 }
/// the last entry made positive
pub open spec fn pos4(q: Quad) -> (int, int, int, int) { (q.0 as int, q.1 as int, q.2 as int, if q.3 < 0 { -q.3 as int } else { q.3 as int }) }
/// t comes from the sorted tuple q
pub open spec fn from4(qts: bool, q: Quad, t: Quad) -> bool { t == q || (qts && distinct4(q) && t.0 == q.0 && t.1 == q.1 && t.2 == q.2 && t.3 == -q.3) }
/// a rowsum tuple of length n
pub open spec fn rowsums4(n: int, qts: bool, t: Quad) -> bool { exists|q: Quad| dec4(4 * n, q) && par4(q, n) && #[trigger] from4(qts, q, t) }
pub open spec fn rs_upto(n: int, qts: bool, l: Seq<Quad>, k: int, t: Quad) -> bool { exists|i: int| 0 <= i < k && par4(#[trigger] l[i], n) && from4(qts, l[i], t) }
pub open spec fn rs_inv(n: int, qts: bool, l: Seq<Quad>, k: int, out: Seq<Quad>) -> bool {
    &&& forall|t: Quad| #[trigger] out.contains(t) ==> rs_upto(n, qts, l, k, t)
    &&& forall|t: Quad| #[trigger] rs_upto(n, qts, l, k, t) ==> out.contains(t)
    &&& out.no_duplicates()
}
pub proof fn lemma_push(out: Seq<Quad>, x: Quad)
    ensures forall|t: Quad| #[trigger] out.push(x).contains(t) <==> out.contains(t) || t == x, out.no_duplicates() && !out.contains(x) ==> out.push(x).no_duplicates(),
{
    let o = out.push(x);
    assert forall|t: Quad| #[trigger] o.contains(t) <==> out.contains(t) || t == x by {
        if o.contains(t) { let i = choose|i: int| 0 <= i < o.len() && o[i] == t; if i < out.len() { assert(out[i] == t); } }
        if out.contains(t) { let i = choose|i: int| 0 <= i < out.len() && out[i] == t; assert(o[i] == t); }
        assert(o[out.len() as int] == x);
    }
    if out.no_duplicates() && !out.contains(x) {
        assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by {
            if i < out.len() && j < out.len() { } else if i < out.len() { assert(out.contains(out[i])); } else { assert(out.contains(out[j])); }
        }
    }
}
pub proof fn lemma_rs_step(n: int, qts: bool, l: Seq<Quad>, k: int, out: Seq<Quad>, out2: Seq<Quad>, m: Quad)
    requires rs_inv(n, qts, l, k, out), 0 <= k < l.len(), l.no_duplicates(), forall|i: int| 0 <= i < l.len() ==> sorted4(#[trigger] l[i]),
        !par4(l[k], n) ==> out2 == out,
        par4(l[k], n) && !(qts && distinct4(l[k])) ==> out2 == out.push(l[k]),
        par4(l[k], n) && qts && distinct4(l[k]) ==> out2 == out.push(l[k]).push(m) && from4(qts, l[k], m) && m.3 == -l[k].3,
    ensures rs_inv(n, qts, l, k + 1, out2),
{
    let e = l[k];
    lemma_push(out, e); lemma_push(out.push(e), m);
    assert forall|t: Quad| from4(qts, e, t) implies !out.contains(t) by {
        if out.contains(t) {
            let i = choose|i: int| 0 <= i < k && par4(#[trigger] l[i], n) && from4(qts, l[i], t);
            assert(sorted4(l[i]) && sorted4(e)); assert(l[i] == e);
        }
    }
    assert(from4(qts, e, e));
    assert forall|t: Quad| rs_upto(n, qts, l, k + 1, t) <==> rs_upto(n, qts, l, k, t) || (par4(e, n) && from4(qts, e, t)) by {
        if rs_upto(n, qts, l, k + 1, t) { let i = choose|i: int| 0 <= i < k + 1 && par4(#[trigger] l[i], n) && from4(qts, l[i], t); if i < k { assert(rs_upto(n, qts, l, k, t)); } }
        if rs_upto(n, qts, l, k, t) { let i = choose|i: int| 0 <= i < k && par4(#[trigger] l[i], n) && from4(qts, l[i], t); assert(par4(l[i], n)); }
        if par4(e, n) && from4(qts, e, t) { assert(par4(l[k], n)); }
    }
    assert forall|t: Quad| #![trigger out2.contains(t)] #![trigger rs_upto(n, qts, l, k + 1, t)] out2.contains(t) <==> rs_upto(n, qts, l, k + 1, t) by { assert(out.contains(t) <==> rs_upto(n, qts, l, k, t)); }
}
pub proof fn lemma_rs_end(n: int, qts: bool, l: Seq<Quad>, out: Seq<Quad>)
    requires is_dec_list(4 * n, l), rs_inv(n, qts, l, l.len() as int, out),
    ensures is_rowsum_list(n, qts, out),
{
    assert forall|t: Quad| rowsums4(n, qts, t) <==> #[trigger] out.contains(t) by {
        if rowsums4(n, qts, t) { let q = choose|q: Quad| dec4(4 * n, q) && par4(q, n) && #[trigger] from4(qts, q, t); assert(l.contains(q)); let i = choose|i: int| 0 <= i < l.len() && l[i] == q; assert(par4(l[i], n)); assert(rs_upto(n, qts, l, l.len() as int, t)); }
        if out.contains(t) { let i = choose|i: int| 0 <= i < l.len() && par4(#[trigger] l[i], n) && from4(qts, l[i], t); assert(l.contains(l[i])); assert(from4(qts, l[i], t)); }
    }
    assert forall|t: Quad| #[trigger] rowsums4(n, qts, t) implies out.contains(t) by { assert(rowsums4(n, qts, t) <==> out.contains(t)); }
}
/// exactly the rowsum tuples of length n, each once
pub open spec fn is_rowsum_list(n: int, qts: bool, l: Seq<Quad>) -> bool {
    &&& forall|t: Quad| #[trigger] l.contains(t) ==> rowsums4(n, qts, t)
    &&& forall|t: Quad| #[trigger] rowsums4(n, qts, t) ==> l.contains(t)
    &&& l.no_duplicates()
}
