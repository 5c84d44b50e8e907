// ===== lib/canonu.rs: the canonical forms are constant on classes =====
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
/// how many of the four sequences equal s up to sign
pub open spec fn cnt(q: QV, s: Seq<i8>) -> int { one(norm(q.a) == s) + one(norm(q.b) == s) + one(norm(q.c) == s) + one(norm(q.d) == s) }
pub open spec fn same_cnt(q: QV, p: QV) -> bool { forall|s: Seq<i8>| #[trigger] cnt(q, s) == cnt(p, s) }
/// the four sequences are different up to sign
pub open spec fn distinct(q: QV) -> bool {
    norm(q.a) != norm(q.b) && norm(q.a) != norm(q.c) && norm(q.a) != norm(q.d) && norm(q.b) != norm(q.c) && norm(q.b) != norm(q.d) && norm(q.c) != norm(q.d)
}
/// parity of the signs and of the order of the four sequences
pub open spec fn bit(q: QV) -> bool {
    (q.a[0] == 1) ^ (q.b[0] == 1) ^ (q.c[0] == 1) ^ (q.d[0] == 1)
    ^ lexlt(norm(q.a), norm(q.b)) ^ lexlt(norm(q.a), norm(q.c)) ^ lexlt(norm(q.a), norm(q.d))
    ^ lexlt(norm(q.b), norm(q.c)) ^ lexlt(norm(q.b), norm(q.d)) ^ lexlt(norm(q.c), norm(q.d))
}
pub open spec fn domq(n: int) -> spec_fn(QV) -> bool { |x: QV| wfv(x) && x.n == n && n >= 1 }
pub proof fn lemma_norm(s: Seq<i8>)
    requires pm(s), s.len() >= 1,
    ensures norm(neg(s)) == norm(s), norm(s)[0] == -1, norm(s).len() == s.len(), pm(norm(s)), s == norm(s) || s == neg(norm(s)), s[0] == -1 <==> s == norm(s), neg(s)[0] == neg8(s[0]),
        s[0] == 1 || s[0] == -1,
{
    lemma_negneg(s);
    assert(neg(s)[0] == neg8(s[0]));
}
pub proof fn lemma_norms(q: QV)
    requires wfv(q), q.n >= 1,
    ensures forall|t: SequenceTag| #[trigger] norm(neg(get(q, t))) == norm(get(q, t)) && (get(q, t)[0] == 1 || get(q, t)[0] == -1) && neg(get(q, t))[0] == neg8(get(q, t)[0]),
{
    lemma_norm(q.a); lemma_norm(q.b); lemma_norm(q.c); lemma_norm(q.d);
}
pub proof fn lemma_inv_neg(q: QV, t: SequenceTag)
    requires wfv(q), q.n >= 1,
    ensures wfv(negq(q, t)), same_cnt(q, negq(q, t)), distinct(q) == distinct(negq(q, t)), bit(negq(q, t)) == !bit(q),
        negq(negq(q, t), t) == q,
{
    lemma_negneg_q(q);
    lemma_norms(q);
    let g = get(q, t);
    assert(norm(neg(g)) == norm(g));
}
pub proof fn lemma_inv_swap(q: QV, u: SequenceTag, v: SequenceTag)
    requires wfv(q), q.n >= 1, u != v,
    ensures wfv(swapq(q, u, v)), same_cnt(q, swapq(q, u, v)), distinct(q) == distinct(swapq(q, u, v)), distinct(q) ==> bit(swapq(q, u, v)) == !bit(q),
        swapq(swapq(q, u, v), u, v) == q,
{
    lemma_negneg_q(q);
    lemma_norm(q.a); lemma_norm(q.b); lemma_norm(q.c); lemma_norm(q.d);
    if distinct(q) {
        lemma_lex_dec(norm(q.a), norm(q.b)); lemma_lex_dec(norm(q.a), norm(q.c)); lemma_lex_dec(norm(q.a), norm(q.d));
        lemma_lex_dec(norm(q.b), norm(q.c)); lemma_lex_dec(norm(q.b), norm(q.d)); lemma_lex_dec(norm(q.c), norm(q.d));
    }
}
pub proof fn lemma_lex_dec(x: Seq<i8>, y: Seq<i8>)
    requires x.len() == y.len(), x != y,
    ensures lexlt(x, y) == !lexlt(y, x),
{
    lemma_lex_total(x, y);
    if lexlt(x, y) { lemma_lex_asym(x, y); }
}
/// what a class keeps under negate-and-swap
pub open spec fn inv_ns(q: QV) -> spec_fn(QV) -> bool { |x: QV| wfv(x) && x.n == q.n && same_cnt(q, x) && distinct(q) == distinct(x) && (distinct(q) ==> bit(q) == bit(x)) }
pub open spec fn inv_sn(q: QV) -> spec_fn(QV) -> bool { |x: QV| wfv(x) && x.n == q.n && same_cnt(q, x) }
pub proof fn lemma_step_ns(x: QV, y: QV)
    requires wfv(x), x.n >= 1, op_negate_swap(x, y),
    ensures inv_ns(x)(y), op_negate_swap(y, x),
{
    if y != x {
        let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && y == #[trigger] swapq(negq(x, g), u, v);
        let m = negq(x, g);
        lemma_inv_neg(x, g); lemma_inv_swap(m, u, v);
        assert forall|s: Seq<i8>| #[trigger] cnt(x, s) == cnt(y, s) by { assert(cnt(x, s) == cnt(m, s)); assert(cnt(m, s) == cnt(y, s)); }
        let h = if g == u { v } else if g == v { u } else { g };
        assert(x == swapq(negq(y, h), u, v));
    }
}
pub proof fn lemma_step_sn(x: QV, y: QV)
    requires wfv(x), x.n >= 1, op_negate(x, y) || op_reorder(x, y),
    ensures inv_sn(x)(y), op_negate(y, x) || op_reorder(y, x),
{
    if y != x {
        if op_negate(x, y) {
            let t = choose|t: SequenceTag| y == #[trigger] negq(x, t);
            lemma_inv_neg(x, t);
            assert(x == negq(y, t));
        } else {
            let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && y == #[trigger] swapq(x, u, v);
            lemma_inv_swap(x, u, v);
            assert(x == swapq(y, u, v));
        }
    }
}
pub proof fn lemma_class_ns(q: QV, p: QV)
    requires wfv(q), q.n >= 1, reach(step_ns(), q, p),
    ensures inv_ns(q)(p), reach(step_ns(), p, q),
{
    let inv = inv_ns(q);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] step_ns()(x, y) implies inv(y) by {
        lemma_step_ns(x, y);
        assert forall|s: Seq<i8>| #[trigger] cnt(q, s) == cnt(y, s) by { assert(cnt(q, s) == cnt(x, s)); assert(cnt(x, s) == cnt(y, s)); }
    }
    lemma_reach_inv(step_ns(), inv, q, p);
    assert forall|x: QV, y: QV| domq(q.n)(x) && #[trigger] step_ns()(x, y) implies domq(q.n)(y) && step_ns()(y, x) by { lemma_step_ns(x, y); }
    lemma_reach_sym(step_ns(), domq(q.n), q, p);
}
pub proof fn lemma_class_sn(q: QV, p: QV)
    requires wfv(q), q.n >= 1, reach(step_sn(), q, p),
    ensures inv_sn(q)(p), reach(step_sn(), p, q),
{
    let inv = inv_sn(q);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] step_sn()(x, y) implies inv(y) by {
        lemma_step_sn(x, y);
        assert forall|s: Seq<i8>| #[trigger] cnt(q, s) == cnt(y, s) by { assert(cnt(q, s) == cnt(x, s)); assert(cnt(x, s) == cnt(y, s)); }
    }
    lemma_reach_inv(step_sn(), inv, q, p);
    assert forall|x: QV, y: QV| domq(q.n)(x) && #[trigger] step_sn()(x, y) implies domq(q.n)(y) && step_sn()(y, x) by { lemma_step_sn(x, y); }
    lemma_reach_sym(step_sn(), domq(q.n), q, p);
}
/// four ascending sequences are determined by how often each occurs
pub proof fn lemma_sorted_unique(r: QV, t: QV)
    requires
        wfv(r), wfv(t), r.n == t.n, r.n >= 1, same_cnt(r, t),
        le(norm(r.a), norm(r.b)), le(norm(r.b), norm(r.c)), le(norm(r.c), norm(r.d)),
        le(norm(t.a), norm(t.b)), le(norm(t.b), norm(t.c)), le(norm(t.c), norm(t.d)),
    ensures norm(r.a) == norm(t.a), norm(r.b) == norm(t.b), norm(r.c) == norm(t.c), norm(r.d) == norm(t.d),
{
    lemma_norm(r.a); lemma_norm(r.b); lemma_norm(r.c); lemma_norm(r.d);
    lemma_norm(t.a); lemma_norm(t.b); lemma_norm(t.c); lemma_norm(t.d);
    let (ra, rb, rc, rd) = (norm(r.a), norm(r.b), norm(r.c), norm(r.d));
    let (ta, tb, tc, td) = (norm(t.a), norm(t.b), norm(t.c), norm(t.d));
    lemma_lex_all(r.n);
    lemma_le_anti(ra, ta); lemma_le_anti(rb, tb); lemma_le_anti(rc, tc); lemma_le_anti(rd, td);
    assert(cnt(r, ra) == cnt(t, ra)); assert(cnt(r, rb) == cnt(t, rb)); assert(cnt(r, rc) == cnt(t, rc)); assert(cnt(r, rd) == cnt(t, rd));
    assert(cnt(r, ta) == cnt(t, ta)); assert(cnt(r, tb) == cnt(t, tb)); assert(cnt(r, tc) == cnt(t, tc)); assert(cnt(r, td) == cnt(t, td));
    // least ones agree
    assert(le(ta, ra) && le(ra, ta));
    assert(le(tb, rb) && le(rb, tb));
    assert(le(tc, rc) && le(rc, tc));
}
pub proof fn lemma_le_anti(x: Seq<i8>, y: Seq<i8>)
    requires x.len() == y.len(),
    ensures le(x, y) && le(y, x) ==> x == y,
{ lemma_lex_total(x, y); }

/// C06: two inputs get equal forms exactly if they are related (q1, q2 inputs; r1, r2 the returned forms)
pub proof fn lemma_sn_form(q1: QV, q2: QV, r1: QV, r2: QV)
    requires
        wfv(q1), wfv(q2), q1.n == q2.n, q1.n >= 1,
        reach(step_sn(), q1, r1), nf_sn(r1), reach(step_sn(), q2, r2), nf_sn(r2),
    ensures r1 == r2 <==> reach(step_sn(), q1, q2),
{
    lemma_class_sn(q1, r1); lemma_class_sn(q2, r2);
    if reach(step_sn(), q1, q2) {
        lemma_class_sn(q1, q2);
        assert(same_cnt(r1, r2)) by { assert forall|s: Seq<i8>| #[trigger] cnt(r1, s) == cnt(r2, s) by { assert(cnt(q1, s) == cnt(r1, s) && cnt(q1, s) == cnt(q2, s) && cnt(q2, s) == cnt(r2, s)); } }
        lemma_norm(r1.a); lemma_norm(r1.b); lemma_norm(r1.c); lemma_norm(r1.d);
        lemma_norm(r2.a); lemma_norm(r2.b); lemma_norm(r2.c); lemma_norm(r2.d);
        lemma_sorted_unique(r1, r2);
    }
    if r1 == r2 { lemma_reach_trans(step_sn(), q1, r1, q2); }
}
pub proof fn lemma_ns_form(q1: QV, q2: QV, r1: QV, r2: QV)
    requires
        wfv(q1), wfv(q2), q1.n == q2.n, q1.n >= 1,
        reach(step_ns(), q1, r1), nf_ns(r1), reach(step_ns(), q2, r2), nf_ns(r2),
    ensures r1 == r2 <==> reach(step_ns(), q1, q2),
{
    lemma_class_ns(q1, r1); lemma_class_ns(q2, r2);
    if reach(step_ns(), q1, q2) {
        lemma_class_ns(q1, q2);
        assert(same_cnt(r1, r2)) by { assert forall|s: Seq<i8>| #[trigger] cnt(r1, s) == cnt(r2, s) by { assert(cnt(q1, s) == cnt(r1, s) && cnt(q1, s) == cnt(q2, s) && cnt(q2, s) == cnt(r2, s)); } }
        lemma_norm(r1.a); lemma_norm(r1.b); lemma_norm(r1.c); lemma_norm(r1.d);
        lemma_norm(r2.a); lemma_norm(r2.b); lemma_norm(r2.c); lemma_norm(r2.d);
        lemma_sorted_unique(r1, r2);
        if distinct(r1) { assert(bit(r1) == bit(r2)); }
        assert(r1.d == r2.d);
    }
    if r1 == r2 { lemma_reach_trans(step_ns(), q1, r1, q2); }
}
