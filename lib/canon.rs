// ===== lib/canon.rs: canonical forms under negations and swaps =====
pub open spec fn step_ns() -> spec_fn(QV, QV) -> bool { |q: QV, p: QV| op_negate_swap(q, p) }
pub open spec fn step_sn() -> spec_fn(QV, QV) -> bool { |q: QV, p: QV| op_negate(q, p) || op_reorder(q, p) }

pub open spec fn norm(s: Seq<i8>) -> Seq<i8> { if s[0] == -1 { s } else { neg(s) } }
pub open spec fn le(s: Seq<i8>, t: Seq<i8>) -> bool { !lexlt(t, s) }
/// four sequences starting with -1 in ascending order
pub open spec fn nf_sn(r: QV) -> bool {
    r.a[0] == -1 && r.b[0] == -1 && r.c[0] == -1 && r.d[0] == -1 && le(r.a, r.b) && le(r.b, r.c) && le(r.c, r.d)
}
/// the same up to the sign of the last sequence, which is only free when the four are different up to sign
pub open spec fn nf_ns(r: QV) -> bool {
    &&& r.a[0] == -1 && r.b[0] == -1 && r.c[0] == -1
    &&& le(r.a, r.b) && le(r.b, r.c) && le(r.c, norm(r.d))
    &&& r.d[0] == -1 || (r.a != r.b && r.a != r.c && r.a != norm(r.d) && r.b != r.c && r.b != norm(r.d) && r.c != norm(r.d))
}

// ---------- reachability with a parity ----------
/// an even number of negations and swaps leads from q to x (b: an odd number)
#[verifier::opaque]
pub open spec fn par(q: QV, b: bool, x: QV) -> bool {
    wfv(x) && x.n == q.n && (if b { reach(step_ns(), q, negq(x, SequenceTag::W)) } else { reach(step_ns(), q, x) })
}
pub proof fn lemma_negneg(s: Seq<i8>)
    requires pm(s),
    ensures neg(neg(s)) == s, pm(neg(s)), neg(s).len() == s.len(),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] neg(s)[i] == 1 || neg(s)[i] == -1 by { assert(s[i] == 1 || s[i] == -1); }
    assert forall|i: int| 0 <= i < s.len() implies neg(neg(s))[i] == s[i] by { assert(s[i] == 1 || s[i] == -1); assert(neg(s)[i] == neg8(s[i])); }
    assert(neg(neg(s)) =~= s);
}
pub proof fn lemma_negneg_q(q: QV)
    requires wfv(q),
    ensures forall|g: SequenceTag| wfv(#[trigger] negq(q, g)) && negq(negq(q, g), g) == q, forall|u: SequenceTag, v: SequenceTag| wfv(#[trigger] swapq(q, u, v)),
{
    lemma_negneg(q.a); lemma_negneg(q.b); lemma_negneg(q.c); lemma_negneg(q.d);
}
pub proof fn lemma_two_negs(q: QV, x: QV, g: SequenceTag, h: SequenceTag)
    requires wfv(x), reach(step_ns(), q, x),
    ensures reach(step_ns(), q, negq(negq(x, g), h)),
{
    let y = swapq(negq(x, g), SequenceTag::W, SequenceTag::X);
    let k = if h == SequenceTag::W { SequenceTag::X } else if h == SequenceTag::X { SequenceTag::W } else { h };
    let z = swapq(negq(y, k), SequenceTag::W, SequenceTag::X);
    assert(op_negate_swap(x, y));
    assert(op_negate_swap(y, z));
    assert(z == negq(negq(x, g), h));
    lemma_reach_step(step_ns(), q, x, y);
    lemma_reach_step(step_ns(), q, y, z);
}
pub proof fn lemma_par_swap(q: QV, b: bool, x: QV, u: SequenceTag, v: SequenceTag)
    requires par(q, b, x), u != v,
    ensures par(q, !b, swapq(x, u, v)),
{
    reveal(par);
    lemma_negneg_q(x);
    let p = swapq(x, u, v);
    if b {
        let m = negq(x, SequenceTag::W);
        assert(p == swapq(negq(m, SequenceTag::W), u, v));
        assert(op_negate_swap(m, p));
        lemma_reach_step(step_ns(), q, m, p);
    } else {
        let g = if u == SequenceTag::W { v } else if v == SequenceTag::W { u } else { SequenceTag::W };
        let m = swapq(negq(x, g), u, v);
        assert(m == negq(p, SequenceTag::W));
        assert(op_negate_swap(x, m));
        lemma_reach_step(step_ns(), q, x, m);
    }
}
pub proof fn lemma_par_neg(q: QV, b: bool, x: QV, g: SequenceTag)
    requires par(q, b, x),
    ensures par(q, !b, negq(x, g)),
{
    reveal(par);
    lemma_negneg_q(x);
    let w = SequenceTag::W;
    if b {
        let m = negq(x, w);
        lemma_negneg_q(m);
        lemma_two_negs(q, m, g, w);
        if g == w { assert(negq(negq(m, g), w) == m); }
        else { assert(negq(negq(m, g), w) == negq(negq(m, w), g)); }
    } else {
        lemma_two_negs(q, x, g, w);
    }
}
pub proof fn lemma_par_all(q: QV)
    requires wfv(q),
    ensures
        par(q, false, q),
        forall|x: QV, b: bool, u: SequenceTag, v: SequenceTag| u != v && #[trigger] par(q, b, x) ==> par(q, !b, #[trigger] swapq(x, u, v)),
        forall|x: QV, b: bool, t: SequenceTag, s: Seq<i8>| #[trigger] par(q, b, x) && s == neg(get(x, t)) ==> par(q, !b, #[trigger] set(x, t, s)),
        forall|x: QV| #[trigger] par(q, false, x) ==> reach(step_ns(), q, x),
        forall|x: QV, b: bool| #[trigger] par(q, b, x) ==> wfv(x) && x.n == q.n,
        forall|s: Seq<i8>| pm(s) ==> #[trigger] neg(neg(s)) == s,
{
    assert forall|s: Seq<i8>| pm(s) implies #[trigger] neg(neg(s)) == s by { lemma_negneg(s); }
    lemma_reach_refl(step_ns(), q);
    reveal(par);
    assert forall|x: QV, b: bool, u: SequenceTag, v: SequenceTag| u != v && #[trigger] par(q, b, x) implies par(q, !b, #[trigger] swapq(x, u, v)) by { lemma_par_swap(q, b, x, u, v); }
    assert forall|x: QV, b: bool, t: SequenceTag, s: Seq<i8>| #[trigger] par(q, b, x) && s == neg(get(x, t)) implies par(q, !b, #[trigger] set(x, t, s)) by { lemma_par_neg(q, b, x, t); }
}
/// single negations and single swaps
pub proof fn lemma_sn_all(q: QV)
    requires wfv(q),
    ensures
        rsn(q, q),
        forall|x: QV, u: SequenceTag, v: SequenceTag| u != v && #[trigger] rsn(q, x) ==> rsn(q, #[trigger] swapq(x, u, v)),
        forall|x: QV, t: SequenceTag, s: Seq<i8>| #[trigger] rsn(q, x) && s == neg(get(x, t)) ==> rsn(q, #[trigger] set(x, t, s)),
        forall|x: QV| #[trigger] rsn(q, x) ==> reach(step_sn(), q, x) && wfv(x) && x.n == q.n,
{
    lemma_reach_refl(step_sn(), q);
    reveal(rsn);
    assert forall|x: QV, u: SequenceTag, v: SequenceTag| u != v && #[trigger] rsn(q, x) implies rsn(q, #[trigger] swapq(x, u, v)) by {
        lemma_negneg_q(x); assert(op_reorder(x, swapq(x, u, v))); lemma_reach_step(step_sn(), q, x, swapq(x, u, v));
    }
    assert forall|x: QV, t: SequenceTag, s: Seq<i8>| #[trigger] rsn(q, x) && s == neg(get(x, t)) implies rsn(q, #[trigger] set(x, t, s)) by {
        lemma_negneg_q(x); assert(set(x, t, s) == negq(x, t)); assert(op_negate(x, negq(x, t))); lemma_reach_step(step_sn(), q, x, negq(x, t));
    }
}
#[verifier::opaque]
pub open spec fn rsn(q: QV, x: QV) -> bool { wfv(x) && x.n == q.n && reach(step_sn(), q, x) }

/// order facts for sequences of one length
pub proof fn lemma_lex_all(n: int)
    ensures
        forall|x: Seq<i8>, y: Seq<i8>| x.len() == n && y.len() == n && #[trigger] lexlt(x, y) ==> !lexlt(y, x) && x != y,
        forall|x: Seq<i8>, y: Seq<i8>, z: Seq<i8>| x.len() == n && y.len() == n && z.len() == n && !#[trigger] lexlt(y, x) && !#[trigger] lexlt(z, y) ==> !lexlt(z, x),
        forall|x: Seq<i8>| !#[trigger] lexlt(x, x),
{
    assert forall|x: Seq<i8>, y: Seq<i8>| x.len() == n && y.len() == n && #[trigger] lexlt(x, y) implies !lexlt(y, x) && x != y by { lemma_lex_asym(x, y); }
    assert forall|x: Seq<i8>, y: Seq<i8>, z: Seq<i8>| x.len() == n && y.len() == n && z.len() == n && !#[trigger] lexlt(y, x) && !#[trigger] lexlt(z, y) implies !lexlt(z, x) by {
        lemma_lex_total(x, y); lemma_lex_total(y, z);
        if lexlt(x, y) && lexlt(y, z) { lemma_lex_trans(x, y, z); lemma_lex_asym(x, z); }
        if lexlt(z, x) { lemma_lex_asym(z, x); }
    }
    assert forall|x: Seq<i8>| !#[trigger] lexlt(x, x) by { lemma_lex_irr(x); }
}
/// how many of the four sequences start with 1
pub open spec fn pos1(q: QV) -> int {
    (if q.a[0] == 1 { 1int } else { 0int }) + (if q.b[0] == 1 { 1int } else { 0int }) + (if q.c[0] == 1 { 1int } else { 0int }) + (if q.d[0] == 1 { 1int } else { 0int })
}
