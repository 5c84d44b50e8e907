// ===== lib/ops.rs: the result sets of the equivalence operations =====
pub open spec fn tag_of(i: int) -> SequenceTag {
    if i == 0 { SequenceTag::W } else if i == 1 { SequenceTag::X } else if i == 2 { SequenceTag::Y } else { SequenceTag::Z }
}
pub open spec fn tagi(t: SequenceTag) -> int {
    match t { SequenceTag::W => 0, SequenceTag::X => 1, SequenceTag::Y => 2, SequenceTag::Z => 3 }
}

/// four sequences of the stated length; no entry is the smallest i8 (which has no negation)
pub open spec fn nomin(s: Seq<i8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] > -128 }
pub open spec fn wfl(q: QV) -> bool {
    &&& q.n >= 0
    &&& q.a.len() == q.n && q.b.len() == q.n && q.c.len() == q.n && q.d.len() == q.n
    &&& nomin(q.a) && nomin(q.b) && nomin(q.c) && nomin(q.d)
}
pub open spec fn wfx(q: QuadSeq) -> bool { wfl(q@) && q.size <= maxn() }

pub open spec fn op_negate_swap(q: QV, p: QV) -> bool {
    p == q || exists|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && p == #[trigger] swapq(negq(q, g), u, v)
}
pub proof fn lemma_swapq_comm(q: QV, u: SequenceTag, v: SequenceTag)
    ensures swapq(q, u, v) == swapq(q, v, u),
{
}
pub proof fn lemma_op_negate_swap(q: QV)
    requires wfl(q),
    ensures
        forall|p: QV| #[trigger] op_negate_swap(q, p) <==> p == q || ns_row(q, SequenceTag::W, p) || ns_row(q, SequenceTag::X, p) || ns_row(q, SequenceTag::Y, p) || ns_row(q, SequenceTag::Z, p),
        wfv(q) && is_qts(q) ==> forall|p: QV| #[trigger] op_negate_swap(q, p) ==> wfv(p) && p.n == q.n && is_qts(p),
{
    assert forall|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v implies ns_row(q, g, #[trigger] swapq(negq(q, g), u, v)) by {
        lemma_swapq_comm(negq(q, g), u, v);
    }
    if wfv(q) && is_qts(q) {
        assert forall|p: QV| #[trigger] op_negate_swap(q, p) implies wfv(q) ==> (wfv(p) && p.n == q.n && is_qts(p)) by {
            if p != q && wfv(q) {
                let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && p == #[trigger] swapq(negq(q, g), u, v);
                lemma_ns_qts(q, g, u, v);
            }
        }
    }
}
pub open spec fn ns_row(q: QV, g: SequenceTag, p: QV) -> bool {
    swaps(negq(q, g), p)
}
/// the six single swaps
pub open spec fn swaps(m: QV, p: QV) -> bool {
    p == swapq(m, SequenceTag::W, SequenceTag::X) || p == swapq(m, SequenceTag::W, SequenceTag::Y) || p == swapq(m, SequenceTag::W, SequenceTag::Z)
    || p == swapq(m, SequenceTag::X, SequenceTag::Y) || p == swapq(m, SequenceTag::X, SequenceTag::Z) || p == swapq(m, SequenceTag::Y, SequenceTag::Z)
}

pub open spec fn op_reorder(q: QV, p: QV) -> bool {
    p == q || exists|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] swapq(q, u, v)
}
pub proof fn lemma_op_reorder(q: QV)
    requires wfl(q),
    ensures
        forall|p: QV| #[trigger] op_reorder(q, p) <==> p == q || swaps(q, p),
        wfv(q) && is_wts(q) ==> forall|p: QV| #[trigger] op_reorder(q, p) ==> wfv(p) && p.n == q.n && is_wts(p),
        wfv(q) && is_ws(q) ==> forall|p: QV| #[trigger] op_reorder(q, p) ==> wfv(p) && p.n == q.n && is_ws(p),
{
    assert forall|u: SequenceTag, v: SequenceTag| u != v implies swaps(q, #[trigger] swapq(q, u, v)) by {
        lemma_swapq_comm(q, u, v);
    }
    assert forall|p: QV| #[trigger] op_reorder(q, p) implies wfv(q) ==> (wfv(p) && p.n == q.n && (is_wts(q) ==> is_wts(p)) && (is_ws(q) ==> is_ws(p))) by {
        if p != q && wfv(q) {
            let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] swapq(q, u, v);
            lemma_swap_valid(q, u, v);
        }
    }
}

pub open spec fn op_negate(q: QV, p: QV) -> bool {
    p == q || exists|g: SequenceTag| p == #[trigger] negq(q, g)
}
pub proof fn lemma_op_negate(q: QV)
    requires wfl(q),
    ensures
        forall|p: QV| #[trigger] op_negate(q, p) <==> (p == q || p == negq(q, SequenceTag::W) || p == negq(q, SequenceTag::X) || p == negq(q, SequenceTag::Y) || p == negq(q, SequenceTag::Z)),
        wfv(q) && is_wts(q) ==> forall|p: QV| #[trigger] op_negate(q, p) ==> wfv(p) && p.n == q.n && is_wts(p),
        wfv(q) && is_ws(q) ==> forall|p: QV| #[trigger] op_negate(q, p) ==> wfv(p) && p.n == q.n && is_ws(p),
{
    assert forall|p: QV| #[trigger] op_negate(q, p) implies wfv(q) ==> (wfv(p) && p.n == q.n && (is_wts(q) ==> is_wts(p)) && (is_ws(q) ==> is_ws(p))) by {
        if p != q && wfv(q) {
            let g = choose|g: SequenceTag| p == #[trigger] negq(q, g);
            lemma_neg_valid(q, g);
        }
    }
}

pub open spec fn op_shift_upto(q: QV, m: int, p: QV) -> bool {
    p == q || exists|k: int| 1 <= k < m && p == #[trigger] shiftq(q, k)
}
pub open spec fn op_uniform_shift(q: QV, p: QV) -> bool { op_shift_upto(q, q.n, p) }
pub proof fn lemma_op_uniform_shift(q: QV)
    requires wfl(q),
    ensures
        wfv(q) && is_qts(q) ==> forall|p: QV| #[trigger] op_uniform_shift(q, p) ==> wfv(p) && p.n == q.n && is_qts(p),
        wfv(q) && is_wts(q) ==> forall|p: QV| #[trigger] op_uniform_shift(q, p) ==> wfv(p) && p.n == q.n && is_wts(p),
{
    assert forall|p: QV| #[trigger] op_uniform_shift(q, p) implies wfv(q) ==> (wfv(p) && p.n == q.n && (is_qts(q) ==> is_qts(p)) && (is_wts(q) ==> is_wts(p))) by {
        if p != q && wfv(q) {
            let k = choose|k: int| 1 <= k < q.n && p == #[trigger] shiftq(q, k);
            lemma_shift_valid(q, k);
        }
    }
}

pub open spec fn op_even_alt(q: QV, p: QV) -> bool {
    if q.n % 2 == 0 { (p == q || p == altq(q)) } else { (p == q) }
}
pub proof fn lemma_op_even_alt(q: QV)
    requires wfl(q), q.n > 0,
    ensures
        wfv(q) && is_qts(q) ==> forall|p: QV| #[trigger] op_even_alt(q, p) ==> wfv(p) && p.n == q.n && is_qts(p),
        wfv(q) && is_wts(q) ==> forall|p: QV| #[trigger] op_even_alt(q, p) ==> wfv(p) && p.n == q.n && is_wts(p),
        wfv(q) && is_ws(q) ==> forall|p: QV| #[trigger] op_even_alt(q, p) ==> wfv(p) && p.n == q.n && is_ws(p),
{
    if q.n % 2 == 0 && wfv(q) { lemma_alt_valid(q); }
}

pub open spec fn op_automorphism(q: QV, p: QV) -> bool {
    p == q || exists|k: int| 1 <= k <= q.n && coprime_def(q.n, k) && p == #[trigger] permq(q, k)
}
pub proof fn lemma_op_automorphism(q: QV)
    requires wfl(q), q.n > 0,
    ensures
        wfv(q) && is_qts(q) ==> forall|p: QV| #[trigger] op_automorphism(q, p) ==> wfv(p) && p.n == q.n && is_qts(p),
        wfv(q) && is_wts(q) ==> forall|p: QV| #[trigger] op_automorphism(q, p) ==> wfv(p) && p.n == q.n && is_wts(p),
        wfv(q) && is_ws(q) ==> forall|p: QV| #[trigger] op_automorphism(q, p) ==> wfv(p) && p.n == q.n && is_ws(p),
{
    assert forall|p: QV| #[trigger] op_automorphism(q, p) implies wfv(q) ==> (wfv(p) && p.n == q.n && (is_qts(q) ==> is_qts(p)) && (is_wts(q) ==> is_wts(p)) && (is_ws(q) ==> is_ws(p))) by {
        if p != q && wfv(q) {
            let k = choose|k: int| 1 <= k <= q.n && coprime_def(q.n, k) && p == #[trigger] permq(q, k);
            assert forall|d: int| d >= 1 && #[trigger] divides(d, k) && divides(d, q.n) implies d == 1 by { }
            assert(coprime_def(k, q.n));
            lemma_unit(k, q.n);
            lemma_perm_valid(q, k);
        }
    }
}

/// shifting two sequences, or all four, by n/2
pub open spec fn op_dual_half(q: QV, p: QV) -> bool {
    if q.n % 2 == 0 {
        let h = q.n / 2;
        (p == q || p == hshift(q, h, true, true, false, false) || p == hshift(q, h, true, false, true, false) || p == hshift(q, h, true, false, false, true) || p == hshift(q, h, false, true, true, false) || p == hshift(q, h, false, true, false, true) || p == hshift(q, h, false, false, true, true) || p == hshift(q, h, true, true, true, true))
    } else { (p == q) }
}
pub proof fn lemma_op_dual_half(q: QV)
    requires wfl(q), q.n > 0,
    ensures wfv(q) && is_qts(q) ==> forall|p: QV| #[trigger] op_dual_half(q, p) ==> wfv(p) && p.n == q.n && is_qts(p),
{
    if wfv(q) && q.n % 2 == 0 {
        let h = q.n / 2;
        assert forall|a: bool, b: bool, c: bool, d: bool| (a == b) == (c == d) implies
            wfv(#[trigger] hshift(q, h, a, b, c, d)) && (is_qts(q) ==> is_qts(hshift(q, h, a, b, c, d))) by {
            lemma_half_qts(q, h, a, b, c, d);
        }
    }
}
/// shifting one sequence by n/2
pub open spec fn op_single_half(q: QV, p: QV) -> bool {
    if q.n % 2 == 0 {
        let h = q.n / 2;
        (p == q || p == hshift(q, h, true, false, false, false) || p == hshift(q, h, false, true, false, false) || p == hshift(q, h, false, false, true, false) || p == hshift(q, h, false, false, false, true))
    } else { (p == q) }
}
pub proof fn lemma_op_single_half(q: QV)
    requires wfl(q), q.n > 0,
    ensures
        wfv(q) && is_wts(q) ==> forall|p: QV| #[trigger] op_single_half(q, p) ==> wfv(p) && p.n == q.n && is_wts(p),
        wfv(q) && is_ws(q) ==> forall|p: QV| #[trigger] op_single_half(q, p) ==> wfv(p) && p.n == q.n && is_ws(p),
{
    if wfv(q) && q.n % 2 == 0 {
        let h = q.n / 2;
        assert forall|a: bool, b: bool, c: bool, d: bool|
            wfv(#[trigger] hshift(q, h, a, b, c, d)) && (is_wts(q) ==> is_wts(hshift(q, h, a, b, c, d))) && (is_ws(q) ==> is_ws(hshift(q, h, a, b, c, d))) by {
            lemma_half_valid(q, h, a, b, c, d);
        }
    }
}

/// reading backwards
pub open spec fn op_reverse(q: QV, p: QV) -> bool { p == q || p == revq(q) }
pub proof fn lemma_op_reverse(q: QV)
    requires wfl(q), q.n > 0,
    ensures
        wfv(q) && is_qts(q) ==> forall|p: QV| #[trigger] op_reverse(q, p) ==> wfv(p) && p.n == q.n && is_qts(p),
        wfv(q) && is_wts(q) ==> forall|p: QV| #[trigger] op_reverse(q, p) ==> wfv(p) && p.n == q.n && is_wts(p),
{
    if wfv(q) { lemma_rev_valid(q); }
}
/// negating two different sequences
pub open spec fn op_double_negate(q: QV, p: QV) -> bool {
    p == q || exists|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] negq(negq(q, u), v)
}
pub open spec fn nn(q: QV, u: SequenceTag, v: SequenceTag, p: QV) -> bool { p == negq(negq(q, u), v) }
pub proof fn lemma_op_double_negate(q: QV)
    requires wfl(q),
    ensures
        forall|p: QV| #[trigger] op_double_negate(q, p) <==> p == q || nn(q, SequenceTag::W, SequenceTag::X, p) || nn(q, SequenceTag::W, SequenceTag::Y, p) || nn(q, SequenceTag::W, SequenceTag::Z, p)
            || nn(q, SequenceTag::X, SequenceTag::Y, p) || nn(q, SequenceTag::X, SequenceTag::Z, p) || nn(q, SequenceTag::Y, SequenceTag::Z, p),
{
    assert forall|u: SequenceTag, v: SequenceTag| u != v implies #[trigger] negq(negq(q, u), v) == negq(negq(q, v), u) by { }
}
/// changing the sign of every second entry, whatever the length
pub open spec fn op_alt(q: QV, p: QV) -> bool { p == q || p == altq(q) }
/// two swaps at a time: of disjoint pairs
pub open spec fn op_disjoint(q: QV, p: QV) -> bool {
    p == q || p == swapq(swapq(q, SequenceTag::W, SequenceTag::X), SequenceTag::Y, SequenceTag::Z)
    || p == swapq(swapq(q, SequenceTag::W, SequenceTag::Y), SequenceTag::X, SequenceTag::Z)
    || p == swapq(swapq(q, SequenceTag::W, SequenceTag::Z), SequenceTag::X, SequenceTag::Y)
}
/// two swaps, one after the other
pub open spec fn op_double_reorder(q: QV, p: QV) -> bool {
    exists|u: SequenceTag, v: SequenceTag, s: SequenceTag, t: SequenceTag| u != v && s != t && p == #[trigger] swapq(swapq(q, u, v), s, t)
}
pub open spec fn reorder_row(q: QV, u: SequenceTag, v: SequenceTag, p: QV) -> bool { swaps(swapq(q, u, v), p) }
pub proof fn lemma_op_double_reorder(q: QV)
    ensures
        swapq(swapq(q, SequenceTag::W, SequenceTag::X), SequenceTag::W, SequenceTag::X) == q, swapq(swapq(q, SequenceTag::W, SequenceTag::Y), SequenceTag::W, SequenceTag::Y) == q,
        swapq(swapq(q, SequenceTag::W, SequenceTag::Z), SequenceTag::W, SequenceTag::Z) == q, swapq(swapq(q, SequenceTag::X, SequenceTag::Y), SequenceTag::X, SequenceTag::Y) == q,
        swapq(swapq(q, SequenceTag::X, SequenceTag::Z), SequenceTag::X, SequenceTag::Z) == q, swapq(swapq(q, SequenceTag::Y, SequenceTag::Z), SequenceTag::Y, SequenceTag::Z) == q,
        forall|p: QV| #[trigger] op_double_reorder(q, p) <==> reorder_row(q, SequenceTag::W, SequenceTag::X, p) || reorder_row(q, SequenceTag::W, SequenceTag::Y, p) || reorder_row(q, SequenceTag::W, SequenceTag::Z, p)
            || reorder_row(q, SequenceTag::X, SequenceTag::Y, p) || reorder_row(q, SequenceTag::X, SequenceTag::Z, p) || reorder_row(q, SequenceTag::Y, SequenceTag::Z, p),
{
    assert forall|p: QV| #[trigger] op_double_reorder(q, p) implies reorder_row(q, SequenceTag::W, SequenceTag::X, p) || reorder_row(q, SequenceTag::W, SequenceTag::Y, p) || reorder_row(q, SequenceTag::W, SequenceTag::Z, p)
            || reorder_row(q, SequenceTag::X, SequenceTag::Y, p) || reorder_row(q, SequenceTag::X, SequenceTag::Z, p) || reorder_row(q, SequenceTag::Y, SequenceTag::Z, p) by {
        let (u, v, s, t) = choose|u: SequenceTag, v: SequenceTag, s: SequenceTag, t: SequenceTag| u != v && s != t && p == #[trigger] swapq(swapq(q, u, v), s, t);
        lemma_swapq_comm(q, u, v); lemma_swapq_comm(swapq(q, u, v), s, t);
        assert(swaps(swapq(q, u, v), p));
    }
}

// ---------- shifting entry by entry (loop invariants) ----------
/// the first k entries already replaced by the cyclic shift by h
#[verifier::opaque]
pub open spec fn shpart(s: Seq<i8>, h: int, k: int) -> Seq<i8> {
    Seq::new(s.len(), |i: int| if i < k { s[(i + h) % (s.len() as int)] } else { s[i] })
}
pub open spec fn hpart(q: QV, h: int, kw: int, kx: int, ky: int, kz: int) -> QV {
    QV { n: q.n, a: shpart(q.a, h, kw), b: shpart(q.b, h, kx), c: shpart(q.c, h, ky), d: shpart(q.d, h, kz) }
}
pub proof fn lemma_shpart(s: Seq<i8>, h: int)
    ensures
        shpart(s, h, 0) == s, shpart(s, h, s.len() as int) == shift(s, h),
        forall|k: int| 0 <= k < s.len() ==> #[trigger] shpart(s, h, k).update(k, s[(k + h) % (s.len() as int)]) == shpart(s, h, k + 1),
{
    reveal(shpart);
    assert(shpart(s, h, 0) =~= s);
    assert(shpart(s, h, s.len() as int) =~= shift(s, h));
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] shpart(s, h, k).update(k, s[(k + h) % (s.len() as int)]) == shpart(s, h, k + 1) by {
        assert(shpart(s, h, k).update(k, s[(k + h) % (s.len() as int)]) =~= shpart(s, h, k + 1));
    }
}
pub proof fn lemma_hpart(q: QV, h: int)
    ensures
        forall|k: int| (#[trigger] shpart(q.a, h, k)).len() == q.a.len(), forall|k: int| (#[trigger] shpart(q.b, h, k)).len() == q.b.len(),
        forall|k: int| (#[trigger] shpart(q.c, h, k)).len() == q.c.len(), forall|k: int| (#[trigger] shpart(q.d, h, k)).len() == q.d.len(),
        shpart(q.a, h, 0) == q.a, shpart(q.a, h, q.a.len() as int) == shift(q.a, h),
        shpart(q.b, h, 0) == q.b, shpart(q.b, h, q.b.len() as int) == shift(q.b, h),
        shpart(q.c, h, 0) == q.c, shpart(q.c, h, q.c.len() as int) == shift(q.c, h),
        shpart(q.d, h, 0) == q.d, shpart(q.d, h, q.d.len() as int) == shift(q.d, h),
        forall|k: int| 0 <= k < q.a.len() ==> #[trigger] shpart(q.a, h, k).update(k, q.a[(k + h) % (q.a.len() as int)]) == shpart(q.a, h, k + 1),
        forall|k: int| 0 <= k < q.b.len() ==> #[trigger] shpart(q.b, h, k).update(k, q.b[(k + h) % (q.b.len() as int)]) == shpart(q.b, h, k + 1),
        forall|k: int| 0 <= k < q.c.len() ==> #[trigger] shpart(q.c, h, k).update(k, q.c[(k + h) % (q.c.len() as int)]) == shpart(q.c, h, k + 1),
        forall|k: int| 0 <= k < q.d.len() ==> #[trigger] shpart(q.d, h, k).update(k, q.d[(k + h) % (q.d.len() as int)]) == shpart(q.d, h, k + 1),
{
    reveal(shpart);
    lemma_shpart(q.a, h); lemma_shpart(q.b, h); lemma_shpart(q.c, h); lemma_shpart(q.d, h);
}
