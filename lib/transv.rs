// ===== lib/transv.rs: one member of every class =====
pub open spec fn list_ok(s: Seq<QuadSeq>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> wfx(#[trigger] s[i]) && s[i]@.n == n }
/// out has exactly one member of every class met by inp, and nothing else
pub open spec fn transversal(st: spec_fn(QV, QV) -> bool, inp: Seq<QuadSeq>, out: Seq<QuadSeq>) -> bool {
    &&& forall|j: int| 0 <= j < out.len() ==> #[trigger] from_list(st, inp, out[j]@)
    &&& forall|i: int| 0 <= i < inp.len() ==> #[trigger] into_list(st, inp[i]@, out)
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> !reach(st, (#[trigger] out[i])@, (#[trigger] out[j])@)
}
pub open spec fn from_upto(st: spec_fn(QV, QV) -> bool, inp: Seq<QuadSeq>, k: int, p: QV) -> bool { exists|i: int| 0 <= i < k && reach(st, (#[trigger] inp[i])@, p) }
pub open spec fn from_list(st: spec_fn(QV, QV) -> bool, inp: Seq<QuadSeq>, p: QV) -> bool { from_upto(st, inp, inp.len() as int, p) }
pub open spec fn into_list(st: spec_fn(QV, QV) -> bool, q: QV, out: Seq<QuadSeq>) -> bool { exists|j: int| 0 <= j < out.len() && reach(st, q, (#[trigger] out[j])@) }
pub open spec fn rep_type(ty: SequenceType) -> bool { ty == SequenceType::QuaternionType || ty == SequenceType::WilliamsonType || ty == SequenceType::Williamson }
/// the operations whose normal form qt_canonical takes
pub open spec fn cstep(ty: SequenceType) -> spec_fn(QV, QV) -> bool { if ty == SequenceType::QuaternionType { step_ns() } else { step_sn() } }
pub open spec fn cnf(ty: SequenceType, r: QV) -> bool { if ty == SequenceType::QuaternionType { nf_ns(r) } else { nf_sn(r) } }
pub proof fn lemma_wfv_wfl(q: QV)
    requires wfv(q),
    ensures wfl(q),
{
    assert forall|s: Seq<i8>| #[trigger] pm(s) implies nomin(s) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > -128 by { assert(s[i] == 1 || s[i] == -1); } }
    assert(pm(q.a) && pm(q.b) && pm(q.c) && pm(q.d));
}
/// ±1 entries stay ±1
pub proof fn lemma_pm_parts(q: QV)
    requires wfv(q), q.n >= 1,
    ensures
        forall|t: SequenceTag| wfv(#[trigger] negq(q, t)),
        forall|t: SequenceTag, u: SequenceTag| wfv(#[trigger] swapq(q, t, u)),
        forall|k: int| wfv(#[trigger] shiftq(q, k)), forall|k: int| wfv(#[trigger] permq(q, k)),
        wfv(altq(q)), wfv(revq(q)),
        forall|h: int, wa: bool, wb: bool, wc: bool, wd: bool| wfv(#[trigger] hshift(q, h, wa, wb, wc, wd)),
{
    assert forall|t: SequenceTag| pm(#[trigger] neg(get(q, t))) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] neg(s)[i] == 1 || neg(s)[i] == -1) by { assert(s[i] == 1 || s[i] == -1); } }
    assert forall|t: SequenceTag, k: int| pm(#[trigger] shift(get(q, t), k)) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] shift(s, k)[i] == 1 || shift(s, k)[i] == -1) by { lemma_mod_in(i + k, s.len() as int); let j = (i + k) % (s.len() as int); assert(s[j] == 1 || s[j] == -1); } }
    assert forall|t: SequenceTag, k: int| pm(#[trigger] perm(get(q, t), k)) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] perm(s, k)[i] == 1 || perm(s, k)[i] == -1) by { lemma_mod_in(i * k, s.len() as int); let j = (i * k) % (s.len() as int); assert(s[j] == 1 || s[j] == -1); } }
    assert forall|t: SequenceTag| pm(#[trigger] altn(get(q, t))) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] altn(s)[i] == 1 || altn(s)[i] == -1) by { assert(s[i] == 1 || s[i] == -1); } }
    assert forall|t: SequenceTag| pm(#[trigger] rev(get(q, t))) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] rev(s)[i] == 1 || rev(s)[i] == -1) by { assert(s[s.len() - 1 - i] == 1 || s[s.len() - 1 - i] == -1); } }
    assert forall|t: SequenceTag| wfv(#[trigger] negq(q, t)) by { assert(pm(neg(get(q, t)))); }
    let (w, x, y, z) = (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z);
    assert(get(q, w) == q.a && get(q, x) == q.b && get(q, y) == q.c && get(q, z) == q.d);
    assert forall|k: int| wfv(#[trigger] shiftq(q, k)) by { assert(pm(shift(get(q, w), k)) && pm(shift(get(q, x), k)) && pm(shift(get(q, y), k)) && pm(shift(get(q, z), k))); }
    assert forall|k: int| wfv(#[trigger] permq(q, k)) by { assert(pm(perm(get(q, w), k)) && pm(perm(get(q, x), k)) && pm(perm(get(q, y), k)) && pm(perm(get(q, z), k))); }
    assert(pm(altn(get(q, w))) && pm(altn(get(q, x))) && pm(altn(get(q, y))) && pm(altn(get(q, z))));
    assert(pm(rev(get(q, w))) && pm(rev(get(q, x))) && pm(rev(get(q, y))) && pm(rev(get(q, z))));
    assert forall|h: int, wa: bool, wb: bool, wc: bool, wd: bool| wfv(#[trigger] hshift(q, h, wa, wb, wc, wd)) by { assert(pm(shift(get(q, w), h)) && pm(shift(get(q, x), h)) && pm(shift(get(q, y), h)) && pm(shift(get(q, z), h))); }
}
pub proof fn lemma_pm_ns(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_negate_swap(q, p),
    ensures wfv(p), p.n == q.n,
{ lemma_pm_parts(q); if p != q { let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && p == #[trigger] swapq(negq(q, g), u, v); assert(wfv(negq(q, g))); lemma_pm_parts(negq(q, g)); } }
pub proof fn lemma_pm_dn(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_double_negate(q, p),
    ensures wfv(p), p.n == q.n,
{ lemma_pm_parts(q); if p != q { let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] negq(negq(q, u), v); assert(wfv(negq(q, u))); lemma_pm_parts(negq(q, u)); } }
pub proof fn lemma_pm_dis(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_disjoint(q, p),
    ensures wfv(p), p.n == q.n,
{ let (w, x, y, z) = (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z); lemma_pm_parts(q); lemma_pm_parts(swapq(q, w, x)); lemma_pm_parts(swapq(q, w, y)); lemma_pm_parts(swapq(q, w, z)); }
pub proof fn lemma_pm_dr(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_double_reorder(q, p),
    ensures wfv(p), p.n == q.n,
{ lemma_pm_parts(q); let (u, v, s, t) = choose|u: SequenceTag, v: SequenceTag, s: SequenceTag, t: SequenceTag| u != v && s != t && p == #[trigger] swapq(swapq(q, u, v), s, t); lemma_pm_parts(swapq(q, u, v)); }
pub proof fn lemma_pm_one(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_negate(q, p) || op_reorder(q, p),
    ensures wfv(p), p.n == q.n,
{ lemma_pm_parts(q); }
pub proof fn lemma_pm_idx(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_uniform_shift(q, p) || op_automorphism(q, p),
    ensures wfv(p), p.n == q.n,
{ lemma_pm_parts(q); }
pub proof fn lemma_pm_fix(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_alt(q, p) || op_even_alt(q, p) || op_reverse(q, p),
    ensures wfv(p), p.n == q.n,
{ lemma_pm_parts(q); }
pub proof fn lemma_pm_half(q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_dual_half(q, p) || op_single_half(q, p),
    ensures wfv(p), p.n == q.n,
{ lemma_pm_parts(q); }
pub proof fn lemma_op_pm(f: VxOp, q: QV, p: QV)
    requires wfv(q), q.n >= 1, op_rel(f, q, p),
    ensures wfv(p), p.n == q.n,
{
    match f {
        VxOp::equivalent_negate_swap => { lemma_pm_ns(q, p); }
        VxOp::equivalent_double_negate => { lemma_pm_dn(q, p); }
        VxOp::equivalent_disjoint_swaps => { lemma_pm_dis(q, p); }
        VxOp::equivalent_double_reorder => { lemma_pm_dr(q, p); }
        VxOp::equivalent_negate => { lemma_pm_one(q, p); }
        VxOp::equivalent_reorder => { lemma_pm_one(q, p); }
        VxOp::equivalent_uniform_shift => { lemma_pm_idx(q, p); }
        VxOp::equivalent_automorphism => { lemma_pm_idx(q, p); }
        VxOp::equivalent_alternated_negation => { lemma_pm_fix(q, p); }
        VxOp::equivalent_even_alternated_negation => { lemma_pm_fix(q, p); }
        VxOp::equivalent_reverse => { lemma_pm_fix(q, p); }
        VxOp::equivalent_dual_half_shift => { lemma_pm_half(q, p); }
        VxOp::equivalent_single_half_shift => { lemma_pm_half(q, p); }
        VxOp::equivalent_uniform_half_shift => { lemma_pm_half(q, p); }
    }
}
pub open spec fn list_pm(inp: Seq<QuadSeq>, n: int) -> bool { forall|i: int| 0 <= i < inp.len() ==> wfq(#[trigger] inp[i]) && inp[i]@.n == n }
/// a list of the operations of the type
pub open spec fn type_list(ty: SequenceType) -> Seq<VxOp> {
    match ty {
        SequenceType::QuaternionType => seq![VxOp::equivalent_uniform_shift, VxOp::equivalent_even_alternated_negation, VxOp::equivalent_automorphism, VxOp::equivalent_negate_swap, VxOp::equivalent_dual_half_shift],
        SequenceType::WilliamsonType => seq![VxOp::equivalent_negate, VxOp::equivalent_uniform_shift, VxOp::equivalent_reorder, VxOp::equivalent_even_alternated_negation, VxOp::equivalent_automorphism, VxOp::equivalent_single_half_shift],
        SequenceType::Williamson => seq![VxOp::equivalent_negate, VxOp::equivalent_reorder, VxOp::equivalent_even_alternated_negation, VxOp::equivalent_automorphism, VxOp::equivalent_single_half_shift],
        _ => seq![],
    }
}
pub proof fn lemma_type_list(ty: SequenceType)
    ensures step_of(type_list(ty)) == type_step(ty), is_type_ops(ty, type_list(ty)),
{
    let s = type_list(ty);
    assert forall|f: VxOp| (exists|i: int| 0 <= i < s.len() && s[i] == f) <==> #[trigger] type_op(ty, f) by {
        if s.len() > 0 { assert(s[0] == s[0]); } if s.len() > 1 { assert(s[1] == s[1]); } if s.len() > 2 { assert(s[2] == s[2]); }
        if s.len() > 3 { assert(s[3] == s[3]); } if s.len() > 4 { assert(s[4] == s[4]); } if s.len() > 5 { assert(s[5] == s[5]); }
    }
    lemma_type_step(ty, s);
}
pub proof fn lemma_creach(ty: SequenceType, q: QV, c: QV)
    requires rep_type(ty), wfv(q), q.n >= 1, reach(cstep(ty), q, c),
    ensures reach(type_step(ty), q, c),
{
    let tt = type_step(ty);
    let inv = |x: QV| reach(tt, q, x);
    lemma_reach_refl(tt, q);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] cstep(ty)(x, y) implies inv(y) by {
        let f = if ty == SequenceType::QuaternionType { VxOp::equivalent_negate_swap } else if op_negate(x, y) { VxOp::equivalent_negate } else { VxOp::equivalent_reorder };
        assert(type_op(ty, f) && op_rel(f, x, y));
        assert(tt(x, y));
        lemma_reach_step(tt, q, x, y);
    }
    lemma_reach_inv(cstep(ty), inv, q, c);
}
