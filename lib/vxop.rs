// ===== lib/vxop.rs: the equivalence operations as values (a function pointer is read as the name of the function it points to) =====
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum VxOp {
    equivalent_uniform_shift, equivalent_even_alternated_negation, equivalent_automorphism, equivalent_negate_swap, equivalent_dual_half_shift,
    equivalent_negate, equivalent_reorder, equivalent_single_half_shift, equivalent_uniform_half_shift, equivalent_reverse,
    equivalent_double_negate, equivalent_alternated_negation, equivalent_disjoint_swaps, equivalent_double_reorder,
}
/// p is one of the images of q under the operation (C05)
pub open spec fn op_rel(f: VxOp, q: QV, p: QV) -> bool {
    match f {
        VxOp::equivalent_uniform_shift => op_uniform_shift(q, p),
        VxOp::equivalent_even_alternated_negation => op_even_alt(q, p),
        VxOp::equivalent_automorphism => op_automorphism(q, p),
        VxOp::equivalent_negate_swap => op_negate_swap(q, p),
        VxOp::equivalent_dual_half_shift => op_dual_half(q, p),
        VxOp::equivalent_negate => op_negate(q, p),
        VxOp::equivalent_reorder => op_reorder(q, p),
        VxOp::equivalent_single_half_shift => op_single_half(q, p),
        VxOp::equivalent_uniform_half_shift => op_single_half(q, p),
        VxOp::equivalent_reverse => op_reverse(q, p),
        VxOp::equivalent_double_negate => op_double_negate(q, p),
        VxOp::equivalent_alternated_negation => op_alt(q, p),
        VxOp::equivalent_disjoint_swaps => op_disjoint(q, p),
        VxOp::equivalent_double_reorder => op_double_reorder(q, p),
    }
}
/// calling one of the operations: dispatch to the function named by the value
pub type VxFnPtr = VxOp;
impl VxOp {
pub fn vx_call(&self, seq: &QuadSeq, ty: SequenceType, sg: bool) -> (r: HashSet<QuadSeq>)
    requires wfx(*seq), 1 <= seq.size <= 100,
    ensures forall|p: QV| #![trigger r@.contains(p)] #![trigger op_rel(*self, seq@, p)] r@.contains(p) <==> op_rel(*self, seq@, p),
{
    match self {
        VxOp::equivalent_uniform_shift => equivalent_uniform_shift(seq, ty, sg),
        VxOp::equivalent_even_alternated_negation => equivalent_even_alternated_negation(seq, ty, sg),
        VxOp::equivalent_automorphism => equivalent_automorphism(seq, ty, sg),
        VxOp::equivalent_negate_swap => equivalent_negate_swap(seq, ty, sg),
        VxOp::equivalent_dual_half_shift => equivalent_dual_half_shift(seq, ty, sg),
        VxOp::equivalent_negate => equivalent_negate(seq, ty, sg),
        VxOp::equivalent_reorder => equivalent_reorder(seq, ty, sg),
        VxOp::equivalent_single_half_shift => equivalent_single_half_shift(seq, ty, sg),
        VxOp::equivalent_uniform_half_shift => equivalent_uniform_half_shift(seq, ty, sg),
        VxOp::equivalent_reverse => equivalent_reverse(seq, ty, sg),
        VxOp::equivalent_double_negate => equivalent_double_negate(seq, ty, sg),
        VxOp::equivalent_alternated_negation => equivalent_alternated_negation(seq, ty, sg),
        VxOp::equivalent_disjoint_swaps => equivalent_disjoint_swaps(seq, ty, sg),
        VxOp::equivalent_double_reorder => equivalent_double_reorder(seq, ty, sg),
    }
}
}
/// one application of one of the listed operations
pub open spec fn step_of(fs: Seq<VxOp>) -> spec_fn(QV, QV) -> bool { |q: QV, p: QV| step_in(fs, q, p) }
pub open spec fn step_in(fs: Seq<VxOp>, q: QV, p: QV) -> bool { exists|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], q, p) }
/// the operations that make up the equivalence of a type
pub open spec fn type_op(ty: SequenceType, f: VxOp) -> bool {
    match ty {
        SequenceType::QuaternionType => f == VxOp::equivalent_uniform_shift || f == VxOp::equivalent_even_alternated_negation || f == VxOp::equivalent_automorphism || f == VxOp::equivalent_negate_swap || f == VxOp::equivalent_dual_half_shift,
        SequenceType::WilliamsonType => f == VxOp::equivalent_negate || f == VxOp::equivalent_uniform_shift || f == VxOp::equivalent_reorder || f == VxOp::equivalent_even_alternated_negation || f == VxOp::equivalent_automorphism || f == VxOp::equivalent_single_half_shift,
        SequenceType::Williamson => f == VxOp::equivalent_negate || f == VxOp::equivalent_reorder || f == VxOp::equivalent_even_alternated_negation || f == VxOp::equivalent_automorphism || f == VxOp::equivalent_single_half_shift,
        _ => false,
    }
}
pub open spec fn is_type_ops(ty: SequenceType, fs: Seq<VxOp>) -> bool { forall|f: VxOp| (exists|i: int| 0 <= i < fs.len() && fs[i] == f) <==> #[trigger] type_op(ty, f) }

pub proof fn lemma_wf_parts(q: QV)
    requires wfl(q), q.n >= 1,
    ensures
        forall|t: SequenceTag| wfl(#[trigger] negq(q, t)),
        forall|t: SequenceTag, u: SequenceTag| wfl(#[trigger] swapq(q, t, u)),
        forall|k: int| wfl(#[trigger] shiftq(q, k)), forall|k: int| wfl(#[trigger] permq(q, k)),
        wfl(altq(q)), wfl(revq(q)),
        forall|h: int, wa: bool, wb: bool, wc: bool, wd: bool| wfl(#[trigger] hshift(q, h, wa, wb, wc, wd)),
{
    assert forall|t: SequenceTag| nomin(#[trigger] neg(get(q, t))) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies #[trigger] neg(s)[i] > -128 by { assert(s[i] > -128); } }
    assert forall|t: SequenceTag, k: int| nomin(#[trigger] shift(get(q, t), k)) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies #[trigger] shift(s, k)[i] > -128 by { lemma_mod_in(i + k, s.len() as int); } }
    assert forall|t: SequenceTag, k: int| nomin(#[trigger] perm(get(q, t), k)) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies #[trigger] perm(s, k)[i] > -128 by { lemma_mod_in(i * k, s.len() as int); } }
    assert forall|t: SequenceTag| nomin(#[trigger] altn(get(q, t))) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies #[trigger] altn(s)[i] > -128 by { assert(s[i] > -128); } }
    assert forall|t: SequenceTag| nomin(#[trigger] rev(get(q, t))) by { let s = get(q, t); assert forall|i: int| 0 <= i < s.len() implies #[trigger] rev(s)[i] > -128 by { assert(s[s.len() - 1 - i] > -128); } }
    assert forall|t: SequenceTag| wfl(#[trigger] negq(q, t)) by { assert(nomin(neg(get(q, t)))); }
    let (w, x, y, z) = (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z);
    assert(get(q, w) == q.a && get(q, x) == q.b && get(q, y) == q.c && get(q, z) == q.d);
    assert forall|k: int| wfl(#[trigger] shiftq(q, k)) by { assert(nomin(shift(get(q, w), k)) && nomin(shift(get(q, x), k)) && nomin(shift(get(q, y), k)) && nomin(shift(get(q, z), k))); }
    assert forall|k: int| wfl(#[trigger] permq(q, k)) by { assert(nomin(perm(get(q, w), k)) && nomin(perm(get(q, x), k)) && nomin(perm(get(q, y), k)) && nomin(perm(get(q, z), k))); }
    assert(nomin(altn(get(q, w))) && nomin(altn(get(q, x))) && nomin(altn(get(q, y))) && nomin(altn(get(q, z))));
    assert(nomin(rev(get(q, w))) && nomin(rev(get(q, x))) && nomin(rev(get(q, y))) && nomin(rev(get(q, z))));
    assert forall|h: int, wa: bool, wb: bool, wc: bool, wd: bool| wfl(#[trigger] hshift(q, h, wa, wb, wc, wd)) by { assert(nomin(shift(get(q, w), h)) && nomin(shift(get(q, x), h)) && nomin(shift(get(q, y), h)) && nomin(shift(get(q, z), h))); }
}
pub proof fn lemma_mod_in(x: int, n: int)
    requires n >= 1,
    ensures 0 <= x % n < n,
{ assert(0 <= x % n < n) by (nonlinear_arith) requires n >= 1; }
pub proof fn lemma_wf_ns(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_negate_swap(q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_wf_parts(q); if p != q { let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && p == #[trigger] swapq(negq(q, g), u, v); assert(wfl(negq(q, g))); lemma_wf_parts(negq(q, g)); } }
pub proof fn lemma_wf_dn(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_double_negate(q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_wf_parts(q); if p != q { let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] negq(negq(q, u), v); assert(wfl(negq(q, u))); lemma_wf_parts(negq(q, u)); } }
pub proof fn lemma_wf_dis(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_disjoint(q, p),
    ensures wfl(p), p.n == q.n,
{ let (w, x, y, z) = (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z); lemma_wf_parts(q); lemma_wf_parts(swapq(q, w, x)); lemma_wf_parts(swapq(q, w, y)); lemma_wf_parts(swapq(q, w, z)); }
pub proof fn lemma_wf_dr(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_double_reorder(q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_wf_parts(q); let (u, v, s, t) = choose|u: SequenceTag, v: SequenceTag, s: SequenceTag, t: SequenceTag| u != v && s != t && p == #[trigger] swapq(swapq(q, u, v), s, t); lemma_wf_parts(swapq(q, u, v)); }
pub proof fn lemma_wf_one(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_negate(q, p) || op_reorder(q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_wf_parts(q); }
pub proof fn lemma_wf_idx(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_uniform_shift(q, p) || op_automorphism(q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_wf_parts(q); }
pub proof fn lemma_wf_fix(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_alt(q, p) || op_even_alt(q, p) || op_reverse(q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_wf_parts(q); }
pub proof fn lemma_wf_half(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_dual_half(q, p) || op_single_half(q, p),
    ensures wfl(p), p.n == q.n,
{ lemma_wf_parts(q); }
/// every operation keeps the shape of a quadruple
pub proof fn lemma_op_wf(f: VxOp, q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_rel(f, q, p),
    ensures wfl(p), p.n == q.n,
{
    match f {
        VxOp::equivalent_negate_swap => { lemma_wf_ns(q, p); }
        VxOp::equivalent_double_negate => { lemma_wf_dn(q, p); }
        VxOp::equivalent_disjoint_swaps => { lemma_wf_dis(q, p); }
        VxOp::equivalent_double_reorder => { lemma_wf_dr(q, p); }
        VxOp::equivalent_negate => { lemma_wf_one(q, p); }
        VxOp::equivalent_reorder => { lemma_wf_one(q, p); }
        VxOp::equivalent_uniform_shift => { lemma_wf_idx(q, p); }
        VxOp::equivalent_automorphism => { lemma_wf_idx(q, p); }
        VxOp::equivalent_alternated_negation => { lemma_wf_fix(q, p); }
        VxOp::equivalent_even_alternated_negation => { lemma_wf_fix(q, p); }
        VxOp::equivalent_reverse => { lemma_wf_fix(q, p); }
        VxOp::equivalent_dual_half_shift => { lemma_wf_half(q, p); }
        VxOp::equivalent_single_half_shift => { lemma_wf_half(q, p); }
        VxOp::equivalent_uniform_half_shift => { lemma_wf_half(q, p); }
    }
}
pub proof fn lemma_ops_wf(q: QV)
    requires wfl(q), q.n >= 1,
    ensures forall|f: VxOp, p: QV| #[trigger] op_rel(f, q, p) ==> wfl(p) && p.n == q.n,
{
    assert forall|f: VxOp, p: QV| #[trigger] op_rel(f, q, p) implies wfl(p) && p.n == q.n by { lemma_op_wf(f, q, p); }
}
pub proof fn lemma_step_all(fs: Seq<VxOp>, q: QV)
    ensures
        reach(step_of(fs), q, q),
        forall|x: QV, y: QV, f: VxOp| #[trigger] reach(step_of(fs), q, x) && fs.contains(f) && #[trigger] op_rel(f, x, y) ==> reach(step_of(fs), q, y),
{
    lemma_reach_refl(step_of(fs), q);
    assert forall|x: QV, y: QV, f: VxOp| #[trigger] reach(step_of(fs), q, x) && fs.contains(f) && #[trigger] op_rel(f, x, y) implies reach(step_of(fs), q, y) by {
        let i = choose|i: int| 0 <= i < fs.len() && fs[i] == f;
        assert(op_rel(fs[i], x, y));
        assert(step_of(fs)(x, y));
        lemma_reach_step(step_of(fs), q, x, y);
    }
}
/// a set that contains q and is closed under the operations contains everything reachable
pub proof fn lemma_closed(fs: Seq<VxOp>, q: QV, s: Set<QV>)
    requires s.contains(q), forall|x: QV, y: QV, f: VxOp| #[trigger] s.contains(x) && fs.contains(f) && #[trigger] op_rel(f, x, y) ==> s.contains(y),
    ensures forall|p: QV| #[trigger] reach(step_of(fs), q, p) ==> s.contains(p),
{
    assert forall|p: QV| #[trigger] reach(step_of(fs), q, p) implies s.contains(p) by {
        let inv = |x: QV| s.contains(x);
        assert forall|x: QV, y: QV| inv(x) && #[trigger] step_of(fs)(x, y) implies inv(y) by {
            let i = choose|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], x, y);
            assert(fs.contains(fs[i]));
        }
        lemma_reach_inv(step_of(fs), inv, q, p);
    }
}
pub open spec fn type_step(ty: SequenceType) -> spec_fn(QV, QV) -> bool { |q: QV, p: QV| exists|f: VxOp| type_op(ty, f) && #[trigger] op_rel(f, q, p) }
pub proof fn lemma_type_step(ty: SequenceType, fs: Seq<VxOp>)
    requires is_type_ops(ty, fs),
    ensures step_of(fs) == type_step(ty),
{
    assert forall|q: QV, p: QV| #[trigger] step_of(fs)(q, p) == type_step(ty)(q, p) by {
        if step_of(fs)(q, p) { let i = choose|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], q, p); assert(fs[i] == fs[i]); assert(type_op(ty, fs[i])); }
        if type_step(ty)(q, p) { let f = choose|f: VxOp| type_op(ty, f) && #[trigger] op_rel(f, q, p); let i = choose|i: int| 0 <= i < fs.len() && fs[i] == f; assert(op_rel(fs[i], q, p)); }
    }
    assert(step_of(fs) =~= type_step(ty));
}
