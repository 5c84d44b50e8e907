// ===== lib/classes.rs: the operations as an equivalence relation; transversals of its classes; representatives =====
pub proof fn lemma_neg2(s: Seq<i8>)
    requires nomin(s),
    ensures neg(neg(s)) == s, nomin(neg(s)), neg(s).len() == s.len(),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] neg(s)[i] > -128 && neg(neg(s))[i] == s[i] by { assert(s[i] > -128); }
    assert(neg(neg(s)) =~= s);
}
pub proof fn lemma_alt2(s: Seq<i8>)
    requires nomin(s),
    ensures altn(altn(s)) == s,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] altn(altn(s))[i] == s[i] by { assert(s[i] > -128); }
    assert(altn(altn(s)) =~= s);
}
pub proof fn lemma_shift_back(s: Seq<i8>, k: int, l: int)
    requires s.len() >= 1, k + l == s.len() || k + l == 0,
    ensures shift(shift(s, k), l) == s,
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] shift(shift(s, k), l)[i] == s[i] by {
        lemma_mod_in(i + l, n);
        let j = (i + l) % n;
        assert((j + k) % n == i) by {
            vstd::arithmetic::div_mod::lemma_add_mod_noop(i + l, k, n);
            vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i, n);
            vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n as nat);
            if 0 <= k < n { vstd::arithmetic::div_mod::lemma_small_mod(k as nat, n as nat); }
            vstd::arithmetic::div_mod::lemma_add_mod_noop_right(k, i + l, n);
        }
    }
    assert(shift(shift(s, k), l) =~= s);
}
pub proof fn lemma_perm_back(s: Seq<i8>, k: int, l: int)
    requires s.len() >= 1, (k * l) % (s.len() as int) == 1int % (s.len() as int),
    ensures perm(perm(s, k), l) == s,
{
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] perm(perm(s, k), l)[i] == s[i] by {
        lemma_mod_in(i * l, n);
        let j = (i * l) % n;
        assert((j * k) % n == i) by {
            vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(i * l, k, n);
            assert(i * l * k == i * (k * l)) by (nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(i, k * l, n);
            vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(i, 1, n);
            assert(i * 1 == i);
            vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n as nat);
        }
    }
    assert(perm(perm(s, k), l) =~= s);
}
/// the inverse of a unit, in 1..=n
pub proof fn lemma_unit_inv(k: int, n: int) -> (l: int)
    requires n >= 1, k >= 1, coprime_def(n, k),
    ensures 1 <= l <= n, coprime_def(n, l), (k * l) % n == 1int % n,
{
    assert forall|d: int| d >= 1 && #[trigger] divides(d, k) && divides(d, n) implies d == 1 by { }
    lemma_unit(k, n);
    let ki = choose|ki: int| #[trigger] (k * ki) % n == 1int % n;
    lemma_mod_in(ki, n);
    let l = if ki % n == 0 { n } else { ki % n };
    assert((k * l) % n == 1int % n) by {
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(k, ki, n);
        if ki % n == 0 {
            assert(k * (ki % n) == 0) by (nonlinear_arith) requires ki % n == 0;
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, n);
            vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat);
            assert((k * ki) % n == 0);
            assert(l == n);
        } else { assert(l == ki % n); }
    }
    assert forall|d: int| d >= 1 && #[trigger] divides(d, n) && divides(d, l) implies d == 1 by {
        // 1 % n = k l - n m
        let m = (k * l) / n;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k * l, n);
        if n > 1 {
            vstd::arithmetic::div_mod::lemma_small_mod(1, n as nat);
            assert(divides(d, 0)) by { assert(0 * d == 0); }
            lemma_div_lin(d, 0, l, k);
            lemma_div_lin(d, 0 + k * l, n, m);
            assert(n * m == m * n) by (nonlinear_arith);
            assert(divides(d, 1));
            let c = choose|c: int| #[trigger] (c * d) == 1;
            assert(d == 1) by (nonlinear_arith) requires c * d == 1, d >= 1;
        } else {
            let c = choose|c: int| #[trigger] (c * d) == l;
            assert(d == 1) by (nonlinear_arith) requires c * d == 1, d >= 1;
        }
    }
    l
}
pub open spec fn domw(n: int) -> spec_fn(QV) -> bool { |x: QV| wfl(x) && x.n == n && n >= 1 }
pub proof fn lemma_back_ns(q: QV, p: QV)
    requires wfl(q), op_negate_swap(q, p),
    ensures op_negate_swap(p, q),
{
    if p != q {
        let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && p == #[trigger] swapq(negq(q, g), u, v);
        let g2 = if g == u { v } else if g == v { u } else { g };
        lemma_neg2(get(q, g));
        let m = negq(q, g);
        assert(get(p, g2) == get(m, g));
        assert(get(p, g2) == neg(get(q, g)));
        assert(q == swapq(negq(p, g2), u, v));
    }
}
pub proof fn lemma_back_dn(q: QV, p: QV)
    requires wfl(q), op_double_negate(q, p),
    ensures op_double_negate(p, q),
{
    if p != q {
        let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] negq(negq(q, u), v);
        lemma_neg2(get(q, u)); lemma_neg2(get(q, v));
        assert(get(p, u) == neg(get(q, u)) && get(p, v) == neg(get(q, v)));
        assert(q == negq(negq(p, u), v));
    }
}
pub proof fn lemma_back_ds(q: QV, p: QV)
    requires op_disjoint(q, p),
    ensures op_disjoint(p, q),
{ }
pub proof fn lemma_back_dr(q: QV, p: QV)
    requires op_double_reorder(q, p),
    ensures op_double_reorder(p, q),
{
    let (u, v, a, b) = choose|u: SequenceTag, v: SequenceTag, a: SequenceTag, b: SequenceTag| u != v && a != b && p == #[trigger] swapq(swapq(q, u, v), a, b);
    let m = swapq(q, u, v);
    assert(swapq(p, a, b) == m);
    assert(q == swapq(m, u, v));
    assert(q == swapq(swapq(p, a, b), u, v));
}
pub proof fn lemma_back_dual(q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_dual_half(q, p),
    ensures op_dual_half(p, q),
{
    let h = q.n / 2;
    if q.n % 2 == 0 { lemma_shift_back(q.a, h, h); lemma_shift_back(q.b, h, h); lemma_shift_back(q.c, h, h); lemma_shift_back(q.d, h, h); }
}
/// every operation can be undone by the same operation
pub proof fn lemma_op_back(f: VxOp, q: QV, p: QV)
    requires wfl(q), q.n >= 1, op_rel(f, q, p),
    ensures op_rel(f, p, q), wfl(p), p.n == q.n,
{
    lemma_op_wf(f, q, p);
    lemma_wf_parts(q);
    let (w, x, y, z) = (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z);
    if p != q || f == VxOp::equivalent_double_reorder {
        match f {
            VxOp::equivalent_uniform_shift => {
                let k = choose|k: int| 1 <= k < q.n && p == #[trigger] shiftq(q, k);
                lemma_shift_back(q.a, k, q.n - k); lemma_shift_back(q.b, k, q.n - k); lemma_shift_back(q.c, k, q.n - k); lemma_shift_back(q.d, k, q.n - k);
                assert(q == shiftq(p, q.n - k));
            }
            VxOp::equivalent_automorphism => {
                let k = choose|k: int| 1 <= k <= q.n && coprime_def(q.n, k) && p == #[trigger] permq(q, k);
                let l = lemma_unit_inv(k, q.n);
                lemma_perm_back(q.a, k, l); lemma_perm_back(q.b, k, l); lemma_perm_back(q.c, k, l); lemma_perm_back(q.d, k, l);
                assert(q == permq(p, l));
            }
            VxOp::equivalent_negate => { let g = choose|g: SequenceTag| p == #[trigger] negq(q, g); lemma_neg2(get(q, g)); assert(q == negq(p, g)); }
            VxOp::equivalent_reorder => { let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] swapq(q, u, v); assert(q == swapq(p, u, v)); }
            VxOp::equivalent_negate_swap => { lemma_back_ns(q, p); }
            VxOp::equivalent_double_negate => { lemma_back_dn(q, p); }
            VxOp::equivalent_disjoint_swaps => { lemma_back_ds(q, p); }
            VxOp::equivalent_double_reorder => { lemma_back_dr(q, p); }
            VxOp::equivalent_even_alternated_negation => { lemma_alt2(q.a); lemma_alt2(q.b); lemma_alt2(q.c); lemma_alt2(q.d); assert(altq(p) == q); }
            VxOp::equivalent_dual_half_shift => { lemma_back_dual(q, p); }
            VxOp::equivalent_alternated_negation => { lemma_alt2(q.a); lemma_alt2(q.b); lemma_alt2(q.c); lemma_alt2(q.d); assert(altq(p) == q); }
            VxOp::equivalent_reverse => {
                assert(rev(rev(q.a)) =~= q.a && rev(rev(q.b)) =~= q.b && rev(rev(q.c)) =~= q.c && rev(rev(q.d)) =~= q.d);
                assert(revq(p) == q);
            }
            _ => {
                let h = q.n / 2;
                lemma_shift_back(q.a, h, h); lemma_shift_back(q.b, h, h); lemma_shift_back(q.c, h, h); lemma_shift_back(q.d, h, h);
            }
        }
    }
}
// ---------- the relation "same class" ----------
/// related by the operations of the list
pub open spec fn eqv(fs: Seq<VxOp>, q: QV, p: QV) -> bool { reach(step_of(fs), q, p) }
pub proof fn lemma_eqv_sym(fs: Seq<VxOp>, q: QV, p: QV)
    requires wfl(q), q.n >= 1, reach(step_of(fs), q, p),
    ensures reach(step_of(fs), p, q), wfl(p), p.n == q.n,
{
    let st = step_of(fs);
    let dom = domw(q.n);
    assert forall|x: QV, y: QV| dom(x) && #[trigger] st(x, y) implies dom(y) && st(y, x) by {
        let i = choose|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], x, y);
        lemma_op_back(fs[i], x, y);
    }
    lemma_reach_inv(st, dom, q, p);
    lemma_reach_sym(st, dom, q, p);
}
/// on the well-formed quadruples of length n, "reachable" is an equivalence relation
pub proof fn lemma_eqv_all(fs: Seq<VxOp>, n: int)
    requires n >= 1,
    ensures
        forall|x: QV| #[trigger] reach(step_of(fs), x, x),
        forall|x: QV, y: QV| wfl(x) && x.n == n && #[trigger] reach(step_of(fs), x, y) ==> reach(step_of(fs), y, x) && wfl(y) && y.n == n,
        forall|x: QV, y: QV, z: QV| #[trigger] reach(step_of(fs), x, y) && #[trigger] reach(step_of(fs), y, z) ==> reach(step_of(fs), x, z),
{
    assert forall|x: QV| #[trigger] reach(step_of(fs), x, x) by { lemma_reach_refl(step_of(fs), x); }
    assert forall|x: QV, y: QV| wfl(x) && x.n == n && #[trigger] reach(step_of(fs), x, y) implies reach(step_of(fs), y, x) && wfl(y) && y.n == n by { lemma_eqv_sym(fs, x, y); }
    assert forall|x: QV, y: QV, z: QV| #[trigger] reach(step_of(fs), x, y) && #[trigger] reach(step_of(fs), y, z) implies reach(step_of(fs), x, z) by { lemma_reach_trans(step_of(fs), x, y, z); }
}
/// a list of distinct numbers below k
pub proof fn lemma_inject(s: Seq<int>, k: int)
    requires k >= 0, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < k, forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j],
    ensures s.len() <= k,
{
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    let t = vstd::set_lib::set_int_range(0, k);
    vstd::set_lib::lemma_int_range(0, k);
    assert(s.to_set().subset_of(t));
    vstd::set_lib::lemma_len_subset(s.to_set(), t);
}
/// C07: all reductions of one list return the same number of quadruples
pub proof fn lemma_partner(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, o1: Seq<QuadSeq>, o2: Seq<QuadSeq>, j: int) -> (l: int)
    requires n >= 1, list_ok(inp, n), transversal(step_of(fs), inp, o1), transversal(step_of(fs), inp, o2), 0 <= j < o1.len(),
    ensures 0 <= l < o2.len(), reach(step_of(fs), o1[j]@, o2[l]@), reach(step_of(fs), o2[l]@, o1[j]@),
{
    let st = step_of(fs);
    assert(from_list(st, inp, o1[j]@));
    let i = choose|i: int| 0 <= i < inp.len() && reach(st, (#[trigger] inp[i])@, o1[j]@);
    assert(into_list(st, inp[i]@, o2));
    let l = choose|l: int| 0 <= l < o2.len() && reach(st, inp[i]@, (#[trigger] o2[l])@);
    lemma_eqv_sym(fs, inp[i]@, o1[j]@);
    lemma_reach_trans(st, o1[j]@, inp[i]@, o2[l]@);
    lemma_eqv_sym(fs, o1[j]@, o2[l]@);
    l
}
pub proof fn lemma_partners(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, o1: Seq<QuadSeq>, o2: Seq<QuadSeq>, m: nat) -> (p: Seq<int>)
    requires n >= 1, list_ok(inp, n), transversal(step_of(fs), inp, o1), transversal(step_of(fs), inp, o2), m <= o1.len(),
    ensures p.len() == m, forall|j: int| 0 <= j < m ==> 0 <= #[trigger] p[j] < o2.len() && reach(step_of(fs), o1[j]@, o2[p[j]]@) && reach(step_of(fs), o2[p[j]]@, o1[j]@),
    decreases m,
{
    if m == 0 { Seq::empty() } else {
        let p = lemma_partners(fs, n, inp, o1, o2, (m - 1) as nat);
        let l = lemma_partner(fs, n, inp, o1, o2, m - 1); p.push(l)
    }
}
pub proof fn lemma_transversal_le(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, o1: Seq<QuadSeq>, o2: Seq<QuadSeq>)
    requires n >= 1, list_ok(inp, n), transversal(step_of(fs), inp, o1), transversal(step_of(fs), inp, o2),
    ensures o1.len() <= o2.len(),
{
    let st = step_of(fs);
    let p = lemma_partners(fs, n, inp, o1, o2, o1.len());
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] != #[trigger] p[j] by {
        if p[i] == p[j] { lemma_reach_trans(st, o1[i]@, o2[p[i]]@, o1[j]@); }
    }
    lemma_inject(p, o2.len() as int);
}
pub proof fn lemma_transversal_len(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, o1: Seq<QuadSeq>, o2: Seq<QuadSeq>)
    requires n >= 1, list_ok(inp, n), transversal(step_of(fs), inp, o1), transversal(step_of(fs), inp, o2),
    ensures o1.len() == o2.len(),
{ lemma_transversal_le(fs, n, inp, o1, o2); lemma_transversal_le(fs, n, inp, o2, o1); }

// ---------- the equivalence of a type and its representatives ----------
/// c is the normal form of something h-reachable from q
pub open spec fn form(ty: SequenceType, h: Seq<VxOp>, q: QV, c: QV) -> bool { exists|p: QV| reach(step_of(h), q, p) && #[trigger] reach(cstep(ty), p, c) && cnf(ty, c) }
/// r is the smallest such form
pub open spec fn rep_of(ty: SequenceType, h: Seq<VxOp>, q: QV, r: QV) -> bool { form(ty, h, q, r) && forall|c: QV| #[trigger] form(ty, h, q, c) ==> !qlt(c, r) }
/// the operations besides the ones cstep is made of
pub open spec fn h_op(ty: SequenceType, f: VxOp) -> bool {
    f == VxOp::equivalent_automorphism || f == VxOp::equivalent_even_alternated_negation || (ty != SequenceType::Williamson && f == VxOp::equivalent_uniform_shift)
    || (ty == SequenceType::QuaternionType && f == VxOp::equivalent_dual_half_shift)
    || (ty != SequenceType::QuaternionType && (f == VxOp::equivalent_single_half_shift || f == VxOp::equivalent_uniform_half_shift))
}
/// a list of operations sufficient for the representatives of the type
pub open spec fn h_list(ty: SequenceType, h: Seq<VxOp>) -> bool {
    &&& forall|i: int| 0 <= i < h.len() ==> h_op(ty, #[trigger] h[i])
    &&& h.contains(VxOp::equivalent_automorphism) && h.contains(VxOp::equivalent_even_alternated_negation)
    &&& ty != SequenceType::Williamson ==> h.contains(VxOp::equivalent_uniform_shift)
    &&& ty == SequenceType::QuaternionType ==> h.contains(VxOp::equivalent_dual_half_shift)
    &&& ty != SequenceType::QuaternionType ==> h.contains(VxOp::equivalent_single_half_shift) || h.contains(VxOp::equivalent_uniform_half_shift)
}
pub proof fn lemma_seq_comm(s: Seq<i8>, k: int)
    requires s.len() >= 1, nomin(s),
    ensures shift(neg(s), k) == neg(shift(s, k)), perm(neg(s), k) == neg(perm(s, k)), altn(neg(s)) == neg(altn(s)),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] shift(neg(s), k)[i] == neg(shift(s, k))[i] by { lemma_mod_in(i + k, s.len() as int); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] perm(neg(s), k)[i] == neg(perm(s, k))[i] by { lemma_mod_in(i * k, s.len() as int); }
    assert(shift(neg(s), k) =~= neg(shift(s, k))); assert(perm(neg(s), k) =~= neg(perm(s, k))); assert(altn(neg(s)) =~= neg(altn(s)));
}
/// these operations commute with a swap and with a negation of one sequence
pub proof fn lemma_comm_swap(ty: SequenceType, f: VxOp, q: QV, p: QV, u: SequenceTag, v: SequenceTag)
    requires wfl(q), q.n >= 1, h_op(ty, f), op_rel(f, q, p), u != v,
    ensures op_rel(f, swapq(q, u, v), swapq(p, u, v)),
{
    let m = swapq(q, u, v);
    if p != q {
        match f {
            VxOp::equivalent_uniform_shift => { let k = choose|k: int| 1 <= k < q.n && p == #[trigger] shiftq(q, k); assert(shiftq(m, k) == swapq(p, u, v)); }
            VxOp::equivalent_automorphism => { let k = choose|k: int| 1 <= k <= q.n && coprime_def(q.n, k) && p == #[trigger] permq(q, k); assert(permq(m, k) == swapq(p, u, v)); }
            VxOp::equivalent_even_alternated_negation => { assert(altq(m) == swapq(p, u, v)); }
            _ => { }
        }
    }
}
pub proof fn lemma_comm_neg(ty: SequenceType, f: VxOp, q: QV, p: QV, g: SequenceTag)
    requires wfl(q), q.n >= 1, h_op(ty, f), op_rel(f, q, p),
    ensures op_rel(f, negq(q, g), negq(p, g)),
{
    let m = negq(q, g);
    let s = get(q, g);
    if p != q {
        match f {
            VxOp::equivalent_uniform_shift => { let k = choose|k: int| 1 <= k < q.n && p == #[trigger] shiftq(q, k); lemma_seq_comm(s, k); assert(shiftq(m, k) == negq(p, g)); }
            VxOp::equivalent_automorphism => { let k = choose|k: int| 1 <= k <= q.n && coprime_def(q.n, k) && p == #[trigger] permq(q, k); lemma_seq_comm(s, k); assert(permq(m, k) == negq(p, g)); }
            VxOp::equivalent_even_alternated_negation => { lemma_seq_comm(s, 0); assert(altq(m) == negq(p, g)); }
            _ => { lemma_seq_comm(s, q.n / 2); }
        }
    }
}
pub proof fn lemma_comm_step(ty: SequenceType, f: VxOp, x: QV, x2: QV, y: QV) -> (y2: QV)
    requires wfl(x), x.n >= 1, h_op(ty, f), op_rel(f, x, x2), cstep(ty)(x, y),
    ensures op_rel(f, y, y2), cstep(ty)(x2, y2), wfl(y), y.n == x.n,
{
    lemma_wf_parts(x);
    if y == x { x2 } else if ty == SequenceType::QuaternionType {
        let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && y == #[trigger] swapq(negq(x, g), u, v);
        lemma_comm_neg(ty, f, x, x2, g);
        lemma_comm_swap(ty, f, negq(x, g), negq(x2, g), u, v);
        lemma_wf_parts(negq(x, g));
        swapq(negq(x2, g), u, v)
    } else if op_negate(x, y) {
        let g = choose|g: SequenceTag| y == #[trigger] negq(x, g);
        lemma_comm_neg(ty, f, x, x2, g);
        negq(x2, g)
    } else {
        let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && y == #[trigger] swapq(x, u, v);
        lemma_comm_swap(ty, f, x, x2, u, v);
        swapq(x2, u, v)
    }
}
/// one operation after any number of c-steps can be done before them
pub proof fn lemma_comm_chain(ty: SequenceType, f: VxOp, x: QV, x2: QV, y: QV) -> (y2: QV)
    requires wfl(x), x.n >= 1, h_op(ty, f), op_rel(f, x, x2), reach(cstep(ty), x, y),
    ensures op_rel(f, y, y2), reach(cstep(ty), x2, y2), wfl(y), y.n == x.n,
{
    let ct = cstep(ty);
    let inv = |z: QV| wfl(z) && z.n == x.n && exists|z2: QV| #[trigger] op_rel(f, z, z2) && reach(ct, x2, z2);
    lemma_reach_refl(ct, x2);
    assert(inv(x));
    assert forall|z: QV, w: QV| inv(z) && #[trigger] ct(z, w) implies inv(w) by {
        let z2 = choose|z2: QV| #[trigger] op_rel(f, z, z2) && reach(ct, x2, z2);
        let w2 = lemma_comm_step(ty, f, z, z2, w);
        lemma_reach_step(ct, x2, z2, w2);
    }
    lemma_reach_inv(ct, inv, x, y);
    choose|y2: QV| #[trigger] op_rel(f, y, y2) && reach(ct, x2, y2)
}
/// h-chains and c-chains can be exchanged
pub proof fn lemma_comm_full(ty: SequenceType, h: Seq<VxOp>, q: QV, p: QV, q2: QV) -> (p2: QV)
    requires wfl(q), q.n >= 1, h_list(ty, h), reach(step_of(h), q, p), reach(cstep(ty), q, q2),
    ensures reach(step_of(h), q2, p2), reach(cstep(ty), p, p2),
{
    let st = step_of(h);
    let ct = cstep(ty);
    let inv = |z: QV| wfl(z) && z.n == q.n && exists|z2: QV| #[trigger] reach(ct, z, z2) && reach(st, q2, z2);
    lemma_reach_refl(st, q2);
    assert(inv(q));
    assert forall|z: QV, w: QV| inv(z) && #[trigger] st(z, w) implies inv(w) by {
        let z2 = choose|z2: QV| #[trigger] reach(ct, z, z2) && reach(st, q2, z2);
        let i = choose|i: int| 0 <= i < h.len() && #[trigger] op_rel(h[i], z, w);
        lemma_op_back(h[i], z, w);
        let w2 = lemma_comm_chain(ty, h[i], z, w, z2);
        assert(st(z2, w2));
        lemma_reach_step(st, q2, z2, w2);
    }
    lemma_reach_inv(st, inv, q, p);
    choose|p2: QV| #[trigger] reach(ct, p, p2) && reach(st, q2, p2)
}
pub proof fn lemma_cback(ty: SequenceType, q: QV, p: QV)
    requires wfv(q), q.n >= 1, reach(cstep(ty), q, p),
    ensures reach(cstep(ty), p, q), wfv(p), p.n == q.n,
{
    if ty == SequenceType::QuaternionType { lemma_class_ns(q, p); } else { lemma_class_sn(q, p); }
}
pub proof fn lemma_reach_wfv(fs: Seq<VxOp>, q: QV, p: QV)
    requires wfv(q), q.n >= 1, reach(step_of(fs), q, p),
    ensures wfv(p), p.n == q.n, wfl(p),
{
    let inv = |x: QV| wfv(x) && x.n == q.n;
    assert forall|x: QV, y: QV| inv(x) && #[trigger] step_of(fs)(x, y) implies inv(y) by {
        let i = choose|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], x, y);
        lemma_op_pm(fs[i], x, y);
    }
    lemma_reach_inv(step_of(fs), inv, q, p);
    lemma_wfv_wfl(p);
}
/// the forms of q are forms of everything q is related to
pub proof fn lemma_form_step(ty: SequenceType, h: Seq<VxOp>, q: QV, q2: QV, c: QV)
    requires rep_type(ty), h_list(ty, h), wfv(q), q.n >= 1, type_step(ty)(q, q2), form(ty, h, q, c),
    ensures form(ty, h, q2, c),
{
    let f = choose|f: VxOp| type_op(ty, f) && #[trigger] op_rel(f, q, q2);
    lemma_wfv_wfl(q);
    lemma_op_back(f, q, q2);
    let p = choose|p: QV| reach(step_of(h), q, p) && #[trigger] reach(cstep(ty), p, c) && cnf(ty, c);
    lemma_reach_wfv(h, q, p);
    if h_op(ty, f) {
        let f2 = if h.contains(f) { f } else { VxOp::equivalent_uniform_half_shift };
        assert(h.contains(f2));
        let i = choose|i: int| 0 <= i < h.len() && h[i] == f2;
        assert(op_rel(h[i], q2, q));
        assert(step_of(h)(q2, q));
        lemma_reach_refl(step_of(h), q2);
        lemma_reach_step(step_of(h), q2, q2, q);
        lemma_reach_trans(step_of(h), q2, q, p);
    } else {
        assert(cstep(ty)(q, q2));
        lemma_reach_refl(cstep(ty), q);
        lemma_reach_step(cstep(ty), q, q, q2);
        let p2 = lemma_comm_full(ty, h, q, p, q2);
        lemma_cback(ty, p, p2);
        lemma_reach_trans(cstep(ty), p2, p, c);
    }
}
/// C07: related quadruples have the same representative
pub proof fn lemma_rep_eq(ty: SequenceType, h: Seq<VxOp>, q1: QV, q2: QV, r1: QV, r2: QV)
    requires rep_type(ty), h_list(ty, h), wfv(q1), q1.n >= 1, reach(type_step(ty), q1, q2), rep_of(ty, h, q1, r1), rep_of(ty, h, q2, r2),
    ensures r1 == r2,
{
    let inv = |x: QV| wfv(x) && x.n == q1.n && forall|c: QV| #[trigger] form(ty, h, x, c) <==> form(ty, h, q1, c);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] type_step(ty)(x, y) implies inv(y) by {
        let f = choose|f: VxOp| type_op(ty, f) && #[trigger] op_rel(f, x, y);
        lemma_wfv_wfl(x);
        lemma_op_pm(f, x, y);
        lemma_op_back(f, x, y);
        assert(type_step(ty)(y, x));
        assert forall|c: QV| #[trigger] form(ty, h, y, c) <==> form(ty, h, q1, c) by {
            assert(form(ty, h, x, c) <==> form(ty, h, q1, c));
            if form(ty, h, x, c) { lemma_form_step(ty, h, x, y, c); }
            if form(ty, h, y, c) { lemma_form_step(ty, h, y, x, c); }
        }
    }
    lemma_reach_inv(type_step(ty), inv, q1, q2);
    assert(form(ty, h, q1, r1) && form(ty, h, q2, r1) && form(ty, h, q2, r2) && form(ty, h, q1, r2));
    lemma_form_wf(ty, h, q1, r1); lemma_form_wf(ty, h, q1, r2);
    assert(!qlt(r1, r2) && !qlt(r2, r1));
    lemma_qlt_order(r1, r2, r1);
}
pub proof fn lemma_form_wf(ty: SequenceType, h: Seq<VxOp>, q: QV, c: QV)
    requires wfv(q), q.n >= 1, form(ty, h, q, c),
    ensures wfv(c), c.n == q.n,
{
    let p = choose|p: QV| reach(step_of(h), q, p) && #[trigger] reach(cstep(ty), p, c) && cnf(ty, c);
    lemma_reach_wfv(h, q, p);
    lemma_cback(ty, p, c);
}
/// C07: a representative is a member of the class
pub proof fn lemma_rep_in(ty: SequenceType, h: Seq<VxOp>, q: QV, c: QV)
    requires rep_type(ty), h_list(ty, h), wfv(q), q.n >= 1, form(ty, h, q, c),
    ensures reach(type_step(ty), q, c),
{
    let tt = type_step(ty);
    let p = choose|p: QV| reach(step_of(h), q, p) && #[trigger] reach(cstep(ty), p, c) && cnf(ty, c);
    let inv = |x: QV| wfv(x) && x.n == q.n && reach(tt, q, x);
    lemma_reach_refl(tt, q);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] step_of(h)(x, y) implies inv(y) by {
        let i = choose|i: int| 0 <= i < h.len() && #[trigger] op_rel(h[i], x, y);
        lemma_op_pm(h[i], x, y);
        let f = if h[i] == VxOp::equivalent_uniform_half_shift { VxOp::equivalent_single_half_shift } else { h[i] };
        assert(type_op(ty, f) && op_rel(f, x, y));
        assert(tt(x, y));
        lemma_reach_step(tt, q, x, y);
    }
    lemma_reach_inv(step_of(h), inv, q, p);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] cstep(ty)(x, y) implies inv(y) by {
        let f = if ty == SequenceType::QuaternionType { VxOp::equivalent_negate_swap } else if op_negate(x, y) { VxOp::equivalent_negate } else { VxOp::equivalent_reorder };
        assert(type_op(ty, f) && op_rel(f, x, y));
        lemma_op_pm(f, x, y);
        assert(tt(x, y));
        lemma_reach_step(tt, q, x, y);
    }
    lemma_reach_inv(cstep(ty), inv, p, c);
}

// ---------- loop invariants of the reductions ----------
pub proof fn lemma_from_upto(st: spec_fn(QV, QV) -> bool, inp: Seq<QuadSeq>, k: int)
    requires 0 <= k < inp.len(),
    ensures forall|p: QV| #[trigger] from_upto(st, inp, k + 1, p) <==> from_upto(st, inp, k, p) || reach(st, inp[k]@, p),
{
    assert forall|p: QV| #[trigger] from_upto(st, inp, k + 1, p) <==> from_upto(st, inp, k, p) || reach(st, inp[k]@, p) by {
        if from_upto(st, inp, k + 1, p) { let i = choose|i: int| 0 <= i < k + 1 && reach(st, (#[trigger] inp[i])@, p); if i < k { assert(from_upto(st, inp, k, p)); } }
        if from_upto(st, inp, k, p) { let i = choose|i: int| 0 <= i < k && reach(st, (#[trigger] inp[i])@, p); assert(reach(st, inp[i]@, p)); }
        if reach(st, inp[k]@, p) { assert(reach(st, inp[k]@, p) && 0 <= k < k + 1); }
    }
}
/// an element already reached adds nothing
pub proof fn lemma_from_skip(st: spec_fn(QV, QV) -> bool, inp: Seq<QuadSeq>, k: int)
    requires 0 <= k < inp.len(), from_upto(st, inp, k, inp[k]@),
    ensures forall|p: QV| #[trigger] from_upto(st, inp, k + 1, p) <==> from_upto(st, inp, k, p),
{
    lemma_from_upto(st, inp, k);
    let i = choose|i: int| 0 <= i < k && reach(st, (#[trigger] inp[i])@, inp[k]@);
    assert forall|p: QV| #[trigger] from_upto(st, inp, k + 1, p) <==> from_upto(st, inp, k, p) by {
        if reach(st, inp[k]@, p) { lemma_reach_trans(st, inp[i]@, inp[k]@, p); }
    }
}
pub proof fn lemma_type_step_all(ty: SequenceType)
    ensures forall|fs: Seq<VxOp>| #[trigger] is_type_ops(ty, fs) ==> step_of(fs) == type_step(ty),
{ assert forall|fs: Seq<VxOp>| #[trigger] is_type_ops(ty, fs) implies step_of(fs) == type_step(ty) by { lemma_type_step(ty, fs); } }

pub open spec fn cls_upto(st: spec_fn(QV, QV) -> bool, inp: Seq<QuadSeq>, k: int, s: Set<QV>) -> bool { exists|i: int| 0 <= i < k && is_cls(st, (#[trigger] inp[i])@, s) }
pub open spec fn covered(cs: Seq<HashSet<QuadSeq>>, q: QV) -> bool { exists|c: int| 0 <= c < cs.len() && (#[trigger] cs[c])@.contains(q) }
pub open spec fn classes_inv(fs: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, cs: Seq<HashSet<QuadSeq>>) -> bool {
    &&& forall|c: int| 0 <= c < cs.len() ==> #[trigger] cls_upto(step_of(fs), inp, k, cs[c]@)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] covered(cs, inp[i]@)
    &&& forall|c: int, d: int, p: QV| 0 <= c < d < cs.len() ==> !(#[trigger] cs[c]@.contains(p) && #[trigger] cs[d]@.contains(p))
}
pub proof fn lemma_classes_skip(fs: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, cs: Seq<HashSet<QuadSeq>>)
    requires classes_inv(fs, inp, k, cs), covered(cs, inp[k]@), 0 <= k < inp.len(),
    ensures classes_inv(fs, inp, k + 1, cs),
{
    assert forall|c: int| 0 <= c < cs.len() implies #[trigger] cls_upto(step_of(fs), inp, k + 1, cs[c]@) by {
        assert(cls_upto(step_of(fs), inp, k, cs[c]@));
        let i = choose|i: int| 0 <= i < k && is_cls(step_of(fs), (#[trigger] inp[i])@, cs[c]@);
        assert(is_cls(step_of(fs), inp[i]@, cs[c]@));
    }
}
pub proof fn lemma_classes_push(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, k: int, cs: Seq<HashSet<QuadSeq>>, s: HashSet<QuadSeq>)
    requires n >= 1, list_ok(inp, n), classes_inv(fs, inp, k, cs), !covered(cs, inp[k]@), is_cls(step_of(fs), inp[k]@, s@), 0 <= k < inp.len(),
    ensures classes_inv(fs, inp, k + 1, cs.push(s)),
{
    let st = step_of(fs);
    let c2 = cs.push(s);
    assert forall|c: int| 0 <= c < c2.len() implies #[trigger] cls_upto(st, inp, k + 1, c2[c]@) by {
        if c < cs.len() {
            assert(cls_upto(st, inp, k, cs[c]@));
            let i = choose|i: int| 0 <= i < k && is_cls(st, (#[trigger] inp[i])@, cs[c]@);
            assert(is_cls(st, inp[i]@, c2[c]@));
        } else { assert(is_cls(st, inp[k]@, c2[c]@)); }
    }
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] covered(c2, inp[i]@) by {
        if i < k {
            assert(covered(cs, inp[i]@));
            let c = choose|c: int| 0 <= c < cs.len() && (#[trigger] cs[c])@.contains(inp[i]@);
            assert(c2[c]@.contains(inp[i]@));
        } else { lemma_reach_refl(st, inp[k]@); assert(c2[cs.len() as int]@.contains(inp[k]@)); }
    }
    assert forall|c: int, d: int, p: QV| 0 <= c < d < c2.len() implies !(#[trigger] c2[c]@.contains(p) && #[trigger] c2[d]@.contains(p)) by {
        assert(c2[c] == cs[c]);
        if d < cs.len() { assert(c2[d] == cs[d]); } else if c2[c]@.contains(p) && c2[d]@.contains(p) {
            assert(cls_upto(st, inp, k, cs[c]@));
            let i = choose|i: int| 0 <= i < k && is_cls(st, (#[trigger] inp[i])@, cs[c]@);
            assert(reach(st, inp[i]@, p) && reach(st, inp[k]@, p));
            lemma_eqv_sym(fs, inp[k]@, p);
            lemma_reach_trans(st, inp[i]@, p, inp[k]@);
            assert(cs[c]@.contains(inp[k]@));
        }
    }
}
pub proof fn lemma_classes_finish(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, cs: Seq<HashSet<QuadSeq>>, out: Seq<QuadSeq>)
    requires n >= 1, list_ok(inp, n), classes_inv(fs, inp, inp.len() as int, cs), out.len() == cs.len(), forall|c: int| 0 <= c < cs.len() ==> cs[c]@.contains(#[trigger] out[c]@),
    ensures transversal(step_of(fs), inp, out),
{
    let st = step_of(fs);
    assert forall|j: int| 0 <= j < out.len() implies #[trigger] from_list(st, inp, out[j]@) by {
        assert(cls_upto(st, inp, inp.len() as int, cs[j]@));
        let i = choose|i: int| 0 <= i < inp.len() && is_cls(st, (#[trigger] inp[i])@, cs[j]@);
        assert(cs[j]@.contains(out[j]@));
        assert(reach(st, inp[i]@, out[j]@));
    }
    assert forall|i: int| 0 <= i < inp.len() implies #[trigger] into_list(st, inp[i]@, out) by {
        assert(covered(cs, inp[i]@));
        let c = choose|c: int| 0 <= c < cs.len() && (#[trigger] cs[c])@.contains(inp[i]@);
        assert(cls_upto(st, inp, inp.len() as int, cs[c]@));
        let i0 = choose|i: int| 0 <= i < inp.len() && is_cls(st, (#[trigger] inp[i])@, cs[c]@);
        assert(cs[c]@.contains(out[c]@));
        lemma_eqv_sym(fs, inp[i0]@, inp[i]@);
        lemma_reach_trans(st, inp[i]@, inp[i0]@, out[c]@);
        assert(reach(st, inp[i]@, out[c]@));
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies !reach(st, (#[trigger] out[i])@, (#[trigger] out[j])@) by {
        if reach(st, out[i]@, out[j]@) {
            assert(cls_upto(st, inp, inp.len() as int, cs[i]@));
            let i0 = choose|x: int| 0 <= x < inp.len() && is_cls(st, (#[trigger] inp[x])@, cs[i]@);
            assert(cs[i]@.contains(out[i]@)); assert(cs[j]@.contains(out[j]@));
            lemma_reach_trans(st, inp[i0]@, out[i]@, out[j]@);
            assert(cs[i]@.contains(out[j]@));
        }
    }
}
pub proof fn lemma_cls_size(fs: Seq<VxOp>, q: QV, s: Set<QV>)
    requires wfl(q), q.n >= 1, is_cls(step_of(fs), q, s),
    ensures one_size(s), s.contains(q), forall|p: QV| #[trigger] s.contains(p) ==> wfl(p) && p.n == q.n,
{
    lemma_reach_refl(step_of(fs), q);
    assert forall|p: QV| #[trigger] s.contains(p) implies wfl(p) && p.n == q.n by { lemma_eqv_sym(fs, q, p); }
}
pub proof fn lemma_cls_upto_size(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, k: int, s: Set<QV>)
    requires n >= 1, list_ok(inp, n), 0 <= k <= inp.len(), cls_upto(step_of(fs), inp, k, s),
    ensures one_size(s), exists|q: QV| s.contains(q),
{
    let i = choose|i: int| 0 <= i < k && is_cls(step_of(fs), (#[trigger] inp[i])@, s);
    lemma_cls_size(fs, inp[i]@, s);
}
// least members
pub open spec fn is_min_of(st: spec_fn(QV, QV) -> bool, q: QV, m: QV) -> bool { reach(st, q, m) && forall|p: QV| #[trigger] reach(st, q, p) ==> !qlt(p, m) }
pub open spec fn min_upto(st: spec_fn(QV, QV) -> bool, inp: Seq<QuadSeq>, k: int, m: QV) -> bool { exists|i: int| 0 <= i < k && is_min_of(st, (#[trigger] inp[i])@, m) }
pub open spec fn has_min(st: spec_fn(QV, QV) -> bool, q: QV, res: Set<QV>) -> bool { exists|m: QV| #[trigger] res.contains(m) && is_min_of(st, q, m) }
pub open spec fn par_inv(fs: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, res: Set<QV>) -> bool {
    &&& forall|p: QV| #[trigger] res.contains(p) ==> min_upto(step_of(fs), inp, k, p)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] has_min(step_of(fs), inp[i]@, res)
}
pub proof fn lemma_par_step(fs: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, res: Set<QV>, m: QV)
    requires par_inv(fs, inp, k, res), is_min_of(step_of(fs), inp[k]@, m), 0 <= k < inp.len(),
    ensures par_inv(fs, inp, k + 1, res.insert(m)),
{
    let st = step_of(fs);
    let r2 = res.insert(m);
    assert forall|p: QV| #[trigger] r2.contains(p) implies min_upto(st, inp, k + 1, p) by {
        if p == m { assert(is_min_of(st, inp[k]@, m)); } else { assert(res.contains(p)); let i = choose|i: int| 0 <= i < k && is_min_of(st, (#[trigger] inp[i])@, p); assert(is_min_of(st, inp[i]@, p)); }
    }
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] has_min(st, inp[i]@, r2) by {
        if i < k { assert(has_min(st, inp[i]@, res)); let x = choose|x: QV| #[trigger] res.contains(x) && is_min_of(st, inp[i]@, x); assert(r2.contains(x)); } else { assert(r2.contains(m)); }
    }
}
pub proof fn lemma_min_unique(fs: Seq<VxOp>, q1: QV, q2: QV, m1: QV, m2: QV)
    requires wfl(q1), wfl(q2), q1.n >= 1, is_min_of(step_of(fs), q1, m1), is_min_of(step_of(fs), q2, m2), reach(step_of(fs), q1, q2) || reach(step_of(fs), m1, m2),
    ensures m1 == m2,
{
    let st = step_of(fs);
    lemma_eqv_sym(fs, q1, m1);
    if reach(st, m1, m2) { lemma_reach_trans(st, q1, m1, m2); }
    else { lemma_reach_trans(st, q1, q2, m2); }
    // m2 is in the class of q1
    lemma_eqv_sym(fs, q1, m2);
    if reach(st, q1, q2) { lemma_eqv_sym(fs, q1, q2); lemma_reach_trans(st, q2, q1, m1); }
    else { lemma_eqv_sym(fs, m1, m2); lemma_reach_trans(st, q2, m2, m1); }
    lemma_qlt_order(m1, m2, m1);
}
pub proof fn lemma_par_finish(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, res: Set<QV>, out: Seq<QuadSeq>)
    requires n >= 1, list_ok(inp, n), par_inv(fs, inp, inp.len() as int, res), lists_set(out, res),
    ensures transversal(step_of(fs), inp, out),
{
    let st = step_of(fs);
    assert forall|j: int| 0 <= j < out.len() implies #[trigger] from_list(st, inp, out[j]@) by {
        assert(res.contains(out[j]@));
        let i = choose|i: int| 0 <= i < inp.len() && is_min_of(st, (#[trigger] inp[i])@, out[j]@);
        assert(reach(st, inp[i]@, out[j]@));
    }
    assert forall|i: int| 0 <= i < inp.len() implies #[trigger] into_list(st, inp[i]@, out) by {
        assert(has_min(st, inp[i]@, res));
        let m = choose|x: QV| #[trigger] res.contains(x) && is_min_of(st, inp[i]@, x);
        assert(in_list(out, m));
        let j = choose|j: int| 0 <= j < out.len() && (#[trigger] out[j])@ == m;
        assert(reach(st, inp[i]@, out[j]@));
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies !reach(st, (#[trigger] out[i])@, (#[trigger] out[j])@) by {
        assert(res.contains(out[i]@)); assert(res.contains(out[j]@));
        let a = choose|a: int| 0 <= a < inp.len() && is_min_of(st, (#[trigger] inp[a])@, out[i]@);
        let b = choose|b: int| 0 <= b < inp.len() && is_min_of(st, (#[trigger] inp[b])@, out[j]@);
        if reach(st, out[i]@, out[j]@) { lemma_min_unique(fs, inp[a]@, inp[b]@, out[i]@, out[j]@); }
    }
}
// removal of the related ones
pub open spec fn keeps(st: spec_fn(QV, QV) -> bool, q: QV, res: Set<QV>) -> bool { exists|p: QV| #[trigger] res.contains(p) && reach(st, q, p) }
pub open spec fn sd_inv(fs: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, res: Set<QV>) -> bool {
    &&& forall|p: QV| #[trigger] res.contains(p) ==> in_list(inp, p)
    &&& forall|i: int| 0 <= i < inp.len() ==> #[trigger] keeps(step_of(fs), inp[i]@, res)
    &&& forall|i: int, p: QV| 0 <= i < k && res.contains((#[trigger] inp[i])@) && #[trigger] res.contains(p) && reach(step_of(fs), inp[i]@, p) ==> p == inp[i]@
}
pub proof fn lemma_sd_start(fs: Seq<VxOp>, inp: Seq<QuadSeq>, res: Set<QV>)
    requires forall|p: QV| #[trigger] res.contains(p) <==> in_list(inp, p),
    ensures sd_inv(fs, inp, 0, res),
{
    assert forall|i: int| 0 <= i < inp.len() implies #[trigger] keeps(step_of(fs), inp[i]@, res) by { lemma_reach_refl(step_of(fs), inp[i]@); assert(in_list(inp, inp[i]@)); assert(res.contains(inp[i]@)); }
}
pub proof fn lemma_sd_step(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, k: int, res: Set<QV>, r2: Set<QV>)
    requires n >= 1, list_ok(inp, n), sd_inv(fs, inp, k, res), 0 <= k < inp.len(), res.contains(inp[k]@),
        forall|p: QV| #[trigger] r2.contains(p) <==> res.contains(p) && (p == inp[k]@ || !reach(step_of(fs), inp[k]@, p)),
    ensures sd_inv(fs, inp, k + 1, r2),
{
    let st = step_of(fs);
    assert forall|i: int| 0 <= i < inp.len() implies #[trigger] keeps(st, inp[i]@, r2) by {
        assert(keeps(st, inp[i]@, res));
        let p = choose|p: QV| #[trigger] res.contains(p) && reach(st, inp[i]@, p);
        if r2.contains(p) { } else {
            lemma_eqv_sym(fs, inp[k]@, p);
            lemma_reach_trans(st, inp[i]@, p, inp[k]@);
            assert(r2.contains(inp[k]@));
        }
    }
}
pub proof fn lemma_sd_finish(fs: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, res: Set<QV>, out: Seq<QuadSeq>)
    requires n >= 1, list_ok(inp, n), sd_inv(fs, inp, inp.len() as int, res), lists_set(out, res),
    ensures transversal(step_of(fs), inp, out),
{
    let st = step_of(fs);
    assert forall|j: int| 0 <= j < out.len() implies #[trigger] from_list(st, inp, out[j]@) by {
        assert(res.contains(out[j]@)); assert(in_list(inp, out[j]@));
        let i = choose|i: int| 0 <= i < inp.len() && (#[trigger] inp[i])@ == out[j]@;
        lemma_reach_refl(st, inp[i]@);
        assert(reach(st, inp[i]@, out[j]@));
    }
    assert forall|i: int| 0 <= i < inp.len() implies #[trigger] into_list(st, inp[i]@, out) by {
        assert(keeps(st, inp[i]@, res));
        let p = choose|p: QV| #[trigger] res.contains(p) && reach(st, inp[i]@, p);
        assert(in_list(out, p));
        let j = choose|j: int| 0 <= j < out.len() && (#[trigger] out[j])@ == p;
        assert(reach(st, inp[i]@, out[j]@));
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies !reach(st, (#[trigger] out[i])@, (#[trigger] out[j])@) by {
        assert(res.contains(out[i]@)); assert(res.contains(out[j]@)); assert(in_list(inp, out[i]@));
        let a = choose|a: int| 0 <= a < inp.len() && (#[trigger] inp[a])@ == out[i]@;
        if reach(st, out[i]@, out[j]@) { assert(res.contains(inp[a]@) && reach(st, inp[a]@, out[j]@)); assert(out[j]@ == inp[a]@); }
    }
}
// representatives
pub open spec fn rep_upto(ty: SequenceType, h: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, r: QV) -> bool { exists|i: int| 0 <= i < k && rep_of(ty, h, (#[trigger] inp[i])@, r) }
pub open spec fn has_rep(ty: SequenceType, h: Seq<VxOp>, q: QV, out: Seq<QuadSeq>) -> bool { exists|j: int| 0 <= j < out.len() && rep_of(ty, h, q, (#[trigger] out[j])@) }
pub open spec fn reps_inv(ty: SequenceType, h: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, seen: Set<QV>, out: Seq<QuadSeq>) -> bool {
    &&& lists_set(out, seen)
    &&& forall|j: int| 0 <= j < out.len() ==> #[trigger] rep_upto(ty, h, inp, k, out[j]@)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] has_rep(ty, h, inp[i]@, out)
}
pub proof fn lemma_reps_step(ty: SequenceType, h: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, seen: Set<QV>, out: Seq<QuadSeq>, r: QV, seen2: Set<QV>, out2: Seq<QuadSeq>)
    requires reps_inv(ty, h, inp, k, seen, out), 0 <= k < inp.len(), rep_of(ty, h, inp[k]@, r), seen2 == seen.insert(r),
        seen.contains(r) ==> out2 == out, !seen.contains(r) ==> out2.len() == out.len() + 1 && out2[out.len() as int]@ == r && forall|j: int| 0 <= j < out.len() ==> #[trigger] out2[j] == out[j],
    ensures reps_inv(ty, h, inp, k + 1, seen2, out2),
{
    assert forall|j: int| 0 <= j < out2.len() implies #[trigger] rep_upto(ty, h, inp, k + 1, out2[j]@) by {
        if j < out.len() {
            assert(out2[j] == out[j]);
            assert(rep_upto(ty, h, inp, k, out[j]@));
            let i = choose|i: int| 0 <= i < k && rep_of(ty, h, (#[trigger] inp[i])@, out[j]@);
            assert(rep_of(ty, h, inp[i]@, out2[j]@));
        } else { assert(rep_of(ty, h, inp[k]@, out2[j]@)); }
    }
    assert forall|p: QV| #[trigger] seen2.contains(p) implies in_list(out2, p) by {
        if seen.contains(p) { assert(in_list(out, p)); let i = choose|i: int| 0 <= i < out.len() && (#[trigger] out[i])@ == p; assert(out2[i]@ == p); }
        else { assert(p == r); assert(out2[out.len() as int]@ == p); }
    }
    assert forall|i: int| 0 <= i < out2.len() implies seen2.contains(#[trigger] out2[i]@) by { if i < out.len() { assert(out2[i] == out[i]); assert(seen.contains(out[i]@)); } }
    assert forall|i: int, j: int| 0 <= i < j < out2.len() implies (#[trigger] out2[i])@ != (#[trigger] out2[j])@ by {
        assert(out2[i] == out[i]); assert(seen.contains(out[i]@));
        if j < out.len() { assert(out2[j] == out[j]); }
    }
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] has_rep(ty, h, inp[i]@, out2) by {
        if i < k {
            assert(has_rep(ty, h, inp[i]@, out));
            let j = choose|j: int| 0 <= j < out.len() && rep_of(ty, h, inp[i]@, (#[trigger] out[j])@);
            assert(out2[j] == out[j]);
            assert(rep_of(ty, h, inp[i]@, out2[j]@));
        } else {
            assert(seen2.contains(r));
            assert(in_list(out2, r));
            let j = choose|j: int| 0 <= j < out2.len() && (#[trigger] out2[j])@ == r;
            assert(rep_of(ty, h, inp[k]@, out2[j]@));
        }
    }
}
pub proof fn lemma_reps_finish(ty: SequenceType, h: Seq<VxOp>, n: int, inp: Seq<QuadSeq>, seen: Set<QV>, out: Seq<QuadSeq>)
    requires rep_type(ty), h_list(ty, h), n >= 1, list_pm(inp, n), reps_inv(ty, h, inp, inp.len() as int, seen, out),
    ensures transversal(type_step(ty), inp, out),
{
    let st = type_step(ty);
    assert forall|j: int| 0 <= j < out.len() implies #[trigger] from_list(st, inp, out[j]@) by {
        assert(rep_upto(ty, h, inp, inp.len() as int, out[j]@));
        let i = choose|i: int| 0 <= i < inp.len() && rep_of(ty, h, (#[trigger] inp[i])@, out[j]@);
        lemma_rep_in(ty, h, inp[i]@, out[j]@);
        assert(reach(st, inp[i]@, out[j]@));
    }
    assert forall|i: int| 0 <= i < inp.len() implies #[trigger] into_list(st, inp[i]@, out) by {
        assert(has_rep(ty, h, inp[i]@, out));
        let j = choose|j: int| 0 <= j < out.len() && rep_of(ty, h, inp[i]@, (#[trigger] out[j])@);
        lemma_rep_in(ty, h, inp[i]@, out[j]@);
        assert(reach(st, inp[i]@, out[j]@));
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies !reach(st, (#[trigger] out[i])@, (#[trigger] out[j])@) by {
        assert(rep_upto(ty, h, inp, inp.len() as int, out[i]@)); assert(rep_upto(ty, h, inp, inp.len() as int, out[j]@));
        let a = choose|a: int| 0 <= a < inp.len() && rep_of(ty, h, (#[trigger] inp[a])@, out[i]@);
        let b = choose|b: int| 0 <= b < inp.len() && rep_of(ty, h, (#[trigger] inp[b])@, out[j]@);
        if reach(st, out[i]@, out[j]@) {
            lemma_rep_in(ty, h, inp[a]@, out[i]@); lemma_rep_in(ty, h, inp[b]@, out[j]@);
            lemma_wfv_wfl(inp[b]@);
            lemma_type_sym(ty, inp[b]@, out[j]@);
            lemma_reach_trans(st, inp[a]@, out[i]@, out[j]@);
            lemma_reach_trans(st, inp[a]@, out[j]@, inp[b]@);
            lemma_rep_eq(ty, h, inp[a]@, inp[b]@, out[i]@, out[j]@);
        }
    }
}
pub proof fn lemma_type_sym(ty: SequenceType, q: QV, p: QV)
    requires wfl(q), q.n >= 1, reach(type_step(ty), q, p),
    ensures reach(type_step(ty), p, q), wfl(p), p.n == q.n,
{ lemma_type_list(ty); lemma_eqv_sym(type_list(ty), q, p); }
/// a reduced pair has one entry exactly when the two are related
pub proof fn lemma_pair(ty: SequenceType, inp: Seq<QuadSeq>, out: Seq<QuadSeq>)
    requires inp.len() == 2, inp[0]@.n >= 1, wfl(inp[0]@), wfl(inp[1]@), inp[1]@.n == inp[0]@.n, transversal(type_step(ty), inp, out),
    ensures out.len() == 1 <==> reach(type_step(ty), inp[0]@, inp[1]@),
{
    let st = type_step(ty);
    assert(into_list(st, inp[0]@, out) && into_list(st, inp[1]@, out));
    let a = choose|j: int| 0 <= j < out.len() && reach(st, inp[0]@, (#[trigger] out[j])@);
    let b = choose|j: int| 0 <= j < out.len() && reach(st, inp[1]@, (#[trigger] out[j])@);
    lemma_type_sym(ty, inp[0]@, out[a]@);
    lemma_type_sym(ty, inp[1]@, out[b]@);
    if out.len() == 1 { lemma_reach_trans(st, inp[0]@, out[a]@, inp[1]@); }
    if reach(st, inp[0]@, inp[1]@) && out.len() != 1 {
        // every entry is related to inp[0]
        lemma_type_sym(ty, inp[0]@, inp[1]@);
        assert(from_list(st, inp, out[0]@) && from_list(st, inp, out[1]@));
        let c = choose|i: int| 0 <= i < inp.len() && reach(st, (#[trigger] inp[i])@, out[0]@);
        let d = choose|i: int| 0 <= i < inp.len() && reach(st, (#[trigger] inp[i])@, out[1]@);
        lemma_reach_refl(st, inp[0]@);
        lemma_reach_trans(st, inp[0]@, inp[c]@, out[0]@);
        lemma_reach_trans(st, inp[0]@, inp[d]@, out[1]@);
        lemma_type_sym(ty, inp[0]@, out[0]@);
        lemma_reach_trans(st, out[0]@, inp[0]@, out[1]@);
        assert(reach(st, out[0]@, out[1]@));
    }
}
pub proof fn lemma_pair_all(ty: SequenceType)
    ensures forall|inp: Seq<QuadSeq>, out: Seq<QuadSeq>| inp.len() == 2 && inp[0]@.n >= 1 && wfl(inp[0]@) && wfl(inp[1]@) && inp[1]@.n == inp[0]@.n && #[trigger] transversal(type_step(ty), inp, out)
        ==> (out.len() == 1 <==> reach(type_step(ty), inp[0]@, inp[1]@)),
{
    assert forall|inp: Seq<QuadSeq>, out: Seq<QuadSeq>| inp.len() == 2 && inp[0]@.n >= 1 && wfl(inp[0]@) && wfl(inp[1]@) && inp[1]@.n == inp[0]@.n && #[trigger] transversal(type_step(ty), inp, out)
        implies (out.len() == 1 <==> reach(type_step(ty), inp[0]@, inp[1]@)) by { lemma_pair(ty, inp, out); }
}
/// normal forms of related quadruples are related, and conversely
pub proof fn lemma_link(ty: SequenceType, q1: QV, q2: QV)
    requires rep_type(ty), wfv(q1), wfv(q2), q1.n == q2.n, q1.n >= 1,
    ensures forall|c: QV, d: QV| #[trigger] reach(cstep(ty), q1, c) && #[trigger] reach(cstep(ty), q2, d) ==> (reach(type_step(ty), c, d) <==> reach(type_step(ty), q1, q2)),
        forall|c: QV| #[trigger] reach(cstep(ty), q1, c) || reach(cstep(ty), q2, c) ==> wfl(c),
{
    let st = type_step(ty);
    assert forall|c: QV, d: QV| #[trigger] reach(cstep(ty), q1, c) && #[trigger] reach(cstep(ty), q2, d) implies (reach(st, c, d) <==> reach(st, q1, q2)) by {
        lemma_creach(ty, q1, c); lemma_creach(ty, q2, d);
        lemma_wfv_wfl(q1); lemma_wfv_wfl(q2);
        lemma_type_sym(ty, q1, c); lemma_type_sym(ty, q2, d);
        if reach(st, c, d) { lemma_reach_trans(st, q1, c, d); lemma_reach_trans(st, q1, d, q2); }
        if reach(st, q1, q2) { lemma_reach_trans(st, c, q1, q2); lemma_reach_trans(st, c, q2, d); }
    }
    assert forall|c: QV| #[trigger] reach(cstep(ty), q1, c) || reach(cstep(ty), q2, c) implies wfl(c) by {
        if reach(cstep(ty), q1, c) { lemma_cback(ty, q1, c); } else { lemma_cback(ty, q2, c); }
        lemma_wfv_wfl(c);
    }
}
pub open spec fn picked(cs: Seq<HashSet<QuadSeq>>, out: Seq<QuadSeq>, k: int) -> bool { out.len() == k && forall|c: int| 0 <= c < k ==> cs[c]@.contains(#[trigger] out[c]@) }

// the forms of qt_canonical
pub open spec fn cform(ty: SequenceType, p: QV, c: QV) -> bool { reach(cstep(ty), p, c) && cnf(ty, c) }
pub open spec fn form_upto(ty: SequenceType, s: Seq<QuadSeq>, k: int, c: QV) -> bool { exists|j: int| 0 <= j < k && cform(ty, (#[trigger] s[j])@, c) }
pub open spec fn has_form(ty: SequenceType, p: QV, out: Set<QV>) -> bool { exists|c: QV| #[trigger] out.contains(c) && cform(ty, p, c) }
pub open spec fn forms_inv(ty: SequenceType, s: Seq<QuadSeq>, k: int, out: Set<QV>) -> bool {
    &&& forall|c: QV| #[trigger] out.contains(c) ==> form_upto(ty, s, k, c)
    &&& forall|j: int| 0 <= j < k ==> #[trigger] has_form(ty, s[j]@, out)
}
pub proof fn lemma_forms_step(ty: SequenceType, s: Seq<QuadSeq>, k: int, out: Set<QV>, c: QV)
    requires forms_inv(ty, s, k, out), 0 <= k < s.len(), cform(ty, s[k]@, c),
    ensures forms_inv(ty, s, k + 1, out.insert(c)),
{
    let o2 = out.insert(c);
    assert forall|x: QV| #[trigger] o2.contains(x) implies form_upto(ty, s, k + 1, x) by {
        if x == c { assert(cform(ty, s[k]@, c)); } else { assert(out.contains(x)); let j = choose|j: int| 0 <= j < k && cform(ty, (#[trigger] s[j])@, x); assert(cform(ty, s[j]@, x)); }
    }
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] has_form(ty, s[j]@, o2) by {
        if j < k { assert(has_form(ty, s[j]@, out)); let x = choose|x: QV| #[trigger] out.contains(x) && cform(ty, s[j]@, x); assert(o2.contains(x)); } else { assert(o2.contains(c)); }
    }
}
/// the forms of one quadruple agree
pub proof fn lemma_cform_unique(ty: SequenceType, p: QV, c: QV, d: QV)
    requires rep_type(ty), wfv(p), p.n >= 1, cform(ty, p, c), cform(ty, p, d),
    ensures c == d,
{
    lemma_reach_refl(cstep(ty), p);
    if ty == SequenceType::QuaternionType { lemma_ns_form(p, p, c, d); } else { lemma_sn_form(p, p, c, d); }
}
/// the set of all forms
pub open spec fn all_forms(ty: SequenceType, h: Seq<VxOp>, q: QV, out: Set<QV>) -> bool {
    &&& forall|c: QV| #[trigger] out.contains(c) ==> form(ty, h, q, c)
    &&& forall|c: QV| #[trigger] form(ty, h, q, c) ==> out.contains(c)
}
pub proof fn lemma_forms_finish(ty: SequenceType, h: Seq<VxOp>, q: QV, cls: Set<QV>, s: Seq<QuadSeq>, out: Set<QV>)
    requires rep_type(ty), wfv(q), q.n >= 1, is_cls(step_of(h), q, cls), lists_set(s, cls), forms_inv(ty, s, s.len() as int, out),
    ensures all_forms(ty, h, q, out), exists|c: QV| out.contains(c),
{
    lemma_reach_refl(step_of(h), q);
    assert(in_list(s, q));
    let i0 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == q;
    assert(has_form(ty, s[i0]@, out));
    assert forall|c: QV| #![trigger out.contains(c)] #![trigger form(ty, h, q, c)] out.contains(c) <==> form(ty, h, q, c) by {
        if out.contains(c) {
            assert(form_upto(ty, s, s.len() as int, c));
            let j = choose|j: int| 0 <= j < s.len() && cform(ty, (#[trigger] s[j])@, c);
            assert(cls.contains(s[j]@));
            assert(reach(step_of(h), q, s[j]@) && reach(cstep(ty), s[j]@, c) && cnf(ty, c));
        }
        if form(ty, h, q, c) {
            let p = choose|p: QV| reach(step_of(h), q, p) && #[trigger] reach(cstep(ty), p, c) && cnf(ty, c);
            assert(cls.contains(p));
            assert(in_list(s, p));
            let j = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == p;
            assert(has_form(ty, s[j]@, out));
            let d = choose|d: QV| #[trigger] out.contains(d) && cform(ty, s[j]@, d);
            lemma_reach_wfv(h, q, p);
            assert(cform(ty, p, c));
            lemma_cform_unique(ty, p, c, d);
        }
    }
}
/// o is a least entry among the first k
pub open spec fn best_upto(s: Seq<&QuadSeq>, k: int, o: Option<&QuadSeq>) -> bool {
    if k == 0 { o is None } else { o is Some && in_refs(s, (o->0)@) && forall|j: int| 0 <= j < k ==> !qlt((#[trigger] s[j])@, (o->0)@) }
}
pub open spec fn in_refs(s: Seq<&QuadSeq>, p: QV) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == p }
pub open spec fn refs_wfl(s: Seq<&QuadSeq>, n: int) -> bool { forall|j: int| 0 <= j < s.len() ==> wfl((#[trigger] s[j])@) && s[j]@.n == n }
pub open spec fn refs_of(s: Seq<&QuadSeq>, set: HashSet<QuadSeq>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> set@.contains((#[trigger] s[j])@)
    &&& forall|p: QV| #[trigger] set@.contains(p) ==> 0 <= vx_pos(set, p) < s.len() && s[vx_pos(set, p)]@ == p
}
pub proof fn lemma_best_step(s: Seq<&QuadSeq>, n: int, k: int, o: Option<&QuadSeq>, o2: Option<&QuadSeq>)
    requires 0 <= k < s.len(), refs_wfl(s, n), best_upto(s, k, o), o2 is Some,
        k == 0 ==> (o2->0)@ == s[0]@,
        k > 0 ==> ((o2->0)@ == (o->0)@ && (qlt((o->0)@, s[k]@) || !qlt(s[k]@, (o->0)@))) || ((o2->0)@ == s[k]@ && (qlt(s[k]@, (o->0)@) || !qlt((o->0)@, s[k]@))),
    ensures best_upto(s, k + 1, o2),
{
    let m = (o2->0)@;
    if k == 0 { lemma_qlt_order(m, m, m); } else {
        let a = (o->0)@;
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == a;
        lemma_qlt_order(s[k]@, s[k]@, s[k]@);
        lemma_qlt_order(a, a, a); lemma_qlt_order(a, s[k]@, a); lemma_qlt_order(s[k]@, a, s[k]@);
        assert forall|j: int| 0 <= j < k + 1 implies !qlt((#[trigger] s[j])@, m) by {
            if j < k && qlt(s[j]@, m) && m != a { lemma_qlt_order(s[j]@, s[k]@, a); }
        }
        if m == a { assert(s[i]@ == m); } else { assert(s[k]@ == m); }
    }
}
pub open spec fn list_wfq(s: Seq<QuadSeq>, n: int) -> bool { forall|j: int| 0 <= j < s.len() ==> wfq(#[trigger] s[j]) && s[j]@.n == n }
pub open spec fn has_op(h: Seq<VxOp>, f: VxOp) -> bool {
    (h.len() > 0 && h[0] == f) || (h.len() > 1 && h[1] == f) || (h.len() > 2 && h[2] == f) || (h.len() > 3 && h[3] == f) || (h.len() > 4 && h[4] == f) || (h.len() > 5 && h[5] == f)
}
pub open spec fn h_short(ty: SequenceType, h: Seq<VxOp>) -> bool {
    &&& h.len() <= 6
    &&& (h.len() > 0 ==> h_op(ty, h[0])) && (h.len() > 1 ==> h_op(ty, h[1])) && (h.len() > 2 ==> h_op(ty, h[2])) && (h.len() > 3 ==> h_op(ty, h[3])) && (h.len() > 4 ==> h_op(ty, h[4])) && (h.len() > 5 ==> h_op(ty, h[5]))
    &&& has_op(h, VxOp::equivalent_automorphism) && has_op(h, VxOp::equivalent_even_alternated_negation)
    &&& ty != SequenceType::Williamson ==> has_op(h, VxOp::equivalent_uniform_shift)
    &&& ty == SequenceType::QuaternionType ==> has_op(h, VxOp::equivalent_dual_half_shift)
    &&& ty != SequenceType::QuaternionType ==> has_op(h, VxOp::equivalent_single_half_shift) || has_op(h, VxOp::equivalent_uniform_half_shift)
}
pub proof fn lemma_h_short(ty: SequenceType)
    ensures forall|h: Seq<VxOp>, n: int, s: Set<QV>| #[trigger] is_group(h, n, s) && h_short(ty, h) ==> h_list(ty, h),
{
    assert forall|h: Seq<VxOp>, n: int, s: Set<QV>| #[trigger] is_group(h, n, s) && h_short(ty, h) implies h_list(ty, h) by {
        assert forall|i: int| 0 <= i < h.len() implies h_op(ty, #[trigger] h[i]) by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5); }
        assert forall|f: VxOp| has_op(h, f) implies #[trigger] h.contains(f) by { }
    }
}
pub proof fn lemma_sd_skip(fs: Seq<VxOp>, inp: Seq<QuadSeq>, k: int, res: Set<QV>)
    requires sd_inv(fs, inp, k, res), 0 <= k < inp.len(), !res.contains(inp[k]@),
    ensures sd_inv(fs, inp, k + 1, res),
{ }
