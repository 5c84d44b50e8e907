// ===== lib/sym.rs: symbolic quadruples (entry ±k stands for ± the k-th entry of a quadruple) =====
pub open spec fn flat(q: QV, j: int) -> i8 {
    if j < q.n { q.a[j] } else if j < 2 * q.n { q.b[j - q.n] } else if j < 3 * q.n { q.c[j - 2 * q.n] } else { q.d[j - 3 * q.n] }
}
/// what a symbol stands for
pub open spec fn sval(q: QV, e: i8) -> i8 { if e < 0 { neg8(flat(q, -(e as int) - 1)) } else { flat(q, e as int - 1) } }
pub open spec fn apps(s: Seq<i8>, q: QV) -> Seq<i8> { Seq::new(s.len(), |i: int| sval(q, s[i])) }
pub open spec fn app(s: QV, q: QV) -> QV { QV { n: s.n, a: apps(s.a, q), b: apps(s.b, q), c: apps(s.c, q), d: apps(s.d, q) } }
pub open spec fn syms(s: Seq<i8>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 && -4 * n <= s[i] <= 4 * n }
pub open spec fn symb(s: QV, n: int) -> bool {
    &&& s.n == n && 1 <= n <= 31
    &&& s.a.len() == n && s.b.len() == n && s.c.len() == n && s.d.len() == n
    &&& syms(s.a, n) && syms(s.b, n) && syms(s.c, n) && syms(s.d, n)
}
/// 1, 2, .., 4n
pub open spec fn idsym(n: int) -> QV {
    QV { n, a: Seq::new(n as nat, |i: int| (i + 1) as i8), b: Seq::new(n as nat, |i: int| (i + n + 1) as i8), c: Seq::new(n as nat, |i: int| (i + 2 * n + 1) as i8), d: Seq::new(n as nat, |i: int| (i + 3 * n + 1) as i8) }
}
pub proof fn lemma_id(q: QV)
    requires wfl(q), 1 <= q.n <= 31,
    ensures app(idsym(q.n), q) == q, symb(idsym(q.n), q.n),
{
    let s = idsym(q.n);
    assert(apps(s.a, q) =~= q.a); assert(apps(s.b, q) =~= q.b); assert(apps(s.c, q) =~= q.c); assert(apps(s.d, q) =~= q.d);
}
pub proof fn lemma_symb_wfl(s: QV, n: int)
    requires symb(s, n),
    ensures wfl(s),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] s.a[i] > -128 by { assert(s.a[i] != 0); }
    assert forall|i: int| 0 <= i < n implies #[trigger] s.b[i] > -128 by { assert(s.b[i] != 0); }
    assert forall|i: int| 0 <= i < n implies #[trigger] s.c[i] > -128 by { assert(s.c[i] != 0); }
    assert forall|i: int| 0 <= i < n implies #[trigger] s.d[i] > -128 by { assert(s.d[i] != 0); }
}
pub proof fn lemma_flat(q: QV, j: int)
    requires wfl(q), 0 <= j < 4 * q.n,
    ensures flat(q, j) > -128,
{
    if j < q.n { assert(q.a[j] > -128); } else if j < 2 * q.n { assert(q.b[j - q.n] > -128); } else if j < 3 * q.n { assert(q.c[j - 2 * q.n] > -128); } else { assert(q.d[j - 3 * q.n] > -128); }
}
/// the action commutes with everything done entry by entry
pub proof fn lemma_apps(s: Seq<i8>, q: QV)
    requires wfl(q), 1 <= q.n <= 31, s.len() >= 1, syms(s, q.n),
    ensures
        neg(apps(s, q)) == apps(neg(s), q), syms(neg(s), q.n),
        altn(apps(s, q)) == apps(altn(s), q), syms(altn(s), q.n),
        rev(apps(s, q)) == apps(rev(s), q), syms(rev(s), q.n),
        forall|k: int| shift(apps(s, q), k) == apps(#[trigger] shift(s, k), q) && syms(shift(s, k), q.n),
        forall|k: int| perm(apps(s, q), k) == apps(#[trigger] perm(s, k), q) && syms(perm(s, k), q.n),
        nomin(apps(s, q)),
{
    let t = apps(s, q); let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] s[i] != 0 && -124 <= s[i] <= 124 && sval(q, neg8(s[i])) == neg8(sval(q, s[i])) && sval(q, s[i]) > -128 by {
        let e = s[i] as int;
        assert(s[i] != 0);
        if e < 0 { lemma_flat(q, -e - 1); } else { lemma_flat(q, e - 1); }
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] t[i] > -128 by { assert(s[i] != 0); }
    assert forall|i: int| 0 <= i < n implies #[trigger] neg(s)[i] != 0 && neg(t)[i] == apps(neg(s), q)[i] by { assert(s[i] != 0); }
    assert(neg(t) =~= apps(neg(s), q));
    assert forall|i: int| 0 <= i < n implies #[trigger] altn(s)[i] != 0 && altn(t)[i] == apps(altn(s), q)[i] by { assert(s[i] != 0); }
    assert(altn(t) =~= apps(altn(s), q));
    assert(rev(t) =~= apps(rev(s), q));
    assert forall|i: int| 0 <= i < n implies #[trigger] neg(s)[i] != 0 && -4 * q.n <= neg(s)[i] <= 4 * q.n by { assert(s[i] != 0); }
    assert forall|i: int| 0 <= i < n implies #[trigger] altn(s)[i] != 0 && -4 * q.n <= altn(s)[i] <= 4 * q.n by { assert(s[i] != 0); }
    assert forall|i: int| 0 <= i < n implies #[trigger] rev(s)[i] != 0 && -4 * q.n <= rev(s)[i] <= 4 * q.n by { assert(s[n - 1 - i] != 0); }
    assert forall|k: int| shift(t, k) == apps(#[trigger] shift(s, k), q) && syms(shift(s, k), q.n) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] shift(s, k)[i] != 0 && -4 * q.n <= shift(s, k)[i] <= 4 * q.n && shift(t, k)[i] == apps(shift(s, k), q)[i] by { lemma_mod_in(i + k, n); assert(s[(i + k) % n] != 0); }
        assert(shift(t, k) =~= apps(shift(s, k), q));
    }
    assert forall|k: int| perm(t, k) == apps(#[trigger] perm(s, k), q) && syms(perm(s, k), q.n) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] perm(s, k)[i] != 0 && -4 * q.n <= perm(s, k)[i] <= 4 * q.n && perm(t, k)[i] == apps(perm(s, k), q)[i] by { lemma_mod_in(i * k, n); assert(s[(i * k) % n] != 0); }
        assert(perm(t, k) =~= apps(perm(s, k), q));
    }
}
pub proof fn lemma_app_parts(s: QV, q: QV)
    requires wfl(q), symb(s, q.n),
    ensures
        wfl(app(s, q)), app(s, q).n == q.n,
        forall|t: SequenceTag| negq(app(s, q), t) == app(#[trigger] negq(s, t), q) && symb(negq(s, t), q.n),
        forall|t: SequenceTag, u: SequenceTag| swapq(app(s, q), t, u) == app(#[trigger] swapq(s, t, u), q) && symb(swapq(s, t, u), q.n),
        forall|k: int| shiftq(app(s, q), k) == app(#[trigger] shiftq(s, k), q) && symb(shiftq(s, k), q.n),
        forall|k: int| permq(app(s, q), k) == app(#[trigger] permq(s, k), q) && symb(permq(s, k), q.n),
        altq(app(s, q)) == app(altq(s), q), symb(altq(s), q.n),
        revq(app(s, q)) == app(revq(s), q), symb(revq(s), q.n),
        forall|h: int, wa: bool, wb: bool, wc: bool, wd: bool| hshift(app(s, q), h, wa, wb, wc, wd) == app(#[trigger] hshift(s, h, wa, wb, wc, wd), q) && symb(hshift(s, h, wa, wb, wc, wd), q.n),
{
    lemma_apps(s.a, q); lemma_apps(s.b, q); lemma_apps(s.c, q); lemma_apps(s.d, q);
}
/// an operation applied to symbols is the operation applied to what they stand for
pub proof fn lemma_op_sym(f: VxOp, s: QV, t: QV, q: QV)
    requires wfl(q), symb(s, q.n), op_rel(f, s, t),
    ensures op_rel(f, app(s, q), app(t, q)), symb(t, q.n),
{
    lemma_app_parts(s, q);
    let y = app(s, q);
    match f {
        VxOp::equivalent_uniform_shift => { if t != s { let k = choose|k: int| 1 <= k < s.n && t == #[trigger] shiftq(s, k); assert(app(t, q) == shiftq(y, k)); } }
        VxOp::equivalent_automorphism => { if t != s { let k = choose|k: int| 1 <= k <= s.n && coprime_def(s.n, k) && t == #[trigger] permq(s, k); assert(app(t, q) == permq(y, k)); } }
        VxOp::equivalent_negate => { if t != s { let g = choose|g: SequenceTag| t == #[trigger] negq(s, g); assert(app(t, q) == negq(y, g)); } }
        VxOp::equivalent_reorder => { if t != s { let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && t == #[trigger] swapq(s, u, v); assert(app(t, q) == swapq(y, u, v)); } }
        VxOp::equivalent_negate_swap => { if t != s {
            let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && t == #[trigger] swapq(negq(s, g), u, v);
            lemma_app_parts(negq(s, g), q); assert(app(t, q) == swapq(negq(y, g), u, v));
        } }
        VxOp::equivalent_double_negate => { if t != s {
            let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && t == #[trigger] negq(negq(s, u), v);
            lemma_app_parts(negq(s, u), q); assert(app(t, q) == negq(negq(y, u), v));
        } }
        VxOp::equivalent_disjoint_swaps => { let (w, x, y, z) = (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z); lemma_app_parts(swapq(s, w, x), q); lemma_app_parts(swapq(s, w, y), q); lemma_app_parts(swapq(s, w, z), q); }
        VxOp::equivalent_double_reorder => {
            let (u, v, a, b) = choose|u: SequenceTag, v: SequenceTag, a: SequenceTag, b: SequenceTag| u != v && a != b && t == #[trigger] swapq(swapq(s, u, v), a, b);
            lemma_app_parts(swapq(s, u, v), q); assert(app(t, q) == swapq(swapq(y, u, v), a, b));
        }
        _ => {}
    }
}
/// .. and nothing else comes out
pub proof fn lemma_op_lift(f: VxOp, s: QV, q: QV, p: QV) -> (t: QV)
    requires wfl(q), symb(s, q.n), op_rel(f, app(s, q), p),
    ensures op_rel(f, s, t), p == app(t, q), symb(t, q.n),
{
    lemma_app_parts(s, q);
    let y = app(s, q);
    if p == y && f != VxOp::equivalent_double_reorder { s } else {
        match f {
            VxOp::equivalent_uniform_shift => { let k = choose|k: int| 1 <= k < s.n && p == #[trigger] shiftq(y, k); shiftq(s, k) }
            VxOp::equivalent_automorphism => { let k = choose|k: int| 1 <= k <= s.n && coprime_def(s.n, k) && p == #[trigger] permq(y, k); permq(s, k) }
            VxOp::equivalent_negate => { let g = choose|g: SequenceTag| p == #[trigger] negq(y, g); negq(s, g) }
            VxOp::equivalent_reorder => { let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] swapq(y, u, v); swapq(s, u, v) }
            VxOp::equivalent_negate_swap => {
                let (u, v, g) = choose|u: SequenceTag, v: SequenceTag, g: SequenceTag| u != v && p == #[trigger] swapq(negq(y, g), u, v);
                lemma_app_parts(negq(s, g), q); swapq(negq(s, g), u, v)
            }
            VxOp::equivalent_double_negate => {
                let (u, v) = choose|u: SequenceTag, v: SequenceTag| u != v && p == #[trigger] negq(negq(y, u), v);
                lemma_app_parts(negq(s, u), q); negq(negq(s, u), v)
            }
            VxOp::equivalent_disjoint_swaps => {
                let (w, x, yy, z) = (SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z);
                lemma_app_parts(swapq(s, w, x), q); lemma_app_parts(swapq(s, w, yy), q); lemma_app_parts(swapq(s, w, z), q);
                if p == swapq(swapq(y, w, x), yy, z) { swapq(swapq(s, w, x), yy, z) } else if p == swapq(swapq(y, w, yy), x, z) { swapq(swapq(s, w, yy), x, z) } else { swapq(swapq(s, w, z), x, yy) }
            }
            VxOp::equivalent_double_reorder => {
                let (u, v, a, b) = choose|u: SequenceTag, v: SequenceTag, a: SequenceTag, b: SequenceTag| u != v && a != b && p == #[trigger] swapq(swapq(y, u, v), a, b);
                lemma_app_parts(swapq(s, u, v), q); swapq(swapq(s, u, v), a, b)
            }
            VxOp::equivalent_even_alternated_negation => altq(s),
            VxOp::equivalent_alternated_negation => altq(s),
            VxOp::equivalent_reverse => revq(s),
            VxOp::equivalent_dual_half_shift => {
                let h = s.n / 2;
                if p == hshift(y, h, true, true, false, false) { hshift(s, h, true, true, false, false) }
                else if p == hshift(y, h, true, false, true, false) { hshift(s, h, true, false, true, false) }
                else if p == hshift(y, h, true, false, false, true) { hshift(s, h, true, false, false, true) }
                else if p == hshift(y, h, false, true, true, false) { hshift(s, h, false, true, true, false) }
                else if p == hshift(y, h, false, true, false, true) { hshift(s, h, false, true, false, true) }
                else if p == hshift(y, h, false, false, true, true) { hshift(s, h, false, false, true, true) }
                else { hshift(s, h, true, true, true, true) }
            }
            _ => {
                let h = s.n / 2;
                if p == hshift(y, h, true, false, false, false) { hshift(s, h, true, false, false, false) }
                else if p == hshift(y, h, false, true, false, false) { hshift(s, h, false, true, false, false) }
                else if p == hshift(y, h, false, false, true, false) { hshift(s, h, false, false, true, false) }
                else { hshift(s, h, false, false, false, true) }
            }
        }
    }
}
pub open spec fn is_group(fs: Seq<VxOp>, n: int, g: Set<QV>) -> bool { forall|s: QV| #[trigger] g.contains(s) <==> reach(step_of(fs), idsym(n), s) }
pub open spec fn has_app(g: Set<QV>, q: QV, p: QV) -> bool { exists|s: QV| #[trigger] g.contains(s) && p == app(s, q) }
pub proof fn lemma_group_syms(fs: Seq<VxOp>, n: int, s: QV)
    requires 1 <= n <= 31, reach(step_of(fs), idsym(n), s),
    ensures symb(s, n),
{
    let z = Seq::new(n as nat, |i: int| 0i8);
    let q = QV { n, a: z, b: z, c: z, d: z };
    lemma_id(q);
    let inv = |x: QV| symb(x, n);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] step_of(fs)(x, y) implies inv(y) by {
        let i = choose|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], x, y);
        lemma_op_sym(fs[i], x, y, q);
    }
    lemma_reach_inv(step_of(fs), inv, idsym(n), s);
}
/// C08: the action of the symbolic group gives the class
pub proof fn lemma_group_class(fs: Seq<VxOp>, g: Set<QV>, q: QV, p: QV)
    requires wfl(q), 1 <= q.n <= 31, is_group(fs, q.n, g),
    ensures has_app(g, q, p) <==> reach(step_of(fs), q, p),
{
    let st = step_of(fs);
    let n = q.n;
    lemma_id(q);
    if has_app(g, q, p) {
        let s = choose|s: QV| #[trigger] g.contains(s) && p == app(s, q);
        let inv = |x: QV| symb(x, n) && reach(st, q, app(x, q));
        lemma_reach_refl(st, q);
        assert forall|x: QV, y: QV| inv(x) && #[trigger] st(x, y) implies inv(y) by {
            let i = choose|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], x, y);
            lemma_op_sym(fs[i], x, y, q);
            assert(st(app(x, q), app(y, q)));
            lemma_reach_step(st, q, app(x, q), app(y, q));
        }
        lemma_reach_inv(st, inv, idsym(n), s);
    }
    if reach(st, q, p) {
        let inv = |x: QV| exists|s: QV| #[trigger] g.contains(s) && symb(s, n) && x == app(s, q);
        lemma_reach_refl(st, idsym(n));
        assert(g.contains(idsym(n)));
        assert forall|x: QV, y: QV| inv(x) && #[trigger] st(x, y) implies inv(y) by {
            let s = choose|s: QV| #[trigger] g.contains(s) && symb(s, n) && x == app(s, q);
            let i = choose|i: int| 0 <= i < fs.len() && #[trigger] op_rel(fs[i], x, y);
            let t = lemma_op_lift(fs[i], s, q, y);
            assert(st(s, t));
            lemma_reach_step(st, idsym(n), s, t);
            assert(g.contains(t));
        }
        lemma_reach_inv(st, inv, q, p);
    }
}
/// the entries of a symbolic quadruple in order
pub proof fn lemma_all_syms(s: QV, q: QV)
    requires symb(s, q.n), wfl(q),
    ensures
        (s.a + s.b + s.c + s.d).len() == 4 * q.n,
        forall|j: int| 0 <= j < 4 * q.n ==> {
            let e = #[trigger] (s.a + s.b + s.c + s.d)[j] as int;
            e != 0 && -4 * q.n <= e <= 4 * q.n && flat(q, (if e < 0 { -e } else { e }) - 1) > -128
        },
        forall|j: int| 0 <= j < q.n ==> (s.a + s.b + s.c + s.d)[j] == #[trigger] s.a[j] && (s.a + s.b + s.c + s.d)[j + q.n] == #[trigger] s.b[j]
            && (s.a + s.b + s.c + s.d)[j + 2 * q.n] == #[trigger] s.c[j] && (s.a + s.b + s.c + s.d)[j + 3 * q.n] == #[trigger] s.d[j],
{
    let n = q.n;
    let all = s.a + s.b + s.c + s.d;
    assert forall|j: int| 0 <= j < 4 * n implies {
            let e = #[trigger] all[j] as int;
            e != 0 && -4 * n <= e <= 4 * n && flat(q, (if e < 0 { -e } else { e }) - 1) > -128
        } by {
        if j < n { assert(all[j] == s.a[j]); assert(s.a[j] != 0); }
        else if j < 2 * n { assert(all[j] == s.b[j - n]); assert(s.b[j - n] != 0); }
        else if j < 3 * n { assert(all[j] == s.c[j - 2 * n]); assert(s.c[j - 2 * n] != 0); }
        else { assert(all[j] == s.d[j - 3 * n]); assert(s.d[j - 3 * n] != 0); }
        let e = all[j] as int;
        lemma_flat(q, (if e < 0 { -e } else { e }) - 1);
    }
}
/// which of the four sequences a position belongs to
pub proof fn lemma_block(m: int, n: int)
    requires 0 <= m < 4 * n, n >= 1,
    ensures
        m < n ==> m % n == m && m / n == 0 && (m - m % n) / n == 0,
        n <= m < 2 * n ==> m % n == m - n && m / n == 1 && (m - m % n) / n == 1,
        2 * n <= m < 3 * n ==> m % n == m - 2 * n && m / n == 2 && (m - m % n) / n == 2,
        3 * n <= m < 4 * n ==> m % n == m - 3 * n && m / n == 3 && (m - m % n) / n == 3,
{
    let k = if m < n { 0int } else if m < 2 * n { 1int } else if m < 3 * n { 2int } else { 3int };
    let r = m - k * n;
    assert(0 <= r < n) by (nonlinear_arith) requires r == m - k * n, 0 <= m < 4 * n, k == (if m < n { 0int } else if m < 2 * n { 1int } else if m < 3 * n { 2int } else { 3int });
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, n, k, r);
    assert(m - m % n == k * n);
    assert((k * n) / n == k) by (nonlinear_arith) requires n >= 1;
}
