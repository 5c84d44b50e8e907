// ===== lib/rowsorted.rs: rowsums of valid quadruples, and sorting them within a class =====

// ---------- the squares sum to 4n
pub open spec fn row_f(g: spec_fn(int, int) -> int, j: int) -> spec_fn(int) -> int { |i: int| g(i, j) }
pub open spec fn col_f(g: spec_fn(int, int) -> int, i: int) -> spec_fn(int) -> int { |j: int| g(i, j) }
pub open spec fn rows_f(g: spec_fn(int, int) -> int, n: int) -> spec_fn(int) -> int { |j: int| sum(row_f(g, j), n) }
pub open spec fn cols_f(g: spec_fn(int, int) -> int, m: int) -> spec_fn(int) -> int { |i: int| sum(col_f(g, i), m) }
pub proof fn lemma_zero_sum(f: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0,
    ensures sum(f, n) == 0,
    decreases n,
{ if n > 0 { lemma_zero_sum(f, n - 1); assert(f(n - 1) == 0); } }
pub proof fn lemma_fubini(g: spec_fn(int, int) -> int, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures sum(rows_f(g, n), m) == sum(cols_f(g, m), n),
    decreases m,
{
    if m == 0 {
        assert forall|i: int| 0 <= i < n implies #[trigger] cols_f(g, 0)(i) == 0 by { }
        lemma_zero_sum(cols_f(g, 0), n);
    } else {
        lemma_fubini(g, n, m - 1);
        let h = row_f(g, m - 1);
        assert forall|i: int| 0 <= i < n implies #[trigger] cols_f(g, m)(i) == cols_f(g, m - 1)(i) + h(i) by { assert(col_f(g, i)(m - 1) == g(i, m - 1)); }
        lemma_sum_add(cols_f(g, m - 1), h, cols_f(g, m), n);
        assert(rows_f(g, n)(m - 1) == sum(h, n));
    }
}
pub proof fn lemma_sum_scale(f: spec_fn(int) -> int, h: spec_fn(int) -> int, k: int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == k * f(i),
    ensures sum(h, n) == k * sum(f, n),
    decreases n,
{
    if n > 0 {
        lemma_sum_scale(f, h, k, n - 1);
        assert(h(n - 1) == k * f(n - 1));
        assert(k * (sum(f, n - 1) + f(n - 1)) == k * sum(f, n - 1) + k * f(n - 1)) by(nonlinear_arith);
    } else { assert(k * 0 == 0); }
}
pub open spec fn autos(s: Seq<i8>) -> spec_fn(int) -> int { |t: int| auto(s, t) }
/// the autocorrelations of all offsets add up to the square of the rowsum
pub proof fn lemma_auto_total(s: Seq<i8>)
    requires s.len() > 0,
    ensures sum(autos(s), s.len() as int) == rowsum_of(s) * rowsum_of(s),
{
    let n = s.len() as int; let big = rowsum_of(s);
    let g = |i: int, t: int| s[i] * s[(i + t) % n];
    assert forall|t: int| 0 <= t < n implies #[trigger] autos(s)(t) == rows_f(g, n)(t) by { lemma_sum_ext(auto_f(s, t), row_f(g, t), n); }
    lemma_sum_ext(autos(s), rows_f(g, n), n);
    lemma_fubini(g, n, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] cols_f(g, n)(i) == big * rowsum_f(s)(i) by {
        let sh = |t: int| rowsum_f(s)((t + i) % n);
        lemma_sum_shift(rowsum_f(s), i, n);
        lemma_sum_ext(sh, |t: int| rowsum_f(s)((t + i) % n), n);
        assert forall|t: int| 0 <= t < n implies #[trigger] col_f(g, i)(t) == s[i] * sh(t) by { assert(t + i == i + t); }
        lemma_sum_scale(sh, col_f(g, i), s[i] as int, n);
        assert(s[i] * big == big * s[i]) by(nonlinear_arith);
    }
    lemma_sum_scale(rowsum_f(s), cols_f(g, n), big, n);
}
pub proof fn lemma_auto_zero(s: Seq<i8>)
    requires pm(s),
    ensures auto(s, 0) == s.len(),
{
    let n = s.len() as int;
    let one = |i: int| 1int;
    assert forall|i: int| 0 <= i < n implies #[trigger] auto_f(s, 0)(i) == one(i) by { lemma_mod_range(i, n); assert(s[i] == 1 || s[i] == -1); lemma_pm_mul(s[i], s[i]); }
    lemma_sum_ext(auto_f(s, 0), one, n);
    lemma_ones_sum(n);
}
pub proof fn lemma_ones_sum(n: int)
    requires n >= 0,
    ensures sum(|i: int| 1int, n) == n,
    decreases n,
{ if n > 0 { lemma_ones_sum(n - 1); } }
/// the squares of the rowsums of a complementary quadruple add up to 4n
pub proof fn lemma_squares(q: QV)
    requires wfv(q), q.n >= 1, complementary(q),
    ensures sqs(rs4(q)) == 4 * q.n,
{
    let n = q.n;
    let ab = |t: int| auto(q.a, t) + auto(q.b, t); let cd = |t: int| auto(q.c, t) + auto(q.d, t); let all = |t: int| ab(t) + cd(t);
    lemma_auto_total(q.a); lemma_auto_total(q.b); lemma_auto_total(q.c); lemma_auto_total(q.d);
    lemma_sum_add(autos(q.a), autos(q.b), ab, n); lemma_sum_add(autos(q.c), autos(q.d), cd, n); lemma_sum_add(ab, cd, all, n);
    lemma_auto_zero(q.a); lemma_auto_zero(q.b); lemma_auto_zero(q.c); lemma_auto_zero(q.d);
    let first = |t: int| if t == 0 { 4 * n } else { 0int };
    assert forall|t: int| 0 <= t < n implies #[trigger] all(t) == first(t) by { if t > 0 { assert(compl_at(q, t)); } }
    lemma_sum_ext(all, first, n);
    lemma_first_sum(4 * n, n);
}
pub proof fn lemma_first_sum(v: int, n: int)
    requires n >= 1,
    ensures sum(|t: int| if t == 0 { v } else { 0int }, n) == v,
    decreases n,
{
    let f = |t: int| if t == 0 { v } else { 0int };
    if n > 1 { lemma_first_sum(v, n - 1); } else { assert(sum(f, 0) == 0); assert(sum(f, 1) == sum(f, 0) + f(0)); }
}
// ---------- parity and size
pub proof fn lemma_parity(s: Seq<i8>)
    requires pm(s),
    ensures rowsum_of(s) % 2 == (s.len() as int) % 2, -s.len() <= rowsum_of(s) <= s.len(),
{ lemma_parity_upto(s, s.len() as int); }
pub proof fn lemma_parity_upto(s: Seq<i8>, n: int)
    requires pm(s), 0 <= n <= s.len(),
    ensures sum(rowsum_f(s), n) % 2 == n % 2, -n <= sum(rowsum_f(s), n) <= n,
    decreases n,
{ if n > 0 { lemma_parity_upto(s, n - 1); assert(s[n - 1] == 1 || s[n - 1] == -1); } }
pub proof fn lemma_neg_rowsum(s: Seq<i8>)
    requires pm(s),
    ensures rowsum_of(neg(s)) == -rowsum_of(s), pm(neg(s)), neg(s).len() == s.len(),
{
    lemma_neg_pm(s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] rowsum_f(neg(s))(i) == -rowsum_f(s)(i) by { assert(s[i] == 1 || s[i] == -1); }
    lemma_sum_neg(rowsum_f(neg(s)), rowsum_f(s), s.len() as int);
}
// ---------- moving inside the class
/// p is in the class of q, of the same length, and has rowsums r
pub open spec fn at_rs(ty: SequenceType, q: QV, p: QV, r: R4) -> bool { wfv(p) && p.n == q.n && related(ty, q, p) && rs4(p) == r }
pub open spec fn can(ty: SequenceType, q: QV, r: R4) -> bool { exists|p: QV| #[trigger] at_rs(ty, q, p, r) }
pub open spec fn gr(r: R4, t: SequenceTag) -> int { match t { SequenceTag::W => r.w, SequenceTag::X => r.x, SequenceTag::Y => r.y, SequenceTag::Z => r.z } }
pub open spec fn sr(r: R4, t: SequenceTag, v: int) -> R4 {
    match t { SequenceTag::W => R4 { w: v, ..r }, SequenceTag::X => R4 { x: v, ..r }, SequenceTag::Y => R4 { y: v, ..r }, SequenceTag::Z => R4 { z: v, ..r } }
}
pub open spec fn nr(r: R4, t: SequenceTag) -> R4 { sr(r, t, -gr(r, t)) }
pub open spec fn wr(r: R4, u: SequenceTag, v: SequenceTag) -> R4 { sr(sr(r, u, gr(r, v)), v, gr(r, u)) }
pub proof fn lemma_related_step(ty: SequenceType, q: QV, p: QV, f: VxOp, x: QV)
    requires related(ty, q, p), type_op(ty, f), op_rel(f, p, x),
    ensures related(ty, q, x),
{
    assert forall|fs: Seq<VxOp>| #[trigger] is_type_ops(ty, fs) implies reach(step_of(fs), q, x) by {
        lemma_type_step(ty, fs);
        assert(type_step(ty)(p, x));
        lemma_reach_step(step_of(fs), q, p, x);
    }
}
pub proof fn lemma_can_start(ty: SequenceType, q: QV)
    requires wfv(q),
    ensures can(ty, q, rs4(q)),
{
    assert forall|fs: Seq<VxOp>| #[trigger] is_type_ops(ty, fs) implies reach(step_of(fs), q, q) by { lemma_reach_refl(step_of(fs), q); }
    assert(at_rs(ty, q, q, rs4(q)));
}
/// Quaternion-type: negate one sequence and swap two
pub proof fn lemma_can_ns(q: QV, r: R4, u: SequenceTag, v: SequenceTag, g: SequenceTag)
    requires can(SequenceType::QuaternionType, q, r), u != v,
    ensures can(SequenceType::QuaternionType, q, wr(nr(r, g), u, v)),
{
    let ty = SequenceType::QuaternionType;
    let p = choose|p: QV| #[trigger] at_rs(ty, q, p, r);
    let x = swapq(negq(p, g), u, v);
    lemma_neg_rowsum(get(p, g));
    assert(op_negate_swap(p, x));
    assert(op_rel(VxOp::equivalent_negate_swap, p, x));
    lemma_related_step(ty, q, p, VxOp::equivalent_negate_swap, x);
    assert(at_rs(ty, q, x, wr(nr(r, g), u, v)));
}
/// Williamson and Williamson-type: negate one sequence; swap two
pub open spec fn wtype(ty: SequenceType) -> bool { ty == SequenceType::WilliamsonType || ty == SequenceType::Williamson }
pub proof fn lemma_can_neg(ty: SequenceType, q: QV, r: R4, g: SequenceTag)
    requires can(ty, q, r), wtype(ty),
    ensures can(ty, q, nr(r, g)),
{
    let p = choose|p: QV| #[trigger] at_rs(ty, q, p, r);
    let x = negq(p, g);
    lemma_neg_rowsum(get(p, g));
    assert(op_negate(p, x)); assert(op_rel(VxOp::equivalent_negate, p, x));
    lemma_related_step(ty, q, p, VxOp::equivalent_negate, x);
    assert(at_rs(ty, q, x, nr(r, g)));
}
pub proof fn lemma_can_swap(ty: SequenceType, q: QV, r: R4, u: SequenceTag, v: SequenceTag)
    requires can(ty, q, r), wtype(ty), u != v,
    ensures can(ty, q, wr(r, u, v)),
{
    let p = choose|p: QV| #[trigger] at_rs(ty, q, p, r);
    let x = swapq(p, u, v);
    assert(op_reorder(p, x)); assert(op_rel(VxOp::equivalent_reorder, p, x));
    lemma_related_step(ty, q, p, VxOp::equivalent_reorder, x);
    assert(at_rs(ty, q, x, wr(r, u, v)));
}
/// both: put the entries u, v in the order of their absolute values (signs may change)
pub open spec fn type3(ty: SequenceType) -> bool { ty == SequenceType::QuaternionType || wtype(ty) }
pub open spec fn cmpx(r: R4, u: SequenceTag, v: SequenceTag, s: R4) -> bool {
    let (a, b) = (abs(gr(r, u)), abs(gr(r, v)));
    &&& abs(gr(s, u)) == (if a <= b { a } else { b }) && abs(gr(s, v)) == (if a <= b { b } else { a })
    &&& forall|t: SequenceTag| t != u && t != v ==> #[trigger] gr(s, t) == gr(r, t)
    &&& sqs(s) == sqs(r)
}
pub proof fn lemma_negsq(x: int)
    ensures (-x) * (-x) == x * x,
{ assert((-x) * (-x) == x * x) by(nonlinear_arith); }
pub proof fn lemma_sqs(r: R4, u: SequenceTag, v: SequenceTag)
    ensures u != v ==> sqs(wr(r, u, v)) == sqs(r), sqs(nr(r, u)) == sqs(r),
{ lemma_negsq(gr(r, u)); }
pub proof fn lemma_cmpx(ty: SequenceType, q: QV, r: R4, u: SequenceTag, v: SequenceTag) -> (s: R4)
    requires can(ty, q, r), type3(ty), u != v,
    ensures can(ty, q, s), cmpx(r, u, v, s),
{
    if abs(gr(r, u)) <= abs(gr(r, v)) { r }
    else if wtype(ty) { lemma_can_swap(ty, q, r, u, v); lemma_sqs(r, u, v); wr(r, u, v) }
    else { lemma_can_ns(q, r, u, v, u); lemma_sqs(r, u, v); lemma_sqs(nr(r, u), u, v); wr(nr(r, u), u, v) }
}
pub open spec fn abs_sorted(r: R4) -> bool { abs(r.w) <= abs(r.x) <= abs(r.y) && abs(r.y) <= abs(r.z) }
pub proof fn lemma_sort_abs(ty: SequenceType, q: QV, r0: R4) -> (s: R4)
    requires can(ty, q, r0), type3(ty),
    ensures can(ty, q, s), abs_sorted(s), sqs(s) == sqs(r0),
{
    let r1 = lemma_cmpx(ty, q, r0, SequenceTag::W, SequenceTag::X);
    let r2 = lemma_cmpx(ty, q, r1, SequenceTag::X, SequenceTag::Y);
    let r3 = lemma_cmpx(ty, q, r2, SequenceTag::Y, SequenceTag::Z);
    let r4_ = lemma_cmpx(ty, q, r3, SequenceTag::W, SequenceTag::X);
    let r5 = lemma_cmpx(ty, q, r4_, SequenceTag::X, SequenceTag::Y);
    let r6 = lemma_cmpx(ty, q, r5, SequenceTag::W, SequenceTag::X);
    lemma_cmpx_rest(r0, SequenceTag::W, SequenceTag::X, r1); lemma_cmpx_rest(r1, SequenceTag::X, SequenceTag::Y, r2); lemma_cmpx_rest(r2, SequenceTag::Y, SequenceTag::Z, r3);
    lemma_cmpx_rest(r3, SequenceTag::W, SequenceTag::X, r4_); lemma_cmpx_rest(r4_, SequenceTag::X, SequenceTag::Y, r5); lemma_cmpx_rest(r5, SequenceTag::W, SequenceTag::X, r6);
    r6
}
pub proof fn lemma_cmpx_rest(r: R4, u: SequenceTag, v: SequenceTag, s: R4)
    requires cmpx(r, u, v, s),
    ensures u != SequenceTag::W && v != SequenceTag::W ==> s.w == r.w, u != SequenceTag::X && v != SequenceTag::X ==> s.x == r.x,
        u != SequenceTag::Y && v != SequenceTag::Y ==> s.y == r.y, u != SequenceTag::Z && v != SequenceTag::Z ==> s.z == r.z,
{
    assert(gr(s, SequenceTag::W) == s.w && gr(s, SequenceTag::X) == s.x && gr(s, SequenceTag::Y) == s.y && gr(s, SequenceTag::Z) == s.z);
    if u != SequenceTag::W && v != SequenceTag::W { assert(gr(s, SequenceTag::W) == gr(r, SequenceTag::W)); }
    if u != SequenceTag::X && v != SequenceTag::X { assert(gr(s, SequenceTag::X) == gr(r, SequenceTag::X)); }
    if u != SequenceTag::Y && v != SequenceTag::Y { assert(gr(s, SequenceTag::Y) == gr(r, SequenceTag::Y)); }
    if u != SequenceTag::Z && v != SequenceTag::Z { assert(gr(s, SequenceTag::Z) == gr(r, SequenceTag::Z)); }
}
/// make the entry g not negative; Quaternion-type: the last entry changes its sign along with it
pub open spec fn fixed(ty: SequenceType, r: R4, g: SequenceTag, s: R4) -> bool {
    s == r && gr(r, g) >= 0 || gr(r, g) < 0 && s == (if wtype(ty) { nr(r, g) } else { nr(nr(r, g), SequenceTag::Z) })
}
pub proof fn lemma_fix(ty: SequenceType, q: QV, r: R4, g: SequenceTag) -> (s: R4)
    requires can(ty, q, r), type3(ty), wtype(ty) || g != SequenceTag::Z,
    ensures can(ty, q, s), fixed(ty, r, g, s), sqs(s) == sqs(r),
{
    if gr(r, g) >= 0 { r }
    else if wtype(ty) { lemma_can_neg(ty, q, r, g); lemma_sqs(r, g, g); nr(r, g) }
    else {
        let z = SequenceTag::Z;
        lemma_can_ns(q, r, g, z, g);
        let m = wr(nr(r, g), g, z);
        lemma_can_ns(q, m, g, z, g);
        let s = nr(nr(r, g), z);
        lemma_sqs(r, g, g); lemma_sqs(nr(r, g), z, z);
        assert(wr(nr(m, g), g, z) == s);
        s
    }
}
/// the class has a member with sorted rowsums
pub proof fn lemma_sort_rs(ty: SequenceType, q: QV) -> (s: R4)
    requires wfv(q), type3(ty),
    ensures can(ty, q, s), sorted_rs(s), sqs(s) == sqs(rs4(q)), wtype(ty) ==> s.z >= 0, s.z < 0 ==> s.w != 0 && s.w != s.x && s.x != s.y && s.y != abs(s.z), s.y <= abs(s.z),
{
    lemma_can_start(ty, q);
    let r0 = lemma_sort_abs(ty, q, rs4(q));
    let r1 = lemma_fix(ty, q, r0, SequenceTag::W);
    let r2 = lemma_fix(ty, q, r1, SequenceTag::X);
    let r3 = lemma_fix(ty, q, r2, SequenceTag::Y);
    assert(abs_sorted(r3) && r3.w >= 0 && r3.x >= 0 && r3.y >= 0);
    if wtype(ty) { let s = lemma_fix(ty, q, r3, SequenceTag::Z); s }
    else if r3.z >= 0 { r3 }
    else {
        let z = SequenceTag::Z;
        let s = nr(r3, z);
        lemma_sqs(r3, z, z);
        if r3.w == 0 {
            // swapping twice negates the zero and the last entry
            lemma_can_ns(q, r3, SequenceTag::W, z, SequenceTag::W);
            let m = wr(nr(r3, SequenceTag::W), SequenceTag::W, z);
            lemma_can_ns(q, m, SequenceTag::W, z, SequenceTag::W);
            assert(wr(nr(m, SequenceTag::W), SequenceTag::W, z) == s);
            s
        } else if r3.w == r3.x { lemma_can_ns(q, r3, SequenceTag::W, SequenceTag::X, z); assert(wr(s, SequenceTag::W, SequenceTag::X) == s); s }
        else if r3.x == r3.y { lemma_can_ns(q, r3, SequenceTag::X, SequenceTag::Y, z); assert(wr(s, SequenceTag::X, SequenceTag::Y) == s); s }
        else if r3.y == -r3.z { lemma_can_ns(q, r3, SequenceTag::Y, z, z); assert(wr(s, SequenceTag::Y, z) == s); s }
        else { r3 }
    }
}
/// every class of valid quadruples is covered by the rowsum tuples of its length
pub proof fn lemma_covered(ty: SequenceType, n: int, l: Seq<Quad>, q: QV)
    requires is_rowsum_list(n, ty is QuaternionType, l), wfv(q), q.n == n, 1 <= n <= maxn(), is_type(q, ty),
    ensures covered(ty, l, q), sqs(rs4(q)) == 4 * n,
{
    lemma_squares(q);
    let s = lemma_sort_rs(ty, q);
    let p = choose|p: QV| #[trigger] at_rs(ty, q, p, s);
    lemma_parity(p.a); lemma_parity(p.b); lemma_parity(p.c); lemma_parity(p.d);
    let t: Quad = (s.w as isize, s.x as isize, s.y as isize, s.z as isize);
    let b: Quad = (s.w as isize, s.x as isize, s.y as isize, abs(s.z) as isize);
    lemma_negsq(s.z);
    assert(r4(t) == s);
    assert(sq4(b) == sqs(s));
    assert(dec4(4 * n, b));
    assert(par4(b, n));
    assert(from4(ty is QuaternionType, b, t));
    assert(rowsums4(n, ty is QuaternionType, t));
    assert(l.contains(t));
    assert(sorted_member(ty, l, q, p, t));
}
pub proof fn lemma_all_covered(ty: SequenceType, n: int, l: Seq<Quad>)
    requires is_rowsum_list(n, ty is QuaternionType, l), 1 <= n <= maxn(),
    ensures all_covered(ty, n, l),
{
    assert forall|q: QV| wfv(q) && q.n == n && is_type(q, ty) implies #[trigger] covered(ty, l, q) && sqs(rs4(q)) == 4 * n by { lemma_covered(ty, n, l, q); }
}
/// the members with sorted rowsums among the first k of a list, in order
pub open spec fn kept(s: Seq<QuadSeq>, k: int) -> Seq<QV>
    decreases k,
{ if k <= 0 { Seq::empty() } else if sorted_rs(rs4(s[k - 1]@)) { kept(s, k - 1).push(s[k - 1]@) } else { kept(s, k - 1) } }
pub open spec fn views(s: Seq<QuadSeq>) -> Seq<QV> { s.map_values(|q: QuadSeq| q@) }
