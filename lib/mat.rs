// ===== lib/mat.rs: ±1 matrices, circulant blocks, orthogonality =====
pub open spec fn ent(m: HM, i: int, j: int) -> int { m.matrix@[i]@[j] as int }
pub open spec fn wfm(m: HM) -> bool {
    &&& m.matrix@.len() == m.size && m.size <= 4 * maxn()
    &&& forall|i: int| 0 <= i < m.size ==> (#[trigger] m.matrix@[i])@.len() == m.size
}
pub open spec fn is1(x: int) -> bool { x == 1 || x == -1 }
pub open spec fn pmm(m: HM) -> bool { forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> is1(#[trigger] ent(m, i, j)) }
pub open spec fn dot_f(m: HM, i: int, j: int) -> spec_fn(int) -> int { |k: int| ent(m, i, k) * ent(m, j, k) }
/// inner product of two rows
pub open spec fn dot(m: HM, i: int, j: int) -> int { sum(dot_f(m, i, j), m.size as int) }
pub open spec fn orthogonal_rows(m: HM) -> bool { forall|i: int, j: int| 0 <= i < j < m.size ==> #[trigger] dot(m, i, j) == 0 }
pub open spec fn circ(s: Seq<i8>, i: int, j: int) -> int { s[(j - i) % (s.len() as int)] as int }
pub open spec fn is_circ(m: HM, s: Seq<i8>) -> bool { wfm(m) && m.size == s.len() && forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] ent(m, i, j) == circ(s, i, j) }
/// the block at (r, c) is sg times the circulant matrix of s
#[verifier::opaque]
pub open spec fn blk(m: HM, r: int, c: int, s: Seq<i8>, sg: int) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] ent(m, r + i, c + j) == sg * circ(s, i, j)
}
pub open spec fn built(m: HM, q: QV) -> bool {
    let n = q.n;
    &&& wfm(m) && m.size == 4 * n
    &&& blk(m, 0, 0, q.a, 1) && blk(m, n, 0, q.b, 1) && blk(m, 2 * n, 0, q.c, 1) && blk(m, 3 * n, 0, q.d, 1)
    &&& blk(m, 0, n, q.b, 1) && blk(m, n, n, q.a, -1) && blk(m, 2 * n, n, q.d, 1) && blk(m, 3 * n, n, q.c, -1)
    &&& blk(m, 0, 2 * n, q.c, 1) && blk(m, n, 2 * n, q.d, -1) && blk(m, 2 * n, 2 * n, q.a, -1) && blk(m, 3 * n, 2 * n, q.b, 1)
    &&& blk(m, 0, 3 * n, q.d, 1) && blk(m, n, 3 * n, q.c, 1) && blk(m, 2 * n, 3 * n, q.b, -1) && blk(m, 3 * n, 3 * n, q.a, -1)
}
pub open spec fn op_val(op: OpMat, b: HM, i: int, j: int) -> int {
    match op { OpMat::NONE => ent(b, i, j), OpMat::MINUS => -ent(b, i, j), OpMat::TRANSPOSE => ent(b, j, i), OpMat::MINUSTRANSPOSE => -ent(b, j, i) }
}
pub open spec fn inb(b: HM, r: int, c: int, i: int, j: int) -> bool { r <= i < r + b.size && c <= j < c + b.size }
/// m1 is m0 with the block b written at (r, c)
#[verifier::opaque]
pub open spec fn copied(m0: HM, m1: HM, b: HM, r: int, c: int, op: OpMat) -> bool {
    &&& wfm(m1) && m1.size == m0.size
    &&& forall|i: int, j: int| 0 <= i < m0.size && 0 <= j < m0.size && !inb(b, r, c, i, j) ==> #[trigger] ent(m1, i, j) == ent(m0, i, j)
    &&& forall|i: int, j: int| 0 <= i < m0.size && 0 <= j < m0.size && inb(b, r, c, i, j) ==> #[trigger] ent(m1, i, j) == op_val(op, b, i - r, j - c)
}
pub open spec fn apart(r: int, c: int, n: int, r2: int, c2: int, n2: int) -> bool { r + n <= r2 || r2 + n2 <= r || c + n <= c2 || c2 + n2 <= c }
pub open spec fn op_sign(op: OpMat) -> int { match op { OpMat::NONE => 1, OpMat::MINUS => -1, _ => 0 } }
pub proof fn lemma_copied(m0: HM, m1: HM, b: HM, r: int, c: int, op: OpMat)
    requires wfm(m0), wfm(b), copied(m0, m1, b, r, c, op), 0 <= r, 0 <= c, r + b.size <= m0.size, c + b.size <= m0.size,
    ensures
        forall|r2: int, c2: int, s: Seq<i8>, g: int| #[trigger] blk(m0, r2, c2, s, g) && apart(r, c, b.size as int, r2, c2, s.len() as int) && 0 <= r2 && 0 <= c2 && r2 + s.len() <= m0.size && c2 + s.len() <= m0.size ==> blk(m1, r2, c2, s, g),
        forall|s: Seq<i8>| #[trigger] is_circ(b, s) && op_sign(op) != 0 ==> blk(m1, r, c, s, op_sign(op)),
{
    reveal(copied); reveal(blk);
    assert forall|r2: int, c2: int, s: Seq<i8>, g: int| #[trigger] blk(m0, r2, c2, s, g) && apart(r, c, b.size as int, r2, c2, s.len() as int) && 0 <= r2 && 0 <= c2 && r2 + s.len() <= m0.size && c2 + s.len() <= m0.size implies blk(m1, r2, c2, s, g) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] ent(m1, r2 + i, c2 + j) == g * circ(s, i, j) by { assert(ent(m0, r2 + i, c2 + j) == g * circ(s, i, j)); assert(!inb(b, r, c, r2 + i, c2 + j)); }
    }
    assert forall|s: Seq<i8>| #[trigger] is_circ(b, s) && op_sign(op) != 0 implies blk(m1, r, c, s, op_sign(op)) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] ent(m1, r + i, c + j) == op_sign(op) * circ(s, i, j) by {
            assert(inb(b, r, c, r + i, c + j)); assert(ent(b, i, j) == circ(s, i, j)); assert(ent(m1, r + i, c + j) == op_val(op, b, i, j));
            let z = circ(s, i, j);
            assert(1 * z == z && -1 * z == -z) by(nonlinear_arith);
            assert(op == OpMat::NONE || op == OpMat::MINUS);
        }
    }
}
/// what get_qts reads
pub open spec fn col0(m: HM, r: int) -> Seq<i8> { Seq::new((m.size as int / 4) as nat, |i: int| m.matrix@[r]@[i]) }
pub proof fn lemma_blk_row(m: HM, r: int, s: Seq<i8>)
    requires blk(m, r, 0, s, 1), s.len() == m.size as int / 4, s.len() >= 1,
    ensures col0(m, r) == s,
{
    reveal(blk);
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] m.matrix@[r]@[j] == s[j] by {
        lemma_mod_range(j, s.len() as int);
        assert(ent(m, r + 0int, 0int + j) == 1 * circ(s, 0, j));
    }
    assert(col0(m, r) =~= s);
}
/// reading back gives the quadruple
pub proof fn lemma_readback(m: HM, q: QV)
    requires built(m, q), wfv(q), q.n >= 1,
    ensures col0(m, 0) == q.a, col0(m, q.n) == q.b, col0(m, 2 * q.n) == q.c, col0(m, 3 * q.n) == q.d,
{
    let n = q.n;
    assert(q.n == m.size as int / 4);
    lemma_blk_row(m, 0, q.a); lemma_blk_row(m, n, q.b); lemma_blk_row(m, 2 * n, q.c); lemma_blk_row(m, 3 * n, q.d);
    assert(col0(m, 0) =~= q.a); assert(col0(m, q.n) =~= q.b); assert(col0(m, 2 * q.n) =~= q.c); assert(col0(m, 3 * q.n) =~= q.d);
}
// ---------- finite double sums ----------
pub proof fn lemma_sum_split(f: spec_fn(int) -> int, m: int, n: int)
    requires m >= 0, n >= 0,
    ensures sum(f, m + n) == sum(f, m) + sum(|i: int| f(m + i), n),
    decreases n,
{
    if n > 0 {
        lemma_sum_split(f, m, n - 1);
        let g = |i: int| f(m + i);
        assert(sum(f, m + n) == sum(f, m + n - 1) + f(m + n - 1));
        assert(sum(g, n) == sum(g, n - 1) + g(n - 1));
    }
}
pub proof fn lemma_sum_scale(f: spec_fn(int) -> int, g: spec_fn(int) -> int, c: int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == c * f(i),
    ensures sum(g, n) == c * sum(f, n),
    decreases n,
{
    if n > 0 {
        lemma_sum_scale(f, g, c, n - 1);
        assert(g(n - 1) == c * f(n - 1));
        assert(c * (sum(f, n - 1) + f(n - 1)) == c * sum(f, n - 1) + c * f(n - 1)) by(nonlinear_arith);
    } else { assert(c * 0 == 0) by(nonlinear_arith); }
}
pub proof fn lemma_sum_zero(f: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0,
    ensures sum(f, n) == 0,
    decreases n,
{ if n > 0 { lemma_sum_zero(f, n - 1); assert(f(n - 1) == 0); } }
/// exchanging the order of summation
pub proof fn lemma_sum_swap(f: spec_fn(int, int) -> int, m: int, n: int)
    requires m >= 0, n >= 0,
    ensures sum(|i: int| sum(|j: int| f(i, j), n), m) == sum(|j: int| sum(|i: int| f(i, j), m), n),
    decreases n,
{
    let r = |i: int| sum(|j: int| f(i, j), n);
    let c = |j: int| sum(|i: int| f(i, j), m);
    if n == 0 {
        assert forall|i: int| 0 <= i < m implies #[trigger] r(i) == 0 by { }
        lemma_sum_zero(r, m);
    } else {
        lemma_sum_swap(f, m, n - 1);
        let r1 = |i: int| sum(|j: int| f(i, j), n - 1);
        let l = |i: int| f(i, n - 1);
        assert forall|i: int| 0 <= i < m implies #[trigger] r(i) == r1(i) + l(i) by {
            let h = |j: int| f(i, j);
            assert(sum(h, n) == sum(h, n - 1) + h(n - 1));
        }
        lemma_sum_add(r1, l, r, m);
        assert(sum(c, n) == sum(c, n - 1) + c(n - 1));
        lemma_sum_ext(c, |j: int| sum(|i: int| f(i, j), m), n - 1);
    }
}
/// all but one summand vanish
pub proof fn lemma_sum_one(f: spec_fn(int) -> int, p: int, n: int)
    requires 0 <= p < n, forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == 0,
    ensures sum(f, n) == f(p),
{
    let z = |i: int| 0int;
    lemma_sum_zero(z, n);
    lemma_sum_update(f, z, p, n);
}
pub proof fn lemma_sum_nonneg(f: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) >= 0,
    ensures sum(f, n) >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) <= sum(f, n),
    decreases n,
{
    if n > 0 {
        lemma_sum_nonneg(f, n - 1);
        assert(f(n - 1) >= 0);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) <= sum(f, n) by { if i < n - 1 { assert(f(i) >= 0); } }
    }
}
// ---------- orthogonal columns give orthogonal rows ----------
pub open spec fn rdot(a: spec_fn(int, int) -> int, n: int, i: int, j: int) -> int { sum(|k: int| a(i, k) * a(j, k), n) }
pub open spec fn cdot(a: spec_fn(int, int) -> int, n: int, k: int, l: int) -> int { sum(|i: int| a(i, k) * a(i, l), n) }
pub open spec fn pm2(a: spec_fn(int, int) -> int, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> is1(#[trigger] a(i, j)) }
pub proof fn lemma_self_rdot(a: spec_fn(int, int) -> int, n: int, i: int, m: int)
    requires pm2(a, n), 0 <= i < n, 0 <= m <= n,
    ensures sum(|k: int| a(i, k) * a(i, k), m) == m,
    decreases m,
{
    if m > 0 {
        lemma_self_rdot(a, n, i, m - 1);
        let f = |k: int| a(i, k) * a(i, k);
        assert(sum(f, m) == sum(f, m - 1) + f(m - 1));
        assert(is1(a(i, m - 1)));
    }
}
pub proof fn lemma_self_cdot(a: spec_fn(int, int) -> int, n: int, k: int, m: int)
    requires pm2(a, n), 0 <= k < n, 0 <= m <= n,
    ensures sum(|i: int| a(i, k) * a(i, k), m) == m,
    decreases m,
{
    if m > 0 {
        lemma_self_cdot(a, n, k, m - 1);
        let f = |i: int| a(i, k) * a(i, k);
        assert(sum(f, m) == sum(f, m - 1) + f(m - 1));
        assert(is1(a(m - 1, k)));
    }
}
/// product of two sums as a double sum over k, l
pub proof fn lemma_square(a: spec_fn(int, int) -> int, n: int, i: int, j: int)
    requires n >= 0,
    ensures rdot(a, n, i, j) * rdot(a, n, i, j) == sum(|k: int| sum(|l: int| a(i, k) * a(i, l) * (a(j, k) * a(j, l)), n), n),
{
    let d = rdot(a, n, i, j);
    let f = |k: int| a(i, k) * a(j, k);
    let g = |k: int| sum(|l: int| a(i, k) * a(i, l) * (a(j, k) * a(j, l)), n);
    assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == d * f(k) by {
        let h = |l: int| a(i, k) * a(i, l) * (a(j, k) * a(j, l));
        assert forall|l: int| 0 <= l < n implies #[trigger] h(l) == f(k) * f(l) by {
            let (p, q, r, s) = (a(i, k), a(i, l), a(j, k), a(j, l));
            assert(p * q * (r * s) == p * r * (q * s)) by(nonlinear_arith);
        }
        lemma_sum_scale(f, h, f(k), n);
        assert(d * f(k) == f(k) * d) by(nonlinear_arith);
    }
    lemma_sum_scale(f, g, d, n);
}
pub proof fn lemma_transpose_orth(a: spec_fn(int, int) -> int, n: int, i: int, j: int)
    requires pm2(a, n), 0 <= i < n, 0 <= j < n, i != j, forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k != l ==> #[trigger] cdot(a, n, k, l) == 0,
    ensures rdot(a, n, i, j) == 0,
{
    // sum over r of (row i . row r)^2 is n * n
    let sq = |r: int| rdot(a, n, i, r) * rdot(a, n, i, r);
    let t = |r: int, k: int| sum(|l: int| a(i, k) * a(i, l) * (a(r, k) * a(r, l)), n);
    let lhs = |r: int| sum(|k: int| t(r, k), n);
    assert forall|r: int| 0 <= r < n implies #[trigger] sq(r) == lhs(r) by {
        lemma_square(a, n, i, r);
        lemma_sum_ext(|k: int| sum(|l: int| a(i, k) * a(i, l) * (a(r, k) * a(r, l)), n), |k: int| t(r, k), n);
    }
    lemma_sum_ext(sq, lhs, n);
    lemma_sum_swap(t, n, n);
    let rhs = |k: int| sum(|r: int| t(r, k), n);
    lemma_sum_ext(lhs, |r: int| sum(|k: int| t(r, k), n), n);
    assert forall|k: int| 0 <= k < n implies #[trigger] rhs(k) == n by {
        let u = |r: int, l: int| a(i, k) * a(i, l) * (a(r, k) * a(r, l));
        lemma_sum_swap(u, n, n);
        let x = |l: int| sum(|r: int| u(r, l), n);
        assert forall|l: int| 0 <= l < n implies #[trigger] x(l) == (if l == k { n } else { 0int }) by {
            let c = a(i, k) * a(i, l);
            let v = |r: int| a(r, k) * a(r, l);
            let w = |r: int| u(r, l);
            assert forall|r: int| 0 <= r < n implies #[trigger] w(r) == c * v(r) by { }
            lemma_sum_scale(v, w, c, n);
            assert(sum(v, n) == cdot(a, n, k, l));
            if l == k { lemma_self_cdot(a, n, k, n); assert(is1(a(i, k))); assert(c == 1); assert(c * n == n) by(nonlinear_arith) requires c == 1; }
            else { assert(c * 0 == 0) by(nonlinear_arith); }
        }
        lemma_sum_one(x, k, n);
        let y = |r: int| sum(|l: int| u(r, l), n);
        let tk = |r: int| t(r, k);
        assert forall|r: int| 0 <= r < n implies #[trigger] tk(r) == y(r) by { lemma_sum_ext(|l: int| a(i, k) * a(i, l) * (a(r, k) * a(r, l)), |l: int| u(r, l), n); }
        lemma_sum_ext(tk, y, n);
        lemma_sum_ext(|l: int| sum(|r: int| u(r, l), n), x, n);
        lemma_sum_ext(|r: int| sum(|l: int| u(r, l), n), y, n);
    }
    let one = |k: int| 1int;
    assert(sum(rhs, n) == n * n) by { lemma_sum_const(rhs, n, n); }
    // the diagonal term is already n * n
    lemma_self_rdot(a, n, i, n);
    assert(rdot(a, n, i, i) == n);
    let rest = |r: int| if r == i { 0int } else { sq(r) };
    lemma_sum_update(sq, rest, i, n);
    assert(sum(rest, n) == 0);
    assert forall|r: int| 0 <= r < n implies #[trigger] rest(r) >= 0 by { let d = rdot(a, n, i, r); assert(d * d >= 0) by(nonlinear_arith); }
    lemma_sum_nonneg(rest, n);
    assert(rest(j) >= 0);
    assert(sq(j) == 0);
    let d = rdot(a, n, i, j);
    assert(d == 0) by(nonlinear_arith) requires d * d == 0;
}
pub proof fn lemma_sum_const(f: spec_fn(int) -> int, c: int, n: int)
    requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) == c,
    ensures sum(f, n) == c * n,
    decreases n,
{
    if n > 0 { lemma_sum_const(f, c, n - 1); assert(f(n - 1) == c); assert(c * (n - 1) + c == c * n) by(nonlinear_arith); }
    else { assert(c * 0 == 0) by(nonlinear_arith); }
}
// ---------- columns of the block matrix ----------
/// columns k of the circulant of s and l of the circulant of t
pub open spec fn ccol_f(s: Seq<i8>, t: Seq<i8>, k: int, l: int) -> spec_fn(int) -> int { |i: int| circ(s, i, k) * circ(t, i, l) }
pub open spec fn ccol(s: Seq<i8>, t: Seq<i8>, k: int, l: int) -> int { sum(ccol_f(s, t, k, l), s.len() as int) }
pub proof fn lemma_ccol(s: Seq<i8>, t: Seq<i8>, k: int, l: int)
    requires s.len() == t.len(), s.len() >= 1,
    ensures ccol(s, t, k, l) == cross(s, t, (k - l) % (s.len() as int)),
{
    let n = s.len() as int;
    let o = (k - l) % n;
    let f = cross_f(s, t, o);
    let pi = |i: int| (k - i) % n;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] pi(i) < n && pi(pi(i)) == i by {
        lemma_mod_range(k - i, n); lemma_mod_sub_r(k, k - i, n); lemma_mod_range(i, n);
    }
    lemma_sum_perm(f, pi, pi, n);
    let g = |i: int| f(pi(i));
    assert forall|i: int| 0 <= i < n implies #[trigger] ccol_f(s, t, k, l)(i) == g(i) by {
        // t[(l-i)%n] and t[((k-i)%n - o)%n]
        lemma_mod_range(k - i, n);
        lemma_mod_add_l(k - i, -o, n);
        lemma_mod_sub_r(k - i, k - l, n);
        assert((k - i) - (k - l) == l - i);
    }
    lemma_sum_ext(ccol_f(s, t, k, l), g, n);
}
pub proof fn lemma_cross_self(s: Seq<i8>, t: int)
    requires s.len() >= 1,
    ensures cross(s, s, t) == auto(s, -t), cross(s, s, t) == auto(s, t),
{
    let n = s.len() as int;
    lemma_sum_ext(cross_f(s, s, t), auto_f(s, -t), n);
    // shift by t
    let f = cross_f(s, s, t);
    lemma_sum_shift(f, t, n);
    let g = |i: int| f((i + t) % n);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == auto_f(s, t)(i) by {
        lemma_mod_range(i + t, n); lemma_mod_add_l(i + t, -t, n); lemma_mod_range(i, n);
        let (x, y) = (s[(i + t) % n] as int, s[i] as int);
        assert(x * y == y * x) by(nonlinear_arith);
    }
    lemma_sum_ext(g, auto_f(s, t), n);
}
pub open spec fn hent(m: HM) -> spec_fn(int, int) -> int { |i: int, j: int| ent(m, i, j) }
/// the four blocks of two columns
pub open spec fn col_at(m: HM, n: int, c: int, s0: Seq<i8>, g0: int, s1: Seq<i8>, g1: int, s2: Seq<i8>, g2: int, s3: Seq<i8>, g3: int) -> bool {
    blk(m, 0, c, s0, g0) && blk(m, n, c, s1, g1) && blk(m, 2 * n, c, s2, g2) && blk(m, 3 * n, c, s3, g3)
}
pub proof fn lemma_blk_part(m: HM, n: int, r: int, c: int, k: int, s: Seq<i8>, g: int, d: int, l: int, t: Seq<i8>, h: int)
    requires n >= 1, blk(m, r, c, s, g), blk(m, r, d, t, h), s.len() == n, t.len() == n, 0 <= k < n, 0 <= l < n,
    ensures sum(|i: int| ent(m, r + i, c + k) * ent(m, r + i, d + l), n) == g * h * ccol(s, t, k, l),
{
    reveal(blk);
    let f = |i: int| ent(m, r + i, c + k) * ent(m, r + i, d + l);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g * h * ccol_f(s, t, k, l)(i) by {
        let (x, y) = (circ(s, i, k), circ(t, i, l));
        assert(ent(m, r + i, c + k) == g * x); assert(ent(m, r + i, d + l) == h * y);
        assert(g * x * (h * y) == g * h * (x * y)) by(nonlinear_arith);
    }
    lemma_sum_scale(ccol_f(s, t, k, l), f, g * h, n);
}
pub proof fn lemma_cols(m: HM, n: int, c: int, k: int, s0: Seq<i8>, g0: int, s1: Seq<i8>, g1: int, s2: Seq<i8>, g2: int, s3: Seq<i8>, g3: int,
                        d: int, l: int, t0: Seq<i8>, h0: int, t1: Seq<i8>, h1: int, t2: Seq<i8>, h2: int, t3: Seq<i8>, h3: int)
    requires
        n >= 1, 0 <= k < n, 0 <= l < n, col_at(m, n, c, s0, g0, s1, g1, s2, g2, s3, g3), col_at(m, n, d, t0, h0, t1, h1, t2, h2, t3, h3),
        s0.len() == n, s1.len() == n, s2.len() == n, s3.len() == n, t0.len() == n, t1.len() == n, t2.len() == n, t3.len() == n,
    ensures cdot(hent(m), 4 * n, c + k, d + l) == g0 * h0 * ccol(s0, t0, k, l) + g1 * h1 * ccol(s1, t1, k, l) + g2 * h2 * ccol(s2, t2, k, l) + g3 * h3 * ccol(s3, t3, k, l),
{
    let a = hent(m);
    let f = |i: int| a(i, c + k) * a(i, d + l);
    lemma_sum_split(f, n, 3 * n);
    let f1 = |i: int| f(n + i);
    lemma_sum_split(f1, n, 2 * n);
    let f2 = |i: int| f1(n + i);
    lemma_sum_split(f2, n, n);
    let f3 = |i: int| f2(n + i);
    lemma_blk_part(m, n, 0, c, k, s0, g0, d, l, t0, h0);
    lemma_blk_part(m, n, n, c, k, s1, g1, d, l, t1, h1);
    lemma_blk_part(m, n, 2 * n, c, k, s2, g2, d, l, t2, h2);
    lemma_blk_part(m, n, 3 * n, c, k, s3, g3, d, l, t3, h3);
    lemma_sum_ext(f, |i: int| ent(m, 0 + i, c + k) * ent(m, 0 + i, d + l), n);
    lemma_sum_ext(f1, |i: int| ent(m, n + i, c + k) * ent(m, n + i, d + l), n);
    lemma_sum_ext(f2, |i: int| ent(m, 2 * n + i, c + k) * ent(m, 2 * n + i, d + l), n);
    lemma_sum_ext(f3, |i: int| ent(m, 3 * n + i, c + k) * ent(m, 3 * n + i, d + l), n);
}
/// two columns of the matrix of a Quaternion-type quadruple are orthogonal
pub proof fn lemma_cols_orth(m: HM, q: QV, x: int, y: int)
    requires built(m, q), wfv(q), is_qts(q), q.n >= 1, 0 <= x < 4 * q.n, 0 <= y < 4 * q.n, x != y,
    ensures cdot(hent(m), 4 * q.n, x, y) == 0,
{
    let n = q.n;
    let (w, xx, yy, z) = (q.a, q.b, q.c, q.d);
    let cb = if x < n { 0int } else if x < 2 * n { 1 } else if x < 3 * n { 2 } else { 3 };
    let db = if y < n { 0int } else if y < 2 * n { 1 } else if y < 3 * n { 2 } else { 3 };
    let k = if cb == 0 { x } else if cb == 1 { x - n } else if cb == 2 { x - 2 * n } else { x - 3 * n };
    let l = if db == 0 { y } else if db == 1 { y - n } else if db == 2 { y - 2 * n } else { y - 3 * n };
    let t = (k - l) % n;
    lemma_mod_range(k - l, n);
    assert(qcross_at(q, t));
    if cb == db { lemma_mod_diff(k, l, n); assert(compl_at(q, t)); }
    lemma_cross_self(w, t); lemma_cross_self(xx, t); lemma_cross_self(yy, t); lemma_cross_self(z, t);
    lemma_ccol(w, w, k, l); lemma_ccol(w, xx, k, l); lemma_ccol(w, yy, k, l); lemma_ccol(w, z, k, l);
    lemma_ccol(xx, w, k, l); lemma_ccol(xx, xx, k, l); lemma_ccol(xx, yy, k, l); lemma_ccol(xx, z, k, l);
    lemma_ccol(yy, w, k, l); lemma_ccol(yy, xx, k, l); lemma_ccol(yy, yy, k, l); lemma_ccol(yy, z, k, l);
    lemma_ccol(z, w, k, l); lemma_ccol(z, xx, k, l); lemma_ccol(z, yy, k, l); lemma_ccol(z, z, k, l);
    assert(col_at(m, n, 0, w, 1, xx, 1, yy, 1, z, 1));
    assert(col_at(m, n, n, xx, 1, w, -1, z, 1, yy, -1));
    assert(col_at(m, n, 2 * n, yy, 1, z, -1, w, -1, xx, 1));
    assert(col_at(m, n, 3 * n, z, 1, yy, 1, xx, -1, w, -1));
    if cb == 0 {
        if db == 0 { lemma_cols(m, n, 0, k, w, 1, xx, 1, yy, 1, z, 1, 0, l, w, 1, xx, 1, yy, 1, z, 1); }
        else if db == 1 { lemma_cols(m, n, 0, k, w, 1, xx, 1, yy, 1, z, 1, n, l, xx, 1, w, -1, z, 1, yy, -1); }
        else if db == 2 { lemma_cols(m, n, 0, k, w, 1, xx, 1, yy, 1, z, 1, 2 * n, l, yy, 1, z, -1, w, -1, xx, 1); }
        else { lemma_cols(m, n, 0, k, w, 1, xx, 1, yy, 1, z, 1, 3 * n, l, z, 1, yy, 1, xx, -1, w, -1); }
    } else if cb == 1 {
        if db == 0 { lemma_cols(m, n, n, k, xx, 1, w, -1, z, 1, yy, -1, 0, l, w, 1, xx, 1, yy, 1, z, 1); }
        else if db == 1 { lemma_cols(m, n, n, k, xx, 1, w, -1, z, 1, yy, -1, n, l, xx, 1, w, -1, z, 1, yy, -1); }
        else if db == 2 { lemma_cols(m, n, n, k, xx, 1, w, -1, z, 1, yy, -1, 2 * n, l, yy, 1, z, -1, w, -1, xx, 1); }
        else { lemma_cols(m, n, n, k, xx, 1, w, -1, z, 1, yy, -1, 3 * n, l, z, 1, yy, 1, xx, -1, w, -1); }
    } else if cb == 2 {
        if db == 0 { lemma_cols(m, n, 2 * n, k, yy, 1, z, -1, w, -1, xx, 1, 0, l, w, 1, xx, 1, yy, 1, z, 1); }
        else if db == 1 { lemma_cols(m, n, 2 * n, k, yy, 1, z, -1, w, -1, xx, 1, n, l, xx, 1, w, -1, z, 1, yy, -1); }
        else if db == 2 { lemma_cols(m, n, 2 * n, k, yy, 1, z, -1, w, -1, xx, 1, 2 * n, l, yy, 1, z, -1, w, -1, xx, 1); }
        else { lemma_cols(m, n, 2 * n, k, yy, 1, z, -1, w, -1, xx, 1, 3 * n, l, z, 1, yy, 1, xx, -1, w, -1); }
    } else {
        if db == 0 { lemma_cols(m, n, 3 * n, k, z, 1, yy, 1, xx, -1, w, -1, 0, l, w, 1, xx, 1, yy, 1, z, 1); }
        else if db == 1 { lemma_cols(m, n, 3 * n, k, z, 1, yy, 1, xx, -1, w, -1, n, l, xx, 1, w, -1, z, 1, yy, -1); }
        else if db == 2 { lemma_cols(m, n, 3 * n, k, z, 1, yy, 1, xx, -1, w, -1, 2 * n, l, yy, 1, z, -1, w, -1, xx, 1); }
        else { lemma_cols(m, n, 3 * n, k, z, 1, yy, 1, xx, -1, w, -1, 3 * n, l, z, 1, yy, 1, xx, -1, w, -1); }
    }
}
pub proof fn lemma_mod_diff(k: int, l: int, n: int)
    requires n >= 1, 0 <= k < n, 0 <= l < n, k != l,
    ensures (k - l) % n != 0,
{
    if k > l { lemma_mod_range(k - l, n); } else { lemma_mod_unique(k - l, k - l + n, -1, n); }
}
pub proof fn lemma_built_pm(m: HM, q: QV)
    requires built(m, q), wfv(q), q.n >= 1,
    ensures pmm(m),
{
    reveal(blk);
    let n = q.n;
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size implies is1(#[trigger] ent(m, i, j)) by {
        let rb = if i < n { 0int } else if i < 2 * n { n } else if i < 3 * n { 2 * n } else { 3 * n };
        let cb = if j < n { 0int } else if j < 2 * n { n } else if j < 3 * n { 2 * n } else { 3 * n };
        let (k, l) = (i - rb, j - cb);
        lemma_mod_range(l - k, n);
        assert(is1(q.a[(l - k) % n] as int) && is1(q.b[(l - k) % n] as int) && is1(q.c[(l - k) % n] as int) && is1(q.d[(l - k) % n] as int));
        assert(ent(m, rb + k, cb + l) == ent(m, i, j));
        assert(is1(ent(m, rb + k, cb + l)));
    }
}
/// the matrix of a Quaternion-type quadruple is a Hadamard matrix
pub proof fn lemma_hadamard(m: HM, q: QV)
    requires built(m, q), wfv(q), is_qts(q), q.n >= 1,
    ensures pmm(m), orthogonal_rows(m),
{
    lemma_built_pm(m, q);
    let a = hent(m);
    let n = 4 * q.n;
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < n && k != l implies #[trigger] cdot(a, n, k, l) == 0 by { lemma_cols_orth(m, q, k, l); }
    assert(pm2(a, n)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies is1(#[trigger] a(i, j)) by { assert(is1(ent(m, i, j))); } }
    assert forall|i: int, j: int| 0 <= i < j < m.size implies #[trigger] dot(m, i, j) == 0 by {
        lemma_transpose_orth(a, n, i, j);
        lemma_sum_ext(dot_f(m, i, j), |k: int| a(i, k) * a(j, k), n);
    }
}
// ---------- dephasing ----------
pub open spec fn dval(m: HM, i: int, j: int) -> int { ent(m, 0, 0) * ent(m, i, 0) * ent(m, 0, j) * ent(m, i, j) }
/// r is m with rows and columns negated so that the first row and column are all one
pub open spec fn is_dephased(m: HM, r: HM) -> bool {
    &&& wfm(r) && r.size == m.size
    &&& forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> #[trigger] ent(r, i, j) == dval(m, i, j)
    &&& forall|i: int| 0 <= i < m.size ==> #[trigger] ent(r, 0, i) == 1
    &&& forall|i: int| 0 <= i < m.size ==> #[trigger] ent(r, i, 0) == 1
}
pub proof fn lemma_pm_prod(a: int, b: int)
    requires is1(a), is1(b),
    ensures is1(a * b), a * a == 1, b * b == 1,
{ }
pub open spec fn rv(m: HM, i: int, j: int) -> int { ent(m, 0, j) * ent(m, i, j) }
pub open spec fn cv(m: HM, i: int, j: int) -> int { rv(m, i, 0) * rv(m, i, j) }
pub proof fn lemma_rv(m: HM)
    requires pmm(m),
    ensures
        forall|i: int, j: int| #![trigger ent(m, i, j)] #![trigger rv(m, i, j)] 0 <= i < m.size && 0 <= j < m.size ==> is1(ent(m, i, j)) && is1(rv(m, i, j)),
        forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size ==> is1(#[trigger] cv(m, i, j)) && cv(m, i, j) == dval(m, i, j) && cv(m, i, 0) == 1 && cv(m, 0, j) == 1,
{
    assert forall|i: int, j: int| #![trigger ent(m, i, j)] #![trigger rv(m, i, j)] 0 <= i < m.size && 0 <= j < m.size implies is1(ent(m, i, j)) && is1(rv(m, i, j)) by {
        assert(is1(ent(m, 0, j)));
        lemma_pm_prod(ent(m, 0, j), ent(m, i, j));
    }
    assert forall|i: int, j: int| 0 <= i < m.size && 0 <= j < m.size implies is1(#[trigger] cv(m, i, j)) && cv(m, i, j) == dval(m, i, j) && cv(m, i, 0) == 1 && cv(m, 0, j) == 1 by {
        assert(is1(rv(m, i, 0)) && is1(rv(m, i, j)) && is1(rv(m, 0, 0)) && is1(rv(m, 0, j)));
        lemma_pm_prod(rv(m, i, 0), rv(m, i, j));
        lemma_pm_prod(ent(m, 0, j), ent(m, i, j)); lemma_pm_prod(ent(m, 0, 0), ent(m, i, j));
        let (a, b, c, d) = (ent(m, 0, 0), ent(m, i, 0), ent(m, 0, j), ent(m, i, j));
        assert(a * b * (c * d) == a * b * c * d) by(nonlinear_arith);
    }
}
