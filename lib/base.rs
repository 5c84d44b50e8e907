// ===== lib/base.rs: machine model, run-time assertions, finite sums =====
global size_of usize == 8;

/// stands for assert!/debug_assert!: the condition has to be proved
pub fn vx_assert(b: bool)
    requires b,
{
}
/// stands for panic!/unreachable!: has to be proved unreachable
pub fn vx_panic() -> (r: !)
    requires false,
{
    loop
        invariant false,
        decreases 0int,
    {
    }
}

/// lengths considered: everything a Vec<i8> index arithmetic in isize can hold
pub open spec fn maxn() -> int { 0x3fff_ffff }
pub open spec fn maxq() -> int { 0x10_0000 }

pub open spec fn sum(f: spec_fn(int) -> int, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { sum(f, n - 1) + f(n - 1) }
}

pub proof fn lemma_sum_ext(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures sum(f, n) == sum(g, n),
    decreases n,
{
    if n > 0 { lemma_sum_ext(f, g, n - 1); assert(f(n - 1) == g(n - 1)); }
}

pub proof fn lemma_sum_neg(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == -g(i),
    ensures sum(f, n) == -sum(g, n),
    decreases n,
{
    if n > 0 { lemma_sum_neg(f, g, n - 1); assert(f(n - 1) == -g(n - 1)); }
}

pub proof fn lemma_sum_add(f: spec_fn(int) -> int, g: spec_fn(int) -> int, h: spec_fn(int) -> int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == f(i) + g(i),
    ensures sum(h, n) == sum(f, n) + sum(g, n),
    decreases n,
{
    if n > 0 { lemma_sum_add(f, g, h, n - 1); assert(h(n - 1) == f(n - 1) + g(n - 1)); }
}

pub proof fn lemma_sum_bound(f: spec_fn(int) -> int, n: int, b: int)
    requires forall|i: int| 0 <= i < n ==> -b <= #[trigger] f(i) <= b, n >= 0, b >= 0,
    ensures -b * n <= sum(f, n) <= b * n,
    decreases n,
{
    if n > 0 {
        lemma_sum_bound(f, n - 1, b);
        assert(-b <= f(n - 1) <= b);
        assert(b * n == b * (n - 1) + b) by (nonlinear_arith);
        assert(-b * n == -b * (n - 1) - b) by (nonlinear_arith);
    }
}

/// changing one summand
pub proof fn lemma_sum_update(f: spec_fn(int) -> int, g: spec_fn(int) -> int, p: int, n: int)
    requires 0 <= p < n, forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == g(i),
    ensures sum(f, n) - f(p) == sum(g, n) - g(p),
    decreases n,
{
    if p == n - 1 {
        lemma_sum_ext(f, g, n - 1);
    } else {
        lemma_sum_update(f, g, p, n - 1);
        assert(f(n - 1) == g(n - 1));
    }
}

/// reindexing along a bijection pi of [0,n) with inverse q
pub proof fn lemma_sum_perm(f: spec_fn(int) -> int, pi: spec_fn(int) -> int, q: spec_fn(int) -> int, n: int)
    requires
        n >= 0,
        forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pi(i) < n && q(pi(i)) == i,
        forall|j: int| 0 <= j < n ==> 0 <= #[trigger] q(j) < n && pi(q(j)) == j,
    ensures sum(|i: int| f(pi(i)), n) == sum(f, n),
    decreases n,
{
    let h = |i: int| f(pi(i));
    if n > 0 {
        let m = n - 1;
        let p = q(m);
        assert(pi(p) == m);
        if p == m {
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] pi(i) < m && q(pi(i)) == i by {
                if pi(i) == m { assert(q(pi(i)) == i); }
            }
            assert forall|j: int| 0 <= j < m implies 0 <= #[trigger] q(j) < m && pi(q(j)) == j by {
                if q(j) == m { assert(pi(q(j)) == j); }
            }
            lemma_sum_perm(f, pi, q, m);
        } else {
            let e = pi(m);
            assert(q(e) == m);
            assert(e != m);
            let pi2 = |i: int| if i == p { e } else { pi(i) };
            let q2 = |j: int| if j == e { p } else { q(j) };
            assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] pi2(i) < m && q2(pi2(i)) == i by {
                if i != p {
                    assert(q(pi(i)) == i);
                    if pi(i) == m { assert(i == p); }
                    if pi(i) == e { assert(i == m); }
                }
            }
            assert forall|j: int| 0 <= j < m implies 0 <= #[trigger] q2(j) < m && pi2(q2(j)) == j by {
                if j != e {
                    assert(pi(q(j)) == j);
                    if q(j) == m { assert(j == e); }
                    if q(j) == p { assert(j == m); }
                }
            }
            lemma_sum_perm(f, pi2, q2, m);
            let h2 = |i: int| f(pi2(i));
            assert(sum(h2, m) == sum(f, m));
            assert forall|i: int| 0 <= i < m && i != p implies #[trigger] h(i) == h2(i) by { }
            lemma_sum_update(h, h2, p, m);
            assert(h(p) == f(m));
            assert(h2(p) == h(m));
            assert(sum(h, n) == sum(h, m) + h(m));
            assert(sum(f, n) == sum(f, m) + f(m));
        }
    }
}

// ---------- modular arithmetic ----------
pub proof fn lemma_mod_range(x: int, n: int)
    requires n > 0,
    ensures 0 <= x % n < n, 0 <= x < n ==> x % n == x,
{
    assert(0 <= x % n < n && (0 <= x < n ==> x % n == x)) by (nonlinear_arith) requires n > 0;
}

/// x % n is the only number in [0,n) congruent to x
pub proof fn lemma_mod_unique(x: int, r: int, k: int, n: int)
    requires n > 0, x == k * n + r, 0 <= r < n,
    ensures x % n == r,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, n, k, r);
}

pub proof fn lemma_mod_add_multiple(x: int, k: int, n: int)
    requires n > 0,
    ensures (x + k * n) % n == x % n,
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, x, n);
    assert(n * k + x == x + k * n) by (nonlinear_arith);
}

/// congruent numbers have equal remainders
pub proof fn lemma_mod_cong(x: int, y: int, k: int, n: int)
    requires n > 0, x == y + k * n,
    ensures x % n == y % n,
{
    lemma_mod_add_multiple(y, k, n);
}

pub proof fn lemma_mod_decomp(x: int, n: int)
    requires n > 0,
    ensures x == (x / n) * n + x % n, 0 <= x % n < n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    assert(n * (x / n) == (x / n) * n) by (nonlinear_arith);
    lemma_mod_range(x, n);
}

/// ((x % n) + y) % n == (x + y) % n
pub proof fn lemma_mod_add_l(x: int, y: int, n: int)
    requires n > 0,
    ensures (x % n + y) % n == (x + y) % n,
{
    lemma_mod_decomp(x, n);
    lemma_mod_cong(x + y, x % n + y, x / n, n);
}

pub proof fn lemma_mod_sub_r(x: int, y: int, n: int)
    requires n > 0,
    ensures (x - y % n) % n == (x - y) % n,
{
    lemma_mod_decomp(y, n);
    assert(x - y % n == (x - y) + (y / n) * n);
    lemma_mod_cong(x - y % n, x - y, y / n, n);
}

pub proof fn lemma_mod_mul_l(x: int, y: int, n: int)
    requires n > 0,
    ensures ((x % n) * y) % n == (x * y) % n,
{
    lemma_mod_decomp(x, n);
    assert(x * y == (x % n) * y + (x / n * y) * n) by (nonlinear_arith) requires x == (x / n) * n + x % n;
    lemma_mod_cong(x * y, (x % n) * y, x / n * y, n);
}

/// cyclic reindexing i -> (i + s) % n
pub proof fn lemma_sum_shift(f: spec_fn(int) -> int, s: int, n: int)
    requires n > 0,
    ensures sum(|i: int| f((i + s) % n), n) == sum(f, n),
{
    let pi = |i: int| (i + s) % n;
    let q = |j: int| (j - s) % n;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] pi(i) < n && q(pi(i)) == i by {
        lemma_mod_range(i + s, n);
        lemma_mod_add_l(i + s, -s, n);
        lemma_mod_range(i, n);
    }
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] q(j) < n && pi(q(j)) == j by {
        lemma_mod_range(j - s, n);
        lemma_mod_add_l(j - s, s, n);
        lemma_mod_range(j, n);
    }
    lemma_sum_perm(f, pi, q, n);
    lemma_sum_ext(|i: int| f((i + s) % n), |i: int| f(pi(i)), n);
}

/// multiplicative reindexing i -> (i * k) % n, where k * ki = 1 mod n
pub proof fn lemma_sum_mul(f: spec_fn(int) -> int, k: int, ki: int, n: int)
    requires n > 0, (k * ki) % n == 1int % n,
    ensures sum(|i: int| f((i * k) % n), n) == sum(f, n),
{
    let pi = |i: int| (i * k) % n;
    let q = |j: int| (j * ki) % n;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] pi(i) < n && q(pi(i)) == i by {
        lemma_mod_range(i * k, n);
        lemma_mod_mul_l(i * k, ki, n);
        assert((i * k) * ki == (k * ki) * i) by (nonlinear_arith);
        lemma_mod_mul_l(k * ki, i, n);
        lemma_mod_mul_l(1, i, n);
        lemma_mod_range(i, n);
    }
    assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] q(j) < n && pi(q(j)) == j by {
        lemma_mod_range(j * ki, n);
        lemma_mod_mul_l(j * ki, k, n);
        assert((j * ki) * k == (k * ki) * j) by (nonlinear_arith);
        lemma_mod_mul_l(k * ki, j, n);
        lemma_mod_mul_l(1, j, n);
        lemma_mod_range(j, n);
    }
    lemma_sum_perm(f, pi, q, n);
    lemma_sum_ext(|i: int| f((i * k) % n), |i: int| f(pi(i)), n);
}
