// ===== lib/numth.rs: divisibility, gcd, units modulo n =====
pub open spec fn unit_mod(k: int, n: int) -> bool { exists|ki: int| #[trigger] (k * ki) % n == 1int % n }
pub open spec fn divides(d: int, x: int) -> bool { exists|k: int| #[trigger] (k * d) == x }
/// the definition: no common divisor greater than one
pub open spec fn coprime_def(a: int, b: int) -> bool { forall|d: int| d >= 1 && #[trigger] divides(d, a) && divides(d, b) ==> d == 1 }

pub open spec fn gcd(a: int, b: int) -> int
    decreases b,
{
    if b <= 0 { a } else { gcd(b, a % b) }
}

pub proof fn lemma_div_lin(d: int, a: int, b: int, k: int)
    requires divides(d, a), divides(d, b),
    ensures divides(d, a + k * b), divides(d, a - k * b),
{
    let x = choose|x: int| #[trigger] (x * d) == a;
    let y = choose|y: int| #[trigger] (y * d) == b;
    assert((x + k * y) * d == a + k * b) by (nonlinear_arith) requires x * d == a, y * d == b;
    assert((x - k * y) * d == a - k * b) by (nonlinear_arith) requires x * d == a, y * d == b;
}

/// gcd divides both arguments and is a linear combination of them
pub proof fn lemma_gcd(a: int, b: int) -> (xy: (int, int))
    requires a >= 0, b >= 0,
    ensures
        gcd(a, b) >= 0, a + b > 0 ==> gcd(a, b) >= 1,
        divides(gcd(a, b), a), divides(gcd(a, b), b),
        a * xy.0 + b * xy.1 == gcd(a, b),
    decreases b,
{
    if b <= 0 {
        assert(1 * a == a); assert(0 * a == 0);
        assert(a * 1 + b * 0 == a);
        (1, 0)
    } else {
        lemma_mod_decomp(a, b);
        let (x, y) = lemma_gcd(b, a % b);
        let g = gcd(a, b);
        lemma_div_lin(g, a % b, b, a / b);
        assert(b * x + (a % b) * y == g);
        assert(a * y + b * (x - (a / b) * y) == g) by (nonlinear_arith)
            requires b * x + (a % b) * y == g, a == (a / b) * b + a % b;
        (y, x - (a / b) * y)
    }
}

pub proof fn lemma_gcd_swap_less(a: int, b: int)
    requires 0 <= a < b,
    ensures gcd(a, b) == gcd(b, a),
{
    lemma_mod_range(a, b);
}

pub proof fn lemma_coprime_gcd(a: int, b: int)
    requires a >= 0, b >= 0, a + b > 0,
    ensures coprime_def(a, b) == (gcd(a, b) == 1),
{
    let (x, y) = lemma_gcd(a, b);
    let g = gcd(a, b);
    if g == 1 {
        assert forall|d: int| d >= 1 && #[trigger] divides(d, a) && divides(d, b) implies d == 1 by {
            let u = choose|u: int| #[trigger] (u * d) == a;
            let v = choose|v: int| #[trigger] (v * d) == b;
            assert((u * x + v * y) * d == 1) by (nonlinear_arith) requires u * d == a, v * d == b, a * x + b * y == 1;
            let w = u * x + v * y;
            assert(d == 1) by (nonlinear_arith) requires w * d == 1, d >= 1;
        }
    }
    if coprime_def(a, b) { assert(divides(g, a) && divides(g, b)); }
}

/// a number coprime to n is invertible modulo n
pub proof fn lemma_unit(k: int, n: int)
    requires k >= 0, n > 0, coprime_def(k, n),
    ensures unit_mod(k, n),
{
    lemma_coprime_gcd(k, n);
    let (x, y) = lemma_gcd(k, n);
    assert(k * x == 1 + (-y) * n) by (nonlinear_arith) requires k * x + n * y == 1;
    lemma_mod_cong(k * x, 1, -y, n);
}

pub open spec fn sorted_strict(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// l lists exactly the numbers 1..=i coprime to i, ascending
pub open spec fn lists_coprimes(l: Seq<usize>, i: int) -> bool {
    &&& sorted_strict(l)
    &&& forall|j: int| 0 <= j < l.len() ==> 1 <= #[trigger] l[j] <= i && coprime_def(i, l[j] as int)
    &&& forall|k: int| 1 <= k <= i && #[trigger] coprime_def(i, k) ==> exists|j: int| 0 <= j < l.len() && #[trigger] l[j] == k
}
pub open spec fn coprime_table(t: Seq<Vec<usize>>) -> bool {
    &&& t.len() >= 101
    &&& forall|i: int| 1 <= i < t.len() ==> lists_coprimes(#[trigger] t[i]@, i)
}
/// the same for a sequence of references
pub open spec fn lists_coprimes_r(l: Seq<&usize>, i: int) -> bool { lists_coprimes(Seq::new(l.len(), |j: int| *l[j]), i) }
