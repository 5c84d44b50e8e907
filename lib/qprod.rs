// ===== lib/qprod.rs: the product of two quaternion sequences =====
pub open spec fn pent(a: Seq<Quaternion>, b: Seq<Quaternion>, k: int) -> Quaternion { hq(hmul(hv(a[k % (a.len() as int)]), hv(b[k % (b.len() as int)]))) }
/// c is the product of a and b: length p q and c[k] = a[k mod p] b[k mod q]
pub open spec fn is_prod(c: Seq<Quaternion>, a: Seq<Quaternion>, b: Seq<Quaternion>) -> bool {
    c.len() == a.len() * b.len() && (forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == pent(a, b, k))
}
pub open spec fn h2(t: H) -> H { hadd(t, t) }
pub open spec fn h4(t: H) -> H { H { s: 4 * t.s, x: 4 * t.x, y: 4 * t.y, z: 4 * t.z } }
pub open spec fn hm3(a: H, u: H, c: H) -> H { hraw(a, hraw(u, c)) }
pub proof fn lemma_hraw_add_r(a: H, u: H, v: H)
    ensures hraw(a, hadd(u, v)) == hadd(hraw(a, u), hraw(a, v)),
{
    reveal(hraw);
    assert(forall|x: int, y: int, z: int| #[trigger] (x * (y + z)) == x * y + x * z) by(nonlinear_arith);
}
pub proof fn lemma_hraw_add_l(u: H, v: H, c: H)
    ensures hraw(hadd(u, v), c) == hadd(hraw(u, c), hraw(v, c)),
{
    reveal(hraw);
    assert(forall|x: int, y: int, z: int| #[trigger] ((y + z) * x) == y * x + z * x) by(nonlinear_arith);
}
pub proof fn lemma_hraw_zero(a: H)
    ensures hraw(a, h0()) == h0(), hraw(h0(), a) == h0(),
{ reveal(hraw); assert(forall|x: int| #[trigger] (x * 0) == 0) by(nonlinear_arith); assert(forall|x: int| #[trigger] (0 * x) == 0) by(nonlinear_arith); }
#[verifier::opaque]
pub open spec fn mm(x: int, y: int) -> int { x * y }
pub proof fn lemma_mm4(p: int, q: int, r: int, s: int, b1: bool, b2: bool, b3: bool, c: int)
    ensures mm(p + (if b1 { q } else { -q }) + (if b2 { r } else { -r }) + (if b3 { s } else { -s }), c)
            == mm(p, c) + (if b1 { mm(q, c) } else { -mm(q, c) }) + (if b2 { mm(r, c) } else { -mm(r, c) }) + (if b3 { mm(s, c) } else { -mm(s, c) }),
        mm(c, p + (if b1 { q } else { -q }) + (if b2 { r } else { -r }) + (if b3 { s } else { -s }))
            == mm(c, p) + (if b1 { mm(c, q) } else { -mm(c, q) }) + (if b2 { mm(c, r) } else { -mm(c, r) }) + (if b3 { mm(c, s) } else { -mm(c, s) }),
{
    reveal(mm);
    let (x, y, z) = (if b1 { q } else { -q }, if b2 { r } else { -r }, if b3 { s } else { -s });
    assert((p + x + y + z) * c == p * c + x * c + y * c + z * c) by(nonlinear_arith);
    assert(c * (p + x + y + z) == c * p + c * x + c * y + c * z) by(nonlinear_arith);
    assert((-q) * c == -(q * c) && (-r) * c == -(r * c) && (-s) * c == -(s * c)) by(nonlinear_arith);
    assert(c * (-q) == -(c * q) && c * (-r) == -(c * r) && c * (-s) == -(c * s)) by(nonlinear_arith);
}
pub proof fn lemma_mm_assoc(a: int, b: int, c: int)
    ensures mm(mm(a, b), c) == mm(a, mm(b, c)),
{ reveal(mm); assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
pub open spec fn hrawm(a: H, b: H) -> H {
    H { s: mm(a.s, b.s) - mm(a.x, b.x) - mm(a.y, b.y) - mm(a.z, b.z), x: mm(a.s, b.x) + mm(a.x, b.s) + mm(a.y, b.z) - mm(a.z, b.y), y: mm(a.s, b.y) - mm(a.x, b.z) + mm(a.y, b.s) + mm(a.z, b.x), z: mm(a.s, b.z) + mm(a.x, b.y) - mm(a.y, b.x) + mm(a.z, b.s) }
}
pub proof fn lemma_hrawm(a: H, b: H) ensures hraw(a, b) == hrawm(a, b), { reveal(hraw); reveal(mm); }
pub proof fn lemma_assoc_s(a: H, b: H, c: H)
    ensures hrawm(hrawm(a, b), c).s == hrawm(a, hrawm(b, c)).s,
{
    lemma_mm4(mm(a.s, b.s), mm(a.x, b.x), mm(a.y, b.y), mm(a.z, b.z), false, false, false, c.s);
    lemma_mm_assoc(a.s, b.s, c.s);
    lemma_mm_assoc(a.x, b.x, c.s);
    lemma_mm_assoc(a.y, b.y, c.s);
    lemma_mm_assoc(a.z, b.z, c.s);
    lemma_mm4(mm(a.s, b.x), mm(a.x, b.s), mm(a.y, b.z), mm(a.z, b.y), true, true, false, c.x);
    lemma_mm_assoc(a.s, b.x, c.x);
    lemma_mm_assoc(a.x, b.s, c.x);
    lemma_mm_assoc(a.y, b.z, c.x);
    lemma_mm_assoc(a.z, b.y, c.x);
    lemma_mm4(mm(a.s, b.y), mm(a.x, b.z), mm(a.y, b.s), mm(a.z, b.x), false, true, true, c.y);
    lemma_mm_assoc(a.s, b.y, c.y);
    lemma_mm_assoc(a.x, b.z, c.y);
    lemma_mm_assoc(a.y, b.s, c.y);
    lemma_mm_assoc(a.z, b.x, c.y);
    lemma_mm4(mm(a.s, b.z), mm(a.x, b.y), mm(a.y, b.x), mm(a.z, b.s), true, false, true, c.z);
    lemma_mm_assoc(a.s, b.z, c.z);
    lemma_mm_assoc(a.x, b.y, c.z);
    lemma_mm_assoc(a.y, b.x, c.z);
    lemma_mm_assoc(a.z, b.s, c.z);
    lemma_mm4(mm(b.s, c.s), mm(b.x, c.x), mm(b.y, c.y), mm(b.z, c.z), false, false, false, a.s);
    lemma_mm4(mm(b.s, c.x), mm(b.x, c.s), mm(b.y, c.z), mm(b.z, c.y), true, true, false, a.x);
    lemma_mm4(mm(b.s, c.y), mm(b.x, c.z), mm(b.y, c.s), mm(b.z, c.x), false, true, true, a.y);
    lemma_mm4(mm(b.s, c.z), mm(b.x, c.y), mm(b.y, c.x), mm(b.z, c.s), true, false, true, a.z);
}
pub proof fn lemma_assoc_x(a: H, b: H, c: H)
    ensures hrawm(hrawm(a, b), c).x == hrawm(a, hrawm(b, c)).x,
{
    lemma_mm4(mm(a.s, b.s), mm(a.x, b.x), mm(a.y, b.y), mm(a.z, b.z), false, false, false, c.x);
    lemma_mm_assoc(a.s, b.s, c.x);
    lemma_mm_assoc(a.x, b.x, c.x);
    lemma_mm_assoc(a.y, b.y, c.x);
    lemma_mm_assoc(a.z, b.z, c.x);
    lemma_mm4(mm(a.s, b.x), mm(a.x, b.s), mm(a.y, b.z), mm(a.z, b.y), true, true, false, c.s);
    lemma_mm_assoc(a.s, b.x, c.s);
    lemma_mm_assoc(a.x, b.s, c.s);
    lemma_mm_assoc(a.y, b.z, c.s);
    lemma_mm_assoc(a.z, b.y, c.s);
    lemma_mm4(mm(a.s, b.y), mm(a.x, b.z), mm(a.y, b.s), mm(a.z, b.x), false, true, true, c.z);
    lemma_mm_assoc(a.s, b.y, c.z);
    lemma_mm_assoc(a.x, b.z, c.z);
    lemma_mm_assoc(a.y, b.s, c.z);
    lemma_mm_assoc(a.z, b.x, c.z);
    lemma_mm4(mm(a.s, b.z), mm(a.x, b.y), mm(a.y, b.x), mm(a.z, b.s), true, false, true, c.y);
    lemma_mm_assoc(a.s, b.z, c.y);
    lemma_mm_assoc(a.x, b.y, c.y);
    lemma_mm_assoc(a.y, b.x, c.y);
    lemma_mm_assoc(a.z, b.s, c.y);
    lemma_mm4(mm(b.s, c.x), mm(b.x, c.s), mm(b.y, c.z), mm(b.z, c.y), true, true, false, a.s);
    lemma_mm4(mm(b.s, c.s), mm(b.x, c.x), mm(b.y, c.y), mm(b.z, c.z), false, false, false, a.x);
    lemma_mm4(mm(b.s, c.z), mm(b.x, c.y), mm(b.y, c.x), mm(b.z, c.s), true, false, true, a.y);
    lemma_mm4(mm(b.s, c.y), mm(b.x, c.z), mm(b.y, c.s), mm(b.z, c.x), false, true, true, a.z);
}
pub proof fn lemma_assoc_y(a: H, b: H, c: H)
    ensures hrawm(hrawm(a, b), c).y == hrawm(a, hrawm(b, c)).y,
{
    lemma_mm4(mm(a.s, b.s), mm(a.x, b.x), mm(a.y, b.y), mm(a.z, b.z), false, false, false, c.y);
    lemma_mm_assoc(a.s, b.s, c.y);
    lemma_mm_assoc(a.x, b.x, c.y);
    lemma_mm_assoc(a.y, b.y, c.y);
    lemma_mm_assoc(a.z, b.z, c.y);
    lemma_mm4(mm(a.s, b.x), mm(a.x, b.s), mm(a.y, b.z), mm(a.z, b.y), true, true, false, c.z);
    lemma_mm_assoc(a.s, b.x, c.z);
    lemma_mm_assoc(a.x, b.s, c.z);
    lemma_mm_assoc(a.y, b.z, c.z);
    lemma_mm_assoc(a.z, b.y, c.z);
    lemma_mm4(mm(a.s, b.y), mm(a.x, b.z), mm(a.y, b.s), mm(a.z, b.x), false, true, true, c.s);
    lemma_mm_assoc(a.s, b.y, c.s);
    lemma_mm_assoc(a.x, b.z, c.s);
    lemma_mm_assoc(a.y, b.s, c.s);
    lemma_mm_assoc(a.z, b.x, c.s);
    lemma_mm4(mm(a.s, b.z), mm(a.x, b.y), mm(a.y, b.x), mm(a.z, b.s), true, false, true, c.x);
    lemma_mm_assoc(a.s, b.z, c.x);
    lemma_mm_assoc(a.x, b.y, c.x);
    lemma_mm_assoc(a.y, b.x, c.x);
    lemma_mm_assoc(a.z, b.s, c.x);
    lemma_mm4(mm(b.s, c.y), mm(b.x, c.z), mm(b.y, c.s), mm(b.z, c.x), false, true, true, a.s);
    lemma_mm4(mm(b.s, c.z), mm(b.x, c.y), mm(b.y, c.x), mm(b.z, c.s), true, false, true, a.x);
    lemma_mm4(mm(b.s, c.s), mm(b.x, c.x), mm(b.y, c.y), mm(b.z, c.z), false, false, false, a.y);
    lemma_mm4(mm(b.s, c.x), mm(b.x, c.s), mm(b.y, c.z), mm(b.z, c.y), true, true, false, a.z);
}
pub proof fn lemma_assoc_z(a: H, b: H, c: H)
    ensures hrawm(hrawm(a, b), c).z == hrawm(a, hrawm(b, c)).z,
{
    lemma_mm4(mm(a.s, b.s), mm(a.x, b.x), mm(a.y, b.y), mm(a.z, b.z), false, false, false, c.z);
    lemma_mm_assoc(a.s, b.s, c.z);
    lemma_mm_assoc(a.x, b.x, c.z);
    lemma_mm_assoc(a.y, b.y, c.z);
    lemma_mm_assoc(a.z, b.z, c.z);
    lemma_mm4(mm(a.s, b.x), mm(a.x, b.s), mm(a.y, b.z), mm(a.z, b.y), true, true, false, c.y);
    lemma_mm_assoc(a.s, b.x, c.y);
    lemma_mm_assoc(a.x, b.s, c.y);
    lemma_mm_assoc(a.y, b.z, c.y);
    lemma_mm_assoc(a.z, b.y, c.y);
    lemma_mm4(mm(a.s, b.y), mm(a.x, b.z), mm(a.y, b.s), mm(a.z, b.x), false, true, true, c.x);
    lemma_mm_assoc(a.s, b.y, c.x);
    lemma_mm_assoc(a.x, b.z, c.x);
    lemma_mm_assoc(a.y, b.s, c.x);
    lemma_mm_assoc(a.z, b.x, c.x);
    lemma_mm4(mm(a.s, b.z), mm(a.x, b.y), mm(a.y, b.x), mm(a.z, b.s), true, false, true, c.s);
    lemma_mm_assoc(a.s, b.z, c.s);
    lemma_mm_assoc(a.x, b.y, c.s);
    lemma_mm_assoc(a.y, b.x, c.s);
    lemma_mm_assoc(a.z, b.s, c.s);
    lemma_mm4(mm(b.s, c.z), mm(b.x, c.y), mm(b.y, c.x), mm(b.z, c.s), true, false, true, a.s);
    lemma_mm4(mm(b.s, c.y), mm(b.x, c.z), mm(b.y, c.s), mm(b.z, c.x), false, true, true, a.x);
    lemma_mm4(mm(b.s, c.x), mm(b.x, c.s), mm(b.y, c.z), mm(b.z, c.y), true, true, false, a.y);
    lemma_mm4(mm(b.s, c.s), mm(b.x, c.x), mm(b.y, c.y), mm(b.z, c.z), false, false, false, a.z);
}
pub proof fn lemma_hraw_assoc(a: H, b: H, c: H)
    ensures hraw(hraw(a, b), c) == hraw(a, hraw(b, c)),
{
    lemma_hrawm(a, b); lemma_hrawm(b, c); lemma_hrawm(hraw(a, b), c); lemma_hrawm(a, hraw(b, c));
    lemma_assoc_s(a, b, c); lemma_assoc_x(a, b, c); lemma_assoc_y(a, b, c); lemma_assoc_z(a, b, c);
}
/// (a b) conj(a2 b2) = a (b conj b2) conj a2
pub proof fn lemma_pterm(a: H, b: H, a2: H, b2: H)
    requires unit24(a), unit24(b), unit24(a2), unit24(b2),
    ensures h4(hmul(hmul(a, b), hconj(hmul(a2, b2)))) == hm3(a, hmul(b, hconj(b2)), hconj(a2)),
{
    lemma_unit_conj(a2); lemma_unit_conj(b2);
    lemma_unit_mul(a, b); lemma_unit_mul(a2, b2);
    let x = hmul(a, b); let m = hmul(a2, b2); let y = hconj(m); let ac = hconj(a2); let bc = hconj(b2);
    lemma_unit_conj(m);
    lemma_unit_mul(x, y); lemma_unit_mul(b, bc);
    let t = hmul(x, y); let u = hmul(b, bc);
    lemma_hmul_conj(a2, b2);
    assert(hraw(bc, ac) == h2(y));
    // ((a b)(bc ac)) = 8 t
    lemma_hraw_add_r(h2(x), y, y); lemma_hraw_add_l(x, x, y);
    assert(hraw(hraw(a, b), hraw(bc, ac)) == h2(h4(t)));
    // = a ((b bc) ac) = 2 a (u ac)
    lemma_hraw_assoc(a, b, hraw(bc, ac));
    lemma_hraw_assoc(b, bc, ac);
    lemma_hraw_add_l(u, u, ac);
    lemma_hraw_add_r(a, hraw(u, ac), hraw(u, ac));
    assert(hraw(hraw(a, b), hraw(bc, ac)) == h2(hm3(a, u, ac)));
}
pub proof fn lemma_hraw_h1(a: H) ensures hraw(h1(), a) == h2(a), { reveal(hraw); assert(forall|x: int| #[trigger] (2 * x) == x + x) by(nonlinear_arith); assert(forall|x: int| #[trigger] (0 * x) == 0) by(nonlinear_arith); }
pub proof fn lemma_h4_inj(a: H, b: H) requires h4(a) == h2(h2(b)), ensures a == b, { }
/// if b2 = b the middle factor disappears
pub proof fn lemma_pterm_same(a: H, b: H, a2: H)
    requires unit24(a), unit24(b), unit24(a2),
    ensures hmul(hmul(a, b), hconj(hmul(a2, b))) == hmul(a, hconj(a2)),
{
    lemma_pterm(a, b, a2, b);
    lemma_unit_one(b);
    lemma_unit_conj(a2);
    lemma_unit_mul(a, hconj(a2));
    let ac = hconj(a2);
    lemma_hraw_h1(ac);
    lemma_hraw_add_r(a, ac, ac);
    lemma_h4_inj(hmul(hmul(a, b), hconj(hmul(a2, b))), hmul(a, ac));
}
pub proof fn lemma_hm3_sum(f: spec_fn(int) -> H, g: spec_fn(int) -> H, a: H, c: H, n: int)
    requires n >= 0, forall|j: int| 0 <= j < n ==> h4(#[trigger] f(j)) == hm3(a, g(j), c),
    ensures h4(hsum(f, n)) == hm3(a, hsum(g, n), c),
    decreases n,
{
    if n == 0 {
        lemma_hsum0(f); lemma_hsum0(g); lemma_hraw_zero(c); lemma_hraw_zero(a);
    } else {
        lemma_hm3_sum(f, g, a, c, n - 1);
        lemma_hsum_step(f, n - 1); lemma_hsum_step(g, n - 1);
        lemma_hraw_add_l(hsum(g, n - 1), g(n - 1), c);
        lemma_hraw_add_r(a, hraw(hsum(g, n - 1), c), hraw(g(n - 1), c));
    }
}
pub proof fn lemma_hsum_perm(f: spec_fn(int) -> H, pi: spec_fn(int) -> int, q: spec_fn(int) -> int, n: int)
    requires n >= 0,
        forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pi(i) < n && q(pi(i)) == i,
        forall|j: int| 0 <= j < n ==> 0 <= #[trigger] q(j) < n && pi(q(j)) == j,
    ensures hsum(|i: int| f(pi(i)), n) == hsum(f, n),
{
    let (fs, fx, fy, fz) = (|i: int| f(i).s, |i: int| f(i).x, |i: int| f(i).y, |i: int| f(i).z);
    lemma_sum_perm(fs, pi, q, n); lemma_sum_perm(fx, pi, q, n); lemma_sum_perm(fy, pi, q, n); lemma_sum_perm(fz, pi, q, n);
    let g = |i: int| f(pi(i));
    lemma_sum_ext(|i: int| g(i).s, |i: int| fs(pi(i)), n);
    lemma_sum_ext(|i: int| g(i).x, |i: int| fx(pi(i)), n);
    lemma_sum_ext(|i: int| g(i).y, |i: int| fy(pi(i)), n);
    lemma_sum_ext(|i: int| g(i).z, |i: int| fz(pi(i)), n);
}
pub proof fn lemma_hsum_mul(f: spec_fn(int) -> H, k: int, ki: int, n: int)
    requires n > 0, (k * ki) % n == 1int % n,
    ensures hsum(|i: int| f((i * k) % n), n) == hsum(f, n),
{
    let (fs, fx, fy, fz) = (|i: int| f(i).s, |i: int| f(i).x, |i: int| f(i).y, |i: int| f(i).z);
    lemma_sum_mul(fs, k, ki, n); lemma_sum_mul(fx, k, ki, n); lemma_sum_mul(fy, k, ki, n); lemma_sum_mul(fz, k, ki, n);
    let g = |i: int| f((i * k) % n);
    lemma_sum_ext(|i: int| g(i).s, |i: int| fs((i * k) % n), n);
    lemma_sum_ext(|i: int| g(i).x, |i: int| fx((i * k) % n), n);
    lemma_sum_ext(|i: int| g(i).y, |i: int| fy((i * k) % n), n);
    lemma_sum_ext(|i: int| g(i).z, |i: int| fz((i * k) % n), n);
}
/// the j-th element of block r of length q
pub open spec fn block(f: spec_fn(int) -> H, q: int, r: int) -> spec_fn(int) -> H { |j: int| f(r * q + j) }
pub proof fn lemma_hsum_split(f: spec_fn(int) -> H, m: int, n: int)
    requires m >= 0, n >= 0,
    ensures hsum(f, m + n) == hadd(hsum(f, m), hsum(|j: int| f(m + j), n)),
    decreases n,
{
    let g = |j: int| f(m + j);
    if n == 0 { lemma_hsum0(g); } else {
        lemma_hsum_split(f, m, n - 1);
        lemma_hsum_step(f, m + n - 1); lemma_hsum_step(g, n - 1);
        assert(g(n - 1) == f(m + n - 1));
    }
}
pub proof fn lemma_hsum_blocks(f: spec_fn(int) -> H, p: int, q: int)
    requires p >= 0, q >= 0, forall|r: int| 0 <= r < p ==> hsum(#[trigger] block(f, q, r), q) == h0(),
    ensures hsum(f, p * q) == h0(),
    decreases p,
{
    if p == 0 { assert(0 * q == 0) by(nonlinear_arith); lemma_hsum0(f); } else {
        lemma_hsum_blocks(f, p - 1, q);
        assert(p * q == (p - 1) * q + q && (p - 1) * q >= 0) by(nonlinear_arith) requires p >= 1, q >= 0;
        lemma_hsum_split(f, (p - 1) * q, q);
        lemma_hsum_ext(|j: int| f((p - 1) * q + j), block(f, q, p - 1), q);
    }
}
pub proof fn lemma_divmod_q(q: int, r: int, j: int)
    requires 0 <= j < q,
    ensures (r * q + j) / q == r, (r * q + j) % q == j,
{
    let x = r * q + j; let d = x / q;
    lemma_mod_add_multiple(j, r, q); lemma_mod_range(j, q); lemma_mod_decomp(x, q);
    assert(x % q == j);
    assert(d == r) by(nonlinear_arith) requires d * q == r * q, q > 0;
}
/// reading [0, pq) column by column
pub proof fn lemma_hsum_transpose(f: spec_fn(int) -> H, p: int, q: int)
    requires p > 0, q > 0,
    ensures hsum(|k: int| f(k / q + p * (k % q)), p * q) == hsum(f, p * q),
{
    let pi = |k: int| k / q + p * (k % q);
    let iv = |l: int| (l % p) * q + l / p;
    let n = p * q;
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] pi(i) < n && iv(pi(i)) == i by {
        let (d, r) = (i / q, i % q);
        lemma_mod_decomp(i, q); lemma_mod_range(i, q);
        assert(0 <= d < p) by(nonlinear_arith) requires d * q + r == i, 0 <= r < q, 0 <= i < p * q;
        assert(p * r == r * p) by(nonlinear_arith);
        lemma_divmod_q(p, r, d);
        assert(0 <= d + p * r < p * q) by(nonlinear_arith) requires 0 <= d < p, 0 <= r < q;
    }
    assert forall|l: int| 0 <= l < n implies 0 <= #[trigger] iv(l) < n && pi(iv(l)) == l by {
        let (d, r) = (l / p, l % p);
        lemma_mod_decomp(l, p); lemma_mod_range(l, p);
        assert(0 <= d < q) by(nonlinear_arith) requires d * p + r == l, 0 <= r < p, 0 <= l < p * q;
        assert(p * d == d * p) by(nonlinear_arith);
        lemma_divmod_q(q, r, d);
        assert(0 <= r * q + d < p * q) by(nonlinear_arith) requires 0 <= r < p, 0 <= d < q;
    }
    lemma_hsum_perm(f, pi, iv, n);
    lemma_hsum_ext(|k: int| f(k / q + p * (k % q)), |k: int| f(pi(k)), n);
}
pub proof fn lemma_mod_mod_prod(x: int, p: int, q: int)
    requires p > 0, q > 0,
    ensures (x % (p * q)) % p == x % p, (x % (p * q)) % q == x % q, p * q > 0,
{
    assert(p * q > 0) by(nonlinear_arith) requires p > 0, q > 0;
    let d = x / (p * q);
    lemma_mod_decomp(x, p * q);
    assert(d * (p * q) == (d * q) * p && d * (p * q) == (d * p) * q) by(nonlinear_arith);
    lemma_mod_add_multiple(x % (p * q), d * q, p);
    lemma_mod_add_multiple(x % (p * q), d * p, q);
}
pub proof fn lemma_qac_mod(v: Seq<Quaternion>, t: int)
    requires v.len() > 0,
    ensures qac(v, t) == qac(v, t % (v.len() as int)),
{
    let n = v.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] qterm(v, t)(i) == qterm(v, t % n)(i) by { lemma_mod_add_l(t, i, n); }
    lemma_hsum_ext(qterm(v, t), qterm(v, t % n), n);
}
pub proof fn lemma_prod_term(a: Seq<Quaternion>, b: Seq<Quaternion>, c: Seq<Quaternion>, t: int, k: int)
    requires allu(a), allu(b), a.len() > 0, b.len() > 0, is_prod(c, a, b), 0 <= k < c.len(),
    ensures ({ let (p, q) = (a.len() as int, b.len() as int);
        &&& 0 <= k % p < p && 0 <= (k + t) % p < p && 0 <= k % q < q && 0 <= (k + t) % q < q
        &&& unit24(hv(a[k % p])) && unit24(hv(a[(k + t) % p])) && unit24(hv(b[k % q])) && unit24(hv(b[(k + t) % q]))
        &&& qterm(c, t)(k) == hmul(hmul(hv(a[k % p]), hv(b[k % q])), hconj(hmul(hv(a[(k + t) % p]), hv(b[(k + t) % q])))) }),
{
    let (p, q) = (a.len() as int, b.len() as int);
    lemma_mod_mod_prod(k + t, p, q);
    lemma_mod_range(k + t, p * q); lemma_mod_range(k, p); lemma_mod_range(k, q); lemma_mod_range(k + t, p); lemma_mod_range(k + t, q);
    assert(isu(a[k % p]) && isu(a[(k + t) % p]) && isu(b[k % q]) && isu(b[(k + t) % q]));
    let l = (k + t) % (p * q);
    assert(c[k] == pent(a, b, k) && c[l] == pent(a, b, l));
    lemma_hq(pent(a, b, k));
}
/// offsets that are no multiple of q: each residue class mod p contributes a R_b(t) conj(a') = 0
pub proof fn lemma_prod_b(a: Seq<Quaternion>, b: Seq<Quaternion>, c: Seq<Quaternion>, t: int, pinv: int)
    requires allu(a), allu(b), a.len() > 0, b.len() > 0, is_prod(c, a, b), ((a.len() as int) * pinv) % (b.len() as int) == 1int % (b.len() as int), qac(b, t) == h0(),
    ensures qac(c, t) == h0(),
{
    let (p, q) = (a.len() as int, b.len() as int);
    let f = qterm(c, t);
    let g = |k: int| f(k / q + p * (k % q));
    lemma_hsum_transpose(f, p, q);
    let u = qterm(b, t);
    assert forall|r: int| 0 <= r < p implies hsum(#[trigger] block(g, q, r), q) == h0() by {
        let bl = block(g, q, r);
        let u1 = |i: int| u((i + r) % q);
        let u2 = |j: int| u1((j * p) % q);
        let (ar, ar2) = (hv(a[r]), hconj(hv(a[(r + t) % p])));
        assert forall|j: int| 0 <= j < q implies h4(#[trigger] bl(j)) == hm3(ar, u2(j), ar2) by {
            lemma_divmod_q(q, r, j);
            let k = r + p * j;
            assert(bl(j) == f(k));
            assert(0 <= k < p * q) by(nonlinear_arith) requires k == r + p * j, 0 <= r < p, 0 <= j < q;
            lemma_prod_term(a, b, c, t, k);
            assert(p * j == j * p) by(nonlinear_arith);
            lemma_mod_add_multiple(r, j, p); lemma_mod_range(r, p);
            lemma_mod_add_multiple(r + t, j, p);
            assert(k % p == r && (k + t) % p == (r + t) % p);
            lemma_mod_add_l(j * p, r, q);
            let s = k % q;
            assert(s == ((j * p) % q + r) % q);
            lemma_mod_add_l(k, t, q);
            lemma_pterm(hv(a[r]), hv(b[s]), hv(a[(r + t) % p]), hv(b[(k + t) % q]));
            assert(u2(j) == hmul(hv(b[s]), hconj(hv(b[(s + t) % q]))));
        }
        lemma_hm3_sum(bl, u2, ar, ar2, q);
        lemma_hsum_mul(u1, p, pinv, q);
        lemma_hsum_shift(u, r, q);
        assert(hsum(u2, q) == h0());
        lemma_hraw_zero(ar2); lemma_hraw_zero(ar);
    }
    lemma_hsum_blocks(g, p, q);
}
/// offsets that are multiples of q: each block of length p contributes R_a(t)
pub proof fn lemma_prod_a(a: Seq<Quaternion>, b: Seq<Quaternion>, c: Seq<Quaternion>, t: int)
    requires allu(a), allu(b), a.len() > 0, b.len() > 0, is_prod(c, a, b), t % (b.len() as int) == 0, qac(a, t) == h0(),
    ensures qac(c, t) == h0(),
{
    let (p, q) = (a.len() as int, b.len() as int);
    let f = qterm(c, t);
    assert forall|r: int| 0 <= r < q implies hsum(#[trigger] block(f, p, r), p) == h0() by {
        let bl = block(f, p, r);
        assert forall|j: int| 0 <= j < p implies #[trigger] bl(j) == qterm(a, t)(j) by {
            let k = r * p + j;
            assert(0 <= k < p * q) by(nonlinear_arith) requires k == r * p + j, 0 <= j < p, 0 <= r < q;
            lemma_prod_term(a, b, c, t, k);
            lemma_mod_add_multiple(j, r, p); lemma_mod_range(j, p);
            lemma_mod_add_multiple(j + t, r, p);
            lemma_mod_add_l(t, k, q);
            lemma_pterm_same(hv(a[j]), hv(b[k % q]), hv(a[(j + t) % p]));
        }
        lemma_hsum_ext(bl, qterm(a, t), p);
    }
    lemma_hsum_blocks(f, q, p);
    assert(p * q == q * p) by(nonlinear_arith);
}
pub proof fn lemma_prod_perfect(a: Seq<Quaternion>, b: Seq<Quaternion>, c: Seq<Quaternion>)
    requires allu(a), allu(b), a.len() > 0, b.len() > 0, is_prod(c, a, b), coprime_def(a.len() as int, b.len() as int), perfect(a), perfect(b),
    ensures perfect(c),
{
    let (p, q) = (a.len() as int, b.len() as int);
    lemma_coprime_gcd(p, q);
    let (x, y) = lemma_gcd(p, q);
    assert(p * x == 1 + (-y) * q) by(nonlinear_arith) requires p * x + q * y == 1;
    lemma_mod_add_multiple(1, -y, q);
    assert forall|t: int| 1 <= t < c.len() implies #[trigger] zero_at(c, t) by {
        lemma_mod_range(t, q); lemma_mod_range(t, p);
        if t % q != 0 {
            lemma_qac_mod(b, t);
            assert(zero_at(b, t % q));
            lemma_prod_b(a, b, c, t, x);
        } else {
            if t % p == 0 {
                lemma_mod_decomp(t, p); lemma_mod_decomp(t, q);
                let (u, v) = (t / p, t / q);
                let w = x * v + y * u;
                assert(t == p * q * w) by(nonlinear_arith) requires p * x + q * y == 1, t == u * p, t == v * q, w == x * v + y * u;
                assert(false) by(nonlinear_arith) requires t == (p * q) * w, 1 <= t < p * q;
            }
            lemma_qac_mod(a, t);
            assert(zero_at(a, t % p));
            lemma_prod_a(a, b, c, t);
        }
    }
}
pub proof fn lemma_prod_unit(a: Seq<Quaternion>, b: Seq<Quaternion>, k: int)
    requires allu(a), allu(b), a.len() > 0, b.len() > 0,
    ensures 0 <= k % (a.len() as int) < a.len(), 0 <= k % (b.len() as int) < b.len(), isu(a[k % (a.len() as int)]), isu(b[k % (b.len() as int)]), isu(pent(a, b, k)),
{
    let (p, q) = (a.len() as int, b.len() as int);
    lemma_mod_range(k, p); lemma_mod_range(k, q);
    assert(isu(a[k % p]) && isu(b[k % q]));
    lemma_unit_mul(hv(a[k % p]), hv(b[k % q]));
    lemma_hq(pent(a, b, k));
}
