// ===== lib/gen.rs: sequences with a given number of ones =====
/// number of entries equal to one among s[pos..]
pub open spec fn ones(s: Seq<i8>, pos: int) -> int
    decreases s.len() - pos,
{
    if pos < 0 || pos >= s.len() { 0 } else { (if s[pos] == 1 { 1int } else { 0int }) + ones(s, pos + 1) }
}
pub open spec fn pm_from(s: Seq<i8>, pos: int) -> bool { forall|j: int| pos <= j < s.len() ==> #[trigger] s[j] == 1 || s[j] == -1 }
/// t agrees with s before pos and has k ones among its later ±1 entries
pub open spec fn ext(s: Seq<i8>, k: int, pos: int, t: Seq<i8>) -> bool {
    t.len() == s.len() && (forall|j: int| 0 <= j < pos ==> t[j] == s[j]) && pm_from(t, pos) && ones(t, pos) == k
}
/// 2^n
pub open spec fn pw(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pw(n - 1) } }
pub proof fn lemma_pw(n: int) ensures pw(n) >= 1, n > 0 ==> pw(n) == 2 * pw(n - 1) decreases n { if n > 0 { lemma_pw(n - 1); } }
pub proof fn lemma_pw31(n: int) requires 0 <= n <= 31, ensures 1 <= pw(n) <= 0x8000_0000, 0 <= pw(n) * pw(n) <= 0x4000_0000_0000_0000
{ lemma_pw_le(n, 31); assert(pw(31) == 0x8000_0000) by(compute); lemma_pw(n); assert(0 <= pw(n) * pw(n) <= 0x8000_0000 * 0x8000_0000) by(nonlinear_arith) requires 1 <= pw(n) <= 0x8000_0000; }
pub proof fn lemma_pw_le(a: int, b: int) requires a <= b, ensures pw(a) <= pw(b) decreases b - a { if a < b { lemma_pw_le(a, b - 1); lemma_pw(b - 1); } }
pub open spec fn has(r: Seq<Vec<i8>>, t: Seq<i8>) -> bool { exists|i: int| 0 <= i < r.len() && #[trigger] r[i]@ == t }
pub open spec fn nodup(r: Seq<Vec<i8>>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r[i]@ != #[trigger] r[j]@ }

pub proof fn lemma_ones_bound(s: Seq<i8>, pos: int)
    requires 0 <= pos <= s.len(),
    ensures 0 <= ones(s, pos) <= s.len() - pos,
    decreases s.len() - pos,
{
    if pos < s.len() { lemma_ones_bound(s, pos + 1); }
}
pub proof fn lemma_ones_zero(s: Seq<i8>, pos: int)
    requires 0 <= pos <= s.len(), pm_from(s, pos),
    ensures ones(s, pos) == 0 <==> (forall|j: int| pos <= j < s.len() ==> s[j] == -1),
    decreases s.len() - pos,
{
    if pos < s.len() {
        lemma_ones_zero(s, pos + 1); lemma_ones_bound(s, pos + 1);
        if ones(s, pos) == 0 { assert forall|j: int| pos <= j < s.len() implies s[j] == -1 by { if j == pos { assert(s[pos] == 1 || s[pos] == -1); } } }
    }
}
pub proof fn lemma_ones_pm_zero(s: Seq<i8>, t: Seq<i8>, pos: int)
    requires 0 <= pos <= s.len(), forall|j: int| pos <= j < s.len() ==> s[j] == -1,
    ensures ext(s, 0, pos, t) <==> t == s,
{
    if t == s { assert(pm_from(t, pos)); lemma_ones_zero(t, pos); }
    if ext(s, 0, pos, t) { lemma_ones_zero(t, pos); assert(t =~= s); }
}
/// the sum of the entries is twice the number of ones, minus the length
pub proof fn lemma_sum_ones(s: Seq<i8>, pos: int)
    requires 0 <= pos <= s.len(), pm(s),
    ensures sum(rowsum_f(s), s.len() as int) == sum(rowsum_f(s), pos) + 2 * ones(s, pos) - (s.len() - pos),
    decreases s.len() - pos,
{
    if pos < s.len() {
        lemma_sum_ones(s, pos + 1);
        assert(s[pos] == 1 || s[pos] == -1);
        assert(rowsum_f(s)(pos) == s[pos] as int);
    }
}
pub proof fn lemma_gen_step(s: Seq<i8>, s1: Seq<i8>, k: int, pos: int, t: Seq<i8>)
    requires 0 <= pos < s.len(), s[pos] == -1, s1 == s.update(pos, 1i8),
    ensures
        ext(s, k, pos, t) <==> ext(s, k, pos + 1, t) || ext(s1, k - 1, pos + 1, t),
        !(ext(s, k, pos + 1, t) && ext(s1, k - 1, pos + 1, t)),
{
    if ext(s, k, pos, t) {
        assert(t[pos] == 1 || t[pos] == -1);
        if t[pos] == 1 { assert(ext(s1, k - 1, pos + 1, t)); } else { assert(ext(s, k, pos + 1, t)); }
    }
    if ext(s, k, pos + 1, t) {
        assert(t[pos] == s[pos]);
        assert(forall|j: int| 0 <= j < pos ==> t[j] == s[j]);
    }
    if ext(s1, k - 1, pos + 1, t) {
        assert(t[pos] == s1[pos]);
        assert forall|j: int| 0 <= j < pos implies t[j] == s[j] by { assert(t[j] == s1[j]); }
    }
}
pub broadcast proof fn lemma_has_concat(a: Seq<Vec<i8>>, b: Seq<Vec<i8>>, t: Seq<i8>)
    ensures #[trigger] has(a + b, t) <==> has(a, t) || has(b, t),
{
    if has(a, t) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i]@ == t; assert((a + b)[i]@ == t); }
    if has(b, t) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i]@ == t; assert((a + b)[a.len() + i]@ == t); }
    if has(a + b, t) {
        let i = choose|i: int| 0 <= i < (a + b).len() && #[trigger] (a + b)[i]@ == t;
        if i < a.len() { assert(a[i]@ == t); } else { assert(b[i - a.len()]@ == t); }
    }
}
pub broadcast proof fn lemma_nodup_concat(a: Seq<Vec<i8>>, b: Seq<Vec<i8>>)
    ensures #[trigger] nodup(a + b) <==> nodup(a) && nodup(b) && (forall|t: Seq<i8>| !(#[trigger] has(a, t) && #[trigger] has(b, t))),
{
    let c = a + b;
    if nodup(a) && nodup(b) && (forall|t: Seq<i8>| !(#[trigger] has(a, t) && #[trigger] has(b, t))) {
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] c[i]@ != #[trigger] c[j]@ by {
            if j < a.len() { assert(a[i]@ != a[j]@); }
            else if i >= a.len() { assert(b[i - a.len()]@ != b[j - a.len()]@); }
            else { assert(has(a, a[i]@)); assert(has(b, b[j - a.len()]@)); }
        }
    }
    if nodup(c) {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i]@ != #[trigger] a[j]@ by { assert(c[i]@ != c[j]@); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i]@ != #[trigger] b[j]@ by { assert(c[a.len() + i]@ != c[a.len() + j]@); }
        assert forall|t: Seq<i8>| !(#[trigger] has(a, t) && #[trigger] has(b, t)) by {
            if has(a, t) && has(b, t) {
                let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i]@ == t;
                let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j]@ == t;
                assert(c[i]@ != c[a.len() + j]@);
            }
        }
    }
}
pub broadcast proof fn lemma_has_small(r: Seq<Vec<i8>>, t: Seq<i8>)
    requires r.len() <= 1,
    ensures #[trigger] has(r, t) <==> r.len() == 1 && r[0]@ == t,
{
    if r.len() == 1 && r[0]@ == t { assert(r[0]@ == t); }
}
pub broadcast group group_has { lemma_has_concat, lemma_nodup_concat, lemma_has_small }

/// the ±1 sequences of length n with the given sum of entries
pub open spec fn with_sum(n: int, sm: int, t: Seq<i8>) -> bool { t.len() == n && pm(t) && rowsum_of(t) == sm }
