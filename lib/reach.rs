// ===== lib/reach.rs: reachability by a finite number of steps =====
pub open spec fn is_chain(step: spec_fn(QV, QV) -> bool, s: Seq<QV>) -> bool {
    s.len() >= 1 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] step(s[i], s[i + 1])
}
pub open spec fn chain_from(step: spec_fn(QV, QV) -> bool, s: Seq<QV>, q: QV, p: QV) -> bool { is_chain(step, s) && s[0] == q && s[s.len() - 1] == p }
#[verifier::opaque]
pub open spec fn reach(step: spec_fn(QV, QV) -> bool, q: QV, p: QV) -> bool { exists|s: Seq<QV>| chain_from(step, s, q, p) }

pub proof fn lemma_reach_refl(step: spec_fn(QV, QV) -> bool, q: QV)
    ensures reach(step, q, q),
{ reveal(reach); assert(chain_from(step, seq![q], q, q)); }
pub proof fn lemma_reach_step(step: spec_fn(QV, QV) -> bool, q: QV, p: QV, r: QV)
    requires reach(step, q, p), step(p, r),
    ensures reach(step, q, r),
{
    reveal(reach);
    let s = choose|s: Seq<QV>| chain_from(step, s, q, p);
    let t = s.push(r);
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] step(t[i], t[i + 1]) by { if i < s.len() - 1 { assert(step(s[i], s[i + 1])); } }
    assert(chain_from(step, t, q, r));
}
pub proof fn lemma_reach_trans(step: spec_fn(QV, QV) -> bool, q: QV, p: QV, r: QV)
    requires reach(step, q, p), reach(step, p, r),
    ensures reach(step, q, r),
{
    reveal(reach);
    let s = choose|s: Seq<QV>| chain_from(step, s, q, p);
    let t = choose|t: Seq<QV>| chain_from(step, t, p, r);
    let u = s + t.subrange(1, t.len() as int);
    assert forall|i: int| 0 <= i < u.len() - 1 implies #[trigger] step(u[i], u[i + 1]) by {
        if i < s.len() - 1 { assert(step(s[i], s[i + 1])); }
        else { let k = i - (s.len() - 1); assert(step(t[k], t[k + 1])); assert(u[i] == t[k]); assert(u[i + 1] == t[k + 1]); }
    }
    assert(chain_from(step, u, q, r));
}
/// a property kept by every step holds at the end of every chain
pub proof fn lemma_reach_inv(step: spec_fn(QV, QV) -> bool, inv: spec_fn(QV) -> bool, q: QV, p: QV)
    requires reach(step, q, p), inv(q), forall|x: QV, y: QV| inv(x) && #[trigger] step(x, y) ==> inv(y),
    ensures inv(p),
{
    reveal(reach);
    let s = choose|s: Seq<QV>| chain_from(step, s, q, p);
    lemma_chain_inv(step, inv, s, s.len() - 1);
}
pub proof fn lemma_chain_inv(step: spec_fn(QV, QV) -> bool, inv: spec_fn(QV) -> bool, s: Seq<QV>, k: int)
    requires is_chain(step, s), inv(s[0]), forall|x: QV, y: QV| inv(x) && #[trigger] step(x, y) ==> inv(y), 0 <= k < s.len(),
    ensures inv(s[k]),
    decreases k,
{
    if k > 0 { lemma_chain_inv(step, inv, s, k - 1); assert(step(s[k - 1], s[k - 1 + 1])); }
}
/// chains of a symmetric relation can be walked back (dom is kept by every step)
pub proof fn lemma_reach_sym(step: spec_fn(QV, QV) -> bool, dom: spec_fn(QV) -> bool, q: QV, p: QV)
    requires
        reach(step, q, p), dom(q),
        forall|x: QV, y: QV| dom(x) && #[trigger] step(x, y) ==> dom(y) && step(y, x),
    ensures reach(step, p, q),
{
    let inv = |x: QV| dom(x) && reach(step, x, q);
    lemma_reach_refl(step, q);
    assert forall|x: QV, y: QV| inv(x) && #[trigger] step(x, y) implies inv(y) by {
        lemma_reach_refl(step, y);
        lemma_reach_step(step, y, y, x);
        lemma_reach_trans(step, y, x, q);
    }
    lemma_reach_inv(step, inv, q, p);
}
/// s is the set of everything reachable from q
pub open spec fn is_cls(st: spec_fn(QV, QV) -> bool, q: QV, s: Set<QV>) -> bool {
    &&& forall|p: QV| #[trigger] s.contains(p) ==> reach(st, q, p)
    &&& forall|p: QV| #[trigger] reach(st, q, p) ==> s.contains(p)
}
