// ===== lib/hset.rs: std::collections::HashSet<QuadSeq>, assumed to behave as a finite set of values =====
// (derived Hash/Eq on QuadSeq: two entries are the same exactly when size and the four sequences agree)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { items: Vec<T> }

/// where in its iteration order a set has an entry
pub uninterp spec fn vx_pos(s: HashSet<QuadSeq>, q: QV) -> int;

/// out has every entry of the set, each once
pub open spec fn lists_set(out: Seq<QuadSeq>, res: Set<QV>) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> res.contains(#[trigger] out[i]@)
    &&& forall|p: QV| #[trigger] res.contains(p) ==> in_list(out, p)
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i])@ != (#[trigger] out[j])@
}
pub open spec fn in_list(out: Seq<QuadSeq>, p: QV) -> bool { exists|i: int| 0 <= i < out.len() && (#[trigger] out[i])@ == p }

impl View for HashSet<QuadSeq> {
    type V = Set<QV>;
    uninterp spec fn view(&self) -> Set<QV>;
}
impl HashSet<QuadSeq> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<QV>::empty(), r@.finite() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: QuadSeq) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(x@), r == !old(self)@.contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &QuadSeq) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.finite() { unimplemented!() }
    /// the entries in some order, each once
    #[verifier::external_body]
    pub fn iter(&self) -> (r: &Vec<QuadSeq>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i]@),
            forall|q: QV| #[trigger] self@.contains(q) ==> 0 <= vx_pos(*self, q) < r@.len() && r@[vx_pos(*self, q)]@ == q,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i]@ != r@[j]@,
            self@.finite(), r@.len() == self@.len(), lists_set(r@, self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<QuadSeq>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i]@),
            forall|q: QV| #[trigger] self@.contains(q) ==> 0 <= vx_pos(self, q) < r@.len() && r@[vx_pos(self, q)]@ == q,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i]@ != r@[j]@,
            self@.finite(), r@.len() == self@.len(), lists_set(r@, self@),
    { unimplemented!() }
}
impl HashSet<QuadSeq> {
    #[verifier::external_body]
    pub fn remove(&mut self, x: &QuadSeq) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(x@), r == old(self)@.contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<QuadSeq>)
        ensures forall|p: QV| #[trigger] final(self)@.contains(p) <==> old(self)@.contains(p) || exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i])@ == p { unimplemented!() }
}
