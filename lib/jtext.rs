// ===== lib/jtext.rs: the texts of the pair files =====
//@subst \bString\b => VxStr
//@subst \+\s*("[^"]*") => .vx_plus(\1)
// Stand-ins for std::string::String, str::split, std::io::Lines and read_lines, with the contracts assumed of them.
// The characters of a text are compared as std compares them: by code point, which is the byte order of UTF-8.
use vstd::std_specs::cmp::*;
pub struct Error { }
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub struct VxParseError { }
#[verifier::external]
impl core::fmt::Debug for VxParseError { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }

/// strict lexicographic order of texts
pub open spec fn less_at(a: Seq<char>, b: Seq<char>, d: int) -> bool {
    0 <= d <= a.len() && d < b.len() && a.take(d) == b.take(d) && (d == a.len() || a[d] < b[d])
}
pub open spec fn sless(a: Seq<char>, b: Seq<char>) -> bool { exists|d: int| less_at(a, b, d) }
pub open spec fn sle(a: Seq<char>, b: Seq<char>) -> bool { a == b || sless(a, b) }
pub proof fn lemma_take_eq(a: Seq<char>, b: Seq<char>, d: int, i: int)
    requires 0 <= i < d <= a.len(), d <= b.len(), a.take(d) == b.take(d),
    ensures a[i] == b[i], a.take(i) == b.take(i),
{
    assert(a.take(d)[i] == a[i]); assert(b.take(d)[i] == b[i]);
    assert(a.take(i) =~= a.take(d).take(i)); assert(b.take(i) =~= b.take(d).take(i));
}
pub proof fn lemma_asym(a: Seq<char>, b: Seq<char>)
    ensures !(sless(a, b) && sless(b, a)), !sless(a, a),
{
    if sless(a, b) && sless(b, a) {
        let d = choose|d: int| less_at(a, b, d); let e = choose|e: int| less_at(b, a, e);
        if d < e { lemma_take_eq(a, b, e, d); } else if e < d { lemma_take_eq(a, b, d, e); }
    }
    if sless(a, a) { let d = choose|d: int| less_at(a, a, d); }
}
pub proof fn lemma_text_diff(a: Seq<char>, b: Seq<char>, m: int) -> (d: int)
    requires 0 <= m <= a.len(), m <= b.len(),
    ensures 0 <= d <= m, a.take(d) == b.take(d), d < m ==> a[d] != b[d],
    decreases m,
{
    if m == 0 { assert(a.take(0) =~= b.take(0)); 0 } else {
        let d = lemma_text_diff(a, b, m - 1);
        if d < m - 1 || a[d] != b[d] { d } else {
            assert(a.take(m) =~= a.take(m - 1).push(a[m - 1])); assert(b.take(m) =~= b.take(m - 1).push(b[m - 1]));
            m
        }
    }
}
pub proof fn lemma_total(a: Seq<char>, b: Seq<char>)
    ensures a == b || sless(a, b) || sless(b, a),
{
    let m = if a.len() < b.len() { a.len() as int } else { b.len() as int };
    let d = lemma_text_diff(a, b, m);
    if d < m {
        if a[d] < b[d] { assert(less_at(a, b, d)); } else { assert(less_at(b, a, d)); }
    } else if a.len() == b.len() { assert(a.take(d) =~= a); assert(b.take(d) =~= b); }
    else if a.len() < b.len() { assert(less_at(a, b, d)); } else { assert(less_at(b, a, d)); }
}

pub struct VxStr { s: String }
impl View for VxStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PartialEqSpecImpl for VxStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VxStr) -> bool { self@ == o@ }
}
impl PartialEq for VxStr { #[verifier::external_body] fn eq(&self, o: &VxStr) -> (r: bool) { self.s == o.s } }
impl PartialOrdSpecImpl for VxStr {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &VxStr) -> Option<core::cmp::Ordering> {
        if self@ == o@ { Some(core::cmp::Ordering::Equal) } else if sless(self@, o@) { Some(core::cmp::Ordering::Less) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for VxStr { #[verifier::external_body] fn partial_cmp(&self, o: &VxStr) -> (r: Option<core::cmp::Ordering>) { self.s.partial_cmp(&o.s) } }
impl Clone for VxStr { #[verifier::external_body] fn clone(&self) -> (r: VxStr) ensures r@ == self@ { VxStr { s: self.s.clone() } } }

/// p occurs in s at k
pub open spec fn occ(s: Seq<char>, p: Seq<char>, k: int) -> bool { 0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool { exists|k: int| occ(s, p, k) }
pub open spec fn is_first(s: Seq<char>, p: Seq<char>, k: int) -> bool { occ(s, p, k) && forall|j: int| 0 <= j < k ==> !#[trigger] occ(s, p, j) }
pub open spec fn first(s: Seq<char>, p: Seq<char>) -> int { choose|k: int| is_first(s, p, k) }
pub open spec fn head(s: Seq<char>, p: Seq<char>) -> Seq<char> { if occurs(s, p) { s.take(first(s, p)) } else { s } }
pub open spec fn tail(s: Seq<char>, p: Seq<char>) -> Seq<char> { s.skip(first(s, p) + p.len()) }
pub proof fn lemma_first_aux(s: Seq<char>, p: Seq<char>, k: int)
    requires occ(s, p, k),
    ensures exists|j: int| is_first(s, p, j),
    decreases k,
{
    if forall|j: int| 0 <= j < k ==> !#[trigger] occ(s, p, j) { assert(is_first(s, p, k)); }
    else { let j = choose|j: int| 0 <= j < k && #[trigger] occ(s, p, j); lemma_first_aux(s, p, j); }
}
pub proof fn lemma_first(s: Seq<char>, p: Seq<char>)
    requires occurs(s, p),
    ensures is_first(s, p, first(s, p)),
{ let k = choose|k: int| occ(s, p, k); lemma_first_aux(s, p, k); }

impl VxStr {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VxStr) ensures r@ == self@ { VxStr { s: self.s.to_string() } }
    #[verifier::external_body]
    pub fn vx_plus(self, o: &'static str) -> (r: VxStr) ensures r@ == self@ + o@ { VxStr { s: self.s + o } }
    #[verifier::external_body]
    pub fn split(&self, p: &'static str) -> (r: VxSplit) ensures r.rem@ == self@, r.pat@ == p@, !r.done@ { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(&self) -> (r: Result<usize, VxParseError>) ensures (number(self@) matches Some(v) ==> r == Ok::<usize, VxParseError>(v)) { unimplemented!() }
}
/// str::split: the pieces between the occurrences of the pattern
pub struct VxSplit { pub rem: Ghost<Seq<char>>, pub pat: Ghost<Seq<char>>, pub done: Ghost<bool> }
impl VxSplit {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<VxStr>)
        ensures
            final(self).pat@ == old(self).pat@,
            old(self).done@ ==> r is None && final(self).done@,
            !old(self).done@ ==> r is Some && r->0@ == head(old(self).rem@, old(self).pat@) && final(self).done@ == !occurs(old(self).rem@, old(self).pat@),
            !old(self).done@ && occurs(old(self).rem@, old(self).pat@) ==> final(self).rem@ == tail(old(self).rem@, old(self).pat@),
    { unimplemented!() }
}
/// the lines of a file
pub uninterp spec fn file_lines(name: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn readable(name: Seq<char>) -> bool;
