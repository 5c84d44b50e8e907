// ===== lib/joindir.rs: reading the directory of a rowsum =====
//@subst \bfs\s*::\s*read_dir\b => vx_read_dir
//@subst (?<!')&\s*str\b => &VxStr
//@subst \.\s*chars\s*\(\s*\)\s*\.\s*nth\b => .vx_nth
//@subst \.\s*chars\s*\(\s*\) => .vx_chars()
pub uninterp spec fn dir_list(d: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn listable(d: Seq<char>) -> bool;
pub uninterp spec fn is_a_dir(d: Seq<char>) -> bool;
/// std::fs::DirEntry, seen as its path
pub struct DirEntry { p: u8 }
impl View for DirEntry { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct VxMeta { pub d: bool }
impl VxMeta { pub fn is_dir(&self) -> (r: bool) ensures r == self.d { self.d } }
impl DirEntry {
    #[verifier::external_body] pub fn path(&self) -> (r: VxPathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: Result<VxMeta, Error>) ensures r is Ok, r->Ok_0.d == is_a_dir(self@) { unimplemented!() }
}
pub struct VxPathBuf { p: u8 }
impl View for VxPathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxPathBuf { #[verifier::external_body] pub fn display(&self) -> (r: VxStr) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub fn vx_read_dir(d: VxStr) -> (r: Result<Vec<Result<DirEntry, Error>>, Error>)
    ensures listable(d@) ==> r is Ok && r->Ok_0@.len() == dir_list(d@).len() && forall|i: int| 0 <= i < dir_list(d@).len() ==> (#[trigger] r->Ok_0@[i]) is Ok && r->Ok_0@[i]->Ok_0@ == dir_list(d@)[i] { unimplemented!() }

pub trait VxText: Sized { spec fn txt(self) -> Seq<char>; }
impl VxText for VxStr { open spec fn txt(self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a VxStr { open spec fn txt(self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a str { open spec fn txt(self) -> Seq<char> { self@ } }
pub trait VxShow { spec fn show(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: VxStr) ensures r@ == self.show(); }
impl VxShow for usize { open spec fn show(&self) -> Seq<char> { int_text(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxStr) { unimplemented!() } }
impl VxShow for VxStr { open spec fn show(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxStr) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_text(s: &str) -> (r: VxStr) ensures r@ == s@ { unimplemented!() }
pub open spec fn ends(s: Seq<char>, e: Seq<char>) -> bool { e.len() <= s.len() && s.subrange(s.len() - e.len(), s.len() as int) == e }
impl VxStr {
    #[verifier::external_body]
    pub fn vx_cat<T: VxText>(self, o: T) -> (r: VxStr) ensures r@ == self@ + o.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is(&self, o: &str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with(&self, o: &str) -> (r: bool) ensures r == ends(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_nth(&self, k: usize) -> (r: Option<char>) ensures r == (if k < self@.len() { Some(self@[k as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
}
/// a name after the last slash
pub open spec fn slashed(s: Seq<char>, d: Seq<char>, n: Seq<char>) -> bool { s == d + "/"@ + n && !occurs(n, "/"@) }
impl VxSplit {
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<VxStr>) ensures r is Some, self.pat@ == "/"@ ==> forall|d: Seq<char>, n: Seq<char>| #[trigger] slashed(self.rem@, d, n) ==> r->0@ == n { unimplemented!() }
}
pub open spec fn in_dir(d: Seq<char>, n: Seq<char>) -> Seq<char> { d + "/"@ + n }
pub open spec fn seq_name(t: SequenceTag) -> Seq<char> { "seq_"@ + tag_text(t) + ".seq"@ }
pub open spec fn pair_name(t: SequenceTag, u: SequenceTag) -> Seq<char> { "pair_"@ + tag_text(t) + tag_text(u) + ".pair.sorted"@ }
pub open spec fn is_seq_file(e: Seq<char>) -> bool { ends(e, ".seq"@) }
pub open spec fn is_pair_file(e: Seq<char>) -> bool { ends(e, ".pair.sorted"@) }
pub open spec fn texts_of(l: Seq<Seq<i8>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| sign_text(l[i])) }
/// the sequence files of a directory are the four files of the lists
pub open spec fn seq_files(d: Seq<char>, l: SL) -> bool {
    &&& listable(d)
    &&& forall|i: int| 0 <= i < dir_list(d).len() && is_seq_file(#[trigger] dir_list(d)[i]) ==> exists|t: SequenceTag| dir_list(d)[i] == in_dir(d, #[trigger] seq_name(t))
    &&& forall|t: SequenceTag| dir_list(d).contains(in_dir(d, #[trigger] seq_name(t)))
    &&& forall|t: SequenceTag| readable(in_dir(d, #[trigger] seq_name(t))) && file_lines(in_dir(d, seq_name(t))) == texts_of(sl(l, t)) && all_pm(sl(l, t))
}
pub open spec fn all_pm(l: Seq<Seq<i8>>) -> bool { forall|k: int| 0 <= k < l.len() ==> pm(#[trigger] l[k]) }
/// the list read is the list written
pub open spec fn reads(v: Seq<Vec<i8>>, l: Seq<Seq<i8>>) -> bool { v.len() == l.len() && forall|k: int| 0 <= k < l.len() ==> (#[trigger] v[k])@ == l[k] }
pub open spec fn reads4(v: (Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>, Vec<Vec<i8>>), l: SL) -> bool { reads(v.0@, l.w) && reads(v.1@, l.x) && reads(v.2@, l.y) && reads(v.3@, l.z) }
/// the pair files of a directory are two, at places i and j of its list
pub open spec fn pair_files_at(d: Seq<char>, g: Tg, i: int, j: int) -> bool {
    &&& listable(d) && 0 <= i < j < dir_list(d).len()
    &&& dir_list(d)[i] == in_dir(d, pair_name(g.0, g.1)) && dir_list(d)[j] == in_dir(d, pair_name(g.2, g.3))
    &&& forall|k: int| 0 <= k < dir_list(d).len() && is_pair_file(#[trigger] dir_list(d)[k]) ==> k == i || k == j
}
/// what is read back of a sign sequence
pub proof fn lemma_sign_text(s: Seq<i8>, t: Seq<i8>)
    requires pm(s), pm(t), sign_text(s) == sign_text(t),
    ensures s == t,
{
    assert(s.len() == sign_text(s).len() && t.len() == sign_text(t).len());
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(sign_text(s)[i] == sign_char(s[i]) && sign_text(t)[i] == sign_char(t[i])); assert(s[i] == 1 || s[i] == -1); assert(t[i] == 1 || t[i] == -1); }
    assert(s =~= t);
}
pub proof fn lemma_names(d: Seq<char>, t: SequenceTag, u: SequenceTag)
    ensures
        slashed(in_dir(d, seq_name(t)), d, seq_name(t)), is_seq_file(in_dir(d, seq_name(t))),
        slashed(in_dir(d, pair_name(t, u)), d, pair_name(t, u)), is_pair_file(in_dir(d, pair_name(t, u))),
        pair_name(t, u).len() > 6, pair_name(t, u)[5] == tag_text(t)[0], pair_name(t, u)[6] == tag_text(u)[0],
        seq_name(SequenceTag::W) == "seq_W.seq"@, seq_name(SequenceTag::X) == "seq_X.seq"@, seq_name(SequenceTag::Y) == "seq_Y.seq"@, seq_name(SequenceTag::Z) == "seq_Z.seq"@,
        tag_text(SequenceTag::W)[0] == 'W', tag_text(SequenceTag::X)[0] == 'X', tag_text(SequenceTag::Y)[0] == 'Y', tag_text(SequenceTag::Z)[0] == 'Z',
{
    reveal_strlit("W"); reveal_strlit("X"); reveal_strlit("Y"); reveal_strlit("Z"); reveal_strlit("/"); reveal_strlit("seq_"); reveal_strlit(".seq"); reveal_strlit("pair_"); reveal_strlit(".pair.sorted");
    reveal_strlit("seq_W.seq"); reveal_strlit("seq_X.seq"); reveal_strlit("seq_Y.seq"); reveal_strlit("seq_Z.seq");
    let (s, p) = (seq_name(t), pair_name(t, u));
    assert forall|k: int| !occ(s, "/"@, k) by { if occ(s, "/"@, k) { assert(s.subrange(k, k + 1)[0] == "/"@[0]); assert(s[k] == '/'); } }
    assert forall|k: int| !occ(p, "/"@, k) by { if occ(p, "/"@, k) { assert(p.subrange(k, k + 1)[0] == "/"@[0]); assert(p[k] == '/'); } }
    let (e, f) = (in_dir(d, s), in_dir(d, p));
    assert(e.subrange(e.len() - 4, e.len() as int) =~= ".seq"@);
    assert(f.subrange(f.len() - 12, f.len() as int) =~= ".pair.sorted"@);
    assert(seq_name(SequenceTag::W) =~= "seq_W.seq"@); assert(seq_name(SequenceTag::X) =~= "seq_X.seq"@); assert(seq_name(SequenceTag::Y) =~= "seq_Y.seq"@); assert(seq_name(SequenceTag::Z) =~= "seq_Z.seq"@);
}
pub proof fn lemma_take_has(s: Seq<Seq<char>>, i: int, x: Seq<char>)
    requires 0 <= i < s.len(), s.take(i + 1).contains(x), s[i] != x,
    ensures s.take(i).contains(x),
{ let k = choose|k: int| 0 <= k < i + 1 && #[trigger] s.take(i + 1)[k] == x; assert(s.take(i)[k] == x); }
pub proof fn lemma_in_dir_inj(d: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires in_dir(d, a) == in_dir(d, b),
    ensures a == b,
{
    let (x, y) = (in_dir(d, a), in_dir(d, b)); let k = (d + "/"@).len() as int;
    assert(x.len() == k + a.len() && y.len() == k + b.len());
    assert(x.subrange(k, x.len() as int) =~= a); assert(y.subrange(k, y.len() as int) =~= b);
}
pub proof fn lemma_seq_name(t: SequenceTag, u: SequenceTag)
    requires seq_name(t) == seq_name(u),
    ensures t == u,
{
    reveal_strlit("W"); reveal_strlit("X"); reveal_strlit("Y"); reveal_strlit("Z"); reveal_strlit("seq_"); reveal_strlit(".seq");
    assert(seq_name(t)[4] == tag_text(t)[0]); assert(seq_name(u)[4] == tag_text(u)[0]);
}
pub proof fn lemma_pair_name(t: SequenceTag, u: SequenceTag, v: SequenceTag, w: SequenceTag, d: Seq<char>)
    requires in_dir(d, pair_name(t, u)) == in_dir(d, pair_name(v, w)) || pair_name(t, u) == pair_name(v, w),
    ensures t == v && u == w,
{
    if pair_name(t, u) != pair_name(v, w) { lemma_in_dir_inj(d, pair_name(t, u), pair_name(v, w)); }
    lemma_names(d, t, u); lemma_names(d, v, w);
    reveal_strlit("W"); reveal_strlit("X"); reveal_strlit("Y"); reveal_strlit("Z");
}
pub proof fn lemma_names_differ()
    ensures forall|t: SequenceTag, u: SequenceTag| #[trigger] seq_name(t) == #[trigger] seq_name(u) ==> t == u,
{ assert forall|t: SequenceTag, u: SequenceTag| #[trigger] seq_name(t) == #[trigger] seq_name(u) implies t == u by { lemma_seq_name(t, u); } }
pub proof fn lemma_in_dir(d: Seq<char>, t: SequenceTag)
    ensures forall|u: SequenceTag| in_dir(d, #[trigger] seq_name(u)) == in_dir(d, seq_name(t)) ==> u == t,
{ assert forall|u: SequenceTag| in_dir(d, #[trigger] seq_name(u)) == in_dir(d, seq_name(t)) implies u == t by { lemma_in_dir_inj(d, seq_name(u), seq_name(t)); lemma_seq_name(u, t); } }
pub proof fn lemma_same_list(a: Seq<Seq<i8>>, b: Seq<Seq<i8>>)
    requires all_pm(a), all_pm(b), texts_of(a) == texts_of(b),
    ensures a == b,
{
    assert(a.len() == texts_of(a).len() && b.len() == texts_of(b).len());
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert(texts_of(a)[k] == texts_of(b)[k]); lemma_sign_text(a[k], b[k]); }
    assert(a =~= b);
}
pub proof fn lemma_same_lists(d: Seq<char>, l: SL, m: SL)
    requires seq_files(d, l), seq_files(d, m),
    ensures l == m,
{
    let n = |t: SequenceTag| in_dir(d, seq_name(t));
    assert(readable(in_dir(d, seq_name(SequenceTag::W))) && readable(in_dir(d, seq_name(SequenceTag::X))) && readable(in_dir(d, seq_name(SequenceTag::Y))) && readable(in_dir(d, seq_name(SequenceTag::Z))));
    lemma_same_list(sl(l, SequenceTag::W), sl(m, SequenceTag::W)); lemma_same_list(sl(l, SequenceTag::X), sl(m, SequenceTag::X));
    lemma_same_list(sl(l, SequenceTag::Y), sl(m, SequenceTag::Y)); lemma_same_list(sl(l, SequenceTag::Z), sl(m, SequenceTag::Z));
}
pub open spec fn text_at(v: Seq<VxStr>, k: int, s: Seq<char>) -> bool { v[k]@ == s }
pub open spec fn texts(v: Seq<VxStr>) -> bool { true }
