// ===== lib/text.rs: texts and files =====
//@subst \bString\b => VxStr
//@subst \bFile\b => VxFile
//@subst \bPath\b => VxPath
//@subst \.\s*expect\s*\( => .vx_must(
// Stand-ins for std::string::String, std::path::Path and std::fs::File, with the contracts assumed of them.
pub struct Error { }
pub struct VxStr { s: String }
impl View for VxStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for VxStr { #[verifier::external_body] fn clone(&self) -> (r: VxStr) ensures r@ == self@ { VxStr { s: self.s.clone() } } }
/// what can be appended to a text, or name a file
pub trait VxText: Sized { spec fn txt(self) -> Seq<char>; }
impl VxText for VxStr { open spec fn txt(self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a VxStr { open spec fn txt(self) -> Seq<char> { self@ } }
impl<'a, 'b> VxText for &'b &'a VxStr { open spec fn txt(self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a str { open spec fn txt(self) -> Seq<char> { self@ } }
impl<'a, 'b> VxText for &'b &'a str { open spec fn txt(self) -> Seq<char> { self@ } }
/// what has a text
pub trait VxShow { spec fn show(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: VxStr) ensures r@ == self.show(); }
impl VxShow for usize { open spec fn show(&self) -> Seq<char> { int_text(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxStr) { unimplemented!() } }
impl VxShow for isize { open spec fn show(&self) -> Seq<char> { int_text(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxStr) { unimplemented!() } }
impl VxShow for VxStr { open spec fn show(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxStr) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_text(s: &str) -> (r: VxStr) ensures r@ == s@ { unimplemented!() }
impl VxStr {
    #[verifier::external_body]
    pub fn vx_cat<T: VxText>(self, o: T) -> (r: VxStr) ensures r@ == self@ + o.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: VxBytes) ensures r@ == utf8(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures (r == 0) == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub struct VxBytes { b: Vec<u8> }
impl View for VxBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// a Result whose error ends the process
pub trait VxMust<T>: Sized { spec fn val(self) -> Option<T>; fn vx_must(self, m: &str) -> (r: T) ensures self.val() == Some(r); }
impl<T, E> VxMust<T> for Result<T, E> {
    open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body] fn vx_must(self, m: &str) -> (r: T) { unimplemented!() }
}
pub struct VxPath { }
impl VxPath { #[verifier::external_body] pub fn new<T: VxText>(t: T) -> (r: VxStr) ensures r@ == t.txt() { unimplemented!() } }
/// a file being written: its name, and what it contains. A write may accept only a beginning of what it is given.
pub struct VxFile { pub name: Ghost<Seq<char>>, pub data: Ghost<Seq<u8>> }
impl VxFile {
    #[verifier::external_body]
    pub fn create<T: VxText>(t: T) -> (r: Result<VxFile, Error>) ensures r is Ok ==> r->Ok_0.name@ == t.txt() && r->Ok_0.data@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: VxBytes) -> (r: Result<usize, Error>)
        ensures final(self).name@ == old(self).name@, r is Ok ==> r->Ok_0 <= b@.len() && final(self).data@ == old(self).data@ + b@.take(r->Ok_0 as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: VxBytes) -> (r: Result<(), Error>)
        ensures final(self).name@ == old(self).name@, r is Ok ==> final(self).data@ == old(self).data@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), Error>) ensures final(self).name@ == old(self).name@, final(self).data@ == old(self).data@ { unimplemented!() }
}
/// the file has this name and contains exactly these lines
pub open spec fn vx_file_ok(f: VxFile, name: Seq<char>, lines: Seq<Seq<char>>) -> bool { f.name@ == name && f.data@ == utf8(joined_text(lines)) }
