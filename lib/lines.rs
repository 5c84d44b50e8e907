// ===== lib/lines.rs: texts as bytes, and texts one after the other =====
pub mod vx_utf8 {
use vstd::prelude::*;
/// the bytes of a character
pub uninterp spec fn utf8_char(c: char) -> Seq<u8>;
/// the bytes of a text: those of its characters
#[verifier::opaque]
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + utf8_char(s.last()) } }
pub broadcast proof fn utf8_cat(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] utf8(a + b) == utf8(a) + utf8(b),
    decreases b.len(),
{
    reveal(utf8);
    if b.len() == 0 { assert(a + b =~= a); assert(utf8(a) + utf8(b) =~= utf8(a)); }
    else { utf8_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(utf8(a + b) =~= utf8(a) + utf8(b)); }
}
pub broadcast proof fn utf8_empty()
    ensures #[trigger] utf8(Seq::<char>::empty()) == Seq::<u8>::empty(),
{ reveal(utf8); }
}
pub use vx_utf8::utf8;
broadcast use {vx_utf8::utf8_cat, vx_utf8::utf8_empty};

/// the texts of a list one after the other
pub open spec fn joined_text(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { joined_text(v.drop_last()) + v.last() } }
pub proof fn lemma_joined_push(v: Seq<Seq<char>>, t: Seq<char>)
    ensures joined_text(v.push(t)) == joined_text(v) + t,
{ assert(v.push(t).drop_last() =~= v); }
pub proof fn lemma_joined_take(v: Seq<Seq<char>>, i: int)
    requires 0 <= i < v.len(),
    ensures joined_text(v.take(i + 1)) == joined_text(v.take(i)) + v[i], joined_text(v.take(0)) == Seq::<char>::empty(),
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
