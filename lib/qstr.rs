// ===== lib/qstr.rs: text encodings =====
use vstd::string::*;
//@subst \bQ24_STRING\b => vx_Q24_STRING()
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < '\u{80}' }
/// the number of bytes of a string of one-byte characters is its number of characters
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures ascii(s@) ==> r == s@.len();
#[verifier::external_body]
pub fn vx_char_is(s: &str, c: char) -> (r: bool) ensures r == (s@ == seq![c]) { *s == c.to_string() }
#[verifier::external_body]
pub fn vx_str_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// twenty-four one-letter codes, all different
pub open spec fn code_table(t: Seq<&'static str>) -> bool {
    &&& t.len() == 24
    &&& forall|i: int| 0 <= i < 24 ==> (#[trigger] t[i])@.len() == 1 && t[i]@[0] < '\u{80}'
    &&& forall|i: int, j: int| 0 <= i < j < 24 ==> (#[trigger] t[i])@[0] != (#[trigger] t[j])@[0]
}
/// the value of the static Q24_STRING, of which only what is proved of its initialiser is known
pub uninterp spec fn the_codes() -> Seq<&'static str>;
#[verifier::external_body]
pub fn vx_Q24_STRING() -> (r: &'static [&'static str; 24]) ensures r@ == the_codes(), code_table(the_codes()), { unimplemented!() }
/// the letter of the i-th unit
pub open spec fn letter(i: int) -> char { the_codes()[i]@[0] }
pub open spec fn is_letter(c: char, i: int) -> bool { 0 <= i < 24 && c == letter(i) }
pub open spec fn known(c: char) -> bool { exists|i: int| is_letter(c, i) }
pub open spec fn letter_no(c: char) -> int { choose|i: int| is_letter(c, i) }
pub open spec fn codes_of(s: Seq<char>, v: Seq<Quaternion>) -> bool {
    s.len() == v.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == letter(unit_no(hv(v[i]))))
}
pub open spec fn read_as(s: Seq<char>, v: Seq<Quaternion>) -> bool {
    s.len() == v.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] v[i] == hq(q24h(letter_no(s[i]))))
}
pub open spec fn all_known(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> known(#[trigger] s[i]) }
pub proof fn lemma_letter_inj(i: int, j: int)
    requires code_table(the_codes()), 0 <= i < 24, 0 <= j < 24, letter(i) == letter(j),
    ensures i == j,
{
    let t = the_codes();
    if i < j { assert(t[i]@[0] != t[j]@[0]); }
    if j < i { assert(t[j]@[0] != t[i]@[0]); }
}
pub proof fn lemma_letter_no(i: int)
    requires code_table(the_codes()), 0 <= i < 24,
    ensures known(letter(i)), letter_no(letter(i)) == i, letter(i) < '\u{80}',
{
    assert(is_letter(letter(i), i));
    lemma_letter_inj(i, letter_no(letter(i)));
    assert(the_codes()[i]@[0] < '\u{80}');
}
/// the letters of a sequence can be read, and reading them gives the sequence back
pub proof fn lemma_text_round_trip(s: Seq<char>, v: Seq<Quaternion>)
    requires code_table(the_codes()), allu(v), codes_of(s, v),
    ensures all_known(s), ascii(s), forall|w: Seq<Quaternion>| #[trigger] read_as(s, w) ==> w == v,
{
    assert forall|i: int| 0 <= i < s.len() implies known(#[trigger] s[i]) && s[i] < '\u{80}' && hq(q24h(letter_no(s[i]))) == v[i] by {
        assert(isu(v[i])); lemma_unit_no(hv(v[i])); lemma_letter_no(unit_no(hv(v[i]))); lemma_hq(v[i]);
    }
    assert forall|w: Seq<Quaternion>| #[trigger] read_as(s, w) implies w == v by { assert(w =~= v); }
}
/// different sequences have different letters
pub proof fn lemma_text_inj(s: Seq<char>, v: Seq<Quaternion>, w: Seq<Quaternion>)
    requires code_table(the_codes()), allu(v), allu(w), codes_of(s, v), codes_of(s, w),
    ensures v == w,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] v[i] == w[i] by {
        assert(isu(v[i]) && isu(w[i]));
        assert(s[i] == letter(unit_no(hv(v[i]))) && s[i] == letter(unit_no(hv(w[i]))));
        lemma_unit_no(hv(v[i])); lemma_unit_no(hv(w[i]));
        lemma_letter_inj(unit_no(hv(v[i])), unit_no(hv(w[i])));
        lemma_hq(v[i]); lemma_hq(w[i]);
    }
    assert(v =~= w);
}
// ---- +1/-1 sequences
pub open spec fn sign_char(x: i8) -> char { if x == 1 { '+' } else { '-' } }
pub open spec fn signs_of(s: Seq<char>, v: Seq<i8>) -> bool { s.len() == v.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == sign_char(v[i])) }
pub open spec fn signs_only(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '+' || s[i] == '-' }
pub proof fn lemma_signs_inj(s: Seq<char>, v: Seq<i8>, w: Seq<i8>)
    requires pm(v), pm(w), signs_of(s, v), signs_of(s, w),
    ensures v == w, signs_only(s),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] v[i] == w[i] && (s[i] == '+' || s[i] == '-') by {
        assert(s[i] == sign_char(v[i]) && s[i] == sign_char(w[i]));
        assert(v[i] == 1 || v[i] == -1); assert(w[i] == 1 || w[i] == -1);
    }
    assert(v =~= w);
}
