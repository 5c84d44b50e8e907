// ===== lib/decimal.rs: the decimal text of a number, and the number a text reads as =====
pub open spec fn digit(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn nat_text(n: int) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { nat_text(n / 10).push(digit(n % 10)) } }
/// the decimal text of a number, as it is displayed
#[verifier::opaque]
pub open spec fn int_text(n: int) -> Seq<char> { if n < 0 { seq!['-'] + nat_text(-n) } else { nat_text(n) } }
pub open spec fn digit_value(c: char) -> Option<int> {
    if c == '0' { Some(0) } else if c == '1' { Some(1) } else if c == '2' { Some(2) } else if c == '3' { Some(3) } else if c == '4' { Some(4) }
    else if c == '5' { Some(5) } else if c == '6' { Some(6) } else if c == '7' { Some(7) } else if c == '8' { Some(8) } else if c == '9' { Some(9) } else { None }
}
pub open spec fn digits_value(s: Seq<char>) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else { match (digits_value(s.drop_last()), digit_value(s.last())) { (Some(a), Some(d)) => Some(10 * a + d), _ => None } }
}
pub open spec fn unsigned_part(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s } }
/// the usize a text reads as, if it is one
#[verifier::opaque]
pub open spec fn number(s: Seq<char>) -> Option<usize> {
    let u = unsigned_part(s);
    if u.len() == 0 { None } else { match digits_value(u) { Some(v) => if v <= usize::MAX { Some(v as usize) } else { None }, None => None } }
}
pub open spec fn plain_char(c: char) -> bool { c == '-' || digit_value(c) is Some }
pub proof fn lemma_nat_text(n: int)
    requires 0 <= n,
    ensures nat_text(n).len() > 0, forall|i: int| 0 <= i < nat_text(n).len() ==> digit_value(#[trigger] nat_text(n)[i]) is Some, digits_value(nat_text(n)) == Some(n),
    decreases n,
{
    reveal_with_fuel(digits_value, 2);
    if n < 10 {
        let s = seq![digit(n)];
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(digit_value(digit(n)) == Some(n));
    } else {
        lemma_nat_text(n / 10);
        let (a, d) = (nat_text(n / 10), digit(n % 10));
        assert(a.push(d).drop_last() =~= a);
        assert(digit_value(d) == Some(n % 10));
        assert forall|i: int| 0 <= i < nat_text(n).len() implies digit_value(#[trigger] nat_text(n)[i]) is Some by { if i < a.len() { assert(nat_text(n)[i] == a[i]); } }
    }
}
/// it is made of digits and a sign
pub proof fn lemma_int_text(n: int)
    ensures int_text(n).len() > 0, forall|i: int| 0 <= i < int_text(n).len() ==> plain_char(#[trigger] int_text(n)[i]),
{
    reveal(int_text);
    let s = int_text(n);
    if n < 0 { lemma_nat_text(-n); let t = nat_text(-n); assert forall|i: int| 0 <= i < s.len() implies plain_char(#[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } } }
    else { lemma_nat_text(n); }
}
/// and read back
pub proof fn lemma_number(n: int)
    requires 0 <= n <= usize::MAX,
    ensures number(int_text(n)) == Some(n as usize),
{ reveal(number); reveal(int_text); lemma_nat_text(n); let s = nat_text(n); assert(digit_value(s[0]) is Some); assert(unsigned_part(s) == s); }
/// distinct numbers have distinct texts
pub proof fn lemma_int_text_inj(a: int, b: int)
    requires int_text(a) == int_text(b),
    ensures a == b,
{
    reveal(int_text);
    if a >= 0 { lemma_nat_text(a); assert(digit_value(int_text(a)[0]) is Some); } else { lemma_nat_text(-a); assert(int_text(a).skip(1) =~= nat_text(-a)); assert(int_text(a)[0] == '-'); }
    if b >= 0 { lemma_nat_text(b); assert(digit_value(int_text(b)[0]) is Some); } else { lemma_nat_text(-b); assert(int_text(b).skip(1) =~= nat_text(-b)); assert(int_text(b)[0] == '-'); }
}
