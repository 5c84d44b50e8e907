use crate::sequences::sequence::{QS, quaternion_to_string};
use crate::sequences::rowsum::sequence_to_string;
use crate::find::find_write::string_to_sequence;
fn gen_q(i: u64, r: &mut Rng) -> Option<String> {
    if i > 60000 { return None; }
    let l = hq::LETTERS.as_bytes();
    if i == 0 { return Some(":".into()); }
    if i < 25 { return Some(format!(":{}", l[i as usize - 1] as char)); }
    if i < 601 { let j = i as usize - 25; return Some(format!(":{}{}", l[j / 24] as char, l[j % 24] as char)); }
    let n = if i % 50 == 0 { r.range(40, 300) } else { r.range(1, 40) };
    Some(format!(":{}", (0..n).map(|_| l[r.below(24)] as char).collect::<String>()))
}
fn run_q(s: &str) -> Result<bool, String> {
    let v = hq::dec(&s[1..]);
    let codes: Vec<String> = hq::units().iter().map(|u| quaternion_to_string(&hq::f(*u))).collect();
    for i in 0..24 { ensure!(codes[i].len() == 1, "the code of the unit {:?} is {:?}", hq::units()[i], codes[i]); for j in 0..i { ensure!(codes[i] != codes[j], "two units have the code {}", codes[i]); } }
    let t = hq::qs(&v).to_string_raw();
    ensure!(t.chars().count() == v.len(), "the text {:?} of a sequence of length {}", t, v.len());
    let b = QS::from_str(&t);
    ensure!(b.size() == v.len() && hq::unqs(&b) == Some(v.clone()), "reading {:?} back gives {:?}", t, hq::unqs(&b).map(|x| hq::enc(&x)));
    ensure!(b.to_string_raw() == t, "writing the sequence read from {:?} gives {:?}", t, b.to_string_raw());
    // a neighbour has another text
    if !v.is_empty() {
        let mut w = v.clone(); let k = v.len() * 7 / 11 % v.len(); w[k] = hq::neg(w[k]);
        ensure!(hq::qs(&w).to_string_raw() != t, "two sequences have the text {:?}", t);
    }
    Ok(v.len() > 1)
}
fn gen_s(i: u64, r: &mut Rng) -> Option<String> {
    if i > 60000 { return None; }
    if i < 1023 { let mut n = 0; let mut j = i; while j >= 1 << n { j -= 1 << n; n += 1; } return Some(format!(":{}", (0..n).map(|k| if j >> k & 1 == 0 { '+' } else { '-' }).collect::<String>())); }
    let n = if i % 50 == 0 { r.range(40, 600) } else { r.range(9, 40) };
    Some(format!(":{}", enc(&r.signs(n))))
}
fn run_s(s: &str) -> Result<bool, String> {
    let v: Vec<i8> = s[1..].chars().map(|c| if c == '+' { 1 } else { -1 }).collect();
    let t = sequence_to_string(&v);
    ensure!(t == s[1..], "the text of {} is {:?}", &s[1..], t);
    let b = string_to_sequence(&t);
    ensure!(b == v, "reading {:?} back gives {:?}", t, b);
    Ok(v.len() > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "quaternions", gen: gen_q, run: run_q }, Check { name: "signs", gen: gen_s, run: run_s }] }
