use crate::sequences::rowsum::{sum_of_four_squares, generate_rowsums};
use crate::sequences::symmetries::SequenceType;
type T4 = (isize, isize, isize, isize);
fn isqrt(x: i64) -> i64 { let mut r = (x as f64).sqrt() as i64; while r * r > x { r -= 1; } while (r + 1) * (r + 1) <= x { r += 1; } r }
fn decs(p: i64) -> Vec<T4> {
    let mut out = vec![]; let mut a = 0;
    while 4 * a * a <= p { let mut b = a; while a * a + 3 * b * b <= p { let mut c = b; while a * a + b * b + 2 * c * c <= p {
        let rest = p - a * a - b * b - c * c; let d = isqrt(rest); if d * d == rest && d >= c { out.push((a as isize, b as isize, c as isize, d as isize)); }
        c += 1; } b += 1; } a += 1; }
    out
}
fn same(got: &[T4], want: &[T4], what: &str) -> Result<(), String> {
    let mut m: HashMap<T4, i64> = HashMap::new();
    for t in got { *m.entry(*t).or_insert(0) += 1; }
    for t in want { let e = m.entry(*t).or_insert(0); ensure!(*e != 0, "{}: {:?} is missing", what, t); ensure!(*e == 1, "{}: {:?} is listed {} times", what, t, e); *e = 0; }
    for (t, c) in &m { ensure!(*c == 0, "{}: {:?} should not be listed", what, t); }
    Ok(())
}
fn gen_dec(i: u64, r: &mut Rng) -> Option<String> { if i < 600 { Some(format!("{}", i)) } else if i < 700 { Some(format!("{}", r.below(20000))) } else { None } }
fn run_dec(s: &str) -> Result<bool, String> {
    let p: usize = s.parse().unwrap(); let w = decs(p as i64);
    same(&sum_of_four_squares(p), &w, &format!("decompositions of {}", p))?; Ok(w.len() > 1)
}
fn gen_rs(i: u64, _: &mut Rng) -> Option<String> { if i < 800 { Some(format!("{} {}", i / 4, i % 4)) } else if i < 840 { Some(format!("{} {}", 200 + (i - 800) / 4 * 37, i % 4)) } else { None } }
fn run_rs(s: &str) -> Result<bool, String> {
    let v: Vec<usize> = s.split(' ').map(|x| x.parse().unwrap()).collect(); let n = v[0];
    let ty = match v[1] { 0 => SequenceType::QuaternionType, 1 => SequenceType::WilliamsonType, 2 => SequenceType::Williamson, _ => SequenceType::ItoType };
    let qts = v[1] == 0;
    let mut w = vec![];
    for t in decs(4 * n as i64) {
        let e = [t.0, t.1, t.2, t.3];
        if e.iter().any(|x| (x - n as isize) % 2 != 0) { continue; }
        w.push(t);
        let dist = (0..4).all(|i| e[i] != 0 && (0..i).all(|j| e[i] != e[j]));
        if qts && dist { w.push((t.0, t.1, t.2, -t.3)); }
    }
    same(&generate_rowsums(n, ty), &w, &format!("rowsums of length {} ({})", n, v[1]))?; Ok(w.len() > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "dec", gen: gen_dec, run: run_dec }, Check { name: "rowsums", gen: gen_rs, run: run_rs }] }
