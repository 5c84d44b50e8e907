use crate::find::find_write::{join_pairs_files, get_line_from, get_sequences};
use crate::sequences::symmetries::SequenceType;
use crate::sequences::williamson::SequenceTag::{self, W, X, Y, Z};
fn tag(i: usize) -> SequenceTag { match i { 0 => W, 1 => X, 2 => Y, _ => Z } }
fn stype(i: usize) -> SequenceType { match i { 0 => SequenceType::QuaternionType, 1 => SequenceType::WilliamsonType, _ => SequenceType::Williamson } }
const NUMS: &[&str] = &["0", "1", "10", "-1", "-10", "2", "20", "-2", "100", "12"];
type Line = (String, usize, usize);
fn case(s: &str) -> (usize, [usize; 4], Vec<Vec<Vec<i8>>>, Vec<Line>, Vec<Line>) {
    let v: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
    let mut r = Rng::new(v[0]);
    let (k, comps, lines, pool) = (v[1] as usize, v[2] as usize, v[3] as usize, v[4] as usize);
    let mut p = [0, 1, 2, 3]; for i in 0..4 { let j = r.below(4); p.swap(i, j); }
    // lists with members of valid quadruples of one length
    let q = loop { let q = dec4(WTS[r.below(WTS.len())]); if q[0].len() <= 8 { break q; } };
    let n = q[0].len();
    let mut l: Vec<Vec<Vec<i8>>> = vec![];
    for i in 0..4 { let mut m = vec![]; for _ in 0..r.range(1, 4) { m.push(r.signs(n)); } m[0] = q[i].clone(); if m.len() > 1 && r.below(2) == 0 { m[1] = q[i].iter().map(|x| -x).collect(); } let j = r.below(m.len()); m.swap(0, j); l.push(m); }
    let keys: Vec<String> = (0..pool).map(|_| (0..comps).map(|_| format!("{}_", NUMS[r.below(NUMS.len())])).collect::<String>()).map(|s| if s.is_empty() { "_".into() } else { s }).collect();
    let mut side = |a: usize, b: usize, c: usize| -> Vec<Line> { (0..c).map(|_| (keys[r.below(keys.len())].clone(), r.below(l[a].len()), r.below(l[b].len()))).collect() };
    let (c1, c2) = (if lines == 0 { 0 } else { lines }, lines);
    let a = side(p[0], p[1], c1); let b = side(p[2], p[3], c2);
    (k, p, l, a, b)
}
fn text(v: &[Line]) -> Vec<String> { let mut t: Vec<String> = v.iter().map(|(k, i, j)| format!("{}:_{}_{}", k, i, j)).collect(); t.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes())); t }
fn gen_f(i: u64, r: &mut Rng) -> Option<String> { if i > 100000 { None } else { Some(format!("{} {} {} {} {}", r.below(1 << 30), i % 3, r.below(4), [0, 1, 2, 3, 6, 12][r.below(6)], r.range(1, 4))) } }
fn run_f(s: &str) -> Result<bool, String> {
    let (k, p, l, a, b) = case(s);
    let (ta, tb) = (text(&a), text(&b));
    let d = "join"; std::fs::create_dir_all(d).unwrap();
    let (f1, f2) = (format!("{}/pair_a.pair.sorted", d), format!("{}/pair_b.pair.sorted", d));
    std::fs::write(&f1, ta.iter().map(|x| format!("{}\n", x)).collect::<String>()).unwrap();
    std::fs::write(&f2, tb.iter().map(|x| format!("{}\n", x)).collect::<String>()).unwrap();
    let mut want = vec![];
    for (x, i1, i2) in &a { for (y, i3, i4) in &b { if x == y {
        let mut q = vec![vec![]; 4];
        for (t, i) in p.iter().zip([*i1, *i2, *i3, *i4]) { q[*t] = l[*t][i].clone(); }
        if match k { 0 => def::qt(&q), 1 => def::wt(&q), _ => def::ws(&q) } { want.push(enc4(&q)); }
    } } }
    want.sort();
    let order = (tag(p[0]), tag(p[1]), tag(p[2]), tag(p[3]));
    let got = join_pairs_files(&(f1, f2), stype(k), &order, &(l[0].clone(), l[1].clone(), l[2].clone(), l[3].clone()));
    let mut got: Vec<String> = got.iter().map(|q| enc4(&unquad(q))).collect(); got.sort();
    ensure!(got == want, "joining the sorted lines {:?} and {:?} gives {} quadruples instead of {}: {:?} instead of {:?}", ta, tb, got.len(), want.len(), got, want);
    Ok(!want.is_empty())
}
fn gen_l(i: u64, r: &mut Rng) -> Option<String> { if i > 3000 { None } else { let m = 10usize.pow(r.below(9) as u32); Some(format!("{}:_{}_{}", (0..r.below(5)).map(|_| format!("{}_", NUMS[r.below(NUMS.len())])).collect::<String>(), r.below(m), r.below(1000))) } }
fn run_l(s: &str) -> Result<bool, String> {
    let s = if s.starts_with(':') { format!("_{}", s) } else { s.to_string() };
    let (_, (i, j)) = get_line_from(&Some(Ok(s.clone())));
    ensure!(s.ends_with(&format!(":_{}_{}", i, j)), "the line {} is read as indices {} and {}", s, i, j);
    let mut r = Rng::new(s.len() as u64 * 7 + i as u64);
    let mut p = [0, 1, 2, 3]; for i in 0..4 { let j = r.below(4); p.swap(i, j); }
    let l: Vec<Vec<Vec<i8>>> = (0..4).map(|_| (0..5).map(|_| r.signs(4)).collect()).collect();
    let ix = [r.below(5), r.below(5), r.below(5), r.below(5)];
    let lists = (l[0].clone(), l[1].clone(), l[2].clone(), l[3].clone()); let order = (tag(p[0]), tag(p[1]), tag(p[2]), tag(p[3])); let indices = (ix[0], ix[1], ix[2], ix[3]);
    let g = get_sequences(&lists, &order, &indices);
    let g = [g.0, g.1, g.2, g.3];
    for (k, t) in p.iter().enumerate() { ensure!(*g[*t] == l[*t][ix[k]], "order {:?}: index {} is not looked up in the list it belongs to", p, k); }
    Ok(true)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "join-files", gen: gen_f, run: run_f }, Check { name: "lines-and-lists", gen: gen_l, run: run_l }] }
