use crate::sequences::matrices::HM;
use crate::sequences::symmetries::SequenceType;
fn mk(m: &[Vec<i8>]) -> HM { let mut h = HM::new(m.len()); for i in 0..m.len() { for j in 0..m.len() { h.set_value(i, j, m[i][j]); } } h }
fn un(h: &HM) -> Vec<Vec<i8>> { (0..h.size()).map(|i| (0..h.size()).map(|j| h.get(i, j)).collect()).collect() }
fn ortho(m: &[Vec<i8>]) -> bool { (0..m.len()).all(|i| (0..i).all(|j| m[i].iter().zip(m[j].iter()).map(|(a, b)| *a as i64 * *b as i64).sum::<i64>() == 0)) }
fn sylvester(k: usize) -> Vec<Vec<i8>> { let n = 1usize << k; (0..n).map(|i| (0..n).map(|j| if (i & j).count_ones() % 2 == 0 { 1 } else { -1 }).collect()).collect() }
/// Paley matrix of order p + 1, p a prime that is 3 mod 4
fn paley(p: usize) -> Vec<Vec<i8>> {
    let mut qr = vec![-1i8; p]; for x in 1..p { qr[x * x % p] = 1; } qr[0] = 0;
    let n = p + 1;
    (0..n).map(|i| (0..n).map(|j| if i == j { 1 } else if i == 0 { 1 } else if j == 0 { -1 } else { qr[(j + p - i) % p] }).collect()).collect()
}
/// a matrix from its description: s<k> | p<prime> | r<n>, then a seed and the number of sign flips
fn build(s: &str) -> Vec<Vec<i8>> {
    let v: Vec<&str> = s.split(' ').collect();
    let k: usize = v[0][1..].parse().unwrap(); let mut r = Rng::new(v[1].parse().unwrap());
    let mut m = match &v[0][..1] { "s" => sylvester(k), "p" => paley(k), "o" => vec![vec![1; k]; k], _ => (0..k).map(|_| r.signs(k)).collect() };
    let n = m.len();
    if v[1] != "0" {
        for _ in 0..n { let i = r.below(n); let j = r.below(n); m.swap(i, j); let j = r.below(n); if r.below(2) == 0 { for x in m[i].iter_mut() { *x = -*x; } } else { for row in m.iter_mut() { row[j] = -row[j]; } } }
    }
    let f: usize = v[2].parse().unwrap();
    match f { 9 => { let i = r.below(n); let j = r.below(n); m[i] = m[j].clone(); } _ => for _ in 0..f { let i = r.below(n); let j = r.below(n); m[i][j] = -m[i][j]; } }
    m
}
const SMALL: &[&str] = &["s0", "s1", "s2", "s3", "s4", "p3", "p7", "p11", "p19", "r1", "r2", "r3", "r4", "o1", "o2", "o3", "o4", "s5", "p23", "p31", "p43"];
const BIG: &[&str] = &["s6", "p59", "p83", "p103", "s7", "p127", "p131", "p151", "o127", "o128", "o129", "o256", "r130", "p199", "p251", "s8"];
fn gen_m(i: u64, r: &mut Rng) -> Option<String> {
    if i < 3000 { Some(format!("{} {} {}", SMALL[i as usize % SMALL.len()], r.below(1 << 30) * (r.below(4).min(1)), [0, 0, 1, 9, 2][r.below(5)])) }
    else if i < 3000 + 6 * BIG.len() as u64 { let j = (i - 3000) as usize; Some(format!("{} {} {}", BIG[j % BIG.len()], j / BIG.len() * r.below(1 << 30), [0, 0, 9, 1][r.below(4)])) }
    else { None }
}
fn run_m(s: &str) -> Result<bool, String> {
    let m = build(s); let n = m.len(); let h = mk(&m);
    ensure!(un(&h) == m && h.size() == n, "entries are not read back");
    let w = ortho(&m);
    ensure!(h.verify() == w, "verify is {} on a matrix of order {} whose rows are {}pairwise orthogonal", !w, n, if w { "" } else { "not " });
    let d = un(&h.dephased()); let mut h2 = mk(&m); h2.dephase(); let e = un(&h2);
    ensure!(un(&h) == m, "dephased changed its argument");
    for (what, x) in [("dephase", &e), ("dephased", &d)] {
        ensure!(x.len() == n && (0..n).all(|i| x[0][i] == 1 && x[i][0] == 1), "{}: first row or column is not all one", what);
        ensure!((0..n).all(|i| (0..n).all(|j| x[i][j] == m[i][j] * m[i][0] * m[0][j] * m[0][0])), "{}: the result is not the matrix with rows and columns negated", what);
    }
    ensure!(d == e, "dephase and dephased differ");
    Ok(n > 1)
}
fn gen_q(i: u64, r: &mut Rng) -> Option<String> {
    if i < 300 { return nth_tuple(i, 4, 1).map(|q| enc4(&q)); }
    if i > 4000 { return None; }
    if i % 2 == 0 { let mut q = dec4(WTS[r.below(WTS.len())]); let n = q[0].len(); let k = r.below(n); for s in q.iter_mut() { s.rotate_left(k); } let j = r.below(4); for x in q[j].iter_mut() { *x = -*x; } q.swap(0, r.below(4)); Some(enc4(&q)) }
    else { let n = r.range(1, 20); let q: Vec<Vec<i8>> = (0..4).map(|_| r.signs(n)).collect(); Some(enc4(&q)) }
}
fn run_q(s: &str) -> Result<bool, String> {
    let q = dec4(s); let n = q[0].len();
    let h = HM::from_williamson(&quad(&q), SequenceType::QuaternionType);
    ensure!(h.size() == 4 * n, "order {}", h.size());
    let m = un(&h);
    ensure!(m.iter().flatten().all(|x| *x == 1 || *x == -1), "an entry is not 1 or -1");
    ensure!(unquad(&h.get_qts()) == q, "the quadruple read back is {}", enc4(&unquad(&h.get_qts())));
    if def::qt(&q) { ensure!(ortho(&m), "two rows of the matrix of a Quaternion-type quadruple are not orthogonal"); ensure!(h.verify(), "verify rejects the matrix of a Quaternion-type quadruple"); }
    let c = un(&HM::from_sequence(&q[0]));
    ensure!(c.len() == n && (0..n).all(|i| (0..n).all(|j| c[i][j] == q[0][(j + n - i) % n])), "from_sequence is not the circulant matrix");
    Ok(def::qt(&q))
}
pub fn checks() -> Vec<Check> { vec![Check { name: "matrix", gen: gen_m, run: run_m }, Check { name: "quad", gen: gen_q, run: run_q }] }
