use crate::sequences::matrices::QHM;
fn un(h: &QHM) -> Option<Vec<Vec<hq::H>>> { (0..h.size()).map(|i| (0..h.size()).map(|j| hq::un(&h.get(i, j))).collect()).collect() }
fn eq(a: hq::H, b: hq::H) -> bool { a == b }
/// sequences: all of length 1 to 3, random ones over all units or over one commutative subgroup, units times perfect sequences
fn gen_s(i: u64, r: &mut Rng) -> Option<String> {
    let l = hq::LETTERS.as_bytes();
    if i < 24 + 576 + 13824 {
        let (n, j) = if i < 24 { (1, i) } else if i < 600 { (2, i - 24) } else { (3, i - 600) };
        return Some((0..n).map(|k| l[(j / 24u64.pow(k) % 24) as usize] as char).collect());
    }
    if i > 60000 { return None; }
    match i % 5 {
        0 => { let n = r.range(4, 9); let c = ["+-", "+-iI", "+-jJ", "+-kK", "+-qQ", "+-iIjJkK"][r.below(6)].as_bytes(); Some((0..n).map(|_| c[r.below(c.len())] as char).collect()) }
        1 => { let n = r.range(4, 20); Some((0..n).map(|_| l[r.below(24)] as char).collect()) }
        // one or two odd entries among ones
        2 => { let n = r.range(4, 12); let mut v = vec![b'+'; n]; for _ in 0..2 { let k = r.below(n); v[k] = l[r.below(24)]; } Some(v.iter().map(|c| *c as char).collect()) }
        _ => {
            let q = dec4(WTS[r.below(WTS.len())]); let u = hq::units(); let g = u[r.below(24)]; let h = u[r.below(24)];
            let mut v: Vec<hq::H> = (0..q[0].len()).map(|i| hq::mul(g, hq::mul(hq::of_signs(q[0][i], q[1][i], q[2][i], q[3][i]), h))).collect();
            if r.below(3) == 0 { let k = r.below(v.len()); v[k] = u[r.below(24)]; }
            Some(hq::enc(&v))
        }
    }
}
fn inner(a: &[hq::H], b: &[hq::H]) -> hq::H { let mut s = [0; 4]; for i in 0..a.len() { s = hq::add(s, hq::mul(a[i], hq::conj(b[i]))); } s }
fn noncomm(m: &[Vec<hq::H>]) -> bool {
    let n = m.len(); let mut u: Vec<hq::H> = vec![];
    for i in 1..n { for j in 1..n { if !u.contains(&m[i][j]) { u.push(m[i][j]); } } }
    u.iter().any(|a| u.iter().any(|b| hq::mul(*a, *b) != hq::mul(*b, *a)))
}
fn properties(h: &QHM, m: &[Vec<hq::H>]) -> Result<(), String> {
    let n = m.len();
    let w = (0..n).all(|i| (0..n).all(|j| inner(&m[i], &m[j]) == if i == j { [2 * n as i64, 0, 0, 0] } else { [0; 4] }));
    ensure!(h.verify() == w, "verify is {} although the rows are {}pairwise orthogonal", !w, if w { "" } else { "not " });
    let c = noncomm(m);
    ensure!(h.contains_non_commuting_elements() == c, "contains_non_commuting_elements is {}", !c);
    Ok(())
}
fn run_s(s: &str) -> Result<bool, String> {
    let v = hq::dec(s); let n = v.len();
    let h = QHM::from_pqs(hq::qs(&v));
    let m = match un(&h) { Some(m) => m, None => return Err("an entry is not a unit".into()) };
    ensure!(h.size() == n && m.len() == n, "size {}", h.size());
    ensure!((0..n).all(|i| (0..n).all(|j| eq(m[i][j], v[(j + n - i) % n]))), "row r is not the sequence shifted right by r");
    for i in 0..n {
        let r: Option<Vec<hq::H>> = h.row(i).iter().map(hq::un).collect(); let c: Option<Vec<hq::H>> = h.col(i).iter().map(hq::un).collect();
        ensure!(r.as_ref() == Some(&m[i]), "row {} is not the row of the matrix", i);
        ensure!(c == Some((0..n).map(|k| m[k][i]).collect()), "col {} is not the column of the matrix", i);
    }
    let p = hq::perfect(&v);
    ensure!(h.verify() == p, "verify is {} although the sequence is {}perfect", !p, if p { "" } else { "not " });
    properties(&h, &m)?;
    let d = h.dephased();
    ensure!(un(&h).as_deref() == Some(&m[..]), "dephased changed its argument");
    let mut h2 = QHM::from_pqs(hq::qs(&v)); h2.dephase();
    for (what, x) in [("dephase", &h2), ("dephased", &d)] {
        let x2 = match un(x) { Some(m) => m, None => return Err(format!("{}: an entry is not a unit", what)) };
        ensure!(x2.len() == n && (0..n).all(|i| x2[0][i] == [2, 0, 0, 0] && x2[i][0] == [2, 0, 0, 0]), "{}: first row or column is not all one", what);
        properties(x, &x2).map_err(|e| format!("after {}: {}", what, e))?;
        ensure!(x.verify() == p, "{} changed whether the matrix is Hadamard", what);
    }
    Ok(p && n > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "circulant", gen: gen_s, run: run_s }] }
