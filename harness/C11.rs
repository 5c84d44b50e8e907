use crate::sequences::rowsum::{generate_rowsums, has_sorted_rowsums, quad_contains_zero, quad_contains_dup};
use crate::sequences::equivalence::filter_by_rowsums;
use crate::sequences::symmetries::SequenceType;
fn rs(q: &[Vec<i8>]) -> [isize; 4] { let mut r = [0; 4]; for k in 0..4 { r[k] = q[k].iter().map(|x| *x as isize).sum(); } r }
fn zero(r: &[isize; 4]) -> bool { r.iter().any(|x| *x == 0) }
fn dup(r: &[isize; 4]) -> bool { (0..4).any(|i| (0..i).any(|j| r[i] == r[j])) }
fn sorted(r: &[isize; 4]) -> bool { let last = if zero(r) || dup(r) { r[3] } else { r[3].abs() }; 0 <= r[0] && r[0] <= r[1] && r[1] <= r[2] && r[2] <= last }
fn ty(k: usize) -> SequenceType { match k { 0 => SequenceType::QuaternionType, 1 => SequenceType::WilliamsonType, _ => SequenceType::Williamson } }
fn of_type(q: &[Vec<i8>], k: usize) -> bool { match k { 0 => def::qt(q), 1 => def::wt(q), _ => def::ws(q) } }
fn with_sum(n: usize, s: isize, r: &mut Rng) -> Vec<i8> {
    let ones = ((n as isize + s) / 2).max(0).min(n as isize) as usize;
    let mut v: Vec<i8> = (0..n).map(|i| if i < ones { 1 } else { -1 }).collect();
    for i in (1..n).rev() { let j = r.below(i + 1); v.swap(i, j); }
    v
}
// the test itself, and the filter
fn gen_t(i: u64, r: &mut Rng) -> Option<String> {
    if i > 20000 { return None; }
    let n = r.range(1, 12); let m = r.range(1, n.min(5)) as isize;
    let mut q: Vec<Vec<i8>> = (0..4).map(|_| { let s = r.range(0, 2 * m as usize) as isize - m; with_sum(n, s, r) }).collect();
    if r.below(3) > 0 { q.sort_by_key(|v| v.iter().map(|x| *x as isize).sum::<isize>().abs()); }
    if r.below(2) > 0 { for k in 0..3 { if q[k].iter().map(|x| *x as isize).sum::<isize>() < 0 { for x in q[k].iter_mut() { *x = -*x; } } } }
    Some(enc4(&q))
}
fn run_t(s: &str) -> Result<bool, String> {
    let q = dec4(s); let r = rs(&q); let t = (r[0], r[1], r[2], r[3]); let w = sorted(&r);
    ensure!(quad_contains_zero(&t) == zero(&r), "quad_contains_zero({:?}) is {}", t, !zero(&r));
    ensure!(quad_contains_dup(&t) == dup(&r), "quad_contains_dup({:?}) is {}", t, !dup(&r));
    let x = quad(&q);
    ensure!(has_sorted_rowsums(&x) == w, "has_sorted_rowsums with rowsums {:?} is {}", r, !w);
    let mut neg = q.clone(); for v in neg[3].iter_mut() { *v = -*v; }
    let l = vec![quad(&q), quad(&neg), quad(&q)];
    let want: Vec<Vec<Vec<i8>>> = [q.clone(), neg.clone(), q.clone()].iter().filter(|v| sorted(&rs(v))).cloned().collect();
    let got: Vec<Vec<Vec<i8>>> = filter_by_rowsums(&l).iter().map(|v| unquad(v)).collect();
    ensure!(got == want, "filter_by_rowsums with rowsums {:?} keeps {} of 3 instead of {}", r, got.len(), want.len());
    Ok(w)
}
// classes: a member with sorted rowsums whose rowsums are generated
fn find(q: &[Vec<i8>], k: usize, cap: usize) -> Option<bool> {
    let n = q[0].len(); let lists = generate_rowsums(n, ty(k));
    let mut seen: HashSet<Vec<Vec<i8>>> = HashSet::new(); let mut todo = std::collections::VecDeque::new(); seen.insert(q.to_vec()); todo.push_back(q.to_vec());
    while let Some(p) = todo.pop_front() {
        let r = rs(&p);
        if has_sorted_rowsums(&quad(&p)) && lists.contains(&(r[0], r[1], r[2], r[3])) { return Some(true); }
        if seen.len() > cap { return None; }
        for f in ty(k).equivalences() { for x in f(&quad(&p), ty(k), false) { let u = unquad(&x); if seen.insert(u.clone()) { todo.push_back(u); } } }
    }
    Some(false)
}
fn gen_c(i: u64, r: &mut Rng) -> Option<String> {
    if i > 4000 { return None; }
    let k = (i % 3) as usize;
    let mut q;
    loop {
        if r.below(3) == 0 { q = dec4(WTS[r.below(WTS.len())]); if q[0].len() > 9 { continue; } }
        else { let n = r.range(1, 4); q = (0..4).map(|_| r.signs(n)).collect(); }
        if of_type(&q, k) { break; }
    }
    for _ in 0..r.below(4) {
        let (g, u, v) = (r.below(4), r.below(4), r.below(4));
        for x in q[g].iter_mut() { *x = -*x; }
        if u != v { q.swap(u, v); } else if k == 0 { for x in q[g].iter_mut() { *x = -*x; } }
    }
    if !of_type(&q, k) { return Some(String::new()); }
    Some(format!("{} {}", k, enc4(&q)))
}
fn run_c(s: &str) -> Result<bool, String> {
    if s.is_empty() { return Ok(false); }
    let (k, t) = s.split_once(' ').unwrap(); let k: usize = k.parse().unwrap(); let q = dec4(t);
    let r = rs(&q); let n = q[0].len() as isize;
    ensure!(r.iter().map(|x| x * x).sum::<isize>() == 4 * n, "the squares of the rowsums {:?} do not add up to 4*{}", r, n);
    match find(&q, k, 30000) { Some(ok) => { ensure!(ok, "no equivalent quadruple with rowsums that are sorted and generated (type {}, length {})", k, n); Ok(true) } None => Ok(false) }
}
pub fn checks() -> Vec<Check> { vec![Check { name: "sorted-test", gen: gen_t, run: run_t }, Check { name: "classes", gen: gen_c, run: run_c }] }
