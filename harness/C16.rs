use crate::sequences::equivalence::{seq_less_than, will_less_than, equivalent_negate, equivalent_reorder, equivalent_uniform_shift};
use crate::sequences::symmetries::SequenceType;
use crate::find::find_unique::reduce_to_equivalence_par;
type Q = Vec<Vec<i8>>;
// the second sequence shares a prefix with the first
fn near(s: &[i8], r: &mut Rng) -> Vec<i8> { let k = r.below(s.len() + 1); let mut t = s.to_vec(); let m = r.below(s.len() + 1); for (i, x) in t.iter_mut().enumerate() { if i == k || (i > k && m < k) { *x = if i == k { -*x } else { r.sign() }; } } t }
fn gen_seq(i: u64, r: &mut Rng) -> Option<String> {
    if let Some(v) = nth_tuple(i, 2, 0) { if v[0].len() <= 4 { return Some(format!("{}|{}", enc(&v[0]), enc(&v[1]))); } }
    let n = r.range(1, 60); let a = r.signs(n); let b = near(&a, r); Some(format!("{}|{}", enc(&a), enc(&b)))
}
fn run_seq(s: &str) -> Result<bool, String> {
    let v = dec4(s);
    let w = v[0] < v[1];
    ensure!(seq_less_than(&v[0], &v[1]) == w, "{} < {} should be {}", enc(&v[0]), enc(&v[1]), w);
    ensure!(crate::sequences::williamson::seq_less_than(&v[0], &v[1]) == w, "(williamson.rs) {} < {} should be {}", enc(&v[0]), enc(&v[1]), w);
    Ok(v[0] != v[1])
}
fn gen_quad(i: u64, r: &mut Rng) -> Option<String> {
    let n = if i < 500 { r.range(1, 3) } else { r.range(1, 30) };
    let p: Q = (0..4).map(|_| r.signs(n)).collect();
    let k = r.below(5);
    let q: Q = (0..4).map(|j| if j < k { p[j].clone() } else if j == k { near(&p[j], r) } else { r.signs(n) }).collect();
    Some(format!("{} {}", enc4(&p), enc4(&q)))
}
fn run_quad(s: &str) -> Result<bool, String> {
    let (p, q) = s.split_once(' ').unwrap();
    let (p, q) = (dec4(p), dec4(q));
    let (a, b) = (quad(&p), quad(&q));
    ensure!(will_less_than(&a, &b) == (p < q), "{} < {} should be {}", enc4(&p), enc4(&q), p < q);
    ensure!(will_less_than(&b, &a) == (q < p), "{} < {} should be {}", enc4(&q), enc4(&p), q < p);
    Ok(p != q)
}
// the minimum of a class closed under the operations, through the two reductions that keep the minimum
fn gen_min(i: u64, r: &mut Rng) -> Option<String> { let n = if i < 100 { r.range(1, 3) } else { r.range(1, 8) }; Some(enc4(&(0..4).map(|_| r.signs(n)).collect::<Vec<_>>())) }
fn run_min(s: &str) -> Result<bool, String> {
    let q = dec4(s);
    for (k, ops) in [vec![equivalent_negate as fn(&crate::QuadSeq, SequenceType, bool) -> HashSet<crate::QuadSeq>, equivalent_reorder], vec![equivalent_uniform_shift]].iter().enumerate() {
        let mut seen: BTreeSet<Q> = BTreeSet::new();
        let mut todo = vec![q.clone()];
        while let Some(p) = todo.pop() {
            if !seen.insert(p.clone()) { continue; }
            if k == 0 {
                for i in 0..4 { let mut x = p.clone(); for e in x[i].iter_mut() { *e = -*e; } todo.push(x); for j in 0..i { let mut x = p.clone(); x.swap(i, j); todo.push(x); } }
            } else { let mut x = p.clone(); for s in x.iter_mut() { s.rotate_left(1); } todo.push(x); }
        }
        let want = seen.iter().next().unwrap().clone();
        let par = reduce_to_equivalence_par(&vec![quad(&q)], SequenceType::ItoType, ops);
        ensure!(par.len() == 1 && unquad(&par[0]) == want, "the minimum picked is {}, not {}", par.iter().map(|x| enc4(&unquad(x))).collect::<Vec<_>>().join(" "), enc4(&want));
    }
    Ok(q[0].len() > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "seq", gen: gen_seq, run: run_seq }, Check { name: "quad", gen: gen_quad, run: run_quad }, Check { name: "min", gen: gen_min, run: run_min }] }
