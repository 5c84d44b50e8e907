use crate::find::find_unique::find_aux;
use crate::sequences::williamson::QUADRUPLETS;
fn gen_f(i: u64, _r: &mut Rng) -> Option<String> { if i < 6 { Some(format!("{}", i + 1)) } else { None } }
fn run_f(s: &str) -> Result<bool, String> {
    let n: usize = s.parse().unwrap();
    for a in 0..16usize {
        let v = |k: usize| if a >> k & 1 == 0 { -1i8 } else { 1 };
        let p = (v(0), v(1), v(2), v(3));
        let c = QUADRUPLETS.iter().filter(|q| **q == p).count();
        ensure!(c == 1 && QUADRUPLETS.len() == 16, "the sign pattern {:?} is {} times in the table of {} rows", p, c, QUADRUPLETS.len());
    }
    let res = find_aux(n);
    let mut got: HashSet<Vec<Vec<i8>>> = HashSet::new();
    for q in &res {
        let u = unquad(q);
        ensure!(q.size() == n && u.iter().all(|s| s.len() == n && s.iter().all(|x| *x == 1 || *x == -1)), "not a quadruple of +-1 sequences of length {}: {}", n, enc4(&u));
        ensure!(q.to_qs().is_perfect() && def::qt(&u), "listed but not perfect: {}", enc4(&u));
        ensure!(got.insert(u.clone()), "listed twice: {}", enc4(&u));
    }
    let mut i = 0; 
    while let Some(q) = nth_tuple(i, 4, n) {
        if q[0].len() == n && def::qt(&q) && !got.contains(&q) { return Err(format!("not listed: {}", enc4(&q))); }
        if q[0].len() > n { break; }
        i += 1;
    }
    Ok(true)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "brute", gen: gen_f, run: run_f }] }
