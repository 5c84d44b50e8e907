use crate::sequences::symmetries::SequenceType;
use crate::sequences::equivalence::*;
use crate::sequences::williamson::QuadSeq;
type Q = Vec<Vec<i8>>;
fn neg(q: &Q, k: usize) -> Q { let mut r = q.clone(); for x in r[k].iter_mut() { *x = -*x; } r }
fn swp(q: &Q, i: usize, j: usize) -> Q { let mut r = q.clone(); r.swap(i, j); r }
fn rot(q: &Q, which: &[usize], k: usize) -> Q { let mut r = q.clone(); for w in which { r[*w].rotate_left(k); } r }
fn op(name: &str, q: &Q) -> HashSet<Q> {
    let n = q[0].len();
    let mut s: HashSet<Q> = HashSet::new();
    s.insert(q.clone());
    match name {
        "negate_swap" => for i in 0..4 { for j in 0..i { for k in 0..4 { s.insert(swp(&neg(q, k), i, j)); } } },
        "reorder" => for i in 0..4 { for j in 0..i { s.insert(swp(q, i, j)); } },
        "negate" => for k in 0..4 { s.insert(neg(q, k)); },
        "uniform_shift" => for k in 0..n { s.insert(rot(q, &[0, 1, 2, 3], k)); },
        "even_alt" => if n % 2 == 0 { s.insert(q.iter().map(|x| (0..n).map(|i| if i % 2 == 1 { -x[i] } else { x[i] }).collect()).collect()); },
        "automorphism" => for k in 1..=n { if def::gcd(k, n) == 1 { s.insert(q.iter().map(|x| (0..n).map(|i| x[(i * k) % n]).collect()).collect()); } },
        "dual_half" => if n % 2 == 0 { for i in 0..4 { for j in 0..i { s.insert(rot(q, &[i, j], n / 2)); } } s.insert(rot(q, &[0, 1, 2, 3], n / 2)); },
        "single_half" => if n % 2 == 0 { for i in 0..4 { s.insert(rot(q, &[i], n / 2)); } },
        "uniform_half" => if n % 2 == 0 { for i in 0..4 { s.insert(rot(q, &[i], n / 2)); } },
        "reverse" => { s.insert(q.iter().map(|x| x.iter().rev().cloned().collect()).collect()); }
        "double_negate" => for i in 0..4 { for j in 0..i { s.insert(neg(&neg(q, i), j)); } },
        "alt" => { s.insert(q.iter().map(|x| (0..n).map(|i| if i % 2 == 1 { -x[i] } else { x[i] }).collect()).collect()); }
        "disjoint" => for k in 1..4 { let o: Vec<usize> = (1..4).filter(|j| *j != k).collect(); s.insert(swp(&swp(q, 0, k), o[0], o[1])); },
        "double_reorder" => for i in 0..4 { for j in 0..i { for k in 0..4 { for l in 0..k { s.insert(swp(&swp(q, i, j), k, l)); } } } },
        _ => panic!("{}", name),
    }
    s
}
fn real(name: &str) -> fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq> {
    match name {
        "negate_swap" => equivalent_negate_swap, "reorder" => equivalent_reorder, "negate" => equivalent_negate, "uniform_shift" => equivalent_uniform_shift,
        "even_alt" => equivalent_even_alternated_negation, "automorphism" => equivalent_automorphism, "dual_half" => equivalent_dual_half_shift,
        "single_half" => equivalent_single_half_shift, "uniform_half" => equivalent_uniform_half_shift, "reverse" => equivalent_reverse,
        "double_negate" => equivalent_double_negate, "alt" => equivalent_alternated_negation, "disjoint" => equivalent_disjoint_swaps, "double_reorder" => equivalent_double_reorder, _ => panic!("{}", name),
    }
}
static OPS: [&str; 14] = ["negate_swap", "reorder", "negate", "uniform_shift", "even_alt", "automorphism", "dual_half", "single_half", "uniform_half", "reverse", "double_negate", "alt", "disjoint", "double_reorder"];
fn gen_exact(i: u64, r: &mut Rng) -> Option<String> {
    let n = if i < 1400 { 1 + (i as usize / 14) % 24 } else if i % 97 == 0 { r.range(40, 100) } else { r.range(1, 40) };
    let q: Vec<Vec<i8>> = if r.below(4) == 0 { let s = r.signs(n); let t = r.signs(n); (0..4).map(|_| if r.below(2) == 0 { s.clone() } else { t.clone() }).collect() } else { (0..4).map(|_| r.signs(n)).collect() };
    Some(format!("{} {}", OPS[i as usize % 14], enc4(&q)))
}
fn run_exact(s: &str) -> Result<bool, String> {
    let (o, q) = s.split_once(' ').unwrap();
    let q = dec4(q);
    let got: HashSet<Q> = real(o)(&quad(&q), SequenceType::QuaternionType, true).iter().map(unquad).collect();
    let want = op(o, &q);
    if let Some(x) = want.iter().find(|x| !got.contains(*x)) { return Err(format!("{}: {} is missing from the result", o, enc4(x))); }
    if let Some(x) = got.iter().find(|x| !want.contains(*x)) { return Err(format!("{}: {} does not belong to the result", o, enc4(x))); }
    Ok(want.len() > 1)
}
fn ty(s: &str) -> SequenceType { match s { "qts" => SequenceType::QuaternionType, "wts" => SequenceType::WilliamsonType, _ => SequenceType::Williamson } }
fn valid(s: &str, q: &Q) -> bool { match s { "qts" => def::qt(q), "wts" => def::wt(q), _ => def::ws(q) } }
fn gen_valid(i: u64, r: &mut Rng) -> Option<String> {
    let t = ["qts", "wts", "ws"][i as usize % 3];
    for _ in 0..3000 {
        let q: Q = match r.below(4) {
            0 => { let n = r.range(1, 3); (0..4).map(|_| r.signs(n)).collect() }
            1 if t == "ws" => { let n = r.range(1, 7); (0..4).map(|_| { let s = r.signs(n); (0..n).map(|j| s[j.min(n - j)]).collect() }).collect() }
            _ => { let mut q = dec4(WTS[r.below(WTS.len())]); let n = q[0].len(); let k = r.below(n); if t != "ws" { q = rot(&q, &[0, 1, 2, 3], k); }
                if n % 2 == 0 && r.below(2) == 0 { let j = r.below(4); q = rot(&q, &[j], n / 2); } let a = r.below(4); let b = r.below(4); neg(&swp(&q, a, b), r.below(4)) }
        };
        if valid(t, &q) { return Some(format!("{} {}", t, enc4(&q))); }
    }
    Some(format!("{} +|+|+|+", t))
}
fn run_valid(s: &str) -> Result<bool, String> {
    let (t, q) = s.split_once(' ').unwrap();
    let q = dec4(q);
    for (k, f) in ty(t).equivalences().iter().enumerate() {
        for e in f(&quad(&q), ty(t), false).iter() {
            let e = unquad(e);
            ensure!(e.iter().all(|x| x.len() == q[0].len()) && valid(t, &e), "operation {} of {} maps it to {}, which is not a valid quadruple of that type", k, t, enc4(&e));
        }
    }
    Ok(q[0].len() > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "exact", gen: gen_exact, run: run_exact }, Check { name: "valid", gen: gen_valid, run: run_valid }] }
