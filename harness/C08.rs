use crate::sequences::symmetries::SequenceType;
use crate::sequences::equivalence::*;
use crate::sequences::williamson::QuadSeq;
type Q = Vec<Vec<i8>>;
fn neg(q: &Q, k: usize) -> Q { let mut r = q.clone(); for x in r[k].iter_mut() { *x = -*x; } r }
fn swp(q: &Q, i: usize, j: usize) -> Q { let mut r = q.clone(); r.swap(i, j); r }
fn rot(q: &Q, which: &[usize], k: usize) -> Q { let mut r = q.clone(); for w in which { r[*w].rotate_left(k); } r }
fn op(name: &str, q: &Q) -> Vec<Q> {
    let n = q[0].len();
    let mut s: Vec<Q> = vec![];
    match name {
        "negate_swap" => for i in 0..4 { for j in 0..i { for k in 0..4 { s.push(swp(&neg(q, k), i, j)); } } },
        "reorder" => for i in 0..4 { for j in 0..i { s.push(swp(q, i, j)); } },
        "negate" => for k in 0..4 { s.push(neg(q, k)); },
        "uniform_shift" => for k in 0..n { s.push(rot(q, &[0, 1, 2, 3], k)); },
        "even_alt" => if n % 2 == 0 { s.push(q.iter().map(|x| (0..n).map(|i| if i % 2 == 1 { -x[i] } else { x[i] }).collect()).collect()); },
        "automorphism" => for k in 1..=n { if def::gcd(k, n) == 1 { s.push(q.iter().map(|x| (0..n).map(|i| x[(i * k) % n]).collect()).collect()); } },
        "dual_half" => if n % 2 == 0 { for i in 0..4 { for j in 0..i { s.push(rot(q, &[i, j], n / 2)); } } s.push(rot(q, &[0, 1, 2, 3], n / 2)); },
        "single_half" => if n % 2 == 0 { for i in 0..4 { s.push(rot(q, &[i], n / 2)); } },
        "uniform_half" => if n % 2 == 0 { for i in 0..4 { s.push(rot(q, &[i], n / 2)); } },
        "reverse" => { s.push(q.iter().map(|x| x.iter().rev().cloned().collect()).collect()); }
        "double_negate" => for i in 0..4 { for j in 0..i { s.push(neg(&neg(q, i), j)); } },
        "alt" => { s.push(q.iter().map(|x| (0..n).map(|i| if i % 2 == 1 { -x[i] } else { x[i] }).collect()).collect()); }
        "disjoint" => for k in 1..4 { let o: Vec<usize> = (1..4).filter(|j| *j != k).collect(); s.push(swp(&swp(q, 0, k), o[0], o[1])); },
        "double_reorder" => for i in 0..4 { for j in 0..i { for k in 0..4 { for l in 0..k { s.push(swp(&swp(q, i, j), k, l)); } } } },
        _ => panic!("{}", name),
    }
    s
}
fn real(name: &str) -> fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq> {
    match name {
        "negate_swap" => equivalent_negate_swap, "reorder" => equivalent_reorder, "negate" => equivalent_negate, "uniform_shift" => equivalent_uniform_shift,
        "even_alt" => equivalent_even_alternated_negation, "automorphism" => equivalent_automorphism, "dual_half" => equivalent_dual_half_shift,
        "single_half" => equivalent_single_half_shift, "uniform_half" => equivalent_uniform_half_shift, "reverse" => equivalent_reverse,
        "double_negate" => equivalent_double_negate, "alt" => equivalent_alternated_negation, "disjoint" => equivalent_disjoint_swaps, "double_reorder" => equivalent_double_reorder, _ => panic!("{}", name),
    }
}
fn orbit(q: &Q, ops: &[&str]) -> HashSet<Q> {
    let mut seen = HashSet::new(); seen.insert(q.clone());
    let mut todo = vec![q.clone()];
    while let Some(p) = todo.pop() { for o in ops { for x in op(o, &p) { if seen.insert(x.clone()) { todo.push(x); } } } }
    seen
}
static OPS: [&str; 14] = ["negate_swap", "reorder", "negate", "uniform_shift", "even_alt", "automorphism", "dual_half", "single_half", "uniform_half", "reverse", "double_negate", "alt", "disjoint", "double_reorder"];
// the groups in use are small (shift, automorphism, alternation, half shifts); the big ones (all signs and orders) only for small lengths
static SMALL: [&str; 8] = ["uniform_shift", "even_alt", "automorphism", "dual_half", "single_half", "uniform_half", "reverse", "alt"];
fn gen_f(i: u64, r: &mut Rng) -> Option<String> {
    let n = if i < 62 { 1 + (i as usize / 2) % 31 } else { r.range(1, 31) };
    let mut ops: Vec<&str> = vec![];
    if i < 62 { ops = if i % 2 == 0 { vec!["even_alt", "uniform_shift", "automorphism"] } else { vec!["uniform_shift", "single_half"] }; if n > 20 && i % 2 == 0 { ops = vec!["uniform_shift", "automorphism"]; } if n > 8 && i % 2 == 1 { ops = vec!["uniform_shift"]; } }
    else if n <= 4 { for _ in 0..r.range(1, 4) { ops.push(OPS[r.below(14)]); } if ops.contains(&"single_half") || ops.contains(&"uniform_half") || ops.contains(&"dual_half") { ops.retain(|o| SMALL.contains(o)); } }
    else { for _ in 0..r.range(1, if n < 12 { 3 } else { 2 }) { ops.push(SMALL[r.below(8)]); } if n > 12 && ops.contains(&"automorphism") && r.below(3) > 0 { ops.retain(|o| *o == "automorphism"); } }
    if n % 2 == 1 && n > 3 { ops.retain(|o| *o != "alt"); }
    if ops.is_empty() { ops.push("uniform_shift"); }
    let q: Q = (0..4).map(|_| r.signs(n)).collect();
    Some(format!("{} {}", ops.join(","), enc4(&q)))
}
fn run_f(s: &str) -> Result<bool, String> {
    let (o, q) = s.split_once(' ').unwrap();
    let ops: Vec<&str> = o.split(',').collect();
    let q = dec4(q);
    let fs: Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>> = ops.iter().map(|o| real(o)).collect();
    let g = generate_symmetry_group(q[0].len(), SequenceType::QuaternionType, &fs);
    let got: HashSet<Q> = generate_equivalence_class_fast(&quad(&q), &g).iter().map(unquad).collect();
    let want = orbit(&q, &ops);
    if let Some(x) = want.iter().find(|x| !got.contains(*x)) { return Err(format!("{} can be reached but is missing from the fast class ({} of {} found)", enc4(x), got.len(), want.len())); }
    if let Some(x) = got.iter().find(|x| !want.contains(*x)) { return Err(format!("{} is in the fast class but cannot be reached", enc4(x))); }
    let direct: HashSet<Q> = generate_equivalence_class(&quad(&q), SequenceType::QuaternionType, &fs, true).iter().map(unquad).collect();
    ensure!(direct == got, "the directly generated class has {} members, the fast one {}", direct.len(), got.len());
    Ok(want.len() > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "fast", gen: gen_f, run: run_f }] }
