use crate::sequences::symmetries::SequenceType;
use crate::sequences::equivalence::*;
use crate::sequences::williamson::QuadSeq;
use crate::find::find_unique::{reduce_to_canonical_reps, reduce_to_equivalence, reduce_to_equivalence_par, reduce_to_equivalence_set_dif};
type Q = Vec<Vec<i8>>;
fn neg(q: &Q, k: usize) -> Q { let mut r = q.clone(); for x in r[k].iter_mut() { *x = -*x; } r }
fn swp(q: &Q, i: usize, j: usize) -> Q { let mut r = q.clone(); r.swap(i, j); r }
fn rot(q: &Q, which: &[usize], k: usize) -> Q { let mut r = q.clone(); for w in which { r[*w].rotate_left(k); } r }
fn op(name: &str, q: &Q) -> Vec<Q> {
    let n = q[0].len();
    let mut s: Vec<Q> = vec![];
    match name {
        "negate_swap" => for i in 0..4 { for j in 0..i { for k in 0..4 { s.push(swp(&neg(q, k), i, j)); } } },
        "reorder" => for i in 0..4 { for j in 0..i { s.push(swp(q, i, j)); } },
        "negate" => for k in 0..4 { s.push(neg(q, k)); },
        "uniform_shift" => for k in 0..n { s.push(rot(q, &[0, 1, 2, 3], k)); },
        "even_alt" => if n % 2 == 0 { s.push(q.iter().map(|x| (0..n).map(|i| if i % 2 == 1 { -x[i] } else { x[i] }).collect()).collect()); },
        "automorphism" => for k in 1..=n { if def::gcd(k, n) == 1 { s.push(q.iter().map(|x| (0..n).map(|i| x[(i * k) % n]).collect()).collect()); } },
        "dual_half" => if n % 2 == 0 { for i in 0..4 { for j in 0..i { s.push(rot(q, &[i, j], n / 2)); } } s.push(rot(q, &[0, 1, 2, 3], n / 2)); },
        "single_half" => if n % 2 == 0 { for i in 0..4 { s.push(rot(q, &[i], n / 2)); } },
        _ => panic!("{}", name),
    }
    s
}
fn real(name: &str) -> fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq> {
    match name {
        "negate_swap" => equivalent_negate_swap, "reorder" => equivalent_reorder, "negate" => equivalent_negate, "uniform_shift" => equivalent_uniform_shift,
        "even_alt" => equivalent_even_alternated_negation, "automorphism" => equivalent_automorphism, "dual_half" => equivalent_dual_half_shift,
        "single_half" => equivalent_single_half_shift, _ => panic!("{}", name),
    }
}
fn ops_of(t: &str) -> Vec<&'static str> {
    match t {
        "qts" => vec!["uniform_shift", "even_alt", "automorphism", "negate_swap", "dual_half"],
        "wts" => vec!["negate", "uniform_shift", "reorder", "even_alt", "automorphism", "single_half"],
        "ws" => vec!["negate", "reorder", "even_alt", "automorphism", "single_half"],
        _ => panic!(),
    }
}
fn ty(t: &str) -> SequenceType { match t { "qts" => SequenceType::QuaternionType, "wts" => SequenceType::WilliamsonType, _ => SequenceType::Williamson } }
fn orbit(q: &Q, ops: &[&str]) -> HashSet<Q> {
    let mut seen = HashSet::new(); seen.insert(q.clone());
    let mut todo = vec![q.clone()];
    while let Some(p) = todo.pop() { for o in ops { for x in op(o, &p) { if seen.insert(x.clone()) { todo.push(x); } } } }
    seen
}
fn walk(q: &Q, ops: &[&str], steps: usize, r: &mut Rng) -> Q {
    let mut p = q.clone();
    for _ in 0..steps { let v = op(ops[r.below(ops.len())], &p); if !v.is_empty() { p = v[r.below(v.len())].clone(); } }
    p
}
fn encl(l: &[Q]) -> String { l.iter().map(|q| enc4(q)).collect::<Vec<_>>().join(" ") }
static OPS: [&str; 8] = ["uniform_shift", "even_alt", "automorphism", "dual_half", "single_half", "negate", "reorder", "negate_swap"];
/// exactly one member of every class met, and nothing else
fn transversal(l: &[Q], ops: &[&str], out: &[Q], what: &str) -> Result<usize, String> {
    let mut classes: Vec<HashSet<Q>> = vec![];
    for q in l { if !classes.iter().any(|c| c.contains(q)) { classes.push(orbit(q, ops)); } }
    for c in &classes {
        let k = out.iter().filter(|q| c.contains(*q)).count();
        let m = l.iter().find(|q| c.contains(*q)).unwrap();
        ensure!(k == 1, "{}: the class of {} ({} members) has {} members in the result {}", what, enc4(m), c.len(), k, encl(out));
    }
    ensure!(out.len() == classes.len(), "{}: {} classes are met but {} entries are returned", what, classes.len(), out.len());
    Ok(classes.len())
}
/// the known quadruples of a type and length; each sequence may be shifted alone where that makes it symmetric
fn known(t: &str, n: usize) -> Vec<Q> {
    let mut v: Vec<Q> = WTS.iter().map(|s| dec4(s)).filter(|q| q[0].len() == n).collect();
    if t == "ws" {
        v = v.into_iter().map(|q| q.iter().map(|s| (0..n).map(|k| { let mut x = s.clone(); x.rotate_left(k); x }).find(|x| (0..n).all(|i| x[i] == x[(n - i) % n])).unwrap_or(s.clone())).collect()).filter(|q: &Q| def::ws(q)).collect();
    }
    v
}
fn base(t: &str, n: usize, r: &mut Rng) -> Q {
    let v: Vec<Q> = known(t, n);
    if v.is_empty() { return base(t, n - 1, r); }
    let q = v[r.below(v.len())].clone();
    // somewhere in the class under the wider operations, if still valid
    for _ in 0..4 { let st = r.below(4); let p = walk(&q, &["negate", "reorder", "single_half"], st, r); if match t { "qts" => def::qt(&p), "wts" => def::wt(&p), _ => def::ws(&p) } { return p; } }
    q
}
/// valid quadruples of the type, some of them related
fn gen_list(t: &str, n: usize, ops: &[&str], r: &mut Rng) -> Vec<Q> {
    let mut l: Vec<Q> = vec![];
    for _ in 0..r.range(1, 3) {
        let q = if !l.is_empty() && r.below(2) == 0 { let j = r.below(l.len()); let st = r.range(1, 3); walk(&l[j], &ops_of(t), st, r) } else { base(t, n, r) };
        l.push(q.clone());
        for _ in 0..r.below(3) { let st = r.range(0, 5); let p = walk(&q, ops, st, r); l.push(p); }
    }
    for i in (1..l.len()).rev() { let j = r.below(i + 1); l.swap(i, j); }
    l
}
fn gen_reduce(i: u64, r: &mut Rng) -> Option<String> {
    if i == 0 { return Some("reorder,negate".to_string()); }
    let n = if i < 60 { 1 + (i as usize) % 4 } else { r.range(1, 7) };
    let mut ops: Vec<&str> = vec![];
    for _ in 0..r.range(1, if n <= 2 { 4 } else if n <= 3 { 3 } else { 2 }) { ops.push(OPS[r.below(8)]); }
    let l = gen_list("wts", n, &ops, r);
    Some(format!("{} {}", ops.join(","), encl(&l)))
}
fn run_reduce(s: &str) -> Result<bool, String> {
    let mut w = s.split(' ');
    let ops: Vec<&str> = w.next().unwrap().split(',').collect();
    let l: Vec<Q> = w.map(dec4).collect();
    let fs: Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>> = ops.iter().map(|o| real(o)).collect();
    let inp: Vec<QuadSeq> = l.iter().map(|q| quad(q)).collect();
    let mut k = 0;
    for (name, f) in [("reduce_to_equivalence", reduce_to_equivalence as fn(&Vec<QuadSeq>, SequenceType, &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq>),
                      ("reduce_to_equivalence_par", reduce_to_equivalence_par), ("reduce_to_equivalence_set_dif", reduce_to_equivalence_set_dif)] {
        let out: Vec<Q> = f(&inp, SequenceType::WilliamsonType, &fs).iter().map(unquad).collect();
        k = transversal(&l, &ops, &out, name)?;
    }
    Ok(k > 1 || l.len() > 1)
}
fn gen_canon(i: u64, r: &mut Rng) -> Option<String> {
    let t = ["qts", "wts", "ws"][(i % 3) as usize];
    let n = [1, 2, 3, 3, 5, 5, 2, 3, 5, 4][(i as usize / 3) % 10];
    if n == 4 && i % 90 > 30 { return gen_canon(i + 3, r); }
    let ops = ops_of(t);
    let l = gen_list(t, n, &ops, r);
    Some(format!("{} {}", t, encl(&l)))
}
fn run_canon(s: &str) -> Result<bool, String> {
    let mut w = s.split(' ');
    let t = w.next().unwrap();
    let l: Vec<Q> = w.map(dec4).collect();
    let inp: Vec<QuadSeq> = l.iter().map(|q| quad(q)).collect();
    let out: Vec<Q> = reduce_to_canonical_reps(&inp, ty(t)).iter().map(unquad).collect();
    transversal(&l, &ops_of(t), &out, "reduce_to_canonical_reps")?;
    Ok(l.len() > 1)
}
// longer lengths: a member of the class reached by a random walk shares the representative
fn gen_walk(i: u64, r: &mut Rng) -> Option<String> {
    let t = ["qts", "wts", "ws"][(i % 3) as usize];
    let n = r.range(4, 12);
    let q = base(t, n, r);
    let st = r.range(1, 8);
    let p = walk(&q, &ops_of(t), st, r);
    Some(format!("{} {} {}", t, enc4(&q), enc4(&p)))
}
fn run_walk(s: &str) -> Result<bool, String> {
    let mut w = s.split(' ');
    let t = w.next().unwrap();
    let l: Vec<Q> = w.map(dec4).collect();
    let inp: Vec<QuadSeq> = l.iter().map(|q| quad(q)).collect();
    let out = reduce_to_canonical_reps(&inp, ty(t));
    ensure!(out.len() == 1, "two members of one class get {} representatives: {}", out.len(), encl(&out.iter().map(unquad).collect::<Vec<_>>()));
    if t == "ws" && l.iter().all(|q| def::symmetric(q)) { ensure!(def::symmetric(&unquad(&out[0])), "the representative {} of symmetric sequences is not symmetric", enc4(&unquad(&out[0]))); }
    Ok(l[0] != l[1])
}
fn gen_class(i: u64, r: &mut Rng) -> Option<String> {
    let t = ["qts", "wts", "ws"][(i % 3) as usize];
    let n = [1, 2, 3][(i as usize / 3) % 3];
    let ops = ops_of(t);
    let l = gen_list(t, n, &ops, r);
    Some(format!("{} {}", t, encl(&l)))
}
fn run_class(s: &str) -> Result<bool, String> {
    let mut w = s.split(' ');
    let t = w.next().unwrap();
    let l: Vec<Q> = w.map(dec4).collect();
    let (tt, ops) = (ty(t), ops_of(t));
    let q = &l[0];
    let want = orbit(q, &ops);
    let got: HashSet<Q> = generate_equivalence_class(&quad(q), tt.clone(), &tt.equivalences(), false).iter().map(unquad).collect();
    ensure!(got == want, "the class has {} members, {} can be reached", got.len(), want.len());
    let m = unquad(&generate_canonical_representative(&quad(q), tt.clone()));
    let least = want.iter().min_by(|a, b| a.cmp(b)).unwrap();
    ensure!(m == *least, "the representative is {}, the least member is {}", enc4(&m), enc4(least));
    for p in &l { ensure!(quad(q).equivalent_to(quad(p), tt.clone()) == want.contains(p), "equivalent_to answers {} for {}", !want.contains(p), enc4(p)); }
    let all: Vec<Q> = generate_equivalent_quad_seqs(&l.iter().map(|q| quad(q)).collect::<Vec<_>>(), tt.clone()).iter().map(unquad).collect();
    let mut un: HashSet<Q> = HashSet::new();
    for p in &l { un.extend(orbit(p, &ops)); }
    ensure!(all.len() == un.len() && all.iter().all(|p| un.contains(p)), "generate_equivalent_quad_seqs returns {} entries, the classes have {}", all.len(), un.len());
    Ok(l.len() > 1)
}
// valid quadruples: equiv agrees with the orbits
fn gen_equiv(i: u64, r: &mut Rng) -> Option<String> {
    let t = ["qts", "wts", "ws"][(i % 3) as usize];
    let small: Vec<Q> = (1..7).flat_map(|n| known(t, n)).collect();
    let q = small[r.below(small.len())].clone();
    let n = q[0].len();
    let other: Vec<&Q> = small.iter().filter(|p| p[0].len() == n).collect();
    let p = if r.below(2) == 0 { q.clone() } else { other[r.below(other.len())].clone() };
    let st = r.range(0, 6);
    let (q, p) = (walk(&q, &ops_of(if t == "qts" { "wts" } else { t }), st, r), walk(&p, &ops_of(t), st, r));
    let ok = |x: &Q| match t { "qts" => def::qt(x), "wts" => def::wt(x), _ => def::ws(x) };
    if !ok(&q) || !ok(&p) || (n == 6 && i % 60 > 3) || (n == 4 && i % 20 > 3) { return gen_equiv(i + 3, r); }
    Some(format!("{} {} {}", t, enc4(&q), enc4(&p)))
}
fn run_equiv(s: &str) -> Result<bool, String> {
    let mut w = s.split(' ');
    let t = w.next().unwrap();
    let (q, p) = (dec4(w.next().unwrap()), dec4(w.next().unwrap()));
    let want = orbit(&q, &ops_of(t)).contains(&p);
    let got = equiv(&quad(&q), &quad(&p), ty(t));
    ensure!(got == want, "equiv answers {}, but {} be reached", got, if want { "one can" } else { "the other cannot" });
    Ok(q != p)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "reduce", gen: gen_reduce, run: run_reduce }, Check { name: "canon", gen: gen_canon, run: run_canon }, Check { name: "walk", gen: gen_walk, run: run_walk },
    Check { name: "class", gen: gen_class, run: run_class }, Check { name: "equiv", gen: gen_equiv, run: run_equiv }] }
