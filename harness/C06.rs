use crate::sequences::equivalence::{ns_canonical, sn_ss_canonical};
type Q = Vec<Vec<i8>>;
fn neg(q: &Q, k: usize) -> Q { let mut r = q.clone(); for x in r[k].iter_mut() { *x = -*x; } r }
fn swp(q: &Q, i: usize, j: usize) -> Q { let mut r = q.clone(); r.swap(i, j); r }
fn next(q: &Q, ns: bool) -> Vec<Q> {
    let mut v = vec![];
    if ns { for i in 0..4 { for j in 0..i { for k in 0..4 { v.push(swp(&neg(q, k), i, j)); } } } }
    else { for k in 0..4 { v.push(neg(q, k)); for j in 0..k { v.push(swp(q, j, k)); } } }
    v
}
fn orbit(q: &Q, ns: bool) -> BTreeSet<Q> {
    let mut seen = BTreeSet::new(); seen.insert(q.clone());
    let mut todo = vec![q.clone()];
    while let Some(p) = todo.pop() { for x in next(&p, ns) { if seen.insert(x.clone()) { todo.push(x); } } }
    seen
}
// equal and opposite sequences, long common prefixes
fn gen_f(i: u64, r: &mut Rng) -> Option<String> {
    let n = if i < 400 { 1 + (i as usize / 2) % 5 } else { r.range(1, 40) };
    let mut q: Q = vec![];
    for k in 0..4 {
        let s = if k > 0 && r.below(3) == 0 { q[r.below(k)].clone() } else if k > 0 && r.below(3) == 0 { let mut s = q[r.below(k)].clone(); let j = n - 1 - r.below(n.min(3)); s[j] = -s[j]; s } else { r.signs(n) };
        q.push(if r.below(2) == 0 { s.iter().map(|x| -x).collect() } else { s });
    }
    Some(format!("{} {}", ["ns", "sn"][(i % 2) as usize], enc4(&q)))
}
fn run_f(s: &str) -> Result<bool, String> {
    let (t, q) = s.split_once(' ').unwrap();
    let (ns, q) = (t == "ns", dec4(q));
    let f = |q: &Q| unquad(&(if ns { ns_canonical(&quad(q)) } else { sn_ss_canonical(&quad(q)) }));
    let o = orbit(&q, ns);
    let c = f(&q);
    ensure!(o.contains(&c), "the form {} cannot be reached from the input", enc4(&c));
    for p in o.iter() { let d = f(p); ensure!(d == c, "related quadruples get different forms: {} gets {}, {} gets {}", enc4(&q), enc4(&c), enc4(p), enc4(&d)); }
    Ok(o.len() > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "class", gen: gen_f, run: run_f }] }
