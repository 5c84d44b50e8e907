use crate::sequences::product::sequence_product;
fn perfect_seq(r: &mut Rng, max: usize) -> Vec<hq::H> {
    loop {
        let q = dec4(WTS[r.below(WTS.len())]); let n = q[0].len();
        if n > max { continue; }
        let u = hq::units(); let g = u[r.below(24)]; let h = u[r.below(24)]; let k = r.below(n);
        return (0..n).map(|i| hq::mul(g, hq::mul(hq::of_signs(q[0][(i + k) % n], q[1][(i + k) % n], q[2][(i + k) % n], q[3][(i + k) % n]), h))).collect();
    }
}
fn rnd(r: &mut Rng, n: usize) -> Vec<hq::H> { let u = hq::units(); let k = if r.below(3) == 0 { 8 } else { 24 }; (0..n).map(|_| u[r.below(k)]).collect() }
fn gen_p(i: u64, r: &mut Rng) -> Option<String> {
    if i > 30000 { return None; }
    let (a, b) = if i < 24 * 24 { let u = hq::units(); (vec![u[i as usize / 24]], vec![u[i as usize % 24]]) } else {
        match i % 3 {
            0 => { let (m, n) = (r.range(1, 9), r.range(1, 9)); (rnd(r, m), rnd(r, n)) }
            1 => { let a = perfect_seq(r, 21); let b = if r.below(4) == 0 { let n = r.range(1, 7); rnd(r, n) } else { perfect_seq(r, 21) }; if r.below(2) == 0 { (a, b) } else { (b, a) } }
            _ => { let (m, n) = (r.range(1, 30), r.range(1, 30)); (rnd(r, m), rnd(r, n)) }
        }
    };
    Some(format!("{} {}", hq::enc(&a), hq::enc(&b)))
}
fn run_p(s: &str) -> Result<bool, String> {
    let v: Vec<&str> = s.split(' ').collect(); let (a, b) = (hq::dec(v[0]), hq::dec(v[1]));
    let (p, q) = (a.len(), b.len());
    if def::gcd(p, q) != 1 { return Ok(false); }
    let (qa, qb) = (hq::qs(&a), hq::qs(&b));
    let c = sequence_product(&qa, &qb);
    let cv = match hq::unqs(&c) { Some(c) => c, None => return Err("an entry of the product is not a unit".into()) };
    ensure!(c.size() == p * q && cv.len() == p * q, "the product has size {} and {} entries for lengths {} and {}", c.size(), cv.len(), p, q);
    for k in 0..p * q { ensure!(cv[k] == hq::mul(a[k % p], b[k % q]), "entry {} of the product", k); }
    ensure!(hq::unqs(&qa) == Some(a.clone()) && hq::unqs(&qb) == Some(b.clone()), "an argument has changed");
    let w = qa.is_perfect() && qb.is_perfect();
    ensure!(!w || c.is_perfect(), "the product of perfect sequences of lengths {} and {} is not perfect", p, q);
    Ok(w && p > 1 && q > 1)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "product", gen: gen_p, run: run_p }] }
