use crate::sequences::symmetries::SequenceType;
fn mutate(q: &mut Vec<Vec<i8>>, r: &mut Rng) { let k = r.below(4); let n = q[0].len(); let i = r.below(n); q[k][i] = -q[k][i]; }
fn gen(i: u64, r: &mut Rng) -> Option<String> {
    if i < 16 + 256 + 4096 + 3000 { return nth_tuple(if i < 4368 { i } else { 4368 + r.next() % 65536 }, 4, 1).map(|q| enc4(&q)); }
    match i % 6 {
        0 => { let n = r.range(1, 24); let q: Vec<Vec<i8>> = (0..4).map(|_| r.signs(n)).collect(); Some(enc4(&q)) }
        1 => { // symmetric
            let n = r.range(1, 12);
            let q: Vec<Vec<i8>> = (0..4).map(|_| { let s = r.signs(n); (0..n).map(|j| s[j.min(n - j)]).collect() }).collect();
            Some(enc4(&q)) }
        2 => Some(WTS[r.below(WTS.len())].to_string()),
        3 => { // symmetric except in one place
            let n = r.range(3, 14);
            let mut q: Vec<Vec<i8>> = (0..4).map(|_| { let s = r.signs(n); (0..n).map(|j| s[j.min(n - j)]).collect() }).collect();
            mutate(&mut q, r); Some(enc4(&q)) }
        4 => { // a quaternion-type quadruple that need not be amicable: equal shift of all, some negated
            let mut q = dec4(WTS[r.below(WTS.len())]); let n = q[0].len(); let k = r.below(n);
            for s in q.iter_mut() { s.rotate_left(k); } let j = r.below(4); for x in q[j].iter_mut() { *x = -*x; } q.swap(0, r.below(4)); Some(enc4(&q)) }
        _ => { let mut q = dec4(WTS[r.below(WTS.len())]); mutate(&mut q, r); Some(enc4(&q)) }
    }
}
fn run_verify(s: &str) -> Result<bool, String> {
    let q = dec4(s);
    let x = quad(&q);
    let (qt, wt, ws) = (def::qt(&q), def::wt(&q), def::ws(&q));
    for (t, name, w) in [(SequenceType::QuaternionType, "QuaternionType", qt), (SequenceType::WilliamsonType, "WilliamsonType", wt), (SequenceType::Williamson, "Williamson", ws)] {
        let g = x.verify(t);
        ensure!(g == w, "verify({}) is {}, the definition gives {}", name, g, w);
    }
    ensure!(x.verify_qts() == qt && x.verify_wts() == wt && x.verify_ws() == ws, "a verify_ function disagrees with the definition (qts {}, wts {}, ws {})", qt, wt, ws);
    ensure!(x.is_periodic_complementary() == def::compl(&q), "is_periodic_complementary is {}", x.is_periodic_complementary());
    ensure!(x.is_amicable() == def::amicable(&q), "is_amicable is {}", x.is_amicable());
    ensure!(x.is_symmetric() == def::symmetric(&q), "is_symmetric is {}", x.is_symmetric());
    ensure!(x.verify_cross_correlation() == def::qcross(&q), "verify_cross_correlation is {}", x.verify_cross_correlation());
    Ok(qt || wt || ws || q[0].len() > 3)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "verify", gen, run: run_verify }] }
