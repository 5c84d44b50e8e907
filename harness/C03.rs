use crate::sequences::williamson::{QuadSeq, quaternion_to_quad};
/// a known Quaternion-type quadruple, transformed and then possibly damaged
fn variant(r: &mut Rng) -> Vec<Vec<i8>> {
    let mut q = dec4(WTS[r.below(WTS.len())]);
    let n = q[0].len(); let k = r.below(n);
    for s in q.iter_mut() { s.rotate_left(k); }
    if n % 2 == 0 && r.below(2) == 0 { for s in q.iter_mut() { for i in 0..n { if i % 2 == 1 { s[i] = -s[i]; } } } }
    for _ in 0..2 { let i = r.below(4); let j = (i + 1 + r.below(3)) % 4; for x in q[i].iter_mut() { *x = -*x; } for x in q[j].iter_mut() { *x = -*x; } }
    match r.below(7) {
        0 => { let (i, j) = (r.below(4), r.below(n)); q[i][j] = -q[i][j]; }
        1 => { let (i, j) = (r.below(4), r.below(4)); q.swap(i, j); }
        2 => { let i = r.below(4); let k = r.below(n); q[i].rotate_left(k); }
        3 => { let i = r.below(4); q[i].reverse(); }
        _ => {}
    }
    q
}
fn gen_q(i: u64, r: &mut Rng) -> Option<String> {
    if i < 4368 { return nth_tuple(i, 4, 1).map(|q| enc4(&q)); }
    if i > 200000 { return None; }
    match i % 4 {
        0 => { let n = r.range(4, 9); Some(enc4(&(0..4).map(|_| r.signs(n)).collect::<Vec<_>>())) }
        1 => { let n = r.range(10, 40); Some(enc4(&(0..4).map(|_| r.signs(n)).collect::<Vec<_>>())) }
        _ => Some(enc4(&variant(r))),
    }
}
fn run_q(s: &str) -> Result<bool, String> {
    let q = dec4(s); let n = q[0].len();
    let qq = quad(&q);
    let qs = qq.to_qs();
    let v = match hq::unqs(&qs) { Some(v) => v, None => return Err("to_qs gives entries that are not half-integers".into()) };
    ensure!(qs.size() == n && v.len() == n, "to_qs has size {} and {} entries for length {}", qs.size(), v.len(), n);
    for i in 0..n { ensure!(hq::raw(v[i], hq::conj(v[i])) == [4, 0, 0, 0], "entry {} of to_qs is not a unit", i); }
    let w = def::qt(&q);
    ensure!(qs.is_perfect() == w, "is_perfect is {} for a quadruple that is {}Quaternion-type", !w, if w { "" } else { "not " });
    ensure!(hq::perfect(&v) == w, "the sequence of to_qs is {}perfect for a quadruple that is {}Quaternion-type", if w { "not " } else { "" }, if w { "" } else { "not " });
    let b = QuadSeq::from_pqs(&qs);
    ensure!(b.size() == n && unquad(&b) == q, "from_pqs(to_qs(q)) = {}", enc4(&unquad(&b)));
    Ok(w)
}
fn gen_s(i: u64, r: &mut Rng) -> Option<String> {
    let l = hq::LETTERS.as_bytes();
    if i < 24 + 576 + 13824 {
        let (n, j) = if i < 24 { (1, i) } else if i < 600 { (2, i - 24) } else { (3, i - 600) };
        return Some((0..n).map(|k| l[(j / 24u64.pow(k) % 24) as usize] as char).collect());
    }
    if i > 150000 { return None; }
    match i % 4 {
        // eight units only: many sequences that fail at few offsets
        0 => { let n = r.range(4, 7); Some((0..n).map(|_| l[r.below(8)] as char).collect()) }
        1 => { let n = r.range(4, 24); Some((0..n).map(|_| l[r.below(24)] as char).collect()) }
        // a perfect sequence multiplied by a unit on the left, sometimes with one entry changed
        2 => {
            let q = dec4(WTS[r.below(WTS.len())]); let u = hq::units(); let g = u[r.below(24)]; let h = u[r.below(24)];
            let mut v: Vec<hq::H> = (0..q[0].len()).map(|i| hq::mul(g, hq::mul(hq::of_signs(q[0][i], q[1][i], q[2][i], q[3][i]), h))).collect();
            if r.below(3) == 0 { let k = r.below(v.len()); v[k] = u[r.below(24)]; }
            Some(hq::enc(&v))
        }
        // zero at every offset but one half of the length
        _ => { let m = r.range(1, 4); let h: String = (0..m).map(|_| l[r.below(8)] as char).collect(); let e: String = (0..m).map(|_| l[r.below(8)] as char).collect(); Some(format!("{}{}{}{}", h, e, h, e)) }
    }
}
fn run_s(s: &str) -> Result<bool, String> {
    let v = hq::dec(s); let n = v.len(); let qs = hq::qs(&v);
    let w = hq::perfect(&v);
    for t in 0..n { ensure!(hq::un(&qs.periodic_autocorrelation(t)) == Some(hq::ac(&v, t)), "periodic_autocorrelation({}) = {:?}, twice the value is {:?}", t, qs.periodic_autocorrelation(t), hq::ac(&v, t)); }
    ensure!(qs.is_perfect() == w, "is_perfect is {}; nonzero autocorrelations at {:?}", !w, (1..n).filter(|t| hq::ac(&v, *t) != [0; 4]).collect::<Vec<_>>());
    let table: Vec<hq::H> = (0..16).map(|i| hq::of_signs(1 - 2 * (i & 1), 1 - (i & 2), 1 - (i & 4) / 2, 1 - (i & 8) / 4)).collect();
    for (i, h) in v.iter().enumerate() {
        if let Some(_) = table.iter().position(|x| x == h) {
            let g = quaternion_to_quad(&qs.values()[i]);
            ensure!([g.0, g.1, g.2, g.3].iter().all(|x| *x == 1 || *x == -1) && hq::of_signs(g.0, g.1, g.2, g.3) == *h, "quaternion_to_quad of entry {} is {:?}", i, g);
        }
    }
    Ok(w && n > 1)
}
pub fn checks() -> Vec<Check> {
    vec![Check { name: "quadruples", gen: gen_q, run: run_q }, Check { name: "unit-sequences", gen: gen_s, run: run_s }]
}
