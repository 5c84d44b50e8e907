use crate::sequences::matching::*;
use crate::sequences::williamson::SequenceTag::{self, W, X, Y, Z};
fn perms() -> Vec<[usize; 4]> { let mut v = vec![]; for a in 0..4 { for b in 0..4 { for c in 0..4 { for d in 0..4 { let p = [a, b, c, d]; if (0..4).all(|i| p.contains(&i)) { v.push(p); } } } } } v }
fn tag(i: usize) -> SequenceTag { match i { 0 => W, 1 => X, 2 => Y, _ => Z } }
fn dif(x: &[i8], y: &[i8], t: i64) -> i64 { def::cross(x, y, t) - def::cross(y, x, t) }
/// oriented difference of an ordered pair of tags: Z first, else W before X before Y before W
fn od(i: usize, j: usize, x: &[i8], y: &[i8], t: i64) -> i64 { if i == 3 || (j != 3 && (i + 1) % 3 == j) { dif(x, y, t) } else { dif(y, x, t) } }
fn gen_f(i: u64, r: &mut Rng) -> Option<String> {
    if i < 4 * 272 { return Some(enc4(&nth_tuple(i / 4, 4, 1)?)); }
    if i > 200000 { return None; }
    match i % 3 {
        // valid quadruples, shifted together, negated, swapped
        0 => { let mut q = dec4(WTS[r.below(WTS.len())]); let n = q[0].len(); let k = r.below(n); for s in q.iter_mut() { s.rotate_left(k); } let j = r.below(4); for x in q[j].iter_mut() { *x = -*x; } q.swap(0, r.below(4)); q.swap(1, r.below(4)); Some(enc4(&q)) }
        // the second pair a rearrangement of the first: some equations hold
        1 => { let n = r.range(1, 14); let a = r.signs(n); let b = r.signs(n); let mut c = a.clone(); let mut d = b.clone();
               if r.below(2) == 0 { c.reverse(); } if r.below(2) == 0 { d.reverse(); } if r.below(2) == 0 { for x in c.iter_mut() { *x = -*x; } } if r.below(2) == 0 { std::mem::swap(&mut c, &mut d); }
               let mut q = vec![a, b, c, d]; q.swap(1, r.range(1, 3)); Some(enc4(&q)) }
        _ => { let n = r.range(1, 14); Some(enc4(&(0..4).map(|_| r.signs(n)).collect::<Vec<_>>())) }
    }
}
fn run_f(s: &str) -> Result<bool, String> {
    let q = dec4(s); let n = q[0].len();
    for p in perms() {
        let (g, h) = ((tag(p[0]), tag(p[1])), (tag(p[2]), tag(p[3])));
        let (x, y, u, v) = (&q[p[0]], &q[p[1]], &q[p[2]], &q[p[3]]);
        let k1 = MatchData::from(x, y, &g);
        let k2 = MatchData::new(compute_complementary_auto_correlations(u, v), compute_complementary_cross_correlations(u, v, &h));
        let w = (1..n as i64).all(|t| q.iter().map(|s| def::auto(s, t)).sum::<i64>() == 0 && od(p[0], p[1], x, y, t) + od(p[2], p[3], u, v, t) == 0);
        ensure!((k1 == k2) == w, "tags {:?}: the keys are {}equal, but the two pairs do {}complement each other", p, if w { "not " } else { "" }, if w { "" } else { "not " });
        let (a, c) = (compute_auto_correlation_pair(x, y), compute_cross_correlations(x, y, &g));
        ensure!(a.len() == n / 2 && c.len() == n / 2 && (0..n / 2).all(|i| a[i] as i64 == def::auto(x, i as i64 + 1) + def::auto(y, i as i64 + 1)), "autocorrelation key {:?}", a);
        ensure!((0..n / 2).all(|i| c[i] as i64 == od(p[0], p[1], x, y, i as i64 + 1)), "tags {:?}: cross-correlation key {:?}", p, c);
        let rest = verify_cross_correlation(&[x, y, u, v], &vec![g.0.clone(), g.1.clone(), h.0.clone(), h.1.clone()]);
        // the two pairings other than the one of the keys
        let (ww, xx, yy, zz) = (&q[0], &q[1], &q[2], &q[3]);
        let own = |a: usize, b: usize| (p[0] == a && p[1] == b) || (p[0] == b && p[1] == a) || (p[2] == a && p[3] == b) || (p[2] == b && p[3] == a);
        let e = (0..n as i64).all(|t| (own(3, 0) || dif(zz, ww, t) + dif(xx, yy, t) == 0) && (own(3, 1) || dif(zz, xx, t) + dif(yy, ww, t) == 0) && (own(3, 2) || dif(zz, yy, t) + dif(ww, xx, t) == 0));
        ensure!(rest == e, "tags {:?}: the test of the remaining equations gives {}", p, rest);
        ensure!((k1 == k2 && rest) == def::qt(&q), "tags {:?}: keys equal {}, remaining test {}, Quaternion-type {}", p, k1 == k2, rest, def::qt(&q));
    }
    Ok(n > 1)
}
// the plans of the Fourier transform are made once for one length: one length per process
static LEN: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
fn gen_d(i: u64, r: &mut Rng) -> Option<String> {
    if i > 20000 { return None; }
    let n = *LEN.get_or_init(|| r.range(7, 24));
    Some(enc4(&[r.signs(n), r.signs(n)]))
}
fn run_d(s: &str) -> Result<bool, String> {
    let q = dec4(s); let n = q[0].len();
    let (l1, l2) = (vec![q[0].clone()], vec![q[1].clone()]);
    for p in crate::sequences::fourier::iter_over_enumerate_filtered_couples_psds(&l1, &l2, 1e12) {
        let a = compute_auto_correlation_pair_dft(&p.norm1, n, &p.norm2, n);
        ensure!(a == compute_auto_correlation_pair(&q[0], &q[1]), "the autocorrelation key computed by Fourier transform is {:?}", a);
        for i in 0..4 { for j in 0..4 { if i != j {
            let g = (tag(i), tag(j));
            let c = compute_cross_correlations_dft(&p.dft1, &p.dft2, &g, n);
            ensure!(c == compute_cross_correlations(&q[0], &q[1], &g), "tags {} {}: the cross-correlation key computed by Fourier transform is {:?}", i, j, c);
        } } }
        return Ok(true);
    }
    Err("the pair was filtered out without a bound".into())
}
pub fn checks() -> Vec<Check> { vec![Check { name: "match-keys", gen: gen_f, run: run_f }, Check { name: "keys-by-fourier-transform", gen: gen_d, run: run_d }] }
