use crate::sequences::rowsum::{generate_sequences_with_rowsum, rowsum};
fn gen_gen(i: u64, r: &mut Rng) -> Option<String> {
    // every length up to 12 with every rowsum, then long ones close to the extreme rowsums and lengths up to 17
    let mut k = i as i64;
    for n in 0..13i64 { if k < 2 * n + 1 { return Some(format!("{} {}", n, k - n)); } k -= 2 * n + 1; }
    if r.below(3) == 0 { let n = r.range(13, 17) as i64; return Some(format!("{} {}", n, r.range(0, 2 * n as usize) as i64 - n)); }
    let n = r.range(13, 60) as i64; let d = r.below(if n < 25 { 7 } else { 5 }) as i64;
    Some(format!("{} {}", n, if r.below(2) == 0 { n - d } else { d - n }))
}
fn choose(n: i64, k: i64) -> u64 { let mut c = 1u64; for i in 0..k { c = c * (n - i) as u64 / (i + 1) as u64; } c }
fn run_gen(s: &str) -> Result<bool, String> {
    let v: Vec<i64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
    let (n, t) = (v[0], v[1]);
    let got = generate_sequences_with_rowsum(t as isize, n as usize);
    let mut seen: HashSet<&Vec<i8>> = HashSet::new();
    for g in got.iter() {
        ensure!(g.len() == n as usize && g.iter().all(|x| *x == 1 || *x == -1), "{:?} is not a ±1 sequence of length {}", g, n);
        ensure!(g.iter().map(|x| *x as i64).sum::<i64>() == t, "{} does not have rowsum {}", enc(g), t);
        ensure!(seen.insert(g), "{} is listed twice", enc(g));
    }
    let want = if (n + t) % 2 == 0 { choose(n, (n + t) / 2) } else { 0 };
    ensure!(got.len() as u64 == want, "{} sequences listed, there are {}", got.len(), want);
    Ok(got.len() > 1)
}
fn gen_sum(i: u64, r: &mut Rng) -> Option<String> {
    let n = if i % 20 == 0 { r.range(120, 700) } else { r.range(0, 60) };
    if r.below(3) == 0 { let s = r.sign(); let mut v = vec![s; n]; if n > 0 { let k = r.below(n); v[k] = -v[k]; } return Some(enc(&v)); }
    Some(enc(&r.signs(n)))
}
fn run_sum(s: &str) -> Result<bool, String> {
    let v = dec(s);
    let w: i64 = v.iter().map(|x| *x as i64).sum();
    let g = rowsum(v) as i64;
    ensure!(g == w, "rowsum is {}, the entries add up to {}", g, w);
    Ok(!s.is_empty())
}
pub fn checks() -> Vec<Check> { vec![Check { name: "generate", gen: gen_gen, run: run_gen }, Check { name: "rowsum", gen: gen_sum, run: run_sum }] }
