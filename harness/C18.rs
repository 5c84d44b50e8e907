use crate::sequences::equivalence::{coprime, COPRIMES};
fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
fn gen_pair(i: u64, r: &mut Rng) -> Option<String> {
    if i < 40000 { let (a, b) = (i / 200, i % 200); if a + b > 0 { return Some(format!("{} {}", a, b)); } }
    let sh = r.below(64); let a = (r.next() >> sh).max(1); let sh = r.below(64); let b = r.next() >> sh;
    let (a, b) = match r.below(4) { 0 => (a, b), 1 => (a, a.wrapping_mul(1 + r.below(9) as u64)), 2 => (a, a.wrapping_add(1)), _ => { let g = 1 + r.below(50) as u64; ((a % (1 << 40)) * g, (b % (1 << 40)) * g) } };
    Some(if a == 0 && b == 0 { "1 0".into() } else { format!("{} {}", a, b) })
}
fn run_pair(s: &str) -> Result<bool, String> {
    let v: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
    let w = gcd(v[0] as u128, v[1] as u128) == 1;
    ensure!(coprime(v[0] as usize, v[1] as usize) == w && coprime(v[1] as usize, v[0] as usize) == w, "{} and {} are {}coprime", v[0], v[1], if w { "" } else { "not " });
    Ok(v[0] > 1 && v[1] > 1)
}
fn gen_row(i: u64, _: &mut Rng) -> Option<String> { if i < 100 { Some(format!("{}", i + 1)) } else { None } }
fn run_row(s: &str) -> Result<bool, String> {
    let n: usize = s.parse().unwrap();
    let w: Vec<usize> = (1..=n).filter(|k| def::gcd(*k, n) == 1).collect();
    ensure!(COPRIMES.len() > n, "the table has no row {}", n);
    ensure!(COPRIMES[n] == w, "row {} of the table is {:?}", n, COPRIMES[n]);
    Ok(true)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "pair", gen: gen_pair, run: run_pair }, Check { name: "row", gen: gen_row, run: run_row }] }
