use crate::sequences::williamson::{periodic_autocorrelation, cross_correlation};
fn sizes(i: u64, r: &mut Rng) -> usize { if i < 400 { 1 + (i as usize % 20) } else { r.range(1, if i % 50 == 0 { 700 } else { 80 }) } }
fn gen_auto(i: u64, r: &mut Rng) -> Option<String> { let n = sizes(i, r); Some(format!("{} {}", enc(&r.signs(n)), r.below(2 * n + 3))) }
fn run_auto(s: &str) -> Result<bool, String> {
    let (a, t) = s.split_once(' ').unwrap();
    let (a, t) = (dec(a), t.parse::<usize>().unwrap());
    let (g, w) = (periodic_autocorrelation(&a, t) as i64, def::auto(&a, t as i64));
    ensure!(g == w, "periodic autocorrelation at offset {} is {}, the definition gives {}", t, g, w);
    Ok(a.len() > 2)
}
fn gen_cross(i: u64, r: &mut Rng) -> Option<String> { let n = sizes(i, r); Some(format!("{} {} {}", enc(&r.signs(n)), enc(&r.signs(n)), r.below(n + 1))) }
fn run_cross(s: &str) -> Result<bool, String> {
    let p: Vec<&str> = s.split(' ').collect();
    let (a, b, t) = (dec(p[0]), dec(p[1]), p[2].parse::<usize>().unwrap());
    let (g, w) = (cross_correlation(&a, &b, t) as i64, def::cross(&a, &b, t as i64));
    ensure!(g == w, "cross correlation at offset {} is {}, the definition gives {}", t, g, w);
    Ok(a.len() > 2)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "auto", gen: gen_auto, run: run_auto }, Check { name: "cross", gen: gen_cross, run: run_cross }] }
