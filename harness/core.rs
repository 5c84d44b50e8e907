// ===== harness/core.rs: bounded search over the real crate (concatenated with one <ID>.rs, compiled inside it) =====
#[allow(unused_imports)]
use std::collections::{HashMap, HashSet, BTreeSet, BTreeMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant as StdInstant};

pub struct Rng(u64);
#[allow(dead_code)]
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn sign(&mut self) -> i8 { if self.next() & 1 == 0 { 1 } else { -1 } }
    pub fn signs(&mut self, n: usize) -> Vec<i8> { (0..n).map(|_| self.sign()).collect() }
}

/// one checked statement: the i-th input (None: no more), and the test of an input.
/// run: Ok(nontrivial) or Err(what is wrong)
pub struct Check { pub name: &'static str, pub gen: fn(u64, &mut Rng) -> Option<String>, pub run: fn(&str) -> Result<bool, String> }

static CURRENT: Mutex<Option<(String, String, StdInstant)>> = Mutex::new(None);
static PANIC: Mutex<String> = Mutex::new(String::new());

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

fn one(c: &Check, input: &str) -> Result<bool, String> {
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some((c.name.to_string(), input.to_string(), StdInstant::now()));
    let r = match catch_unwind(AssertUnwindSafe(|| (c.run)(input))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.lock().unwrap_or_else(|e| e.into_inner()))),
    };
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = None;
    r
}

fn emit(evals: u64, distinct: u64, samples: &BTreeMap<&'static str, (u64, Vec<String>)>, viol: Option<(&str, &str, &str)>) {
    let mut s = String::from("{");
    s += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"per_check\":{{", evals, distinct);
    s += &samples.iter().map(|(k, v)| format!("{}:{{\"evaluations\":{},\"samples\":[{}]}}", js(k), v.0, v.1.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    s += "}";
    if let Some((n, i, m)) = viol { s += &format!(",\"violation\":{{\"check\":{},\"input\":{},\"message\":{}}}", js(n), js(i), js(m)); }
    s += "}";
    let p = std::env::var("VERIF_OUT").unwrap();
    std::fs::write(p, s).unwrap();
}

pub fn run() -> bool {
    if std::env::var("VERIF_OUT").is_err() { return false; }
    let secs: f64 = std::env::var("VERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known: Vec<String> = std::env::var("VERIF_KNOWN").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{}{}", m.chars().take(300).collect::<String>(), l);
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Some((n, i, t)) = c {
            if t.elapsed() > Duration::from_secs(60) {
                emit(1, 1, &BTreeMap::new(), Some((&n, &i, "does not return within 60 s")));
                std::process::exit(0);
            }
        }
    });
    let checks = checks();
    if let Ok(n) = std::env::var("VERIF_REPLAY_CHECK") {
        let input = std::env::var("VERIF_REPLAY_INPUT").unwrap();
        let c = checks.iter().find(|c| c.name == n).expect("no such check");
        let r = one(c, &input);
        emit(1, 1, &BTreeMap::new(), r.as_ref().err().map(|m| (c.name, input.as_str(), m.as_str())));
        return true;
    }
    let t0 = StdInstant::now();
    let mut per: BTreeMap<&'static str, (u64, Vec<String>)> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut idx: Vec<u64> = vec![0; checks.len()];
    let mut spent: Vec<f64> = vec![0.0; checks.len()];
    let mut done: Vec<bool> = vec![false; checks.len()];
    let mut rngs: Vec<Rng> = (0..checks.len()).map(|i| Rng::new(seed.wrapping_mul(1000003) + i as u64)).collect();
    loop {
        if t0.elapsed().as_secs_f64() > secs || done.iter().all(|d| *d) { break; }
        // the check that had the least time so far
        let k = (0..checks.len()).filter(|k| !done[*k]).min_by(|a, b| spent[*a].partial_cmp(&spent[*b]).unwrap()).unwrap();
        let c = &checks[k];
        let t = StdInstant::now();
        while t.elapsed().as_secs_f64() < 0.02 {
            let input = match (c.gen)(idx[k], &mut rngs[k]) { Some(i) => i, None => { done[k] = true; break; } };
            idx[k] += 1;
            evals += 1;
            let r = one(c, &input);
            let e = per.entry(c.name).or_insert((0, vec![]));
            e.0 += 1;
            if e.1.len() < 2 && (e.0 == 1 || e.0 == 40) { e.1.push(input.chars().take(200).collect()); }
            match r {
                Ok(nt) => {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (c.name, &input).hash(&mut h);
                    if nt && seen.insert(h.finish()) { distinct += 1; }
                }
                Err(m) => {
                    if known.iter().any(|x| *x == format!("{} {}", c.name, input)) { continue; }
                    emit(evals, distinct, &per, Some((c.name, &input, &m)));
                    return true;
                }
            }
        }
        spent[k] += t.elapsed().as_secs_f64();
    }
    emit(evals, distinct, &per, None);
    true
}

// ---------- inputs ----------
#[allow(dead_code)]
pub fn enc(s: &[i8]) -> String { s.iter().map(|x| if *x == 1 { '+' } else { '-' }).collect() }
#[allow(dead_code)]
pub fn dec(s: &str) -> Vec<i8> { s.chars().map(|c| if c == '+' { 1 } else { -1 }).collect() }
#[allow(dead_code)]
pub fn enc4(q: &[Vec<i8>]) -> String { q.iter().map(|s| enc(s)).collect::<Vec<_>>().join("|") }
#[allow(dead_code)]
pub fn dec4(s: &str) -> Vec<Vec<i8>> { s.split('|').map(dec).collect() }
/// the i-th tuple of k sign sequences, in order of increasing length from n0
#[allow(dead_code)]
pub fn nth_tuple(mut i: u64, k: usize, n0: usize) -> Option<Vec<Vec<i8>>> {
    let mut n = n0;
    loop {
        if k * n >= 60 { return None; }
        let m = 1u64 << (k * n);
        if i < m { return Some((0..k).map(|j| (0..n).map(|t| if (i >> (j * n + t)) & 1 == 0 { -1 } else { 1 }).collect()).collect()); }
        i -= m;
        n += 1;
    }
}

// ---------- independent definitions ----------
#[allow(dead_code)]
pub mod def {
    pub fn at(s: &[i8], i: i64) -> i64 { let n = s.len() as i64; s[(((i % n) + n) % n) as usize] as i64 }
    pub fn cross(a: &[i8], b: &[i8], t: i64) -> i64 { (0..a.len() as i64).map(|i| at(a, i) * at(b, i - t)).sum() }
    pub fn auto(a: &[i8], t: i64) -> i64 { (0..a.len() as i64).map(|i| at(a, i) * at(a, i + t)).sum() }
    pub fn compl(q: &[Vec<i8>]) -> bool { (1..q[0].len() as i64).all(|t| q.iter().map(|s| auto(s, t)).sum::<i64>() == 0) }
    fn dif(a: &[i8], b: &[i8], t: i64) -> i64 { cross(a, b, t) - cross(b, a, t) }
    pub fn amicable(q: &[Vec<i8>]) -> bool { (0..q[0].len() as i64).all(|t| (0..4).all(|i| (0..i).all(|j| dif(&q[i], &q[j], t) == 0))) }
    pub fn symmetric(q: &[Vec<i8>]) -> bool { let n = q[0].len() as i64; q.iter().all(|s| (0..n).all(|i| at(s, i) == at(s, -i))) }
    pub fn qcross(q: &[Vec<i8>]) -> bool {
        let (w, x, y, z) = (&q[0], &q[1], &q[2], &q[3]);
        (0..w.len() as i64).all(|t| dif(w, x, t) == dif(z, y, t) && dif(w, y, t) == dif(x, z, t) && dif(w, z, t) == dif(y, x, t))
    }
    pub fn qt(q: &[Vec<i8>]) -> bool { compl(q) && qcross(q) }
    pub fn wt(q: &[Vec<i8>]) -> bool { compl(q) && amicable(q) }
    pub fn ws(q: &[Vec<i8>]) -> bool { compl(q) && symmetric(q) }
    pub fn gcd(a: usize, b: usize) -> usize { let mut g = 1; for d in 1..=a.max(b) { if a % d == 0 && b % d == 0 { g = d; } } g }
}

// ---------- the crate's quadruples ----------
#[allow(dead_code)]
pub fn quad(q: &[Vec<i8>]) -> crate::sequences::williamson::QuadSeq {
    let mut r = crate::sequences::williamson::QuadSeq::new(q[0].len());
    r.set_all_values((&q[0], &q[1], &q[2], &q[3]));
    r
}
#[allow(dead_code)]
pub fn unquad(q: &crate::sequences::williamson::QuadSeq) -> Vec<Vec<i8>> { let (a, b, c, d) = q.sequences(); vec![a, b, c, d] }

// ---------- quaternions with exact components (in halves) ----------
#[allow(dead_code)]
pub mod hq {
    use cgmath::Quaternion;
    pub type H = [i64; 4];
    pub fn raw(a: H, b: H) -> H {
        [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
         a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]
    }
    pub fn mul(a: H, b: H) -> H { let r = raw(a, b); [r[0] / 2, r[1] / 2, r[2] / 2, r[3] / 2] }
    pub fn conj(a: H) -> H { [a[0], -a[1], -a[2], -a[3]] }
    pub fn neg(a: H) -> H { [-a[0], -a[1], -a[2], -a[3]] }
    pub fn add(a: H, b: H) -> H { [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]] }
    /// the 24 units, in the order of the letters LETTERS
    pub fn units() -> Vec<H> {
        let base: Vec<H> = vec![[2, 0, 0, 0], [-2, 0, 0, 0], [0, 2, 0, 0], [0, -2, 0, 0], [0, 0, 2, 0], [0, 0, -2, 0], [0, 0, 0, 2], [0, 0, 0, -2]];
        let mut v = base.clone();
        for q in [[1, 1, 1, 1], [1, -1, -1, -1]] { v.push(q); v.push(neg(q)); for b in &base[2..] { v.push(mul(q, *b)); } }
        v
    }
    pub const LETTERS: &str = "+-iIjJkKqQxXyYzZsSuUvVwW";
    pub fn f(a: H) -> Quaternion<f32> { Quaternion::new(a[0] as f32 / 2., a[1] as f32 / 2., a[2] as f32 / 2., a[3] as f32 / 2.) }
    pub fn un(q: &Quaternion<f32>) -> Option<H> {
        let c = [q.s, q.v.x, q.v.y, q.v.z];
        if c.iter().any(|x| (x * 2.).fract() != 0. || x.abs() > 1e7) { None } else { Some([(c[0] * 2.) as i64, (c[1] * 2.) as i64, (c[2] * 2.) as i64, (c[3] * 2.) as i64]) }
    }
    /// a sequence from its letters
    pub fn dec(s: &str) -> Vec<H> { let u = units(); s.chars().map(|c| u[LETTERS.find(c).unwrap()]).collect() }
    pub fn enc(v: &[H]) -> String { let u = units(); v.iter().map(|h| LETTERS.as_bytes()[u.iter().position(|x| x == h).unwrap()] as char).collect() }
    pub fn ac(v: &[H], t: usize) -> H { let n = v.len(); let mut s = [0; 4]; for i in 0..n { s = add(s, mul(v[i], conj(v[(i + t) % n]))); } s }
    pub fn perfect(v: &[H]) -> bool { (1..v.len()).all(|t| ac(v, t) == [0; 4]) }
    pub fn qs(v: &[H]) -> crate::sequences::sequence::QS {
        let mut q = crate::sequences::sequence::QS::new(v.len(), None);
        q.set_values(v.iter().map(|h| f(*h)).collect());
        q
    }
    pub fn unqs(q: &crate::sequences::sequence::QS) -> Option<Vec<H>> { q.values().iter().map(un).collect() }
    /// the unit of a sign quadruple: (-1+i+j+k)/2 (a+bi+cj+dk)/2
    pub fn of_signs(a: i8, b: i8, c: i8, d: i8) -> H { mul([-1, 1, 1, 1], [a as i64, b as i64, c as i64, d as i64]) }
}

macro_rules! ensure { ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } } }
