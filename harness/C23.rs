use crate::sequences::sequence::QS;
use crate::sequences::williamson::QuadSeq;
use crate::sequences::rowsum::{generate_rowsums, generate_sequences_with_rowsum};
use crate::str_to_seqtype;
// the whole run of one length: what the files contain
fn prepare(d: &cli::Dir, t: &str, n: usize) { d.make(&format!("results/pairs/{}/find_{}", t, n)); d.make("results/sequences/unique_wts"); }
fn all(d: &cli::Dir, t: &str, n: usize, opt: &str, pairing: &str, limit: Option<usize>, step: usize) -> Result<(), String> {
    let n = n.to_string();
    if step != 1 { cli::run(d, &cli::args(&["rowsums", t, &n]), if step == 0 { limit } else { None })?; }
    if step >= 1 { cli::run(d, &cli::args(&["pairs", t, &n, opt, pairing]), if step == 1 { limit } else { None })?; }
    if step >= 2 { cli::sort(d); cli::run(d, &cli::args(&["join", t, &n]), if step == 2 { limit } else { None })?; }
    if step == 3 { cli::run(d, &cli::args(&["convert", "qhm", t, &n]), limit)?; }
    if step == 4 { cli::run(d, &cli::args(&["convert", "hm", t, &n]), limit)?; }
    if step == 5 { cli::run(d, &cli::args(&["qhm-all", t, &n]), limit)?; }
    Ok(())
}
const CASES: &[(&str, usize, &str, &str)] = &[("qts", 6, "correlation", "WX"), ("wts", 8, "psd", "WZ"), ("qts", 8, "psd", "WY"), ("ws", 10, "correlation", "WZ"), ("wts", 5, "correlation", "WY"), ("qts", 10, "correlation", "WZ"), ("ws", 13, "psd", "WX"),
    ("wts", 7, "psd", "WX"), ("qts", 2, "psd", "WX"), ("wts", 3, "correlation", "WZ"), ("qts", 9, "psd", "WX"), ("wts", 10, "psd", "WX"), ("qts", 7, "correlation", "WZ"), ("ws", 12, "psd", "WY"), ("wts", 11, "psd", "WZ")];
fn gen_f(i: u64, _: &mut Rng) -> Option<String> { let c = CASES.get(i as usize)?; Some(format!("{} {} {} {}", c.0, c.1, c.2, c.3)) }
fn terminated(p: &str, t: &[u8]) -> Result<(), String> { if t.is_empty() || t.ends_with(b"\n") { Ok(()) } else { Err(format!("the last line of {} is not terminated", p)) } }
fn run_f(s: &str) -> Result<bool, String> {
    let v: Vec<&str> = s.split(' ').collect();
    let (t, n, opt, pairing) = (v[0], v[1].parse::<usize>().unwrap(), v[2], v[3]);
    let d = cli::Dir::new("files"); prepare(&d, t, n);
    all(&d, t, n, opt, pairing, None, 2)?;
    let f = cli::files(&d);
    for (p, x) in &f { terminated(p, x)?; }
    let base = format!("results/pairs/{}/find_{}", t, n);
    let rows = generate_rowsums(n, str_to_seqtype(t));
    let got = f.get(&format!("{}/rowsums.quad", base)).ok_or("rowsums.quad is not written")?;
    let mut want: Vec<String> = rows.iter().map(|r| format!("{} {} {} {}", r.0, r.1, r.2, r.3)).collect(); want.sort();
    let mut got = cli::lines(got); got.sort();
    ensure!(got == want, "{}: rowsums.quad contains {:?} instead of {:?}", s, got, want);
    let mut big = 0;
    for r in &rows {
        let dir = format!("{}/rowsum_{}_{}_{}_{}", base, r.0, r.1, r.2, r.3);
        let lists: Vec<Vec<Vec<i8>>> = [r.0, r.1, r.2, r.3].iter().map(|x| generate_sequences_with_rowsum(*x, n).into_iter().filter(|q| t != "ws" || def::symmetric(&[q.clone()])).collect()).collect();
        let mut on_file = vec![];
        for (k, tag) in ["W", "X", "Y", "Z"].iter().enumerate() {
            let p = format!("{}/seq_{}.seq", dir, tag);
            let x = cli::lines(f.get(&p).ok_or(format!("{} is not written", p))?);
            let mut g = x.clone(); g.sort();
            let mut w: Vec<String> = lists[k].iter().map(|q| enc(q)).collect(); w.sort();
            ensure!(g == w, "{}: {} contains {} sequences instead of {}", s, p, g.len(), w.len());
            on_file.push(x);
        }
        let ix = |c: char| "WXYZ".find(c).unwrap();
        let (a, b) = (ix('W'), ix(pairing.chars().nth(1).unwrap()));
        let rest: Vec<usize> = (0..4).filter(|k| *k != a && *k != b).collect();
        for (a, b) in [(a, b), (rest[0], rest[1])] {
            let p = format!("{}/pair_{}{}.pair", dir, "WXYZ".chars().nth(a).unwrap(), "WXYZ".chars().nth(b).unwrap());
            let l = cli::lines(f.get(&p).ok_or(format!("{} is not written", p))?);
            let mut seen = HashSet::new();
            for x in &l {
                let k: Vec<&str> = x.rsplitn(3, '_').collect();
                let ok = k.len() == 3 && k[2].ends_with(':') && k[0].parse::<usize>().is_ok() && k[1].parse::<usize>().is_ok();
                ensure!(ok, "{}: {} contains the incomplete line {:?}", s, p, x);
                let (i, j): (usize, usize) = (k[1].parse().unwrap(), k[0].parse().unwrap());
                ensure!(i < on_file[a].len() && j < on_file[b].len(), "{}: {} names the sequences {} and {}, which are not there", s, p, i, j);
                ensure!(seen.insert((i, j)), "{}: {} contains the pair {} {} twice", s, p, i, j);
            }
            if l.len() > 1000 { big += 1; }
            // pairs that must be there: no power spectral density near or above the bound
            let (sa, sb): (Vec<Vec<i8>>, Vec<Vec<i8>>) = (on_file[a].iter().map(|x| dec(x)).collect(), on_file[b].iter().map(|x| dec(x)).collect());
            let psd = |q: &Vec<i8>| -> Vec<f64> { (1..n).map(|k| { let (mut re, mut im) = (0., 0.); for (m, x) in q.iter().enumerate() { let w = 2. * std::f64::consts::PI * ((k * m) % n) as f64 / n as f64; re += *x as f64 * w.cos(); im += *x as f64 * w.sin(); } re * re + im * im }).collect() };
            let (pa, pb): (Vec<Vec<f64>>, Vec<Vec<f64>>) = (sa.iter().map(psd).collect(), sb.iter().map(psd).collect());
            for i in 0..pa.len() { for j in 0..pb.len() { if (t != "wts" || (0..n as i64).all(|k| def::cross(&sa[i], &sb[j], k) == def::cross(&sb[j], &sa[i], k))) && (0..n - 1).all(|k| pa[i][k] + pb[j][k] < 4. * n as f64 - 1e-3) {
                ensure!(seen.contains(&(i, j)), "{}: {} does not contain the pair {} {} ({} {})", s, p, i, j, enc(&sa[i]), enc(&sb[j]));
            } } }
        }
    }
    // the results: the same quadruples in both files
    for q in if t == "wts" { vec!["result", "result-qts"] } else { vec!["result"] } {
        let raw = cli::lines(f.get(&format!("{}/{}.seq", base, q)).ok_or(format!("{}.seq is not written", q))?);
        let quad = cli::lines(f.get(&format!("{}/{}.qseq", base, q)).ok_or(format!("{}.qseq is not written", q))?);
        let mut w: Vec<String> = raw.iter().map(|x| QuadSeq::from_pqs(&QS::from_str(&x.to_string())).to_string() + "\n").collect::<String>().lines().map(|x| x.to_string()).collect(); w.sort();
        let mut g = quad.clone(); g.sort();
        ensure!(g == w, "{}: {}.seq gives {} lines and {}.qseq has {}, not the same", s, q, w.len(), q, g.len());
    }
    Ok(big > 0 || n > 3)
}
// with a limit on the size of a file, a run that reports success has written everything
// limit 0: just below the size of the largest file
const STEPS: &[(&str, usize, usize)] = &[("wts", 6, 1), ("wts", 7, 2), ("qts", 8, 1), ("wts", 9, 2), ("qts", 6, 3), ("qts", 100, 0), ("wts", 7, 4), ("wts", 5, 5), ("ws", 12, 1), ("qts", 8, 2), ("ws", 12, 2), ("qts", 7, 1), ("qts", 10, 2), ("wts", 8, 4), ("qts", 10, 1), ("wts", 12, 2)];
fn gen_l(i: u64, r: &mut Rng) -> Option<String> { if i > 400 { return None; } let k = STEPS[i as usize % STEPS.len()]; Some(format!("{} {} {} {}", k.0, k.1, k.2, if (i as usize) < STEPS.len() { 0 } else { 1 << r.below(6) })) }
fn norm(f: &BTreeMap<String, Vec<u8>>) -> BTreeMap<String, Vec<String>> { f.iter().map(|(p, t)| { let mut l: Vec<String> = t.split(|c| *c == b'\n').map(|x| String::from_utf8_lossy(x).to_string()).collect(); l.sort(); (p.clone(), l) }).collect() }
fn run_l(s: &str) -> Result<bool, String> {
    let v: Vec<&str> = s.split(' ').collect();
    let (t, n, step, mut limit) = (v[0], v[1].parse::<usize>().unwrap(), v[2].parse::<usize>().unwrap(), v[3].parse::<usize>().unwrap());
    let (a, b) = (cli::Dir::new("whole"), cli::Dir::new("limited"));
    prepare(&a, t, n); prepare(&b, t, n);
    all(&a, t, n, "psd", "WX", None, step)?;
    let wa = norm(&cli::files(&a));
    for (p, l) in &wa { ensure!(l.first().map(|x| x.is_empty()).unwrap_or(true), "{}: the last line of {} is not terminated", s, p); }
    if limit == 0 { let m = cli::files(&a).iter().filter(|(p, _)| match step { 1 => p.ends_with(".pair"), 2 => p.contains("result"), 3 => p.ends_with(".qhm"), 4 => p.ends_with(".mat"), 5 => p.ends_with(".mat"), _ => true }).map(|(_, x)| x.len()).max().unwrap_or(0); if m <= 1024 { return Ok(false); } limit = (m - 1) / 1024; }
    let over = cli::files(&a).values().any(|x| x.len() > limit * 1024);
    let r = all(&b, t, n, "psd", "WX", Some(limit), step);
    if r.is_err() { return Ok(over); }
    let wb = norm(&cli::files(&b));
    for (p, l) in &wa {
        let m = wb.get(p).ok_or(format!("{}: {} is not written", s, p))?;
        if p.ends_with(".mat") { let x: usize = l.iter().map(|y| y.len()).sum(); let y: usize = m.iter().map(|y| y.len()).sum(); ensure!(x == y, "files limited to {} KiB ({}): the run reports success, and {} holds {} characters instead of {}", limit, s, p, y, x); continue; }
        ensure!(m == l, "files limited to {} KiB ({}): the run reports success, and {} holds {} lines instead of {}", limit, s, p, m.len(), l.len());
    }
    Ok(over)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "files", gen: gen_f, run: run_f }, Check { name: "limited", gen: gen_l, run: run_l }] }
