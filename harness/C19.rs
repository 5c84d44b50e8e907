type Q = Vec<Vec<i8>>;
// the whole search of a length, as the scripts run it, against the classes found by trying everything
const PAIR: [&str; 3] = ["WX", "WY", "WZ"];
const TYPES: [&str; 3] = ["wts", "qts", "ws"];
const ROUTE: [&str; 3] = ["pairs", "single", "rowsum"];
fn gen(i: u64, r: &mut Rng) -> Option<String> {
    // first every type and pairing at a few lengths, then everything in some order
    let mut v: Vec<String> = vec![];
    let mut k = 0;
    for n in [5usize, 6, 4, 7, 3, 8] { for t in TYPES { for p in PAIR { v.push(format!("{} {} correlation {} {}", t, if t == "ws" { n + 4 } else { n }, p, ROUTE[k % 3])); k += 1; } k += 1; } }
    for n in [1usize, 2] { for t in TYPES { v.push(format!("{} {} correlation {} pairs", t, n, PAIR[k % 3])); k += 1; } }
    for n in [10usize, 12, 9, 11] { for t in ["wts", "ws"] { v.push(format!("{} {} correlation {} {}", t, n, PAIR[k % 3], ROUTE[k % 3])); k += 1; } }
    let _ = r;
    v.get(i as usize).cloned()
}
use every::every;
// everything before the join
fn prepare(d: &cli::Dir, t: &str, n: usize, opt: &str, pairing: &str, route: &str) -> Result<(), String> {
    let m = n.to_string();
    d.make(&format!("results/pairs/{}/find_{}", t, m));
    cli::run(d, &cli::args(&["rowsums", t, &m]), None)?;
    if route == "pairs" { cli::run(d, &cli::args(&["pairs", t, &m, opt, pairing]), None)?; cli::sort(d); return Ok(()); }
    let f = cli::files(d);
    let rows = f.iter().find(|(p, _)| p.ends_with("rowsums.quad")).ok_or("rowsums.quad is not written")?.1.clone();
    for l in cli::lines(&rows) {
        let r: Vec<&str> = l.split_whitespace().collect();
        ensure!(r.len() == 4, "rowsums.quad contains the line {:?}", l);
        if route == "rowsum" { cli::run(d, &cli::args(&["pairs_rowsum", t, &m, r[0], r[1], r[2], r[3], opt, pairing]), None)?; }
        else { for k in ["1", "2"] { cli::run(d, &cli::args(&["pair_single", t, &m, r[0], r[1], r[2], r[3], opt, pairing, k]), None)?; } }
    }
    cli::sort(d);
    Ok(())
}
type Found = BTreeMap<String, Vec<u8>>;
// the join, once where the files are, and once more for each order in which a directory may list them
fn search(d: &cli::Dir, t: &str, n: usize, opt: &str, pairing: &str, route: &str) -> Result<Vec<Found>, String> {
    prepare(d, t, n, opt, pairing, route)?;
    let all = cli::files(d);
    let m = n.to_string();
    let results = |d: &cli::Dir| -> Found { cli::files(d).into_iter().map(|(p, x)| (p.rsplit('/').next().unwrap().to_string(), x)).filter(|(p, _)| p.starts_with("result")).collect() };
    cli::run(d, &cli::args(&["join", t, &m]), None)?;
    let mut r = vec![results(d)];
    for back in [false, true] {
        let e = match cli::Dir::shm("order") { Some(e) => e, None => break };
        let mut names: Vec<&String> = all.keys().collect();
        if back { names.reverse(); }
        for p in names {
            let f = e.0.join(p);
            std::fs::create_dir_all(f.parent().unwrap()).map_err(|x| x.to_string())?;
            std::fs::write(f, &all[p]).map_err(|x| x.to_string())?;
        }
        cli::run(&e, &cli::args(&["join", t, &m]), None).map_err(|x| format!("files listed in {} order: {}", if back { "another" } else { "one" }, x))?;
        r.push(results(&e));
    }
    Ok(r)
}
fn run_p(s: &str) -> Result<bool, String> {
    let v: Vec<&str> = s.split(' ').collect();
    let (t, n) = (v[0], v[1].parse::<usize>().unwrap());
    let big = n > 8 && t != "ws";
    let all: HashSet<Q> = if big { WTS.iter().map(|x| dec4(x)).filter(|q| q[0].len() == n).collect() } else { every(t, n) };
    // a length without any quadruple of the type: nothing to find
    if all.is_empty() && !big { return Ok(false); }
    let d = cli::Dir::new("search");
    let mut many = false;
    for f in search(&d, t, n, v[2], v[3], v[4])? {
    let got = cli::quads(f.get("result.qseq").ok_or(format!("{}: result.qseq is not written", s))?)?;
    let mut seen: HashSet<Q> = HashSet::new();
    for q in &got {
        ensure!(q.iter().all(|x| x.len() == n) && match t { "wts" => def::wt(q), "qts" => def::qt(q), _ => def::ws(q) }, "{}: {} is listed, but not valid", s, enc4(q));
        ensure!(!seen.contains(q), "{}: {} is listed with another one of its class", s, enc4(q));
        orb::grow(&mut seen, q, &orb::ops_of(t));
    }
    for q in &all { ensure!(seen.contains(q), "{}: no listed quadruple is equivalent to {}", s, enc4(q)); }
    many = many || got.len() > 1;
    }
    Ok(many)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "search", gen: gen, run: run_p }] }
