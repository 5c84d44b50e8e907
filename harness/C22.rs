type Q = Vec<Vec<i8>>;
// the whole search for Williamson-type quadruples: the expanded list has one entry for every Quaternion-type class within the found classes
const CASES: &[(usize, &str, &str)] = &[(4, "correlation", "WX"), (6, "psd", "WY"), (5, "psd", "WX"), (8, "correlation", "WZ"), (7, "correlation", "WX"), (2, "correlation", "WX"), (3, "psd", "WZ"), (10, "psd", "WX"), (1, "correlation", "WX"), (9, "psd", "WY")];
fn gen(i: u64, _: &mut Rng) -> Option<String> { let c = CASES.get(i as usize)?; Some(format!("{} {} {}", c.0, c.1, c.2)) }
// known quadruples of longer even lengths, handed to the join in pair files of their own
fn gen_known(i: u64, _: &mut Rng) -> Option<String> {
    let v: Vec<&&str> = WTS.iter().filter(|s| { let n = s.split('|').next().unwrap().len(); n % 2 == 0 && (8..=14).contains(&n) }).rev().collect();
    v.get(i as usize).map(|s| s.to_string())
}
fn run_known(s: &str) -> Result<bool, String> {
    let mut q = dec4(s);
    // with the row sums as the search has them
    let sum = |x: &Vec<i8>| x.iter().map(|v| *v as i64).sum::<i64>();
    for x in q.iter_mut() { if sum(x) < 0 { for v in x.iter_mut() { *v = -*v; } } }
    q.sort_by_key(|x| sum(x));
    let n = q[0].len();
    let d = cli::Dir::new("known");
    let sums: Vec<String> = q.iter().map(|x| x.iter().map(|v| *v as i64).sum::<i64>().to_string()).collect();
    let dir = format!("results/pairs/wts/find_{}/rowsum_{}", n, sums.join("_"));
    d.make(&dir);
    for (k, t) in ["W", "X", "Y", "Z"].iter().enumerate() { std::fs::write(d.0.join(&dir).join(format!("seq_{}.seq", t)), format!("{}\n", enc(&q[k]))).map_err(|e| e.to_string())?; }
    for t in ["WX", "YZ"] { std::fs::write(d.0.join(&dir).join(format!("pair_{}.pair.sorted", t)), "0_:_0_0\n").map_err(|e| e.to_string())?; }
    cli::run(&d, &cli::args(&["join", "wts", &n.to_string()]), None)?;
    let f: BTreeMap<String, Vec<u8>> = cli::files(&d).into_iter().map(|(p, x)| (p.rsplit('/').next().unwrap().to_string(), x)).collect();
    let get = |p: &str| -> Result<Vec<Q>, String> { cli::quads(f.get(p).ok_or(format!("{}: {} is not written", s, p))?) };
    let (found, exp) = (get("result.qseq")?, get("result-qts.qseq")?);
    ensure!(found.len() == 1 && !exp.is_empty(), "{}: {} quadruples are found, {} are listed in result-qts.qseq", s, found.len(), exp.len());
    let mut seen: HashSet<Q> = HashSet::new();
    for q in &exp {
        ensure!(!seen.contains(q), "{}: {} is listed in result-qts.qseq with another one that is Quaternion-type equivalent", s, enc4(q));
        orb::grow(&mut seen, q, &orb::ops_of("qts"));
    }
    // one step of every Williamson-type operation from each of them
    let mut todo = exp.clone(); todo.push(found[0].clone());
    for q in &todo { for o in orb::ops_of("wts") { for x in orb::op(o, q) {
        ensure!(seen.contains(&x), "{}: {} is Williamson-type equivalent to {}, but not Quaternion-type equivalent to any listed in result-qts.qseq", s, enc4(&x), enc4(&found[0]));
    } } }
    Ok(exp.len() > 1)
}
fn run_x(s: &str) -> Result<bool, String> {
    let v: Vec<&str> = s.split(' ').collect();
    let n = v[0].parse::<usize>().unwrap();
    let d = cli::Dir::new("expand");
    let f = cli::search(&d, "wts", n, v[1], v[2])?;
    let get = |p: &str| -> Result<Vec<Q>, String> { cli::quads(f.get(p).ok_or(format!("{}: {} is not written", s, p))?) };
    let (found, exp) = (get("result.qseq")?, get("result-qts.qseq")?);
    let mut all: HashSet<Q> = HashSet::new();
    for q in &found { orb::grow(&mut all, q, &orb::ops_of("wts")); }
    let mut seen: HashSet<Q> = HashSet::new();
    for q in &exp {
        ensure!(all.contains(q), "{}: {} is listed in result-qts.qseq, but is not Williamson-type equivalent to a found quadruple", s, enc4(q));
        ensure!(!seen.contains(q), "{}: {} is listed in result-qts.qseq with another one that is Quaternion-type equivalent", s, enc4(q));
        orb::grow(&mut seen, q, &orb::ops_of("qts"));
    }
    for q in &all { ensure!(seen.contains(q), "{}: {} is Williamson-type equivalent to a found quadruple, but not Quaternion-type equivalent to any listed in result-qts.qseq", s, enc4(q)); }
    Ok(exp.len() > found.len() || n < 4)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "expand", gen: gen, run: run_x }, Check { name: "known", gen: gen_known, run: run_known }] }
