#[allow(dead_code)]
pub static WTS: &[&str] = &[
    "-|-|-|-",
    "--|--|-+|-+",
    "---|--+|--+|--+",
    "----|--++|--++|-+-+",
    "---+|---+|---+|---+",
    "---+|---+|---+|-+--",
    "----+|----+|-++--|-++-+",
    "-----+|--+--+|-+-+--|-+++--",
    "-----++|-----++|-+-+-++|-+++-++",
    "------+|--++--+|-+--+-+|-++++--",
    "------+|--++--+|-+--+-+|+----++",
    "-----+-+|-----+-+|--+--+++|--+--+++",
    "----++++|---+---+|---+---+|-++-+--+",
    "----++++|---+---+|-+---+--|-++-+--+",
    "-----+-+|-----+-+|--+--+++|-+++--+-",
    "------+++|--+--+--+|--++---+-|-++++-+-+",
    "------+++|--++---+-|-+--+--+-|-++++-+-+",
    "-------++|--+-+--++|-+-+-+---|-++-++---",
    "-------++|---+---++|-+---+-++|-+---+-++",
    "-----++-++|--+----+--|-+-+--+++-|-+++-+---+",
    "-------+++|---+---+++|-+---+--+-|-+-+-+--+-",
    "-------+++|---+---+++|-+---+--+-|+-+-+-++-+",
    "-------+++|---+---+++|-+---+--+-|-++-++-+-+",
    "--------+++|--++++--+-+|-+-++-+-+++|-++--++-+++",
    "--------+++|--++++--+-+|-+-++-+-+++|+--++--+---",
    "-----++-+-++|-----++-+-++|-----++-+-++|--+---+---+-",
    "----+--+-+++|----+--+-+++|----+--+-+++|---+---+---+",
    "-------+-+-+|----+--+-+++|----+--+-+++|---++--+--++",
    "-------+-+-+|--+-+--+++++|--+-+--+++++|--+++--++-++",
    "---------+++|--++-++--+++|--+++++--+-+|-+--+--+-+-+",
    "----------+++|--+-++-+--+++|-+--++--+-+-+|-++----++-+++",
    "-------+-++-+|--+-+--++++++|-+-+-+---++--|-++-++--++++-",
    "-------+-++-+|---+---+-++-+|--+++---+--+-|--+++---+--+-",
    "--------++-++|--++++---+-+-|-+-++-+-+++++|-++--++--+-+-",
    "---------++-++|----+----++-++|-+-+-+-+--+++-|-+-+++-+--+++-",
    "---------++-++|---+++---+---+|-+-+++-+--+-+-|-+-+++-+--+++-",
    "-------+++-+++|--+-+----+-+--|--+-+--++-+-++|-++-++--+++++-",
    "-------+++-+++|--+-+--++-+-++|-+---+--+-+-+-|-+++++--+++++-",
    "-------+-+++-+|---+----+-+-+-|--+++---++-++-|--+++--+--+--+",
    "---------++-++|----+----++-++|-+-+-+-+--+++-|+-+---+-++---+",
    "--------++---++|--+--+--+-+-+-+|-+-++-+---+++--|-++++++--+---+-",
    "------+--+-+--+|------++-+++-++|-++++---+-+-+--|-++++--++-+-++-",
    "---------+-++-+|--++-++---++++-|-+-+++-+-+----+|-++---++--+--+-",
    "-------++-++-++|---+---++-++-++|-+-+-+----++---|-+-+-+----++---",
    "-------+-+-++-++|-----+--++---+++|---+----+-++-+-+|-+-++----++--+--",
    "-------+-++--+++|-------+-++--+++|--+--+-+-+----++|--+--+-+-+----++",
    "-------++-+-+-++|---+----+-+++-+-|--+++---+--+--+-|--+++---+--+--+-",
    "-------++-+-+-++|-------++-+-+-++|--+-+--++-----++|--+++---+--+--+-",
    "------+--+-+-+++|---+-++--+----++|--+------+++-+-+|--++-+---++----+",
    "-------+---+++++|-+---+--+--+-++-|-+--++---++----+|-+--+++-+-+-++++",
    "-------+-++--+++|-------+-++--+++|--++-+---+-+--+-|--++-+---+-+--+-",
    "-------++-+-+-++|-------++-+-+-++|--+++---+--+--+-|--+++---+--+--+-",
    "---------+++--+++|---+++----+-++-+-|-+-----+--++--++-|-+-+-+-+-++-++-++",
    "--------+--+++--+|---++---+-+++++-+|-+----+-++--+--++|-+-++-+-+++---+++",
    "--------+--+++--+|---++----++-+-++-|-++--++-++-+-+-++|-++++++---+-+-+--",
    "--------+--+++--+|---++----+-+++-+-|-++--++-+--+++--+|-++++++--+-+-+-+-",
    "--------+-+-++-+-+|-----+---+-+++--++|--++++--+--++++--+|-+---++--+-+----++",
    "-------++-+---+-++|-------+++-+++-+++|--+-+---+--+-+--+-|--+++--+-++---++-+",
    "-------++--+-+--++|---+---+-++-+-++-+|-+---+----+++++---|-+-+-+--++-----++-",
    "---------+-++-++-+|--+---+--+-+---+-+|--++-++---+-+++-+-|--+++++---++---++-",
    "---------+-++-++-+|-----++--+----++-+|---++++-+-+----+++|--++--+-+-+-++--++",
    "---------+--+++--+|---+++----+-+++-+-|-+-+++-+--++---++-|-++-+-++-+---+---+",
    "--------+-+-++-+-+|-----+---+-+++--++|--++++--+--++++--+|-++---+-++----+-+-",
    "---------+-++-++-+|------+-+---+-++-+|----+++--++---++++|--++--+-+-+-++--++",
    "--------+-+-++-+-+|-----+---+-+++--++|--++++--+--++++--+|-++++-+-++--+++-+-",
    "----------+-++-++-+|---++++---+-+++++-+|--+-++-+--+++-+-+++|--++--++--+++-+-+++",
    "--------+-++---++-+|--------+++-+-+-+++|-+-++-+---++---++--|-+-++-+--++-+++-++-",
    "--------+-++---++-+|--++++--+--+---+--+|-+----+--+++---+++-|-++++++--+-+-+-+-+-",
    "-----------+++--+++|---+++++---+--++--+|-++-+-+-++-++-++-++|-+++---+++-+-+--+-+",
    "---------+-++--++-+|--+++++----++--++--|-+-+-+-+-++-++++-++|-++---++--+-++++-+-",
    "---------+-++--++-+|----+----+-++--++-+|-+++-+++---+-++-+--|-+++-+++---+-++-+--",
    "---------+-++-+-++-+|---+-+-----++-+-++--|---+++---+--++-++--+|-+-+++-+---++---++--",
    "---------++-+-+-+-++|---------+++--+--+++|--++-++--+-++-+-++-+|-+-+++-+---++---++--",
    "---------++--+++--++|---+-+---+-++-+-++-+|--+++++---+--+-+--+-|--+++++--+-+++-+++-+",
    "------+----+-+-+++-+|----++--+--+-++--+++|---+-+++---+----+--+|---++++++--+--+-+-++",
    "---------++-+-+-+-++|---+++---++-++-++-++|--+-+-+--++-------++|--+++++---+--+-+--+-",
    "------+----+-+-+++-+|----+++-+--+-++-++++|---+-+++---+----+--+|---+++-++--+--+---++",
    "---------+-++-+-++-+|---+-+---++---+---++|---+++-----+++-+++--|--+-+-+--++-++-++-++",
    "--------+--+-+-+-+++|-----+--+--+-+---+++|--++++-+---++-+----+|--++++-++--++-+---++",
    "---------+-++-+-++-+|---+-+---++---+---++|---+++-----+++-+++--|-+--+--+--++-+-+-++-",
    "----------++--+-+--++|--++--++--+-++-+-++-+|-+------+-++++---++++|-+++--+++-+---+-+---+",
    "----------++-+-+-+-++|--+-++-+--++---+---++|-+--++--+-+++-----+++|-++----++-++++-+-++++",
    "----------+++--+--+++|--+-++-+--+---+-+---+|-+-++++-+--+---+---+-|-+++--+++---+-+++-+--",
    "----------+++--+--+++|--++--++----+-+-+-+--|-+-++++-+--+---+---+-|-++-++-++-+---+++---+",
    "---------+++-+--+-+++|----+----+++-+--+-+++|-+-----+-+--++--++--+|-+-----+-+--++--++--+",
    "---------++--++++--++|---+-+----+-++--++-+-|-+--+--+-+--++--++--+|-+-+-+-+-----++++----",
];
/// the command line program itself, run in a scratch directory
#[allow(dead_code)]
pub mod cli {
    use std::collections::BTreeMap;
    use std::path::{Path, PathBuf};
    pub struct Dir(pub PathBuf);
    impl Dir {
        pub fn new(name: &str) -> Dir {
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let d = std::env::current_dir().unwrap().join(format!("cli-{}-{}-{}", name, std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
            std::fs::create_dir_all(&d).unwrap(); Dir(d)
        }
        /// a directory of the memory file system, which lists files in the order of their creation
        pub fn shm(name: &str) -> Option<Dir> {
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let d = Path::new("/dev/shm").join(format!("verif-{}-{}-{}", name, std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
            std::fs::create_dir_all(&d).ok()?; Some(Dir(d))
        }
        pub fn make(&self, p: &str) { std::fs::create_dir_all(self.0.join(p)).unwrap(); }
    }
    impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    /// runs the program; limit: the size in KiB no file may exceed (the write that would is refused, or accepted up to there)
    pub fn run(d: &Dir, args: &[String], limit: Option<usize>) -> Result<(), String> {
        let exe = std::env::current_exe().unwrap();
        let mut c = std::process::Command::new("bash");
        match limit { Some(k) => { c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {}; exec \"$0\" \"$@\"", k)); } None => { c.arg("-c").arg("exec \"$0\" \"$@\""); } }
        c.arg(exe).args(args).current_dir(&d.0).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped());
        for (k, _) in std::env::vars() { if k.starts_with("VERIF_") { c.env_remove(k); } }
        let o = c.output().map_err(|e| e.to_string())?;
        if o.status.success() { Ok(()) } else { Err(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())) }
    }
    pub fn args(s: &[&str]) -> Vec<String> { s.iter().map(|x| x.to_string()).collect() }
    fn walk(p: &Path, out: &mut Vec<PathBuf>) { if let Ok(r) = std::fs::read_dir(p) { for e in r { let e = e.unwrap().path(); if e.is_dir() { walk(&e, out) } else { out.push(e) } } } }
    pub fn files(d: &Dir) -> BTreeMap<String, Vec<u8>> {
        let mut v = vec![]; walk(&d.0, &mut v);
        v.into_iter().map(|p| (p.strip_prefix(&d.0).unwrap().display().to_string(), std::fs::read(&p).unwrap())).collect()
    }
    /// what the sorting script does: every .pair file in byte order
    pub fn sort(d: &Dir) {
        for (p, t) in files(d) { if p.ends_with(".pair") {
            let mut l: Vec<&[u8]> = t.split(|c| *c == b'\n').collect();
            if l.last().map(|x| x.is_empty()).unwrap_or(false) { l.pop(); }
            l.sort();
            let mut o = vec![]; for x in l { o.extend_from_slice(x); o.push(b'\n'); }
            std::fs::write(d.0.join(format!("{}.sorted", p)), o).unwrap();
        } }
    }
    /// rowsums, pairs, sorting, join: the search as the driver script runs it
    pub fn search(d: &Dir, t: &str, n: usize, opt: &str, pairing: &str) -> Result<BTreeMap<String, Vec<u8>>, String> {
        let n = n.to_string();
        d.make(&format!("results/pairs/{}/find_{}", t, n));
        run(d, &args(&["rowsums", t, &n]), None)?;
        run(d, &args(&["pairs", t, &n, opt, pairing]), None)?;
        sort(d);
        run(d, &args(&["join", t, &n]), None)?;
        Ok(files(d).into_iter().map(|(p, x)| (p.rsplit('/').next().unwrap().to_string(), p, x)).filter(|(f, _, _)| f.starts_with("result")).map(|(f, _, x)| (f, x)).collect())
    }
    /// the quadruples of a .qseq file
    pub fn quads(t: &[u8]) -> Result<Vec<Vec<Vec<i8>>>, String> {
        let l: Vec<Vec<i8>> = lines(t).iter().map(|x| x.trim().to_string()).filter(|x| x.len() > 1).map(|x| super::dec(x.trim_start_matches('[').trim_end_matches(']'))).collect();
        if l.len() % 4 != 0 { return Err(format!("{} sequences are not quadruples", l.len())); }
        Ok(l.chunks(4).map(|c| c.to_vec()).collect())
    }
    pub fn lines(t: &[u8]) -> Vec<String> { String::from_utf8_lossy(t).lines().map(|x| x.to_string()).collect() }
}

/// the equivalence operations, by their definitions, and the classes they generate
pub mod orb {
    use std::collections::HashSet;
    pub type Q = Vec<Vec<i8>>;
    pub fn neg(q: &Q, k: usize) -> Q { let mut r = q.clone(); for x in r[k].iter_mut() { *x = -*x; } r }
    pub fn swp(q: &Q, i: usize, j: usize) -> Q { let mut r = q.clone(); r.swap(i, j); r }
    pub fn rot(q: &Q, which: &[usize], k: usize) -> Q { let mut r = q.clone(); for w in which { r[*w].rotate_left(k); } r }
    pub fn op(name: &str, q: &Q) -> Vec<Q> {
        let n = q[0].len();
        let mut s: Vec<Q> = vec![];
        match name {
            "negate_swap" => for i in 0..4 { for j in 0..i { for k in 0..4 { s.push(swp(&neg(q, k), i, j)); } } },
            "reorder" => for i in 0..4 { for j in 0..i { s.push(swp(q, i, j)); } },
            "negate" => for k in 0..4 { s.push(neg(q, k)); },
            "uniform_shift" => s.push(rot(q, &[0, 1, 2, 3], 1 % n)),
            "even_alt" => if n % 2 == 0 { s.push(q.iter().map(|x| (0..n).map(|i| if i % 2 == 1 { -x[i] } else { x[i] }).collect()).collect()); },
            "automorphism" => for k in 1..=n { if super::def::gcd(k, n) == 1 { s.push(q.iter().map(|x| (0..n).map(|i| x[(i * k) % n]).collect()).collect()); } },
            "dual_half" => if n % 2 == 0 { for i in 0..4 { for j in 0..i { s.push(rot(q, &[i, j], n / 2)); } } },
            "single_half" => if n % 2 == 0 { for i in 0..4 { s.push(rot(q, &[i], n / 2)); } },
            _ => panic!("{}", name),
        }
        s
    }
    pub fn ops_of(t: &str) -> Vec<&'static str> {
        match t {
            "qts" => vec!["uniform_shift", "even_alt", "automorphism", "negate_swap", "dual_half"],
            "wts" => vec!["negate", "uniform_shift", "reorder", "even_alt", "automorphism", "single_half"],
            "ws" => vec!["negate", "reorder", "even_alt", "automorphism", "single_half"],
            _ => panic!(),
        }
    }
    pub fn grow(seen: &mut HashSet<Q>, q: &Q, ops: &[&str]) {
        if !seen.insert(q.clone()) { return; }
        let mut todo = vec![q.clone()];
        while let Some(p) = todo.pop() { for o in ops { for x in op(o, &p) { if seen.insert(x.clone()) { todo.push(x); } } } }
    }
    pub fn class(q: &Q, ops: &[&str]) -> HashSet<Q> { let mut s = HashSet::new(); grow(&mut s, q, ops); s }
}

/// all valid quadruples of a small length
pub mod every {
    use super::def;
    use std::collections::{HashMap, HashSet};
    type Q = Vec<Vec<i8>>;
pub fn seqs(t: &str, n: usize) -> Vec<Vec<i8>> {
    (0..1u64 << n).map(|b| (0..n).map(|i| if b >> i & 1 == 1 { 1i8 } else { -1 }).collect::<Vec<i8>>()).filter(|s| t != "ws" || def::symmetric(&[s.clone()])).collect()
}
/// every valid quadruple, by joining all pairs
pub fn every(t: &str, n: usize) -> HashSet<Q> {
    let s = seqs(t, n);
    let au: Vec<Vec<i64>> = s.iter().map(|x| (1..=(n / 2) as i64).map(|k| def::auto(x, k)).collect()).collect();
    let mut m: HashMap<Vec<i64>, Vec<(usize, usize)>> = HashMap::new();
    for i in 0..s.len() { for j in 0..s.len() { m.entry(au[i].iter().zip(&au[j]).map(|(a, b)| a + b).collect()).or_default().push((i, j)); } }
    let mut out = HashSet::new();
    for (k, v) in &m {
        let w = match m.get(&k.iter().map(|x| -x).collect::<Vec<i64>>()) { Some(w) => w, None => continue };
        for (a, b) in v {
            if t == "wts" && (0..n as i64).any(|k| def::cross(&s[*a], &s[*b], k) != def::cross(&s[*b], &s[*a], k)) { continue; }
            for (c, d) in w {
                let q = vec![s[*a].clone(), s[*b].clone(), s[*c].clone(), s[*d].clone()];
                if match t { "wts" => def::amicable(&q), "qts" => def::qcross(&q), _ => true } { out.insert(q); }
            }
        }
    }
    out
}
}
