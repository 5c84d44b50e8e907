use crate::sequences::fourier::*;
// The plans of the transform are made for one length per process: every case runs in a process of its own.
fn inner(name: &str, s: &str, f: fn(&str) -> Result<bool, String>) -> Result<bool, String> {
    if std::env::var("VERIF_INNER").is_ok() { return f(s); }
    let out = std::env::current_dir().unwrap().join(format!("inner-{}", std::process::id()));
    let st = std::process::Command::new(std::env::current_exe().unwrap()).env("VERIF_INNER", "1").env("VERIF_OUT", &out).env("VERIF_REPLAY_CHECK", name).env("VERIF_REPLAY_INPUT", s)
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_err(|e| e.to_string())?;
    let t = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    if let Some(k) = t.find("\"message\":") { return Err(t[k + 11..].trim_end_matches(|c| c == '}' || c == '"').to_string()); }
    if !st.success() || t.is_empty() { return Err(format!("the process ends with {}", st)); }
    Ok(true)
}
/// a quadruple equivalent to a known one
fn vary(r: &mut Rng, q: &mut Vec<Vec<i8>>) {
    let n = q[0].len();
    let (k, m) = (r.below(n), loop { let m = r.range(1, n); if def::gcd(m, n) == 1 { break m; } });
    for s in q.iter_mut() { *s = (0..n).map(|i| s[(i * m + k) % n]).collect(); }
    if n % 2 == 0 && r.below(2) == 0 { for s in q.iter_mut() { for i in 0..n { if i % 2 == 1 { s[i] = -s[i]; } } } }
    for s in q.iter_mut() { if r.below(2) == 0 { for x in s.iter_mut() { *x = -*x; } } }
    let (a, b) = (r.below(4), r.below(4)); q.swap(a, b);
}
fn gen_f(i: u64, r: &mut Rng) -> Option<String> {
    let t = ["+-|+-|++|++", "++--+--+|++--+--+|+-+++++-|+-+++++-;++--+--+|++--+--+|+-+++++-|+++-+-++;+-+++++-|+++-+-++|+--+++--|+--+++--;+-+++++-|+++-+-++|+--+++--|++--+--+;++--+--+|++--+--+|+++-+-++|+++-+-++;+-+++++-|+++-+-++|++--+--+|++--+--+", "+--+--+--|++------+|+---++---|+-+----+-;+--+--+--|+-+----+-|+---++---|++------+;+---++---|+--+--+--|+-+----+-|++------+", "+-++---++-|++-+---+-+|+--+++++--|+----+----;+-++---++-|++-+---+-+|+++--+--++|+----+----", "++-+++++---+++++-+|+-++-+-+---+-+-++-|+--+--+++++++--+--|++---++-+++-++---+;+++--++-+-+-++--++|++----+-+-+-+----+|+--+--+++++++--+--|+----+--+++--+----;++-+++++---+++++-+|+-++-+-+---+-+-++-|+--+--+++++++--+--|++-++---+++---++-+;+++---+++-+++---++|+----++-+-+-++----|+--+--+++++++--+--|+---+--+-+-+--+---;+++---+++-+++---++|+----++-+-+-++----|+--+--+++++++--+--|+-+--+---+---+--+-;+++--++-+-+-++--++|++----+-+-+-+----+|+--+--+++++++--+--|++--+----+----+--+;++---++-+++-++---+|++-+++++---+++++-+|+--+--+++++++--+--|++-+-+--+-+--+-+-+;++---++-+++-++---+|++-+++++---+++++-+|+--+--+++++++--+--|+-++-+-+---+-+-++-;++-+-++++-++++-+-+|++-+++-------+++-+|+-++---+++++---++-|+--++-++-+-++-++--;++-+-++++-++++-+-+|++-+++-------+++-+|+-++---+++++---++-|+-++-++--+--++-++-;++--+++-+-+-+++--+|+++--++-+-+-++--++|+------+++++------|+--+-++-+++-++-+--;+-+--++++-++++--+-|++--+++-+-+-+++--+|+------+++++------|+--++-++-+-++-++--;++--+-+++-+++-+--+|+----++-+-+-++----|+------+++++------|+-++--++-+-++--++-;+-+--++++-++++--+-|++--+++-+-+-+++--+|+------+++++------|+-++-++--+--++-++-;++-+--++---++--+-+|+-++-+-+---+-+-++-|+------+++++------|+----++--+--++----;++--+++-+-+-+++--+|+++--++-+-+-++--++|+------+++++------|++-++-+--+--+-++-+;++-+--++---++--+-+|+-++-+-+---+-+-++-|+------+++++------|+--++----+----++--;+--+-+---+---+-+--|+---++-++-++-++---|+------+++++------|++---++-+-+-++---+;+--++----+----++--|++-+--++---++--+-+|+------+++++------|++-+-+--+-+--+-+-+;+--+-+---+---+-+--|+---++-++-++-++---|+------+++++------|+-+--+++---+++--+-;+--++----+----++--|++-+--++---++--+-+|+------+++++------|+-++-+-+---+-+-++-;++++-+++---+++-+++|+--+++-+---+-+++--|+--+-++-+++-++-+--|+---++++-+-++++---;+++---+++-+++---++|+-----+++-+++-----|+--+-++-+++-++-+--|+---+--+-+-+--+---;++++-+++---+++-+++|+--+++-+---+-+++--|+--+-++-+++-++-+--|+-++++---+---++++-;+++---+++-+++---++|+-----+++-+++-----|+--+-++-+++-++-+--|+-+--+---+---+--+-;++--+++-+-+-+++--+|+++--++-+-+-++--++|+--+-++-+++-++-+--|+++------+------++;+---++++-+-++++---|++---+-------+---+|+--+-++-+++-++-+--|++-+---++-++---+-+;+---++++-+-++++---|++---+-------+---+|+--+-++-+++-++-+--|+--+++-+---+-+++--;++-+++++---+++++-+|+-++-+-+---+-+-++-|++---++-+++-++---+|++++--+--+--+--+++;+---+++++-+++++---|+---+-++---++-+---|++-+--+-+++-+--+-+|+----+--+++--+----;+---+++++-+++++---|+---+-++---++-+---|++-+--+-+++-+--+-+|++--+----+----+--+;+-----+++-+++-----|++----+-+-+-+----+|+----+--+++--+----|+--++-++-+-++-++--;++-+---++-++---+-+|+++--+-+---+-+--++|+----+--+++--+----|+-----++-+-++-----;+-----+++-+++-----|++----+-+-+-+----+|+----+--+++--+----|+-++-++--+--++-++-;+++--++-+-+-++--++|++----+-+-+-+----+|+----+--+++--+----|++++--+--+--+--+++;++-+---++-++---+-+|+++--+-+---+-+--++|+----+--+++--+----|+-++-----+-----++-;+-+---+--+--+---+-|+++-+--+---+--+-++|+----+--+++--+----|++----+++-+++----+;+-++-----+-----++-|++-+-++-----++-+-+|+----+--+++--+----|++-+---++-++---+-+;+-+---+--+--+---+-|+++-+--+---+--+-++|+----+--+++--+----|+---++++---++++---;+-++-----+-----++-|++-+-++-----++-+-+|+----+--+++--+----|+--+++-+---+-+++--;++-+++++---+++++-+|+-++-+-+---+-+-++-|++-++---+++---++-+|++++--+--+--+--+++;++---+-++-++-+---+|++++---+---+---+++|+--+----+++----+--|+---+--+-+-+--+---;++---+-++-++-+---+|++++---+---+---+++|+--+----+++----+--|+-+--+---+---+--+-;++++-+++---+++-+++|+--+++-+---+-+++--|+---++++-+-++++---|++-++-+--+--+-++-+;++-+-++++-++++-+-+|++-+++-------+++-+|+--++-++-+-++-++--|+++---++-+-++---++;+-----+++-+++-----|++----+-+-+-+----+|+--++-++-+-++-++--|++--+----+----+--+;+-+--++++-++++--+-|++--+++-+-+-+++--+|+--++-++-+-++-++--|+++------+------++;+++---++-+-++---++|+----+-+---+-+----|+--++-++-+-++-++--|++++---+---+---+++;+++---++-+-++---++|+----+-+---+-+----|+--++-++-+-++-++--|++-+++-------+++-+;++--+-+++-+++-+--+|+----++-+-+-++----|+-++--++-+-++--++-|+++------+------++;++-+-++++-++++-+-+|++-+++-------+++-+|+++---++-+-++---++|+-++-++--+--++-++-;++-+---++-++---+-+|+++--+-+---+-+--++|+-----++-+-++-----|++--+----+----+--+;+++-+-++---++-+-++|+++-+++-----+++-++|+---+--+-+-+--+---|+--++++--+--++++--;+++---+++-+++---++|+-----+++-+++-----|+---+--+-+-+--+---|++-++-+--+--+-++-+;+++---+++-+++---++|+----++-+-+-++----|+---+--+-+-+--+---|++++--+--+--+--+++;++---+-++-++-+---+|++++---+---+---+++|+---+--+-+-+--+---|++----+--+--+----+;+-----+-+++-+-----|+-++-++-----++-++-|+---+--+-+-+--+---|+++---++---++---++;+--+----+++----+--|++---+-++-++-+---+|+---+--+-+-+--+---|++++---+---+---+++;+-----+-+++-+-----|+-++-++-----++-++-|+---+--+-+-+--+---|++--+++-----+++--+;+--+----+++----+--|++---+-++-++-+---+|+---+--+-+-+--+---|++-+++-------+++-+;+++-+-++---++-+-++|+++-+++-----+++-++|+--++++--+--++++--|+-+--+---+---+--+-;+-----+++-+++-----|++----+-+-+-+----+|+-++-++--+--++-++-|++--+----+----+--+;+-+--++++-++++--+-|++--+++-+-+-+++--+|+-++-++--+--++-++-|+++------+------++;+++---++-+-++---++|+----+-+---+-+----|+-++-++--+--++-++-|++++---+---+---+++;+++---++-+-++---++|+----+-+---+-+----|+-++-++--+--++-++-|++-+++-------+++-+;++-+--++---++--+-+|+-++-+-+---+-+-++-|+----++--+--++----|+++------+------++;++++-+++---+++-+++|+--+++-+---+-+++--|++-++-+--+--+-++-+|+-++++---+---++++-;+++---+++-+++---++|+-----+++-+++-----|++-++-+--+--+-++-+|+-+--+---+---+--+-;++--+++-+-+-+++--+|+++--++-+-+-++--++|++-++-+--+--+-++-+|+++------+------++;+---++++-+-++++---|++---+-------+---+|++-++-+--+--+-++-+|++-+---++-++---+-+;+---++++-+-++++---|++---+-------+---+|++-++-+--+--+-++-+|+--+++-+---+-+++--;+++---+++-+++---++|+----++-+-+-++----|++++--+--+--+--+++|+-+--+---+---+--+-;+++--++-+-+-++--++|++----+-+-+-+----+|++++--+--+--+--+++|++--+----+----+--+;++---++-+++-++---+|++-+++++---+++++-+|++++--+--+--+--+++|++-+-+--+-+--+-+-+;++---++-+++-++---+|++-+++++---+++++-+|++++--+--+--+--+++|+-++-+-+---+-+-++-;++---+-++-++-+---+|++++---+---+---+++|++----+--+--+----+|+-+--+---+---+--+-;+-----+-+++-+-----|+-++-++-----++-++-|+-+--+---+---+--+-|+++---++---++---++;+--+----+++----+--|++---+-++-++-+---+|+-+--+---+---+--+-|++++---+---+---+++;+-----+-+++-+-----|+-++-++-----++-++-|+-+--+---+---+--+-|++--+++-----+++--+;+--+----+++----+--|++---+-++-++-+---+|+-+--+---+---+--+-|++-+++-------+++-+;++-+--++---++--+-+|+-++-+-+---+-+-++-|+--++----+----++--|+++------+------++;++-+---++-++---+-+|+++--+-+---+-+--++|++--+----+----+--+|+-++-----+-----++-;+-+---+--+--+---+-|+++-+--+---+--+-++|++--+----+----+--+|++----+++-+++----+;+-++-----+-----++-|++-+-++-----++-+-+|++--+----+----+--+|++-+---++-++---+-+;+-+---+--+--+---+-|+++-+--+---+--+-++|++--+----+----+--+|+---++++---++++---;+-++-----+-----++-|++-+-++-----++-+-+|++--+----+----+--+|+--+++-+---+-+++--;+--+-+---+---+-+--|+---++-++-++-++---|+++------+------++|++---++-+-+-++---+;+--++----+----++--|++-+--++---++--+-+|+++------+------++|++-+-+--+-+--+-+-+;+--+-+---+---+-+--|+---++-++-++-++---|+++------+------++|+-+--+++---+++--+-;+--++----+----++--|++-+--++---++--+-+|+++------+------++|+-++-+-+---+-+-++-;++-+-++-+++-++-+-+|++++--++-+-++--+++|+----++++-++++----|++-+---++-++---+-+;++-+-++-+++-++-+-+|++++--++-+-++--+++|+----++++-++++----|+--+++-+---+-+++--;+--++-+++++++-++--|+-++--+++++++--++-|++----+++-+++----+|++-+-+--+-+--+-+-+;+--++-+++++++-++--|+-++--+++++++--++-|++----+++-+++----+|+-++-+-+---+-+-++-;++-+-++-+++-++-+-+|++-++-++-+-++-++-+|++----+++-+++----+|++++---+---+---+++;++-+-++-+++-++-+-+|++-++-++-+-++-++-+|++----+++-+++----+|++-+++-------+++-+;+--+-+++++++++-+--|+-++--+++++++--++-|++-+---++-++---+-+|++---++-+-+-++---+;+--+-+++++++++-+--|+-++--+++++++--++-|++-+---++-++---+-+|+-+--+++---+++--+-;+--+-+++++++++-+--|++-+-++-+++-++-+-+|++-+---++-++---+-+|+++---++---++---++;+--+-+++++++++-+--|++-+-++-+++-++-+-+|++-+---++-++---+-+|++--+++-----+++--+;+--+-+++++++++-+--|+-++--+++++++--++-|++---++-+-+-++---+|+--+++-+---+-+++--;++-+--+++++++--+-+|+-++-++-+++-++-++-|++---++-+-+-++---+|++++---+---+---+++;++-+--+++++++--+-+|+-++-++-+++-++-++-|++---++-+-+-++---+|++-+++-------+++-+;+--++-+++++++-++--|+-++--+++++++--++-|++-+-+--+-+--+-+-+|+---++++---++++---;++++--+-+++-+--+++|++++-++--+--++-+++|++-+-+--+-+--+-+-+|+++---++---++---++;++++--+-+++-+--+++|++++-++--+--++-+++|++-+-+--+-+--+-+-+|++--+++-----+++--+;++-+--+++++++--+-+|++-++++--+--++++-+|++-+-+--+-+--+-+-+|+++--++-----++--++;+--++-+++++++-++--|+-++--+++++++--++-|+---++++---++++---|+-++-+-+---+-+-++-;++-+-++-+++-++-+-+|++-++-++-+-++-++-+|+---++++---++++---|++++---+---+---+++;++-+-++-+++-++-+-+|++-++-++-+-++-++-+|+---++++---++++---|++-+++-------+++-+;+--+-+++++++++-+--|+-++--+++++++--++-|+-+--+++---+++--+-|+--+++-+---+-+++--;++-+--+++++++--+-+|+-++-++-+++-++-++-|+-+--+++---+++--+-|++++---+---+---+++;++-+--+++++++--+-+|+-++-++-+++-++-++-|+-+--+++---+++--+-|++-+++-------+++-+;++-++-+-+++-+-++-+|+-+++++--+--+++++-|++--+-++---++-+--+|++++---+---+---+++;++-++-+-+++-+-++-+|+-+++++--+--+++++-|++--+-++---++-+--+|++-+++-------+++-+;+--+-+++++++++-+--|++-+-++-+++-++-+-+|+++---++---++---++|+--+++-+---+-+++--;++++--+-+++-+--+++|++++-++--+--++-+++|+++---++---++---++|+-++-+-+---+-+-++-;+--+-+++++++++-+--|++-+-++-+++-++-+-+|+--+++-+---+-+++--|++--+++-----+++--+;++++--+-+++-+--+++|++++-++--+--++-+++|+-++-+-+---+-+-++-|++--+++-----+++--+;++-+--+++++++--+-+|++-++++--+--++++-+|+-++-+-+---+-+-++-|+++--++-----++--++", "+-+-+---++-++-++-++---+-+-|++-++-+----++-++----+-++-+|++---++-+++++++++++-++---+|+---++++-+--+++--+-++++---;+-+-+---++-++-++-++---+-+-|++-++-+----++-++----+-++-+|++---++-+++++++++++-++---+|++--+-++++---+---++++-+--+;+-+--++-++--+-+--++-++--+-|+-+-++++-+-------+-++++-+-|+--+++--+++++++++++--+++--|+--++++---++-+-++---++++--;+-+--++-++--+-+--++-++--+-|+-+-++++-+-------+-++++-+-|+--+++--+++++++++++--+++--|+-++---++++--+--++++---++-;+--++-+--+++---+++--+-++--|+++---+-+-++---++-+-+---++|+++-+--+-+++++++++-+--+-++|+---+--+++-+++++-+++--+---;+--++-+--+++---+++--+-++--|+++---+-+-++---++-+-+---++|+++-+--+-+++++++++-+--+-++|+++-+++--+---+---+--+++-++;++--+--++-+-+-+-+-++--+--+|+++--+--+-++---++-+--+--++|+-+----+-+++++++++-+----+-|+++--+++--+++++++--+++--++;++--+--++-+-+-+-+-++--+--+|+++--+--+-++---++-+--+--++|+-+----+-+++++++++-+----+-|++++--+++--+++++--+++--+++;+-+-+--++-++---++-++--+-+-|++--+----++-----++----+--+|+-+----+-+++++++++-+----+-|+----+++--+--+--+--+++----;+-+-+--++-++---++-++--+-+-|++--+----++-----++----+--+|+-+----+-+++++++++-+----+-|+--+--+++----+----+++--+--;+--+---++++-+-+-++++---+--|+++---++--+-+-+-+--++---++|+-++-++--+++++++++--++-++-|++---+--+-+++++++-+--+---+;+--+---++++-+-+-++++---+--|+++---++--+-+-+-+--++---++|+-++-++--+++++++++--++-++-|++++-+--+---+++---+--+-+++;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|++----+--+++++++++--+----+|+--+-+----+-+++-+----+-+--;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|++----+--+++++++++--+----+|++-+----+-+--+--+-+----+-+;+-++-++-+++-+-+-+++-++-++-|+-++-+++--+-----+--+++-++-|+--++----+++++++++----++--|+---+++----+-+-+----+++---;+-++-++-+++-+-+-+++-++-++-|+-++-+++--+-----+--+++-++-|+--++----+++++++++----++--|+-+----+++---+---+++----+-;+------+++--+-+--+++------|+-+-+-++-++-----++-++-+-+-|++---+--+-+++++++-+--+---+|+----++--+--+++--+--++----;+--+---++++-+-+-++++---+--|+++---++--+-+-+-+--++---++|++---+--+-+++++++-+--+---+|+++++--++-++-+-++-++--++++;+------+++--+-+--+++------|+-+-+-++-++-----++-++-+-+-|++---+--+-+++++++-+--+---+|++--+--++----+----++--+--+;++--+--++-+-+-+-+-++--+--+|+++--+--+-++---++-+--+--++|+++--+++--+++++++--+++--++|+++++-+----+-+-+----+-++++;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+-++-+----+++++++----+-++-|+-----+--+++-+-+++--+-----;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+-++-+----+++++++----+-++-|+-+++--+-----+-----+--+++-;+---+-+--++++-++++--+-+---|+-++-----++++-++++-----++-|+-+-++-+++-+++++-+++-++-+-|+--+++--+--+++++--+--+++--;+---+-+--++++-++++--+-+---|+-++-----++++-++++-----++-|+-+-++-+++-+++++-+++-++-+-|+++--+--+++--+--+++--+--++;+--++-+--+++---+++--+-++--|+++---+-+-++---++-+-+---++|+---+--+++-+++++-+++--+---|+++++-+--+-+++++-+--+-++++;++-++-+--++++-++++--+-++-+|+++---+-+-++---++-+-+---++|+---+--+++-+++++-+++--+---|++-----+--+-+++-+--+-----+;++-++-+--++++-++++--+-++-+|+++---+-+-++---++-+-+---++|+---+--+++-+++++-+++--+---|++-+--+-----+++-----+--+-+;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+-+--++--+-+++++-+--++--+-|+-----++--++-+-++--++-----;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+-+--++--+-+++++-+--++--+-|+-++--++-----+-----++--++-;+--++-+--+++---+++--+-++--|+++---+-+-++---++-+-+---++|+++++-+--+-+++++-+--+-++++|+++-+++--+---+---+--+++-++;+-++--+--++-+-+-++--+--++-|+-+--+++-----------+++--+-|+---+----+-+++++-+----+---|+--++++---++-+-++---++++--;+-++--+--++-+-+-++--+--++-|+-+--+++-----------+++--+-|+---+----+-+++++-+----+---|+-++---++++--+--++++---++-;++--+--++-+-+-+-+-++--+--+|+++--+--+-++---++-+--+--++|++++--+++--+++++--+++--+++|+++++-+----+-+-+----+-++++;+-----+---+++-+++---+-----|+-+---++-+-++-++-+-++---+-|+-+--+-++--+++++--++-+--+-|+--++------+++++------++--;+-----+---+++-+++---+-----|+-+---++-+-++-++-+-++---+-|+-+--+-++--+++++--++-+--+-|+++------++--+--++------++;+++-+-+-++++---++++-+-+-++|+---+++-++-+---+-++-+++---|+------++--+++++--++------|++--+--+-++-+++-++-+--+--+;+++-+-+-++++---++++-+-+-++|+---+++-++-+---+-++-+++---|+------++--+++++--++------|++-++-+--+--+++--+--+-++-+;++--+--+++--+-+--+++--+--+|+++++---+---+-+---+---++++|++-+--+-+--+++++--+-+--+-+|++-+--+++++-+++-+++++--+-+;++--+--+++--+-+--+++--+--+|+++++---+---+-+---+---++++|++-+--+-+--+++++--+-+--+-+|++-+++++--+-+++-+--+++++-+;+-+----++--+---+--++----+-|+-+++-+++---------+++-+++-|++-+--+-+--+++++--+-+--+-+|+--+----+++--+--+++----+--;+-+----++--+---+--++----+-|+-+++-+++---------+++-+++-|++-+--+-+--+++++--+-+--+-+|+--+++----+--+--+----+++--;+----++-+-+++-+++-+-++----|+--+-----++-+-+-++-----+--|+--+++--+--+++++--+--+++--|+-+----+---+++++---+----+-;+---+-+--++++-++++--+-+---|+-++-----++++-++++-----++-|+--+++--+--+++++--+--+++--|+++-+++-++-+-+-+-++-+++-++;+----++-+-+++-+++-+-++----|+--+-----++-+-+-++-----+--|+--+++--+--+++++--+--+++--|+++---+----+-+-+----+---++;+----++-+-+++-+++-+-++----|+--+-----++-+-+-++-----+--|+-+----+---+++++---+----+-|+++--+--+++--+--+++--+--++;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+-+--+-----+++++-----+--+-|+----++-++++-+-++++-++----;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+-+--+-----+++++-----+--+-|+-++++-++----+----++-++++-;+-----+---+++-+++---+-----|+-+---++-+-++-++-+-++---+-|+--++------+++++------++--|+++--++-+--+-+-+--+-++--++;++--+--+++--+-+--+++--+--+|+++++---+---+-+---+---++++|++-+--+++++-+++-+++++--+-+|+++--+-+--+-+++-+--+-+--++;+++----++--++-++--++----++|+++++-+++---+-+---+++-++++|++-+----+++-+++-+++----+-+|+--+--+-+--+-+-+--+-+--+--;+++----++--++-++--++----++|+++++-+++---+-+---+++-++++|++-+----+++-+++-+++----+-+|+-+--+-+--+--+--+--+-+--+-;+++-+-+-++++---++++-+-+-++|+---+++-++-+---+-++-+++---|++--+--+-++-+++-++-+--+--+|+++--++------+------++--++;+++-+--++-+++-+++-++--+-++|++---++++-+-----+-++++---+|+------+-++-+++-++-+------|+-+--+++--++-+-++--+++--+-;+++-+--++-+++-+++-++--+-++|++---++++-+-----+-++++---+|+------+-++-+++-++-+------|+-++--+++--+-+-+--+++--++-;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+--+-++--++-+++-++--++-+--|+---+----+++-+-+++----+---;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+--+-++--++-+++-++--++-+--|+-+++----+---+---+----+++-;++--+--+++--+-+--+++--+--+|+++++---+---+-+---+---++++|++-+++++--+-+++-+--+++++-+|+++--+-+--+-+++-+--+-+--++;+-+----++--+---+--++----+-|+-+++-+++---------+++-+++-|+++--+-+--+-+++-+--+-+--++|+--+----+++--+--+++----+--;+-+----++--+---+--++----+-|+-+++-+++---------+++-+++-|+++--+-+--+-+++-+--+-+--++|+--+++----+--+--+----+++--;++-++-+--++++-++++--+-++-+|+++---+-+-++---++-+-+---++|++-----+--+-+++-+--+-----+|+++-+++--+---+---+--+++-++;+++----++--++-++--++----++|+++++-+++---+-+---+++-++++|++-+++----+-+++-+----+++-+|+--+--+-+--+-+-+--+-+--+--;+++----++--++-++--++----++|+++++-+++---+-+---+++-++++|++-+++----+-+++-+----+++-+|+-+--+-+--+--+--+--+-+--+-;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+--+-+----+-+++-+----+-+--|+++++--+----+++----+--++++;++-+++--+---+-+---+--+++-+|+-+-++++----+-+----++++-+-|+--+--++++--+++--++++--+--|+--++++++-++-+-++-++++++--;+-+-++++----+-+----++++-+-|+-+++++++--+---+--+++++++-|+--+--++++--+++--++++--+--|+---++--+--+-+-+--+--++---;++-+++--+---+-+---+--+++-+|+-+-++++----+-+----++++-+-|+--+--++++--+++--++++--+--|+-++-++++++--+--++++++-++-;+-+-++++----+-+----++++-+-|+-+++++++--+---+--+++++++-|+--+--++++--+++--++++--+--|+-+--+--++---+---++--+--+-;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++---++-++--+++--++-++---+|+-++-+------+++------+-++-;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++---++-++--+++--++-++---+|++------+-++-+-++-+------+;++-++-++----+-+----++-++-+|+-+-++------+-+------++-+-|+--+----++--+++--++----+--|+---+++++--+-+-+--+++++---;++-++-++----+-+----++-++-+|+-+-++------+-+------++-+-|+--+----++--+++--++----+--|+-+--+++++---+---+++++--+-;+--++++-+-+-----+-+-++++--|+++--+++--+-----+--+++--++|+-++++++-+--+++--+-++++++-|+-++--+--+++-+-+++--+--++-;+--++++-+-+-----+-+-++++--|+++--+++--+-----+--+++--++|+-++++++-+--+++--+-++++++-|+-+++--+--++-+-++--+--+++-;+-+-+---++-++-++-++---+-+-|++-++-+----++-++----+-++-+|+---++++-+--+++--+-++++---|++++++-++---+++---++-+++++;+-++----+-+++-+++-+----++-|++-++++-+--++-++--+-++++-+|+---++++-+--+++--+-++++---|+-----+--+++-+-+++--+-----;+-++----+-+++-+++-+----++-|++-++++-+--++-++--+-++++-+|+---++++-+--+++--+-++++---|+-+++--+-----+-----+--+++-;+------+++--+-+--+++------|+-+-+-++-++-----++-++-+-+-|+----++--+--+++--+--++----|++++-+--+---+++---+--+-+++;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+----++--+--+++--+--++----|+---+-++-+++-+-+++-++-+---;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+----++--+--+++--+--++----|+-+++-++-+---+---+-++-+++-;+++-+-+-++++---++++-+-+-++|+---+++-++-+---+-++-+++---|++-++-+--+--+++--+--+-++-+|+++--++------+------++--++;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++----+--+--+++--+--+----+|+-++++---+--+++--+---++++-;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++----+--+--+++--+--+----+|++--+---++++-+-++++---+--+;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|+-++++---+--+++--+---++++-|++--+--+----+++----+--+--+;+-+-+---++-++-++-++---+-+-|++-++-+----++-++----+-++-+|++++++-++---+++---++-+++++|++--+-++++---+---++++-+--+;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++--++-++---+++---++-++--+|+-++-+------+++------+-++-;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++--++-++---+++---++-++--+|++------+-++-+-++-+------+;+--+---++++-+-+-++++---+--|+++---++--+-+-+-+--++---++|++++-+--+---+++---+--+-+++|+++++--++-++-+-++-++--++++;+------+++--+-+--+++------|+-+-+-++-++-----++-++-+-+-|++++-+--+---+++---+--+-+++|++--+--++----+----++--+--+;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|+-++-+++----+++----+++-++-|+----++-++---+---++-++----;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|+-++-+++----+++----+++-++-|+---++-++----+----++-++---;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+++++--+----+++----+--++++|++-+----+-+--+--+-+----+-+;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++--+--+----+++----+--+--+|++--+---++++-+-++++---+--+;++-++-+--++++-++++--+-++-+|+++---+-+-++---++-+-+---++|++-+--+-----+++-----+--+-+|+++-+++--+---+---+--+++-++;+-+++-+---++---++---+-+++-|+++-++++-++-----++-++++-++|+-++-+------+++------+-++-|+-++--+--+++-+-+++--+--++-;+-+++-+---++---++---+-+++-|+++-++++-++-----++-++++-++|+-++-+------+++------+-++-|+-+++--+--++-+-++--+--+++-;+--++++-+-+-----+-+-++++--|+++--+++--+-----+--+++--++|++--+-++++++-+-++++++-+--+|+-++--+--+++-+-+++--+--++-;+--++++-+-+-----+-+-++++--|+++--+++--+-----+--+++--++|++--+-++++++-+-++++++-+--+|+-+++--+--++-+-++--+--+++-;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+----++-++++-+-++++-++----|+++-----+--+-+-+--+-----++;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+---+-++-+++-+-+++-++-+---|++--+--++----+----++--+--+;+-+++-+---++---++---+-+++-|+++-++++-++-----++-++++-++|+-++--+--+++-+-+++--+--++-|++------+-++-+-++-+------+;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+-----+--+++-+-+++--+-----|++++----+-++-+-++-+----+++;+-++----+-+++-+++-+----++-|++-++++-+--++-++--+-++++-+|+-----+--+++-+-+++--+-----|++--+-++++---+---++++-+--+;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+---+----+++-+-+++----+---|++-++--++-+--+--+-++--++-+;++-+++--+---+-+---+--+++-+|+-+-++++----+-+----++++-+-|+--++++++-++-+-++-++++++--|++--++++--+--+--+--++++--+;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++----+++-++-+-++-+++----+|+----++-++---+---++-++----;++-++-+---+-+-+-+---+-++-+|+++-++++-++-----++-++++-++|++----+++-++-+-++-+++----+|+---++-++----+----++-++---;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|++++----+-++-+-++-+----+++|+-+++--+-----+-----+--+++-;+-+++-+---++---++---+-+++-|+++-++++-++-----++-++++-++|++------+-++-+-++-+------+|+-+++--+--++-+-++--+--+++-;+++-+--++-+++-+++-++--+-++|++---++++-+-----+-++++---+|+-+--+++--++-+-++--+++--+-|++-++-+------+------+-++-+;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+-----++--++-+-++--++-----|+++-+--++--+-+-+--++--+-++;+-+--++-++--+-+--++-++--+-|+-+-++++-+-------+-++++-+-|+--++++---++-+-++---++++--|++++++--+++--+--+++--+++++;+-++--+--++-+-+-++--+--++-|+-+--+++-----------+++--+-|+--++++---++-+-++---++++--|+++-+----+---+---+----+-++;+---+-+--++++-++++--+-+---|+-++-----++++-++++-----++-|+++-+++-++-+-+-+-++-+++-++|+++--+--+++--+--+++--+--++;++-++-++----+-+----++-++-+|+-+-++------+-+------++-+-|+---+++++--+-+-+--+++++---|++--++----+--+--+----++--+;+++-+--++-+++-+++-++--+-++|++---++++-+-----+-++++---+|+-++--+++--+-+-+--+++--++-|++-++-+------+------+-++-+;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+++-+--++--+-+-+--++--+-++|+-++--++-----+-----++--++-;+-----+---+++-+++---+-----|+-+---++-+-++-++-+-++---+-|+++--++-+--+-+-+--+-++--++|+++------++--+--++------++;+-+-++++----+-+----++++-+-|+-+++++++--+---+--+++++++-|+---++--+--+-+-+--+--++---|++--++++--+--+--+--++++--+;+-+---+++--++-++--+++---+-|+--++-+----+---+----+-++--|+++-----+--+-+-+--+-----++|+-++++-++----+----++-++++-;+-++-++-+++-+-+-+++-++-++-|+-++-+++--+-----+--+++-++-|+---+++----+-+-+----+++---|+++++----++--+--++----++++;+-+-+--++-++---++-++--+-+-|++--+----++-----++----+--+|+++++-+----+-+-+----+-++++|+----+++--+--+--+--+++----;+-+-+--++-++---++-++--+-+-|++--+----++-----++----+--+|+++++-+----+-+-+----+-++++|+--+--+++----+----+++--+--;+----++-+-+++-+++-+-++----|+--+-----++-+-+-++-----+--|+++---+----+-+-+----+---++|+++--+--+++--+--+++--+--++;++-+++--+---+-+---+--+++-+|+-+-++++----+-+----++++-+-|+-++-++++++--+--++++++-++-|++--++++--+--+--+--++++--+;+-+--++-++--+-+--++-++--+-|+-+-++++-+-------+-++++-+-|+-++---++++--+--++++---++-|++++++--+++--+--+++--+++++;+-++--+--++-+-+-++--+--++-|+-+--+++-----------+++--+-|+-++---++++--+--++++---++-|+++-+----+---+---+----+-++;+-++-++-+++-+-+-+++-++-++-|+-++-+++--+-----+--+++-++-|+++++----++--+--++----++++|+-+----+++---+---+++----+-;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|++-++--++-+--+--+-++--++-+|+-+++----+---+---+----+++-;+-+-++++----+-+----++++-+-|+-+++++++--+---+--+++++++-|++--++++--+--+--+--++++--+|+-+--+--++---+---++--+--+-;++-++-++----+-+----++-++-+|+-+-++------+-+------++-+-|++--++----+--+--+----++--+|+-+--+++++---+---+++++--+-;+-++----+-+++-+++-+----++-|++-++++-+--++-++--+-++++-+|++--+-++++---+---++++-+--+|+-+++--+-----+-----+--+++-;+++-+----++-+-+-++----+-++|+------+++--+-+--+++------|+-+++-++-+---+---+-++-+++-|++--+--++----+----++--+--+", "++----+--+-+-+++++-+-+--+----+|+--++--+-+--++---++--+-+--++--|+++----+-+++++++++++++-+----++|++---+-++--++-+-+-++--++-+---+;++----+--+-+-+++++-+-+--+----+|+--++--+-+--++---++--+-+--++--|+++----+-+++++++++++++-+----++|+-+--++--+-+++---+++-+--++--+-;+-+++---+---++-+-++---+---+++-|++++-+--+-++-+---+-++-+--+-+++|+-+-++--++-+++++++++-++--++-+-|+++--+++-----++-++-----+++--++;+-+++---+---++-+-++---+---+++-|++++-+--+-++-+---+-++-+--+-+++|+-+-++--++-+++++++++-++--++-+-|+--+++++---++-----++---+++++--;+-+---++-++--+++++--++-++---+-|+-++----++-++-----++-++----++-|+--+-+--+++-+++++++-+++--+-+--|++++-+-+---++++-++++---+-+-+++;+-+---++-++--+++++--++-++---+-|+-++----++-++-----++-++----++-|+--+-+--+++-+++++++-+++--+-+--|+----+++-+-+-------+-+-+++----;+--++-----++--+++--++-----++--|+-++++++---+-++-++-+---++++++-|+--+----++--+++++++--++----+--|+-++-+----+-+-+-+-+-+----+-++-;+--++-----++--+++--++-----++--|+-++++++---+-++-++-+---++++++-|+--+----++--+++++++--++----+--|+-+-+-++++-+--+-+--+-++++-+-+-;++-+---++---++-+-++---++---+-+|++++-+-++-++-------++-++-+-+++|++-+--+++-++-+++++-++-+++--+-+|++-+-++-----+++-+++-----++-+-+;++-+---++---++-+-++---++---+-+|++++-+-++-++-------++-++-+-+++|++-+--+++-++-+++++-++-+++--+-+|+---+++++--+-+---+-+--+++++---;++----+--+-+-+++++-+-+--+----+|+--++--+-+--++---++--+-+--++--|+++++++-+----+++++----+-++++++|++---+-++--++-+-+-++--++-+---+;++----+--+-+-+++++-+-+--+----+|+--++--+-+--++---++--+-+--++--|+++++++-+----+++++----+-++++++|+-+--++--+-+++---+++-+--++--+-;++-+----+-+++-+++-+++-+----+-+|+--++-+--+---++-++---+--+-++--|+----+++-++++-+++-++++-+++----|++---+++++-+-++-++-+-+++++---+;++-+----+-+++-+++-+++-+----+-+|+--++-+--+---++-++---+--+-++--|+----+++-++++-+++-++++-+++----|+--+-+-----+++---+++-----+-+--;+-+-----+++--+-+-+--+++-----+-|+++--+--++-++++-++++-++--+--++|+-----++-+-++-+++-++-+-++-----|+-+++---+--++++-++++--+---+++-;+-+-----+++--+-+-+--+++-----+-|+++--+--++-++++-++++-++--+--++|+-----++-+-++-+++-++-+-++-----|+----++-+++---+-+---+++-++----;++-+---++---++-+-++---++---+-+|++++-+-++-++-------++-++-+-+++|+++-++-+++--+-+++-+--+++-++-++|++-+-++-----+++-+++-----++-+-+;++-+---++---++-+-++---++---+-+|++++-+-++-++-------++-++-+-+++|+++-++-+++--+-+++-+--+++-++-++|+---+++++--+-+---+-+--+++++---;+-++---++-+--+++++--+-++---++-|+-++--+++--+-------+--+++--++-|+-+------+--+-+++-+--+------+-|++-----++-+++-+-+-+++-++-----+;+-++---++-+--+++++--+-++---++-|+-++--+++--+-------+--+++--++-|+-+------+--+-+++-+--+------+-|+-+---+--+++++---+++++--+---+-;+++++-----+++--+--+++-----++++|+-++++-+--+--++-++--+--+-++++-|+-++-++--+++--+++--+++--++-++-|+++-++++-+-+-+---+-+-+-++++-++;+++++-----+++--+--+++-----++++|+-++++-+--+--++-++--+--+-++++-|+-++-++--+++--+++--+++--++-++-|++-+-+-+----+-----+----+-+-+-+;+----++++----+-+-+----++++----|+++-++-+++-++-----++-+++-++-++|+-++--+--+-+--+++--+-+--+--++-|+++++--++---+-+-+-+---++--++++;+----++++----+-+-+----++++----|+++-++-+++-++-----++-+++-++-++|+-++--+--+-+--+++--+-+--+--++-|+-+-+++--++---------++--+++-+-;+---+-+-++-+--+++--+-++-+-+---|+--+---+-+--+++-+++--+-+---+--|+-+++++++--+--+++--+--+++++++-|+++-++-----+++---+++-----++-++;+---+-+-++-+--+++--+-++-+-+---|+--+---+-+--+++-+++--+-+---+--|+-+++++++--+--+++--+--+++++++-|++---+++++--+-----+--+++++---+;++--+---++++--+++--++++---+--+|+----+-++++-+++-+++-++++-+----|+--+--+-+-----+++-----+-+--+--|++-+--+---+-+++-+++-+---+--+-+;++--+---++++--+++--++++---+--+|+----+-++++-+++-+++-++++-+----|+--+--+-+-----+++-----+-+--+--|+---+-+++-++-+---+-++-+++-+---;+---+-+-++-+--+++--+-++-+-+---|+--+---+-+--+++-+++--+-+---+--|++--+--+++++++-+-+++++++--+--+|+++-++-----+++---+++-----++-++;+---+-+-++-+--+++--+-++-+-+---|+--+---+-+--+++-+++--+-+---+--|++--+--+++++++-+-+++++++--+--+|++---+++++--+-----+--+++++---+;+-+--+++++-+---+---+-+++++--+-|++++----++--+-----+--++----+++|+--+-++-+-++++-+-++++-+-++-+--|++-+++-++--+++---+++--++-+++-+;+-+--+++++-+---+---+-+++++--+-|++++----++--+-----+--++----+++|+--+-++-+-++++-+-++++-+-++-+--|++---++--+---+---+---+--++---+;+++-+----+++--+++--+++----+-++|++--+--+-+--+-+-+-+--+-+--+--+|+--------+-+++-+-+++-+--------|+++---++--+--++-++--+--++---++;+++-+----+++--+++--+++----+-++|++--+--+-+--+-+-+-+--+-+--+--+|+--------+-+++-+-+++-+--------|+--++-++--+++-----+++--++-++--;++---+-----++-+++-++-----+---+|++-++++++----++-++----++++++-+|+--+--+-+--+++-+-+++--+-+--+--|+++-+-+-++---++-++---++-+-+-++;++---+-----++-+++-++-----+---+|++-++++++----++-++----++++++-+|+--+--+-+--+++-+-+++--+-+--+--|+--+++--+-+-+-----+-+-+--+++--;+++++-----+++--+--+++-----++++|+-++++-+--+--++-++--+--+-++++-|++--+++--++-++-+-++-++--+++--+|+++-++++-+-+-+---+-+-+-++++-++;+++++-----+++--+--+++-----++++|+-++++-+--+--++-++--+--+-++++-|++--+++--++-++-+-++-++--+++--+|++-+-+-+----+-----+----+-+-+-+;+----++++----+-+-+----++++----|+++-++-+++-++-----++-+++-++-++|++--+-+--+--++-+-++--+--+-+--+|+++++--++---+-+-+-+---++--++++;+----++++----+-+-+----++++----|+++-++-+++-++-----++-+++-++-++|++--+-+--+--++-+-++--+--+-+--+|+-+-+++--++---------++--+++-+-;+-+++---+---++-+-++---+---+++-|++++-+--+-++-+---+-++-+--+-+++|+++++-++--++-+-+-+-++--++-++++|+++--+++-----++-++-----+++--++;+-+++---+---++-+-++---+---+++-|++++-+--+-++-+---+-++-+--+-+++|+++++-++--++-+-+-+-++--++-++++|+--+++++---++-----++---+++++--;+-++---++-+--+++++--+-++---++-|+-++--+++--+-------+--+++--++-|++-+--+------+-+-+------+--+-+|++-----++-+++-+-+-+++-++-----+;+-++---++-+--+++++--+-++---++-|+-++--+++--+-------+--+++--++-|++-+--+------+-+-+------+--+-+|+-+---+--+++++---+++++--+---+-;+-+--+++++-+---+---+-+++++--+-|++++----++--+-----+--++----+++|+-++++-+-++-+--+--+-++-+-++++-|++-+++-++--+++---+++--++-+++-+;+-+--+++++-+---+---+-+++++--+-|++++----++--+-----+--++----+++|+-++++-+-++-+--+--+-++-+-++++-|++---++--+---+---+---+--++---+;+-+---++-++--+++++--++-++---+-|+-++----++-++-----++-++----++-|++++-+++--+-+--+--+-+--+++-+++|++++-+-+---++++-++++---+-+-+++;+-+---++-++--+++++--++-++---+-|+-++----++-++-----++-++----++-|++++-+++--+-+--+--+-+--+++-+++|+----+++-+-+-------+-+-+++----;+-+--+-++--+++-+-+++--++-+--+-|++++--+-+----+---+----+-+--+++|+---+---++--+--+--+--++---+---|+++-+-----++++---++++-----+-++;+-+--+-++--+++-+-+++--++-+--+-|++++--+-+----+---+----+-+--+++|+---+---++--+--+--+--++---+---|++----+++++-+-----+-+++++----+;++---+-----++-+++-++-----+---+|++-++++++----++-++----++++++-+|+-+++--+-+--+--+--+--+-+--+++-|+++-+-+-++---++-++---++-+-+-++;++---+-----++-+++-++-----+---+|++-++++++----++-++----++++++-+|+-+++--+-+--+--+--+--+-+--+++-|+--+++--+-+-+-----+-+-+--+++--;++--+---++++--+++--++++---+--+|+----+-++++-+++-+++-++++-+----|++-----+-+--+--+--+--+-+-----+|++-+--+---+-+++-+++-+---+--+-+;++--+---++++--+++--++++---+--+|+----+-++++-+++-+++-++++-+----|++-----+-+--+--+--+--+-+-----+|+---+-+++-++-+---+-++-+++-+---;+--++-----++--+++--++-----++--|+-++++++---+-++-++-+---++++++-|++++--++----+--+--+----++--+++|+-++-+----+-+-+-+-+-+----+-++-;+--++-----++--+++--++-----++--|+-++++++---+-++-++-+---++++++-|++++--++----+--+--+----++--+++|+-+-+-++++-+--+-+--+-++++-+-+-;+-+--+-++--+++-+-+++--++-+--+-|++++--+-+----+---+----+-+--+++|+--+--++---+---+---+---++--+--|+++-+-----++++---++++-----+-++;+-+--+-++--+++-+-+++--++-+--+-|++++--+-+----+---+----+-+--+++|+--+--++---+---+---+---++--+--|++----+++++-+-----+-+++++----+;++-+----+-+++-+++-+++-+----+-+|+--++-+--+---++-++---+--+-++--|++-++++-+++----+----+++-++++-+|++---+++++-+-++-++-+-+++++---+;++-+----+-+++-+++-+++-+----+-+|+--++-+--+---++-++---+--+-++--|++-++++-+++----+----+++-++++-+|+--+-+-----+++---+++-----+-+--;+-+-----+++--+-+-+--+++-----+-|+++--+--++-++++-++++-++--+--++|++-++-+-++-----+-----++-+-++-+|+-+++---+--++++-++++--+---+++-;+-+-----+++--+-+-+--+++-----+-|+++--+--++-++++-++++-++--+--++|++-++-+-++-----+-----++-+-++-+|+----++-+++---+-+---+++-++----;+++-+----+++--+++--+++----+-++|++--+--+-+--+-+-+-+--+-+--+--+|+-+++-+--------+--------+-+++-|+++---++--+--++-++--+--++---++;+++-+----+++--+++--+++----+-++|++--+--+-+--+-+-+-+--+-+--+--+|+-+++-+--------+--------+-+++-|+--++-++--+++-----+++--++-++--"]; if (i as usize) < 40*t.len() { let mut o = vec![]; for x in t[i as usize % t.len()].split(';') { let mut q = dec4(x); if i as usize >= t.len() { vary(r, &mut q); } o.push(enc4(&q)); } return Some(o.join(";")); }
    if i > 100000 { return None; }
    let w: Vec<Vec<Vec<i8>>> = WTS.iter().map(|s| dec4(s)).collect();
    let n = if i < 21 { i as usize + 1 } else { r.range(1, 21) };
    let v: Vec<&Vec<Vec<i8>>> = w.iter().filter(|q| q[0].len() == n).collect();
    if v.is_empty() { return Some("+|+|+|+".into()); }
    Some((0..60).map(|_| { let mut q = v[r.below(v.len())].clone(); vary(r, &mut q); enc4(&q) }).collect::<Vec<_>>().join(";"))
}
fn run_f(s: &str) -> Result<bool, String> { inner("kept", s, |s| {
    for c in s.split(';') {
        let q = dec4(c); let n = q[0].len();
        for i in 0..4 { for j in 0..4 { if i != j {
            let (a, b) = (vec![q[i].clone()], vec![q[j].clone()]);
            let k = iter_over_enumerate_filtered_couples_psds(&a, &b, 4. * n as f64).count();
            ensure!(k == 1, "the pair {} {} of the quadruple {} of length {} is removed", enc(&a[0]), enc(&b[0]), c, n);
        } } }
    }
    Ok(true)
}) }
// complete runs: the pair files hold both halves of every valid quadruple with the row sums of the directory
fn gen_run(i: u64, _: &mut Rng) -> Option<String> {
    let mut v = vec![]; let mut k = 0;
    for n in [6usize, 4, 5, 7, 3, 8] { for t in ["qts", "wts", "ws"] { for p in ["WX", "WY", "WZ"] { v.push(format!("{} {} {} {}", t, if t == "ws" { n + 5 } else { n }, ["psd", "correlation"][k % 2], p)); k += 1; } } }
    v.get(i as usize).cloned()
}
fn run_run(s: &str) -> Result<bool, String> {
    let v: Vec<&str> = s.split(' ').collect();
    let (t, n) = (v[0], v[1].parse::<usize>().unwrap());
    let d = cli::Dir::new("pairs");
    d.make(&format!("results/pairs/{}/find_{}", t, n));
    cli::run(&d, &cli::args(&["pairs", t, v[1], v[2], v[3]]), None)?;
    let f = cli::files(&d);
    let mut byrow: std::collections::HashMap<Vec<i64>, Vec<Vec<Vec<i8>>>> = Default::default();
    for q in every::every(t, n) { byrow.entry(q.iter().map(|x| x.iter().map(|y| *y as i64).sum()).collect()).or_default().push(q); }
    let mut hit = 0;
    for (rows, qs) in &byrow {
        let dir = format!("results/pairs/{}/find_{}/rowsum_{}_{}_{}_{}/", t, n, rows[0], rows[1], rows[2], rows[3]);
        let seqs: Vec<Option<Vec<String>>> = "WXYZ".chars().map(|c| f.get(&format!("{}seq_{}.seq", dir, c)).map(|x| cli::lines(x))).collect();
        if seqs.iter().any(|x| x.is_none()) { continue; }
        let seqs: Vec<Vec<String>> = seqs.into_iter().map(|x| x.unwrap()).collect();
        for (p, x) in f.iter().filter(|(p, _)| p.starts_with(&dir) && p.ends_with(".pair")) {
            let name: Vec<usize> = p[dir.len() + 5..dir.len() + 7].chars().map(|c| "WXYZ".find(c).unwrap()).collect();
            let mut has: HashSet<(String, String)> = HashSet::new();
            for l in cli::lines(x) {
                let k: Vec<&str> = l.rsplitn(3, '_').collect();
                ensure!(k.len() == 3, "{}: {} contains the line {:?}", s, p, l);
                let (i, j) = (k[1].parse::<usize>().map_err(|e| e.to_string())?, k[0].parse::<usize>().map_err(|e| e.to_string())?);
                has.insert((seqs[name[0]][i].clone(), seqs[name[1]][j].clone()));
            }
            for q in qs { hit += 1; ensure!(has.contains(&(enc(&q[name[0]]), enc(&q[name[1]]))), "{}: {} does not contain the pair {} {} of the valid quadruple {}", s, p, enc(&q[name[0]]), enc(&q[name[1]]), enc4(q)); }
        }
    }
    Ok(hit > 0)
}
pub fn checks() -> Vec<Check> { vec![Check { name: "run", gen: gen_run, run: run_run }, Check { name: "kept", gen: gen_f, run: run_f }] }
