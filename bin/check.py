#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] | --replay <file> | --setup

Decides one property: (1) the functions it depends on are extracted from /repo's current source, put under their
contracts and every obligation is discharged by Verus; (2) a bounded search of the real crate against an independent
definition looks for a concrete failing input (bounded, never counted as proof)."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
from vk import VERIF, REPO, SRC, BUILD

RUST = os.path.join(REPO, "rust")
CFG = json.load(open(os.path.join(VERIF, "checks.json")))


def src_hash():
    h = hashlib.sha256()
    for root, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ bounded search on the real crate

def build_harness(pid):
    """compile the crate with --cfg verif and the harness of this property inside; returns (exe, error)"""
    d = os.path.join(BUILD, "hsrc", pid)
    os.makedirs(d, exist_ok=True)
    hfile = os.path.join(VERIF, "harness", pid + ".rs")
    text = "".join(open(p).read() + "\n" for p in [os.path.join(VERIF, "harness", "core.rs"), os.path.join(VERIF, "harness", "data.rs"), hfile])
    inc = os.path.join(d, "harness.rs")
    if not os.path.exists(inc) or open(inc).read() != text:
        open(inc, "w").write(text)
    target = os.path.join(BUILD, "harness")
    hh = hashlib.sha256(text.encode()).hexdigest()[:16]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="1",
               VERIF_HARNESS=inc, HOME=os.environ.get("HOME", "/root"))
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    r = vk.sh(["cargo", "rustc", "--offline", "--locked", "--bin", "rust", "--message-format=json", "--", "--cfg", "verif",
               "--cfg", f'vx_h="{src_hash()}{hh}"', "-Awarnings"], cwd=RUST, env=env)
    if r.returncode:
        msg = []
        for line in r.stdout.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                msg.append(j["message"]["rendered"])
        return None, ("\n".join(msg) or r.stderr)[-3000:]
    exe = None
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("executable"):
            exe = j["executable"]
    out = os.path.join(d, "harness")
    if os.path.exists(out):
        os.remove(out)
    os.link(exe, out)
    return out, None


def run_harness(pid, exe, secs, seed, known, replay=None, max_wall=None):
    d = os.path.join(BUILD, "hrun", pid)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "out.json")
    if os.path.exists(out):
        os.remove(out)
    work = os.path.join(d, "work")
    subprocess.run(["rm", "-rf", work])
    os.makedirs(work)
    env = dict(os.environ, VERIF_OUT=out, VERIF_SECS=str(secs), VERIF_SEED=str(seed), VERIF_KNOWN="\n".join(known), VERIF_WORK=work, RUST_BACKTRACE="0",
               LD_LIBRARY_PATH=os.path.join(BUILD, "harness", "debug"))
    if replay:
        env["VERIF_REPLAY_CHECK"], env["VERIF_REPLAY_INPUT"] = replay
    try:
        p = subprocess.run([exe], env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=max_wall or (secs + 120))
        code, err = p.returncode, p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        code, err = -1, "timeout"
    subprocess.run(["rm", "-rf", work])
    if not os.path.exists(out):
        return {"evaluations": 0, "distinct_nontrivial": 0, "per_check": {}, "error": f"harness ended with {code}: {err}"}
    return json.load(open(out))


# ------------------------------------------------------------------ verification

MACHINE = re.compile(r"rlimit|Resource limit|timed out|could not determine|unsupported|not supported|not yet supported", re.I)


def verify_unit(name, tier, canary=False):
    """assemble and verify; -> dict(status ok|failed|undecided, failures, ...)"""
    u = vk.Unit(name)
    d = os.path.join(BUILD, "units")
    os.makedirs(d, exist_ok=True)
    try:
        A = vk.assemble(u, canary="fe" if canary else None)
    except RuntimeError as e:
        return {"unit": name, "status": "undecided", "why": [str(e)[-500:]], "failures": [], "fns": [], "ext": [], "trusted": [], "notes": {}, "R": None}
    path = os.path.join(d, name + ("_canary" if canary else "") + ".rs")
    open(path, "w").write(A.text)
    R = vk.run_verus(path, ["--num-threads", "4"], timeout=500)
    fails, undec, retried = [], list(A.lost), []
    errs = [e for e in R["errors"] if not e["message"].startswith("aborting")]
    # the solver's search depends on its random seed: a function counts as failed only if it fails under three seeds
    bad = {f["function"] for f in R["fn"] if not f["success"]}
    if not canary and errs and bad and not R["timeout"] and not R["vir"]:
        still, first = set(bad), R["wall"]
        for s in (7, 23):
            R2 = vk.run_verus(path, ["--num-threads", "4", "--rlimit", "50", "--smt-option", f"smt.random_seed={s}"], timeout=min(120, 60 + 3 * first))
            if R2["timeout"] or not R2["fn"]:
                break
            still &= {f["function"] for f in R2["fn"] if not f["success"]}
            if not still:
                break
        retried = sorted(bad - still)
        if retried:
            lines = A.text.split("\n")
            def encl(l):
                while l > 0:
                    m = re.match(r"\s*(?:pub\s+)?(?:(?:open|closed|uninterp)\s+)?(?:(?:proof|spec|exec)\s+)?fn\s+(\w+)", lines[l - 1]) if l <= len(lines) else None
                    if m:
                        return m.group(1)
                    l -= 1
                return ""
            simple = {f.split("::")[-1] for f in still}
            kept = [e for e in errs if encl(e["line"]) in simple]
            errs = [] if not still else (kept or errs)
            R["verified"] += len(retried)
            R["nerr"] -= len(retried)
            R["ok"] = not still
            R["retried"] = retried
    if R["timeout"]:
        undec.append("verifier timed out")
    for e in errs:
        n, k, s = vk.owner(A, e["lines"][0] if e["lines"] else 0)
        # the obligation belongs to the function whose body it is in, not to the callee whose precondition is quoted
        for l in e["lines"]:
            n2, k2, _ = vk.owner(A, l)
            if k2 == "fn" and "precondition" in e["message"]:
                n, k = n2, k2
        prim = vk.owner(A, e["line"])
        if prim[1] == "fn":
            n, k = prim[0], prim[1]
        rec = {"function": n, "kind": k, "message": e["message"], "rendered": e["rendered"][:1500]}
        if R["vir"] and R["verified"] + R["nerr"] == 0:
            undec.append(f"the verifier does not accept the current source: {n}: {e['message'][:200]}")
        elif MACHINE.search(e["message"]):
            undec.append(f"{n}: {e['message'][:120]}")
        elif k == "lib":
            undec.append(f"lemma in {n}: {e['message'][:120]}")
        else:
            fails.append(rec)
    if not R["ok"] and not errs and not R["timeout"]:
        undec.append("verifier: " + R["raw"][-400:])
    lostfns = {x.split(":: ")[0] for x in A.lost}
    status = "ok" if R["ok"] and not undec else ("failed" if fails and not A.lost and not (R["vir"] and R["verified"] == 0) else "undecided")
    return {"unit": name, "status": status, "why": undec, "failures": fails, "fns": A.fns, "ext": A.ext, "trusted": A.trusted, "notes": A.notes, "R": R, "A": A, "path": path}


def canary_bad(name):
    """contracted functions whose exit is unreachable under their contract (assert(false) there is accepted)"""
    r = verify_unit(name, "quick", canary=True)
    failed = {f["function"] for f in r["failures"]}
    if r["R"] is None or r["R"]["verified"] + r["R"]["nerr"] == 0:
        return None
    return [f for f in r["fns"] if f not in failed and not any(w.startswith(f) for w in r["why"])]


# ------------------------------------------------------------------ main

def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"^property=(\w+) check=(\S+) input=(.*?) ## (.*)$", line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def write_replay(pid, kind, data):
    d = os.path.join(VERIF, "build", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{kind}.json")
    json.dump(dict(data, property=pid), open(p, "w"), indent=1)
    return p


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        vk.build_vx()
        first = [p for p in CFG if not p.startswith('_') and os.path.exists(os.path.join(VERIF, "harness", p + ".rs"))][0]
        exe, err = build_harness(first)
        print("setup:", "ok" if exe else err)
        sys.exit(0 if exe else 1)
    if args[:1] == ["--replay"]:
        r = json.load(open(args[1]))
        if "check" not in r:
            print(r.get("verifier_output", "")); sys.exit(1)
        exe, err = build_harness(r["property"])
        if not exe:
            print(err); sys.exit(2)
        o = run_harness(r["property"], exe, 1, 1, [], replay=(r["check"], r["input"]))
        print(json.dumps(o.get("violation", {"property": r["property"], "result": "no violation"}), indent=1))
        sys.exit(1 if "violation" in o else 0)
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CFG[pid]
    t0 = time.time()
    vk.build_vx()
    secs = cfg.get("secs", 15) if tier == "quick" else cfg.get("secs_thorough", 240)
    known = known_findings(pid)
    have_h = os.path.exists(os.path.join(VERIF, "harness", pid + ".rs"))
    hres, herr, exe = None, None, None

    def harness_job():
        exe, err = build_harness(pid)
        if not exe:
            return None, err, None
        return run_harness(pid, exe, secs, seed, [f"{c} {i}" for c, i, _ in known]), None, exe

    canaries, units, dep_failed = {}, [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        hf = ex.submit(harness_job) if have_h else None
        uf = [ex.submit(verify_unit, u, tier) for u in cfg.get("units", []) + cfg.get("deps", [])]
        cf = {u: ex.submit(canary_bad, u) for u in cfg.get("units", []) if tier == "thorough" or cfg.get("canary_quick", True)}
        units = [f.result() for f in uf]
        canaries = {u: f.result() for u, f in cf.items()}
        if hf:
            hres, herr, exe = hf.result()
    # a callee's contract that no longer holds is the violation of the property that owns it; here it only
    # takes the proof away (unless the search finds an input that breaks this property)
    for u in units:
        if u["unit"] in cfg.get("deps", []) and u["status"] == "failed":
            u["status"] = "undecided"
            u["why"] = u["why"] + [f"contract this proof uses: failed obligation in {f['function']}: {f['message'][:120]}" for f in u["failures"]]
            dep_failed += u["failures"]
    failed = [f for u in units for f in u["failures"] if u["status"] == "failed"]
    undecided = [w for u in units if u["status"] != "ok" for w in (u["why"] or ["failed"])] if any(u["status"] != "ok" for u in units) else []
    for u, bad in canaries.items():
        if bad:
            undecided.append(f"vacuous: the exits of {bad} are unreachable under their contracts")
    if (failed or dep_failed) and exe and "violation" not in hres:
        # the proof failed: look longer for an input
        h2 = run_harness(pid, exe, cfg.get("secs_extra", 60), seed + 7919, [f"{c} {i}" for c, i, _ in known])
        if "violation" in h2:
            hres = h2
    violations = 0
    if hres and "violation" in hres:
        v = hres["violation"]
        p = write_replay(pid, "input", {"check": v["check"], "input": v["input"], "message": v["message"],
                                        "failed_obligations": [f"{f['function']}: {f['message']}" for f in failed + dep_failed],
                                        "how": f"python3 {VERIF}/bin/check.py --replay <this file>"})
        print(f"{pid}: {v['check']}: on {v['input'][:300]}: {v['message'][:600]}")
        for f in (failed + dep_failed)[:5]:
            print(f"{pid}: failed obligation in {f['function']}: {f['message']}")
        print(f"VIOLATION property={pid} replay={p}")
        violations = 1
    elif failed:
        p = write_replay(pid, "obligation", {"failed_obligations": [{k: f[k] for k in ("function", "message")} for f in failed],
                                             "verifier_output": "\n".join(f["rendered"] for f in failed)[:20000]})
        for f in failed[:8]:
            print(f"{pid}: failed obligation in {f['function']}: {f['message']}")
        print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
        violations = 1
    for c, i, what in known:
        # a listed finding is re-checked on every run
        print(f"KNOWN-FINDING: property={pid} {what}")
    # ---------------- evidence
    ob = sum((u["R"]["verified"] + u["R"]["nerr"]) for u in units if u["R"])
    dis = sum(u["R"]["verified"] for u in units if u["R"])
    fns = sorted({f for u in units for f in u["fns"]})
    level = cfg["level"]
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": "; ".join(u["R"]["cmd"] for u in units if u["R"]) or "none",
        "back_end": "Verus 0.2026.09.13 / Z3",
        "functions_under_contract": fns,
        "undecided": [w[:300] for w in undecided][:20],
        "trusted_base": sorted({t for u in units for t in u["trusted"]}) + sorted({f"contract of {x} (its body is not verified in this check)" for u in units for x in u["ext"] if x not in fns}) + cfg.get("trusted", []),
        "extraction_notes": sorted({n for u in units for ns in u["notes"].values() for n in ns})[:60],
        "verified_with_another_seed": sorted({f for u in units if u["R"] for f in u["R"].get("retried", [])}),
        "smt_ms": sum(u["R"].get("smt_ms", 0) for u in units if u["R"]),
        "slowest_ms": sorted(({"function": f["function"], "ms": f["time"]} for u in units if u["R"] for f in u["R"]["fn"]), key=lambda x: -x["ms"])[:5],
        "vacuity": {u: ("not run" if b is None else ("every contracted exit reachable" if not b else b)) for u, b in canaries.items()},
    }
    if hres:
        cov["evaluations"] = hres.get("evaluations", 0)
        cov["distinct_nontrivial"] = hres.get("distinct_nontrivial", 0)
        cov["rule"] = cfg.get("rule", "bounded search: generated inputs run through the real crate and compared with an independent definition; non-trivial as counted by the harness; distinct by input text")
        cov["samples"] = [f"{k}: {s}" for k, v in hres.get("per_check", {}).items() for s in v["samples"]][:12]
        cov["search_per_check"] = {k: v["evaluations"] for k, v in hres.get("per_check", {}).items()}
        if "error" in hres:
            cov["search_error"] = hres["error"][:500]
    if herr:
        cov["search_error"] = herr[:1500]
    if cfg.get("explanation"):
        cov["explanation"] = cfg["explanation"]
    if level == "proof" and undecided:
        level = "exploration"
        cov.setdefault("evaluations", 0); cov.setdefault("distinct_nontrivial", 0); cov.setdefault("rule", "none"); cov.setdefault("samples", [])
        cov["explanation"] = "the proof could not be redone on this source; only the bounded search ran"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid}: {dis}/{ob} obligations, {len(fns)} functions under contract, search {cov.get('evaluations', 0)} cases, {ev['wall_s']} s" + (f", undecided: {undecided[:3]}" if undecided else ""))
    if cov.get("search_error"):
        print(f"{pid}: search: {cov['search_error'][:600]}")
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
