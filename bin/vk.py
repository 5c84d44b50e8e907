#!/usr/bin/env python3
"""vk: assemble a Verus unit from /repo's *current* source plus the contracts in /verif, run the verifier on it.

unit file (units/<ID>.unit), one directive per line:
    use lib/x.rs                        hand-written specifications and lemmas, copied as they are
    type FILE NAME [opaque]             a type of /repo
    const FILE NAME                     a constant of /repo
    fn FILE PATH [as NEW] [#variant]    a function of /repo under its contract from contracts/*.vc
    static FILE NAME                    initialiser of a lazy_static/static, as fn vx_init_NAME
The functions' bodies come from tools/vx (see DESIGN.md for the desugarings)."""
import json, os, re, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "rust", "src")
BUILD = os.path.join(VERIF, "build")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_vx():
    exe = os.path.join(BUILD, "vx", "release", "vx")
    src = os.path.join(VERIF, "tools", "vx", "src", "main.rs")
    stamp = os.path.join(BUILD, "vx", "stamp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "vx"),
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="")
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "tools", "vx"), env=env)
    if r.returncode:
        raise SystemExit("cannot build vx:\n" + r.stderr)
    open(stamp, "w").write(h)
    return exe


# ------------------------------------------------------------------ contracts

class Contract:
    def __init__(self, file, path, variant):
        self.file, self.path, self.variant = file, path, variant
        self.ret = "r"
        self.attrs, self.spec, self.loops, self.at, self.subst, self.opts = [], "", {}, {}, [], {}
        self.source = None


def load_contracts():
    db = {}
    d = os.path.join(VERIF, "contracts")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".vc"):
            continue
        cur, sect = None, None
        for ln, line in enumerate(open(os.path.join(d, fn)), 1):
            if line.startswith("@"):
                w = line.split()
                k = w[0][1:]
                if k == "fn":
                    variant = ""
                    if w[-1].startswith("#"):
                        variant = w.pop()[1:]
                    cur = Contract(w[1], w[2], variant)
                    cur.source = f"{fn}:{ln}"
                    key = (w[1], w[2], variant)
                    if key in db:
                        raise SystemExit(f"duplicate contract {key}")
                    db[key] = cur
                    sect = None
                elif k == "ret":
                    cur.ret = w[1]
                elif k == "attr":
                    cur.attrs.append(line.split(None, 1)[1].strip())
                elif k == "spec":
                    sect = "spec"
                elif k == "loop":
                    sect = ("loop", int(w[1]))
                    cur.loops[sect[1]] = ""
                elif k == "at":
                    sect = ("at", w[1])
                    cur.at.setdefault(w[1], "")
                elif k == "subst":
                    a, b = line.split(None, 1)[1].rstrip("\n").split(" => ")
                    cur.subst.append((a, b))
                elif k == "opts":
                    for o in w[1:]:
                        a, b = o.split("=")
                        cur.opts[a] = b
                elif k == "--":
                    pass
                else:
                    raise SystemExit(f"{fn}:{ln}: unknown directive {line}")
                continue
            if cur is None or sect is None:
                if line.strip() and not line.strip().startswith("#"):
                    raise SystemExit(f"{fn}:{ln}: text outside a section: {line}")
                continue
            if sect == "spec":
                cur.spec += line
            elif sect[0] == "loop":
                cur.loops[sect[1]] += line
            else:
                cur.at[sect[1]] += line
    return db


def load_baseline():
    p = os.path.join(VERIF, "contracts", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def renaming(old, new):
    """positional renaming of the names that differ; None when the shapes differ"""
    uo, un = list(dict.fromkeys(old)), list(dict.fromkeys(new))
    if set(uo) == set(un):
        return {}
    a = [x for x in uo if x not in un]
    b = [x for x in un if x not in uo]
    if len(a) == len(b):
        return dict(zip(a, b))
    if not a:
        return {}
    return None


def apply_ren(text, ren):
    if not ren:
        return text
    pat = re.compile(r"(?<![\w.])(" + "|".join(re.escape(x) for x in sorted(ren, key=len, reverse=True)) + r")(?!\w)")
    # a field access `.name` is not a local
    return pat.sub(lambda m: ren[m.group(1)], text)


class Unit:
    def __init__(self, name):
        self.name = name
        self.items = []
        self.level = "proof"
        path = os.path.join(VERIF, "units", name + ".unit")
        self.load(path)

    def load(self, path):
        for ln, line in enumerate(open(path), 1):
            line = line.split("//")[0].strip()
            if not line:
                continue
            w = line.split()
            if w[0] == "include":
                self.load(os.path.join(VERIF, "units", w[1]))
                continue
            if tuple(w) in [tuple(x) for x in self.items]:
                continue
            self.items.append(w)


class Assembled:
    def __init__(self):
        self.text = ""
        self.ranges = []   # (start_line, end_line, name, kind)
        self.lost = []     # lost anchors / extraction problems
        self.notes = {}
        self.fns = []
        self.ext = []      # functions used through their contract only
        self.trusted = []


def ident_of(path):
    return path.replace("::", "__")


def one_broadcast(text):
    """Verus allows one module-level `broadcast use` per module: those of the libs become one, on the last one's line."""
    ms = list(re.finditer(r"^broadcast use (.+);$", text, flags=re.M))
    if len(ms) > 1:
        names = ", ".join(m.group(1).strip("{} ") for m in ms)
        for i, m in reversed(list(enumerate(ms))):
            text = text[:m.start()] + (f"broadcast use {{{names}}};" if i == len(ms) - 1 else "") + text[m.end():]
    return text


def assemble(unit, canary=None, only_list=False):
    exe = build_vx()
    db = load_contracts()
    base = load_baseline()
    reqs, metas = [], []
    known = []
    for w in unit.items:
        if w[0] in ("fn", "ext"):
            known.append(w[2])
    for w in unit.items:
        if w[0] in ("fn", "static", "ext"):
            variant = ""
            rest = list(w[3:])
            new = None
            while rest:
                x = rest.pop(0)
                if x == "as":
                    new = rest.pop(0)
                elif x.startswith("#"):
                    variant = x[1:]
            c = db.get((w[1], w[2], variant))
            if c is None:
                raise SystemExit(f"unit {unit.name}: no contract for {w[1]} {w[2]} #{variant}")
            rq = {"kind": "fn" if w[0] in ("fn", "ext") else "static_init", "file": w[1], "path": w[2]}
            if "unroll_max" in c.opts:
                rq["unroll_max"] = int(c.opts["unroll_max"])
            if "collect" in c.opts:
                rq["collect"] = c.opts["collect"]
            if "str" in c.opts:
                rq["str"] = c.opts["str"]
            if "iproduct" in c.opts:
                rq["iproduct"] = c.opts["iproduct"]
            if "debug_assert" in c.opts:
                rq["debug_assert"] = c.opts["debug_assert"]
            reqs.append(rq)
            metas.append((w[0], c, new))
        elif w[0] in ("type", "const"):
            reqs.append({"kind": w[0], "file": w[1], "path": w[2]})
            metas.append((w[0], w, None))
    p = subprocess.run([exe], input=json.dumps({"src": SRC, "items": reqs, "known": known}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError("vx failed: " + p.stderr[-2000:])
    res = json.loads(p.stdout)
    A = Assembled()
    out = []

    def emit(text, name, kind):
        start = sum(x.count("\n") for x in out) + 1
        out.append(text if text.endswith("\n") else text + "\n")
        end = sum(x.count("\n") for x in out)
        A.ranges.append((start, end, name, kind))

    emit("#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_parens, dead_code)]\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nverus! {\n", "header", "header")
    libsub = []
    for w in unit.items:
        if w[0] == "use":
            t = open(os.path.join(VERIF, w[1])).read()
            for m in re.finditer(r"external_body|assume_specification|\badmit\(|\bassume\(|\baxiom fn", t):
                ln = t.count("\n", 0, m.start()) + 1
                line = t.split("\n")[ln - 1].strip()
                if line.startswith("//"):
                    continue
                nxt = line if "fn" in line or "struct" in line else line + " " + t.split("\n")[ln].strip()
                A.trusted.append(f"{w[1]}:{ln}: {nxt}"[:200])
            libsub += re.findall(r"^//@subst (\S+) => (.*)$", t, flags=re.M)
            emit(t, w[1], "lib")
    for (kind, c, new), r in zip(metas, res):
        if kind == "type":
            w = c
            if not r["ok"]:
                A.lost.append(f"type {w[2]}: {r['error']}")
                continue
            name = w[2]
            if r["kind"] == "struct":
                for f in r["fields"]:
                    for a, bb in libsub:
                        f["ty"] = re.sub(a, bb, f["ty"])
                t = "pub struct %s%s { %s }\n" % (name, r.get("generics", ""), ", ".join(f"pub {f['name']}: {f['ty']}" for f in r["fields"]))
                if "Clone" in r["derives"] and "noclone" not in w[3:]:
                    ens, body = [], []
                    for f in r["fields"]:
                        if f["ty"].startswith("Vec"):
                            ens.append(f"r.{f['name']}@ == self.{f['name']}@")
                        else:
                            ens.append(f"r.{f['name']} == self.{f['name']}")
                        body.append(f"{f['name']}: self.{f['name']}.clone()")
                    t += "impl Clone for %s { fn clone(&self) -> (r: Self) ensures %s { %s { %s } } }\n" % (name, ", ".join(ens), name, ", ".join(body))
            elif r["kind"] == "enum":
                ds = [d for d in r["derives"] if d in ("Clone", "Copy", "PartialEq", "Eq")]
                if "PartialEq" in ds:
                    ds.append("Structural")
                if "Clone" in ds and "Copy" not in ds:
                    ds.remove("Clone")
                t = ("#[derive(%s)]\n" % ", ".join(ds) if ds else "") + "pub enum %s { %s }\n" % (name, ", ".join(r["variants"]))
                if "Clone" in r["derives"] and "Copy" not in r["derives"]:
                    t += "impl Clone for %s { fn clone(&self) -> (r: Self) ensures r == *self { match self { %s } } }\n" % (
                        name, ", ".join(f"{name}::{v.strip()} => {name}::{v.strip()}" for v in r["variants"]))
            else:
                t = f"pub type {name} = {r['ty']};\n"
            emit(t, f"type {name}", "type")
            continue
        if kind == "const":
            if not r["ok"]:
                A.lost.append(f"const {c[2]}: {r['error']}")
                continue
            if r["ty"].strip() == "f64":
                # a real number: the shadow of f64 takes the literal as it is written
                from decimal import Decimal, InvalidOperation
                try:
                    v = format(Decimal(re.sub(r"[_\s]|f64$", "", r["expr"])), "f")
                except InvalidOperation:
                    A.lost.append(f"const {c[2]}: not a literal")
                    continue
                v = v if "." in v else v + ".0"
                emit(f"#[verifier::external_body]\npub exec const {c[2]}: F64 ensures {c[2]}@ == {v}real {{ F64 {{ x: 0 }} }}\n", f"const {c[2]}", "type")
                continue
            emit(f"pub const {c[2]}: {r['ty']} = {r['expr']};\n", f"const {c[2]}", "type")
            continue
        disp = f"{c.file}::{c.path}"
        if not r["ok"]:
            A.lost.append(f"{disp}: {r['error']}")
            continue
        if kind == "ext":
            A.ext.append(disp)
        else:
            A.fns.append(disp)
        A.notes[disp] = r["notes"]
        bkey = f"{unit.name} {c.file} {c.path}"
        b = base.get(bkey)
        ren = {}
        if b:
            ren = renaming(b["params"] + b["locals"], r["params"] + r["locals"])
            if ren is None:
                if kind != "ext":
                    A.lost.append(f"{disp}: local variables changed ({b['locals']} -> {r['locals']})")
                ren = {}
            bh = [l["kind"] for l in b["loops"]]
            nh = [l["kind"] for l in r["loops"]]
            if len(bh) != len(nh) and kind != "ext":
                A.lost.append(f"{disp}: loops changed ({bh} -> {nh})")
        elif not only_list:
            pass
        body = r["body"]
        spec = apply_ren(c.spec, {k: v for k, v in ren.items() if k in (b or {}).get("params", [])})
        # name of the ghost iterator of a loop over an iterator
        def itname(body):
            while True:
                m = re.search(r"__vx_it(\d+)\(", body)
                if not m:
                    return body
                depth, j = 0, m.end() - 1
                while True:
                    if body[j] == "(":
                        depth += 1
                    elif body[j] == ")":
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                k = int(m.group(1))
                nm = f"it{k}: " if re.search(r"\bit%d\b" % k, c.loops.get(k, "")) else ""
                body = body[:m.start()] + nm + body[m.end():j] + body[j + 1:]
        body = itname(body)
        # markers
        used = set()

        def head(m):
            k = int(m.group(1))
            h = c.loops.get(k, "")
            used.add(k)
            h = apply_ren(h, ren)
            kindk = r["loops"][k]["kind"]
            if kindk.startswith("for") and kindk != "for-array":
                h = re.sub(r"\bdecreases\b.*?(?=\binvariant\b|\Z)", "", h, flags=re.S)
            return "\n" + h + "\n{"

        body = re.sub(r"\{\s*__vx!\(\"L(\d+)\"\);", head, body)

        def point(m):
            k = m.group(1)
            used.add(k)
            t = c.at.get(k, "")
            if canary and k == "fe" and canary == "fe":
                t = t + " assert(false); "
            if canary and k == "fs" and canary == "fs":
                t = " assert(false); " + t
            t = apply_ren(t, ren)
            if not t.strip():
                return ""
            if t.strip().startswith("!raw"):
                return t.strip()[4:] + "\n"
            return "proof {\n" + t + "\n}\n"

        body = re.sub(r"__vx!\(\"(\w+)\"\);\n?", point, body)
        for k in c.loops:
            if kind != "ext" and k not in used and f"L{k}s" not in used:
                A.lost.append(f"{disp}: loop {k} no longer exists")
        for k in c.at:
            if kind != "ext" and k not in used and k not in ("fs", "fe"):
                A.lost.append(f"{disp}: point {k} no longer exists")
        for a, bb in c.subst + libsub:
            body, n = re.subn(a, bb, body)
            spec_inputs = [re.sub(a, bb, x) for x in r["inputs"]]
            r["inputs"] = spec_inputs
            if r["ret"]:
                r["ret"] = re.sub(a, bb, r["ret"])
        name = new or (f"vx_init_{c.path}" if kind == "static" else r["name"])
        inputs = ", ".join(r["inputs"])
        ret = f" -> ({c.ret}: {r['ret'].strip()})" if r["ret"] else ""
        attrs = "\n".join(c.attrs or ["#[verifier::loop_isolation(false)]"])
        ftext = f"{attrs}\npub fn {name}{r['generics'].strip()}({inputs}){ret}\n{spec}{{\n{body}\n}}\n"
        if kind == "ext":   # contract only: the body is verified in another unit
            attrs, body = "#[verifier::external_body]", "{ unimplemented!() }"
            spec = re.sub(r"^\s*decreases\b[^\n]*\n", "", spec, flags=re.M)
        # the vx body already contains its own outer braces
        ftext = f"{attrs}\npub fn {name}{r['generics'].strip()}({inputs}){ret}\n{spec}{body}\n"
        if r["self_ty"]:
            ftext = f"impl {r['self_ty']} {{\n{ftext}}}\n"
        emit(f"// ---- {disp}\n" + ftext, disp, "fn")
    emit("}\nfn main() {}\n", "footer", "header")
    A.text = one_broadcast("".join(out))
    A.res = {f"{q['file']} {q['path']}": r for q, r in zip(reqs, res) if q["kind"] in ("fn", "static_init")}
    return A


def run_verus(path, extra=(), timeout=600):
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time", "--error-format=json", "--multiple-errors", "4"] + ([] if "--rlimit" in extra else ["--rlimit", "25"]) + list(extra)
    t0 = time.time()
    try:
        p = sh(cmd, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"cmd": " ".join(cmd), "timeout": True, "wall": time.time() - t0, "errors": [], "fn": [], "ok": False, "verified": 0, "nerr": 0, "vir": False, "raw": "timeout"}
    wall = time.time() - t0
    try:
        j = json.loads(p.stdout)
    except ValueError:
        j = {}
    errs = []
    for line in p.stderr.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") == "error" and d.get("spans"):
            sp = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
            lines = [s["line_start"] for s in d["spans"]]
            errs.append({"message": d["message"], "line": sp[0]["line_start"], "lines": lines, "rendered": d["rendered"]})
        elif d.get("level") == "error" and not d["message"].startswith("aborting"):
            errs.append({"message": d["message"], "line": 0, "lines": [], "rendered": d["rendered"]})
    vr = j.get("verification-results", {})
    fns = []
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        fns += m.get("function-breakdown", [])
    return {"cmd": " ".join(cmd), "timeout": False, "wall": wall, "errors": errs, "fn": fns, "ok": p.returncode == 0 and vr.get("success") is True,
            "verified": vr.get("verified", 0), "nerr": vr.get("errors", 0), "vir": vr.get("encountered-vir-error", True), "raw": p.stderr[-6000:],
            "smt_ms": j.get("times-ms", {}).get("smt", {}).get("total", 0)}


def owner(A, line):
    for s, e, n, k in A.ranges:
        if s <= line <= e:
            return n, k, s
    return "?", "?", 0


def main():
    cmd = sys.argv[1]
    if cmd == "asm":
        A = assemble(Unit(sys.argv[2]))
        sys.stdout.write(A.text)
        for x in A.lost:
            print("LOST", x, file=sys.stderr)
    elif cmd == "run":
        u = Unit(sys.argv[2])
        A = assemble(u)
        d = os.path.join(BUILD, "units")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, u.name + ".rs")
        open(p, "w").write(A.text)
        for x in A.lost:
            print("LOST", x)
        R = run_verus(p, sys.argv[3:])
        for e in R["errors"]:
            if e["message"].startswith("aborting"): continue
            n, k, s = owner(A, e["lines"][0] if e["lines"] else 0)
            print(f"--- {n}")
            print(e["rendered"])
        slow = sorted(R["fn"], key=lambda f: -f["time"])[:8]
        for f in slow:
            print(f"   {f['time']} ms  {f['function']}  {'ok' if f['success'] else 'FAILED'}")
        print("ok" if R["ok"] else "FAILED", "verified", R["verified"], "errors", R["nerr"], "wall %.1f" % R["wall"])
        if not R["ok"] and not R["errors"]:
            print(R["raw"])
    elif cmd == "snapshot":
        base = {}
        for f in sorted(os.listdir(os.path.join(VERIF, "units"))):
            if f.endswith(".unit") and not f.startswith("_"):
                A = assemble(Unit(f[:-5]), only_list=True)
                for k, r in A.res.items():
                    if r["ok"]:
                        base[f[:-5] + " " + k] = {"params": r["params"], "locals": r["locals"], "loops": r["loops"], "inlined": r["inlined"]}
        json.dump(base, open(os.path.join(VERIF, "contracts", "baseline.json"), "w"), indent=1, sort_keys=True)
        print(len(base), "functions")
    elif cmd == "loops":
        exe = build_vx()
        r = subprocess.run([exe], input=json.dumps({"src": SRC, "items": [{"kind": sys.argv[4] if len(sys.argv) > 4 else "fn", "file": sys.argv[2], "path": sys.argv[3]}], "known": [sys.argv[3]] + sys.argv[5:]}), stdout=subprocess.PIPE, text=True)
        r = json.loads(r.stdout)[0]
        print((r.get("body") or "")[:6000]); print({k: v for k, v in r.items() if k in ("error", "inputs", "ret", "notes", "loops", "ok")})


if __name__ == "__main__":
    main()
