#!/usr/bin/env python3
"""newseed.py NAME PROP: takes the uncommitted change of /tmp/sr (a copy of /repo) as the patch of seeded/NAME, demo.rs from stdin.
META lines: first two lines of stdin are `needs: ...` and `breaks: ...`."""
import sys, os, json, subprocess
name, prop = sys.argv[1:3]
t = sys.stdin.read().split("\n")
needs = t[0].split(":", 1)[1].strip(); breaks = t[1].split(":", 1)[1].strip()
d = f"/verif/seeded/{name}"; os.makedirs(d, exist_ok=True)
p = subprocess.run(["git", "-C", os.environ.get("SEED_FROM", "/tmp/sr"), "diff"], capture_output=True, text=True).stdout
assert p, "no change"
open(d + "/patch.diff", "w").write(p)
open(d + "/demo.rs", "w").write("\n".join(t[2:]))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# compiles demo.rs into the program through its verification hook (scratch target directory) and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
[ -d /repo/rust/target/debug ] && mkdir -p "$tmp/t" && cp -a /repo/rust/target/debug "$tmp/t/debug"
VERIF_HARNESS="$here/demo.rs" CARGO_TARGET_DIR="$tmp/t" cargo rustc --offline --locked --bin rust -- --cfg verif >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 3; }
cd "$tmp" && mkdir work && cd work && timeout 120 "$tmp/t/debug/rust"
''')
os.chmod(d + "/demo.sh", 0o755)
