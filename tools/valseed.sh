#!/bin/bash
# valseed.sh NAME...: demo on the clean tree, then demo and the property's check with the patch applied to /repo (undone afterwards)
for n in "$@"; do
 d=/verif/seeded/$n; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 (cd /repo && bash $d/demo.sh >/tmp/vs.out 2>&1); a=$?
 git -C /repo apply $d/patch.diff || { echo "$n does not apply"; continue; }
 (cd /repo && bash $d/demo.sh >/tmp/vs.out2 2>&1); b=$?
 (cd /verif && python3 bin/check.py $p >/tmp/vs.out3 2>&1); c=$?
 git -C /repo checkout -q -- .
 echo "$n demo clean=$a patched=$b ($(tail -1 /tmp/vs.out2 | cut -c1-120)) check $p rc=$c: $(grep -m1 'VIOLATION' /tmp/vs.out3)"
 grep -v VIOLATION /tmp/vs.out3 | cut -c1-220 | head -4
done
