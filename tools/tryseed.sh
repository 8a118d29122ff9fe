#!/bin/bash
# tools/tryseed.sh ID [notest]: demo without and with the change, stable tests with it, then its check.
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "dirty /repo"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo.out 2>&1; echo "$id demo on clean tree: $?"
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILED"
bash $d/demo.sh >/tmp/demo.out 2>&1; echo "$id demo with change: $?"; tail -2 /tmp/demo.out
[ "$2" = notest ] || bash /tmp/w/t.sh
cd /verif && ./check $p > /tmp/chk.out 2>&1; echo "$id check $p: $?"; grep -m3 "finding\|INCONC" /tmp/chk.out
