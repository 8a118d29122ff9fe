#!/usr/bin/env python3
"""newseed.py ID PROPERTY NEEDS BREAKS: takes /repo's uncommitted diff as the patch, reverts it."""
import json, os, subprocess, sys
i, prop, needs, br = sys.argv[1:5]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff.strip()
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg
cd "$(mktemp -d)" || exit 3
trap 'rm -rf "$PWD"' EXIT
/opt/venv/bin/python "$OLDPWD_DEMO/demo.py"
'''.replace('cd "$(mktemp -d)"', 'OLDPWD_DEMO=$(cd "$(dirname "$0")" && pwd)\ncd "$(mktemp -d)"'))
open(d + '/demo.py', 'w').write(sys.stdin.read())
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
