#!/usr/bin/env python3
"""mkseed.py ID...: lays out seeded/ID around an existing seeded/ID/harness/demo.cc from its entry in
seeds.py: patch.diff, demo.sh, meta.json and a private copy of the simulated world.
'mkseed.py --refresh' renews those copies."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the real libwinpty and agent sources of the repository in the current
# directory against a simulated Win32 world and runs one scenario on them.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
VERIF_BUILD="$t" EVID="$t" timeout 280 python3 "$here/run.py" demo quick --repo "$PWD"
'''
def copies(d):
    for s in ('sim', 'mc'):
        shutil.rmtree(os.path.join(d, s), ignore_errors=True); shutil.copytree(os.path.join(V, s), os.path.join(d, s))
    shutil.copy(os.path.join(V, 'run.py'), d)
    for h in glob.glob(V + '/harness/*.h'): shutil.copy(h, os.path.join(d, 'harness'))
    open(os.path.join(d, 'known_findings'), 'w').close()
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
if sys.argv[1] == '--refresh':
    for d in sorted(glob.glob(V + '/seeded/*')): copies(d)
    sys.exit()
SEEDS = []
def seed(sid, prop, edits, needs, breaks): SEEDS.append((sid, prop, edits, needs, breaks))
exec(open(os.path.join(V, 'tools', 'seeds.py')).read())
for sid, prop, edits, needs, breaks in SEEDS:
    if sid not in sys.argv[1:]: continue
    d = os.path.join(V, 'seeded', sid); assert os.path.exists(d + '/harness/demo.cc'), 'no demo.cc'
    t = tempfile.mkdtemp(prefix='/tmp/mkseed.')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, old, new in edits:
            f = t + '/r/src/' + f; s = open(f).read(); assert s.count(old) == 1, '%d matches: %s' % (s.count(old), old); open(f, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True))
    finally: shutil.rmtree(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1); copies(d)
    print(open(d + '/patch.diff').read())
