#!/usr/bin/env python3
"""mkseed.py FILE.py: creates seeded/<id>/ from a description (ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO) and verifies the demo.
With --test also runs the stable tests on the changed copy."""
import os, subprocess, sys, shutil, json, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
V = '/verif/seeded/' + ns['ID']
W = '/tmp/seedwork/' + ns['ID']
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
for f, old, new in edits:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, 'w').write(s.replace(old, new))
os.makedirs(V, exist_ok=True)
d = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
open(V + '/patch.diff', 'w').write(d)
open(V + '/demo.py', 'w').write(ns['DEMO'])
open(V + '/demo.sh', 'w').write('''#!/bin/bash
# run with the working directory at the repository (after the build)
here="$(cd "$(dirname "$0")" && pwd)"
root="$(pwd)"
tmp="$(mktemp -d)"
ln -s "$root" "$tmp/PyECLOUD"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
cd "$tmp" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$tmp" timeout 280 "$PY" "$here/demo.py" "$root"
rc=$?
rm -rf -- "$tmp"
exit $rc
''')
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(V + '/meta.json', 'w'), indent=1)
def demo(root):
    return subprocess.run(['bash', V + '/demo.sh'], cwd=root, capture_output=True, text=True)
a = demo('/repo')
if a.returncode: print('UNPATCHED FAILS', a.stdout[-800:], a.stderr[-1500:])
if any(f.endswith(('.f', '.pyx', '.c')) for f, _, _ in edits):
    r = subprocess.run(['bash', '-c', 'cd %s && (export PATH=/opt/venv/bin:$PATH; cd /tmp/seedwork; sed s,/repo,%s,g /opt/vp/build_native.py > bn.py; python bn.py; rm -f bn.py) ' % (W, W)], capture_output=True, text=True)
    print('build rc', r.returncode, r.stderr[-300:])
b = demo(W)
print(ns['ID'], 'unpatched', a.returncode, 'patched', b.returncode, (b.stdout + b.stderr).strip().splitlines()[-1:] )
subprocess.run(['git', '-C', '/repo', 'apply', '--check', V + '/patch.diff'], check=True)
shutil.rmtree(W)
