#!/usr/bin/env python3
"""Confirm and keep one planted bug.  usage: plant.py SPEC.py [--no-check]
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source with main),
SOURCES (repo sources to compile with the demo), LIBS, FLAGS."""
import json, os, subprocess, sys, tempfile, shutil
V = '/verif'
spec = {'SOURCES': '', 'LIBS': '', 'FLAGS': '-O1', 'TIMEOUT': 60, 'SANITIZE': False}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, 'seeded', spec['ID'])
w = tempfile.mkdtemp(prefix='plant')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def out(msg):
    shutil.rmtree(w, True); shutil.rmtree(d, True); sys.exit(spec['ID'] + ': ' + str(msg))
r = os.path.join(w, 'repo')
sh(f'cp -a /repo {r}')
for f, a, b in spec['EDITS']:
    p = os.path.join(r, f); s = open(p).read()
    if s.count(a) != 1: out(f'{f}: {s.count(a)} matches of {a!r}')
    open(p, 'w').write(s.replace(a, b))
diff = sh(f'git -C {r} diff').stdout
# the touched lines must be original lines
orig = {}
for f, a, b in spec['EDITS']:
    orig[f] = sh(f'git -C /repo show 69ee437:{f}').stdout
removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
alltext = '\n'.join(orig.values())
notorig = [l for l in removed if l.strip() and l not in alltext]
if notorig: out(f'not original lines: {notorig}')
os.makedirs(d, exist_ok=True)
open(f'{d}/patch.diff', 'w').write(diff)
if spec['DEMO'] is not None: open(f'{d}/demo.cpp', 'w').write(spec['DEMO'])
for f in spec.get('FILES', []): (shutil.copytree(f, f'{d}/{os.path.basename(f)}', dirs_exist_ok=True) if os.path.isdir(f) else shutil.copy(f, d))
open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
# run with cwd = repository root
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'cd /; rm -rf "$t"' EXIT
g++-9 -std=gnu++14 -msse4 -w -DNDEBUG {spec['FLAGS']} -I"$PWD" "$here/demo.cpp" {' '.join('"$PWD/'+s+'"' for s in spec['SOURCES'].split())} -pthread {spec['LIBS']} -o "$t/demo" || exit 3
cd "$t" && timeout {spec['TIMEOUT']} "$t/demo"
''')
os.chmod(f'{d}/demo.sh', 0o755)
json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
def demo(root):
    x = sh(f'bash {d}/demo.sh', cwd=root); return x.returncode, x.stdout[-400:]
a = demo('/repo')
if a[0] != 0: out(f'demo fails on unchanged tree: {a}')
b = demo(r)
if b[0] == 0: out(f'demo passes with the patch: {b}')
if b[0] == 3 and 'error' in b[1]: out(f'demo does not compile with the patch {b}')
# build and tests, in a copy
W = '/tmp/plantrepo'; sh(f'mkdir -p {W}; rm -rf /tmp/plantrepo/tree')
sh(f'cp -a {r} {W}/tree; git -C {W}/tree checkout -q -- .; rm -rf /tmp/plantrepo/tree/_build')
if os.path.exists(f'{W}/_build'): sh(f'mv {W}/_build {W}/tree/_build')
bs = open('/opt/vp/build.sh').read().replace('/repo', f'{W}/tree'); open(f'{W}/build.sh', 'w').write(bs)
ts = open('/opt/vp/test.sh').read().replace('/repo', f'{W}/tree').replace('/opt/vp/build.sh', f'{W}/build.sh'); open(f'{W}/test.sh', 'w').write(ts)
if sh(f'git -C {W}/tree apply --check {d}/patch.diff').returncode: out('does not apply')
sh(f'git -C {W}/tree apply {d}/patch.diff')
x = sh(f'bash {W}/build.sh')
if x.returncode: out('does not build: ' + x.stdout[-800:])
sh(f'bash {W}/test.sh {w}/o.json')
o = json.load(open(f'{w}/o.json'))
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
bad = [q for q in base if q not in o['passed']]
if bad: out(f'tests fail: {bad}')
sh(f'mv {W}/tree/_build {W}/_build; git -C {W}/tree checkout -q -- .')
caught = ''
if '--no-check' not in sys.argv:
    c = sh(f"MC_REPO={r} python3 {V}/tools/check.py {spec['PROP']} quick")
    caught = f"check exit {c.returncode}: " + ' | '.join(l for l in c.stdout.splitlines() if 'VIOLATION' in l)[:200] + c.stdout[-500 if c.returncode != 1 else 0:][:500]
print(spec['ID'], 'kept; demo exit with patch', b[0], b[1][-150:].strip(), '||', caught)
shutil.rmtree(w)
