#!/usr/bin/env python3
"""Makes and verifies one planted bug:  seed.py DEFINITION.py
The definition sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (C++ source), optionally FLAGS.
Works in a scratch copy of /repo; writes /verif/seeded/ID if everything is as it has to be."""
import json, os, re, shutil, subprocess, sys
OUT = '/verif/seeded'
d = {}
exec(open(sys.argv[1]).read(), d)
name = d['ID']
w = '/tmp/seed.' + name
shutil.rmtree(w, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', w], check=True)
shutil.rmtree(w + '/_build', ignore_errors=True)
for f, old, new in d['EDITS']:
    p = os.path.join(w, f)
    s = open(p, newline='').read()
    if '\r\n' in s:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    if s.count(old) != 1:
        sys.exit('%s: %d matches in %s' % (name, s.count(old), f))
    open(p, 'w', newline='').write(s.replace(old, new))
patch = subprocess.run(['git', '-C', w, 'diff', '--', 'iir', 'Iir.h'], capture_output=True).stdout
o = os.path.join(OUT, name)
os.makedirs(o, exist_ok=True)
open(o + '/patch.diff', 'wb').write(patch)
open(o + '/demo.cpp', 'w').write(d['DEMO'])
open(o + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as stated, 1: does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w %s -I. -Iiir "$here/demo.cpp" iir/*.cpp -o "$tmp/demo" -lpthread || exit 2
cd "$tmp" && timeout 120 ./demo > out.txt 2>&1
rc=$?
head -c 2000 out.txt
[ $rc = 0 ] || exit 1
''' % d.get('FLAGS', ''))
os.chmod(o + '/demo.sh', 0o755)
json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)
def sh(c, cwd): 
    r = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
# builds and passes the tests?
build = open('/opt/vp/build.sh').read().replace('/repo', w)
rc, t = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DIIR1_BUILD_TESTING=ON -DIIR1_BUILD_DEMO=ON && cmake --build _build --parallel 8 && ctest --test-dir _build -j8 --timeout 300', w)
bad = []
if rc: bad.append('build or tests: ' + t)
rc, t = sh(o + '/demo.sh', '/repo')
if rc: bad.append('demo fails on the unchanged tree: %d %s' % (rc, t))
rc, t = sh(o + '/demo.sh', w)
if rc != 1: bad.append('demo does not fail with the patch: %d %s' % (rc, t))
else: print('   demo says:', t.strip().splitlines()[-1:] )
rc, t = sh('git -C /repo apply --check ' + o + '/patch.diff', '/')
if rc: bad.append('patch does not apply: ' + t)
print(name, 'OK' if not bad else 'BAD\n  ' + '\n  '.join(bad))
if '--keep' not in sys.argv: shutil.rmtree(w + '/_build', ignore_errors=True)
