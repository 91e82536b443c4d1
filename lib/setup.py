"""Checks that the tools are there and that every module of the specification parses."""
import os, sys, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
d = tempfile.mkdtemp()
vk.classes(d)
bad = 0
for m in sorted(os.listdir(vk.SPEC)):
    if m.endswith('.tla'):
        r = vk.run(['java', '-cp', vk.JARS + ':' + d + '/classes', '-DTLA-Library=' + vk.SPEC, 'tla2sany.SANY', vk.SPEC + '/' + m], cwd=vk.SPEC)
        if r.returncode:
            bad = 1
            print(m, r.stdout[-2000:])
shutil.rmtree(d)
sys.exit(bad)
