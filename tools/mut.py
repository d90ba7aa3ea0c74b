#!/usr/bin/env python3
"""mut.py FILE OLD NEW [qual...]: applies a textual change to a scratch copy and runs the contracts on it."""
import sys, os, shutil, subprocess, tempfile
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/src', d + '/src')
    p = os.path.join(d, 'src/melodia', f)
    s = open(p).read()
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    assert s.count(old) >= 1, 'text not found'
    open(p, 'w').write(s.replace(old, new, 1))
    r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'run_dbg.py')] + sys.argv[4:], env=dict(os.environ, REPO_ROOT=d), capture_output=True, text=True)
    for l in r.stdout.splitlines():
        if not l.startswith('ok'): print(l[:int(os.environ.get('W', 260))] if l.startswith('FAIL') else l.split(' inlined')[0] + '  ' + l[l.rfind(' ['):][:400])
    print(r.stderr[-800:])
finally: shutil.rmtree(d)
