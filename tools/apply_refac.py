"""Applies one edit of the refactoring battery to a scratch copy: apply_refac.py NAME DIR."""
import sys, os, shutil
ns = {'__file__': __file__}
exec(open(__file__.replace('apply_refac', 'refac')).read().split('def one(name)')[0], ns)
name, d = sys.argv[1:]
shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree('/repo/src', d + '/src')
f, pairs = ns['R'][name]
p = next(q for q in (d + '/' + f, d + '/src/melodia/' + f, d + '/src/' + f, f) if os.path.exists(q))
t = open(p).read()
for a, b in pairs:
    assert a in t; t = t.replace(a, b)
open(p, 'w').write(t)
