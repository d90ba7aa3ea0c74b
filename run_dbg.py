import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import time, importlib
from pyvc.engine import *
from pyvc import theory
from contracts import base
from contracts import load_all
load_all()
import os
def run(c, root=os.environ.get('REPO_ROOT','/repo')+'/src'):
    t=time.time(); tot={}
    from driver import verify
    r=verify(c, root, drop=os.environ.get('DROP','').split(','))
    for k,x in r['results'].items():
        print(('ok  ' if not x['failed'] else 'FAIL'), k, x['vcs'], x['backends'], [ (f['result'],f['model'],f['goal'][:200]) for f in x['failed'][:2]])
    print(c.qual, 'paths', r['paths'], 'time %.2f'%(time.time()-t), 'inlined', sorted(r['inlined']), 'summ', sorted(r['summarised']), r['problems'])
for q,c in base.REG.items():
    if len(sys.argv)<2 or any(a in q for a in sys.argv[1:]): run(c)
