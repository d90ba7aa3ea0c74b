#!/usr/bin/env python3
"""Runs the check of each seeded change's property against a scratch copy of /repo with the change: tryseed.py [id ...]."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(H + '/seeded')):
    if sys.argv[1:] and not any(a.lower() in d for a in sys.argv[1:]): continue
    t = tempfile.mkdtemp(prefix='seed')
    shutil.copytree('/repo', t + '/r', ignore=shutil.ignore_patterns('.git'))
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', t + '/r', f'{H}/seeded/{d}/patch.diff'], check=True, cwd='/')
    prop = json.load(open(f'{H}/seeded/{d}/meta.json'))['property']
    p = subprocess.run(['python3-vt', H + '/run.py', prop, 'quick'], env=dict(os.environ, REPO_ROOT=t + '/r'), capture_output=True, text=True)
    lines = p.stdout.splitlines()
    vi = json.load(open(f'{H}/evidence/replay/{prop}.json')) if p.returncode == 1 else {}
    print(f'{d}: exit {p.returncode} | {vi.get("kind")} | obligations failed: {len(vi.get("failed_obligations", []))} | ' + (lines[-1] if lines else p.stderr[-200:])[:160], flush=True)
    for o in vi.get('failed_obligations', [])[:2]: print('      ', o['obligation'][:150])
    shutil.rmtree(t)
