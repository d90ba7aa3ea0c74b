#!/usr/bin/env python3
"""A mutation campaign (never run by a check): small syntactic changes of the library that its tests do not notice, each
handed to the checks of the properties anchored in that file.  usage: mutate.py FILE-SUBSTR [SEED [MAX]]   env J = parallel jobs"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {'signature.py': ['C01', 'C02', 'C03', 'C24'], 'tone.py': ['C04', 'C05', 'C06', 'C07', 'C24'], 'note.py': ['C08', 'C09', 'C10', 'C24'],
          'core/track.py': ['C11', 'C12', 'C13', 'C14', 'C24'], 'midi.py': ['C15', 'C16', 'C17', 'C19', 'C20', 'C18', 'C21'],
          'chord.py': ['C22'], 'processing/track.py': ['C23']}
OPS = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE, ast.LtE], ast.NotEq: [ast.Eq, ast.Lt, ast.Gt],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub, ast.BitOr], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Div, ast.Mod], ast.Div: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitXor, ast.Add],
       ast.LShift: [ast.RShift, ast.Mult], ast.RShift: [ast.LShift], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in [n.returns] + [x.annotation for x in n.args.args]:
                if a is not None: skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.AnnAssign): skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.Raise): skip |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): skip |= {id(n), id(n.value)}
    def emit(i, f):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        f(n)
        ast.fix_missing_locations(t)
        try: return ast.unparse(t)
        except Exception: return None
    for i, n in enumerate(nodes):
        if id(n) in skip: continue
        line = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                for new in OPS.get(type(o), []): yield line, f'{type(o).__name__}->{new.__name__}', emit(i, lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []): yield line, f'{type(n.op).__name__}->{new.__name__}', emit(i, lambda m, new=new: setattr(m, 'op', new()))
            yield line, 'left only', emit(i, lambda m: (setattr(m, 'op', ast.Add()), setattr(m, 'right', ast.Constant(0)))) if isinstance(n.op, (ast.Add, ast.Sub)) else None
        elif isinstance(n, ast.AugAssign):
            for new in BIN.get(type(n.op), []): yield line, f'aug {type(n.op).__name__}->{new.__name__}', emit(i, lambda m, new=new: setattr(m, 'op', new()))
        elif isinstance(n, ast.BoolOp):
            yield line, 'bool', emit(i, lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)): yield line, f'drop operand {k}', emit(i, lambda m, k=k: m.values.pop(k))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            for d in (1, -1): yield line, f'{n.value}->{n.value + d}', emit(i, lambda m, d=d: setattr(m, 'value', m.value + d))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): yield line, 'flip', emit(i, lambda m: setattr(m, 'value', not m.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, float): yield line, 'float', emit(i, lambda m: setattr(m, 'value', m.value * 1.0001 + 1e-9))
        elif isinstance(n, ast.If):
            yield line, 'if True', emit(i, lambda m: setattr(m, 'test', ast.Constant(True)))
            yield line, 'if False', emit(i, lambda m: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            def f(m):
                m.__class__ = ast.Pass
                m._fields = ()
            yield line, 'delete statement', emit(i, f)
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name): pass
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('max', 'min', 'int', 'abs') and n.args:
            def g(m): m.__dict__.update(copy.deepcopy(m.args[-1]).__dict__) if False else None
            if n.func.id in ('max', 'min'): yield line, 'max/min', emit(i, lambda m: setattr(m.func, 'id', 'min' if m.func.id == 'max' else 'max'))
            else: yield line, n.func.id + '->round', emit(i, lambda m: setattr(m.func, 'id', 'round'))


def run(job):
    rel, line, what, text = job
    t = tempfile.mkdtemp(prefix='mutant')
    try:
        r = t + '/r'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '__pycache__', '.pytest_cache'))
        open(os.path.join(r, rel), 'w').write(text)
        env = dict(os.environ, PYTHONPATH=r + '/src', PYTHONDONTWRITEBYTECODE='1')
        try: x = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=r, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired: return rel, line, what, 'killed by tests', ''
        if x.returncode: return rel, line, what, 'killed by tests', ''
        w = t + '/v'                                  # a copy of the machinery: evidence files are per run
        shutil.copytree(H, w, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        os.makedirs(w + '/evidence', exist_ok=True)
        cs = next(v for k, v in CHECKS.items() if rel.endswith(k))
        notes = []
        for c in cs:
            p = subprocess.run(['python3-vt', w + '/run.py', c, 'quick'], env=dict(os.environ, REPO_ROOT=r), capture_output=True, text=True)
            if p.returncode == 1:
                k = 'no failing input' if 'no-failing-input-found' in p.stdout else 'input'
                return rel, line, what, f'caught by {c} ({k})', ''
            notes.append(f'{c}:{p.returncode}:' + ('complete' if 'proof complete' in p.stdout else 'INCOMPLETE'))
        old = ast.unparse(ast.parse(open(os.path.join('/repo', rel)).read())).split('\n')
        import difflib
        d = [l for l in difflib.unified_diff(old, text.split('\n'), lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
        return rel, line, what, 'NOT CAUGHT ' + ' '.join(notes), ' || '.join(d)[:300]
    finally: shutil.rmtree(t)


def main():
    rels = [os.path.relpath(os.path.join(d, f), '/repo') for d, _, fs in os.walk('/repo/src') for f in fs if f.endswith('.py')]
    rels = [r for r in rels if any(r.endswith(k) for k in CHECKS) and sys.argv[1] in r]
    jobs = [(r, l, w, t) for r in rels for l, w, t in mutants(open('/repo/' + r).read()) if t]
    rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    rnd.shuffle(jobs)
    if len(sys.argv) > 3: jobs = jobs[:int(sys.argv[3])]
    print(len(jobs), 'mutants', flush=True)
    from collections import Counter
    c = Counter()
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for rel, line, what, res, d in ex.map(run, jobs):
            c[res.split(' (')[0].split(' C')[0] if res.startswith('NOT') else res] += 1
            if res != 'killed by tests': print(f'{rel}:{line} {what}: {res} {d}', flush=True)
    print(dict(c))


if __name__ == '__main__': main()
