#!/usr/bin/env python3
"""Cross-check of the verification-condition generator against CPython.

Every snippet below is a function over integers (and floats).  It runs in CPython on concrete inputs; then the engine runs
it on *symbolic* inputs constrained to those values.  Sound: what CPython did (value or exception) must be among the
outcomes the engine admits.  Precise: the engine also excludes everything else.  A snippet may be outside the subset
("unsupported"), never unsound.   usage: python3-vt tools/crosscheck.py [snippet...]
"""
import sys, os, ast, types, tempfile, shutil, struct, random, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc.engine import *
from pyvc.values import *
from pyvc import theory, stdlib, loops
from tools.snippets import SNIPPETS

INTS = [0, 1, -1, 2, 3, -3, 5, 7, 8, -8, 12, 60, 127, 128, 255, 256, -129, 1000, 2 ** 31, -2 ** 40]
FLTS = [0.0, -0.0, 1.0, 0.5, 0.1, -2.5, 1e300, float('inf'), float('nan'), 127.0]


def lit(x): return z3.FPVal(x, FP) if x == x else z3.fpNaN(FP)


def eqf(vm, s, p):
    """Formula (or bool) saying that the symbolic value s is the Python value p (types included)."""
    if isinstance(p, bool):
        if isinstance(s, SBool): return s.t == p
        return s is p
    if isinstance(p, int):
        if isinstance(s, (SBool, bool)): return False
        return vm.T(s) == p if isinstance(s, (int, SInt)) else False
    if isinstance(p, float):
        if isinstance(s, float): return struct.pack('d', s) == struct.pack('d', p) or (s != s and p != p)
        return s.t == lit(p) if isinstance(s, SFloat) else False
    if isinstance(p, (str, type(None))):
        if isinstance(s, str) or s is None: return s == p
        if p is None: return False
        k, b = 'ok', vm.cmp('Eq', s, p)
        return b.t if isinstance(b, SBool) else bool(b)
    if isinstance(p, (bytes, bytearray)):
        if isinstance(s, MBytes) != isinstance(p, bytearray): return False
        if not isinstance(s, (bytes, SBytes, MBytes)): return False
        ps = stdlib._norm(vm, SBytes([s]).parts)
        if all(isinstance(x, (int, SInt)) for x in ps):
            return z3.And([vm.T(x) == y for x, y in zip(ps, bytes(p))]) if len(ps) == len(p) and ps else len(ps) == len(p)
        return None
    if isinstance(p, (tuple, list)):
        items = s if isinstance(s, tuple) else None
        if isinstance(p, list):
            segs = stdlib.seq_segs(vm, s) if not isinstance(s, (tuple, str, bytes)) else None
            if segs is None or any(k != 'item' for k, _ in segs): return None if segs else False
            items = [x for _, x in segs]
        if items is None: return False
        if len(items) != len(p): return False
        fs = [eqf(vm, a, b) for a, b in zip(items, p)]
        if any(f is False for f in fs): return False
        if any(f is None for f in fs): return None
        return z3.And([f for f in fs if f is not True] or [z3.BoolVal(True)])
    if isinstance(p, dict):
        if not isinstance(s, PyDict): return False
        it = vm.call(vm.getattr(s, 'items'), [], {})
        segs = stdlib.seq_segs(vm, it)
        if segs is None or any(k != 'item' for k, _ in segs): return None
        return eqf(vm, SymList(list(segs)), [tuple(x) for x in p.items()])
    return None


def real(src, name, args):
    import copy
    ns = {}
    exec(compile(src, name, 'exec'), ns)
    try: return 'ret', ns['f'](*args)
    except Exception as e: return 'exc', type(e).__name__


def check(name, src, args, root):
    f0 = ast.parse(src)
    exp = real(src, name, args)
    seen = {'sound': False, 'precise': True, 'n': 0, 'why': []}
    vm = VM(root, 'fp')
    vm.deadline = None
    vm.contracts = {}
    try: vm.load(name)
    except Unsupported as e: return 'unsupported', str(e)
    def go():
        f = vm.load(name).ns['f']
        sy = []
        for i, a in enumerate(args):
            if isinstance(a, float):
                s = vm.sym_float(f'a{i}'); vm.assume(s.t == lit(a))
            else:
                s = vm.sym_int(f'a{i}'); vm.assume(s.t == a)
            sy.append(s)
        try: out = ('ret', vm.call(f, sy, {}))
        except PyRaise as e: out = ('exc', e.exc)
        if theory.check(vm.path.pc)[0] == 'unsat': return
        seen['n'] += 1
        if out[0] != exp[0]: seen['precise'] = False; seen['why'].append(f'{out[0]} {getattr(out[1], "cls", out[1])}'[:150]); return
        if exp[0] == 'exc':
            c = out[1].cls
            nm = c.__name__ if isinstance(c, type) else c.name
            if nm == exp[1]: seen['sound'] = True
            else: seen['precise'] = False; seen['why'].append(nm)
            return
        g = eqf(vm, out[1], exp[1])
        if g is None: seen['sound'] = True; seen['precise'] = False; seen['why'].append('not comparable'); return
        if g is True: seen['sound'] = True; return
        if g is False: seen['precise'] = False; seen['why'].append(repr(out[1])[:150]); return
        if theory.check(vm.path.pc + [g])[0] != 'unsat': seen['sound'] = True
        else: seen['why'].append(str(z3.simplify(vm.T(out[1])) if vm.isint(out[1]) else out[1])[:150])
        if theory.check(vm.path.pc + [z3.Not(g)])[0] != 'unsat': seen['precise'] = False
    try: vm.explore(go)
    except (Unsupported, BudgetExceeded) as e: return 'unsupported', str(e)
    except Restart: return 'unsupported', 'loop rule'
    if not seen['sound']: return 'UNSOUND', f'CPython {exp!r:.150}, engine {seen["why"]} ({seen["n"]} paths)'
    return ('ok' if seen['precise'] else 'imprecise'), '; '.join(seen['why'])[:150]


def main():
    from concurrent.futures import ProcessPoolExecutor
    names = [n for n in SNIPPETS if not sys.argv[1:] or any(a in n for a in sys.argv[1:])]
    tot = {}
    with ProcessPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for name, res in zip(names, ex.map(one, names)):
            for k in {r[0] for r in res}: tot[k] = tot.get(k, 0) + 1
            bad = [r for r in res if r[0] not in ('ok',)]
            for kind in ('UNSOUND', 'CRASH', 'unsupported', 'imprecise'):
                b = [r for r in bad if r[0] == kind]
                if b: print(kind, name, f'{len(b)}/{len(res)}', b[0][1], b[0][2][:250], flush=True)
    print({k: v for k, v in tot.items()}, len(names), 'snippets')


def one(name):
    src, kinds = SNIPPETS[name]
    root = tempfile.mkdtemp(prefix='xchk')
    try:
        with open(os.path.join(root, f'{name}.py'), 'w') as f: f.write(src)
        rnd = random.Random(name)
        pools = [INTS if k == 'i' else FLTS if k == 'f' else [x for x in INTS if 0 <= x <= 256] for k in kinds]
        combos = list(itertools.product(*pools))
        rnd.shuffle(combos)
        out = []
        for args in combos[:int(os.environ.get('N', '12'))]:
            try: r = check(name, src, args, root)
            except RecursionError: raise
            except Exception as e:
                import traceback
                r = ('CRASH', traceback.format_exc()[-300:])
            out.append((r[0], args, r[1]))
        return out
    finally: shutil.rmtree(root)


if __name__ == '__main__': main()
