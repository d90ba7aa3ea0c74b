"""Runs one contract: explores every path of the function and discharges its obligations."""
import time, traceback
from pyvc.engine import *
from pyvc import theory, loops
from contracts import base


def verify(c, root='/repo/src', unroll=None, budget=300, only=None, drop=()):
    t0 = time.time()
    res, problems, paths = {}, [], 0
    inl, summ = set(), set()
    lines = 0
    loopinfo = {}
    for name, run in c.variants():
        if only is not None and name not in only: continue
        loopstate, iface = {}, None
        for attempt in range(200):
            vm = VM(root, c.float_mode)
            vm.contracts = {q: x for q, x in base.REG.items() if q not in drop}
            vm.top, vm.unroll, vm.loopstate = c, unroll, loopstate
            vm.deadline = t0 + budget
            vm.variant = name
            try:
                vm.path = Path([])
                iface = base.interface(c, c.target(vm))          # load the modules once, outside any path
                if iface == 'changed': raise Unsupported('the interface of the internal helper changed')
            except (Unsupported, PyRaise) as e:
                problems.append({'variant': name, 'kind': 'unsupported', 'why': f'loading: {e if not isinstance(e, PyRaise) else e.exc}'})
                break
            try:
                vm.explore(lambda: run(vm))
            except Restart:
                continue
            except Unsupported as e:
                problems.append({'variant': name, 'kind': 'unsupported', 'why': str(e)})
            except BudgetExceeded as e:
                problems.append({'variant': name, 'kind': 'budget', 'why': str(e)})
            break
        else:
            problems.append({'variant': name, 'kind': 'unsupported', 'why': 'invariant search did not settle'})
        for why in sorted(vm.notes): problems.append({'variant': name, 'kind': 'unsupported', 'why': why})
        else_ok = not any(pb['variant'] == name for pb in problems)
        if else_ok and not vm.completed and not any(r['failed'] for r in vm.results.values()):
            problems.append({'variant': name, 'kind': 'vacuous', 'why': 'no path reaches the end of the contract'})
        paths += vm.npaths
        inl |= vm.inlined; summ |= vm.summarised; lines += vm.lines
        for k, st in loopstate.items():
            loopinfo[f'{k[0]}:{k[1]}'] = {'dropped': len(st['dead']), 'log': st['log'][-3:]}
        if getattr(vm, 'any_bound_hit', False): problems.append({'variant': name, 'kind': 'bound', 'why': f'unrolling bound {unroll}'})
        if iface == 'renamed' and any(r['failed'] for r in vm.results.values()):
            problems.append({'variant': name, 'kind': 'unsupported', 'why': 'the parameters of the internal helper were renamed and its contract no longer fits'})
            for r in vm.results.values(): r['failed'] = []
        for k, r in vm.results.items():
            x = res.setdefault(k, {'vcs': 0, 'proved': 0, 'failed': [], 'kind': r['kind'], 'backends': {}})
            x['vcs'] += r['vcs']; x['proved'] += r['proved']
            for f in r['failed']: f['variant'] = name
            x['failed'] += r['failed']
            for b, n in r['backends'].items(): x['backends'][b] = x['backends'].get(b, 0) + n
    return {'qual': c.qual, 'results': res, 'problems': problems, 'paths': paths, 'inlined': inl, 'summarised': summ,
            'time': time.time() - t0, 'lines': lines, 'loops': loopinfo}
