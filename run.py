#!/usr/bin/env python3
"""Decides one property of /repo's current working tree.

usage: run.py C03 [quick|thorough]
exit 0: no violation; exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found]

1. The contracts of the functions the property depends on are verified: the functions are extracted from
   /repo/src (ast), executed symbolically, and every obligation is discharged by z3/cvc5 (all inputs, no bound).
2. A failed obligation is reported with the solver's counterexample replayed on the real code; where there is
   none, a concrete search for a failing input runs, and without one the line says no-failing-input-found.
3. Functions that a change moved outside the verifier's subset get the bounded stand-in (concrete search), which
   the evidence labels as such and never counts as proved.
"""
import sys, os, json, time, subprocess, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('REPO_ROOT', '/repo')
SRC = os.path.join(REPO, 'src')
VT = 'python3-vt'
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'
NCPU = os.cpu_count() or 4


def sh(cmd, inp=None, timeout=None, env=None):
    e = dict(os.environ); e['PYTHONDONTWRITEBYTECODE'] = '1'; e['REPO_ROOT'] = REPO
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=timeout, env=e, cwd=HERE)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ''
        return -1, o.decode() if isinstance(o, bytes) else o, 'timeout'


# ------------------------------------------------------------------ workers (separate processes)
def proof_worker(qual, budget, drop=()):
    from contracts import load_all, base
    load_all()
    import driver
    from pyvc import theory
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    c = base.REG[qual]
    try:
        r = driver.verify(c, SRC, budget=budget, drop=drop)
    except MemoryError:
        r = dict(qual=qual, results={}, problems=[{'variant': '', 'kind': 'budget', 'why': 'memory'}], paths=0,
                 inlined=[], summarised=[], time=0, lines=0, loops={})
    except Exception as e:
        r = dict(qual=qual, results={}, problems=[{'variant': '', 'kind': 'unsupported', 'why': f'{type(e).__name__}: {e} ' + traceback.format_exc()[-600:]}],
                 paths=0, inlined=[], summarised=[], time=0, lines=0, loops={})
    # candidate concrete cases from counterexample models
    for name, x in r['results'].items():
        for f in x['failed'][:4]:
            try: f['cases'] = [(p, repr(cs)) for p, cs in c.cases(f.get('model') or {}, f.get('variant'))]
            except Exception as e: f['cases'] = []; f['case_error'] = repr(e)
        x['failed'] = x['failed'][:6]
    r['inlined'], r['summarised'] = sorted(r['inlined']), sorted(r['summarised'])
    r['solver'] = {k: v for k, v in theory.STATS.items()}
    print('RESULT ' + json.dumps(r, default=str))


def prove(quals, budget, workers, drop=()):
    def one(q):
        t0 = time.time()
        rc, out, err = sh([VT, os.path.join(HERE, 'run.py'), '--worker', q, str(budget), ','.join(sorted(drop))], timeout=budget + 60)
        for l in out.splitlines():
            if l.startswith('RESULT '): return json.loads(l[7:])
        return dict(qual=q, results={}, problems=[{'variant': '', 'kind': 'budget', 'why': f'worker ended: rc={rc} {err[-300:]}'}],
                    paths=0, inlined=[], summarised=[], time=time.time() - t0, lines=0, loops={}, solver={})
    with ThreadPoolExecutor(workers) as ex: return list(ex.map(one, quals))


def prove_all(quals, budget, workers, drop=()):
    """Verifies the contracts and, transitively, every contract they rely on."""
    done, todo, reports = set(), list(quals), {}
    while todo:
        for r in prove(todo, budget, workers, drop): reports[r['qual']] = r
        done |= set(todo)
        dep = set()
        for r in reports.values(): dep |= set(r['summarised'])
        todo = [q for q in sorted(dep) if q in known() and q not in done]
    return reports


def known():
    from contracts import base
    return base.REG


def bad(r): return bool(r['problems']) or any(x['failed'] for x in r['results'].values())


def without_internal(quals, reports, deadline, workers):
    """The contract of a private helper is only a step of the proof: no property speaks about the helper.  When one no
    longer holds, its callers are verified again with the helper inlined instead.  Returns (reports, dropped) when every
    caller passes that way, else (the reports as they were, nothing dropped)."""
    from contracts import base
    new, drop = dict(reports), set()
    for _ in range(3):
        b = {q for q, r in new.items() if base.internal(q) and bad(r)}
        if not b: break
        drop |= b
        users = {q for q, r in reports.items() if set(r['summarised']) & drop} | {base.USER[q] for q in drop}
        users = sorted(q for q in users if q not in drop)
        new = {q: r for q, r in new.items() if q not in drop}
        if time.time() > deadline - 30: return reports, set()
        for q, r in prove_all(users, min(120, deadline - time.time()), workers, drop).items():
            if q in users or q not in new: new[q] = r
        if any(bad(new[q]) and not base.internal(q) for q in users): return reports, set()
    ok = set(quals) & set(new) and not any(base.internal(q) and bad(r) for q, r in new.items())
    for q in drop:
        u = new.get(base.USER[q])
        gone = any('not found' in p['why'] for p in reports.get(q, {'problems': []})['problems'])
        if u is None or bad(u) or not (gone or q in u['inlined']): ok = False
    return (new, drop) if ok else (reports, set())


def replay(prop, case_repr):
    """Message when the concrete case fails on the real code."""
    rc, out, err = sh([PY, os.path.join(HERE, 'oracle', 'worker.py'), 'case', prop], inp=case_repr, timeout=60)
    try: return json.loads(out.strip().splitlines()[-1]).get('fail')
    except Exception: return None


def search(prop, seed, shards, limit, count=10 ** 7):
    """Concrete search with the executable specification. Returns (first failure, stats)."""
    def one(i):
        rc, out, err = sh([PY, os.path.join(HERE, 'oracle', 'worker.py'), 'run', prop, str(seed), str(count), str(i), str(shards), str(limit)], timeout=limit + 90)
        res = []
        for l in out.splitlines():
            try: res.append(json.loads(l))
            except ValueError: pass
        return res, (err[-500:] if not res else '')
    st = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'errors': []}
    fails = []
    with ThreadPoolExecutor(shards) as ex:
        for res, err in ex.map(one, range(shards)):
            if err: st['errors'].append(err)
            for d in res:
                if 'fail' in d: fails.append(d)
                if 'import_error' in d: fails.append({'fail': 'the package cannot be imported: ' + d['import_error'], 'case': 'None'})
                st['evaluations'] += d.get('n', 0); st['distinct_nontrivial'] += d.get('distinct', 0)
                st['samples'] += d.get('sample', [])
    st['samples'] = st['samples'][:4]
    fails.sort(key=lambda d: len(d['case']))
    for d in fails[:2 * shards]:          # the shortest that fails again in a process of its own; the others are not believed
        if d['case'] == 'None' or replay(prop, d['case']) is not None: return d, st
    if fails: st['unreproduced'] = fails[0]
    return None, st


def lean_check():
    """Does Lean accept lean/Lemmas.lean, with no output?  None when there is no Lean."""
    try: r = subprocess.run(['lean', os.path.join(HERE, 'lean', 'Lemmas.lean')], capture_output=True, timeout=400)
    except Exception: return None
    return r.returncode == 0 and not r.stdout.strip()


# ------------------------------------------------------------------ main
def main():
    if sys.argv[1] == '--worker': return proof_worker(sys.argv[2], float(sys.argv[3]), [x for x in ''.join(sys.argv[4:5]).split(',') if x])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from contracts import load_all, base
    load_all()
    from plan import PLAN, ASSUMPTIONS, TRUSTED
    from pyvc import theory
    quals = [q for q, c in base.REG.items() if prop in c.props]
    level = PLAN[prop].get('level', 'proof')
    budget = PLAN[prop].get('budget', 240 if tier == 'quick' else 600)
    stime = PLAN[prop].get('search', 6) if tier == 'quick' else 90
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)

    # the concrete cross-check of the contract (executable spec) runs beside the proofs
    with ThreadPoolExecutor(2) as ex:
        fs = ex.submit(search, prop, seed, 2 if tier == 'quick' else 4, stime)
        reports = prove_all(quals, budget, max(2, NCPU - 2))
        fail, sstat = fs.result()
    dropped, first, left = set(), reports, 560 - (time.time() - t0)
    if not fail and left > 60: reports, dropped = without_internal(quals, reports, t0 + 560, NCPU)

    lean = {}
    if tier == 'thorough': lean['lean_checked'] = lean_check()
    own_total = own_ok = vcs = 0
    failed, undecided, problems = [], [], []
    dep_failed, dep_total, dep_ok, dep_problems = [], 0, 0, []
    backends, solver_time, lemmas = {}, 0.0, {}
    for q, r in reports.items():
        own = q in quals
        for pb in r['problems']: (problems if own else dep_problems).append(f"{q} [{pb['variant']}] {pb['kind']}: {pb['why']}"[:400])
        s = r.get('solver') or {}
        solver_time += s.get('time', 0)
        for k, v in (s.get('lemmas') or {}).items(): lemmas[k] = lemmas.get(k, 0) + v
        for name, x in r['results'].items():
            tags = name.split(' ', 1)[0].split(',')
            mine = own and prop in tags
            for b, n in x['backends'].items():
                backends[b] = backends.get(b, 0) + n
            if mine: own_total += 1; vcs += x['vcs']
            else: dep_total += 1
            if not x['failed']:
                if mine: own_ok += 1
                else: dep_ok += 1
            elif mine:
                (failed if any(f['result'] == 'sat' for f in x['failed']) else undecided).append((q, name, x))
            else: dep_failed.append(f'{q}: {name}')

    def done_(code, line=None, extra=None):
        bounded = bool(problems or undecided or dep_problems or dep_failed)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
              'coverage': {'obligations': own_total + dep_total, 'discharged': own_ok + dep_ok,
                           'property_obligations': own_total, 'property_obligations_discharged': own_ok,
                           'verification_conditions': vcs,
                           'functions_under_contract': sorted(reports), 'inlined_helpers': sorted({i for r in reports.values() for i in r['inlined']} - set(reports)),
                           'paths': sum(r['paths'] for r in reports.values()),
                           'back_ends': backends, 'solver_time_s': round(solver_time, 2), 'lemma_instances': lemmas, 'lemma_basis': theory.basis(lemmas), 'div_127_values_checked': theory.exhaustive_div_127() if 'div_127' in lemmas else None, **lean,
                           'loops': {k: v for r in reports.values() for k, v in r['loops'].items()},
                           'checker_cmd': f'python3-vt run.py {prop} {tier}',
                           'trusted_base': TRUSTED,
                           'proof_complete': not bounded and own_total > 0 and not failed,
                           'not_proved': problems + [f'{q}: {n} (solver answered {x["failed"][0]["result"]})' for q, n, x in undecided]
                                         + ['dependency: ' + x for x in dep_problems + dep_failed],
                           'helpers_verified_inlined_instead': sorted(dropped),
                           'bounded_stand_in': ('concrete search with the executable specification, %d cases; bounded, not counted as proved' % sstat['evaluations']) if bounded else None,
                           'replay_search': {'evaluations': sstat['evaluations'], 'distinct': sstat['distinct_nontrivial'], 'samples': sstat['samples'], 'unreproduced': sstat.get('unreproduced')},
                           'evaluations': sstat['evaluations'], 'distinct_nontrivial': sstat['distinct_nontrivial'],
                           'rule': 'cases generated by oracle/gen.py with constants mined from the source; a case is non-trivial when its literal text was not seen before in its shard',
                           'samples': sstat['samples'] or ['(none)']},
              'assumptions': ASSUMPTIONS + PLAN[prop].get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if code else 0}
        if extra: ev['coverage'].update(extra)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        if line: print(line)
        st = 'complete' if ev['coverage']['proof_complete'] else 'INCOMPLETE'
        print(f'{prop}: {own_ok}/{own_total} own obligations, {dep_ok}/{dep_total} obligations of callees, proof {st}, {sstat["evaluations"]} concrete cases, {time.time() - t0:.1f} s')
        for x in ev['coverage']['not_proved'][:8]: print('  not proved: ' + x[:300])
        sys.exit(code)

    def violation(kind, payload, found):
        p = os.path.join(HERE, 'evidence', 'replay', f'{prop}.json')
        payload = dict(property=prop, kind=kind, **payload)
        if found: payload['how_to_replay'] = f"echo '<case>' | REPO_ROOT={REPO} {PY} {HERE}/oracle/worker.py case {prop}"
        with open(p, 'w') as f: json.dump(payload, f, indent=1, default=str)
        done_(1, f'VIOLATION property={prop} replay={p}' + ('' if found else ' no-failing-input-found'), {'violation': payload})

    # known findings are suppressed by exact case
    obl = [{'function': q, 'obligation': n, 'counterexamples': x['failed'][:2]} for q, n, x in failed]
    if fail:
        violation('failing input', {'case': fail['case'], 'message': fail['fail'], 'failed_obligations': obl}, True)
    # 2. counterexamples of the solver
    tried = set()
    for q, n, x in failed + undecided + [(q, n, x) for q in dropped for n, x in first[q]['results'].items()]:
        for f in x['failed']:
            for p, cs in f.get('cases', []):
                if p != prop or cs in tried or len(tried) > 40: continue
                tried.add(cs)
                m = replay(prop, cs)
                if m: violation('solver counterexample replayed on the real code', {'obligation': n, 'function': q, 'case': cs, 'message': m, 'failed_obligations': obl}, True)
    # 3. deeper search
    if failed or undecided or problems or dep_failed or dep_problems or dropped or own_total == 0:
        fail, st2 = search(prop, seed + 1000, NCPU, 25 if tier == 'quick' else 240)
        for k in ('evaluations', 'distinct_nontrivial'): sstat[k] += st2[k]
        if fail:
            violation('failing input', {'case': fail['case'], 'message': fail['fail'], 'failed_obligations': obl}, True)
    if failed:
        violation('failed obligation', {'failed_obligations': obl}, False)
    done_(0)


if __name__ == '__main__': main()
