"""Runs concrete checks in a resource-limited process.

usage: worker.py run PROP SEED COUNT SHARD NSHARDS TIMELIMIT   -> JSON lines on stdout
       worker.py case PROP  < repr(case)                         -> JSON line
"""
import sys, os, json, time, signal, random, resource, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ROOT = os.environ.get('REPO_ROOT', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'src'))
sys.dont_write_bytecode = True
from oracle import props, gen

inf, nan = float('inf'), float('nan')


class TimeUp(BaseException): pass
def _alarm(*a): raise TimeUp()


def isolated(prop, case_repr):
    """Does the case pass in a process of its own?"""
    import subprocess
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), 'case', prop], input=case_repr, capture_output=True, text=True, timeout=60, env=dict(os.environ, ORACLE_NESTED='1'))
        return json.loads(r.stdout.strip().splitlines()[-1]).get('fail') is None
    except Exception: return True


def with_history(prop, history, last):
    """A shorter sequence of cases, run one after another in one process, whose last one fails; None when there is none."""
    t1 = time.time()
    if not isolated(prop, last): return last
    seq = lambda cs: "('__seq__', [" + ', '.join(cs + [last]) + '])'
    for k in (1, 3, 10, 40, 200, 1000, len(history)):
        cs = history[-k:]
        if time.time() - t1 > 45: return None
        if isolated(prop, seq(cs)): continue
        step, t0 = max(1, len(cs) // 2), time.time()
        while step >= 1 and time.time() - t0 < 20:          # leave out what is not needed
            i = 0
            while i < len(cs) and time.time() - t0 < 20:
                less = cs[:i] + cs[i + step:]
                if less != cs and not isolated(prop, seq(less)): cs = less
                else: i += step
            step = step // 2
        return seq(cs)
    return None


def run_case(fn, case, limit):
    """None when the check holds, else a message."""
    if type(case) is tuple and len(case) == 2 and type(case[0]) is str and case[0] == '__seq__':
        for c in case[1][:-1]: run_case(fn, c, limit)
        return run_case(fn, case[1][-1], limit)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(case)
        return None
    except props.Fail as e: return str(e)[:2000]
    except TimeUp: return f'no result within {limit} s'
    except MemoryError: return 'MemoryError'
    except RecursionError: return 'RecursionError'
    except Exception as e:
        return f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    if sys.argv[1] == 'case':
        prop = sys.argv[2]
        case = eval(sys.stdin.read(), {'inf': inf, 'nan': nan, '__builtins__': {}})
        r = run_case(getattr(props, 'check_' + prop), case, 30)
        print(json.dumps({'fail': r})); return
    _, _, prop, seed, count, shard, nsh, tl = sys.argv[:8]
    seed, count, shard, nsh, tl = int(seed), int(count), int(shard), int(nsh), float(tl)
    t0 = time.time()
    try: props.L()
    except Exception as e:
        print(json.dumps({'n': 0, 'import_error': f'{type(e).__name__}: {e}'})); return
    rng = random.Random(f'{prop}-{seed}-{shard}')
    g = gen.G(rng, gen.Consts(os.path.join(ROOT, 'src')))
    fn = getattr(props, 'check_' + prop)
    n, seen, sample, hist = 0, set(), [], []
    for i, case in enumerate(getattr(props, 'cases_' + prop)(g, count // nsh)):
        if time.time() - t0 > tl: break
        rc = repr(case)
        h = hash(rc)
        if h in seen: continue
        seen.add(h)
        if nsh > 1 and i < 1500 and prop in props.ENUM and h % nsh != shard and i < props.ENUM[prop]: pass
        n += 1
        if len(sample) < 3 and rng.random() < .02: sample.append(rc[:300])
        bad = run_case(fn, case, 20)
        if bad:
            print(json.dumps({'fail': bad, 'case': rc})); sys.stdout.flush()
            h = with_history(prop, hist, rc)          # a failure that needs the cases before it
            if h not in (None, rc): print(json.dumps({'fail': bad, 'case': h})); sys.stdout.flush()
            break
        hist.append(rc)
        if len(hist) > 6000: del hist[:3000]
    print(json.dumps({'n': n, 'distinct': len(seen), 'sample': sample, 't': time.time() - t0}))


props.ENUM = {}
if __name__ == '__main__': main()
