"""Ground instances of mathematical lemmas about the uninterpreted functions, and the solver portfolio.

Every lemma used here is listed in LEMMAS with its Lean statement's name (lean/Lemmas.lean proves them);
nothing about the code under verification is assumed here.
"""
import time, itertools, hashlib
import z3
from .values import *

STATS = {'queries': 0, 'z3': 0, 'cvc5': 0, 'time': 0.0, 'lemmas': {}}

_INTEREST = {'isp2', 'band', 'pow2f', 'bitlen', 'fmul', 'fdiv', 'powr', 'fdivii', 'PRE', 'LEB', 'f2i', 'pls', 'V'}
_MATH = _INTEREST | {'i2f', 'fadd', 'fsub', 'fpow', 'fdivii', 'nilB', 'consB', 'BEB'}
DEFS = {}        # name -> fn(application) giving [(lemma name, formula)]: unfolding of recursive spec functions
_KINDS = {z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_MUL}
_app_cache = {}
_unsat = {}


def _badd(e):
    b, k = e.arg(0), e.arg(1)
    out = [('bag_size', z3.And(bsize(e) == bsize(b) + 1, bsize(b) >= 0, bmax(b) >= 0))]
    if k.decl().name() == 'K':
        end = k.arg(0) + V(k.arg(2), k.arg(3))
        out.append(('bag_max', bmax(e) == z3.If(end > bmax(b), end, bmax(b))))
    return out
DEFS['badd'] = _badd


def _bmax(e):
    return [('bag_empty', z3.And(z3.Implies(e.arg(0) == bempty, e == 0), e >= 0))]
DEFS['bmax'] = _bmax
def _bsize(e):
    return [('bag_empty', z3.And((e.arg(0) == bempty) == (e == 0), e >= 0))]
DEFS['bsize'] = _bsize


def _apps1(top):
    """Interesting applications inside one assertion (cached; the expression is kept alive by the cache)."""
    c = _app_cache.get(top.get_id())
    if c is not None: return c[1]
    seen, out = set(), []
    stack = [top]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(e): continue
        d = e.decl()
        if d.kind() in _KINDS or (d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and (d.name() in _INTEREST or d.name() in DEFS)): out.append(e)
        if e.num_args(): stack.extend(e.children())
    _app_cache[top.get_id()] = (top, out)
    return out


_sym_cache = {}


def symbols(top):
    """Names of the uninterpreted constants and functions of a formula, without the mathematical ones."""
    c = _sym_cache.get(top.get_id())
    if c is not None: return c[1]
    seen, out, stack = set(), set(), [top]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() not in _MATH: out.add(e.decl().name())
            stack.extend(e.children())
    out = frozenset(out)
    _sym_cache[top.get_id()] = (top, out)
    return out


def _apps(exprs):
    seen, out = set(), []
    for t in exprs:
        for e in _apps1(t):
            if e.get_id() not in seen:
                seen.add(e.get_id()); out.append(e)
    return out


def _factors(m):
    if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_MUL: return [f for c in m.children() for f in _factors(c)]
    return [m]


def instances(exprs, depth=2):
    """Ground lemma instances triggered by the terms of exprs."""
    out, done = [], set()
    exprs = list(exprs)
    for _ in range(depth):
        new = []
        apps = _apps(exprs + out)
        P, divs, muls, bands, p2s, bls, fm, fd, vs, mods, pl, vv, fdi = [], [], [], [], [], [], [], [], [], [], [], [], []
        consts = set()
        for e in apps:
            if not z3.is_app(e): continue
            k = e.decl().kind()
            nm = e.decl().name()
            if nm == 'isp2': P.append(e.arg(0))
            elif nm == 'band': bands.append(e)
            elif nm == 'pow2f': p2s.append(e)
            elif nm == 'bitlen': bls.append(e)
            elif nm == 'fmul': fm.append(e)
            elif nm == 'fdiv': fd.append(e)
            elif nm == 'fdivii': fdi.append(e)
            elif nm == 'powr': vs.append(e)
            elif nm == 'pls': pl.append(e)
            elif nm == 'V': vv.append(e)
            elif k == z3.Z3_OP_IDIV: divs.append(e)
            elif k == z3.Z3_OP_MOD: mods.append(e)
            elif k == z3.Z3_OP_MUL and z3.is_int(e): muls.append(e)

        def add(name, f):
            i = f.get_id()
            if i in done: return
            done.add(i)
            STATS['lemmas'][name] = STATS['lemmas'].get(name, 0) + 1
            new.append(f)

        for e in apps:
            nm = e.decl().name()
            if nm in DEFS:
                for n_, f_ in DEFS[nm](e): add(n_, f_)
            elif nm == 'PRE':
                x, tl = e.arg(0), e.arg(1)
                add('vlq_def', z3.And(z3.Implies(x <= 0, e == tl), z3.Implies(x > 0, e == PRE(x / 128, consB(128 + x % 128, tl)))))
            elif nm == 'LEB':
                x, n_ = e.arg(0), e.arg(1)
                add('le_def', z3.And(z3.Implies(n_ <= 0, e == nilB), z3.Implies(n_ >= 1, e == consB(x % 256, LEB(x / 256, n_ - 1)))))
            elif nm == 'f2i':
                x = e.arg(0)
                add('f2i_nonneg', z3.Implies(z3.fpLEQ(z3.FPVal(0.0, FP), x), e >= 0))
                add('f2i_127', z3.Implies(z3.fpLEQ(x, z3.FPVal(127.0, FP)), e <= 127))
        for a, b in itertools.permutations(bls, 2):
            x, y = a.arg(0), b.arg(0)
            add('bitlen_byte', z3.Implies(z3.And(y >= 0, x / 256 == y, x % 256 >= 128), a / 8 == b / 8 + 1))
        for x in P:
            add('isp2_pos', z3.Implies(isp2(x), x >= 1))
            add('isp2_half', z3.Implies(z3.And(x > 1, x % 2 == 0), isp2(x) == isp2(x / 2)))
            add('isp2_odd', z3.Implies(z3.And(x != 1, x % 2 == 1), z3.Not(isp2(x))))
            add('isp2_one', z3.Implies(x == 1, isp2(x)))
            if z3.is_int_value(x):
                n = x.as_long()
                add('isp2_val', isp2(x) == z3.BoolVal(n > 0 and n & (n - 1) == 0))
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2:
                add('isp2_mul', z3.Implies(z3.And(isp2(x.arg(0)), isp2(x.arg(1))), isp2(x)))
        for e in divs:
            a, b = e.arg(0), e.arg(1)
            if z3.is_int_value(b): continue
            add('isp2_div', z3.Implies(z3.And(isp2(a), isp2(b), a >= b),
                                       z3.And(a == b * e, isp2(e), e >= 1)))
            add('isp2_div_lt', z3.Implies(z3.And(isp2(a), isp2(b), a < b), e == 0))
        for e in mods:
            a, b = e.arg(0), e.arg(1)
            if z3.is_int_value(b): continue
            add('isp2_mod', z3.Implies(z3.And(isp2(a), isp2(b), a >= b), e == 0))
        for e in bands:
            a, b = e.arg(0), e.arg(1)
            add('band_pred', z3.Implies(z3.And(b == a - 1, a > 0), (e == 0) == isp2(a)))
            add('band_pred', z3.Implies(z3.And(a == b - 1, b > 0), (e == 0) == isp2(b)))
            add('band_neg', z3.Implies(z3.And(b == -a, a > 0), (e == a) == isp2(a)))
            add('band_neg', z3.Implies(z3.And(a == -b, b > 0), (e == b) == isp2(b)))
            for x, y in ((a, b), (b, a)):
                if not z3.simplify(x + y).eq(z3.IntVal(0)): continue
                # the lowest set bit
                add('band_low', z3.Implies(x > 0, z3.And(isp2(e), e >= 1, e <= x, x == e * (x / e), (x / e) % 2 == 1)))
                for q in divs:
                    if q.arg(0).eq(x): add('band_low_div', z3.Implies(z3.And(x > 0, isp2(q.arg(1)), q.arg(1) <= e), x == q.arg(1) * q))
            add('band_nonneg', z3.Implies(z3.And(a >= 0, b >= 0), z3.And(e >= 0, e <= a, e <= b)))
        for e in p2s:
            k = e.arg(0)
            if k.decl().kind() == z3.Z3_OP_ITE:        # congruence
                c, x, y = k.arg(0), pow2f(z3.simplify(k.arg(1))), pow2f(z3.simplify(k.arg(2)))
                add('pow2_ite', e == z3.If(c, x, y))
                for q in divs:
                    if q.arg(1).eq(e): add('pow2_ite', q == z3.If(c, q.arg(0) / x, q.arg(0) / y))
            add('pow2_pos', z3.Implies(k >= 0, z3.And(isp2(e), e >= 1, e > k)))
            add('pow2_zero', z3.Implies(k == 0, e == 1))
            for p_, q_ in itertools.permutations(bls, 2):
                # the quotient of two powers of two
                d_ = z3.simplify(k - (p_ - q_))
                if z3.is_int_value(d_) and d_.as_long() == 0:
                    x, y = p_.arg(0), q_.arg(0)
                    add('bitlen_diff', z3.Implies(z3.And(isp2(x), isp2(y), x >= y), z3.And(e * y == x, e == x / y, p_ >= q_)))
                    add('bitlen_diff', z3.Implies(z3.And(isp2(x), isp2(y)), (p_ >= q_) == (x >= y)))
                    for m in muls:
                        fl = _factors(m)
                        if any(f.eq(e) for f in fl) and any(f.eq(y) for f in fl):
                            rest = list(fl)
                            for z in (e, y): del rest[next(i for i, f in enumerate(rest) if f.eq(z))]
                            add('bitlen_diff', z3.Implies(z3.And(isp2(x), isp2(y), x >= y), m == (z3.Product(rest) if rest else z3.IntVal(1)) * x))
        for a, b in itertools.combinations(p2s, 2):
            i, j = a.arg(0), b.arg(0)
            add('pow2_mono', z3.Implies(z3.And(i >= 0, j >= 0), z3.And((i < j) == (a < b), (i == j) == (a == b))))
        for a, b in itertools.permutations(p2s, 2):
            add('pow2_step', z3.Implies(z3.And(a.arg(0) >= 0, b.arg(0) == a.arg(0) + 1), b == 2 * a))
        for e in bls:
            x = e.arg(0)
            add('bitlen_zero', z3.Implies(x == 0, e == 0))
            add('bitlen_pos', z3.Implies(x > 0, e >= 1))
            add('bitlen_small', z3.Implies(z3.And(x >= 0, x < 128), z3.And(e >= 0, e <= 7)))
            add('bitlen_nonneg', e >= 0)
            if any(x.eq(y) for y in P):
                add('bitlen_isp2', z3.Implies(isp2(x), z3.And(pow2f(e - 1) == x)))
            for q in p2s:
                if q.arg(0).eq(z3.simplify(e - 1)) or q.arg(0).eq(e - 1):
                    add('bitlen_isp2', z3.Implies(x > 0, (q == x) == isp2(x)))
            for q in p2s:
                if q.eq(x):
                    add('bitlen_pow2', z3.Implies(x.arg(0) >= 0, e == x.arg(0) + 1))
        for e in fm:
            a, b = e.arg(0), e.arg(1)
            # rounding is monotone: 0 <= a <= 1 and 0 <= b finite gives 0 <= a*b <= b
            one, zero = z3.FPVal(1.0, FP), z3.FPVal(0.0, FP)
            for x, y in ((a, b), (b, a)):
                add('fmul_unit', z3.Implies(z3.And(z3.fpLEQ(zero, x), z3.fpLEQ(x, one), z3.fpLEQ(zero, y),
                                                   z3.Not(z3.fpIsInf(y))),
                                            z3.And(z3.fpLEQ(zero, e), z3.fpLEQ(e, y), z3.Not(z3.fpIsNaN(e)),
                                                   z3.Not(z3.fpIsInf(e)))))
        for e in fd:
            a, b = e.arg(0), e.arg(1)
            if z3.is_app(a) and a.decl().name() == 'i2f' and b.eq(z3.FPVal(127.0, FP)):
                x, one = a.arg(0), z3.FPVal(1.0, FP)
                add('div_127', z3.And(z3.Implies(z3.And(x >= 1, x <= 127), z3.And(z3.fpLT(z3.FPVal(0.0, FP), e), z3.fpLEQ(e, one))),
                                      z3.Implies(x == 0, e == z3.FPVal(0.0, FP)),
                                      z3.Implies(z3.And(x >= 127, x <= 255), z3.And(z3.fpLEQ(one, e), z3.Not(z3.fpIsInf(e)))), z3.Implies(x == 127, e == one)))
        for e in fdi:
            x, b = e.arg(0), e.arg(1)
            if z3.is_int_value(b) and b.as_long() == 127: add('div_127', z3.Implies(z3.And(x >= 0, x <= 255), e == fdiv(i2f(x), z3.FPVal(127.0, FP))))
        for e in pl:
            w, v = e.arg(0), e.arg(1)
            add('pls_nonneg', z3.Implies(z3.And(w >= 0, v >= 0), e >= 0))
            for r in vv:
                a, b = r.arg(0), r.arg(1)
                add('pls_def', z3.Implies(z3.And(v == r, b >= 1), e == z3.simplify(w * a) / b))
        prods = {frozenset((e.arg(0).get_id(), e.arg(1).get_id())): e for e in muls if e.num_args() == 2}
        for p_, q_ in itertools.combinations(vv, 2):
            l_ = prods.get(frozenset((p_.arg(0).get_id(), q_.arg(1).get_id()))); r_ = prods.get(frozenset((q_.arg(0).get_id(), p_.arg(1).get_id())))
            if l_ is None or r_ is None: continue
            add('V_order', z3.Implies(z3.And(p_.arg(1) >= 1, q_.arg(1) >= 1), z3.And((p_ <= q_) == (l_ <= r_), (q_ <= p_) == (r_ <= l_))))
        for e in vs:
            x = e.arg(0)
            add('powr_pos', e > 0)
            add('powr_zero', z3.Implies(x == 0, e == 1))
        for a, b in itertools.combinations(vs, 2):
            i, j = a.arg(0), b.arg(0)
            add('powr_mono', z3.And((i < j) == (a < b), (i == j) == (a == b)))
            add('powr_step', z3.Implies(j == i + 1, b == 2 * a))
            add('powr_step', z3.Implies(i == j + 1, a == 2 * b))
        if not new: break
        out += new
    return out


def _expand_isp2(exprs, bits=40):
    """Refutation mode: isp2 interpreted on a bounded range, so that models are real inputs."""
    x = z3.Var(0, z3.IntSort())
    body = z3.Or([x == 2 ** i for i in range(bits)])
    return [z3.substitute_funs(e, (isp2, body)) for e in exprs]


# how each lemma is justified: definitions of specification functions, facts of IEEE rounding checked exhaustively, else Lean
DEFINITIONS = {
    'pow2_ite': 'congruence','vlq_def': 'definition of VLQ', 'le_def': 'definition of the little-endian bytes', 'byte_range': 'bytes are 0..255', 'vl_def': 'definition (vlok_def, vle_def in Lean)',
               'sx_def': 'definition (sxok_def, sxe_def in Lean)', 'at_def': 'definition', 'isp2_val': 'definition of a power of two, on a constant', 'pow2_zero': 'definition', 'bitlen_nonneg': 'definition',
               'div_127': 'exhaustive: all 256 values by IEEE constant folding on every run'}
def lean_theorems():
    import re, os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean', 'Lemmas.lean')
    return set(re.findall(r'^theorem (\w+)', open(p).read(), re.M))


def basis(names):
    """name of a lemma -> what justifies it."""
    th = lean_theorems()
    return {n: DEFINITIONS.get(n) or ('lean/Lemmas.lean: theorem ' + n if n in th else 'UNJUSTIFIED') for n in sorted(names)}


def exhaustive_div_127():
    """The statements of lemma div_127 for each of the 256 values, with real IEEE division."""
    c, one, n = z3.FPVal(127.0, FP), z3.FPVal(1.0, FP), 0
    for x in range(256):
        e = z3.simplify(z3.fpDiv(z3.RNE(), z3.FPVal(float(x), FP), c))
        ok = [z3.fpLEQ(one, e) if x >= 127 else z3.And(z3.fpLT(z3.FPVal(0.0, FP), e), z3.fpLEQ(e, one)) if x else e == z3.FPVal(0.0, FP), z3.Not(z3.fpIsInf(e))]
        if x == 127: ok.append(e == one)
        ok.append(z3.simplify(e == z3.FPVal(x / 127, FP)))          # int / int is the correctly rounded quotient
        if not z3.is_true(z3.simplify(z3.And(ok))): return 0
        n += 1
    return n


_cache = {}


def check(assertions, timeout_ms=20000, refute=False, want_model=False, quick=False):
    """Satisfiability of the conjunction. Returns (result, model, backend)."""
    t0 = time.time()
    STATS['queries'] += 1
    if refute:
        lem = [l for l in instances(assertions)]
        exprs = _expand_isp2(list(assertions) + lem)
        s = z3.Solver(); s.set('timeout', timeout_ms)
        s.add(*exprs)
        r = s.check()
        STATS['time'] += time.time() - t0
        return str(r), (s.model() if r == z3.sat else None), 'z3'
    idk = frozenset(e.get_id() for e in assertions)
    if idk in _unsat: return 'unsat', None, 'z3'
    s = z3.Solver(); s.set('timeout', 1500)
    s.add(*assertions)
    if not quick and s.check() == z3.unsat:
        STATS['z3'] += 1
        STATS['time'] += time.time() - t0
        _unsat[idk] = list(assertions)
        return 'unsat', None, 'z3'
    inst = instances(assertions)
    exprs = list(assertions) + inst
    key = hashlib.sha1('\n'.join(sorted(e.sexpr() for e in exprs)).encode()).hexdigest()
    if key in _cache and not want_model:
        return _cache[key]
    s = z3.Solver(); s.set('timeout', min(timeout_ms, 5000))
    s.add(*exprs)
    r, backend, model = s.check(), 'z3', None
    if r == z3.sat: model = s.model()
    if r == z3.unknown and not quick:
        r2 = _cvc5(s, timeout_ms)
        if r2 != 'unknown':
            backend = 'cvc5'
            STATS['cvc5'] += 1
            res = (r2, None, backend)
            _cache[key] = res
            STATS['time'] += time.time() - t0
            return res
        s.set('timeout', timeout_ms)
        r = s.check()
        if r == z3.sat: model = s.model()
    STATS['z3'] += 1
    STATS['time'] += time.time() - t0
    res = (str(r), model, backend)
    if not (quick and r == z3.unknown): _cache[key] = res
    return res


def _cvc5(s, timeout_ms):
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        sol = cvc5.Solver(tm) if tm else cvc5.Solver()
        sol.setOption('tlimit-per', str(timeout_ms))
        sol.setLogic('ALL')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2(), 'q')
        sm = p.getSymbolManager()
        out = 'unknown'
        while True:
            cmd = p.nextCommand()
            if cmd.isNull(): break
            t = str(cmd.invoke(sol, sm)).strip()
            if t in ('sat', 'unsat', 'unknown'): out = t
        return out
    except Exception:
        return 'unknown'
