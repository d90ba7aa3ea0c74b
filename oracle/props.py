"""Concrete checks per property: cases_<id>(g, n) yields literal cases, check_<id>(case) raises Fail."""
import io, math, random, sys, os, importlib, importlib.util, copy
from fractions import Fraction as Fr
from . import spec


class Fail(Exception): pass


def L():
    import melodia, melodia.core, melodia.io.midi, melodia.music.chord, melodia.processing.track
    return melodia


class M:
    def __getattr__(self, n):
        m = L()
        d = {'Tone': m.core.Tone, 'Signature': m.core.Signature, 'Note': m.core.Note, 'Track': m.core.Track,
             'midi': m.io.midi, 'chord': m.music.chord, 'proc': m.processing.track}
        return d[n]


M = M()


def need(c, msg):
    if not c: raise Fail(msg)


def same(a, b, msg):
    if not (type(a) is type(b) or isinstance(a, type(b)) or isinstance(b, type(a))) or a != b:
        raise Fail(f'{msg}: got {a!r}, expected {b!r}')


def outcome(f, *a, **k):
    try: return ('ok', f(*a, **k))
    except Exception as e: return ('exc', e)


def refused(f, kinds, msg):
    k, v = outcome(f)
    if k == 'ok': raise Fail(f'{msg}: accepted, gave {v!r}')
    if type(v).__name__ not in kinds and not any(c.__name__ in kinds for c in type(v).__mro__[:-2] if c.__name__ not in ('Exception', 'BaseException')):
        raise Fail(f'{msg}: raised {type(v).__name__}: {v}, expected {kinds}')


def accepted(f, msg):
    k, v = outcome(f)
    if k == 'exc': raise Fail(f'{msg}: raised {type(v).__name__}: {v}')
    return v


def nd(s):
    n, d = s.nominator, s.denominator
    return n, d


def fr(s): return Fr(s.nominator, s.denominator)


def valid(s, msg):
    n, d = nd(s)
    need(isinstance(s, M.Signature) and isinstance(n, int) and isinstance(d, int) and spec.sig_ok(n, d), f'{msg}: invalid signature {n}/{d}')


def S(p): return M.Signature(fresh(p[0]), fresh(p[1]))


def fresh(x):
    """An equal number that is another object (nothing may depend on identity)."""
    return int(hex(x), 16) if type(x) is int else float.fromhex(x.hex()) if type(x) is float else x


def sameval(a, b): return a == b or (a != a and b != b)


# ---------------------------------------------------------------- C01
def ops_sig(a, b, k):
    return [('to', lambda: a.to(k)), ('normalized', lambda: a.normalized()), ('add', lambda: a + b), ('mul', lambda: a * b), ('abs', lambda: abs(a)),
            ('eq', lambda: a == b), ('ne', lambda: a != b), ('lt', lambda: a < b), ('le', lambda: a <= b), ('gt', lambda: a > b), ('ge', lambda: a >= b),
            ('str', lambda: str(a)), ('repr', lambda: repr(a))]


def cases_C01(g, n):
    for a in range(-3, 12):
        for b in range(-9, 35): yield ('make', a, b)
    for _ in range(n):
        k = g.r.randrange(5)
        if k == 0: yield ('make', g.int(), g.int())
        elif k == 4:
            i = g.r.randrange(0, 140)
            yield ('make', g.nat(), 2 ** i + g.r.choice([1, -1]) * 2 ** g.r.randrange(0, i + 1))
        elif k == 1: yield ('make', g.int(), g.p2() * g.r.choice([1, 1, -1, 3]))
        else:
            a = g.sig(); yield ('ops', a, g.sig_near(a), g.r.choice([g.p2(), g.int(), a[1], a[1] * 2]))


def check_C01(c):
    if c[0] == 'make':
        _, n, d = c
        if spec.sig_ok(n, d):
            s = accepted(lambda: M.Signature(n, d), f'Signature({n}, {d})')
            same(nd(s), (n, d), 'components')
        else: refused(lambda: M.Signature(n, d), ('ValueError',), f'Signature({n}, {d})')
        return
    _, p, q, k = c
    a, b = S(p), S(q)
    for name, f in ops_sig(a, b, k):
        o, v = outcome(f)
        if o == 'ok' and name in ('to', 'normalized', 'add', 'mul', 'abs'): valid(v, f'{name} of {p}, {q}, {k}')
        same(nd(a), tuple(p), f'{name} changed its operand'); same(nd(b), tuple(q), f'{name} changed its operand')


# ---------------------------------------------------------------- C02
def cmp_all(a, b, ka, kb, what):
    for nm, got, want in (('==', lambda: a == b, ka == kb), ('!=', lambda: a != b, ka != kb), ('<', lambda: a < b, ka < kb),
                          ('<=', lambda: a <= b, ka <= kb), ('>', lambda: a > b, ka > kb), ('>=', lambda: a >= b, ka >= kb)):
        r = accepted(got, f'{what} {nm}')
        if bool(r) != want: raise Fail(f'{what}: {nm} gave {r}, expected {want}')


def cases_C02(g, n):
    for p in range(0, 6):
        for d in (1, 2, 4, 8):
            for q in range(0, 6):
                for e in (1, 2, 4, 8): yield ((p, d), (q, e))
    for _ in range(n):
        a = g.sig(); yield (a, g.sig_near(a))


def check_C02(c):
    p, q = c
    cmp_all(S(p), S(q), Fr(*p), Fr(*q), f'{p} vs {q}')


# ---------------------------------------------------------------- C03
def cases_C03(g, n):
    for p in range(0, 9):
        for d in (1, 2, 4, 8, 16):
            for k in (-1, 0, 1, 2, 3, 4, 6, 8, 16, 32): yield ('to', (p, d), k)
            yield ('norm', (p, d))
            for q, e in ((0, 1), (1, 2), (3, 8), (5, 4)): yield ('arith', (p, d), (q, e))
    for _ in range(n):
        a = g.sig(); k = g.r.randrange(4)
        if g.r.random() < .1: yield ('same', a, g.sig_near(a), [a[1] * g.p2() for _ in range(3)])
        if k == 0: yield ('to', a, g.r.choice([a[1], a[1] * 2, a[1] // 2, a[1] * g.p2(), g.p2(), g.int()]))
        elif k == 1: yield ('norm', a)
        elif k == 2: yield ('norm', (a[0] * 2 ** g.r.randrange(0, 70), a[1] * 2 ** g.r.randrange(0, 70)))
        else: yield ('arith', a, g.sig_near(a))


def check_C03(c):
    if c[0] == 'to':
        _, p, k = c
        a = S(p)
        if spec.is_p2(k) and k >= p[1]:
            r = accepted(lambda: a.to(k), f'{p}.to({k})')
            same(nd(r), (p[0] * k // p[1], k), f'{p}.to({k})')
        else: refused(lambda: a.to(k), ('ValueError',), f'{p}.to({k})')
    elif c[0] == 'norm':
        p = c[1]
        r = accepted(lambda: S(p).normalized(), f'{p}.normalized()')
        f = Fr(*p)
        same(nd(r), (f.numerator, f.denominator), f'{p}.normalized()')
    elif c[0] == 'same':
        _, p, q, ks = c
        a, b, x, y = S(p), S(q), Fr(*p), Fr(*q)
        for k in ks + ks[::-1]:
            same(nd(accepted(lambda: a.to(k), f'{p}.to({k})')), (p[0] * k // p[1], k), f'{p}.to({k}), again')
            same(fr(accepted(lambda: a + b, 'sum')), x + y, f'{p}+{q}, again'); same(fr(accepted(lambda: a + a, 'sum')), x + x, f'{p}+{p}')
            same(fr(accepted(lambda: a * b, 'product')), x * y, f'{p}*{q}, again'); same(fr(accepted(lambda: b + a, 'sum')), x + y, f'{q}+{p}, again')
            same(nd(accepted(lambda: a.normalized(), 'normalized')), (x.numerator, x.denominator), f'{p}.normalized(), again')
            same(nd(accepted(lambda: a.to(k).normalized(), 'normalized')), (x.numerator, x.denominator), f'{p}.to({k}).normalized()')
            same(nd(a), tuple(p), 'operand'); same(nd(b), tuple(q), 'operand')
    else:
        _, p, q = c
        same(fr(accepted(lambda: S(p) + S(q), f'{p}+{q}')), Fr(*p) + Fr(*q), f'{p}+{q}')
        same(fr(accepted(lambda: S(p) * S(q), f'{p}*{q}')), Fr(*p) * Fr(*q), f'{p}*{q}')
        same(fr(accepted(lambda: abs(S(p)), f'abs {p}')), abs(Fr(*p)), f'abs {p}')


# ---------------------------------------------------------------- C04
def cases_C04(g, n):
    for l in 'ABCDEFGHabcdefg':
        for a in ('', '#', 'b', '##', 'bb', '#b', 'b#', '#b#', 'x'):
            for o in ('', '0', '4', '-1', '10', '-12', '007', '-0', '-', '--1', '+1', '1.0', '4 ', '4\n', 'x'): yield l + a + o
    for _ in range(n): yield g.notation() if g.r.random() < .5 else g.badnotation()


def check_C04(c):
    want = spec.parse_notation(c)
    if not c.isascii(): return
    if want is None: refused(lambda: M.Tone.from_notation(c), ('ValueError',), f'from_notation({c!r})')
    else:
        t = accepted(lambda: M.Tone.from_notation(c), f'from_notation({c!r})')
        need(isinstance(t, M.Tone), 'not a Tone')
        same(t.pitch, want, f'from_notation({c!r})')


# ---------------------------------------------------------------- C05
def cases_C05(g, n):
    for p in range(-40, 160): yield p
    for _ in range(n): yield g.int()


def check_C05(p):
    t = M.Tone(p)
    for down in (False, True):
        s = accepted(lambda: t.to_notation(transpose_down=down), f'to_notation of {p}')
        same(s, spec.format_notation(p, down), f'notation of {p}')
        if abs(p) < 10 ** 4000:
            q = accepted(lambda: M.Tone.from_notation(s), f'parsing back {s!r}')
            same(q.pitch, p, f'round trip through {s!r}')
    same(t.to_notation(), spec.format_notation(p), 'default notation')
    same(str(t), spec.format_notation(p), 'text form')


# ---------------------------------------------------------------- C06
def cases_C06(g, n):
    for p in range(-26, 30):
        for q in (-13, -12, -1, 0, 1, 11, 12): yield ('ints', p, q)
    for x in ('C4', 1.0, 0.5, None, [1], (1,), 1j, float('nan'), b'C', ''): yield ('bad', x)
    for _ in range(n):
        p = g.int(); yield ('ints', p, g.r.choice([g.int(), p, p + 1, p - 1, -p]))


def check_C06(c):
    if c[0] == 'bad':
        refused(lambda: M.Tone(c[1]), ('ValueError',), f'Tone({c[1]!r})'); return
    _, p, k = c
    t = accepted(lambda: M.Tone(p), f'Tone({p})')
    same(t.pitch, p, 'pitch'); same(t.octave, p // 12, 'octave')
    u = accepted(lambda: t.transposed(k), f'transposed({k})')
    need(isinstance(u, M.Tone), 'not a Tone')
    same(u.pitch, p + k, f'Tone({p}).transposed({k})'); same(t.pitch, p, 'original tone')
    for j in (k + 1, -k, 0, k):
        same(accepted(lambda: t.transposed(j), f'transposed({j})').pitch, p + j, f'Tone({p}).transposed({j}), same tone'); same(u.pitch, p + k, 'transposed tone')
        same(accepted(lambda: u.transposed(j), f'transposed({j})').pitch, p + k + j, f'Tone({p}).transposed({k}).transposed({j})')
        same((t.octave, u.octave), (p // 12, (p + k) // 12), 'octaves after transposing')
    cmp_all(M.Tone(p), M.Tone(k), p, k, f'Tone({p}) vs Tone({k})')
    cmp_all(M.Tone(p), M.Tone(fresh(p)), p, p, f'Tone({p}) vs another Tone({p})')
    same(t.pitch, p, 'original tone after comparisons')


# ---------------------------------------------------------------- C07
def cases_C07(g, n):
    for p in range(-60, 180): yield (p, None)
    for _ in range(n):
        yield (max(-9000, min(9000, g.int(False))), g.r.choice([None, 440.0, 432, 1, 0.5, 442.5, 27.5, g.r.uniform(1e-3, 1e4), abs(g.r.choice(g.c.floats)) or 1.0]))


def check_C07(c):
    p, base = c
    f = lambda q: accepted(lambda: M.Tone(q).to_frequency() if base is None else M.Tone(q).to_frequency(base), f'frequency of {q} base {base}')
    b = 440.0 if base is None else base
    x = f(p)
    try: want = b * math.exp(math.log(2) * (Fr(p - 57, 12)))
    except OverflowError: return
    close = lambda u, v: math.isclose(u, v, rel_tol=1e-9)
    need(close(x, want), f'frequency of pitch {p} base {b}: got {x}, expected {want}')
    need(f(57) == b, f'A4: {f(57)} with base {b}'); need(close(f(p + 12), 2 * x), f'octave above {p}: {f(p + 12)} vs {2 * x}')
    need(f(p + 1) > x > f(p - 1), f'not increasing at {p}')
    need(close(M.Tone(p).to_frequency(2.0 * b), 2.0 * x), 'not linear in base')
    need(close(M.Tone(p).to_frequency(base=b), x), 'base keyword')
    t = M.Tone(p)
    for q in (b, 2.0 * b, 440.0, b):
        y = accepted(lambda: t.to_frequency(q), f'frequency of {p} base {q}')
        need(close(y * b, x * q) or y * b > 1e300 or abs(y * b) < 1e-290, f'frequency of {p} with base {q} after other bases: {y}')


# ---------------------------------------------------------------- C08
TONES = ('tone', 'int', 'str')


def mk_tone(t):
    k, v = t
    return M.Tone(v) if k == 'tone' else v


def tone_pitch(t):
    k, v = t
    if k in ('tone', 'int'): return v
    if k == 'str': return spec.parse_notation(v)


def mk_dur(d):
    k, v = d
    return {'sig': lambda: S(v), 'tuple': lambda: tuple(v), 'list': lambda: list(v), 'gen': lambda: iter(tuple(v)), 'wrong': lambda: tuple(v), 'raw': lambda: v}[k]()


def g_tone(g):
    k = g.r.randrange(8)
    if k < 3: return ('tone', g.pitch())
    if k < 5: return ('int', g.pitch())
    if k < 7: return ('str', g.notation())
    return ('str', g.badnotation())


def g_dur(g):
    k = g.r.randrange(8)
    if k < 3: return ('sig', g.sig())
    if k < 5: return (g.r.choice(['tuple', 'list', 'gen']), g.sig())
    if k < 7: return ('tuple', (g.int(), g.int()))
    return ('raw', g.r.choice([None, 4, 0.25, 0, object]) if g.r.random() < .5 else 3)


def cases_C08(g, n):
    for v in (0, 0.0, -0.0, 1, 1.0, 0.5, float('nan'), float('inf'), float('-inf'), -1e-300, 1.0000000000000002, 5e-324, 2, -1, True, False):
        yield (('int', 5), ('tuple', (1, 4)), v)
    for t in (('raw', None), ('raw', 1.5), ('raw', [1]), ('raw', (1,)), ('raw', b'C4'), ('bool', True)):
        yield (t, ('tuple', (1, 4)), 0.5)
    for d in (('raw', None), ('raw', 3), ('raw', 0.25), ('wrong', ()), ('wrong', (1,)), ('wrong', (1, 4, 4)), ('wrong', (1, 4, 0, 2))): yield (('int', 1), d, .5)
    yield ('defaults',)
    for _ in range(n): yield (g_tone(g), g_dur(g), g.anyvel())


def vel_ok(v): return isinstance(v, (int, float)) and 0.0 <= v <= 1.0


def check_C08(c):
    if c == ('defaults',):
        n = accepted(lambda: M.Note(5), 'Note(5)')
        same((n.tone.pitch, nd(n.duration), n.velocity), (5, (1, 4), 0.75), 'defaults')
        n2 = M.Note(5, velocity=0.25); same((nd(n2.duration), n2.velocity), ((1, 4), 0.25), 'default duration')
        return
    t, d, v = c
    if t[0] == 'bool': t = ('int', True)
    perr = d[1] if d[0] in ('sig', 'tuple', 'list', 'gen') else None
    if t[0] == 'raw': refused(lambda: M.Note(t[1], mk_dur(d), v), ('TypeError',) , f'Note({c})'); return
    bad = set()
    if tone_pitch(t) is None: bad.add('ValueError')
    if d[0] == 'raw': bad.add('TypeError')
    elif d[0] == 'wrong': bad |= {'TypeError', 'ValueError'}
    elif not spec.sig_ok(*perr): bad.add('ValueError')
    if not vel_ok(v): bad.add('ValueError')
    if bad: refused(lambda: M.Note(mk_tone(t), mk_dur(d), v), tuple(bad), f'Note{c}'); return
    tv, dv = mk_tone(t), mk_dur(d)
    n = accepted(lambda: M.Note(tv, dv, v), f'Note{c}')
    ck = lambda: same((n.tone.pitch, nd(n.duration)), (tone_pitch(t), tuple(d[1])), f'components of Note{c}')
    ck(); need(isinstance(n.tone, M.Tone) and isinstance(n.duration, M.Signature), 'component types')
    need(n.velocity == v, f'velocity {n.velocity!r} of Note{c}')
    m = accepted(lambda: M.Note(tone=mk_tone(t), velocity=v, duration=mk_dur(d)), 'keywords')
    need((m.tone.pitch, nd(m.duration), m.velocity) == (n.tone.pitch, nd(n.duration), v), 'keyword construction differs')
    for f in (lambda: n.transposed(3), lambda: n.with_velocity(0.1), lambda: n.with_duration((1, 8)), lambda: n == n, lambda: n < n, lambda: str(n), lambda: repr(n)):
        accepted(f, 'operation on note'); ck(); need(n.velocity == v, 'velocity changed')


# ---------------------------------------------------------------- C09
def cases_C09(g, n):
    for x in (('raw', None), ('wrong', ()), ('wrong', (1,)), ('wrong', (1, 4, 4))): yield ('dur', g.note(), x)
    for _ in range(n):
        nt = g.note()
        k = g.r.randrange(3)
        if k == 0: yield ('tr', nt, g.int())
        elif k == 1: yield ('dur', nt, g_dur(g))
        else: yield ('vel', nt, g.anyvel())


def N(nt): return M.Note(fresh(nt[0]), S(nt[1]), fresh(nt[2]))
def triple(n): return (n.tone.pitch, nd(n.duration), n.velocity)


def check_C09(c):
    op, nt, x = c
    n = N(nt)
    before = triple(n)
    if op == 'tr':
        r = accepted(lambda: n.transposed(x), f'transposed({x})')
        want = (nt[0] + x, tuple(nt[1]), nt[2])
    elif op == 'dur':
        bad = ('TypeError',) if x[0] == 'raw' else ('TypeError', 'ValueError') if x[0] == 'wrong' else None if spec.sig_ok(*x[1]) else ('ValueError',)
        if bad:
            refused(lambda: n.with_duration(mk_dur(x)), bad, f'with_duration({x})'); r = None
        else:
            r = accepted(lambda: n.with_duration(mk_dur(x)), f'with_duration({x})'); want = (nt[0], tuple(x[1]), nt[2])
    else:
        if not vel_ok(x):
            refused(lambda: n.with_velocity(x), ('ValueError',), f'with_velocity({x})'); r = None
        else:
            r = accepted(lambda: n.with_velocity(x), f'with_velocity({x})'); want = (nt[0], tuple(nt[1]), x)
    if r is not None:
        for y in (1, -1, 12):
            same(triple(accepted(lambda: n.transposed(y), f'transposed({y})')), (nt[0] + y, tuple(nt[1]), nt[2]), f'transposed({y}) after {op} {x}')
            same(triple(accepted(lambda: r.transposed(y), f'transposed({y})')), (want[0] + y,) + want[1:], f'{op} {x}, transposed({y})')
        for y in ((1, 8), (3, 2)):
            same(triple(accepted(lambda: n.with_duration(y), f'with_duration({y})')), (nt[0], y, nt[2]), f'with_duration({y}) after {op} {x}')
            same(triple(accepted(lambda: r.with_duration(y), f'with_duration({y})')), (want[0], y, want[2]), f'{op} {x}, with_duration({y})')
        for y in (0.25, 1.0, 0.0):
            same(triple(accepted(lambda: n.with_velocity(y), f'with_velocity({y})')), (nt[0], tuple(nt[1]), y), f'with_velocity({y}) after {op} {x}')
            same(triple(accepted(lambda: r.with_velocity(y), f'with_velocity({y})')), (want[0], want[1], y), f'{op} {x}, with_velocity({y})')
        need(isinstance(r, M.Note), 'not a Note'); need(r is not n or want == before, 'same object')
        same(triple(r), want, f'{op} {nt} {x}')
    same(triple(n), before, 'original note changed')


# ---------------------------------------------------------------- C10
def cases_C10(g, n):
    for _ in range(n):
        a = g.note()
        k = g.r.randrange(5)
        p = a[0] if k else a[0] + g.r.choice([-1, 0, 1])
        d = g.sig_near(a[1]); v = g.velclose(a[2])
        if g.r.random() < .4: m = 2 ** g.r.randrange(0, 4); d = (a[1][0] * m, a[1][1] * m)
        yield (a, (p, d, v))


def nkey(nt): return (nt[0], Fr(*nt[1]), nt[2])


def check_C10(c):
    a, b = c
    cmp_all(N(a), N(b), nkey(a), nkey(b), f'{a} vs {b}')


# ---------------------------------------------------------------- tracks
def mk_pos(p, form):
    if p is None: return None
    return (S(p), tuple(p), list(p))[form] if form < 3 else S(p)


class Model:
    """Reference track: list of (position, note key, note)"""
    def __init__(self): self.items, self.end = [], Fr(0)
    def add(self, nt, p):
        p = self.end if p is None else p
        self.items.append((p, nt)); self.end = max(self.end, p + Fr(*nt[1]))
    def sorted(self): return sorted(self.items, key=lambda x: (x[0], nkey(x[1])))
    def bag(self): return sorted((p, nkey(n)) for p, n in self.items)


def tcontent(t): return [(fr(p), (n.tone.pitch, fr(n.duration), n.velocity)) for p, n in t]


def play(ops, t=None, each=None, check=True):
    """Apply operations to a real track and the model; each(t, m, op) after every operation."""
    t = M.Track() if t is None else t
    m = Model()
    for op in ops:
        if op[0] == 'add':
            _, nt, p, form = op
            note = N(nt); tr = triple(note)
            accepted(lambda: t.add(note, mk_pos(p, form)), f'add {op}')
            m.add(nt, None if p is None else Fr(*p))
            if triple(note) != tr: raise Fail('added note changed')
        elif op[0] == 'group':
            _, nts, p, form = op
            what = [N(x) for x in nts]
            arg = (what, tuple(what), iter(what))[form]
            accepted(lambda: t.add(arg, mk_pos(p, 0)), f'add {op}')
            q = m.end if p is None else Fr(*p)
            for x in nts: m.add(x, q)
        elif op[0] == 'iter': list(t)
        elif op[0] == 'len': len(t)
        elif op[0] == 'bad':
            kind = op[3] if len(op) > 3 else 0
            what = lambda: (N(op[1]), [], [N(op[1])], (N(op[1]), N(op[1])))[kind]
            errs = ('ValueError',) if isinstance(op[2], tuple) and len(op[2]) == 2 else ('TypeError', 'ValueError')
            if check: refused(lambda: t.add(what(), op[2]), errs, f'add {op}')
            else: outcome(lambda: t.add(what(), op[2]))
        elif op[0] == 'nested':
            # a group of groups: either refused or all notes at one position
            _, groups, p = op
            what = [tuple(N(x) for x in gr) if len(gr) != 1 else N(gr[0]) for gr in groups]
            k, _ = outcome(lambda: t.add(what, mk_pos(p, 0)))
            if k == 'exc': return M.Track(t.signature), Model()       # not a supported use: the track is not looked at any further
            q = m.end if p is None else Fr(*p)
            for gr in groups:
                for x in gr: m.add(x, q)
        if each: each(t, m, op)
    return t, m


def g_hist_cases(g, n):
    yield []
    for _ in range(n): yield g.history()
    for _ in range(max(1, n // 150)): yield g.history(g.r.choice([30, 60]))


def cases_C11(g, n):
    for h in [[], [('add', (40, (1, 4), .5), (0, 1), 0)]]:
        for mode in ('default', 'ctor', 'ops'): yield (mode, h, (4, 4))
    for h in g_hist_cases(g, n):
        yield (g.r.choice(['ops', 'ops', 'ctor', 'default']), h, g.sig())


def check_C11(c):
    mode, ops, sg = c
    if mode == 'ctor':
        adds = [o for o in ops if o[0] == 'add']
        content = [(N(o[1]), mk_pos(o[2], o[3])) for o in adds]
        t = accepted(lambda: M.Track(S(sg), content), 'Track(content)')
        m = Model()
        for o in adds: m.add(o[1], None if o[2] is None else Fr(*o[2]))
    else:
        def each(t, m, op):
            same(len(t), len(m.items), f'count after {op}')
        if mode == 'default': sg = (4, 4)
        t, m = play(ops, M.Track() if mode == 'default' else M.Track(S(sg)), each)
    same(len(t), len(m.items), 'count')
    same(sorted(tcontent(t)), m.bag(), 'contents')
    same(nd(t.signature), tuple(sg), 'signature')
    want = sorted(((p, n[0], tuple(n[1]), n[2]) for p, n in m.items))
    got = sorted(((fr(p), n.tone.pitch, nd(n.duration), n.velocity) for p, n in t))
    same(got, want, 'notes changed')


def cases_C12(g, n):
    for h in g_hist_cases(g, n):
        # shuffle iterations in
        h2 = []
        for o in h:
            h2.append(o)
            if g.r.random() < .35: h2.append(('iter',))
        yield h2


def check_C12(ops):
    def each(t, m, op):
        if op[0] == 'iter':
            same(tcontent(t), [(p, nkey(n)) for p, n in m.sorted()], f'iteration after {op}')
    t, m = play(ops, None, each)
    want = [(p, nkey(n)) for p, n in m.sorted()]
    same(tcontent(t), want, 'first iteration')
    same(tcontent(t), want, 'second iteration')
    it = iter(t); a = list(it)
    row = lambda p, n: (fr(p), (n.tone.pitch, fr(n.duration), n.velocity))
    same([row(p, n) for p, n in a], want, 'iter()')
    same([(row(*x), row(*y)) for x, y in zip(t, t)], [(x, x) for x in want], 'two iterations at a time')
    if len(want) < 9: same([(row(*x), row(*y)) for x in t for y in t], [(x, y) for x in want for y in want], 'nested iterations')
    it = iter(t); next(it, None); next(it, None); del it
    same(tcontent(t), want, 'iteration after an unfinished one')


def cases_C13(g, n):
    for h in g_hist_cases(g, n): yield h


def check_C13(ops):
    last = [Fr(0)]
    def each(t, m, op):
        l = fr(t.length)
        same(l, m.end, f'length after {op}')
        need(l >= last[0], 'length decreased'); last[0] = l
    t = M.Track()
    same(fr(t.length), Fr(0), 'length of the empty track')
    t, m = play(ops, t, each)
    want = max([p + Fr(*n[1]) for p, n in m.items], default=Fr(0))
    same(fr(t.length), want, 'length')
    content = [(N(o[1]), mk_pos(o[2], o[3])) for o in ops if o[0] == 'add']
    t2 = M.Track((4, 4), content); m2 = Model()
    for o in ops:
        if o[0] == 'add': m2.add(o[1], None if o[2] is None else Fr(*o[2]))
    same(fr(t2.length), m2.end, 'length of Track(content)')


def cases_C14(g, n):
    r = g.r
    for _ in range(n):
        h = [o for o in g.history() if o[0] in ('add', 'group', 'iter')]
        sa = g.sig()
        # absolute additions of the first history
        m = Model()
        flat = []
        for o in h:
            if o[0] == 'add':
                p = m.end if o[2] is None else Fr(*o[2]); m.add(o[1], p); flat.append((o[1], p))
            elif o[0] == 'group':
                p = m.end if o[2] is None else Fr(*o[2])
                for x in o[1]: m.add(x, p); flat.append((x, p))
        items = [(nt, (p.numerator, p.denominator)) for nt, p in flat]
        k = r.randrange(8)
        if k < 4 and r.random() < .9: r.shuffle(items)
        items2 = []
        for nt, p in items:
            if r.random() < .4:
                s = 2 ** r.randrange(0, 4); p = (p[0] * s, p[1] * s)
            if r.random() < .3:
                s = 2 ** r.randrange(0, 4); nt = (nt[0], (nt[1][0] * s, nt[1][1] * s), nt[2])
            items2.append((nt, p))
        sb = sa
        if r.random() < .3: s = 2 ** r.randrange(0, 4); sb = (sa[0] * s, sa[1] * s)
        if k == 4 and items2: items2.pop(r.randrange(len(items2)))
        elif k == 5: items2.append(((g.pitch(), g.sig(), g.vel()), g.sig()) if r.random() < .5 or not items2 else items2[-1])
        elif k == 6 and items2:
            i = r.randrange(len(items2)); nt, p = items2[i]
            w = r.randrange(4)
            if w == 0: nt = (nt[0] + 1, nt[1], nt[2])
            elif w == 1: nt = (nt[0], (nt[1][0] + 1, nt[1][1]), nt[2])
            elif w == 2: nt = (nt[0], nt[1], g.velclose(nt[2]))
            else: p = g.sig_near(p)
            items2[i] = (nt, p)
        elif k == 7:
            if len(items2) > 1 and r.random() < .5: items2[0] = items2[-1]
            else: sb = g.sig_near(sb)
        yield (sa, h, sb, items2, r.randrange(4))


def check_C14(c):
    sa, h, sb, items, reads = c
    a, ma = play(h, M.Track(S(sa)))
    b = M.Track(S(sb)); mb = Model()
    for nt, p in items:
        b.add(N(nt), S(p)); mb.add(nt, Fr(*p))
    if reads & 1: list(a)
    if reads & 2: list(b)
    want = Fr(*sa) == Fr(*sb) and ma.bag() == mb.bag()
    for x, y in ((a, b), (b, a), (a, b)):
        r = accepted(lambda: x == y, 'track ==')
        need(bool(r) == want, f'== gave {r}, expected {want}')
        r = accepted(lambda: x != y, 'track !=')
        need(bool(r) != want, f'!= gave {r}, expected {not want}')
    need(a == a and b == b, 'track not equal to itself')
    x = (41, (1, 8), 0.5)
    a.add(N(x), S((3, 4))); ma.add(x, Fr(3, 4))
    for u, v in ((a, b), (b, a)): need(bool(u == v) == (Fr(*sa) == Fr(*sb) and ma.bag() == mb.bag()), 'comparison after another note was added to one')
    b.add(N(x), S((6, 8))); mb.add(x, Fr(3, 4))
    for u, v in ((a, b), (b, a)): need(bool(u == v) == (Fr(*sa) == Fr(*sb) and ma.bag() == mb.bag()), 'comparison after a note was added to both')
    same(sorted(tcontent(a)), ma.bag(), 'comparison changed the track')


# ---------------------------------------------------------------- C15
def dumped_delta(x):
    """Bytes between the note-on and the note-off message of a note that lasts x ticks."""
    tr = M.Track(); tr.add(M.Note(40, (x, 4), .5), (0, 1))
    data = accepted(lambda: M.midi.MIDIWriter(pulses_per_quarter=1).dumps(tr), f'dump with delta {x}')
    on, off = b'\x90\x40\x3f', b'\x80\x40\x40\x00\xff\x2f\x00'
    i = data.find(on)
    need(i >= 0 and data.endswith(off), f'delta {x}: unexpected file {data!r}')
    return data[i + 3:len(data) - 7]


def loaded_delta(body):
    """Outcome of reading a file whose track body begins with these bytes as the first delta time (one tick is 1/4)."""
    def go():
        t = M.midi.MIDIReader().loads(b'MThd\0\0\0\x06\0\0\0\1\0\1' + b'MTrk' + len(body).to_bytes(4, 'big') + body)
        return [x for x, _ in tcontent(t)]
    k, v = outcome(go)
    return ('ok', v) if k == 'ok' else ('exc', type(v).__name__)


def cases_C15(g, n):
    for x in range(0, 600): yield ('enc', x)
    for k in range(1, 12):
        for d in (-2, -1, 0, 1, 2): yield ('enc', max(0, 128 ** k + d))
    for a in (0, 1, 0x7f, 0x80, 0x81, 0xff): 
        yield ('dec', bytes([a]), 0)
        for b in (0, 0x7f, 0x80, 0xff):
            yield ('dec', bytes([a, b]), 0); yield ('dec', bytes([a, b, 5, 0x85]), 1)
    yield ('dec', b'', 0)
    for _ in range(n):
        k = g.r.randrange(5)
        if k == 0: yield ('enc', g.nat())
        elif k == 1: yield ('enc', g.r.getrandbits(g.r.choice([7, 8, 14, 15, 21, 28, 32, 35, 70, 300])))
        elif k == 2: yield ('enc', g.r.choice([g.nat(False), g.r.randrange(1 << 28)]))
        elif k == 3:
            pre = bytes(g.r.randrange(256) for _ in range(g.r.randrange(0, 4)))
            post = bytes(g.r.randrange(256) for _ in range(g.r.randrange(0, 4)))
            yield ('dec', pre + spec.vlq(g.nat()) + post, len(pre))
        else:
            b = bytes(g.r.choice([0x80, 0xff, 0x81, 0, 0x7f, g.r.randrange(256)]) for _ in range(g.r.randrange(0, 12)))
            yield ('dec', b, g.r.randrange(0, len(b) + 1))


NOTE_ON, NOTE_OFF, EOT = b'\x90\x3c\x40', b'\x00\x80\x3c\x40', b'\x00\xff\x2f\x00'


def check_C15(c):
    if c[0] == 'enc':
        x = c[1]
        same(dumped_delta(x), spec.vlq(x), f'encoding of {x}')
        same(loaded_delta(spec.vlq(x) + NOTE_ON + NOTE_OFF + EOT), ('ok', [Fr(x, 4)]), f'decoding the encoding of {x}')
        return
    _, b, s = c
    b = b[s:]
    w = spec.read_vlq(b, 0)
    if w is None:
        same(loaded_delta(b), ('exc', 'MIDIParsingError'), f'decoding {b!r}')
        same(loaded_delta(b'\x00\xff\x01' + b), ('exc', 'MIDIParsingError'), f'decoding the length {b!r}')
        return
    v, used = w
    same(loaded_delta(b[:used] + NOTE_ON + NOTE_OFF + EOT), ('ok', [Fr(v, 4)]), f'decoding {b[:used]!r}')
    if v < 5000: same(loaded_delta(b'\x00\xff\x01' + b[:used] + b'\x00' * v + b'\x05' + NOTE_ON + NOTE_OFF + EOT), ('ok', [Fr(5, 4)]), f'decoding the length {b[:used]!r}')


# ---------------------------------------------------------------- C16
def mk_mid(m):
    if m[0] == 'def': return {}
    return {'middle_c': M.Tone(m[1]) if m[0] == 'tone' else m[1]}


def mid_pitch(m): return 36 if m[0] == 'def' else m[1] if m[0] in ('tone', 'int') else spec.parse_notation(m[1])


def cases_C16(g, n):
    for ch in range(-2, 19): yield ('cfg', 96, ch)
    for p in (-1, 0, 1, 2, 32766, 32767, 32768, 65535): yield ('cfg', p, 3)
    for k in (-1, 0, 1, 63, 64, 126, 127, 128):
        for v in (0.0, 1.0, 0.5, 0.999, 1 / 127.0, 0.00787): yield ('msg', 96, ('def',), k % 16, 120.0, (4, 4), k, v)
    for k in range(0, 128): yield ('msg', 96, ('def',), k % 16, 120.0, (4, 4), k, k / 127.0)
    for s in ((255, 1), (256, 1), (0, 1), (1, 2 ** 255), (1, 2 ** 256), (1000, 4)): yield ('msg', 96, ('def',), 0, 120.0, s, 60, .5)
    for k in (0, 1, 14, 29, 8200): yield ('chunk', k)
    for b in (3.5, 3.576278, 3.5763, 4, 0, -120, 1e9, 1e300, 6e7, float('inf'), float('nan'), 0.1, 60000000 / 0xFFFFFF, 60000000 / 0x1000000): yield ('msg', 96, ('def',), 0, b, (4, 4), 60, .5)
    for _ in range(n):
        yield ('msg', g.ppq(), g.middle(), g.r.randrange(16), g.bpm(), g.sigfits() if g.r.random() < .8 else g.sig(), g.r.choice([g.r.randrange(128), g.r.randrange(-5, 135), 60]), g.vel())
    for _ in range(n // 200): yield ('chunk', g.r.choice([0, 1, 13, 14, 28, 29, 60, 300, 8190, 8200]))


def tempo_of(bpm):
    try: return int(60000000 / bpm)
    except (ZeroDivisionError, ValueError, OverflowError): return None


def check_C16(c):
    W = M.midi.MIDIWriter
    if c[0] == 'cfg':
        _, ppq, ch = c
        if 1 <= ppq <= 32767 and 0 <= ch <= 15: accepted(lambda: W(pulses_per_quarter=ppq, channel=ch), f'writer {c}')
        else: refused(lambda: W(pulses_per_quarter=ppq, channel=ch), ('ValueError',), f'writer {c}')
        return
    if c[0] == 'chunk':
        t = M.Track()
        for i in range(c[1]): t.add(M.Note(36, (1, 4), .5), (i, 4))
        data = accepted(lambda: W(pulses_per_quarter=1).dumps(t), f'dump of {c[1]} notes')
        try: p, kind, ntr, evs = spec.parse_written(data)
        except AssertionError as e: raise Fail(f'malformed file with {c[1]} notes: {e}')
        same(sum(e[0] == 0x90 for _, e in evs), c[1], 'note on messages')
        return
    _, ppq, mid, ch, bpm, sg, key, v = c
    w = W(pulses_per_quarter=ppq, bpm=bpm, channel=ch, **mk_mid(mid))
    pitch = key - 60 + mid_pitch(mid)
    note = M.Note(pitch, (1, 4), v)
    t = M.Track(S(sg)); t.add(note, (0, 1))
    tempo = tempo_of(bpm)
    ok_key = 0 <= key <= 127
    fits = sg[0] <= 255 and sg[1].bit_length() - 1 <= 255 and tempo is not None and 0 <= tempo <= 0xFFFFFF
    if not ok_key:
        refused(lambda: w.dumps(t), ('ValueError', 'OverflowError', 'ZeroDivisionError') if not fits else ('ValueError',), f'dump {c}'); return
    k, data = outcome(lambda: w.dumps(t))
    if not fits:
        need(k == 'exc', f'value that does not fit accepted: {c}'); return
    if k == 'exc': raise Fail(f'dump {c} raised {type(data).__name__}: {data}')
    try: p, kind, ntr, evs = spec.parse_written(data)
    except AssertionError as e: raise Fail(f'malformed file: {e}')
    same((p, kind, ntr), (ppq, 0, 1), 'header')
    byname = {bytes(e[:2]): e for _, e in evs if e[0] == 0xFF}
    s = byname.get(b'\xFF\x58'); need(s is not None and s[2] == 4 and s[3] == sg[0] and s[4] == sg[1].bit_length() - 1, f'time signature event {s!r} for {sg}')
    s = byname.get(b'\xFF\x51'); need(s is not None and s[2] == 3 and int.from_bytes(s[3:], 'big') == tempo, f'tempo event {s!r}, expected {tempo}')
    on = [e for _, e in evs if e[0] >> 4 == 9]; off = [e for _, e in evs if e[0] >> 4 == 8]
    same(on, [bytes([0x90 | ch, key, int(v * 127)])], 'note on'); same(off, [bytes([0x80 | ch, key, 64])], 'note off')


# ---------------------------------------------------------------- C17
def cases_C17(g, n):
    r = g.r
    for _ in range(n):
        mid = g.middle()
        mp = mid_pitch(mid)
        h = []
        for o in g.history():
            if o[0] == 'add' and (r.random() < .97):
                key = r.choice([60, 61, 62, r.randrange(128)])
                h.append(('add', (key - 60 + mp,) + o[1][1:], o[2], o[3]))
            elif o[0] == 'add': h.append(o)
        if r.random() < .5:
            h = [('add', (o[1][0], (r.choice([0, 1, 2, 3]), r.choice([1, 2, 4])), o[1][2]), (r.randrange(0, 6), 4), 0) for o in h]
        if r.random() < .04: h += [('add', (mp, (1, 8), (i % 7) / 7.0), (i, 8), 0) for i in range(r.choice([60, 300]))]
        yield (g.ppq(), mid, r.randrange(16), g.bpm(), g.sigfits() if r.random() < .9 else g.sig(), h, r.random() < .3)


class Rec(io.BytesIO):
    pass


def spec_dump(ppq, mid, ch, bpm, sg, ordered):
    """Expected events [(time, bytes)] or None when the dump must be refused."""
    tempo = tempo_of(bpm)
    if sg[0] > 255 or sg[1].bit_length() - 1 > 255 or tempo is None or not 0 <= tempo <= 0xFFFFFF: return None
    evs = []
    for p, nt in ordered:
        key = nt[0] + 60 - mid
        if not 0 <= key <= 127: return None
        t0 = spec.floor_pulses(ppq, p)
        evs.append((t0, bytes([0x90 | ch, key, int(nt[2] * 127)])))
        evs.append((t0 + spec.floor_pulses(ppq, Fr(*nt[1])), bytes([0x80 | ch, key, 64])))
    evs.sort(key=lambda e: e[0])
    return tempo, evs


def check_C17(c):
    ppq, mid, ch, bpm, sg, ops, pre = c
    kw = dict(bpm=bpm, channel=ch)
    t, m = play(ops, M.Track(S(sg)))
    W = M.midi.MIDIWriter(pulses_per_quarter=ppq, **kw, **mk_mid(mid))
    f = Rec()
    want = spec_dump(ppq, mid_pitch(mid), ch, bpm, sg, m.sorted())
    k, v = outcome(lambda: W.dump(t, f))
    data = f.getvalue()
    if want is None:
        need(k == 'exc', 'dump accepted a value that does not fit')
        need(data == b'', f'a failed dump wrote {len(data)} bytes'); return
    if k == 'exc': raise Fail(f'dump raised {type(v).__name__}: {v}')
    try: p, kind, ntr, evs = spec.parse_written(data)
    except AssertionError as e: raise Fail(f'malformed file: {e}')
    except IndexError: raise Fail('malformed file: truncated')
    same((p, kind, ntr), (ppq, 0, 1), 'header')
    tempo, wevs = want
    metas = [(tm, e) for tm, e in evs if e[0] == 0xFF]
    same([e[1] for _, e in metas][-1], 0x2F, 'last event')
    same(sorted(e[1] for _, e in metas), [0x2F, 0x51, 0x58], 'meta events')
    sgev = [e for tm, e in metas if e[1] == 0x58][0]
    same(tuple(sgev[3:5]), (sg[0], sg[1].bit_length() - 1), 'time signature')
    same([int.from_bytes(e[3:], 'big') for tm, e in metas if e[1] == 0x51], [tempo], 'tempo')
    need(all(tm == 0 for tm, e in metas if e[1] != 0x2F), 'time of signature or tempo')
    same([x for x in evs if x[1][0] != 0xFF], wevs, 'note events')
    same(bytes(accepted(lambda: W.dumps(t), 'dumps')), data, 'dumps differs from dump')
    if ppq == 96 and mid == ('def',) or pre:
        k0, base = outcome(lambda: M.midi.MIDIWriter(**kw).dumps(t)) if ppq != 96 or mid != ('def',) else ('ok', data)
        if k0 == 'exc':
            need(outcome(lambda: M.midi.dumps(t, bpm=bpm, channel=ch))[0] == 'exc', 'module dumps accepts what the writer refuses')
            return
        k1, d1 = outcome(lambda: M.midi.dumps(t, bpm=bpm, channel=ch))
        need(k1 == 'ok' and bytes(d1) == base, 'module dumps differs')
        f2 = Rec(); M.midi.dump(t, f2, bpm=bpm, channel=ch)
        same(f2.getvalue(), base, 'module dump differs')
        if bpm == 120.0 and ch == 0: same(bytes(M.midi.dumps(t)), base, 'module defaults differ')
    same(sorted(tcontent(t)), m.bag(), 'dump changed the track')
    x = (mid_pitch(mid), (1, 2), 0.5)
    for q in (None, (1, 4), (0, 1)):              # the same writer and track again, with more notes
        t.add(N(x), q); m.add(x, None if q is None else Fr(*q))
        want = spec_dump(ppq, mid_pitch(mid), ch, bpm, sg, m.sorted())
        p, kind, ntr, evs = spec.parse_written(bytes(accepted(lambda: W.dumps(t), 'dumps')))
        same([e for e in evs if e[1][0] != 0xFF], want[1], 'note events of the same track with another note')
    p, kind, ntr, evs = spec.parse_written(bytes(accepted(lambda: W.dumps(M.Track(S(sg))), 'dumps')))
    same([e for e in evs if e[1][0] != 0xFF], [], 'note events of an empty track written afterwards')


# ---------------------------------------------------------------- C18, C20
def g_file(g, pair_bias=False):
    r = g.r
    evs = g.stream()
    after = g.foreign()
    trailing = r.choice([b'', b'', b'\x00\x90\x3c\x40', b'\xff', bytes(r.randrange(256) for _ in range(5))])
    return (evs, g.ppq(), g.middle(), g.foreign(), after, trailing)


def cases_C18(g, n):
    for st in (0xF4, 0xF5, 0xF7, 0xF9, 0xFD):
        for n_ in (0, 1, 2): yield ('undefined', st, n_)
    # every status byte followed by a note
    for st in list(range(0xA0, 0xF0)):
        yield ([(3, ('chan', st, [5] * spec.LENS[st >> 4])), (2, ('on', 1, 60, 100)), (7, ('off', 1, 60, 0)), (0, ('eot',))], 96, ('def',), [], [], b'')
    for st in sorted(spec.SYS):
        yield ([(3, ('sys', st, [5] * spec.SYS[st])), (2, ('on', 1, 60, 100)), (7, ('off', 1, 60, 0)), (0, ('eot',))], 96, ('def',), [], [], b'')
    for ch in range(16):
        for k in ('on', 'off'):
            yield ([(3, ('on', ch, 60, 100)), (2, ('on', ch, 61, 1)), (4, ('run', ('on', ch, 60, 0))), (1, ('off', ch, 61, 9)), (1, ('run', ('off', ch, 60, 9))), (0, ('eot',))], 96, ('def',), [], [], b'')
    for kind in range(128):
        if kind in (0x2F, 0x20, 0x58): continue
        yield ([(3, ('meta', kind, [0xF7, 0x2F, 0xFF])), (2, ('on', 1, 60, 100)), (7, ('off', 1, 60, 0)), (0, ('eot',))], 96, ('def',), [], [], b'')
    for ln in (0, 1, 2, 50, 127):
        yield ([(3, ('sysex', [1] * ln)), (2, ('on', 1, 60, 100)), (7, ('off', 1, 60, 0)), (0, ('eot',))], 96, ('def',), [(b'XXXX', b'\x00' * 300)], [(b'YYYY', b'\x01' * 256)], b'')
    eot, pair = (0, ('eot',)), [(2, ('on', 1, 60, 100)), (7, ('off', 1, 60, 0))]
    for k in (1, 40, 1500): yield (pair + [eot], 96, ('def',), [(b'XXXX', b'')] * k, [(b'YYYY', b'\x01')] * k, b'')
    for e in (('prefix', 3), ('meta', 1, [32]), ('sysex', []), ('sys', 0xF6, []), ('chan', 0xC3, [5]), ('on', 1, 60, 9), ('off', 1, 60, 9), ('sig', 5, 3, 24, 8)):
        yield ([(1, e)] * 1500 + pair + [eot], 96, ('def',), [], [], b'')
    yield (pair * 800 + [eot], 96, ('def',), [], [], b'')
    for nm in (255, 256, 65535, 65536, 70000, 1 << 24):
        yield ([(2, ('on', 1, 60, 100)), (7, ('off', 1, 60, 0)), (0, ('eot',))], 96, ('def',), [(b'JUNK', nm)], [], b'')
    for _ in range(n): yield g_file(g)


def cases_C20(g, n):
    r = g.r
    for v in range(1, 128):
        yield ([(v, ('on', v % 16, v, v)), (v * 3, ('off', v % 16, v, 0)), (0, ('eot',))], 1 + v * 7, ('def',), [], [], b'')
    for _ in range(n):
        if r.random() < .4: yield g_file(g)
        else:
            # dense pairing streams
            evs = []
            keys = [60, 61][:r.choice([1, 2])]; chans = [r.randrange(16) for _ in range(r.choice([1, 2]))]
            for _ in range(r.choice([2, 4, 6, 10])):
                ch, key = r.choice(chans), r.choice(keys)
                evs.append((r.choice([0, 0, 1, 5, 96, g.delta()]), r.choice([('on', ch, key, r.randrange(128)), ('off', ch, key, 64), ('on', ch, key, 100)])))
                if r.random() < .12: evs.append((0, ('prefix', r.choice(chans))))
                if r.random() < .2: evs.append((0, ('sig', r.randrange(0, 20), r.randrange(0, 6), 24, 8)))
            evs.append((0, ('eot',)))
            yield (evs, g.ppq(), g.middle(), [], [], b'')


def track_eq(t, s, notes, what):
    same(fr(t.signature), s, f'{what}: signature')
    got = sorted(tcontent(t))
    want = sorted((p, (pi, d, v)) for p, pi, d, v in notes)
    if [(p, x[:2]) for p, x in got] != [(p, x[:2]) for p, x in want] or any(a[1][2] != b[1][2] for a, b in zip(got, want)):
        raise Fail(f'{what}: got {got}, expected {want}')
    for p, n in t: valid(p, 'position'); valid(n.duration, 'duration')


def check_C18(c):
    if c[0] == 'undefined':
        note = [(2, ('on', 1, 60, 100)), (7, ('off', 1, 60, 0)), (0, ('eot',))]
        for evs in ([(3, ('sys', c[1], [5] * c[2]))] + note, note[:2] + [(3, ('sys', c[1], [5] * c[2]))] + note):
            data = spec.encode(evs, 96, 0, 1, [], [])
            refused(lambda: M.midi.loads(data), ('MIDIParsingError',), f'undefined status {c[1]:#x}')
        return
    evs, tpq, mid, before, after, trailing = c
    fix = lambda cs: [(k, bytes(b) if isinstance(b, int) else b) for k, b in cs]
    # trailing bytes inside the track chunk, after end of track
    data = spec.encode(evs, tpq, 0, 1, fix(before), fix(after))
    if trailing:
        body = b''.join((d if isinstance(d, bytes) else spec.vlq(d)) + spec.ev_bytes(e) for d, e in evs) + trailing
        full = spec.encode(evs, tpq, 0, 1, fix(before), [])
        head = full[:full.rindex(b'MTrk')] if not before else spec.encode([], tpq, 0, 1, fix(before), [])[:-8]
        data = head + b'MTrk' + len(body).to_bytes(4, 'big') + body
        for k, b in fix(after): data += k + len(b).to_bytes(4, 'big') + b
    R = M.midi.MIDIReader(**mk_mid(mid))
    want = spec.interpret(spec.plain(evs), tpq, mid_pitch(mid))
    for ch in sorted(want):
        t = accepted(lambda: R.loads(data, channel=ch), f'channel {ch}')
        track_eq(t, want[ch][0], want[ch][1], f'channel {ch}')
    missing = [x for x in range(16) if x not in want]
    if missing: refused(lambda: R.loads(data, channel=missing[0]), ('ValueError',), 'missing channel')
    t = accepted(lambda: R.loads(data), 'all channels')
    track_eq(t, max([s for s, _ in want.values()] + [Fr(0)]), [x for _, ns in want.values() for x in ns], 'all channels')
    other = spec.encode([(3, ('sig', 5, 3, 24, 8)), (2, ('prefix', 11)), (0, ('on', 5, 70, 9)), (9, ('on', 4, 71, 9)), (0, ('on', 4, 72, 9)), (0, ('off', 4, 72, 0)), (0, ('eot',))], 7, 0, 1, [], [])
    o = spec.interpret(spec.plain([(3, ('sig', 5, 3, 24, 8)), (2, ('prefix', 11)), (0, ('on', 5, 70, 9)), (9, ('on', 4, 71, 9)), (0, ('on', 4, 72, 9)), (0, ('off', 4, 72, 0)), (0, ('eot',))]), 7, mid_pitch(mid))
    for oc in sorted(o): track_eq(accepted(lambda: R.loads(other, channel=oc), 'another file'), o[oc][0], o[oc][1], 'another file')
    t = accepted(lambda: R.load(io.BytesIO(data)), 'load')
    track_eq(t, max([s for s, _ in want.values()] + [Fr(0)]), [x for _, ns in want.values() for x in ns], 'load from file')
    if mid == ('def',):
        ch = sorted(want)[0]
        for f in (lambda: M.midi.loads(data, ch), lambda: M.midi.load(io.BytesIO(data), ch)):
            track_eq(accepted(f, 'module load'), want[ch][0], want[ch][1], 'module load')


check_C20 = check_C18


# ---------------------------------------------------------------- C19
def cases_C19(g, n):
    r = g.r
    def hdr(k=0, t=1, d=96): return b'MThd\x00\x00\x00\x06' + k.to_bytes(2, 'big') + t.to_bytes(2, 'big') + d.to_bytes(2, 'big')
    def trk(b, ln=None): return b'MTrk' + (len(b) if ln is None else ln).to_bytes(4, 'big') + b
    yield (b'', None); yield (b'MThd', None); yield (hdr(), None); yield (trk(b'\x00\xff\x2f\x00'), None)
    for st in range(256):
        for tail in (b'', b'\x00', b'\x00\x00\xff\x2f\x00', b'\x3c\x40\x00\xff\x2f\x00', b'\xf7\x00\xff\x2f\x00'):
            yield (hdr() + trk(b'\x00' + bytes([st]) + tail), None)
            yield (hdr() + trk(b'\x00\x90\x3c\x40\x00' + bytes([st]) + tail), None)
    for k in range(256):
        for ln in (0, 1, 2, 3, 4, 5, 127): yield (hdr() + trk(b'\x00\xff' + bytes([k, ln]) + b'\x00' * 4 + b'\x00\xff\x2f\x00'), None)
    for d in (0, 1, 2, 0x7FFF, 0x8000, 0xFFFF): yield (hdr(d=d) + trk(b'\x05\x90\x3c\x40\x05\x80\x3c\x40\x00\xff\x2f\x00'), None)
    for ln in range(0, 9): yield (b'MThd' + ln.to_bytes(4, 'big') + hdr()[8:8 + ln] + trk(b'\x00\xff\x2f\x00'), None)
    for dd in (0, 255, 128): yield (hdr() + trk(b'\x00\xff\x58\x04' + bytes([255, dd, 0, 0]) + b'\x00\xff\x2f\x00'), None)
    # thousands of one thing: no recursion by the number of chunks, events, bytes
    E = b'\x00\xff\x2f\x00'
    note = b'\x05\x90\x3c\x40\x05\x80\x3c\x40'
    yield (hdr() + trk(note + E) + (b'XXXX' + bytes(4)) * 1500, None)
    yield (hdr() + (b'XXXX' + bytes(4)) * 1500 + trk(note + E), 0)
    yield (hdr() * 1500 + trk(note + E), None)
    yield (hdr() + trk(note + E) * 1500, None)
    for e in (b'\x00\xff\x20\x01\x03', b'\x00\xff\x58\x04\x03\x02\x18\x08', b'\x00\xff\x01\x01\x20', b'\x00\xf0\xf7', b'\x00\xf6', b'\x00\xf2\x01\x02', b'\x00\xc3\x05', b'\x00\xe3\x05\x06',
              note, b'\x00\x90\x3c\x40', b'\x00\x80\x3c\x40'):
        yield (hdr() + trk(e * 1500 + E), None)
    yield (hdr() + trk(note + b'\x00\x3c\x40' * 1500 + E), None)
    yield (hdr() + trk(b'\x81' * 3000 + b'\x00' + note[1:] + E), None)
    for kind in (0x01, 0x20, 0x2F, 0x51, 0x58, 0x7F):      # lengths too long to be written in decimal
        for lead in (b'\x80', b'\x81'): yield (hdr() + trk(b'\x00\xff' + bytes([kind]) + lead * 3000 + b'\x00' + E), None)
    yield (hdr() + trk(b''.join(b'\x00' + bytes([0x90 + i % 16, i % 128, 64]) for i in range(2048)) + b''.join(b'\x01' + bytes([0x80 + i % 16, i % 128, 64]) for i in range(2048)) + E), None)
    for _ in range(n):
        c = g_file(g)
        data = spec.encode(c[0], c[1], 0, 1, c[3], c[4])
        b = bytearray(data)
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            if not b: break
            k = r.randrange(5); i = r.randrange(len(b))
            if k == 0: b[i] = r.choice([0, 0xFF, 0x80, 0xF0, 0xF7, 0x7f, r.randrange(256)])
            elif k == 1: del b[i:i + r.choice([1, 2, 5])]
            elif k == 2: b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4])))
            elif k == 3: del b[i:]
            else: b[i] ^= 1 << r.randrange(8)
        if r.random() < .1: b = bytearray(hdr() + trk(bytes(r.choice([0, 0xff, 0x90, 0x80, r.randrange(256)]) for _ in range(r.randrange(0, 30)))))
        yield (bytes(b), r.choice([None, None, 0, 1, 9, 15, -1, 255]))
    if n > 300: yield (hdr() + trk(b'\x00\x90\x3c\x40' + b'\x00\x3c\x40' * 20000), None)
    yield (hdr() + trk(b'\xff' * 3000), None)
    yield (hdr() + trk(b'\x00\xf0' + b'\x01' * 3000), None)


def check_C19(c):
    data, ch = c
    for via in (lambda: M.midi.MIDIReader().loads(data, channel=ch), lambda: M.midi.MIDIReader().load(io.BytesIO(data), channel=ch)):
        try: r = via()
        except M.midi.MIDIParsingError: continue
        except ValueError as e:
            if ch is not None and type(e) is ValueError:
                # must be the missing-channel error: the same file without a channel is readable
                try: M.midi.MIDIReader().loads(data)
                except M.midi.MIDIParsingError: raise Fail('ValueError on an unreadable file')
                except Exception as e2: raise Fail(f'{type(e2).__name__}: {e2}')
                continue
            raise Fail(f'ValueError: {e}')
        except Exception as e: raise Fail(f'{type(e).__name__}: {e}')
        need(isinstance(r, M.Track), f'not a track: {type(r)}')


# ---------------------------------------------------------------- C21
def cases_C21(g, n):
    for _ in range(n):
        ppq, notes = g.representable()
        sg = g.sigfits()
        if sg[0] == 0: sg = (1, sg[1])
        yield (ppq, notes, g.middle(), g.r.randrange(16), sg, g.bpm())


def check_C21(c):
    ppq, notes, mid, ch, sg, bpm = c
    tempo = tempo_of(bpm)
    if tempo is None or not 0 <= tempo <= 0xFFFFFF: bpm = 120.0
    mp = mid_pitch(mid)
    t = M.Track(S(sg))
    want = []
    for p, key, d, v in notes:
        t.add(M.Note(key - 60 + mp, S(d), v), S(p))
        want.append((Fr(*p), key - 60 + mp, Fr(*d), int(v * 127) / 127.0))
    W = M.midi.MIDIWriter(pulses_per_quarter=ppq, channel=ch, bpm=bpm, **mk_mid(mid))
    R = M.midi.MIDIReader(**mk_mid(mid))
    data = accepted(lambda: W.dumps(t), 'dumps')
    u = accepted(lambda: R.loads(data), 'loads')
    track_eq(u, Fr(*sg), want, 'read back')
    same(nd(u.signature), tuple(sg), 'signature')
    if notes: track_eq(accepted(lambda: R.loads(data, channel=ch), 'loads channel'), Fr(*sg), want, 'read back by channel')
    same(accepted(lambda: W.dumps(u), 'dumps again'), data, 'bytes written again')
    f = io.BytesIO(); W.dump(t, f); f.seek(0)
    track_eq(accepted(lambda: R.load(f), 'load'), Fr(*sg), want, 'read back from file')


# ---------------------------------------------------------------- C22
def cases_C22(g, n):
    for nm in spec.CHORDS:
        for b in (('int', 0), ('int', -7), ('str', 'Eb3'), ('tone', 40), ('note', (30, (3, 8), 0.25))):
            for d, v in ((None, None), (('tuple', (1, 2)), None), (None, 0.5), (('sig', (3, 16)), 0.0), (('tuple', (0, 1)), 1.0)): yield (nm, b, d, v)
    yield ('generator',)
    for _ in range(n):
        b = g_tone(g) if g.r.random() < .6 else ('note', g.note())
        yield (g.r.choice(sorted(spec.CHORDS)), b, g.r.choice([None, g_dur(g)]), g.r.choice([None, None, g.anyvel()]))


def load_generated():
    import tempfile, subprocess
    root = os.environ.get('REPO_ROOT', '/repo')
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, 'gen_chord.py')
        r = subprocess.run([sys.executable, '-B', os.path.join(root, 'scripts', 'generate_chords.py'), out], capture_output=True, timeout=60)
        if r.returncode: raise Fail('generator script failed: ' + r.stderr.decode()[-300:])
        sp = importlib.util.spec_from_file_location('gen_chord', out)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        return m


def check_chord(mod, c):
    nm, b, d, v = c
    f = getattr(mod, nm, None)
    need(f is not None, f'chord function {nm} missing')
    mk = lambda: N(b[1]) if b[0] == 'note' else mk_tone(b)
    pitch = b[1][0] if b[0] == 'note' else tone_pitch(b)
    wd = (b[1][1] if b[0] == 'note' else (1, 4)) if d is None else d[1] if d[0] in ('sig', 'tuple', 'list') else None
    wv = (b[1][2] if b[0] == 'note' else 0.75) if v is None else v
    if d is not None and d[0] == 'gen': d = ('tuple', d[1]); wd = d[1]
    if d is not None and d[0] == 'raw' and d[1] is None: d = None; wd = b[1][1] if b[0] == 'note' else (1, 4)
    call = lambda: f(mk(), *([] if d is None else [mk_dur(d)]), **({} if v is None else {'velocity': v}))
    if pitch is None or (d is not None and (d[0] == 'raw' or not spec.sig_ok(*wd))) or not vel_ok(wv):
        need(outcome(call)[0] == 'exc', f'{nm}{c} accepted'); return
    r = accepted(call, f'{nm}{c}')
    need(isinstance(r, tuple), 'not a tuple')
    ok = lambda r, w: same([triple(x) for x in r], [(pitch + i, tuple(wd), wv) for i in spec.CHORDS[nm]], w)
    ok(r, f'{nm}{c}')
    same([triple(x) for x in f(N((pitch, (5, 8), 0.125)))], [(pitch + i, (5, 8), 0.125) for i in spec.CHORDS[nm]], f'{nm} of a note of the same pitch after {c}')
    same([triple(x) for x in f(pitch + 1)], [(pitch + 1 + i, (1, 4), 0.75) for i in spec.CHORDS[nm]], f'{nm}({pitch + 1}) after {c}')
    ok(accepted(call, f'{nm}{c}'), f'{nm}{c} a second time')


def check_C22(c):
    if c == ('generator',):
        mod = load_generated()
        names = {k for k, f in vars(mod).items() if callable(f) and getattr(f, '__module__', '') == mod.__name__ and not k.startswith('_')}
        mine = {k for k, f in vars(M.chord).items() if callable(f) and getattr(f, '__module__', '') == M.chord.__name__ and not k.startswith('_')}
        need(set(spec.CHORDS) <= names, f'generator lacks {set(spec.CHORDS) - names}')
        need(names <= mine, f'chord module lacks {names - mine}')
        for nm in sorted(spec.CHORDS):
            for b in (('int', 10), ('str', 'F#2'), ('tone', -3), ('note', (30, (3, 8), 0.25))):
                for d, v in ((None, None), (('tuple', (1, 2)), 0.5)): check_chord(mod, (nm, b, d, v))
        for nm in names - set(spec.CHORDS): same([triple(x) for x in getattr(mod, nm)(5)], [triple(x) for x in getattr(M.chord, nm)(5)], nm)
        return
    check_chord(M.chord, c)


# ---------------------------------------------------------------- C23
def cases_C23(g, n):
    r = g.r
    for a in (-0.1, 0, 0.0, 0.5, 1.0, 1.1, float('nan')):
        for nm in ('minimum', 'maximum', 'mean', 'variance'): yield ('param', [('add', (40, (1, 4), .5), (0, 1), 0)], {nm: a}, 1)
    for a in (1.0000000000000002, 1.00005, -5e-324, -1e-10, 5e-324, 1e-10, 1, float('inf'), float('-inf')):
        for nm in ('minimum', 'maximum', 'mean', 'variance'): yield ('param', [('add', (40, (1, 4), .5), (0, 1), 0)] * r.randrange(2), {nm: a}, 1)
    for _ in range(n):
        if not r.randrange(4): yield ('param', g.history() if r.randrange(2) else [], {nm: g.anyvel() for nm in ('minimum', 'maximum', 'mean', 'variance') if r.randrange(2)}, 2)
        lo, hi = sorted((g.vel(), g.vel()))
        kw = r.choice([{}, {'minimum': lo, 'maximum': hi}, {'minimum': lo, 'maximum': hi, 'mean': g.vel(), 'variance': r.choice([0, 0.0, 0.01, 1.0, 100.0, g.nat(False)])}, {'variance': 4.0}, {'minimum': lo, 'maximum': lo}])
        yield ('ok', g.history(), kw, r.randrange(1 << 30))


def check_C23(c):
    kind, ops, kw, seed = c
    f = M.proc.randomize_velocities
    t, m = play(ops, M.Track((3, 8)))
    full = dict(minimum=0.5, maximum=1.0, mean=0.75, variance=0.01); full.update(kw)
    bad = not all(0 <= full[k] <= 1.0 for k in ('minimum', 'maximum', 'mean')) or not full['variance'] >= 0
    random.seed(seed)
    if bad: refused(lambda: f(t, **kw), ('ValueError',), f'randomize_velocities {kw}'); return
    if full['minimum'] > full['maximum']: return
    u = accepted(lambda: f(t, **kw), f'randomize_velocities {kw}')
    need(u is not t and isinstance(u, M.Track), 'not a new track')
    same(nd(u.signature), nd(t.signature), 'signature')
    same(len(u), len(t), 'number of notes')
    strip = lambda bag: sorted((p, k[0], k[1]) for p, k in bag)
    same(strip(tcontent(u)), strip(m.bag()), 'tones, durations, positions')
    for p, n in u: need(full['minimum'] <= n.velocity <= full['maximum'], f'velocity {n.velocity} outside [{full["minimum"]}, {full["maximum"]}]')
    same(tcontent(t), [(p, nkey(n)) for p, n in m.sorted()], 'input track changed')
    x = (40, (1, 2), 0.5)
    t.add(N(x), (1, 8)); m.add(x, Fr(1, 8))
    u2 = accepted(lambda: f(t, minimum=0.25, maximum=0.375, mean=0.5, variance=1.0), 'randomize_velocities again')
    same(strip(tcontent(u2)), strip(m.bag()), 'tones, durations, positions of a second call')
    for p, n in u2: need(0.25 <= n.velocity <= 0.375, f'second call: velocity {n.velocity}')
    same(len(u), len(t) - 1, 'the first result after the second call')


# ---------------------------------------------------------------- C24
def cases_C24(g, n):
    for p in (-13, 0, 57): yield ('tone', p)
    for _ in range(n):
        k = g.r.randrange(4)
        if k == 0: yield ('tone', g.int())
        elif k == 1: yield ('sig', g.sig())
        elif k == 2: yield ('note', (g.pitch(), g.sig(), g.vel()))
        else: yield ('track', g.history(), g.sig())


def check_C24(c):
    ns = {'Tone': M.Tone, 'Signature': M.Signature, 'Note': M.Note, 'Track': M.Track}
    ev = lambda o: accepted(lambda: eval(repr(o), dict(ns)), f'eval of {repr(o)[:200]}')
    if c[0] == 'tone': same(ev(M.Tone(c[1])).pitch, c[1], 'tone')
    elif c[0] == 'sig': same(nd(ev(S(c[1]))), tuple(c[1]), 'signature')
    elif c[0] == 'note':
        n = N(c[1]); r = ev(n)
        need(isinstance(r, M.Note), 'not a note')
        same(nkey((r.tone.pitch, nd(r.duration), r.velocity)), nkey(c[1]), 'note')
    else:
        t, m = play(c[1], M.Track(S(c[2])))
        u = ev(t)
        need(isinstance(u, M.Track), 'not a track')
        same(fr(u.signature), Fr(*c[2]), 'signature')
        same(sorted(tcontent(u)), m.bag(), 'contents')
        x = (40, (1, 2), 0.5)
        t.add(N(x), (1, 8)); m.add(x, Fr(1, 8))
        same(sorted(tcontent(ev(t))), m.bag(), 'contents after another note'); need(len(u) == len(t) - 1, 'the evaluated track is not another track')


ALL = [f'C{i:02d}' for i in range(1, 25)]
