"""Contracts of melodia.core.note."""
from .base import *
from .signature import val, CMPS
from .tone import spec_lang
from pyvc import stdlib

DEFAULT = object()


def notation_of(vm, name):
    """A valid notation denoting an arbitrary pitch (parsed by the contract of Tone.from_notation)."""
    p = vm.sym_int(name)
    o = OpaqueTxt('ok'); o.facts['pitch'] = p
    return SStr([o]), p.t


def bad_notation():
    o = OpaqueTxt('bad'); o.facts['not_in'] = spec_lang()
    return SStr([o])


def any_duration(vm, prefix, ch):
    """(value, kind, (n, d) or None); kind: ok pair/signature term condition, or 'type' for other kinds."""
    if ch == 'sig':
        s, n, d = sym_sig(vm, prefix); return s, z3.BoolVal(True), (n, d)
    if ch in ('tuple', 'list', 'iter'):
        n, d = vm.sym_int(prefix + '_n'), vm.sym_int(prefix + '_d')
        ok = z3.And(n.t >= 0, d.t > 0, isp2(d.t))
        v = (n, d) if ch == 'tuple' else SymList([('item', n), ('item', d)])
        if ch == 'iter': v = stdlib.LazyIter(v)
        return v, ok, (n.t, d.t)
    if ch.startswith('len'):
        xs = [vm.sym_int(f'{prefix}_{x}') for x in 'nde'][:int(ch[3:])]
        return tuple(xs), 'len', None
    if ch == 'default': return DEFAULT, z3.BoolVal(True), (z3.IntVal(1), z3.IntVal(4))
    return {'none': None, 'int': 3, 'float': 0.25, 'sym': vm.sym_int('rawdur')}[ch], None, None


DUR = ['sig', 'tuple', 'list', 'iter', 'default', 'none', 'int', 'float', 'sym', 'len0', 'len1', 'len3']


def wrong_len(m): return {f'len{k}': ('wrong', tuple(m.get('dur_' + x, 1) for x in 'nde')[:k]) for k in (0, 1, 3)}


def spec_note(vm, name, props, call, want, fr=None):
    """want: (ok condition, type_error?, pitch, (n, d), velocity term).  Compares outcome with the contract.
    type_error 'len': a sequence of a length other than 2 is refused, with either error."""
    ok, typeerr, p, nd, v = want
    k, r = outcome(vm, call)
    if k == 'exc':
        if typeerr == 'len': vm.prove(f'{props} {name} refuses sequences that are not pairs with TypeError or ValueError', exc_is(r, 'TypeError') or exc_is(r, 'ValueError'))
        elif typeerr:
            # another argument may be invalid as well; then either error is right
            vm.prove(f'{props} {name} refuses other kinds with TypeError', True if exc_is(r, 'TypeError') else (z3.Not(ok) if exc_is(r, 'ValueError') else False))
        else:
            vm.prove(f'{props} {name} refuses only invalid arguments', z3.Not(ok))
            vm.prove(f'{props} {name} refuses invalid arguments with ValueError', exc_is(r, 'ValueError'))
        if fr is not None: vm.prove(f'{props} {name} leaves its inputs unchanged', fr.same(vm))
        return
    if typeerr: vm.prove(f'{props} {name} refuses ' + ('sequences that are not pairs' if typeerr == 'len' else 'other kinds with TypeError'), False); return
    vm.prove(f'{props} {name} accepts only valid arguments', ok)
    o = obs_note(vm, r)
    if o is None: vm.prove(f'{props} {name} returns a note', False); return
    vm.prove(f'{props} {name}: tone', o[0] == p)
    vm.prove(f'{props} {name}: duration', z3.And(o[1] == nd[0], o[2] == nd[1]))
    vm.prove(f'{props} {name}: velocity', feq(o[3], v))
    if fr is not None: vm.prove(f'{props} {name} leaves its inputs unchanged', fr.same(vm))


class NoteC(Contract):
    mod = NOTEM


@register
class Init(NoteC):
    qual = 'Note.__init__'
    props = ('C08',)
    def variants(self):
        return [(t, (lambda t: lambda vm: self.go(vm, t))(t)) for t in ('tone', 'int', 'str', 'badstr', 'none', 'float', 'list', 'bytes', 'sig')]
    def go(self, vm, tk):
        dk = DUR[vm.choose(len(DUR))] if tk in ('tone', 'int', 'str') else ['sig', 'tuple'][vm.choose(2)]
        vk = ['float', 'int', 'default'][vm.choose(3)]
        vm.path.inputs['dk'] = dk; vm.path.inputs['tk'] = tk; vm.path.inputs['vk'] = vk
        ok, typeerr = z3.BoolVal(True), False
        if tk == 'tone': t, p = sym_tone(vm, 'p')
        elif tk == 'int': t = vm.sym_int('p'); p = t.t
        elif tk == 'str': t, p = notation_of(vm, 'p')
        elif tk == 'badstr': t, p, ok = bad_notation(), z3.IntVal(0), z3.BoolVal(False)
        else:
            p, typeerr = z3.IntVal(0), True
            t = {'none': None, 'float': vm.sym_float('x'), 'list': SymList([('item', 1)]), 'bytes': b'C4', 'sig': sym_sig(vm, 'tsig')[0]}[tk]
        d, dok, nd = any_duration(vm, 'dur', dk)
        if dok is None or isinstance(dok, str): typeerr, nd = typeerr or dok or True, (z3.IntVal(0), z3.IntVal(1))
        else: ok = z3.And(ok, dok)
        kw = {'tone': t}
        if vk == 'default': v = z3.FPVal(0.75, FP)
        elif vk == 'float':
            x = vm.sym_float('v'); v = x.t; ok = z3.And(ok, vel_ok(vm, v)); kw['velocity'] = x
        else:
            x = [0, 1, 2, -1][vm.choose(4)]
            vm.path.inputs['v'] = x
            v = z3.FPVal(float(x), FP); ok = z3.And(ok, z3.BoolVal(0 <= x <= 1)); kw['velocity'] = x
        if d is not DEFAULT: kw['duration'] = d
        pos = vm.choose(2) if tk in ('tone', 'none') and d is not DEFAULT and vk != 'default' else 0
        args = [kw['tone'], kw['duration'], kw['velocity']] if pos else []
        spec_note(vm, 'Note.__init__', 'C08', lambda: vm.instantiate(Not(vm), args, {} if pos else kw), (ok, typeerr, p, nd, v))
    def cases(self, m, variant):
        if variant in ('tone', 'int'): t = (variant, m.get('p', 0))
        elif variant == 'str':
            p = m.get('p', 0); t = ('str', f"C{'#' * (p % 12)}{p // 12}")
        elif variant == 'badstr': t = ('str', 'H9')
        else: t = ('raw', {'none': None, 'float': m.get('x', .5), 'list': [1], 'bytes': b'C4', 'sig': 1.5}[variant])
        dk = m.get('dk')
        nd = (m.get('dur_n', 1), m.get('dur_d', 4))
        d = {'sig': ('sig', nd), 'tuple': ('tuple', nd), 'list': ('list', nd), 'iter': ('gen', nd), 'default': ('tuple', (1, 4)), **wrong_len(m)}.get(dk, ('raw', {'none': None, 'int': 3, 'float': .25, 'sym': m.get('rawdur', 3)}.get(dk)))
        out = [('C08', (t, d, m.get('v', 0.75)))]
        if dk == 'default' or m.get('vk') == 'default': out.append(('C08', ('defaults',)))
        return out
    def summary(self, vm, args, kw):
        vals = dict(zip(['tone', 'duration', 'velocity'], args)); vals.update(kw)
        if len(args) > 3 or not set(vals) <= {'tone', 'duration', 'velocity'} or 'tone' not in vals: return NotImplemented
        t, d, v = vals['tone'], vals.get('duration', DEFAULT), vals.get('velocity', DEFAULT)
        if vm.isint(t): t = mk_tone(vm, t)
        if obs_tone(vm, t) is None: return NotImplemented
        if isinstance(d, (tuple, SymList)):
            ds = stdlib.as_items(vm, d)
            if len(ds) != 2 or not all(vm.isint(x) for x in ds): return NotImplemented
            ok = z3.And(vm.T(ds[0]) >= 0, vm.T(ds[1]) > 0, isp2(vm.T(ds[1])))
            if not vm.branch(ok): raise rz(ValueError, 'duration')
            d = mk_sig(vm, ds[0], ds[1])
        if d is not DEFAULT and obs_sig(vm, d) is None: return NotImplemented
        kw2 = {'tone': t}
        if d is not DEFAULT: kw2['duration'] = d
        else: kw2['duration'] = mk_sig(vm, 1, 4)
        if v is DEFAULT: v = 0.75
        if not (vm.isint(v) or vm.isflt(v)): return NotImplemented
        if not vm.branch(vel_ok(vm, vm.F(v))): raise rz(ValueError, 'velocity')
        kw2['velocity'] = v
        return build(vm, lambda: vm.instantiate(Not(vm), [], kw2))


@register
class Transposed(NoteC):
    qual = 'Note.transposed'
    props = ('C09',)
    def run(self, vm):
        o, (p, n, d, v) = sym_note(vm, 'a')
        k = vm.sym_int('k')
        f = self.target(vm)
        spec_note(vm, 'Note.transposed', 'C09', lambda: vm.call(Bound(f, o), [k], {}), (z3.BoolVal(True), False, p + k.t, (n, d), v), Frame(vm, o))
    def cases(self, m, variant): return [('C09', ('tr', note_case(m, 'a'), m.get('k', 0)))]
    def summary(self, vm, args, kw):
        vals = dict(zip(['self', 'transposition'], args)); vals.update(kw)
        if set(vals) != {'self', 'transposition'}: return NotImplemented
        o = obs_note(vm, vals['self'])
        if o is None or not vm.isint(vals['transposition']): return NotImplemented
        return copy_note(vm, vals['self'], p=vm.mkint(o[0] + vm.T(vals['transposition'])))


def note_case(m, a): return (m.get(a + '_p', 0), (m.get(a + '_dur_n', 1), m.get(a + '_dur_d', 4)), m.get(a + '_v', 0.5))


def copy_note(vm, o, p=None, dur=None, v=None):
    t = mk_tone(vm, p) if p is not None else get(vm, o, 'tone')
    return build(vm, lambda: vm.instantiate(Not(vm), [], {'tone': t, 'duration': dur if dur is not None else get(vm, o, 'duration'),
                                                        'velocity': v if v is not None else get(vm, o, 'velocity')}))


@register
class WithDuration(NoteC):
    qual = 'Note.with_duration'
    props = ('C09',)
    def run(self, vm):
        o, (p, n, d, v) = sym_note(vm, 'a')
        dk = [x for x in DUR if x != 'default'][vm.choose(len(DUR) - 1)]
        vm.path.inputs['dk'] = dk
        x, ok, nd = any_duration(vm, 'dur', dk)
        f = self.target(vm)
        spec_note(vm, 'Note.with_duration', 'C09', lambda: vm.call(Bound(f, o), [x], {}),
                  (ok if z3.is_expr(ok) else z3.BoolVal(True), ok or True if not z3.is_expr(ok) else False, p, nd, v), Frame(vm, o))
    def cases(self, m, variant):
        dk, nd = m.get('dk'), (m.get('dur_n', 1), m.get('dur_d', 4))
        d = {'sig': ('sig', nd), 'tuple': ('tuple', nd), 'list': ('list', nd), 'iter': ('gen', nd), **wrong_len(m)}.get(dk, ('raw', {'none': None, 'int': 3, 'float': .25, 'sym': m.get('rawdur', 3)}.get(dk)))
        return [('C09', ('dur', note_case(m, 'a'), d))]
    def summary(self, vm, args, kw):
        vals = dict(zip(['self', 'duration'], args)); vals.update(kw)
        if set(vals) != {'self', 'duration'}: return NotImplemented
        o = obs_note(vm, vals['self'])
        if o is None or obs_sig(vm, vals['duration']) is None: return NotImplemented
        return copy_note(vm, vals['self'], dur=vals['duration'])


@register
class WithVelocity(NoteC):
    qual = 'Note.with_velocity'
    props = ('C09',)
    def run(self, vm):
        o, (p, n, d, v) = sym_note(vm, 'a')
        x = vm.sym_float('v')
        f = self.target(vm)
        spec_note(vm, 'Note.with_velocity', 'C09', lambda: vm.call(Bound(f, o), [x], {}), (vel_ok(vm, x.t), False, p, (n, d), x.t), Frame(vm, o))
    def cases(self, m, variant): return [('C09', ('vel', note_case(m, 'a'), m.get('v', 0.5)))]
    def summary(self, vm, args, kw):
        vals = dict(zip(['self', 'velocity'], args)); vals.update(kw)
        if set(vals) != {'self', 'velocity'}: return NotImplemented
        o = obs_note(vm, vals['self'])
        x = vals['velocity']
        if o is None or not (vm.isflt(x) or vm.isint(x)): return NotImplemented
        if not vm.branch(vel_ok(vm, vm.F(x))): raise rz(ValueError, 'velocity')
        return copy_note(vm, vals['self'], v=x)


NCMP = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}


def note_key(vm, o):
    """(pitch, value of the duration, velocity) terms."""
    p, n, d, v = obs_note(vm, o)
    return p, val(vm, get(vm, o, 'duration')), v


def lex(op, a, b):
    (p, x, v), (q, y, w) = a, b
    eq = z3.And(p == q, x == y, z3.fpEQ(v, w))
    lt = z3.Or(p < q, z3.And(p == q, z3.Or(x < y, z3.And(x == y, z3.fpLT(v, w)))))
    gt = z3.Or(p > q, z3.And(p == q, z3.Or(x > y, z3.And(x == y, z3.fpGT(v, w)))))
    return {'Eq': eq, 'NotEq': z3.Not(eq), 'Lt': lt, 'LtE': z3.Or(lt, eq), 'Gt': gt, 'GtE': z3.Or(gt, eq)}[op]


def make_cmp(op):
    o = NCMP[op]
    @register
    class Cmp(NoteC):
        qual = f'Note.{op}'
        props = ('C10', 'C08')
        def target(self, vm): return Not(vm)
        def run(self, vm):
            a, _ = sym_note(vm, 'a')
            b, _ = sym_note(vm, 'b')
            ka, kb = note_key(vm, a), note_key(vm, b)
            fr = Frame(vm, a, b)
            vm.depth += 1
            k, v = outcome(vm, lambda: vm.cmp(o, a, b))
            vm.depth -= 1
            if k == 'exc': vm.prove(f'C10 Note.{op} does not raise', False); return
            t = vm.B(v) if isinstance(v, (bool, SBool)) else z3.BoolVal(vm.truth(v))
            vm.prove(f'C10 Note.{op} compares (pitch, duration, velocity) lexicographically', t == lex(o, ka, kb))
            vm.prove(f'C08 Note.{op} leaves its operands unchanged', fr.same(vm))
        def cases(self, m, variant): return [('C10', (note_case(m, 'a'), note_case(m, 'b')))]
        def summary(self, vm, args, kw):
            if len(args) != 2 or kw: return NotImplemented
            if obs_note(vm, args[0]) is None or obs_note(vm, args[1]) is None: return NotImplemented
            return vm.mkbool(lex(o, note_key(vm, args[0]), note_key(vm, args[1])))


for _op in NCMP: make_cmp(_op)


@register
class Text(NoteC):
    """Text forms leave tones, signatures and notes unchanged (C24 covers the content of repr)."""
    qual = 'Note.__str__'
    text_assumed = True
    props = ('C08', 'C01', 'C06')
    def run(self, vm):
        o, (p, n, d, v) = sym_note(vm, 'a')
        s, sn, sd = sym_sig(vm, 's')
        t, q = sym_tone(vm, 'q')
        fr, fs, ft = Frame(vm, o), Frame(vm, s), Frame(vm, t)
        for x in (o, s, t):
            for fn in (stdlib.b_str, stdlib.b_repr):
                with building(vm): k, r = outcome(vm, lambda: fn(vm, [x], {}))
                if k == 'exc': vm.prove('C08,C01,C06 text forms do not raise', False); return
        vm.prove('C08 text forms leave the note unchanged', fr.same(vm))
        vm.prove('C01 text forms leave the signature unchanged', fs.same(vm))
        vm.prove('C06 text forms leave the tone unchanged', ft.same(vm))
