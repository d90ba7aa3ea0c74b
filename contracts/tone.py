"""Contracts of melodia.core.tone."""
from .base import *
from pyvc.loops import LoopSpec
from pyvc import stdlib

LETTERS = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
SHARP = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
FLAT = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']


def spec_lang():
    """The notation language: [A-G][#b]*(-?[0-9]+)?"""
    d = z3.Range('0', '9')
    return z3.Concat(z3.Range('A', 'G'), z3.Star(z3.Union(z3.Re('#'), z3.Re('b'))),
                     z3.Option(z3.Concat(z3.Option(z3.Re('-')), z3.Plus(d))))


class ToneC(Contract):
    mod = TONEM


@register
class Init(ToneC):
    qual = 'Tone.__init__'
    props = ('C06',)
    def variants(self): return [('int', self.run), ('other', self.other)]
    def run(self, vm):
        p = vm.sym_int('p')
        how = vm.choose(2)
        k, v = outcome(vm, lambda: vm.instantiate(Ton(vm), [p] if how == 0 else [], {} if how == 0 else {'pitch': p}))
        if k == 'exc': vm.prove('C06 Tone.__init__ accepts every integer', False); return
        vm.prove('C06 Tone.__init__ reports exactly the given pitch', obs_tone(vm, v) == p.t)
    def other(self, vm):
        vals = [vm.sym_float('x'), 'C4', None, (1,), b'1', SymList([]), mk_tone(vm, vm.sym_int('p'))]
        x = vals[vm.choose(len(vals))]
        k, v = outcome(vm, lambda: vm.instantiate(Ton(vm), [x], {}))
        vm.prove('C06 Tone.__init__ refuses a non-integer pitch with ValueError', k == 'exc' and exc_is(v, 'ValueError'))
    def cases(self, m, variant):
        return [('C06', ('ints', m.get('p', 0), 1)), ('C06', ('bad', m.get('x', 0.5)))]
    def summary(self, vm, args, kw):
        vals = dict(zip(['pitch'], args)); vals.update(kw)
        if set(vals) != {'pitch'} or len(args) > 1: return NotImplemented
        if not vm.isint(vals['pitch']): return NotImplemented
        return mk_tone(vm, vals['pitch'])


@register
class Octave(ToneC):
    qual = 'Tone.octave'
    props = ('C06', 'C05')
    def run(self, vm):
        t, p = sym_tone(vm, 'p')
        k, v = outcome(vm, lambda: vm.getattr(t, 'octave'))
        if k == 'exc': vm.prove('C06 Tone.octave does not raise', False); return
        vm.prove('C06 Tone.octave is floor(pitch/12)', vm.T(v) == p / 12)
        vm.prove('C06 Tone.octave leaves the tone unchanged', obs_tone(vm, t) == p)
    def cases(self, m, variant): return [('C06', ('ints', m.get('p', 0), 1))]


@register
class Transposed(ToneC):
    qual = 'Tone.transposed'
    props = ('C06',)
    def run(self, vm):
        t, p = sym_tone(vm, 'p')
        n = vm.sym_int('k')
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, t), [n], {}))
        o = obs_tone(vm, v) if k == 'ret' else None
        if o is None: vm.prove('C06 Tone.transposed returns a tone', False); return
        vm.prove('C06 Tone.transposed adds exactly k semitones', o == p + n.t)
        vm.prove('C06 Tone.transposed leaves the original unchanged', obs_tone(vm, t) == p)
        vm.prove('C06 Tone.transposed gives a new tone or an equal one', z3.BoolVal(True) if v is not t else n.t == 0)
    def cases(self, m, variant): return [('C06', ('ints', m.get('p', 0), m.get('k', 0)))]
    def summary(self, vm, args, kw):
        vals = dict(zip(['self', 'transposition'], args)); vals.update(kw)
        if set(vals) != {'self', 'transposition'}: return NotImplemented
        p = obs_tone(vm, vals['self'])
        if p is None or not vm.isint(vals['transposition']): return NotImplemented
        return mk_tone(vm, vm.mkint(p + vm.T(vals['transposition'])))


TCMP = {'__eq__': ('Eq', lambda a, b: a == b), '__ne__': ('NotEq', lambda a, b: a != b), '__lt__': ('Lt', lambda a, b: a < b),
        '__le__': ('LtE', lambda a, b: a <= b), '__gt__': ('Gt', lambda a, b: a > b), '__ge__': ('GtE', lambda a, b: a >= b)}


def make_cmp(op):
    o, rel = TCMP[op]
    @register
    class Cmp(ToneC):
        qual = f'Tone.{op}'
        props = ('C06',)
        def target(self, vm): return Ton(vm)
        def run(self, vm):
            a, p = sym_tone(vm, 'p')
            b, q = sym_tone(vm, 'q')
            with building(vm): k, v = outcome(vm, lambda: vm.cmp(o, a, b))
            if k == 'exc': vm.prove(f'C06 Tone.{op} does not raise', False); return
            t = vm.B(v) if isinstance(v, (bool, SBool)) else z3.BoolVal(vm.truth(v))
            vm.prove(f'C06 Tone.{op} agrees with the pitches', t == rel(p, q))
            vm.prove(f'C06 Tone.{op} leaves its operands unchanged', z3.And(obs_tone(vm, a) == p, obs_tone(vm, b) == q))
        def cases(self, m, variant): return [('C06', ('ints', m.get('p', 0), m.get('q', 0)))]
        def summary(self, vm, args, kw):
            if len(args) != 2 or kw: return NotImplemented
            a, b = obs_tone(vm, args[0]), obs_tone(vm, args[1])
            if a is None or b is None: return NotImplemented
            return vm.mkbool(rel(a, b))


for _op in TCMP: make_cmp(_op)


class AccLoop(LoopSpec):
    """A loop over a run of '#'/'b': an integer variable changes by a constant per sharp and per flat."""
    name = 'accidentals'
    def applies(self, vm, node, env, seq): return seq is not None and 'acc' in seq.attrs
    def candidates(self, vm, ints, k):
        run = self.run_
        out = []
        S = run.seq.attrs['acc']
        for l in run.locs:
            v, v0 = l.get(), run.entry_of(l)
            if isinstance(v, (int, SInt)) and isinstance(v0, (int, SInt)):
                for a in (-1, 0, 1):
                    for b in (-1, 0, 1):
                        out.append((f'{l.key}: {a}*sharps+{b}*flats', vm.T(v) == vm.T(v0) + a * S(k) + b * (k - S(k))))
        return out


@register
class FromNotation(ToneC):
    qual = 'Tone.from_notation'
    props = ('C04', 'C05')
    def variants(self): return [('accept', self.accept), ('reject', self.reject), ('other', self.other)]

    def accept(self, vm):
        L = 'CDEFGAB'[vm.choose(7)]
        s, f = vm.sym_int('sharps', 0), vm.sym_int('flats', 0)
        octv = vm.sym_int('octave') if vm.choose(2) else None
        vm.path.inputs['letter'] = L
        parts = [L, Acc(s, f)] + ([DigTxt(octv)] if octv is not None else [])
        vm.loopspecs = [AccLoop()]
        k, v = outcome(vm, lambda: vm.call(vm.getattr(Ton(vm), 'from_notation'), [SStr(parts)], {}))
        if k == 'exc': vm.prove('C04 Tone.from_notation accepts every notation', False); return
        o = obs_tone(vm, v)
        if o is None: vm.prove('C04 Tone.from_notation returns a tone', False); return
        want = 12 * (octv.t if octv is not None else 0) + LETTERS[L] + s.t - f.t
        vm.prove('C04 Tone.from_notation computes the pitch of the notation', o == want)

    def reject(self, vm):
        o = OpaqueTxt('notation')
        o.facts['not_in'] = spec_lang()
        k, v = outcome(vm, lambda: vm.call(vm.getattr(Ton(vm), 'from_notation'), [SStr([o])], {}))
        vm.prove('C04 Tone.from_notation refuses every other string', k == 'exc')
        if k == 'exc': vm.prove('C04 Tone.from_notation refuses with ValueError', exc_is(v, 'ValueError'))

    def other(self, vm):
        # explicit samples of the refused language keep the reject variant from being vacuous
        x = ['', '4', 'H', 'c', 'Cb#-', 'C4 ', ' C4', 'C4\n', 'C#4#', 'C+4', 'C4.0', '-4', '#', 'CC'][vm.choose(14)]
        k, v = outcome(vm, lambda: vm.call(vm.getattr(Ton(vm), 'from_notation'), [x], {}))
        vm.path.inputs['notation'] = x
        vm.prove('C04 Tone.from_notation refuses sample strings outside the language', k == 'exc' and exc_is(v, 'ValueError'))

    def cases(self, m, variant):
        out = []
        if m.get('notation') is not None: out.append(('C04', m['notation']))
        if 'letter' in m:
            s, f = min(m.get('sharps', 0), 3000), min(m.get('flats', 0), 3000)
            o = '' if 'octave' not in m else str(m['octave'])
            out.append(('C04', m['letter'] + '#' * s + 'b' * f + o))
        return out

    def summary(self, vm, args, kw):
        if kw or len(args) != 2: return NotImplemented
        cls, s = args
        if isinstance(s, str):
            import re
            m = re.fullmatch(r'([A-G])([#b]*)(-?[0-9]+)?', s)
            if m is None: raise rz(ValueError, 'Invalid notation')
            return mk_tone(vm, 12 * int(m.group(3) or 0) + LETTERS[m.group(1)] + m.group(2).count('#') - m.group(2).count('b'))
        if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], OpaqueTxt):
            t = s.parts[0].facts.get('pitch')
            if t is not None: return mk_tone(vm, t)
            if 'not_in' in s.parts[0].facts: raise rz(ValueError, 'Invalid notation')
        return NotImplemented


def expected_notation(vm, p, down):
    pc = vm.concretize(p % 12)
    return mkstr([(FLAT if down else SHARP)[pc], Dec(vm.mkint(p / 12))])


@register
class ToNotation(ToneC):
    qual = 'Tone.to_notation'
    props = ('C05',)
    text_assumed = True      # octave numbers of at most 4300 digits (C05)
    def variants(self): return [('default', lambda vm: self.go(vm, None)), ('up', lambda vm: self.go(vm, False)), ('down', lambda vm: self.go(vm, True)), ('str', lambda vm: self.go(vm, 'str'))]
    def go(self, vm, down):
        t, p = sym_tone(vm, 'p')
        f = self.target(vm)
        if down == 'str': call = lambda: stdlib.b_str(vm, [t], {})
        elif down is None: call = lambda: vm.call(Bound(f, t), [], {})
        else: call = lambda: vm.call(Bound(f, t), [], {'transpose_down': down})
        k, v = outcome(vm, call)
        if k == 'exc': vm.prove('C05 Tone.to_notation does not raise', False); return
        if not isinstance(v, (str, SStr)): vm.prove('C05 Tone.to_notation returns text', False); return
        want = expected_notation(vm, p, down is True)
        nm = 'str(tone) is the default notation' if down == 'str' else 'Tone.to_notation is letter, accidental and octave'
        vm.prove('C05 ' + nm, stdlib.eq_term(vm, v, want))
        vm.prove('C05 Tone.to_notation leaves the tone unchanged', obs_tone(vm, t) == p)
        k, v2 = outcome(vm, lambda: vm.call(vm.getattr(Ton(vm), 'from_notation'), [v], {}))
        o = obs_tone(vm, v2) if k == 'ret' else None
        vm.prove('C05 the notation parses back to the same pitch', o == p if o is not None else False)
    def cases(self, m, variant): return [('C05', m.get('p', 0))]
    def summary(self, vm, args, kw):
        # for callers that only build a message: some text, no exception
        if getattr(vm, 'opaque_notation', False) and args and obs_tone(vm, args[0]) is not None and len(args) + len(kw) <= 2: return SStr([OpaqueTxt(vm.fresh_name('notation'))])
        return NotImplemented


@register
class ToFrequency(ToneC):
    """Over the reals: powr(x) stands for 2**x."""
    qual = 'Tone.to_frequency'
    props = ('C07',)
    float_mode = 'real'
    def variants(self): return [('base', self.run), ('default', self.dflt)]
    def run(self, vm):
        t, p = sym_tone(vm, 'p')
        b = vm.sym_float('base')
        how = vm.choose(2)
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, t), [b] if how else [], {} if how else {'base': b}))
        if k == 'exc': vm.prove('C07 Tone.to_frequency does not raise', False); return
        r = vm.F(v)
        vm.prove('C07 Tone.to_frequency is base * 2**((pitch-57)/12)', r == b.t * powr(z3.ToReal(p - 57) / 12))
        vm.prove('C07 Tone.to_frequency of A4 is the base', z3.Implies(p == 57, r == b.t))
        vm.prove('C07 Tone.to_frequency leaves the tone unchanged', obs_tone(vm, t) == p)
    def dflt(self, vm):
        t, p = sym_tone(vm, 'p')
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, t), [], {}))
        if k == 'exc': vm.prove('C07 Tone.to_frequency does not raise', False); return
        vm.prove('C07 the base defaults to 440 Hz', vm.F(v) == 440 * powr(z3.ToReal(p - 57) / 12))
        # consequences over the contract
        q = vm.sym_int('q').t
        g = lambda x: 440 * powr(z3.ToReal(x - 57) / 12)
        vm.prove('C07 lemma: 12 semitones double the frequency', g(p + 12) == 2 * g(p))
        vm.prove('C07 lemma: a higher tone has a higher frequency', z3.Implies(p < q, g(p) < g(q)))
    def cases(self, m, variant): return [('C07', (m.get('p', 0), m.get('base', 440.0)))]
