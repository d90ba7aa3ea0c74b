"""Contracts of the representations: the text is parsed as a Python expression and evaluated by the verifier.

Symbolic pieces of the text stand for themselves: the decimal text of an integer and repr() of a finite float evaluate to
that number (CPython's documented round trip); they may appear only as a whole argument or element.
"""
import ast
from .base import *
from .track import *
from .track import same_pair, vm_iter
from .signature import val
from pyvc.loops import LoopSpec
from pyvc import stdlib


class EvalTxt:
    """Text of a Python expression that evaluates to v (v: function of the vm)."""
    def __init__(self, v): self.v = v


class JoinTxt:
    """Elements of a symbolic sequence of texts, separated by commas."""
    def __init__(self, seq): self.seq = seq


def evaluate(vm, text):
    """Value of the text as an expression with the class names in scope; None when it is not an expression."""
    parts = SStr([text]).parts
    src, ph = '', {}
    for i, p in enumerate(parts):
        if isinstance(p, str): src += p; continue
        prev = src[-1:] if src else ''
        nxt = parts[i + 1][:1] if i + 1 < len(parts) and isinstance(parts[i + 1], str) else ('' if i + 1 == len(parts) else '?')
        if prev and (prev.isalnum() or prev in '_."\'\\') or nxt and (nxt.isalnum() or nxt in '_."\'?\\('): raise Unsupported('number glued to other text')
        name = f'PH{len(ph)}_'
        if isinstance(p, Dec): ph[name] = p.v
        elif isinstance(p, FltTxt):
            if p.fmt not in (None, ''): raise Unsupported(f'float format {p.fmt}')
            if not vm.valid(z3.Not(z3.Or(z3.fpIsNaN(vm.F(p.v)), z3.fpIsInf(vm.F(p.v))))): raise Unsupported('text of a float that may not be finite')
            ph[name] = p.v
        elif isinstance(p, EvalTxt): ph[name] = ('lazy', p)
        elif isinstance(p, JoinTxt):
            if prev != '[' or nxt != ']': raise Unsupported('joined text outside a list')
            ph[name] = SymList([('base', p.seq)])
            src += '*'
        else: raise Unsupported(f'text part {type(p).__name__}')
        src += name
    try: tree = ast.parse(src.strip(' \t'), mode='eval')
    except SyntaxError: return None
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): par[c] = n
    seen = 0
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id in ph:
            seen += 1
            if not isinstance(par[n], (ast.Call, ast.keyword, ast.Tuple, ast.List, ast.Starred, ast.Expression)): raise Unsupported('number inside a larger expression')
    if seen != len(ph): raise Unsupported('number inside a literal')
    genv = {'__name__': 'eval', '__pkg__': '', 'Tone': Ton(vm), 'Signature': Sig(vm), 'Note': Not(vm), 'Track': Trk(vm)}
    for k, v in ph.items(): genv[k] = v.v(vm) if False else (v[1].v(vm) if isinstance(v, tuple) and v and v[0] == 'lazy' else v)
    env = Env(genv, None, 'eval')
    vm.depth += 1
    try: return vm.ev(tree.body, env)
    finally: vm.depth -= 1


def text_of(vm, o):
    f = o.cls.lookup('__repr__')
    if f is None: raise Unsupported('no __repr__')
    return vm.call(Bound(f, o), [], {})


class Rep(Contract):
    text_assumed = True      # the numbers written have at most 4300 digits (C24)
    def go(self, vm, o, same):
        k, t = outcome(vm, lambda: text_of(vm, o))
        if k == 'exc': vm.prove(f'C24 {self.qual} does not raise', False); return
        if not isinstance(t, (str, SStr)): vm.prove(f'C24 {self.qual} returns text', False); return
        k, v = outcome(vm, lambda: evaluate(vm, t))
        if k == 'exc': vm.prove(f'C24 {self.qual}: the text evaluates', False); return
        vm.prove(f'C24 {self.qual}: the text is an expression for an equal object', same(v))


@register
class RepTone(Rep):
    qual, mod, props = 'Tone.__repr__', TONEM, ('C24',)
    def run(self, vm):
        o, p = sym_tone(vm, 'p')
        self.go(vm, o, lambda v: False if obs_tone(vm, v) is None else obs_tone(vm, v) == p)
    def cases(self, m, variant): return [('C24', ('tone', m.get('p', 0)))]


@register
class RepSig(Rep):
    qual, mod, props = 'Signature.__repr__', SIGM, ('C24',)
    def run(self, vm):
        o, n, d = sym_sig(vm, 's')
        self.go(vm, o, lambda v: False if obs_sig(vm, v) is None else z3.And(obs_sig(vm, v)[0] == n, obs_sig(vm, v)[1] == d))
    def cases(self, m, variant): return [('C24', ('sig', (m.get('s_n', 0), m.get('s_d', 1))))]


def same_note(vm, v, o):
    from .note import lex, note_key
    if obs_note(vm, v) is None: return z3.BoolVal(False)
    return lex('Eq', note_key(vm, v), note_key(vm, o))


@register
class RepNote(Rep):
    qual, mod, props = 'Note.__repr__', NOTEM, ('C24',)
    def run(self, vm):
        o, _ = sym_note(vm, 'a')
        self.go(vm, o, lambda v: same_note(vm, v, o))
    def cases(self, m, variant): return [('C24', ('note', (m.get('a_p', 0), (m.get('a_dur_n', 0), m.get('a_dur_d', 1)), m.get('a_v', .5))))]


def pair_value(vm, v, item):
    """Formula: v is a (note, position) pair equal to the (position, note) item."""
    if not isinstance(v, tuple): v = tuple(stdlib.as_items(vm, v)) if isinstance(v, SymList) else None
    if v is None or len(v) != 2 or obs_note(vm, v[0]) is None: return z3.BoolVal(False)
    pos = v[1]
    ok = z3.BoolVal(True)
    if obs_sig(vm, pos) is None:
        if not isinstance(pos, (tuple, SymList)): return z3.BoolVal(False)
        ds = stdlib.as_items(vm, pos)
        if len(ds) != 2 or not all(vm.isint(x) for x in ds): return z3.BoolVal(False)
        n, d = vm.T(ds[0]), vm.T(ds[1])
        if not vm.valid(z3.And(n >= 0, d >= 1, isp2(d))): return z3.BoolVal(False)
        pos = mk_sig(vm, *ds)
    return same_pair(vm, (pos, v[0]), item)


class TextLoop(LoopSpec):
    """The list holds one text per pair of the iterated sequence, each evaluating to an equal pair."""
    name = 'one text per note'
    tag = 'C24'
    def __init__(self, A):
        self.A = A
        self.emits = [TextComp(A)]
    def applies(self, vm, node, env, seq): return seq is self.A
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] != 'next': return None
        return 'next', {'texts': item}


class TextComp:
    name, optional, hint = 'texts', False, None
    def __init__(self, A): self.A = A
    def fits(self, vm, l, entry): return l.kind == 'list' and not entry.segs
    def havoc(self, vm, l, entry, run, k):
        A = self.A
        def elem(vm2, i):
            def v(vm3):
                pos, note = A.elem(vm3, i)
                return (note, pos)
            return SStr([EvalTxt(v)])
        self.base = SymSeq(vm.fresh_name('texts'), k, elem)
        l.get().segs[:] = [('base', self.base)]
    def goal(self, vm, l, entry, run, pre, new, k):
        segs = l.get().segs
        if len(segs) != 2 or segs[0] != ('base', self.base) or segs[1][0] != 'item' or not isinstance(segs[1][1], (str, SStr)): return z3.BoolVal(False)
        kk, v = outcome(vm, lambda: evaluate(vm, segs[1][1]))
        if kk == 'exc': return z3.BoolVal(False)
        return pair_value(vm, v, new)


@register
class RepTrack(Rep):
    qual, mod, props = 'Track.__repr__', TRACKM, ('C24',)
    def run(self, vm):
        install(vm)
        t, bag, sig = mk_track(vm, 't')
        A = stdlib.seq_segs(vm, vm_iter(vm, t))[0][1]
        vm.loopspecs = [TextLoop(A)]
        bag2 = z3.Const('bag_evaluated', Bag)
        vm.assume(bsize(bag2) == A.n)
        def sjoin(vm2, sep, segs):
            if len(segs) != 1 or sep.strip(' ') != ',': raise Unsupported('join of texts')
            s = segs[0][1]
            def value(vm3, i):
                x = s.elem(vm3, i)
                if not isinstance(x, (str, SStr)): raise rz(TypeError, 'join')
                return evaluate(vm3, x)
            return mkstr([JoinTxt(SymSeq(s.name + 'v', s.n, value, origin=('joined', s)))])
        vm.sjoin_hook = sjoin
        def content(vm2, seq):
            if not seq.origin or seq.origin[0] != 'joined': return None
            if vm2.choose(2) == 0:
                i = vm2.fresh_int('ck', 0).t
                vm2.assume(i < seq.n)
                vm2.path.abstract = True
                vm2.prove('C24 Track.__repr__: each note is written as an equal pair', z3.And(seq.n == A.n, pair_value(vm2, seq.elem(vm2, i), A.elem(vm2, i))))
                raise PathEnd()
            vm2.prove('C24 Track.__repr__: as many pairs as notes are written', seq.n == A.n)
            return bag2
        vm.content_hook = content
        def same(v):
            if not isinstance(v, Obj) or v.cls is not Trk(vm) or v is t: return False
            s = obs_sig(vm, v.fields[shape(vm)['sig']])
            b = state_bag(vm, v)
            if s is None or b is None: return False
            return z3.And(val(vm, v.fields[shape(vm)['sig']]) == val(vm, sig), z3.Or(b == bag2, z3.And(A.n == 0, b == bempty)))
        self.go(vm, t, same)
        vm.prove('C24 Track.__repr__ leaves the track unchanged', state_bag(vm, t) == bag)
