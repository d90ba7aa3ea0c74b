"""Contracts: preconditions as symbolic input builders, postconditions as obligations, summaries for callers."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc import theory

REG = {}


class Contract:
    qual = None           # 'Signature.to'
    mod = None            # 'melodia.core.signature'
    recursive = False
    summary = None        # callable(vm, args, kw) or None
    loopspecs = ()
    float_mode = 'fp'
    props = ()            # property ids whose obligations this contract carries

    def cases(self, m, variant):
        """Concrete oracle cases [(property, case)] of a counterexample model."""
        return []

    def target(self, vm):
        ns = vm.load(self.mod).ns
        head, _, rest = self.qual.partition('.')
        cls = ns.get(head)
        if rest and isinstance(cls, PyClass):
            f = cls.lookup(rest)
            if f is None: raise Unsupported(f'{self.qual} not found')
            return f
        f = ns.get(rest or head)
        if f is None: raise Unsupported(f'{self.qual} not found')
        return f

    def variants(self): return [('', self.run)]
    def run(self, vm): raise NotImplementedError


INTERNAL = {
    'MIDIWriter._format_var_len': ['x'], 'MIDIWriter._format_note_on': ['note'], 'MIDIWriter._format_note_off': ['note'],
    'MIDIWriter._format_signature': ['signature', 'cc', 'bb'], 'MIDIWriter._format_tempo': ['tempo'], 'MIDIWriter._format_chunk': ['kind', 'body'],
    'MIDIWriter._format_header_chunk': ['kind', 'n_tracks'], 'MIDIWriter._signature_to_pulses': ['signature'],
    'MIDIReader._read_var_len': ['data'], 'MIDIReader._parse_track': ['data', 'ticks_per_quarter'], 'MIDIReader._pitch_to_tone': ['pitch'],
    'MIDIReader._time_to_signature': ['time', 'ticks_per_quarter'], '_Reader.read': ['n'],
}
# the contract that speaks about everything the helper is there for
USER = {q: 'MIDIReader.load' if q == 'MIDIReader._parse_track' else 'MIDIWriter.dump' if q.startswith('MIDIWriter.') else 'MIDIReader._parse_track' for q in INTERNAL}


def internal(q): return q in INTERNAL


def interface(c, f):
    """Does the internal helper still have the parameters its contract was written for?  None for public functions, else
    'same', 'renamed' (as many, other names) or 'changed'."""
    want = INTERNAL.get(c.qual)
    if want is None: return None
    if isinstance(f, StaticM): f, names = f.f, []
    if not isinstance(f, PyFunc): return 'changed'
    a = f.node.args
    if a.vararg or a.kwarg or a.kwonlyargs: return 'changed'
    names = [x.arg for x in a.posonlyargs + a.args]
    if names[:1] in (['self'], ['cls']): names = names[1:]
    if names == want: return 'same'
    if len(names) != len(want) or any(n in want and n != w for n, w in zip(names, want)): return 'changed'
    return 'renamed'


def register(cls):
    c = cls()
    REG[c.qual] = c
    return cls


class building:
    """Inside: contracts of callees are ignored (used to build inputs with the real constructors)."""
    def __init__(self, vm): self.vm = vm
    def __enter__(self):
        self.saved, self.vm.contracts = (self.vm.contracts, self.vm.prune), {}
        self.vm.prune = True
        self.vm.in_building += 1
    def __exit__(self, *a):
        self.vm.contracts, self.vm.prune = self.saved
        self.vm.in_building -= 1


def build(vm, fn):
    """Run fn, which must not raise for the assumed inputs (else the path is checked for feasibility)."""
    with building(vm):
        try: return fn()
        except PyRaise as e:
            if vm.valid(z3.BoolVal(False)): raise PathEnd()
            raise Unsupported(f'input construction raised {e.exc.name}')


def outcome(vm, fn):
    """('ret', value) or ('exc', ExcVal)."""
    try: return ('ret', fn())
    except PyRaise as e: return ('exc', e.exc)


SIGM, TONEM, NOTEM, TRACKM = ('melodia.core.signature', 'melodia.core.tone', 'melodia.core.note', 'melodia.core.track')


def Sig(vm): return vm.cls(SIGM, 'Signature')
def Ton(vm): return vm.cls(TONEM, 'Tone')
def Not(vm): return vm.cls(NOTEM, 'Note')
def Trk(vm): return vm.cls(TRACKM, 'Track')


def mk_sig(vm, n, d):
    """Signature object built by the real constructor from terms already known to be valid."""
    return build(vm, lambda: vm.instantiate(Sig(vm), [n, d], {}))


def sym_sig(vm, name):
    n, d = vm.sym_int(name + '_n', 0), vm.sym_int(name + '_d', 1)
    vm.assume(isp2(d.t))
    return mk_sig(vm, n, d), n.t, d.t


def fresh_sig(vm, base='s'):
    n, d = vm.fresh_int(base + '_n', 0), vm.fresh_int(base + '_d', 1)
    vm.assume(isp2(d.t))
    return mk_sig(vm, n, d), n.t, d.t


def get(vm, o, name):
    with building(vm): return vm.getattr(o, name)


def obs_sig(vm, o):
    """(nominator, denominator) terms as the public accessors report them."""
    if not isinstance(o, Obj) or not o.cls.issub(Sig(vm)): return None
    return vm.T(get(vm, o, 'nominator')), vm.T(get(vm, o, 'denominator'))


def mk_tone(vm, p): return build(vm, lambda: vm.instantiate(Ton(vm), [p], {}))
def sym_tone(vm, name):
    p = vm.sym_int(name)
    return mk_tone(vm, p), p.t
def obs_tone(vm, o):
    if not isinstance(o, Obj) or not o.cls.issub(Ton(vm)): return None
    return vm.T(get(vm, o, 'pitch'))


def vel_ok(vm, f):
    """0.0 <= f <= 1.0 as a z3 formula."""
    return z3.And(z3.fpLEQ(z3.FPVal(0.0, FP), f), z3.fpLEQ(f, z3.FPVal(1.0, FP)))


def sym_note(vm, name):
    t, p = sym_tone(vm, name + '_p')
    s, n, d = sym_sig(vm, name + '_dur')
    v = vm.sym_float(name + '_v')
    vm.assume(vel_ok(vm, v.t))
    o = build(vm, lambda: vm.instantiate(Not(vm), [t, s, v], {}))
    return o, (p, n, d, v.t)


def obs_note(vm, o):
    if not isinstance(o, Obj) or not o.cls.issub(Not(vm)): return None
    t = obs_tone(vm, get(vm, o, 'tone'))
    s = obs_sig(vm, get(vm, o, 'duration'))
    v = get(vm, o, 'velocity')
    if t is None or s is None: return None
    return t, s[0], s[1], vm.F(v)


def feq(a, b):
    """Same float value (numerically equal; both are non-NaN in every use)."""
    return z3.Or(z3.fpEQ(a, b), a == b)


def exc_is(exc, *names):
    e = exc.cls
    while e is not None:
        nm = e.__name__ if isinstance(e, type) else e.name
        if nm in names: return True
        if isinstance(e, type): return any(c.__name__ in names for c in e.__mro__)
        e = e.bases[0] if e.bases else None
    return False


def snap(vm, o, depth=4):
    """Deep snapshot of an object's fields, for frame conditions."""
    if isinstance(o, Obj) and depth:
        return ('obj', id(o), tuple(sorted((k, snap(vm, v, depth - 1)) for k, v in o.fields.items())))
    if isinstance(o, SymList): return ('list', tuple((k, id(v) if not isinstance(v, (int, str)) else v) for k, v in o.segs))
    if isinstance(o, (SInt, SBool, SFloat)): return ('t', o.t.sexpr())
    if isinstance(o, tuple): return tuple(snap(vm, x, depth - 1) for x in o)
    return ('v', repr(o))


class Frame:
    """Observable state of immutable inputs, recorded before and compared after the call."""
    def __init__(self, vm, *objs):
        self.items = [(o, self.obs(vm, o)) for o in objs]
    def obs(self, vm, o):
        if isinstance(o, Obj):
            for f in (obs_sig, obs_tone, obs_note):
                try: r = f(vm, o)
                except (Unsupported, PyRaise): r = None
                if r is not None: return r if isinstance(r, tuple) else (r,)
        return None
    def same(self, vm):
        ts = []
        for o, before in self.items:
            after = self.obs(vm, o)
            if before is None or after is None or len(before) != len(after): return z3.BoolVal(before is after)
            for a, b in zip(before, after):
                if not a.eq(b): ts.append(a == b)
        return z3.And(ts) if ts else z3.BoolVal(True)
