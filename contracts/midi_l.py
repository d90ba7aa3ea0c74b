"""Contracts of MIDIReader.load and what is built on it: chunks, header, choice and merge of channels."""
import itertools
from .base import *
from .tone import *
from .signature import *
from .note import *
from .track import *
from .midi_r import *
from .midi_r import MIDIM, Rea, raise_parse, source_at, tsig, rshape, ReaderCls, sym_midireader
from pyvc import stdlib
from pyvc.loops import LoopSpec


class Parsed:
    """What _parse_track gives for the bytes [off, off + n) of the file at resolution q (the specification functions of
    its contract): mal - malformed; has(c) - a track for channel c; ch(i), m - the channels, each once; notes, signature."""
    def __init__(self, vm, blob, reader):
        I, B = z3.IntSort(), z3.BoolSort()
        self.blob, self.reader = blob, reader
        self.mal = z3.Function('mal', I, I, I, B)
        self.has = z3.Function('has', I, I, I, I, B)
        self.bag = z3.Function('trkbag', I, I, I, I, Bag)
        self.sn, self.sd = z3.Function('trksn', I, I, I, I, I), z3.Function('trksd', I, I, I, I, I)
        self.ch, self.m = z3.Function('trkch', I, I, I, I, I), z3.Function('trkm', I, I, I, I)
    def track(self, vm, at, c):
        memo = vm.path.__dict__.setdefault('tracks', {})
        key = tuple(x.get_id() for x in at) + (c.get_id(),)
        if key not in memo:
            n, d = self.sn(*at, c), self.sd(*at, c)
            vm.assume(z3.And(n >= 0, n <= 255, d >= 1, isp2(d)))
            t, _, _ = mk_track(vm, vm.fresh_name('tr'), self.bag(*at, c), mk_sig(vm, vm.mkint(n), vm.mkint(d)))
            memo[key] = (t, at, c)
        return memo[key][0]
    def result(self, vm, off, n, q):
        at = (off, n, q)
        b = MapBase(vm.fresh_name('tracks'), lambda vm2, c: self.track(vm2, at, c))
        b.has = lambda c: self.has(*at, c)
        b.nonempty = z3.BoolVal(True)
        b.parsed, b.at = self, at
        return PyDict(base=b)
    def view(self, vm, d, what):
        b = d.base
        if getattr(b, 'parsed', None) is not self: raise Unsupported('iteration of a symbolic map')
        at = b.at
        def elem(vm2, i):
            c = self.ch(*at, i)
            vm2.assume(z3.And(c >= 0, c <= 15, self.has(*at, c)))
            t = self.track(vm2, at, c)
            return (SInt(c), t) if what == 'items' else SInt(c) if what == 'keys' else t
        m = self.m(*at)
        vm.assume(m >= 1)
        return SymList([('base', SymSeq('tracks', m, elem, tracks=self))])


# ---------------------------------------------------------------------- chunks
class FileComp:
    name, optional, hint, left = 'file position', False, None, True
    def __init__(self, f, P): self.f, self.P = f, P
    def fits(self, vm, l, entry): return l.kind == 'file' and l.get() is self.f
    def havoc(self, vm, l, entry, run, k):
        self.f.pos = self.P(k)
        vm.assume(z3.And(self.P(k) >= 0, self.P(k) <= self.f.blob.n))
    def goal(self, vm, l, entry, run, pre, new, k):
        p = self.f.pos
        return (p if z3.is_expr(p) else vm.T(p)) == new


class NoneComp:
    """A variable that is None until something was seen."""
    optional = False
    def __init__(self, spec, name, hint, pick): self.spec, self.name, self.hint, self.pick = spec, name, hint, pick
    def fits(self, vm, l, entry): return l.kind == 'var' and entry is None and (self.pick is None and l.key == self.hint or self.pick is not None and l.key == self.pick)
    def havoc(self, vm, l, entry, run, k): l.set(self.value(vm, k))


class KindComp(NoneComp):
    def value(self, vm, k): return None if vm.branch(self.spec.Q(k) == 0) else 0
    def goal(self, vm, l, entry, run, pre, new, k):
        q, v = self.spec.Q(self.spec.gk), l.get()
        if v is None: return q == 0
        return z3.And(q > 0, vm.T(v) == 0) if vm.isint(v) else z3.BoolVal(False)


class TicksComp(NoneComp):
    def value(self, vm, k): return None if vm.branch(self.spec.Q(k) == 0) else SInt(self.spec.Q(k))
    def goal(self, vm, l, entry, run, pre, new, k):
        q, v = self.spec.Q(self.spec.gk), l.get()
        if v is None: return q == 0
        return z3.And(q > 0, vm.T(v) == q) if vm.isint(v) else z3.BoolVal(False)


class TracksComp(NoneComp):
    def value(self, vm, k):
        s = self.spec
        return None if vm.branch(s.TO(k) < 0) else s.parsed.result(vm, s.TO(k), s.TN(k), s.TQ(k))
    def goal(self, vm, l, entry, run, pre, new, k):
        s, v = self.spec, l.get()
        if v is None: return s.TO(s.gk) < 0
        b = v.base if isinstance(v, PyDict) and not v.log else None
        if getattr(b, 'parsed', None) is not s.parsed: return z3.BoolVal(False)
        return z3.And(s.TO(s.gk) == b.at[0], s.TN(s.gk) == b.at[1], s.TQ(s.gk) == b.at[2])


HINTS = ('kind', 'ticks_per_quarter', 'tracks')


class ChunkLoop(LoopSpec):
    """Chunk by chunk: position P, resolution Q (0: no header yet), bytes [TO, TO + TN) and resolution TQ of the last track."""
    name, tag, join_break = 'chunks', 'C18', True
    raise_tag, known_error = 'C19', 'MIDIParsingError'
    def __init__(self, parsed, f, p0, perm=None):
        I = z3.IntSort()
        self.parsed, self.f, self.perm = parsed, f, perm
        self.P, self.Q, self.TO, self.TN, self.TQ = (z3.Function(x, I, I) for x in ('chpos', 'chq', 'trkoff', 'trklen', 'trkq'))
        self.p0, self.K = p0, None
        pk = perm or (None,) * 3
        self.carries = [FileComp(f, self.P)] + [c(self, n, h, p) for c, n, h, p in zip((KindComp, TicksComp, TracksComp), ('header seen', 'resolution', 'tracks'), HINTS, pk)]
        if perm is None: pass
    def names(self, env): return (env.consumer[1] if env.consumer is not None else env).vars
    def applies(self, vm, node, env, seq):
        if seq is not None or getattr(vm.path, 'in_chunk', False): return False
        v = self.names(env)
        known = all(h in v for h in HINTS)
        return known if self.perm is None else not known and all(x in v and v[x] is None for x in self.perm)
    def enter(self, vm, run):
        vm.path.in_chunk = True
        z = z3.IntVal(0)
        vm.assume(z3.And(self.P(z) == self.p0, self.Q(z) == 0, self.TO(z) == -1))
    def on_havoc(self, vm, run, k):
        vm.assume(z3.And(self.Q(k) >= 0, self.Q(k) <= 0x7FFF, z3.Implies(self.TO(k) >= 0, self.Q(k) > 0)))
    def finish(self, vm, run, k): vm.path.in_chunk = False
    def measures(self, vm, ints):
        p = self.f.pos
        return [('bytes left', self.f.blob.n - (p if z3.is_expr(p) else vm.T(p)))]
    def step(self, vm, run, pre, item, k, outcome):
        b, L, p = self.f.blob.f, self.f.blob.n, self.P(k)
        bad = ('raise', 'MIDIParsingError')
        def be_(i, n): return sum([b(i + j) * 256 ** (n - 1 - j) for j in range(n)])
        def is_(w): return z3.And([b(p + i) == x for i, x in enumerate(w)])
        vm.path.malformed = True
        if vm.branch(p >= L):
            self.K = self.gk = k
            vm.path.malformed = False
            return 'break', {}
        if vm.branch(L - p < 8): return bad
        for i in range(4, 8): vm.assume(z3.And(b(p + i) >= 0, b(p + i) <= 255))
        n = be_(p + 4, 4)
        if vm.branch(L - p - 8 < n): return bad
        q, to, tn, tq = self.Q(k), self.TO(k), self.TN(k), self.TQ(k)
        d = p + 8
        if vm.branch(is_(b'MThd')):
            if vm.branch(n < 6): return bad
            for i in range(6): vm.assume(z3.And(b(d + i) >= 0, b(d + i) <= 255))
            if not vm.branch(z3.And(be_(d, 2) == 0, be_(d + 2, 2) == 1)): return bad
            q = be_(d + 4, 2)
            if not vm.branch(z3.And(q >= 1, q <= 0x7FFF)): return bad
        elif vm.branch(is_(b'MTrk')):
            if vm.branch(q == 0): return bad
            if vm.branch(z3.Or(n == 0, self.parsed.mal(d, n, q))): return bad
            to, tn, tq = d, n, q
        vm.path.malformed = False
        vm.assume(z3.And(self.P(k + 1) == d + n, self.Q(k + 1) == q, self.TO(k + 1) == to, self.TN(k + 1) == tn, self.TQ(k + 1) == tq))
        self.gk = k + 1
        return 'next', {'file position': d + n}


# ---------------------------------------------------------------------- merge of the channels
class MaxComp:
    """The largest signature so far; its terms are those the loop started with, or those of an earlier channel."""
    name, optional, hint = 'largest signature', False, None
    def __init__(self, spec): self.spec = spec
    def fits(self, vm, l, entry): return l.kind == 'var' and obs_sig(vm, entry) is not None
    def havoc(self, vm, l, entry, run, k):
        mg = self.spec.merge
        s, n, d = fresh_sig(vm, 'largest')
        w, e = vm.fresh_int('largest_of', 0).t, obs_sig(vm, entry)
        vm.assume(val(vm, s) == mg.MV(k))
        vm.assume(z3.Or(z3.And(n == e[0], d == e[1]), z3.And(w < k, mg.terms(n, d, w))))
        mg.of, self.old = w, (n, d)
        l.set(s)
    def goal(self, vm, l, entry, run, pre, new, k):
        o = obs_sig(vm, l.get())
        if o is None: return z3.BoolVal(False)
        return z3.And(val(vm, l.get()) == new, z3.Or(z3.And(o[0] == self.old[0], o[1] == self.old[1]), self.spec.merge.terms(*o, k)))


class MaxLoop(LoopSpec):
    name, tag, raise_tag = 'largest signature of the channels', 'C20', 'C19'
    def __init__(self, merge):
        self.merge = merge
        self.MV = merge.MV
        self.carries = [MaxComp(self)]
    def applies(self, vm, node, env, seq): return seq is not None and seq.attrs.get('tracks') is self.merge.parsed
    def enter(self, vm, run):
        l = [l for l in run.locs if self.carries[0].fits(vm, l, run.entry_of(l))]
        if len(l) == 1:
            self.merge.v0 = val(vm, l[0].get())
            vm.assume(self.MV(z3.IntVal(0)) == self.merge.v0)
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] != 'next': return None
        v = self.merge.step_max(vm, k)
        return 'next', {'largest signature': v}


class Merge:
    """M(i): the notes of the first i channels; MV(i): the largest value of their signatures."""
    def __init__(self, parsed):
        self.parsed = parsed
        self.M, self.INN, self.MV = z3.Function('merged', z3.IntSort(), Bag), z3.Function('merging', z3.IntSort(), z3.IntSort(), Bag), z3.Function('maxsig', z3.IntSort(), z3.RealSort())
        self.at, self.v0, self.of = None, None, None
    def largest(self, vm):
        """The largest value of the signatures of all channels: the running maximum started with v0 ends at the larger of both."""
        m = self.parsed.m(*self.at)
        w = z3.Const('largest', z3.RealSort())
        c = self.chan(z3.IntVal(0))
        n, d = self.parsed.sn(*self.at, c), self.parsed.sd(*self.at, c)
        value_facts(vm, n, d)
        if self.v0 is not None: vm.assume(self.MV(m) == z3.If(self.v0 > w, self.v0, w))
        vm.assume(z3.And(w >= 0, w >= V(n, d)))
        return w
    def chan(self, k): return self.parsed.ch(*self.at, k)
    def terms(self, n, d, k):
        """n / d are the terms of the signature of channel number k."""
        c = self.chan(k)
        return z3.And(n == self.parsed.sn(*self.at, c), d == self.parsed.sd(*self.at, c))
    def step_max(self, vm, k):
        c = self.chan(k)
        n, d = self.parsed.sn(*self.at, c), self.parsed.sd(*self.at, c)
        value_facts(vm, n, d)
        v = z3.If(V(n, d) > self.MV(k), V(n, d), self.MV(k))
        vm.assume(self.MV(k + 1) == v)
        return v


def largest_of(vm, mg, seq, less, kw):
    """max(...) of the signatures (or of the tracks by signature): an element whose signature is the largest."""
    if less or set(kw) - {'key', 'default'} or mg.at is None: raise Unsupported('min/max of a symbolic sequence')
    m = mg.parsed.m(*mg.at)
    if not vm.valid(z3.And(seq.n == m, m >= 1)): raise Unsupported('max of another sequence')
    def keyed(x): return vm.call(kw['key'], [x], {}) if 'key' in kw else x
    def at(k):
        e = seq.elem(vm, k)
        s = keyed(e)
        if obs_sig(vm, s) is None: raise Unsupported('max of other things than signatures')
        return e, s
    if vm.choose(2) == 0:
        # two arbitrary elements: the comparison does not fail, the value is the signature of the channel
        i, j = vm.fresh_int('mi', 0), vm.fresh_int('mj', 0)
        vm.assume(z3.And(i.t < m, j.t < m))
        (_, a), (_, b) = at(i.t), at(j.t)
        c = mg.chan(i.t)
        n, d = mg.parsed.sn(*mg.at, c), mg.parsed.sd(*mg.at, c)
        value_facts(vm, n, d)
        if not vm.valid(val(vm, a) == V(n, d)): raise Unsupported('max of other signatures')
        r = vm.cmp('Gt', a, b)
        if not vm.valid(vm.B(r) == (val(vm, a) > val(vm, b))): raise Unsupported('comparison in max')
        raise PathEnd()
    w = vm.fresh_int('mw', 0)
    vm.assume(w.t < m)
    e, s = at(w.t)
    vm.assume(val(vm, s) == mg.largest(vm))
    mg.of = w.t
    return e


BSUM = z3.Function('bsum', Bag, Bag, Bag)


class MergeLoop(LoopSpec):
    """Outer loop over the tracks."""
    name, tag, raise_tag = 'merge of the channels', 'C20', 'C19'
    def __init__(self, merge):
        self.merge = merge
        self.t = TrackComp('common track', lambda o: True, merge.M)
        self.carries = [self.t]
    def applies(self, vm, node, env, seq): return seq is not None and seq.attrs.get('tracks') is self.merge.parsed
    def enter(self, vm, run):
        self.t.pick = lambda o: vm.valid(state_bag(vm, o) == bempty)
        vm.assume(self.merge.M(z3.IntVal(0)) == bempty)
    def on_havoc(self, vm, run, k): vm.path.merge_k = k
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] != 'next': return None
        m = self.merge
        nb = m.parsed.bag(*m.at, m.chan(k))
        want = BSUM(m.M(k), nb)
        # adding the elements of an enumeration of a multiset one by one adds the multiset
        vm.assume(z3.And(m.INN(k, bsize(nb)) == want, m.M(k + 1) == want, bsize(nb) >= 0, z3.Implies(bsize(nb) == 0, want == m.M(k))))
        return 'next', {'common track': want}


class MergeInner(LoopSpec):
    """Inner loop over the notes of one track."""
    name, tag, raise_tag = 'notes of a channel into the common track', 'C20', 'C19'
    def __init__(self, merge):
        self.merge = merge
        self.t = TrackComp('common track', lambda o: True, None)
        self.carries = [self.t]
    def applies(self, vm, node, env, seq): return seq is not None and seq.attrs.get('bag') is not None and getattr(vm.path, 'merge_k', None) is not None
    def enter(self, vm, run):
        m, i = self.merge, vm.path.merge_k
        vm.prove('C20 MIDIReader.load adds every note of the channel', run.seq.attrs['bag'] == m.parsed.bag(*m.at, m.chan(i)))
        self.t.pick = lambda o: vm.valid(state_bag(vm, o) == m.M(i))
        self.t.bagfn = lambda k: m.INN(i, k)
        vm.assume(m.INN(i, z3.IntVal(0)) == m.M(i))
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] != 'next': return None
        m, i = self.merge, vm.path.merge_k
        kk = key_of(vm, item[0], item[1])
        vm.assume(m.INN(i, k + 1) == badd(m.INN(i, k), kk))
        return 'next', {'common track': m.INN(i, k + 1)}


def load_spec(vm, rd, f, p0):
    ps = Parsed(vm, f.blob, rd)
    vm.parsed = ps
    vm.dict_view_hook = lambda vm2, d, what: ps.view(vm2, d, what)
    mg = Merge(ps)
    hinted = ChunkLoop(ps, f, p0)
    return ps, mg, hinted


@register
class Load(Contract):
    """ensures: chunk by chunk; a parsing error exactly for an incomplete chunk, a bad header, a malformed or premature
    track, no header or no track; else the track of the channel (ValueError when there is none), or all channels' notes
    with the largest signature."""
    qual, mod, props = 'MIDIReader.load', MIDIM, ('C18', 'C19', 'C20')
    term_tag = 'C19'
    def variants(self): return [('all channels', lambda vm: self.go(vm, False)), ('one channel', lambda vm: self.go(vm, True))]
    def go(self, vm, one):
        install(vm)
        rd, mid = sym_midireader(vm)
        L = z3.Int('len_F')
        blob = Blob('F', L)
        vm.path.inputs['F'] = blob
        p0 = vm.sym_int('pos', 0)
        vm.assume(p0.t <= L)
        f = FileObj(blob, p0.t)
        ps, mg, ck = load_spec(vm, rd, f, p0.t)
        names = getattr(vm, '_none_names', None)
        perms = [ChunkLoop(ps, f, p0.t, perm) for perm in self.perms(vm)]
        vm.loopspecs = [ck] + perms + [MergeInner(mg), MaxLoop(mg), MergeLoop(mg)]
        class At:
            def __iter__(self_): raise AttributeError
        c = vm.sym_int('channel')
        g = self.target(vm)
        rc = ReaderCls(vm)
        rshape(vm, rc)
        ck_used = lambda: next((x for x in [ck] + perms if x.K is not None), None)
        view = vm.dict_view_hook
        def hook(vm2, d, what):
            mg.at = d.base.at
            return view(vm2, d, what)
        vm.dict_view_hook = hook
        vm.max_hook = lambda vm2, seq, less, kw: largest_of(vm2, mg, seq, less, kw)
        k, v = outcome(vm, lambda: vm.call(Bound(g, rd), [f], {'channel': c} if one else {}))
        s = ck_used()
        K = s.K if s is not None else None
        if k == 'exc':
            if exc_is(v, 'MIDIParsingError'):
                ok = z3.Or(s.Q(K) == 0, s.TO(K) < 0) if s is not None else z3.BoolVal(getattr(vm.path, 'malformed', False))
                vm.prove('C18 MIDIReader.load refuses only malformed files', ok)
                return
            vm.prove('C19 MIDIReader.load fails only with a parsing error, or ValueError for a channel that is not there', z3.BoolVal(one and exc_is(v, 'ValueError') and s is not None))
            if s is not None: vm.prove('C20 MIDIReader.load refuses only a channel without a track', z3.And(s.TO(K) >= 0, z3.Not(ps.has(s.TO(K), s.TN(K), s.TQ(K), c.t))))
            return
        if s is None: vm.prove('C18 MIDIReader.load reads the file to its end', False); return
        at = (s.TO(K), s.TN(K), s.TQ(K))
        vm.prove('C18 MIDIReader.load refuses a file without header or track', z3.And(s.Q(K) > 0, s.TO(K) >= 0))
        if not isinstance(v, Obj) or v.cls is not Trk(vm): vm.prove('C19 MIDIReader.load returns a track', False); return
        sg = v.fields[shape(vm)['sig']]
        o, b = obs_sig(vm, sg), state_bag(vm, v)
        if one:
            vm.prove('C20 MIDIReader.load refuses a channel without a track', ps.has(*at, c.t))
            vm.prove('C20 MIDIReader.load gives the notes of the channel', False if b is None else b == ps.bag(*at, c.t))
            vm.prove('C20 MIDIReader.load gives the signature of the channel', False if o is None else z3.And(o[0] == ps.sn(*at, c.t), o[1] == ps.sd(*at, c.t)))
        else:
            m = ps.m(*at)
            vm.prove('C20 MIDIReader.load merges the tracks of the last track chunk', z3.And([x == y for x, y in zip(mg.at, at)]) if mg.at else False)
            vm.prove('C20 MIDIReader.load gives the notes of all channels', False if b is None else b == mg.M(m))
            vm.prove('C20 MIDIReader.load gives the largest signature of the channels', False if o is None else z3.And(val(vm, sg) == mg.largest(vm)) if mg.at else False)
            if mg.at and o is not None:
                which = [z3.IntVal(0), m - 1] + ([mg.of] if mg.of is not None else [])
                vm.prove('C20 MIDIReader.load gives the largest signature in the terms of a channel', z3.Or([mg.largest(vm) == 0] + [z3.And(w >= 0, w < m, mg.terms(*o, w)) for w in which]))
        vm.prove('C20 MIDIReader.load gives a track satisfying the class invariant', inv_formula(vm, v, None))
    def perms(self, vm):
        """Assignments of the variables of load that start as None to the parts of the state, for other names."""
        import ast
        try: node = self.target(vm).node
        except AttributeError: return []
        names = []
        for n in ast.walk(node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and n.value.value is None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and t.id not in names: names.append(t.id)
        if set(HINTS) <= set(names) or not 3 <= len(names) <= 4: return []
        return list(itertools.permutations(names, 3))
    def cases(self, m, variant): return []
    def summary(self, vm, args, kw):
        """An outcome that is a function of the reader's middle C, the bytes from the position on, and the channel."""
        vals = dict(zip(['self', 'file', 'channel'], args)); vals.update(kw)
        if not {'self', 'file'} <= set(vals) <= {'self', 'file', 'channel'}: return NotImplemented
        rd, f, c = vals['self'], vals['file'], vals.get('channel')
        if getattr(vm, 'loading', None) is None or not isinstance(f, FileObj) or f.blob is None: return NotImplemented
        if not (c is None or vm.isint(c)): return NotImplemented
        vm.loading.append((rd, f, f.pos if z3.is_expr(f.pos) else vm.T(f.pos), c))
        n = vm.choose(2 if c is None else 3)
        if n == 1: raise_parse(vm)
        if n == 2: raise rz(ValueError, 'no such channel')
        t, _, _ = mk_track(vm, vm.fresh_name('loaded'))
        vm.loaded = t
        return t


def mid_of(vm, rd):
    """Middle C of a reader, as its key conversion shows it: pitch of key x minus x, plus 60."""
    f = Rea(vm).lookup('_pitch_to_tone')
    if f is None: raise Unsupported('_pitch_to_tone not found')
    x = vm.fresh_int('key')
    with building(vm): k, t = outcome(vm, lambda: vm.call(Bound(f, rd), [x], {}))
    o = obs_tone(vm, t) if k == 'ret' else None
    if o is None: raise Unsupported('_pitch_to_tone')
    return z3.simplify(o - x.t + 60)


def loading_contract(name):
    member = name.startswith('MIDIReader.')
    data = name.endswith('loads')
    @register
    class Loading(Contract):
        """ensures: exactly the outcome of MIDIReader.load on the given bytes and channel (default reader: middle C = C3)."""
        qual, mod, props = name if member else f'midi.{name}', MIDIM, ('C19', 'C20')
        def variants(self): return [(x, (lambda x: lambda vm: self.go(vm, x))(x)) for x in ('all channels', 'explicitly all', 'one channel')]
        def go(self, vm, what):
            install(vm)
            vm.loading, vm.loaded = [], None
            L = z3.Int('len_F')
            vm.assume(L >= 0)
            blob = Blob('F', L)
            vm.path.inputs['F'] = blob
            f = FileObj(blob, vm.sym_int('pos', 0).t)
            arg = mkbytes([Slice(blob, z3.IntVal(0), L)]) if data else f
            p0 = z3.IntVal(0) if data else f.pos
            c = {'one channel': vm.sym_int('channel')}.get(what)
            kw = {} if what == 'all channels' else {'channel': c}
            g = self.target(vm)
            if member:
                rd, mid = sym_midireader(vm)
                k, v = outcome(vm, lambda: vm.call(Bound(g, rd), [arg], kw))
            else:
                rd, mid = None, z3.IntVal(36)
                k, v = outcome(vm, lambda: vm.call(g, [arg], kw))
            if len(vm.loading) != 1: raise Unsupported(f'{name} does not use MIDIReader.load once')
            r, f2, p, c2 = vm.loading[0]
            vm.prove(f'C20 {name} reads the given bytes', z3.And(z3.BoolVal(f2.blob is blob if not data else f2.blob is blob), p == p0))
            vm.prove(f'C20 {name} asks for the given channel', z3.BoolVal(c2 is None) if c is None else (vm.T(c2) == c.t if vm.isint(c2) else False))
            vm.prove(f'C20 {name} uses the right middle C', mid_of(vm, r) == mid)
            if k == 'exc': vm.prove(f'C19 {name} fails exactly as MIDIReader.load', z3.BoolVal(vm.loaded is None and (exc_is(v, 'MIDIParsingError') or c is not None and exc_is(v, 'ValueError')))); return
            vm.prove(f'C20 {name} gives the track of MIDIReader.load', z3.BoolVal(v is vm.loaded and v is not None))
        def cases(self, m, variant): return []
        def summary(self, vm, args, kw):
            if not data or not member or getattr(vm, 'loading', None) is None: return NotImplemented
            vals = dict(zip(['self', 'data', 'channel'], args)); vals.update(kw)
            if not {'self', 'data'} <= set(vals) <= {'self', 'data', 'channel'}: return NotImplemented
            d = SBytes([vals['data']]).parts if isinstance(vals['data'], (bytes, SBytes)) else None
            if d is None or len(d) != 1 or not isinstance(d[0], Slice): return NotImplemented
            if not vm.valid(z3.And(d[0].off == 0, d[0].n == d[0].blob.n)): return NotImplemented
            return REG['MIDIReader.load'].summary(vm, [vals['self'], FileObj(d[0].blob, 0)] + ([vals['channel']] if 'channel' in vals else []), {})
    return Loading


for _n in ('MIDIReader.loads', 'load', 'loads'): loading_contract(_n)


@register
class ReaderInit(Contract):
    """ensures: TypeError / ValueError exactly for a middle C that is no tone; else key 60 is the given tone."""
    qual, mod, props = 'MIDIReader.__init__', MIDIM, ('C20',)
    def variants(self): return [(t, (lambda t: lambda vm: self.go(vm, t))(t)) for t in ('tone', 'int', 'str', 'badstr', 'none', 'float', 'default')]
    def go(self, vm, mk):
        kw, ok, typeerr, m = {}, True, False, z3.IntVal(36)
        if mk == 'tone': kw['middle_c'], m = sym_tone(vm, 'mid')
        elif mk == 'int': kw['middle_c'] = vm.sym_int('mid'); m = kw['middle_c'].t
        elif mk == 'str': kw['middle_c'], m = notation_of(vm, 'mid')
        elif mk == 'badstr': kw['middle_c'], ok = bad_notation(), False
        elif mk in ('none', 'float'): kw['middle_c'] = {'none': None, 'float': 3.5}[mk]; typeerr = True
        k, v = outcome(vm, lambda: vm.instantiate(Rea(vm), [], kw))
        if k == 'exc':
            vm.prove('C20 MIDIReader refuses only what is no tone', z3.BoolVal(typeerr and exc_is(v, 'TypeError') or not ok and exc_is(v, 'ValueError')))
            return
        vm.prove('C20 MIDIReader accepts only tones', z3.BoolVal(ok and not typeerr))
        if not ok or typeerr: return
        vm.prove('C20 MIDIReader: key 60 is the given middle C', mid_of(vm, v) == m)
    def cases(self, m, variant): return []


@register
class PitchToTone(Contract):
    """ensures: tone = key - 60 + middle C, for every key."""
    qual, mod, props = 'MIDIReader._pitch_to_tone', MIDIM, ('C20',)
    def run(self, vm):
        rd, mid = sym_midireader(vm)
        x = vm.sym_int('key')
        k, v = outcome(vm, lambda: vm.call(Bound(self.target(vm), rd), [x], {}))
        if k == 'exc': vm.prove('C20 MIDIReader._pitch_to_tone does not raise', False); return
        o = obs_tone(vm, v)
        vm.prove('C20 MIDIReader._pitch_to_tone gives key - 60 + middle C', False if o is None else o == x.t - 60 + mid)
    def cases(self, m, variant): return []


@register
class TimeToSignature(Contract):
    """requires time >= 0, ticks per quarter >= 1.  ensures: the value is floor(time * 4096 / ticks) / 16384."""
    qual, mod, props = 'MIDIReader._time_to_signature', MIDIM, ('C20',)
    def run(self, vm):
        t, q = vm.sym_int('time', 0), vm.sym_int('tpq', 1)
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(f if not isinstance(f, PyFunc) else Bound(f, None), [t, q], {}))
        if k == 'exc': vm.prove('C20 MIDIReader._time_to_signature does not raise', False); return
        o = obs_sig(vm, v)
        w = tsig(t.t, q.t)
        value_facts(vm, w, z3.IntVal(16384))
        vm.prove('C20 MIDIReader._time_to_signature gives the time in whole notes, rounded down to 1/16384', False if o is None else val(vm, v) == V(w, z3.IntVal(16384)))
    def cases(self, m, variant): return []
