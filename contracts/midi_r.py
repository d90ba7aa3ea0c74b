"""Contracts of the MIDI reader: byte source, variable-length quantities, events, tracks, chunks and load.

D is the byte string under the reader, byte(i) its i-th byte, L its length.  The recursive functions of the
specification (equations in DEFS, general facts proved in lean/Lemmas.lean):
  vlok(p)   a variable-length quantity can be read at p:  p < L and (byte(p) < 128 or vlok(p + 1))
  vle(p)    the position right after it:                  p + 1 if byte(p) < 128 else vle(p + 1)
  vlv(a, p) its value when a has been read so far:        with r = 128 a + byte(p) % 128: r if byte(p) < 128 else vlv(r, p + 1)
  sxok(p)   a byte F7 is at or after p;  sxe(p)  the position right after the first one
"""
from .base import *
from .tone import *
from .signature import *
from .note import *
from .track import *
from pyvc import stdlib
from pyvc.loops import LoopSpec

MIDIM = 'melodia.io.midi'
def Rea(vm): return vm.load(MIDIM).ns['MIDIReader']
def ReaderCls(vm):
    c = vm.load(MIDIM).ns.get('_Reader')
    if not isinstance(c, PyClass): raise Unsupported('no byte source class')
    return c


class BlobSpec:
    """Specification functions over one byte string."""
    def __init__(self, name, n):
        self.blob = Blob(name, n)
        self.n, self.f = n, self.blob.f
        I, B = z3.IntSort(), z3.BoolSort()
        self.vlok, self.vle, self.vlv = z3.Function('vlok_' + name, I, B), z3.Function('vle_' + name, I, I), z3.Function('vlv_' + name, I, I, I)
        self.sxok, self.sxe = z3.Function('sxok_' + name, I, B), z3.Function('sxe_' + name, I, I)
        b = self.f
        D = theory.DEFS
        D[b.name()] = lambda e: [('byte_range', z3.And(e >= 0, e <= 255))]
        def vlok(e):
            p = e.arg(0)
            return [('vl_def', e == z3.And(p < n, z3.Or(b(p) < 128, self.vlok(p + 1)))),
                    ('vl_range', z3.Implies(z3.And(e, p >= 0), z3.And(self.vle(p) > p, self.vle(p) <= n)))]
        def vle(e): return [('vl_def', e == z3.If(b(e.arg(0)) < 128, e.arg(0) + 1, self.vle(e.arg(0) + 1)))]
        def vlv(e):
            a, p = e.arg(0), e.arg(1)
            r = 128 * a + b(p) % 128
            return [('vl_def', e == z3.If(b(p) < 128, r, self.vlv(r, p + 1))), ('vl_nonneg', z3.Implies(z3.And(a >= 0, self.vlok(p)), e >= 0))]
        def sxok(e):
            p = e.arg(0)
            return [('sx_def', e == z3.And(p < n, z3.Or(b(p) == 0xF7, self.sxok(p + 1)))),
                    ('sx_range', z3.Implies(z3.And(e, p >= 0), z3.And(self.sxe(p) > p, self.sxe(p) <= n)))]
        def sxe(e): return [('sx_def', e == z3.If(b(e.arg(0)) == 0xF7, e.arg(0) + 1, self.sxe(e.arg(0) + 1)))]
        for f, d in ((self.vlok, vlok), (self.vle, vle), (self.vlv, vlv), (self.sxok, sxok), (self.sxe, sxe)): D[f.name()] = d


# ---------------------------------------------------------------------- the byte source
def data_of(blob, n): return mkbytes([Slice(blob, z3.IntVal(0), n)])


def cells(vm, r):
    """Mutable integer cells of a byte source: its int fields and the positions of file objects in it."""
    out = []
    for f, x in sorted(r.fields.items()):
        if isinstance(x, (int, SInt)) and not isinstance(x, bool): out.append((f, lambda r=r, f=f: vm.T(r.fields[f]), lambda t, r=r, f=f: r.fields.__setitem__(f, SInt(t))))
        elif isinstance(x, FileObj): out.append((f, lambda x=x: x.pos if z3.is_expr(x.pos) else vm.T(x.pos), lambda t, x=x: setattr(x, 'pos', t)))
    return out


def mk_reader(vm, spec, at=None):
    """A byte source over all of D, built with the real constructor and moved to position `at` with the real read."""
    r = build(vm, lambda: vm.instantiate(ReaderCls(vm), [data_of(spec.blob, spec.n)], {}))
    r.ghost = {'src': spec}
    if at is not None and not (z3.is_int_value(at) and at.as_long() == 0):
        rd = build(vm, lambda: vm.getattr(r, 'read'))
        build(vm, lambda: vm.call(rd, [SInt(at)], {}))
    return r


def rshape(vm, cls):
    """Which cell of the byte source is the position: decided by reading k bytes from a fresh one."""
    if getattr(vm, '_rshape', None) is None:
        saved, vm.path = vm.path, Path([])        # outside the path being explored
        try:
            sp = BlobSpec('shape', z3.Int('shape_n'))
            k = z3.Int('shape_k')
            vm.assume(z3.And(k >= 1, k <= sp.n))
            r = mk_reader(vm, sp, k)
            c = [nm for nm, get, _ in cells(vm, r) if vm.valid(get() == k)]
        finally: vm.path = saved
        if len(c) != 1: raise Unsupported('the position of the byte source is not one integer field')
        vm._rshape = c[0]
    return vm._rshape


def rpos(vm, r):
    nm = rshape(vm, r.cls)
    return [get() for n_, get, _ in cells(vm, r) if n_ == nm][0]


def set_rpos(vm, r, t):
    nm = rshape(vm, r.cls)
    [s for n_, _, s in cells(vm, r) if n_ == nm][0](z3.simplify(t))


def sym_source(vm, name='D'):
    """(byte source, spec, position): any byte string, any position in it."""
    n = z3.Int('len_' + name)
    vm.assume(n >= 0)
    sp = BlobSpec(name, n)
    vm.path.inputs[name] = sp.blob
    p = vm.sym_int('pos', 0)
    vm.assume(p.t <= n)
    rshape(vm, ReaderCls(vm))
    return mk_reader(vm, sp, p.t), sp, p.t


def is_source(x): return isinstance(x, Obj) and isinstance(x.ghost, dict) and isinstance(x.ghost.get('src'), BlobSpec)
def parse_error(vm): return vm.load(MIDIM).ns['MIDIParsingError']
def raise_parse(vm): raise PyRaise(ExcVal(parse_error(vm), ('',)))


@register
class ReaderRead(Contract):
    """requires n >= 0.  ensures: n bytes left: exactly those bytes, position moves by n; else the parsing error."""
    qual, mod, props = '_Reader.read', MIDIM, ('C18', 'C19')
    def run(self, vm):
        r, sp, p = sym_source(vm)
        n = vm.sym_int('n', 0)
        self.target(vm)
        k, v = outcome(vm, lambda: vm.call(vm.getattr(r, 'read'), [n], {}))
        fits = p + n.t <= sp.n
        if k == 'exc':
            vm.prove('C19 _Reader.read refuses only what is not there', z3.Not(fits))
            vm.prove('C19 _Reader.read refuses with the parsing error', exc_is(v, 'MIDIParsingError'))
            return
        vm.prove('C19 _Reader.read gives no more than there is', fits)
        ps = SBytes([v]).parts if isinstance(v, (bytes, SBytes)) else None
        good = z3.BoolVal(False)
        if ps is not None and not ps: good = n.t == 0
        elif ps is not None and len(ps) == 1 and isinstance(ps[0], Slice) and ps[0].blob is sp.blob: good = z3.And(ps[0].off == p, ps[0].n == n.t)
        vm.prove('C18 _Reader.read gives the next n bytes', good)
        vm.prove('C18 _Reader.read moves by n bytes', rpos(vm, r) == p + n.t)
    def cases(self, m, variant): return []


class VlLoop(LoopSpec):
    """acc, position: what is still to read gives the same value and end as from the start."""
    name = 'vlq bytes'
    def __init__(self, sp, p, r): self.sp, self.p, self.r = sp, p, r
    def applies(self, vm, node, env, seq): return seq is None
    def candidates(self, vm, ints, k):
        sp, p, q = self.sp, self.p, rpos(vm, self.r)
        out = [('position in range', z3.And(q >= p, q <= sp.n)), ('same end', sp.vle(q) == sp.vle(p)), ('same success', sp.vlok(q) == sp.vlok(p))]
        for x in sorted(ints):
            out.append((f'{x}>=0', ints[x] >= 0))
            out.append((f'value with {x} so far', sp.vlv(ints[x], q) == sp.vlv(z3.IntVal(0), p)))
            # loops that test the last byte at the head
            for y in sorted(ints):
                if y != x:
                    more = ints[y] >= 128
                    out.append((f'{y} in range', z3.And(ints[y] >= 0, ints[y] <= 255)))
                    out.append((f'value with {x} so far, last byte {y}', z3.If(more, sp.vlv(ints[x], q) == sp.vlv(z3.IntVal(0), p), ints[x] == sp.vlv(z3.IntVal(0), p))))
                    out.append((f'end after last byte {y}', z3.If(more, z3.And(sp.vle(q) == sp.vle(p), sp.vlok(q) == sp.vlok(p)), z3.And(q == sp.vle(p), sp.vlok(p)))))
        return out
    def measures(self, vm, ints): return [('bytes left', self.sp.n - rpos(vm, self.r))]


@register
class ReadVarLen(Contract):
    """ensures: the value vlv(0, p) and position vle(p) when vlok(p), else the parsing error; terminates."""
    qual, mod, props = 'MIDIReader._read_var_len', MIDIM, ('C15', 'C18', 'C19')
    def run(self, vm):
        r, sp, p = sym_source(vm)
        vm.loopspecs = [VlLoop(sp, p, r)]
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(f if not isinstance(f, PyFunc) else Bound(f, None), [r], {}))
        if k == 'exc':
            vm.prove('C15 MIDIReader._read_var_len refuses only an incomplete quantity', z3.Not(sp.vlok(p)))
            vm.prove('C15 MIDIReader._read_var_len refuses with the parsing error', exc_is(v, 'MIDIParsingError'))
            return
        if not vm.isint(v): raise Unsupported('what _read_var_len returns')
        vm.prove('C15 MIDIReader._read_var_len refuses an incomplete quantity', sp.vlok(p))
        vm.prove('C15 MIDIReader._read_var_len gives the number encoded', vm.T(v) == sp.vlv(z3.IntVal(0), p))
        vm.prove('C15 MIDIReader._read_var_len leaves the position right after the quantity', rpos(vm, r) == sp.vle(p))
    def cases(self, m, variant):
        d = m.get('D') or b''
        return [('C15', ('dec', d, min(m.get('pos', 0), len(d))))]
    def summary(self, vm, args, kw):
        a = [x for x in args if is_source(x)] + list(kw.values())
        if len(a) != 1 or not is_source(a[0]): return NotImplemented
        r = a[0]
        sp, p = r.ghost['src'], rpos(vm, r)
        vm.prove(f'{vm.top.props[0]} {vm.top.qual}: the position given to _read_var_len is in the data', z3.And(p >= 0, p <= sp.n), kind='pre')
        if not vm.branch(sp.vlok(p)):
            set_rpos(vm, r, vm.fresh_int('failpos', 0).t)
            raise_parse(vm)
        set_rpos(vm, r, sp.vle(p))
        v = sp.vlv(z3.IntVal(0), p)
        vm.assume(z3.And(v >= 0, sp.vle(p) > p, sp.vle(p) <= sp.n))
        return SInt(v)


# ---------------------------------------------------------------------- one event
LENS = {0x8: 2, 0x9: 2, 0xA: 2, 0xB: 2, 0xC: 1, 0xD: 1, 0xE: 2}      # data bytes of channel messages
SYS = {0xF1: 1, 0xF2: 2, 0xF3: 1, 0xF6: 0, 0xF8: 0, 0xFA: 0, 0xFB: 0, 0xFC: 0, 0xFE: 0}


def spec_event(vm, sp, q, ps):
    """The event at position q with running status ps (-1: none): None when it is not well-formed, else
    (kind, payload, position after it, new running status)."""
    b = sp.f
    def within(t): return vm.branch(t <= sp.n)
    if not within(q + 1): return None
    if vm.branch(b(q) >= 128): st, q = b(q), q + 1
    else:
        if not vm.branch(ps >= 0): return None
        st = ps
    vm.assume(z3.And(st >= 128, st <= 255))
    if vm.branch(st == 0xFF):
        if not within(q + 1) or not vm.branch(sp.vlok(q + 1)): return None
        kind, ln, d = b(q), sp.vlv(z3.IntVal(0), q + 1), sp.vle(q + 1)
        vm.assume(z3.And(ln >= 0, d > q + 1, d <= sp.n))
        if vm.branch(kind == 0x2F):
            return ('eot', (), d, st) if vm.branch(ln == 0) else None
        if vm.branch(kind == 0x20):
            if not vm.branch(ln == 1) or not within(d + 1): return None
            return 'prefix', (b(d),), d + 1, st
        if vm.branch(kind == 0x58):
            if not vm.branch(ln == 4) or not within(d + 4): return None
            return 'sig', (b(d), b(d + 1)), d + 4, st
        if not within(d + ln): return None
        return 'skip', (), d + ln, st
    if vm.branch(st < 0xF0):
        ch = st % 16
        if vm.branch(st < 0xA0):
            if not within(q + 2): return None
            on = z3.And(st >= 0x90, b(q + 1) != 0)
            return ('on' if vm.branch(on) else 'off'), (ch, b(q), b(q + 1)), q + 2, st
        one = z3.And(st >= 0xC0, st < 0xE0)
        n = 1 if vm.branch(one) else 2
        if not within(q + n): return None
        return 'skip', (), q + n, st
    if vm.branch(st == 0xF0):
        if not vm.branch(sp.sxok(q)): return None
        return 'skip', (), sp.sxe(q), st
    for n in (0, 1, 2):
        if vm.branch(z3.Or([st == s for s, m in SYS.items() if m == n])):
            if not within(q + n): return None
            return 'skip', (), q + n, st
    return None


class SysexLoop(LoopSpec):
    """Skips to right after the first F7."""
    name = 'system exclusive'
    def __init__(self, sp, r): self.sp, self.r = sp, r
    def enter(self, vm, run): self.p = rpos(vm, self.r)
    def applies(self, vm, node, env, seq): return seq is None and getattr(vm.path, 'in_event', False)
    def candidates(self, vm, ints, k):
        sp, p, q = self.sp, self.p, rpos(vm, self.r)
        same = z3.And(sp.sxe(q) == sp.sxe(p), sp.sxok(q) == sp.sxok(p))
        done = z3.And(q == sp.sxe(p), sp.sxok(p))
        out = [('position in range', z3.And(q >= p, q <= sp.n)), ('same end', same)]
        for x in sorted(ints):
            out.append((f'end after last byte {x}', z3.If(ints[x] == 0xF7, done, same)))
        return out
    def measures(self, vm, ints): return [('bytes left', self.sp.n - rpos(vm, self.r))]


# ---------------------------------------------------------------------- components of the loops
def mismatch(run, why):
    """The code keeps its state in a shape the specification does not know."""
    if not run.last: run.reject(why)
    raise Unsupported(why)


def fld(vm, o, name):
    v = o.fields.get(name) if isinstance(o, Obj) else None
    return vm.T(v) if vm.isint(v) else None


def ev_class(vm, name):
    c = vm.load(MIDIM).ns.get(name)
    if not isinstance(c, PyClass): raise Unsupported(f'no class {name}')
    return c


def mk_event(vm, on, ch, key, vel):
    return build(vm, lambda: vm.instantiate(ev_class(vm, '_EventNoteON' if on else '_EventNoteOFF'), [], {'channel': vm.mkint(ch), 'pitch': vm.mkint(key), 'velocity': vm.mkint(vel)}))


class PosComp:
    """The position of the byte source."""
    name, optional, hint, left = 'position', False, None, True
    def __init__(self, r, P): self.r, self.P = r, P
    def fits(self, vm, l, entry):
        if l.kind == 'field': return l.key.split('.')[-1] == rshape(vm, self.r.cls) and l.get() is self.r.fields[rshape(vm, self.r.cls)]
        return l.kind == 'file' and any(l.get() is x for x in self.r.fields.values())
    def havoc(self, vm, l, entry, run, k):
        set_rpos(vm, self.r, self.P(k))
        vm.assume(z3.And(self.P(k) >= 0, self.P(k) <= self.r.ghost['src'].n))
    def goal(self, vm, l, entry, run, pre, new, k): return rpos(vm, self.r) == new


class PrevComp:
    """The running status: -1 (absent) is written as the value before the loop."""
    name, optional, hint, left = 'running status', False, 'previous_status', True
    def __init__(self, PS): self.PS = PS
    def fits(self, vm, l, entry): return l.kind == 'var' and (entry is None or isinstance(entry, int) and not isinstance(entry, bool) and entry < 0x80 and l.key == self.hint)
    def havoc(self, vm, l, entry, run, k):
        t = self.PS(k)
        vm.assume(z3.Or(t == -1, z3.And(t >= 128, t <= 255)))
        if vm.branch(t == -1): l.set(entry)
        else: l.set(SInt(t))
    def goal(self, vm, l, entry, run, pre, new, k):
        v = l.get()
        if v is None: return new == -1
        if not vm.isint(v): mismatch(run, 'running status is not an integer')
        if entry is None: return vm.T(v) == new
        return z3.If(new == -1, vm.T(v) == entry, vm.T(v) == new)


class Decode:
    """The events of one track: state before event k, and the note events of every channel."""
    def __init__(self, vm, sp, p0, nm=''):
        I, B = z3.IntSort(), z3.BoolSort()
        F = lambda x, *s: z3.Function(x + nm, *s)
        self.sp = sp
        self.P, self.T, self.PS, self.G = F('evpos', I, I), F('evtime', I, I), F('evprev', I, I), F('evchan', I, I)
        self.CN = F('nev', I, I, I)                     # number of note events of channel c before event k
        self.ct, self.con, self.ckey, self.cvel = F('ct', I, I, I), F('con', I, I, B), F('ckey', I, I, I), F('cvel', I, I, I)
        self.SH, self.SN, self.SD = F('sighas', I, I, B), F('sign', I, I, I), F('sigd', I, I, I)
        z = z3.IntVal(0)
        vm.assume(z3.And(self.P(z) == p0, self.T(z) == 0, self.PS(z) == -1, self.G(z) == -1))
        self.K = None
    def events(self, c, k):
        """The list of the note events of channel c before event k."""
        def elem(vm, j):
            vm.assume(z3.And(self.ct(c, j) >= 0, z3.Implies(j > 0, self.ct(c, j) >= self.ct(c, j - 1)), self.ckey(c, j) >= 0, self.ckey(c, j) <= 255))
            on = vm.branch(self.con(c, j))
            if on: vm.assume(z3.And(self.cvel(c, j) >= 1, self.cvel(c, j) <= 255))
            vel = self.cvel(c, j) if on else vm.fresh_int('offvel', 0).t
            return (SInt(self.ct(c, j)), mk_event(vm, on, c, self.ckey(c, j), vel))
        return SymSeq('chan', self.CN(c, k), elem, chan=c, dec=self)
    def sig(self, vm, c):
        """Signature of channel c at the end."""
        K = self.K
        own, glob = self.SH(c, K), self.SH(z3.IntVal(-1), K)
        pick = lambda f, d: z3.If(own, f(c, K), z3.If(glob, f(z3.IntVal(-1), K), z3.IntVal(d)))
        return pick(self.SN, 4), pick(self.SD, 4)


class EventsComp:
    """Map from channels to the lists of their note events."""
    name, optional, hint = 'events of channels', False, 'channel_events'
    def __init__(self, dec): self.dec = dec
    def fits(self, vm, l, entry): return l.kind == 'dict' and not entry.log and entry.base is None and (entry.factory is not None or 'event' in l.key)
    def havoc(self, vm, l, entry, run, k):
        dec = self.dec
        def getter(vm2, c):
            vm2.assume(dec.CN(c, k) > 0)
            return SymList([('base', dec.events(c, k))])
        b = MapBase(vm.fresh_name('chev'), getter)
        dec.base_has[b.name] = b
        vm.assume(z3.BoolVal(True))
        b.has = ChanHas(vm, dec, k)
        b.dec, b.k = dec, k
        self.base = b
        d = l.get(); d.log[:] = []; d.base = b
        return d
    def goal(self, vm, l, entry, run, pre, new, k):
        d = l.get()
        if d.base is not self.base: mismatch(run, 'map of channel events replaced')
        todo, ts = new, []
        for key, lst in d.log:
            if not isinstance(lst, SymList) or not vm.isint(key): mismatch(run, 'channel events are not lists')
            items = [x for kk, x in lst.segs if kk == 'item']
            bases = [x for kk, x in lst.segs if kk == 'base']
            c = vm.T(key)
            if bases:
                if lst.segs[0][0] != 'base' or len(bases) != 1 or bases[0].attrs.get('dec') is not self.dec: mismatch(run, 'list of channel events replaced')
                ts += [bases[0].n == self.dec.CN(c, k), bases[0].attrs['chan'] == c, self.dec.CN(c, k) > 0]
            else: ts.append(self.dec.CN(c, k) == 0)
            if not items:
                ts.append(z3.BoolVal(bool(bases)))
                continue
            if todo is None or len(items) != 1: return z3.BoolVal(False)
            kind, t, ch, p, v = todo
            x = items[0]
            if not isinstance(x, tuple) or len(x) != 2 or not vm.isint(x[0]) or not isinstance(x[1], Obj): mismatch(run, 'channel event is not (time, event)')
            on = x[1].cls.issub(ev_class(vm, '_EventNoteON'))
            if not on and not x[1].cls.issub(ev_class(vm, '_EventNoteOFF')): return z3.BoolVal(False)
            if None in (fld(vm, x[1], 'pitch'), fld(vm, x[1], 'velocity')): mismatch(run, 'fields of events')
            ts += [z3.BoolVal(on == (kind == 'on')), vm.T(x[0]) == t, c == ch, fld(vm, x[1], 'pitch') == p]
            if kind == 'on': ts.append(fld(vm, x[1], 'velocity') == v)
            todo = None
        ts.append(z3.BoolVal(todo is None))
        return z3.And(ts)


class ChanHas:
    """has(c) for the map of channel events: there is at least one event."""
    def __init__(self, vm, dec, k): self.vm, self.dec, self.k = vm, dec, k
    def __call__(self, c):
        self.vm.assume(self.dec.CN(c, self.k) >= 0)
        return self.dec.CN(c, self.k) > 0


class SigsComp:
    """Map from channels (-1: all) to signatures."""
    name, optional, hint = 'signatures of channels', False, 'channel_signatures'
    def __init__(self, dec): self.dec = dec
    def fits(self, vm, l, entry): return l.kind == 'dict' and not entry.log and entry.base is None
    def havoc(self, vm, l, entry, run, k):
        dec = self.dec
        def getter(vm2, c):
            vm2.assume(z3.And(dec.SN(c, k) >= 0, dec.SN(c, k) <= 255, dec.SD(c, k) >= 1, isp2(dec.SD(c, k))))
            return mk_sig(vm2, vm2.mkint(dec.SN(c, k)), vm2.mkint(dec.SD(c, k)))
        b = MapBase(vm.fresh_name('chsig'), getter)
        b.has = lambda c: dec.SH(c, k)
        self.base = b
        d = l.get(); d.log[:] = []; d.base = b
        return d
    def goal(self, vm, l, entry, run, pre, new, k):
        d = l.get()
        if d.base is not self.base: mismatch(run, 'map of signatures replaced')
        if new is None: return z3.BoolVal(not d.log)
        if len(d.log) != 1: return z3.BoolVal(False)
        key, s = d.log[0]
        if not vm.isint(key) or obs_sig(vm, s) is None: mismatch(run, 'map of signatures')
        c, n, dn = new
        o = obs_sig(vm, s)
        return z3.And(vm.T(key) == c, o[0] == n, o[1] == dn)


class DecodeLoop(LoopSpec):
    """Event by event until end of track."""
    name, tag, join_break = 'events of a track', 'C18', True
    raise_tag, known_error = 'C19', 'MIDIParsingError'
    def __init__(self, vm, dec, r):
        self.dec, self.r = dec, r
        dec.base_has = {}
        self.carries = [PosComp(r, dec.P), PrevComp(dec.PS), EventsComp(dec), SigsComp(dec)]
    def applies(self, vm, node, env, seq): return seq is None and not getattr(vm.path, 'in_event', False)
    def enter(self, vm, run): vm.path.in_event = True
    def finish(self, vm, run, k): vm.path.in_event = False
    def candidates(self, vm, ints, k):
        d = self.dec
        out = []
        for x in sorted(ints):
            out += [(f'{x} is the time', ints[x] == d.T(k)), (f'{x} is the channel prefix', ints[x] == d.G(k))]
        return out + [('time is not negative', d.T(k) >= 0)]
    def measures(self, vm, ints): return [('bytes left', self.dec.sp.n - rpos(vm, self.r))]
    def step(self, vm, run, pre, item, k, outcome):
        d, sp = self.dec, self.dec.sp
        p = d.P(k)
        ev = None
        if vm.branch(sp.vlok(p)):
            dt, q = sp.vlv(z3.IntVal(0), p), sp.vle(p)
            vm.assume(z3.And(dt >= 0, q > p, q <= sp.n))
            ev = spec_event(vm, sp, q, d.PS(k))
        if ev is None:
            vm.path.malformed = True
            return 'raise', 'MIDIParsingError'
        kind, pay, q, ps = ev
        t = d.T(k) + dt
        vm.assume(z3.And(d.P(k + 1) == q, d.T(k + 1) == t, d.PS(k + 1) == ps, d.G(k + 1) == (pay[0] if kind == 'prefix' else d.G(k))))
        new = {'position': q, 'running status': ps}
        if kind in ('on', 'off'): new['events of channels'] = (kind, t) + tuple(pay)
        if kind == 'sig':
            new['signatures of channels'] = (d.G(k), pay[0], pow2f(pay[1]))
        if kind == 'eot':
            d.K = k
            return 'break', new
        return 'next', new


# ---------------------------------------------------------------------- notes of one channel
def sym_midireader(vm):
    mt, m = sym_tone(vm, 'mid')
    return build(vm, lambda: vm.instantiate(Rea(vm), [], {'middle_c': mt})), m


def tsig(t, tpq): return t * 4096 / tpq


def spec_rvel(vm, v):
    q = fdiv(i2f(v), z3.FPVal(127.0, FP))
    return z3.If(v <= 127, q, z3.FPVal(1.0, FP))


class Pairing:
    """Notes of channel c: the keys sounding before event i, since when and how loud, and the notes so far."""
    def __init__(self, vm, dec, mid, tpq, nm=''):
        I, B = z3.IntSort(), z3.BoolSort()
        F = lambda x, *s: z3.Function(x + nm, *s)
        self.dec, self.mid, self.tpq = dec, mid, tpq
        self.on, self.since, self.vel = F('snd', I, I, I, B), F('since', I, I, I, I), F('sndvel', I, I, I, I)
        self.notes = F('notes', I, I, Bag)
    def final(self, c): return self.notes(c, self.dec.CN(c, self.dec.K))


class RunningComp:
    """Map from sounding keys to (time, note-on event)."""
    name, optional, hint = 'sounding keys', False, 'running_notes'
    def __init__(self, pr): self.pr = pr
    def fits(self, vm, l, entry): return l.kind == 'dict' and not entry.log and entry.base is None
    def havoc(self, vm, l, entry, run, k):
        pr, c = self.pr, run.seq.attrs['chan']
        def getter(vm2, p):
            s, v = pr.since(c, k, p), pr.vel(c, k, p)
            vm2.assume(z3.And(s >= 0, s <= pr.dec.ct(c, k), v >= 1, v <= 255))
            return (SInt(s), mk_event(vm2, True, c, p, v))
        b = MapBase(vm.fresh_name('running'), getter)
        b.has = lambda p: pr.on(c, k, p)
        self.base = b
        d = l.get(); d.log[:] = []; d.base = b
        return d
    def goal(self, vm, l, entry, run, pre, new, k):
        d = l.get()
        if d.base is not self.base: mismatch(run, 'map of sounding keys replaced')
        if new is None: return z3.BoolVal(not d.log)
        if len(d.log) != 1: return z3.BoolVal(False)
        key, x = d.log[0]
        if not vm.isint(key): mismatch(run, 'map of sounding keys')
        if new[0] == 'off': return z3.And(vm.T(key) == new[1], z3.BoolVal(x is stdlib.TOMB))
        if x is stdlib.TOMB: return z3.BoolVal(False)
        if not isinstance(x, tuple) or len(x) != 2 or not vm.isint(x[0]) or fld(vm, x[1], 'velocity') is None: mismatch(run, 'a sounding key is not (time, note-on event)')
        return z3.And(vm.T(key) == new[1], vm.T(x[0]) == new[2], fld(vm, x[1], 'velocity') == new[3])


class NotesComp(TrackComp):
    """The track: the notes so far, or one more of the given position, pitch, duration and velocity."""
    def goal(self, vm, l, entry, run, pre, new, k):
        b = state_bag(vm, l.get())
        if b is None: return z3.BoolVal(False)
        c = run.seq.attrs['chan']
        old, nxt = self.pr.notes(c, k), self.pr.notes(c, k + 1)
        if new is None: return inv_formula(vm, l.get(), old)
        if not (z3.is_app(b) and b.decl().name() == 'badd'): return z3.BoolVal(False)
        kk = b.arg(1)
        if kk.decl().name() != 'K': return z3.BoolVal(False)
        pos, pitch, dur, vel = new
        from .signature import value_facts
        n, d = kk.arg(2), kk.arg(3)
        value_facts(vm, n, d)
        return z3.And(b.arg(0) == old, kk.arg(0) == pos, kk.arg(1) == pitch, V(n, d) == dur, kk.arg(4) == vel, inv_formula(vm, l.get(), None))


class PairLoop(LoopSpec):
    """Every note-on of a silent key with the next note-off of the key makes a note."""
    name, tag, raise_tag = 'notes of a channel', 'C20', 'C19'
    def __init__(self, pr):
        self.pr = pr
        t = NotesComp('track', lambda o: True, None)
        t.pr = pr
        self.t = t
        self.carries = [t, RunningComp(pr)]
    def enter(self, vm, run):
        c = run.seq.attrs['chan']
        self.t.bagfn = lambda k: self.pr.notes(c, k)
        self.t.pick = lambda o: vm.valid(state_bag(vm, o) == bempty)
        vm.assume(self.pr.notes(c, z3.IntVal(0)) == bempty)
    def applies(self, vm, node, env, seq): return seq is not None and seq.attrs.get('dec') is self.pr.dec
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] != 'next': return None
        pr, c = self.pr, run.seq.attrs['chan']
        dec = pr.dec
        t, key = dec.ct(c, k), dec.ckey(c, k)
        snd = vm.branch(pr.on(c, k, key))
        if vm.branch(dec.con(c, k)):
            return 'next', {} if snd else {'sounding keys': ('on', key, t, dec.cvel(c, k))}
        if not snd: return 'next', {}
        s, v = pr.since(c, k, key), pr.vel(c, k, key)
        from .signature import value_facts
        a, b = tsig(s, pr.tpq), tsig(t - s, pr.tpq)
        for x in (a, b): value_facts(vm, x, z3.IntVal(16384))
        return 'next', {'sounding keys': ('off', key), 'track': (V(a, z3.IntVal(16384)), key - 60 + pr.mid, V(b, z3.IntVal(16384)), spec_rvel(vm, v))}


class ResultComp:
    """Map from the channels handled so far to their tracks."""
    name, optional, hint = 'tracks of channels', False, 'result'
    def __init__(self, pr): self.pr = pr
    def fits(self, vm, l, entry): return l.kind == 'dict' and not entry.log and entry.base is None
    def havoc(self, vm, l, entry, run, k):
        self.base = result_base(vm, self.pr, run.seq, k)
        d = l.get(); d.log[:] = []; d.base = self.base
        return d
    def goal(self, vm, l, entry, run, pre, new, k):
        d = l.get()
        if d.base is not self.base: mismatch(run, 'result replaced')
        if len(d.log) != 1: return z3.BoolVal(False)
        key, t = d.log[0]
        if not vm.isint(key) or not isinstance(t, Obj) or not t.ghost or not t.ghost.get('track'): mismatch(run, 'map of tracks')
        return z3.And(vm.T(key) == new, track_is(vm, self.pr, t, new))


def track_is(vm, pr, t, c, empty=False):
    s = obs_sig(vm, t.fields[shape(vm)['sig']])
    n, d = pr.dec.sig(vm, c)
    b = state_bag(vm, t)
    if b is None or s is None: return z3.BoolVal(False)
    return z3.And(b == (bempty if empty else pr.final(c)), s[0] == n, s[1] == d, inv_formula(vm, t, None))


def result_base(vm, pr, seq, k):
    def getter(vm2, c): raise Unsupported('track of an earlier channel')
    b = MapBase(vm.fresh_name('result'), getter)
    b.pr, b.seq, b.k = pr, seq, k
    return b


class ChannelLoop(LoopSpec):
    """One track per channel with events."""
    name, tag, raise_tag = 'channels', 'C20', 'C19'
    def __init__(self, pr):
        self.pr = pr
        self.carries = [ResultComp(pr)]
    def applies(self, vm, node, env, seq): return seq is not None and seq.attrs.get('channels') is self.pr.dec
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] != 'next': return None
        return 'next', {'tracks of channels': self.pr.chan(k)}


def chan_view(pr):
    """items / keys / values of the map of channel events: every channel with events once."""
    def hook(vm, d, what):
        b = d.base
        if getattr(b, 'dec', None) is not pr.dec or pr.dec.K is None or not b.k.eq(pr.dec.K): raise Unsupported('iteration of a symbolic map')
        def elem(vm2, i):
            c = pr.chan(i)
            vm2.assume(z3.And(c >= 0, c <= 15, pr.dec.CN(c, b.k) > 0))
            lst = SymList([('base', pr.dec.events(c, b.k))])
            return (SInt(c), lst) if what == 'items' else SInt(c) if what == 'keys' else lst
        return SymList([('base', SymSeq('channels', pr.m, elem, channels=pr.dec))])
    return hook


@register
class ParseTrack(Contract):
    """requires ticks per quarter >= 1.  ensures: the parsing error exactly when an event before end of track is malformed;
    else a map from every channel with note events (channel 0 when there is none) to a track with the notes of the
    channel's events and the signature that applies to it."""
    qual, mod, props = 'MIDIReader._parse_track', MIDIM, ('C18', 'C19', 'C20')
    term_tag = 'C19'
    def run(self, vm):
        install(vm)
        rd, mid = sym_midireader(vm)
        tpq = vm.sym_int('tpq', 1, 0x7FFF)
        r, sp, p = sym_source(vm)
        dec = Decode(vm, sp, p)
        pr = Pairing(vm, dec, mid, tpq.t)
        pr.chan, pr.m = z3.Function('chan_at', z3.IntSort(), z3.IntSort()), z3.Int('n_channels')
        vm.assume(pr.m >= 0)
        vm.dict_view_hook = chan_view(pr)
        vm.loopspecs = [DecodeLoop(vm, dec, r), SysexLoop(sp, r), ChannelLoop(pr), PairLoop(pr)]
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, rd), [r, tpq], {}))
        if k == 'exc':
            vm.prove('C19 MIDIReader._parse_track fails only with the parsing error', exc_is(v, 'MIDIParsingError'))
            vm.prove('C18 MIDIReader._parse_track refuses only malformed tracks', z3.BoolVal(getattr(vm.path, 'malformed', False)))
            return
        if dec.K is None: vm.prove('C18 MIDIReader._parse_track stops at the end of track only', False); return
        if not isinstance(v, PyDict): raise Unsupported('result of _parse_track')
        if v.base is not None:
            b = v.base
            ok = getattr(b, 'pr', None) is pr and not v.log
            vm.prove('C20 MIDIReader._parse_track gives the track of every channel with notes', z3.And(z3.BoolVal(ok), b.k == pr.m) if ok else z3.BoolVal(False))
            return
        vm.prove('C20 MIDIReader._parse_track without notes gives one empty track for channel 0',
                 z3.And(vm.T(v.log[0][0]) == 0, track_is(vm, pr, v.log[0][1], z3.IntVal(0), True)) if len(v.log) == 1 and vm.isint(v.log[0][0]) and isinstance(v.log[0][1], Obj) else z3.BoolVal(False))
    def cases(self, m, variant): return []
    def summary(self, vm, args, kw):
        vals = dict(zip(['self', 'data', 'ticks_per_quarter'], args)); vals.update(kw)
        ts = getattr(vm, 'parsed', None)
        if ts is None or set(vals) != {'self', 'data', 'ticks_per_quarter'}: return NotImplemented
        rd, r, q = vals['self'], vals['data'], vals['ticks_per_quarter']
        if rd is not ts.reader or not isinstance(r, Obj) or not r.cls is ReaderCls(vm) or not vm.isint(q): return NotImplemented
        at = source_at(vm, r)
        if at is None or at[0] is not ts.blob: return NotImplemented
        off, n = at[1:]
        if not vm.prove(f'C19 {vm.top.qual}: the resolution given to _parse_track is 1..32767', z3.And(vm.T(q) >= 1, vm.T(q) <= 0x7FFF), kind='pre'): raise PathEnd()
        if vm.branch(z3.Or(n == 0, ts.mal(off, n, vm.T(q)))): raise_parse(vm)
        return ts.result(vm, off, n, vm.T(q))


def source_at(vm, r):
    """(blob, offset, length) of what is left in a byte source at its start, or None."""
    data = [x for x in r.fields.values() if isinstance(x, (bytes, SBytes))]
    if len(data) != 1 or not vm.valid(rpos(vm, r) == 0): return None
    ps = SBytes([data[0]]).parts
    if not ps: return vm.parsed.blob, z3.IntVal(0), z3.IntVal(0)
    if len(ps) != 1 or not isinstance(ps[0], Slice): return None
    return ps[0].blob, ps[0].off, ps[0].n
