"""Contracts of MIDIWriter.dump, dumps and the module functions.

A = (position_i, note_i), i < n, is the sequence the track yields (contract of Track.__iter__).  E is the sequence of the
2n events: E(2i) = (pulses(position_i), note-on), E(2i+1) = (pulses(position_i) + pulses(duration_i), note-off).  S is E
stably sorted by time; st(j), sb(j) are the times and bytes of S.  BODY(k) is the concatenation over j < k of
VLQ(st(j) - st(j-1)) and sb(j), with st(-1) = 0.
"""
from .base import *
from .track import *
from .track import vm_iter
from .midi_w import *
from .midi_w import MIDIM, Wri, sym_writer, on_bytes, off_bytes, key_ok, bytes_are, be, parts_of, msg_case
from .signature import val
from pyvc.loops import LoopSpec
from pyvc import stdlib


def pulses(vm, cfg, s): return pls(4 * cfg['ppq'], val(vm, s))


@register
class Pulses(Contract):
    """ensures: the result is floor(pulses per whole note * value of the signature)."""
    qual, mod, props = 'MIDIWriter._signature_to_pulses', MIDIM, ('C17',)
    def run(self, vm):
        w, cfg = sym_writer(vm)
        s, n, d = sym_sig(vm, 's')
        f = self.target(vm)
        k, v = outcome(vm, lambda: call_any(vm, '_signature_to_pulses', w, [s]))
        if k == 'exc': vm.prove('C17 _signature_to_pulses does not raise', False); return
        vm.prove('C17 _signature_to_pulses gives floor(pulses per whole note * position)', vm.T(v) == pulses(vm, cfg, s) if vm.isint(v) else False)
    def cases(self, m, variant):
        return [('C17', ('tr', [((60, (m.get('s_n', 1), m.get('s_d', 4)), .5), (m.get('s_n', 1), m.get('s_d', 4)))], (4, 4), m.get('ppq', 96), 36, 0, 120.0))]
    def summary(self, vm, args, kw):
        cfg = getattr(vm, 'writer_cfg', {}).get(id(args[0])) if args else None
        a = list(args[1:]) + list(kw.values())
        if cfg is None or len(a) != 1 or obs_sig(vm, a[0]) is None: return NotImplemented
        t = pulses(vm, cfg, a[0])
        vm.assume(z3.And(val(vm, a[0]) >= 0, t >= 0))
        return vm.mkint(t)


class Events:
    """The sequences E, S and D of one dump."""
    def __init__(self, vm, A, cfg):
        self.A, self.cfg = A, cfg
        I = z3.IntSort()
        self.st, self.sb = z3.Function('st', I, I), z3.Function('sb', I, Byt)
        self.BODY, self.blen = z3.Function('BODY', I, Byt), z3.Function('blen', I, I)
        self.E = self.S = self.D = None
    def prev(self, j): return z3.If(j == 0, z3.IntVal(0), self.st(j - 1))
    def sorted(self, vm, n):
        def elem(vm2, j):
            vm2.assume(z3.And(self.st(j) >= self.prev(j), self.prev(j) >= 0))      # times are >= 0 and ascending
            return (vm2.mkint(self.st(j)), SBytes([OpaqueBytes(self.sb(j), z3.IntVal(3))]))
        self.S = SymSeq('S', n, elem)
        return self.S
    def bytes_k(self, k): return OpaqueBytes(self.sb(k), z3.IntVal(3))
    def body(self, k): return OpaqueBytes(self.BODY(k), self.blen(k))


def flat(vm, vals):
    """Byte parts of a list of byte strings, VLQs of constants written out."""
    out = []
    for v in vals:
        if not isinstance(v, (bytes, SBytes)): return None
        for p in stdlib._norm(vm, SBytes([v]).parts):
            if isinstance(p, OpaqueBytes) and p.origin and p.origin[0] == 'vlq':
                t = z3.simplify(p.origin[1])
                if z3.is_int_value(t) and 0 <= t.as_long() < 128: p = t.as_long()
            out.append(p)
    return out


def same_parts(vm, parts, want):
    if parts is None or len(parts) != len(want): return z3.BoolVal(False)
    return bytes_are(vm, SBytes(parts), want)


class NoteEvents:
    """List of the events of the first k notes."""
    name, optional, hint = 'events', False, None
    def __init__(self, ev): self.ev = ev
    def fits(self, vm, l, entry): return l.kind == 'list' and not entry.segs
    def havoc(self, vm, l, entry, run, k):
        def elem(vm2, j): raise Unsupported('element of the unsorted events')
        self.base = SymSeq('E', 2 * k, elem, events=self.ev)
        l.get().segs[:] = [('base', self.base)]
    def goal(self, vm, l, entry, run, pre, new, k):
        segs = l.get().segs
        if len(segs) != 3 or segs[0] != ('base', self.base): return z3.BoolVal(False)
        ts = []
        for (kind, x), (t, bs) in zip(segs[1:], new):
            if kind != 'item' or not isinstance(x, tuple) or len(x) != 2 or not vm.isint(x[0]) or not isinstance(x[1], (bytes, SBytes)): return z3.BoolVal(False)
            ts += [vm.T(x[0]) == t, bytes_are(vm, x[1], bs)]
        return z3.And(ts)


class CollectLoop(LoopSpec):
    """Two events for every note, note-on first."""
    name, tag = 'events of the notes', 'C17'
    def __init__(self, ev):
        self.ev = ev
        self.emits = [NoteEvents(ev)]
    def applies(self, vm, node, env, seq): return seq is self.ev.A
    def step(self, vm, run, pre, item, k, outcome):
        pos, note = item
        nt = obs_note(vm, note)
        cfg = self.ev.cfg
        if not vm.branch(key_ok(cfg, nt)):
            vm.path.bad_key = True
            return 'raise', 'ValueError'
        if outcome[0] != 'next': return None
        on = pulses(vm, cfg, pos)
        off = on + pulses(vm, cfg, get(vm, note, 'duration'))
        return 'next', {'events': [(on, on_bytes(cfg, nt)), (off, off_bytes(cfg, nt))]}


class DeltaList:
    """entry ++ (delta time, bytes) of the first k sorted events."""
    name, optional, hint = 'deltas', False, None
    def __init__(self, ev): self.ev = ev
    def fits(self, vm, l, entry): return l.kind == 'list'
    def havoc(self, vm, l, entry, run, k):
        ev = self.ev
        def elem(vm2, j):
            vm2.assume(z3.And(ev.st(j) >= ev.prev(j), ev.prev(j) >= 0))
            return (vm2.mkint(ev.st(j) - ev.prev(j)), SBytes([ev.bytes_k(j)]))
        self.base = SymSeq('D', k, elem, deltas=ev)
        l.get().segs[:] = list(entry.segs) + [('base', self.base)]
    def goal(self, vm, l, entry, run, pre, new, k):
        segs = l.get().segs
        n = len(entry.segs)
        if len(segs) != n + 2 or any(a is not b for a, b in zip([x for _, x in segs[:n + 1]], [x for _, x in entry.segs] + [self.base])): return z3.BoolVal(False)
        x = segs[-1][1]
        if segs[-1][0] != 'item' or not isinstance(x, tuple) or len(x) != 2 or not vm.isint(x[0]): return z3.BoolVal(False)
        return z3.And(vm.T(x[0]) == self.ev.st(k) - self.ev.prev(k), same_parts(vm, flat(vm, [x[1]]), [self.ev.bytes_k(k)]))


class BodyBytes:
    """entry ++ BODY(k), as a list of byte strings or as one byte string."""
    name, optional, hint = 'body', False, None
    def __init__(self, ev): self.ev = ev
    def fits(self, vm, l, entry):
        return l.kind == 'list' and all(k == 'item' and isinstance(x, (bytes, SBytes)) for k, x in entry.segs) or l.kind == 'var' and isinstance(entry, (bytes, SBytes)) or l.kind == 'mbytes'
    def havoc(self, vm, l, entry, run, k):
        vm.assume(self.ev.blen(k) >= 0)
        if l.kind == 'var': l.set(mkbytes([entry, self.ev.body(k)]))
        elif l.kind == 'mbytes': l.get().v = mkbytes([entry, self.ev.body(k)])
        else:
            self.base = SymSeq('BODY', 2 * k, lambda vm2, j: _no(), joined=self.ev.body(k))
            l.get().segs[:] = list(entry.segs) + [('base', self.base)]
    def goal(self, vm, l, entry, run, pre, new, k):
        d = self.ev.st(k) - self.ev.prev(k)
        want = [OpaqueBytes(VLQ(d), None), self.ev.bytes_k(k)]
        if l.kind in ('var', 'mbytes'):
            n = len(flat(vm, [mkbytes([entry])]))
            ps = flat(vm, [mkbytes([l.get()])])
            if ps is None or len(ps) != n + 3 or not isinstance(ps[n], OpaqueBytes) or not ps[n].t.eq(self.ev.BODY(k)): return z3.BoolVal(False)
            return same_parts(vm, ps[n + 1:], want)
        segs, n = l.get().segs, len(entry.segs)
        if len(segs) < n + 1 or any(a is not b for a, b in zip([x for _, x in segs[:n + 1]], [x for _, x in entry.segs] + [self.base])): return z3.BoolVal(False)
        if any(k != 'item' for k, _ in segs[n + 1:]): return z3.BoolVal(False)
        return same_parts(vm, flat(vm, [x for _, x in segs[n + 1:]]), want)


def _no(): raise Unsupported('element of the track body')


class EventLoop(LoopSpec):
    """A pass over the sorted events or the delta events that appends deltas or track bytes."""
    tag = 'C17'
    def __init__(self, name, ev, comps, over):
        self.name, self.ev, self.emits, self.over = name, ev, comps, over
    def applies(self, vm, node, env, seq):
        if self.over == 'S': return seq is not None and seq is self.ev.S
        return seq is not None and seq.attrs.get('deltas') is self.ev
    def candidates(self, vm, ints, k): return [(f'{x} is the previous time', ints[x] == self.ev.prev(k)) for x in sorted(ints)]
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] != 'next': return None
        return 'next', {}


def sort_hook(ev):
    def hook(vm, l, key, rev):
        if len(l.segs) != 1 or l.segs[0][0] != 'base' or l.segs[0][1].attrs.get('events') is not ev: raise Unsupported('sort of other things')
        if rev is not False or key is None: raise Unsupported('events sorted by something else than their time')
        x = (vm.fresh_int('anyt', 0), SBytes([OpaqueBytes(z3.Const(vm.fresh_name('anyb'), Byt), z3.IntVal(3))]))
        r = vm.call(key, [x], {})
        if not vm.isint(r) or not vm.valid(vm.T(r) == vm.T(x[0])): raise Unsupported('events sorted by something else than their time')
        l.segs[:] = [('base', ev.sorted(vm, l.segs[0][1].n))]
    return hook


def join_hook(ev):
    """The concatenation of a sequence whose k-th element is the encoded delta time and bytes of event k."""
    def hook(vm, x):
        if ev.S is None or not vm.valid(x.n == ev.S.n): return None
        k = vm.fresh_int('k_join', 0).t
        vm.assume(ev.blen(x.n) >= 0)
        saved = list(vm.path.pc)
        vm.assume(k < x.n)
        ps = flat(vm, [x.elem(vm, k)])
        ok = vm.valid(same_parts(vm, ps, [OpaqueBytes(VLQ(ev.st(k) - ev.prev(k)), None), ev.bytes_k(k)]))
        if not ok: return None
        vm.path.pc[:] = saved
        return ev.body(x.n)
    return hook


def tempo_term(cfg):
    return fdiv(z3.FPVal(60000000.0, FP), cfg['bpm'])


def tempo_ok(cfg):
    q = tempo_term(cfg)
    return z3.And(z3.Not(z3.fpIsZero(cfg['bpm'])), z3.Not(z3.fpIsNaN(q)), z3.Not(z3.fpIsInf(q)), f2i(q) >= 0, f2i(q) < 2 ** 24)


def sig_fits(n, d): return z3.And(n <= 255, bitlen(d) - 1 <= 255)


def file_header(cfg): return list(b'MThd\0\0\0\x06') + [0, 0, 0, 1] + be(cfg['ppq'], 2)
def track_body(sn, sd, cfg, events):
    """The bytes of the track: signature and tempo at time 0, the encoded events, end of track."""
    return [0, 0xFF, 0x58, 4, sn, bitlen(sd) - 1, 24, 8, 0, 0xFF, 0x51, 3] + be(f2i(tempo_term(cfg)), 3) + [events] + END
END = [0, 0xFF, 0x2F, 0]


OUT = z3.Function('OUT', z3.IntSort(), z3.IntSort(), z3.IntSort(), FP, Bag, z3.IntSort(), z3.IntSort(), Byt)


def dump_args(vm, args, kw):
    vals = dict(zip(['self', 'track', 'file'], args)); vals.update(kw)
    return vals if set(vals) == {'self', 'track', 'file'} else None


@register
class Dump(Contract):
    """ensures: the file receives exactly header ++ 'MTrk' ++ length ++ VLQ(0) signature VLQ(0) tempo BODY(2n) VLQ(0)
    end-of-track; raises only when a key, the signature, the tempo or the length does not fit, and then wrote nothing."""
    qual, mod, props = 'MIDIWriter.dump', MIDIM, ('C17', 'C16')
    def run(self, vm):
        install(vm)
        w, cfg = sym_writer(vm)
        vm.opaque_notation = True
        vm.writer_cfg = {id(w): cfg}
        t, bag, sig = mk_track(vm, 't')
        sn, sd = obs_sig(vm, sig)
        A = stdlib.seq_segs(vm, vm_iter(vm, t))[0][1]
        vm.assume(z3.And(A.n >= 0, A.n == bsize(bag)))
        ev = Events(vm, A, cfg)
        vm.loopspecs = [CollectLoop(ev), EventLoop('delta times', ev, [DeltaList(ev)], 'S'), EventLoop('track bytes', ev, [BodyBytes(ev)], 'D'),
                        EventLoop('track bytes from sorted events', ev, [BodyBytes(ev)], 'S')]
        vm.sort_hook = sort_hook(ev)
        vm.join_hook = join_hook(ev)
        file = FileObj()
        before = snap(vm, w)
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, w), [t, file], {}))
        vm.prove('C17 MIDIWriter.dump leaves the track and the writer unchanged', z3.And(state_bag(vm, t) == bag, z3.BoolVal(before == snap(vm, w) and t.fields[shape(vm)['sig']] is sig)))
        body = track_body(sn, sd, cfg, ev.body(2 * A.n))
        if k == 'exc':
            vm.prove('C17 a dump that raises has written nothing', z3.BoolVal(not file.out))
            if not getattr(vm.path, 'bad_key', False):
                vm.prove('C17 MIDIWriter.dump refuses only what cannot be written', z3.Or(z3.Not(sig_fits(sn, sd)), z3.Not(tempo_ok(cfg)), ev.blen(2 * A.n) >= 2 ** 32 - 100))
            return
        vm.prove('C16 MIDIWriter.dump writes only a time signature and a tempo that fit', z3.And(sig_fits(sn, sd), tempo_ok(cfg)))
        ps = flat(vm, file.out)
        head = file_header(cfg)
        if ps is None or file.closed: vm.prove('C17 MIDIWriter.dump writes bytes', False); return
        vm.prove('C17 MIDIWriter.dump writes the header chunk of a format-0 file with one track', same_parts(vm, ps[:len(head)], head))
        ps = ps[len(head):]
        vm.prove('C17 MIDIWriter.dump writes one track chunk', same_parts(vm, ps[:4], list(b'MTrk')))
        rest = ps[8:]
        if vm.valid(A.n == 0) and not any(isinstance(p, OpaqueBytes) and p.t.decl().name() == 'BODY' for p in rest):
            body = [x for x in body if not isinstance(x, OpaqueBytes)]
        L = vm.T(stdlib.length(vm, SBytes([x for p in rest for x in [p]])))
        vm.prove('C17 MIDIWriter.dump: the declared length of the track chunk is its real length', z3.And(L < 2 ** 32, same_parts(vm, ps[4:8], be(L, 4))))
        vm.prove('C17 MIDIWriter.dump: the track is signature, tempo, the sorted note events with their delta times, end of track', same_parts(vm, rest, body))
        vm.prove('C16 MIDIWriter.dump writes the time signature and the tempo', same_parts(vm, rest[:15], body[:15]))
        vm.prove('C17 MIDIWriter.dump writes nothing after the track chunk', z3.BoolVal(len(rest) <= len(body)))
    def summary(self, vm, args, kw):
        vals = dump_args(vm, args, kw)
        if vals is None: return NotImplemented
        w, t, f = vals['self'], vals['track'], vals['file']
        cfg = getattr(vm, 'writer_cfg', {}).get(id(w))
        if cfg is None or not isinstance(t, Obj) or not t.ghost or not t.ghost.get('track') or not isinstance(f, FileObj): return NotImplemented
        bag, s = state_bag(vm, t), obs_sig(vm, t.fields[shape(vm)['sig']])
        if bag is None or not vm.valid(inv_formula(vm, t, None)): return NotImplemented
        if vm.choose(2) == 1:
            vm.path.refused = True
            raise rz((ValueError, OverflowError, ZeroDivisionError)[vm.choose(3)], 'dump')
        n = vm.fresh_int('outn', 0).t
        f.out.append(SBytes([OpaqueBytes(OUT(cfg['ppq'], cfg['ch'], cfg['mid'], cfg['bpm'], bag, *s), n)]))
        return None


def want_out(cfg, bag, s): return OUT(cfg['ppq'], cfg['ch'], cfg['mid'], cfg['bpm'], bag, *s)


@register
class Dumps(Contract):
    """ensures: returns exactly the bytes dump writes to a file; raises exactly when dump does."""
    qual, mod, props = 'MIDIWriter.dumps', MIDIM, ('C17',)
    def run(self, vm):
        install(vm)
        w, cfg = sym_writer(vm)
        vm.writer_cfg = {id(w): cfg}
        t, bag, sig = mk_track(vm, 't')
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, w), [t], {}))
        if k == 'exc': vm.prove('C17 MIDIWriter.dumps raises only what dump raises', z3.BoolVal(getattr(vm.path, 'refused', False))); return
        vm.prove('C17 MIDIWriter.dumps gives the bytes of dump', same_parts(vm, flat(vm, [v]), [OpaqueBytes(want_out(cfg, bag, obs_sig(vm, sig)), None)]))
    def summary(self, vm, args, kw):
        vals = dict(zip(['self', 'track'], args)); vals.update(kw)
        if set(vals) != {'self', 'track'}: return NotImplemented
        f = FileObj()
        r = Dump.summary(REG['MIDIWriter.dump'], vm, [vals['self'], vals['track'], f], {})
        return r if r is NotImplemented else mkbytes(f.out)


def module_fn(name):
    @register
    class Fn(Contract):
        qual, mod, props = f'midi.{name}', MIDIM, ('C17',)
        def variants(self): return [('given', lambda vm: self.go(vm, True)), ('defaults', lambda vm: self.go(vm, False))]
        def go(self, vm, given):
            install(vm)
            vm.writer_cfg = {}
            t, bag, sig = mk_track(vm, 't')
            kw = {}
            cfg = dict(ppq=z3.IntVal(96), ch=z3.IntVal(0), mid=z3.IntVal(36), bpm=z3.FPVal(120.0, FP))
            if given:
                kw = {'bpm': vm.sym_float('bpm'), 'channel': vm.sym_int('ch')}
                cfg['bpm'], cfg['ch'] = kw['bpm'].t, kw['channel'].t
            ok = z3.And(cfg['ch'] >= 0, cfg['ch'] <= 15)
            file = FileObj()
            f = self.target(vm)
            k, v = outcome(vm, lambda: vm.call(f, [t, file] if name == 'dump' else [t], kw))
            if k == 'exc':
                vm.prove(f'C17 {name} raises only for a bad channel or what MIDIWriter.{name} raises', z3.Or(z3.Not(ok), z3.BoolVal(getattr(vm.path, 'refused', False))))
                vm.prove(f'C17 {name}: nothing is written when it raises', z3.BoolVal(not file.out))
                return
            got = [] if file.closed else file.out if name == 'dump' else [v]
            vm.prove(f'C17 {name} gives the bytes of MIDIWriter.dump with the default resolution and middle C', same_parts(vm, flat(vm, got), [OpaqueBytes(want_out(cfg, bag, obs_sig(vm, sig)), None)]))
    return Fn


module_fn('dump')
module_fn('dumps')
