"""C21: writing a track and reading it back, as lemmas over the contracts of the writer and the reader.

Nothing here runs code of /repo: the lemmas talk about the specification functions of the contracts, and use the very
objects those contracts use (track_body, on_bytes, off_bytes, pls, spec_event, DecodeLoop.step, PairLoop.step,
ChunkLoop.step, tsig, spec_rvel).  The check of C21 verifies these lemmas and every contract they are about.

A track of n notes: position and duration of note i are the reals pos(i), dur(i), its key key(i), its velocity v(i), in
the order A of iteration.  et(2i) = pls(W, pos(i)), et(2i + 1) = et(2i) + pls(W, dur(i)), W = 4 ppq.  The writer's sorted
sequence is given by rk (rank of an event) and src (its inverse): rk(e) < rk(f) iff (et(e), e) < (et(f), f).
"""
from .base import *
from .signature import value_facts
from .midi_w import MIDIM, on_bytes, off_bytes, spec_vel, be
from .midi_d import Events, track_body, file_header, sig_fits, tempo_ok, tempo_term, END
from .midi_r import BlobSpec, Decode, DecodeLoop, Pairing, PairLoop, tsig, spec_rvel
from .midi_l import Parsed, ChunkLoop, Merge, BSUM
from pyvc import stdlib

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
AT = z3.Function('AT', Byt, I, B)          # AT(t, p): from position p on the data starts with t
REST = z3.Function('REST', I, Byt)         # the encoded events from event j on, and the end of track
DEPENDS = ['MIDIWriter.__init__', 'MIDIWriter._format_var_len', 'MIDIWriter._format_note_on', 'MIDIWriter._format_note_off', 'MIDIWriter._format_signature',
           'MIDIWriter._format_tempo', 'MIDIWriter._format_chunk', 'MIDIWriter._format_header_chunk', 'MIDIWriter._signature_to_pulses', 'MIDIWriter.dump',
           'MIDIWriter.dumps', 'midi.dump', 'midi.dumps', 'MIDIReader.__init__', '_Reader.read', 'MIDIReader._read_var_len', 'MIDIReader._parse_track',
           'MIDIReader._pitch_to_tone', 'MIDIReader._time_to_signature', 'MIDIReader.load', 'MIDIReader.loads', 'midi.load', 'midi.loads', 'Track.__iter__', 'Track.add', 'Track.__init__']


def cat(parts, tail):
    """Byt term of the parts (ints, z3 Ints) followed by tail."""
    for x in reversed(parts): tail = consB(z3.IntVal(x) if isinstance(x, int) else x, tail)
    return tail


def vlq_then(x, tail): return PRE(x / 128, consB(x % 128, tail))


class Data(BlobSpec):
    """The data read, with AT."""
    def __init__(self, vm, name='D'):
        n = z3.Int('len_' + name)
        vm.assume(n >= 0)
        super().__init__(name, n)
        def at(e):
            t, p = e.arg(0), e.arg(1)
            if not (z3.is_app(t) and t.decl().name() == 'consB'): return []
            return [('at_def', e == z3.And(p < n, self.f(p) == t.arg(0), AT(t.arg(1), p + 1)))]
        theory.DEFS['AT'] = at
    def vlq_at(self, vm, x, tail, p):
        """Lemma L1: where the data starts with VLQ(x) and tail, the quantity read is x and tail follows."""
        vm.assume(z3.Implies(z3.And(x >= 0, p >= 0, AT(vlq_then(x, tail), p)), self.reads(x, tail, p)))
    def laid(self, vm, parts, tail, p):
        """What AT(cat(parts, tail), p) says, unfolded: the bytes from p on, and tail after them."""
        self.f_facts(vm, [p + i for i in range(len(parts))])
        vm.assume(z3.Implies(AT(cat(parts, tail), p), z3.And([p + len(parts) <= self.n] + [self.f(p + i) == x for i, x in enumerate(parts)] + [AT(tail, p + len(parts))])))
    def f_facts(self, vm, ps):
        """Bytes are 0..255; a byte below 128 is a whole quantity (the equations of vlok, vle, vlv)."""
        for p in ps:
            b, z = self.f(p), z3.IntVal(0)
            vm.assume(z3.And(b >= 0, b <= 255, z3.Implies(z3.And(b < 128, p < self.n), z3.And(self.vlok(p), self.vle(p) == p + 1, self.vlv(z, p) == b))))
    def reads(self, x, tail, p):
        return z3.And(self.vlok(p), self.vlv(z3.IntVal(0), p) == x, AT(tail, self.vle(p)), self.vle(p) > p, self.vle(p) <= self.n)


class Lemma(Contract):
    mod, props = MIDIM, ('C21',)
    def target(self, vm):
        vm.load(MIDIM)
        vm.summarised |= set(DEPENDS)
        vm.prune = True
        return None
    def parts(self): return [('', self.run_)]
    def variants(self): return [(nm, (lambda g: lambda vm: self.guarded(vm, g))(g)) for nm, g in self.parts()]
    def guarded(self, vm, g):
        """The lemma, and that its hypotheses do not contradict each other."""
        self.target(vm)
        g(vm)
        r, _, _ = theory.check(vm.path.pc, want_model=True, quick=True)
        if r == 'unsat': vm.prove(f'C21 {self.qual}: the hypotheses are consistent', False)
        elif r == 'sat': vm.prove(f'C21 {self.qual}: the hypotheses are consistent', True)


@register
class VlqBack(Lemma):
    """L1, by induction on x: where the data starts with PRE(x, tail), reading reaches tail with x accumulated."""
    qual = 'lemma: a written quantity is read back'
    def parts(self): return [('induction', self.induction), ('conclusion', self.conclusion)]
    def claim(self, sp, x, tail, p, q):
        return z3.And(AT(tail, q), q >= p, sp.vlv(z3.IntVal(0), p) == sp.vlv(x, q), sp.vlok(p) == sp.vlok(q), sp.vle(p) == sp.vle(q))
    def induction(self, vm):
        sp = Data(vm)
        x, p, tail = vm.sym_int('x', 0).t, vm.sym_int('p', 0).t, z3.Const('tail', Byt)
        vm.assume(AT(PRE(x, tail), p))
        if vm.branch(x == 0):
            vm.prove('C21 lemma L1 base: nothing written, nothing read', self.claim(sp, x, tail, p, p)); return
        q = vm.sym_int('q').t
        t2 = consB(128 + x % 128, tail)
        vm.prove('C21 lemma L1 step: the first bytes encode x / 128', z3.And(AT(PRE(x / 128, t2), p), x / 128 < x, x / 128 >= 0))
        vm.assume(self.claim(sp, x / 128, t2, p, q))                 # induction hypothesis for x / 128 < x
        vm.prove('C21 lemma L1 step: one more continuation byte', self.claim(sp, x, tail, p, q + 1))
    def conclusion(self, vm):
        sp = Data(vm)
        x, p, q, tail = vm.sym_int('x', 0).t, vm.sym_int('p', 0).t, vm.sym_int('q').t, z3.Const('tail', Byt)
        vm.assume(AT(vlq_then(x, tail), p))
        vm.assume(self.claim(sp, x / 128, consB(x % 128, tail), p, q))       # L1 with x / 128
        vm.prove('C21 lemma L1: a written quantity is read back and the rest follows', sp.reads(x, tail, p))


class Written:
    """A written track: settings, notes, sorted events."""
    def __init__(self, vm):
        F = z3.Function
        self.vm = vm
        self.cfg = dict(ppq=vm.sym_int('ppq', 1, 32767).t, ch=vm.sym_int('ch', 0, 15).t, mid=vm.sym_int('mid').t, bpm=vm.sym_float('bpm').t)
        self.n = vm.sym_int('n', 0).t
        self.pos, self.dur = F('pos', I, R), F('dur', I, R)
        self.pitch, self.v = F('pitch', I, I), F('v', I, FP)
        self.rk, self.src = F('rk', I, I), F('src', I, I)
        self.W = 4 * self.cfg['ppq']
        self.a, self.d = (lambda i: pls(self.W, self.pos(i))), (lambda i: pls(self.W, self.dur(i)))
        self.on = lambda i: on_bytes(self.cfg, (self.pitch(i), None, None, self.v(i)))
        self.off = lambda i: off_bytes(self.cfg, (self.pitch(i), None, None, self.v(i)))
        self.key, self.vel = (lambda i: self.on(i)[1]), (lambda i: self.on(i)[2])
        self.ev = Events(vm, None, self.cfg)
    def et(self, e): return self.a(e / 2) + z3.If(e % 2 == 1, self.d(e / 2), z3.IntVal(0))
    def is_on(self, j): return self.src(j) % 2 == 0
    def bytes(self, j):
        i = self.src(j) / 2
        return [z3.If(self.is_on(j), x, y if z3.is_expr(y) else z3.IntVal(y)) for x, y in zip(self.on(i), self.off(i))]
    def note(self, i):
        """Hypotheses on note i: representable, key in 0..127, velocity in [1/127, 1]."""
        vm = self.vm
        v = self.v(i)
        vm.assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(
            self.key(i) >= 0, self.key(i) <= 127, self.vel(i) >= 1, self.vel(i) <= 127,       # L5: velocities of at least 1/127
            self.pos(i) >= 0, self.dur(i) >= 0, self.a(i) >= 0, self.d(i) >= 0)))
    def ordered(self, i, k):
        """A is ascending by position, then by the note (contract of Track.__iter__), over whole numbers of pulses (L5);
        notes of the same tone do not overlap."""
        for i, k in ((i, k), (k, i)):
            self.vm.assume(z3.Implies(z3.And(i >= 0, i < k, k < self.n), z3.And(
                self.a(i) <= self.a(k),
                z3.Implies(z3.And(self.a(i) == self.a(k), self.key(i) == self.key(k)), self.d(i) <= self.d(k)),
                z3.Implies(self.key(i) == self.key(k), z3.Or(self.a(i) + self.d(i) <= self.a(k), self.a(k) + self.d(k) <= self.a(i))))))
    def event(self, e):
        self.vm.assume(z3.Implies(z3.And(e >= 0, e < 2 * self.n), z3.And(self.rk(e) >= 0, self.rk(e) < 2 * self.n, self.src(self.rk(e)) == e)))
    def index(self, j):
        self.vm.assume(z3.Implies(z3.And(j >= 0, j < 2 * self.n), z3.And(self.src(j) >= 0, self.src(j) < 2 * self.n, self.rk(self.src(j)) == j, self.ev.st(j) == self.et(self.src(j)))))
    def compare(self, e, f):
        """The events are sorted by time, stably."""
        m = 2 * self.n
        self.vm.assume(z3.Implies(z3.And(e >= 0, e < m, f >= 0, f < m), (self.rk(e) < self.rk(f)) == z3.Or(self.et(e) < self.et(f), z3.And(self.et(e) == self.et(f), e < f))))


@register
class Times(Lemma):
    """Event times are not negative and ascending."""
    qual = 'lemma: the delta times are not negative'
    def run_(self, vm):
        w = Written(vm)
        j = vm.sym_int('j', 0).t
        vm.assume(j < 2 * w.n)
        w.index(j); w.note(w.src(j) / 2)
        if vm.branch(j > 0):
            w.index(j - 1); w.compare(w.src(j - 1), w.src(j)); w.compare(w.src(j), w.src(j - 1)); w.note(w.src(j - 1) / 2)
        vm.prove('C21 lemma L2: delta times are not negative', z3.And(w.ev.prev(j) >= 0, w.ev.st(j) >= w.ev.prev(j)))


def next_state(vm, dec, k, new, ch):
    """State after event k as the components of the reader's loop define it from what the step says."""
    e = new.get('events of channels')
    for c in [z3.Int('any_channel'), ch] + ([e[2]] if e else []):
        if e is None: vm.assume(dec.CN(c, k + 1) == dec.CN(c, k))
        else: vm.assume(dec.CN(c, k + 1) == dec.CN(c, k) + z3.If(c == e[2], z3.IntVal(1), z3.IntVal(0)))
    if e is not None:
        i = dec.CN(e[2], k)
        vm.assume(z3.And(dec.ct(e[2], i) == e[1], dec.con(e[2], i) == z3.BoolVal(e[0] == 'on'), dec.ckey(e[2], i) == e[3]))
        if e[0] == 'on': vm.assume(dec.cvel(e[2], i) == e[4])
    s = new.get('signatures of channels')
    for c in (z3.Int('any_channel'), z3.IntVal(-1)):
        hit = c == s[0] if s else z3.BoolVal(False)
        vm.assume(z3.And(dec.SH(c, k + 1) == z3.Or(hit, dec.SH(c, k)),
                         dec.SN(c, k + 1) == (z3.If(hit, s[1], dec.SN(c, k)) if s else dec.SN(c, k)), dec.SD(c, k + 1) == (z3.If(hit, s[2], dec.SD(c, k)) if s else dec.SD(c, k))))


def state(w, sp, dec, j, sn, sd):
    """Before event j of the written track (event j + 2 of the data)."""
    k, c, ch = j + 2, z3.Int('any_channel'), w.cfg['ch']
    m1 = z3.IntVal(-1)
    return z3.And(dec.P(k) >= 0, dec.P(k) <= sp.n, AT(REST(j), dec.P(k)), dec.T(k) == w.ev.prev(j), dec.G(k) == -1,
                  dec.CN(ch, k) == j, z3.Implies(c != ch, dec.CN(c, k) == 0),
                  dec.SH(m1, k), dec.SN(m1, k) == sn, dec.SD(m1, k) == sd, z3.Implies(c != -1, z3.Not(dec.SH(c, k))))


@register
class Decoded(Lemma):
    """L2 / L3: the reader sees exactly the written events on the writer's channel, and the signature."""
    qual = 'lemma: the written events are decoded'
    def parts(self): return [('signature and tempo', self.head), ('one event', self.step), ('end of track', self.end)]
    def start(self, vm):
        w, sp = Written(vm), Data(vm)
        self.w = w
        dec = Decode(vm, sp, z3.IntVal(0))
        sn, sd = vm.sym_int('sn', 0).t, vm.sym_int('sd', 1).t
        vm.assume(z3.And(isp2(sd), sig_fits(sn, sd), tempo_ok(w.cfg)))
        vm.assume(pow2f(bitlen(sd) - 1) == sd)             # lemma bitlen_isp2
        loop = DecodeLoop(vm, dec, None)
        return w, sp, dec, loop, sn, sd
    def go(self, vm, dec, loop, k):
        kind, new = loop.step(vm, None, None, None, k, ('next',))
        if kind == 'next': next_state(vm, dec, k, new, self.w.cfg['ch'])
        return kind, new
    def head(self, vm):
        w, sp, dec, loop, sn, sd = self.start(vm)
        parts = track_body(sn, sd, w.cfg, None)
        i = parts.index(None)
        if parts[i + 1:] != END: raise Unsupported('layout of the track')
        vm.assume(AT(cat(parts[:i], REST(z3.IntVal(0))), z3.IntVal(0)))
        sp.laid(vm, parts[:i], REST(z3.IntVal(0)), z3.IntVal(0))
        c = z3.Int('any_channel')
        z = z3.IntVal(0)
        vm.assume(z3.And(dec.CN(c, z) == 0, dec.CN(w.cfg['ch'], z) == 0, z3.Not(dec.SH(c, z)), z3.Not(dec.SH(z3.IntVal(-1), z))))    # nothing before the first event
        # the first quantity and the one before the tempo are the byte 0, the lengths inside the events single bytes
        k1, new = self.go(vm, dec, loop, z)
        vm.prove('C21 lemma L2: the first event is the signature', z3.BoolVal(k1 == 'next' and 'signatures of channels' in new))
        if k1 != 'next': return
        k2, new = self.go(vm, dec, loop, z3.IntVal(1))
        vm.prove('C21 lemma L2: the second event is the tempo, which is skipped', z3.BoolVal(k2 == 'next' and 'signatures of channels' not in new and 'events of channels' not in new))
        if k2 != 'next': return
        vm.prove('C21 lemma L2: then come the encoded notes', state(w, sp, dec, z, sn, sd))
    def step(self, vm):
        w, sp, dec, loop, sn, sd = self.start(vm)
        j = vm.sym_int('j', 0).t
        vm.assume(j < 2 * w.n)
        k = j + 2
        w.index(j); w.note(w.src(j) / 2)
        vm.assume(z3.And(w.ev.prev(j) >= 0, w.ev.st(j) >= w.ev.prev(j)))            # lemma: delta times
        vm.assume(state(w, sp, dec, j, sn, sd))
        x, tail = w.ev.st(j) - w.ev.prev(j), cat(w.bytes(j), REST(j + 1))
        vm.assume(REST(j) == vlq_then(x, tail))                                       # the encoding of event j, then the others
        sp.vlq_at(vm, x, tail, dec.P(k))
        sp.laid(vm, w.bytes(j), REST(j + 1), sp.vle(dec.P(k)))
        kind, new = self.go(vm, dec, loop, k)
        e = new.get('events of channels') if kind == 'next' else None
        vm.prove('C21 lemma L2: every written event is read as a note event', z3.BoolVal(e is not None))
        if e is None: return
        ch, b = w.cfg['ch'], w.bytes(j)
        vm.prove('C21 lemma L3: with its kind, time, key and velocity',
                 z3.And(e[2] == ch, z3.BoolVal(e[0] == 'on') == w.is_on(j), dec.ct(ch, j) == w.ev.st(j), dec.con(ch, j) == w.is_on(j), dec.ckey(ch, j) == w.key(w.src(j) / 2),
                        z3.Implies(w.is_on(j), dec.cvel(ch, j) == w.vel(w.src(j) / 2))))
        vm.prove('C21 lemma L2: and the next event follows', state(w, sp, dec, j + 1, sn, sd))
    def end(self, vm):
        w, sp, dec, loop, sn, sd = self.start(vm)
        j = 2 * w.n
        vm.assume(state(w, sp, dec, j, sn, sd))
        vm.assume(REST(j) == cat(END, nilB))
        sp.laid(vm, END, nilB, dec.P(j + 2))
        kind, new = self.go(vm, dec, loop, j + 2)
        vm.prove('C21 lemma L2: after the last event the end of track is read', z3.BoolVal(kind == 'break'))
        if kind != 'break': return
        n, d = dec.sig(vm, w.cfg['ch'])
        n0, d0 = dec.sig(vm, z3.IntVal(0))
        c = z3.Int('any_channel')
        vm.assume(z3.Or(c == w.cfg['ch'], c == 0))
        nc, dc = dec.sig(vm, c)
        vm.prove('C21 lemma L3: the signature of the channel is the written one', z3.And(nc == sn, dc == sd))


@register
class Paired(Lemma):
    """L4: key p sounds before event j exactly when a note of p is on and not yet off; each note-off adds its note."""
    qual = 'lemma: the written notes are paired'
    def parts(self): return [('start', self.first), ('one event', self.step)]
    def setup(self, vm):
        w = Written(vm)
        dec = Decode(vm, Data(vm), z3.IntVal(0))
        pr = Pairing(vm, dec, w.cfg['mid'], w.cfg['ppq'])
        return w, dec, pr
    def sounding(self, w, pr, j, p, wit):
        """on(j, p) -> note wit(j, p) of key p is on, with its time and velocity."""
        c = w.cfg['ch']
        i = wit(j, p)
        return z3.Implies(pr.on(c, j, p), z3.And(i >= 0, i < w.n, w.key(i) == p, w.rk(2 * i) < j, j <= w.rk(2 * i + 1), pr.since(c, j, p) == w.a(i), pr.vel(c, j, p) == w.vel(i)))
    def complete(self, w, pr, j, i, wit):
        """A note that is on and not yet off is the one sounding."""
        c = w.cfg['ch']
        return z3.Implies(z3.And(i >= 0, i < w.n, w.rk(2 * i) < j, j <= w.rk(2 * i + 1)), z3.And(pr.on(c, j, w.key(i)), wit(j, w.key(i)) == i))
    def first(self, vm):
        w, dec, pr = self.setup(vm)
        wit = z3.Function('which', I, I, I)
        p, i = z3.Int('p'), vm.sym_int('i').t
        w.event(2 * i)
        vm.assume(z3.Not(pr.on(w.cfg['ch'], z3.IntVal(0), p)))
        vm.prove('C21 lemma L4: before the first event nothing sounds', z3.And(self.sounding(w, pr, z3.IntVal(0), p, wit), self.complete(w, pr, z3.IntVal(0), i, wit)))
    def step(self, vm):
        w, dec, pr = self.setup(vm)
        c = w.cfg['ch']
        wit = z3.Function('which', I, I, I)
        j = vm.sym_int('j', 0).t
        vm.assume(j < 2 * w.n)
        p, i = vm.sym_int('p').t, vm.sym_int('i').t              # arbitrary key and note
        i0 = w.src(j) / 2
        k0 = w.key(i0)
        # the decoded event j (L3)
        vm.assume(z3.And(dec.ct(c, j) == w.ev.st(j), dec.con(c, j) == w.is_on(j), dec.ckey(c, j) == k0, z3.Implies(w.is_on(j), dec.cvel(c, j) == w.vel(i0))))
        # induction hypothesis, for the keys and notes it is needed for
        i1 = wit(j, k0)
        for q in (p, k0): vm.assume(self.sounding(w, pr, j, q, wit))
        for q in (i, i0): vm.assume(self.complete(w, pr, j, q, wit))
        w.index(j)
        notes = [i0, i1, i, wit(j, p)]
        for x in notes:
            w.note(x)
            for e in (2 * x, 2 * x + 1): w.event(e)
            w.compare(2 * x, 2 * x + 1)
        for x in notes:
            for y in notes:
                if not x.eq(y):
                    w.ordered(x, y)
                    w.compare(2 * x + 1, 2 * y)
                    w.compare(2 * x, 2 * y)
        loop = PairLoop(pr)
        class Run: seq = stdlib.SymSeq('chan', 2 * w.n, None, chan=c, dec=dec)
        kind, new = loop.step(vm, Run, None, None, j, ('next',))
        s = new.get('sounding keys')
        # state after the event, as the components of the loop define it
        on2 = lambda q: pr.on(c, j, q) if s is None else z3.If(q == s[1], z3.BoolVal(s[0] == 'on'), pr.on(c, j, q))
        for q in {p, k0, w.key(i)}:
            vm.assume(pr.on(c, j + 1, q) == on2(q))
            if s is not None and s[0] == 'on':
                vm.assume(z3.And(pr.since(c, j + 1, q) == z3.If(q == s[1], s[2], pr.since(c, j, q)), pr.vel(c, j + 1, q) == z3.If(q == s[1], s[3], pr.vel(c, j, q))))
                vm.assume(wit(j + 1, q) == z3.If(q == s[1], i0, wit(j, q)))
            else: vm.assume(z3.And(pr.since(c, j + 1, q) == pr.since(c, j, q), pr.vel(c, j + 1, q) == pr.vel(c, j, q), wit(j + 1, q) == wit(j, q)))
        vm.prove('C21 lemma L4: every note-on starts its note, every note-off ends it', z3.And(z3.BoolVal(s is not None), z3.BoolVal(s is not None and s[0] == 'on') == w.is_on(j), s[1] == k0 if s is not None else z3.BoolVal(False)))
        vm.prove('C21 lemma L4: what sounds is a note that is on', self.sounding(w, pr, j + 1, p, wit))
        vm.prove('C21 lemma L4: a note that is on sounds', self.complete(w, pr, j + 1, i, wit))
        t = new.get('track')
        vm.prove('C21 lemma L4: a note is added exactly at its note-off', z3.BoolVal(t is not None) == z3.Not(w.is_on(j)))
        if t is not None:
            a, d = tsig(w.a(i0), pr.tpq), tsig(w.d(i0), pr.tpq)
            vm.prove('C21 lemma L4: the note added has the position, pitch, duration and velocity of the written note',
                     z3.And(t[0] == V(a, z3.IntVal(16384)), t[1] == w.pitch(i0), t[2] == V(d, z3.IntVal(16384)), t[3] == spec_rvel(vm, w.vel(i0))))


def note_done(vm, dec, pr, w, nm='DONE'):
    """DONE(j): the notes added by the events before event j, KK(i) standing for the key of the note added for note i:
    DONE(0) = {}, DONE(j + 1) = DONE(j) + {KK(src(j) / 2)} at a note-off, DONE(j) at a note-on.  src is a bijection of
    0 .. 2n - 1, so DONE(2n) = {KK(i) : i < n} (lean/Lemmas.lean, done_all)."""
    return z3.Function(nm, I, Bag), z3.Function('KK', I, Key)


@register
class Added(Lemma):
    """L4, whole track: the notes of the channel are one note for every written note."""
    qual = 'lemma: every written note is read once'
    def parts(self): return [('start', self.first), ('one event', self.step)]
    def setup(self, vm):
        w = Written(vm)
        dec = Decode(vm, Data(vm), z3.IntVal(0))
        pr = Pairing(vm, dec, w.cfg['mid'], w.cfg['ppq'])
        return w, dec, pr, *note_done(vm, dec, pr, w)
    def first(self, vm):
        w, dec, pr, DONE, KK = self.setup(vm)
        z = z3.IntVal(0)
        vm.assume(z3.And(DONE(z) == bempty, pr.notes(w.cfg['ch'], z) == bempty))      # definition; contract of _parse_track
        vm.prove('C21 lemma L4: before the first event there is no note', pr.notes(w.cfg['ch'], z) == DONE(z))
    def step(self, vm):
        w, dec, pr, DONE, KK = self.setup(vm)
        c, j = w.cfg['ch'], vm.sym_int('j', 0).t
        vm.assume(z3.And(j < 2 * w.n, pr.notes(c, j) == DONE(j)))                     # induction hypothesis
        k = KK(w.src(j) / 2)
        vm.assume(DONE(j + 1) == z3.If(w.is_on(j), DONE(j), badd(DONE(j), k)))        # definition
        # lemma L4 (pairing): a note is added exactly at its note-off; it has the key KK
        vm.assume(pr.notes(c, j + 1) == z3.If(w.is_on(j), pr.notes(c, j), badd(pr.notes(c, j), k)))
        vm.prove('C21 lemma L4: the notes so far are those of the note-offs so far', pr.notes(c, j + 1) == DONE(j + 1))


def whole(vm, w, i):
    """Hypotheses of the property on note i: position and duration are whole numbers of pulses, and representable by the
    reader (whole numbers of 1/16384)."""
    W = z3.ToReal(w.W)
    for x, nm in ((w.pos(i), 'position'), (w.dur(i), 'duration')):
        a, m = z3.Int(f'{nm}_pulses_{i}'), z3.Int(f'{nm}_units_{i}')
        vm.assume(z3.And(x >= 0, W * x == z3.ToReal(a), 16384 * x == z3.ToReal(m)))
        yield x, a, m


def pls_is(vm, W, x):
    """pls(W, x) is the floor of W x."""
    vm.assume(pls(W, x) == z3.ToInt(z3.ToReal(W) * x))


@register
class Exact(Lemma):
    """L5: conversions.  A position of a whole number of pulses is written as that number and read back exactly; the order
    of positions is that of their pulses; velocities are 1..127."""
    qual = 'lemma: conversions between positions and pulses are exact'
    def parts(self): return [('one', self.one), ('order', self.order), ('overlap', self.overlap), ('velocity', self.velocity), ('velocity again', self.again)]
    def one(self, vm):
        w = Written(vm)
        for nm, (x, a, m) in zip(('position', 'duration'), whole(vm, w, z3.Int('i'))):
            pls_is(vm, w.W, x)
            vm.prove(f'C21 lemma L5: the {nm} in pulses is exact', z3.And(pls(w.W, x) == a, a >= 0))
            vm.prove(f'C21 lemma L5: pulses and units of the {nm} are proportional', 4096 * a == m * w.cfg['ppq'])
            vm.assume(z3.And(pls(w.W, x) == a, 4096 * a == m * w.cfg['ppq']))
            vm.prove(f'C21 lemma L5: the {nm} read back is the units of the {nm} written', tsig(a, w.cfg['ppq']) == m)
            vm.assume(tsig(a, w.cfg['ppq']) == m)
            value_facts(vm, m, z3.IntVal(16384))
            vm.prove(f'C21 lemma L5: the {nm} read back is the {nm} written', V(tsig(pls(w.W, x), w.cfg['ppq']), z3.IntVal(16384)) == x)
    def order(self, vm):
        w = Written(vm)
        i, k = z3.Ints('i k')
        (x, a, m), _ = whole(vm, w, i)
        (y, b, n), _ = whole(vm, w, k)
        W = z3.ToReal(w.W)
        vm.assume(z3.And(w.a(i) == a, w.a(k) == b))                  # exact, above
        vm.assume(z3.And((x <= y) == (W * x <= W * y), (x == y) == (W * x == W * y)))         # W > 0
        vm.prove('C21 lemma L5: pulses are in the order of the positions', z3.And((x <= y) == (w.a(i) <= w.a(k)), (x == y) == (w.a(i) == w.a(k))))
    def overlap(self, vm):
        w = Written(vm)
        i, k = z3.Ints('i k')
        (x, a, _), (d, b, _) = whole(vm, w, i)
        (y, c, _), (e, f, _) = whole(vm, w, k)
        W = z3.ToReal(w.W)
        vm.assume(z3.And(w.a(i) == a, w.a(k) == c, w.d(i) == b))
        vm.assume(z3.And((x + d <= y) == (W * (x + d) <= W * y), W * (x + d) == W * x + W * d))
        vm.prove('C21 lemma L5: notes overlap in pulses when they do in time', (x + d <= y) == (w.a(i) + w.d(i) <= w.a(k)))
    def velocity(self, vm):
        """Velocities of at least 1/127 are written as 1..127, in their order (rounding is monotone)."""
        v, u, lo, one = vm.sym_float('v').t, vm.sym_float('u').t, fdiv(i2f(z3.IntVal(1)), z3.FPVal(127.0, FP)), z3.FPVal(1.0, FP)
        vm.assume(z3.And(z3.fpLEQ(lo, v), z3.fpLEQ(v, u), z3.fpLEQ(u, one)))
        back(vm, z3.IntVal(1)); back(vm, z3.IntVal(127))
        vm.assume(fdiv(i2f(z3.IntVal(127)), z3.FPVal(127.0, FP)) == one)               # back, exhaustive
        for x, y in ((lo, v), (v, u), (u, one)): mono(vm, x, y)
        vm.prove('C21 lemma L5: velocities are written as 1..127 in their order', z3.And(spec_vel(v) >= 1, spec_vel(v) <= spec_vel(u), spec_vel(u) <= 127))
    def again(self, vm):
        """Exhaustive over the 127 values, by constant folding of the IEEE operations."""
        b127, zero = z3.FPVal(127.0, FP), z3.FPVal(0.0, FP)
        prev = zero
        for b in range(1, 128):
            q = z3.simplify(z3.fpDiv(z3.RNE(), z3.FPVal(float(b), FP), b127))
            t = z3.simplify(z3.fpMul(z3.RNE(), q, b127))
            vm.prove('C21 lemma L5: a velocity read back is written as the same value', z3.And(t == z3.FPVal(float(b), FP), z3.fpLT(prev, q), z3.fpLEQ(q, z3.FPVal(1.0, FP))))
            prev = q


def back(vm, b):
    """The product and quotient at value b (lemma: conversions, velocity again): b / 127 * 127 is b, for b in 1..127."""
    vm.assume(z3.Implies(z3.And(b >= 1, b <= 127), spec_vel(fdiv(i2f(b), z3.FPVal(127.0, FP))) == b))


def mono(vm, x, y):
    """Products with 127 and truncation are monotone (correct rounding)."""
    vm.assume(z3.Implies(z3.fpLEQ(x, y), spec_vel(x) <= spec_vel(y)))


def frombe(bs): return sum(b * 256 ** (len(bs) - 1 - i) for i, b in enumerate(bs))


@register
class FileRead(Lemma):
    """L6: the reader finds the header and the one track chunk, and gives the notes and signature of its one channel."""
    qual = 'lemma: the written file is read'
    def parts(self): return [('big-endian', self.bigend), ('chunks', self.chunks), ('channels', self.channels)]
    def bigend(self, vm):
        """Big-endian bytes are read back."""
        n = vm.sym_int('n', 0, 2 ** 32 - 1).t
        for x in range(3, 0, -1): vm.assume((n / 256 ** x) == (n / 256 ** (x - 1)) / 256)        # floor division twice
        vm.prove('C21 lemma L6: four big-endian bytes give the number', frombe(be(n, 4)) == n)
        vm.prove('C21 lemma L6: two big-endian bytes give the number', z3.Implies(n < 2 ** 16, frombe(be(n, 2)) == n))
    def chunks(self, vm):
        w, sp = Written(vm), Data(vm, 'F')
        ps = Parsed(vm, sp.blob, None)
        class File: blob = sp.blob
        ck = ChunkLoop(ps, File, z3.IntVal(0))
        ck.enter(vm, None)
        n = vm.sym_int('tracklen', 0, 2 ** 32 - 1).t
        body = z3.Const('trackbytes', Byt)
        parts = file_header(w.cfg) + list(b'MTrk') + be(n, 4)
        vm.assume(z3.And(AT(cat(parts, body), z3.IntVal(0)), sp.n == len(parts) + n, n >= len(END)))          # what dump writes; len is the real length
        sp.laid(vm, parts, body, z3.IntVal(0))
        vm.assume(z3.And(frombe(be(n, 4)) == n, frombe(be(w.cfg['ppq'], 2)) == w.cfg['ppq']))         # big-endian, above
        vm.assume(z3.And([z3.And(x >= 0, x <= 255) for x in be(n, 4) + be(w.cfg['ppq'], 2)]))
        vm.prove('C21 lemma L6: the track bytes follow the chunk headers', AT(body, z3.IntVal(len(parts))))
        vm.assume(z3.Not(ps.mal(z3.IntVal(22), n, w.cfg['ppq'])))        # lemma L2: every event is well-formed up to end of track
        for k, what in enumerate(('header', 'track')):
            kind, new = ck.step(vm, None, None, None, z3.IntVal(k), ('next',))
            vm.prove(f'C21 lemma L6: the {what} chunk is accepted', z3.BoolVal(kind == 'next'))
            if kind != 'next': return
            ck.on_havoc(vm, None, z3.IntVal(k + 1))
        kind, new = ck.step(vm, None, None, None, z3.IntVal(2), ('next',))
        vm.prove('C21 lemma L6: the file ends after the track chunk', z3.BoolVal(kind == 'break'))
        K = z3.IntVal(2)
        vm.prove('C21 lemma L6: the track read is the track written, at its resolution', z3.And(ck.Q(K) > 0, ck.TO(K) == 22, ck.TN(K) == n, ck.TQ(K) == w.cfg['ppq']))
    def channels(self, vm):
        """_parse_track gives one track: that of the channel written to, or an empty one for channel 0 when there are no
        notes; with and without a channel, load gives its notes and its signature."""
        w = Written(vm)
        sp = Data(vm)
        dec = Decode(vm, sp, z3.IntVal(0))
        dec.K = z3.Int('K')
        ps = Parsed(vm, sp.blob, None)
        mg = Merge(ps)
        at = (z3.IntVal(22), z3.Int('tracklen'), w.cfg['ppq'])
        mg.at = at
        ch, n = w.cfg['ch'], w.n
        sn, sd = vm.sym_int('sn', 1, 255).t, vm.sym_int('sd', 1).t
        c, i = vm.sym_int('any_channel').t, vm.sym_int('i', 0).t
        # lemma L2: events of the channels
        for x in (c, ch, ps.ch(*at, z3.IntVal(0)), ps.ch(*at, i)):
            vm.assume(z3.And(dec.CN(ch, dec.K) == 2 * n, z3.Implies(x != ch, dec.CN(x, dec.K) == 0)))
        # contract of _parse_track: the channels with events, each once; channel 0 when there is none
        m = ps.m(*at)
        for x in (c, ch): vm.assume(ps.has(*at, x) == z3.Or(dec.CN(x, dec.K) > 0, z3.And(n == 0, x == 0)))
        wit = z3.Function('index_of', I, I)
        for x in (ch, z3.IntVal(0)): vm.assume(z3.Implies(ps.has(*at, x), z3.And(wit(x) >= 0, wit(x) < m, ps.ch(*at, wit(x)) == x)))
        for x in (z3.IntVal(0), i):
            e = ps.ch(*at, x)
            vm.assume(z3.Implies(z3.And(x >= 0, x < m), z3.And(ps.has(*at, e), wit(e) == x)))
            vm.assume(ps.has(*at, e) == z3.Or(dec.CN(e, dec.K) > 0, z3.And(n == 0, e == 0)))
        vm.assume(ps.has(*at, z3.IntVal(0)) == z3.Or(dec.CN(z3.IntVal(0), dec.K) > 0, n == 0))
        one = z3.If(n > 0, ch, z3.IntVal(0))
        vm.prove('C21 lemma L6: exactly one channel is read, the one written to', z3.And(ps.has(*at, c) == (c == one), z3.Implies(i < m, i == 0), m >= 1, ps.ch(*at, z3.IntVal(0)) == one))
        vm.assume(z3.And(m == 1, ps.ch(*at, z3.IntVal(0)) == one))
        want = z3.Const('read_notes', Bag)
        # its notes (lemma L4; empty when there are none) and signature (lemma L3)
        vm.assume(z3.And(ps.bag(*at, one) == want, ps.sn(*at, one) == sn, ps.sd(*at, one) == sd))
        # merge of one channel: M(1) = {} + bag
        vm.assume(z3.And(mg.M(z3.IntVal(0)) == bempty, mg.M(z3.IntVal(1)) == BSUM(mg.M(z3.IntVal(0)), ps.bag(*at, mg.chan(z3.IntVal(0))))))
        vm.assume(BSUM(bempty, want) == want)
        vm.prove('C21 lemma L6: the merged track has the notes of the channel', mg.M(m) == want)
        rn, rd, o = z3.Int('result_n'), z3.Int('result_d'), z3.Int('largest_of')
        big = mg.largest(vm)
        vm.assume(z3.Or(big == 0, z3.And(o >= 0, o < m, mg.terms(rn, rd, o))))           # contract of load
        vm.assume(V(sn, sd) * z3.ToReal(sd) == z3.ToReal(sn))
        vm.prove('C21 lemma L6: the signature of the result has the terms of the signature written', z3.And(rn == sn, rd == sd))


@register
class Again(Lemma):
    """L7: the track read is written as the same bytes.  Its sorted sequence of notes is the written one with every
    velocity v replaced by q(v): that sequence is ascending, and an ascending enumeration of a multiset is unique
    (lean/Lemmas.lean, sorted_unique)."""
    qual = 'lemma: writing the result again gives the same bytes'
    def parts(self): return [('order', self.order), ('events', self.events)]
    def order(self, vm):
        w = Written(vm)
        i, k = vm.sym_int('i', 0).t, vm.sym_int('k', 0).t
        v, u = w.v(i), w.v(k)
        q = lambda x: fdiv(i2f(spec_vel(x)), z3.FPVal(127.0, FP))
        le = lambda a, b: z3.Or(w.pos(i) < w.pos(k), z3.And(w.pos(i) == w.pos(k), z3.Or(w.pitch(i) < w.pitch(k), z3.And(w.pitch(i) == w.pitch(k),
                                z3.Or(w.dur(i) < w.dur(k), z3.And(w.dur(i) == w.dur(k), z3.fpLEQ(a, b)))))))
        vm.assume(le(v, u))
        mono(vm, v, u)
        vm.assume(z3.And(spec_vel(v) >= 1, spec_vel(u) <= 127))
        quot(vm, spec_vel(v), spec_vel(u))
        vm.prove('C21 lemma L7: rounding the velocities keeps the sequence of notes ascending', le(q(v), q(u)))
    def events(self, vm):
        w = Written(vm)
        i = vm.sym_int('i', 0).t
        vm.assume(i < w.n)
        w.note(i)
        # note i of the second track: same position, tone and duration, velocity read back
        pos2, dur2, pitch2, v2 = z3.Function('pos2', I, R), z3.Function('dur2', I, R), z3.Function('pitch2', I, I), z3.Function('v2', I, FP)
        vm.assume(z3.And(pos2(i) == w.pos(i), dur2(i) == w.dur(i), pitch2(i) == w.pitch(i), v2(i) == spec_rvel(vm, w.vel(i))))
        back(vm, w.vel(i))
        n2 = (pitch2(i), None, None, v2(i))
        vm.prove('C21 lemma L7: the events of the second writing are those of the first', z3.And([x == y for x, y in zip(on_bytes(w.cfg, n2), w.on(i))] + [x == y for x, y in zip(off_bytes(w.cfg, n2), w.off(i))]
                 + [pls(w.W, pos2(i)) == w.a(i), pls(w.W, dur2(i)) == w.d(i)]))


def quot(vm, a, b):
    """Quotients of 1..127 by 127 are ascending (lemma: conversions, velocity again)."""
    f = lambda x: fdiv(i2f(x), z3.FPVal(127.0, FP))
    vm.assume(z3.Implies(z3.And(a >= 1, a <= b, b <= 127), z3.fpLEQ(f(a), f(b))))
