"""Contracts of the MIDI writer's formatting functions."""
from .base import *
from .note import note_case, notation_of, bad_notation
from .signature import val
from pyvc.loops import LoopSpec
from pyvc import stdlib

MIDIM = 'melodia.io.midi'


def Wri(vm): return vm.cls(MIDIM, 'MIDIWriter')


def parts_of(vm, v):
    """Byte parts of a returned byte string, or None."""
    if not isinstance(v, (bytes, SBytes)): return None
    return stdlib._norm(vm, SBytes([v]).parts)


def bytes_are(vm, v, want):
    """Formula: v is exactly the byte string given by want (ints / z3 Ints / OpaqueBytes)."""
    ps = parts_of(vm, v)
    if ps is None or len(ps) != len(want): return z3.BoolVal(False)
    ts = []
    for p, w in zip(ps, want):
        if isinstance(w, OpaqueBytes):
            if not isinstance(p, OpaqueBytes): return z3.BoolVal(False)
            ts.append(p.t == w.t)
        else:
            if not isinstance(p, (int, SInt)): return z3.BoolVal(False)
            ts.append(vm.T(p) == w)
    return z3.And(ts) if ts else z3.BoolVal(True)


def be(t, n): return [(t / 256 ** i) % 256 for i in reversed(range(n))]


# ---------------------------------------------------------------------- VLQ
class VlqLoop(LoopSpec):
    """x: value bits still to write; acc: the bytes so far.  PRE(x, bytes) stays the encoding of the argument."""
    name = 'vlq'
    def __init__(self, x0): self.x0 = x0
    def applies(self, vm, node, env, seq): return seq is None
    def candidates(self, vm, ints, k):
        out = []
        goal = VLQ(self.x0)
        for x in sorted(ints):
            out.append((f'{x}>=0', ints[x] >= 0))
            for b in sorted(ints):
                if b != x:
                    out.append((f'vlq({x},LE({b}))', PRE(ints[x], LEB(ints[b], bitlen(ints[b]) / 8 + 1)) == goal))
                    for d in (-1, 0, 1): out.append((f'{x}=len({b}){d:+d}', ints[x] == bitlen(ints[b]) / 8 + 1 + d))
                    for c in sorted(ints):
                        if c not in (x, b): out.append((f'vlq({x},LE({b},{c}))', PRE(ints[x], LEB(ints[b], ints[c])) == goal))
            for l in self.run_.locs:
                for rev in (False, True):
                    t = stdlib.byt_of(vm, l.get(), rev) if l.kind in ('var', 'list', 'mbytes') else None
                    if t is not None: out += [(f'vlq({x},{"rev " if rev else ""}{l.key})', PRE(ints[x], t) == goal), (f'vlq({x}/128,{"rev " if rev else ""}{l.key})', PRE(ints[x] / 128, t) == goal)]
        return out
    def measures(self, vm, ints): return [(x, ints[x]) for x in sorted(ints)]


@register
class FormatVarLen(Contract):
    """requires x >= 0.  ensures: the result is the shortest base-128 encoding VLQ(x)."""
    qual = 'MIDIWriter._format_var_len'
    mod = MIDIM
    props = ('C15',)
    def run(self, vm):
        x = vm.sym_int('x', 0)
        vm.loopspecs = [VlqLoop(x.t)]
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(f if not isinstance(f, PyFunc) else Bound(f, None), [x], {}))
        if k == 'exc': vm.prove('C15 MIDIWriter._format_var_len does not raise', False); return
        t = stdlib.byt_of(vm, v) if isinstance(v, (bytes, SBytes, MBytes)) else None
        if t is None: raise Unsupported('what _format_var_len returns')
        vm.prove('C15 MIDIWriter._format_var_len gives the shortest base-128 encoding', t == VLQ(x.t))
    def cases(self, m, variant): return [('C15', ('enc', m.get('x', 0)))]
    def summary(self, vm, args, kw):
        a = [x for x in args if not (isinstance(x, Obj) or x is None)] + list(kw.values())
        if len(a) != 1 or not vm.isint(a[0]): return NotImplemented
        t = vm.T(a[0])
        vm.prove(f'{vm.top.props[0]} {vm.top.qual}: the number encoded by _format_var_len is not negative', t >= 0, kind='pre')
        vm.assume(t >= 0)
        c = z3.simplify(t)
        if z3.is_int_value(c) and c.as_long() < 128: return bytes([c.as_long()])
        return mkbytes([OpaqueBytes(VLQ(t), vm.fresh_int('vlqn', 1).t, origin=('vlq', t))])


# ---------------------------------------------------------------------- constructor and messages
def sym_writer(vm, mid='tone'):
    ppq, ch = vm.sym_int('ppq', 1, 32767), vm.sym_int('ch', 0, 15)
    mt, m = sym_tone(vm, 'mid')
    bpm = vm.sym_float('bpm')
    w = build(vm, lambda: vm.instantiate(Wri(vm), [], {'pulses_per_quarter': ppq, 'middle_c': mt, 'bpm': bpm, 'channel': ch}))
    return w, dict(ppq=ppq.t, ch=ch.t, mid=m, bpm=bpm.t)


def spec_vel(v):
    """v * 127 truncated to 0..127 (v in [0, 1])."""
    a, b = v, z3.FPVal(127.0, FP)
    if a.sexpr() > b.sexpr(): a, b = b, a
    return f2i(fmul(a, b))


def on_bytes(cfg, note): return [0x90 + cfg['ch'], note[0] + 60 - cfg['mid'], spec_vel(note[3])]
def off_bytes(cfg, note): return [0x80 + cfg['ch'], note[0] + 60 - cfg['mid'], z3.IntVal(64)]
def key_ok(cfg, note): return z3.And(note[0] + 60 - cfg['mid'] >= 0, note[0] + 60 - cfg['mid'] <= 127)


@register
class WriterInit(Contract):
    qual = 'MIDIWriter.__init__'
    mod = MIDIM
    props = ('C16',)
    def variants(self): return [(t, (lambda t: lambda vm: self.go(vm, t))(t)) for t in ('tone', 'int', 'str', 'badstr', 'none', 'float', 'default')]
    def go(self, vm, mk):
        ppq, ch = vm.sym_int('ppq'), vm.sym_int('ch')
        kw = {'pulses_per_quarter': ppq, 'channel': ch}
        ok, typeerr = z3.And(ppq.t >= 1, ppq.t <= 32767, ch.t >= 0, ch.t <= 15), False
        if mk == 'tone': kw['middle_c'], m = sym_tone(vm, 'mid')
        elif mk == 'int': kw['middle_c'] = vm.sym_int('mid'); m = kw['middle_c'].t
        elif mk == 'str': kw['middle_c'], m = notation_of(vm, 'mid')
        elif mk == 'badstr': kw['middle_c'], m, ok = bad_notation(), z3.IntVal(0), z3.BoolVal(False)
        elif mk == 'default': m = z3.IntVal(36)
        else: kw['middle_c'] = {'none': None, 'float': 3.5}[mk]; typeerr = True; m = z3.IntVal(0)
        k, v = outcome(vm, lambda: vm.instantiate(Wri(vm), [], kw))
        if k == 'exc':
            if typeerr: vm.prove('C16 MIDIWriter refuses other kinds of middle C with TypeError', exc_is(v, 'TypeError') or (z3.Not(ok) if exc_is(v, 'ValueError') else False))
            else:
                vm.prove('C16 MIDIWriter refuses only invalid settings', z3.Not(ok))
                vm.prove('C16 MIDIWriter refuses with ValueError', exc_is(v, 'ValueError'))
            return
        vm.prove('C16 MIDIWriter accepts only valid settings', False if typeerr else ok)
        if typeerr: return
        # the settings show in the bytes it writes (middle C is checked with the message contracts below)
        n, nt = sym_note(vm, 'a')
        f = Wri(vm).lookup('_format_note_off')
        if f is None or interface(REG['MIDIWriter._format_note_off'], f) not in ('same', 'renamed'): raise Unsupported('_format_note_off not found')
        cfg = dict(ch=ch.t, mid=m)
        k2, b = outcome(vm, lambda: vm.call(Bound(f, v), [n], {}))
        vm.prove('C16 MIDIWriter: messages use the given channel and middle C', z3.And(key_ok(cfg, nt), bytes_are(vm, b, off_bytes(cfg, nt))) if k2 == 'ret' else z3.Not(key_ok(cfg, nt)))
    def summary(self, vm, args, kw):
        names = ['pulses_per_quarter', 'middle_c', 'bpm', 'channel']
        vals = dict(zip(names, args)); vals.update(kw)
        if len(args) > 4 or not set(vals) <= set(names): return NotImplemented
        ppq, mid, ch = vals.get('pulses_per_quarter', 96), vals.get('middle_c', 36), vals.get('channel', 0)
        bpm = vals.get('bpm', 120.0)
        if not (vm.isint(ppq) and vm.isint(ch) and vm.isflt(bpm)): return NotImplemented
        m = mid.t if isinstance(mid, SInt) else z3.IntVal(mid) if isinstance(mid, int) else obs_tone(vm, mid)
        if m is None: return NotImplemented
        if not vm.branch(z3.And(vm.T(ppq) >= 1, vm.T(ppq) <= 32767, vm.T(ch) >= 0, vm.T(ch) <= 15)): raise rz(ValueError, 'settings')
        w = build(vm, lambda: vm.instantiate(Wri(vm), list(args), dict(kw)))
        cfgs = vm.__dict__.setdefault('writer_cfg', {})
        cfgs[id(w)] = dict(ppq=vm.T(ppq), ch=vm.T(ch), mid=m, bpm=vm.F(bpm), keep=w)
        return w
    def cases(self, m, variant):
        out = [('C16', ('cfg', m.get('ppq', 96), m.get('ch', 0)))]
        mid = {'tone': ('tone', m.get('mid', 36)), 'int': ('int', m.get('mid', 36)), 'default': ('def',)}.get(variant, ('def',))
        mp = 36 if mid[0] == 'def' else mid[1]
        if 0 <= m.get('ch', 0) <= 15 and 1 <= m.get('ppq', 96) <= 32767:
            out.append(('C16', ('msg', m.get('ppq', 96), mid, m.get('ch', 0), 120.0, (4, 4), m.get('a_p', mp) - mp + 60, m.get('a_v', .5))))
        return out


def msg_case(m):
    mp = m.get('mid', 36)
    return [('C16', ('msg', m.get('ppq', 96), ('tone', mp), m.get('ch', 0), 120.0, (4, 4), m.get('a_p', mp) - mp + 60, m.get('a_v', .5)))]


def make_msg(which, want):
    @register
    class Msg(Contract):
        qual = f'MIDIWriter._format_note_{which}'
        mod = MIDIM
        props = ('C16',)
        def run(self, vm):
            w, cfg = sym_writer(vm)
            n, nt = sym_note(vm, 'a')
            fr = Frame(vm, n)
            f = self.target(vm)
            k, v = outcome(vm, lambda: vm.call(Bound(f, w), [n], {}))
            if k == 'exc':
                vm.prove(f'C16 _format_note_{which} refuses only keys outside 0..127', z3.Not(key_ok(cfg, nt)))
                vm.prove(f'C16 _format_note_{which} refuses with ValueError', exc_is(v, 'ValueError'))
                return
            vm.prove(f'C16 _format_note_{which} writes only keys in 0..127', key_ok(cfg, nt))
            vm.prove(f'C16 _format_note_{which} writes status, key and velocity', bytes_are(vm, v, want(cfg, nt)))
            vm.prove(f'C16 _format_note_{which} leaves the note unchanged', fr.same(vm))
        def cases(self, m, variant): return msg_case(m)
        def summary(self, vm, args, kw):
            if len(args) != 2 or kw or not isinstance(args[0], Obj): return NotImplemented
            cfg = getattr(vm, 'writer_cfg', {}).get(id(args[0]))
            nt = obs_note(vm, args[1])
            if cfg is None or nt is None: return NotImplemented
            if not vm.branch(key_ok(cfg, nt)): raise rz(ValueError, 'tone')
            bs = want(cfg, nt)
            vm.assume(z3.And([z3.And(b >= 0, b <= 255) for b in bs if z3.is_expr(b)]))
            return SBytes([vm.mkint(b) if z3.is_expr(b) else b for b in bs])
    return Msg


make_msg('on', on_bytes)
make_msg('off', off_bytes)


def call_any(vm, f, w, args, kw=None):
    """Calls a method or static method with the writer as receiver."""
    g = Wri(vm)
    m = vm.getattr(w, f)
    return vm.call(m, args, kw or {})


@register
class FormatSignature(Contract):
    qual = 'MIDIWriter._format_signature'
    mod = MIDIM
    props = ('C16',)
    def run(self, vm):
        w, cfg = sym_writer(vm)
        s, n, d = sym_sig(vm, 's')
        cc, bb = vm.sym_int('cc', 0, 255), vm.sym_int('bb', 0, 255)
        k, v = outcome(vm, lambda: call_any(vm, '_format_signature', w, [s], {'cc': cc, 'bb': bb}))
        fits = z3.And(n <= 255, bitlen(d) - 1 <= 255)
        vm.assume(pow2f(bitlen(d) - 1) == d)          # lemma bitlen_isp2: d is a power of two
        if k == 'exc':
            vm.prove('C16 _format_signature refuses only a signature that does not fit its fields', z3.Not(fits))
            vm.prove('C16 _format_signature refuses with OverflowError or ValueError', exc_is(v, 'OverflowError', 'ValueError'))
            return
        vm.prove('C16 _format_signature writes nominator and exponent of the denominator', z3.And(fits, bytes_are(vm, v, [0xFF, 0x58, 4, n, bitlen(d) - 1, cc.t, bb.t])))
    def cases(self, m, variant): return [('C16', ('msg', 96, ('def',), 0, 120.0, (m.get('s_n', 4), m.get('s_d', 4)), 60, .5))]
    def summary(self, vm, args, kw):
        a = [x for x in args if not (isinstance(x, Obj) and not x.cls.issub(Sig(vm)))]
        vals = dict(zip(['signature', 'cc', 'bb'], a)); vals.update(kw)
        if set(vals) != {'signature', 'cc', 'bb'} or obs_sig(vm, vals['signature']) is None: return NotImplemented
        n, d = obs_sig(vm, vals['signature'])
        cc, bb = vals['cc'], vals['bb']
        if not (isinstance(cc, int) and isinstance(bb, int) and 0 <= cc < 256 and 0 <= bb < 256): return NotImplemented
        if not vm.branch(z3.And(n <= 255, bitlen(d) - 1 <= 255)): raise rz(OverflowError, 'signature')
        vm.assume(z3.And(bitlen(d) >= 1, n >= 0))
        return SBytes([0xFF, 0x58, 4, vm.mkint(n), vm.mkint(bitlen(d) - 1), cc, bb])


@register
class FormatTempo(Contract):
    qual = 'MIDIWriter._format_tempo'
    mod = MIDIM
    props = ('C16',)
    def run(self, vm):
        w, cfg = sym_writer(vm)
        t = vm.sym_int('tempo')
        k, v = outcome(vm, lambda: call_any(vm, '_format_tempo', w, [t]))
        fits = z3.And(t.t >= 0, t.t < 2 ** 24)
        if k == 'exc':
            vm.prove('C16 _format_tempo refuses only a tempo that does not fit three bytes', z3.Not(fits))
            vm.prove('C16 _format_tempo refuses with OverflowError or ValueError', exc_is(v, 'OverflowError', 'ValueError'))
            return
        vm.prove('C16 _format_tempo writes the three-byte tempo', z3.And(fits, bytes_are(vm, v, [0xFF, 0x51, 3] + be(t.t, 3))))
    def cases(self, m, variant):
        t = m.get('tempo', 500000)
        return [('C16', ('msg', 96, ('def',), 0, 60000000 / t if t else float('inf'), (4, 4), 60, .5))]
    def summary(self, vm, args, kw):
        a = [x for x in args if not isinstance(x, Obj)] + list(kw.values())
        if len(a) != 1 or not vm.isint(a[0]): return NotImplemented
        t = vm.T(a[0])
        if not vm.branch(z3.And(t >= 0, t < 2 ** 24)): raise rz(OverflowError, 'tempo')
        return mkbytes([0xFF, 0x51, 3] + [vm.mkint(x) for x in be(t, 3)])


@register
class FormatChunk(Contract):
    qual = 'MIDIWriter._format_chunk'
    mod = MIDIM
    props = ('C16',)
    def run(self, vm):
        w, cfg = sym_writer(vm)
        ks = [vm.sym_int(f'k{i}', 0, 255) for i in range(4)]
        n = vm.sym_int('n', 0)
        body = OpaqueBytes(z3.Const('body', Byt), n.t)
        k, v = outcome(vm, lambda: call_any(vm, '_format_chunk', w, [SBytes(ks), SBytes([body])]))
        fits = n.t < 2 ** 32
        if k == 'exc':
            vm.prove('C16 _format_chunk refuses only a body whose length does not fit four bytes', z3.Not(fits))
            vm.prove('C16 _format_chunk refuses with OverflowError or ValueError', exc_is(v, 'OverflowError', 'ValueError'))
            return
        vm.prove('C16 _format_chunk writes kind, four-byte length and body', z3.And(fits, bytes_are(vm, v, [x.t for x in ks] + be(n.t, 4) + [body])))
    def cases(self, m, variant): return [('C16', ('chunk', k)) for k in (min(max(m.get('n', 0) // 8, 0), 9000), 40, 8200)]
    def summary(self, vm, args, kw):
        a = [x for x in args if not isinstance(x, Obj)]
        vals = dict(zip(['kind', 'body'], a)); vals.update(kw)
        if set(vals) != {'kind', 'body'} or not all(isinstance(x, (bytes, SBytes)) for x in vals.values()): return NotImplemented
        kind, body = vals['kind'], vals['body']
        if stdlib.length(vm, kind) != 4: return NotImplemented
        n = vm.T(stdlib.length(vm, body))
        if not vm.branch(n < 2 ** 32): raise rz(OverflowError, 'chunk')
        return mkbytes([kind] + [vm.mkint(x) for x in be(n, 4)] + [body])


@register
class FormatHeader(Contract):
    qual = 'MIDIWriter._format_header_chunk'
    mod = MIDIM
    props = ('C16',)
    def run(self, vm):
        w, cfg = sym_writer(vm)
        kind = vm.choose(3)
        nt = vm.sym_int('nt')
        k, v = outcome(vm, lambda: call_any(vm, '_format_header_chunk', w, [], {'kind': kind, 'n_tracks': nt}))
        fits = z3.And(nt.t >= 0, nt.t < 65536)
        if k == 'exc':
            vm.prove('C16 _format_header_chunk refuses only a track count that does not fit two bytes', z3.Not(fits))
            vm.prove('C16 _format_header_chunk refuses with OverflowError or ValueError', exc_is(v, 'OverflowError', 'ValueError'))
            return
        vm.prove('C16 _format_header_chunk states format, track count and pulses per quarter note',
                 z3.And(fits, bytes_are(vm, v, list(b'MThd\0\0\0\x06') + [0, kind] + be(nt.t, 2) + be(cfg['ppq'], 2))))
    def cases(self, m, variant): return msg_case(m)
    def summary(self, vm, args, kw):
        cfg = getattr(vm, 'writer_cfg', {}).get(id(args[0])) if args else None
        vals = dict(zip(['kind', 'n_tracks'], args[1:])); vals.update(kw)
        if cfg is None or set(vals) != {'kind', 'n_tracks'} or vals['kind'] not in (0, 1, 2) or not vm.isint(vals['n_tracks']): return NotImplemented
        nt = vm.T(vals['n_tracks'])
        if not vm.branch(z3.And(nt >= 0, nt < 65536)): raise rz(OverflowError, 'n_tracks')
        return mkbytes(list(b'MThd\0\0\0\x06') + [0, vals['kind']] + [vm.mkint(x) for x in be(nt, 2) + be(cfg['ppq'], 2)])
