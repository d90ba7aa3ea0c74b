"""Contracts of melodia.music.chord and of the module produced by scripts/generate_chords.py."""
import os, subprocess, sys, tempfile
from .base import *
from .note import notation_of, bad_notation
from oracle.spec import CHORDS
from pyvc import stdlib

CHORDM = 'melodia.music.chord'
BASES = ['int', 'str', 'tone', 'note', 'badstr', 'other']
_gen = {}


def generated_source(vm):
    root = os.path.dirname(vm.root)
    if root not in _gen:
        py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, 'gen_chord.py')
            r = subprocess.run([py, '-B', os.path.join(root, 'scripts', 'generate_chords.py'), out], capture_output=True, timeout=60, cwd=d)
            if r.returncode: raise Unsupported('generator script failed: ' + r.stderr.decode()[-300:])
            _gen[root] = open(out).read()
    return _gen[root]


class ChordC(Contract):
    """Every chord function of a group: pitches are base + intervals, durations and velocities as given or inherited."""
    mod = CHORDM
    props = ('C22',)
    names = ()
    gen = False
    def module(self, vm):
        if self.gen: return vm.load_source('gen_chord', generated_source(vm))
        return vm.load(CHORDM)
    def target(self, vm): vm.load(CHORDM); return self.module(vm)
    def variants(self): return [(n, (lambda n: lambda vm: self.go(vm, n))(n)) for n in self.names]
    def go(self, vm, nm):
        who = 'generated ' + nm if self.gen else 'chord.' + nm
        f = self.module(vm).ns.get(nm)
        if f is None: vm.prove(f'C22 {who} exists', False); return
        bk = BASES[vm.choose(len(BASES))]
        dk = ['none', 'sig', 'tuple'][vm.choose(3)]
        vk = ['none', 'float'][vm.choose(2)]
        vm.path.inputs.update(bk=bk, dk=dk, vk=vk)
        ok, fr = z3.BoolVal(True), None
        n, d, v = z3.IntVal(1), z3.IntVal(4), z3.FPVal(0.75, FP)
        if bk == 'int': b = vm.sym_int('p'); p = b.t
        elif bk == 'str': b, p = notation_of(vm, 'p')
        elif bk == 'tone': b, p = sym_tone(vm, 'p'); fr = Frame(vm, b)
        elif bk == 'note': b, (p, n, d, v) = sym_note(vm, 'a'); fr = Frame(vm, b)
        else: b, p, ok = (bad_notation() if bk == 'badstr' else None), z3.IntVal(0), z3.BoolVal(False)
        args, kw = [b], {}
        if dk == 'sig':
            s, n, d = sym_sig(vm, 'dur'); args.append(s)
        elif dk == 'tuple':
            x, y = vm.sym_int('dur_n'), vm.sym_int('dur_d'); n, d = x.t, y.t
            ok = z3.And(ok, n >= 0, d > 0, isp2(d)); kw['duration'] = (x, y)
        if vk == 'float':
            x = vm.sym_float('v'); v = x.t; ok = z3.And(ok, vel_ok(vm, v)); kw['velocity'] = x
        vm.depth += 1
        k, r = outcome(vm, lambda: vm.call(f, args, kw))
        vm.depth -= 1
        if k == 'exc':
            vm.prove(f'C22 {who} refuses only invalid arguments', z3.Not(ok)); return
        vm.prove(f'C22 {who} accepts only valid arguments', ok)
        iv = CHORDS[nm]
        if not isinstance(r, tuple) or len(r) != len(iv):
            vm.prove(f'C22 {who} gives a tuple of {len(iv)} notes', False); return
        goals, g2 = [], []
        for x, i in zip(r, iv):
            o = obs_note(vm, x)
            if o is None: vm.prove(f'C22 {who} gives notes', False); return
            goals.append(o[0] == p + i); g2.append(z3.And(o[1] == n, o[2] == d, feq(o[3], v)))
        vm.prove(f'C22 {who}: pitches are the base plus the intervals {iv}', z3.And(goals))
        vm.prove(f'C22 {who}: all notes have the right duration and velocity', z3.And(g2))
        if fr is not None: vm.prove(f'C22 {who} leaves its arguments unchanged', fr.same(vm))
    def cases(self, m, variant):
        if self.gen: return [('C22', ('generator',))]
        p = m.get('p', 0)
        bk = m.get('bk')
        b = {'int': ('int', p), 'tone': ('tone', p), 'str': ('str', f"C{'#' * (p % 12)}{p // 12}"), 'badstr': ('str', 'H'),
             'note': ('note', (m.get('a_p', 0), (m.get('a_dur_n', 1), m.get('a_dur_d', 4)), m.get('a_v', .5)))}.get(bk, ('str', 'H'))
        nd = (m.get('dur_n', 1), m.get('dur_d', 4))
        d = {'none': None, 'sig': ('sig', nd), 'tuple': ('tuple', nd)}.get(m.get('dk'))
        return [('C22', (variant, b, d, m.get('v') if m.get('vk') == 'float' else None))]


_names = sorted(CHORDS)
for _i in range(0, len(_names), 7):
    for _g in (False, True):
        register(type(f'Chord{_i}{_g}', (ChordC,), {'qual': f"{'generated ' if _g else ''}chord functions {_names[_i]}..{_names[min(_i + 6, len(_names) - 1)]}",
                                                   'names': _names[_i:_i + 7], 'gen': _g}))


@register
class SameFunctions(Contract):
    qual = 'chord and generator: same public functions'
    props = ('C22',)
    def target(self, vm): return vm.load(CHORDM)
    def run(self, vm):
        def names(mod): return {k for k, f in mod.ns.items() if isinstance(f, PyFunc) and not k.startswith('_')}
        a, b = names(vm.load(CHORDM)), names(vm.load_source('gen_chord', generated_source(vm)))
        vm.prove('C22 the generator produces the functions of the chord module', z3.BoolVal(a == b))
        vm.prove('C22 every specified chord function exists', z3.BoolVal(set(CHORDS) <= a and set(CHORDS) <= b))
    def cases(self, m, variant): return [('C22', ('generator',))]
