"""Contract of melodia.processing.track.randomize_velocities."""
from .base import *
from .track import *
from .track import TrackComp
from pyvc.loops import LoopSpec
from pyvc import stdlib

PROCM = 'melodia.processing.track'


def last_added(b):
    """(bag before, key arguments) of a bag term badd(b, K(...)), or None."""
    if z3.is_app(b) and b.decl().name() == 'badd' and b.arg(1).decl().name() == 'K':
        return b.arg(0), [b.arg(1).arg(i) for i in range(5)]
    return None


class RandomLoop(LoopSpec):
    """R(k): contents of the result after k notes; R(k+1) = R(k) + (the k-th pair with some velocity w within bounds)."""
    name = 'randomize'
    tag = 'C23'
    def __init__(self, t, bag, R, lo, hi):
        self.R, self.lo, self.hi = R, lo, hi
        self.carries = [TrackComp('result', lambda o: o is not t, lambda k: R(k)), TrackComp('input', lambda o: o is t, lambda k: bag)]
        self.carries[1].optional = True
        self.bag = bag
    def applies(self, vm, node, env, seq): return seq is not None and seq.attrs.get('bag') is not None
    def within(self, w): return z3.Implies(z3.fpLEQ(self.lo, self.hi), z3.And(z3.fpLEQ(self.lo, w), z3.fpLEQ(w, self.hi)))
    def new_key(self, vm, item, k, added):
        """Formula: the added key is that of item with another velocity within bounds."""
        pos, note = item
        p, n, d, v = note_key_terms(vm, note)
        P, p2, n2, d2, w = added
        return z3.And(P == val(vm, pos), p2 == p, V(n2, d2) == V(n, d), self.within(w))
    def step(self, vm, run, pre, item, k, outcome):
        if 'result' not in run.bind: return None
        b = state_bag(vm, run.bind['result'].get())
        la = last_added(b) if b is not None else None
        if la is None: return None
        if not vm.prove('C23 randomize_velocities adds each note once, with its tone, duration and position and a velocity within bounds',
                        z3.And(la[0] == self.R(k), self.new_key(vm, item, k, la[1]))): raise PathEnd()
        vm.assume(self.R(k + 1) == badd(self.R(k), K(*la[1])))
        return 'next', {'result': self.R(k + 1), 'input': self.bag}


@register
class Randomize(Contract):
    """ensures: ValueError exactly for minimum, maximum or mean outside [0, 1] or a variance that is not >= 0; otherwise
    a new track with the same signature and contents R(n), the input unchanged."""
    qual = 'track.randomize_velocities'
    mod = PROCM
    props = ('C23',)
    def variants(self): return [('all', lambda vm: self.go(vm, True)), ('defaults', lambda vm: self.go(vm, False))]
    def cases(self, m, variant):
        kw = {x: m.get(x, 0.5) for x in ('minimum', 'maximum', 'mean', 'variance')} if variant == 'all' else {}
        return [('C23', (k, [('add', (40, (1, 4), .5), (0, 1), 0)] * i, kw, 1)) for k in ('ok', 'param') for i in (0, 1)]
    def go(self, vm, given):
        install(vm)
        t, bag, sig = mk_track(vm, 't')
        s = obs_sig(vm, sig)
        kw = {}
        if given:
            for x in ('minimum', 'maximum', 'mean', 'variance'): kw[x] = vm.sym_float(x)
            lo, hi, mean, var = (kw[x].t for x in ('minimum', 'maximum', 'mean', 'variance'))
        else: lo, hi, mean, var = (z3.FPVal(x, FP) for x in (0.5, 1.0, 0.75, 0.01))
        ok = z3.And(vel_ok(vm, lo), vel_ok(vm, hi), vel_ok(vm, mean), z3.fpGEQ(var, z3.FPVal(0.0, FP)))
        R = z3.Function('R', z3.IntSort(), Bag)
        vm.assume(R(z3.IntVal(0)) == bempty)
        spec = RandomLoop(t, bag, R, lo, hi)
        vm.loopspecs = [spec]
        def content(vm2, seq):
            if not (seq.origin and seq.origin[0] == 'map' and seq.origin[1].attrs.get('bag') is not None): return None
            src = seq.origin[1]
            if vm2.choose(2) == 0:
                k = vm2.fresh_int('ck', 0).t
                vm2.assume(k < seq.n)
                vm2.path.abstract = True
                item = src.elem(vm2, k)
                e = seq.elem(vm2, k)
                if not isinstance(e, tuple) or len(e) != 2 or key_of(vm2, e[1], e[0]) is None: raise Unsupported('content of the result')
                kk = key_of(vm2, e[1], e[0])
                vm2.prove('C23 randomize_velocities adds each note once, with its tone, duration and position and a velocity within bounds',
                          z3.And(seq.n == bsize(bag), spec.new_key(vm2, item, k, [kk.arg(i) for i in range(5)])))
                raise PathEnd()
            return R(seq.n)
        vm.content_hook = content
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(f, [t], kw))
        if k == 'exc':
            vm.prove('C23 randomize_velocities refuses only invalid bounds, mean or variance', z3.Not(ok))
            vm.prove('C23 randomize_velocities refuses with ValueError', exc_is(v, 'ValueError'))
            vm.prove('C23 randomize_velocities leaves its input unchanged', state_bag(vm, t) == bag)
            return
        vm.prove('C23 randomize_velocities accepts only valid bounds, mean and variance', ok)
        if not isinstance(v, Obj) or v.cls is not Trk(vm): vm.prove('C23 randomize_velocities returns a track', False); return
        vm.prove('C23 randomize_velocities returns a new track', v is not t and v.fields[shape(vm)['list']] is not t.fields[shape(vm)['list']])
        rs = obs_sig(vm, v.fields[shape(vm)['sig']])
        vm.prove('C23 randomize_velocities keeps the time signature', False if rs is None else z3.And(rs[0] == s[0], rs[1] == s[1]))
        b = state_bag(vm, v)
        n = bsize(bag)
        vm.prove('C23 randomize_velocities gives one note for each note of the input', False if b is None else z3.Or(b == R(n), z3.And(n == 0, b == bempty)))
        vm.prove('C23 randomize_velocities keeps the class invariant of tracks', inv_formula(vm, v, None))
        vm.prove('C23 randomize_velocities leaves its input unchanged', z3.And(state_bag(vm, t) == bag, z3.BoolVal(t.fields[shape(vm)['sig']] is sig)))
