"""Contracts of melodia.core.signature."""
from .base import *
from pyvc.loops import LoopSpec


def valid_sig(o):
    n, d = o
    return z3.And(n >= 0, isp2(d))


class SigC(Contract):
    mod = SIGM
    def cases(self, m, variant):
        out = []
        a, b = (m.get('a_n', 0), m.get('a_d', 1)), (m.get('b_n', 0), m.get('b_d', 1))
        if 'n' in m and 'd' in m: out.append(('C01', ('make', m['n'], m['d'])))
        if 'a_n' in m:
            out += [('C01', ('ops', a, b, m.get('k', a[1]))), ('C03', ('norm', a)), ('C03', ('arith', a, b)), ('C02', (a, b))]
            if 'k' in m: out.append(('C03', ('to', a, m['k'])))
        return out


@register
class Init(SigC):
    """requires: nominator, denominator are ints.  ensures: returns iff n >= 0 and d is a positive power of two, then
    reports n and d; raises ValueError otherwise."""
    props = ('C01',)
    qual = 'Signature.__init__'

    def run(self, vm):
        n, d = vm.sym_int('n'), vm.sym_int('d')
        k, v = outcome(vm, lambda: vm.instantiate(Sig(vm), [n, d], {}))
        ok = z3.And(n.t >= 0, d.t > 0, isp2(d.t))
        if k == 'ret':
            vm.prove('C01 Signature.__init__ accepts only valid pairs', ok)
            o = obs_sig(vm, v)
            vm.prove('C01 Signature.__init__ reports exactly the given nominator and denominator', z3.And(o[0] == n.t, o[1] == d.t))
        else:
            vm.prove('C01 Signature.__init__ refuses only invalid pairs', z3.Not(ok))
            vm.prove('C01 Signature.__init__ refuses with ValueError', exc_is(v, 'ValueError'))

    def summary(self, vm, args, kw):
        names = ['nominator', 'denominator']
        vals = dict(zip(names, args)); vals.update(kw)
        if set(vals) != set(names) or len(args) > 2: return NotImplemented
        n, d = vals['nominator'], vals['denominator']
        if not (vm.isint(n) and vm.isint(d)): return NotImplemented
        ok = z3.And(vm.T(n) >= 0, vm.T(d) > 0, isp2(vm.T(d)))
        if not vm.branch(ok): raise rz(ValueError, 'invalid signature')
        return mk_sig(vm, n, d)


CMPS = {'__eq__': lambda a, b: a == b, '__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b,
        '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b}


def value_facts(vm, n, d):
    """Facts tying the rational value V(n,d) to its terms that stay linear (d concrete or n == 0)."""
    nn, dd = z3.simplify(n), z3.simplify(d)
    f = [z3.Implies(n >= 0, V(n, d) >= 0), z3.Implies(n == 0, V(n, d) == 0)]
    if z3.is_int_value(dd): f.append(V(n, d) * dd.as_long() == z3.ToReal(n))
    vm.assume(z3.And(f))


def val(vm, o):
    n, d = obs_sig(vm, o)
    key = (n.get_id(), d.get_id())
    seen = vm.path.__dict__.setdefault('vals', set())
    if key not in seen:
        seen.add(key); vm.path.__dict__.setdefault('keep', []).append((n, d))
        value_facts(vm, n, d)
    return V(n, d)


def make_cmp(op):
    @register
    class Cmp(SigC):
        props = ('C01', 'C02')
        qual = f'Signature.{op}'
        def run(self, vm):
            a, n1, d1 = sym_sig(vm, 'a')
            b, n2, d2 = sym_sig(vm, 'b')
            fr = Frame(vm, a, b)
            f = self.target(vm)
            k, v = outcome(vm, lambda: vm.call(Bound(f, a), [b], {}))
            if k == 'exc':
                vm.prove(f'C02 Signature.{op} does not raise', False); return
            t = vm.B(v) if isinstance(v, (bool, SBool)) else z3.BoolVal(vm.truth(v))
            vm.prove(f'C02 Signature.{op} agrees with the order of the fractions', t == CMPS[op](n1 * d2, n2 * d1))
            vm.prove(f'C01 Signature.{op} leaves its operands unchanged', fr.same(vm))
        def summary(self, vm, args, kw):
            if len(args) != 2 or kw: return NotImplemented
            a, b = args
            if obs_sig(vm, a) is None or obs_sig(vm, b) is None: return NotImplemented
            return vm.mkbool(CMPS[op](val(vm, a), val(vm, b)))
    return Cmp


for _op in CMPS: make_cmp(_op)


@register
class Ne(SigC):
    """a != b (default or explicit) is the negation of equality of the fractions."""
    props = ('C02',)
    qual = 'Signature.__ne__'
    def target(self, vm): return Sig(vm).lookup('__eq__')
    def run(self, vm):
        a, n1, d1 = sym_sig(vm, 'a')
        b, n2, d2 = sym_sig(vm, 'b')
        with building(vm): k, v = outcome(vm, lambda: vm.cmp('NotEq', a, b))
        if k == 'exc': vm.prove('C02 Signature != does not raise', False); return
        vm.prove('C02 Signature != is inequality of the fractions', vm.B(v) == (n1 * d2 != n2 * d1))


def ret_sig(vm, name, k, v, props):
    """Common: a signature was returned and it is valid."""
    if k == 'exc':
        vm.prove(f'{props} {name} does not raise', False); return None
    o = obs_sig(vm, v)
    if o is None:
        vm.prove(f'{props} {name} returns a Signature', False); return None
    vm.prove(f'C01 {name} returns a valid signature', valid_sig(o))
    return o


@register
class Add(SigC):
    props = ('C03', 'C01')
    qual = 'Signature.__add__'
    def run(self, vm):
        a, n1, d1 = sym_sig(vm, 'a')
        b, n2, d2 = sym_sig(vm, 'b')
        fr = Frame(vm, a, b)
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, a), [b], {}))
        o = ret_sig(vm, 'Signature.__add__', k, v, 'C03')
        if o is None: return
        vm.prove('C03 Signature.__add__ is the sum of the fractions', o[0] * d1 * d2 == (n1 * d2 + n2 * d1) * o[1])
        vm.prove('C01 Signature.__add__ leaves its operands unchanged', fr.same(vm))
    def summary(self, vm, args, kw):
        if len(args) != 2 or kw: return NotImplemented
        a, b = args
        if obs_sig(vm, a) is None or obs_sig(vm, b) is None: return NotImplemented
        va, vb = val(vm, a), val(vm, b)
        s, n, d = fresh_sig(vm, 'sum')
        vm.assume(val(vm, s) == va + vb)
        return s


@register
class Mul(SigC):
    props = ('C03', 'C01')
    qual = 'Signature.__mul__'
    def run(self, vm):
        a, n1, d1 = sym_sig(vm, 'a')
        b, n2, d2 = sym_sig(vm, 'b')
        fr = Frame(vm, a, b)
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, a), [b], {}))
        o = ret_sig(vm, 'Signature.__mul__', k, v, 'C03')
        if o is None: return
        vm.prove('C03 Signature.__mul__ is the product of the fractions', o[0] * (d1 * d2) == (n1 * n2) * o[1])
        vm.prove('C01 Signature.__mul__ leaves its operands unchanged', fr.same(vm))


@register
class Abs(SigC):
    props = ('C03', 'C01')
    qual = 'Signature.__abs__'
    def run(self, vm):
        a, n1, d1 = sym_sig(vm, 'a')
        fr = Frame(vm, a)
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, a), [], {}))
        o = ret_sig(vm, 'Signature.__abs__', k, v, 'C03')
        if o is None: return
        vm.prove('C03 Signature.__abs__ keeps the (non-negative) fraction', o[0] * d1 == n1 * o[1])
        vm.prove('C01 Signature.__abs__ leaves its operand unchanged', fr.same(vm))


@register
class To(SigC):
    props = ('C03', 'C01')
    qual = 'Signature.to'
    def run(self, vm):
        a, n, d = sym_sig(vm, 'a')
        k = vm.sym_int('k')
        fr = Frame(vm, a)
        f = self.target(vm)
        kind, v = outcome(vm, lambda: vm.call(Bound(f, a), [k], {}))
        ok = z3.And(k.t > 0, isp2(k.t), k.t >= d)
        if kind == 'exc':
            vm.prove('C03 Signature.to refuses only a bad or smaller denominator', z3.Not(ok))
            vm.prove('C03 Signature.to refuses with ValueError', exc_is(v, 'ValueError'))
        else:
            vm.prove('C03 Signature.to accepts only a power of two not below the denominator', ok)
            o = ret_sig(vm, 'Signature.to', kind, v, 'C03')
            if o is None: return
            vm.prove('C03 Signature.to has exactly the requested denominator', o[1] == k.t)
            vm.prove('C03 Signature.to keeps the fraction', o[0] * d == n * o[1])
        vm.prove('C01 Signature.to leaves its operand unchanged', fr.same(vm))
    def summary(self, vm, args, kw):
        vals = dict(zip(['self', 'denominator'], args)); vals.update(kw)
        if set(vals) != {'self', 'denominator'}: return NotImplemented
        a, k = vals['self'], vals['denominator']
        o = obs_sig(vm, a)
        if o is None or not vm.isint(k): return NotImplemented
        kt = vm.T(k)
        if not vm.branch(z3.And(kt > 0, isp2(kt), kt >= o[1])): raise rz(ValueError, 'to')
        va = val(vm, a)
        n = vm.fresh_int('to_n', 0)
        s = mk_sig(vm, n, k if isinstance(k, int) else SInt(kt))
        vm.assume(z3.And(val(vm, s) == va, z3.Implies(kt == o[1], n.t == o[0]), n.t == o[0] * (kt / o[1]), n.t * o[1] == o[0] * kt))
        return s


class NormLoop(LoopSpec):
    """Loop of normalized: the pair (x, y) of integer variables keeps the fraction, y stays a power of two."""
    name = 'normalize'
    def __init__(self, n, d): self.n, self.d = n, d
    def applies(self, vm, node, env, seq): return True
    def candidates(self, vm, ints, k):
        out = []
        if self.run_.seq is not None:       # counted: after k rounds y has lost k factors of two
            out += [(f'{y}*2^k=d', pow2f(k) * ints[y] == self.d) for y in sorted(ints)]
        ks = sorted(ints)
        for x in ks:
            out.append((f'{x}>=0', ints[x] >= 0))
            out.append((f'{x}>=1', ints[x] >= 1))
            out.append((f'isp2({x})', isp2(ints[x])))
            out.append((f'{x}<=d', ints[x] <= self.d))
            for y in ks:
                if x != y:
                    out.append((f'{x}/{y}=n/d', ints[x] * self.d == self.n * ints[y]))
        return out
    def measures(self, vm, ints):
        return [(x, ints[x]) for x in sorted(ints)]


@register
class Normalized(SigC):
    props = ('C03', 'C01')
    qual = 'Signature.normalized'
    recursive = True
    def run(self, vm):
        a, n, d = sym_sig(vm, 'a')
        self.entry = d
        fr = Frame(vm, a)
        vm.loopspecs = [NormLoop(n, d)]
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, a), [], {}))
        o = ret_sig(vm, 'Signature.normalized', k, v, 'C03')
        if o is None: return
        vm.prove('C03 Signature.normalized keeps the fraction', o[0] * d == n * o[1])
        vm.prove('C03 Signature.normalized gives lowest terms', z3.Or(o[1] == 1, o[0] % 2 == 1))
        vm.prove('C01 Signature.normalized leaves its operand unchanged', fr.same(vm))
    def summary(self, vm, args, kw):
        if len(args) != 1 or kw or obs_sig(vm, args[0]) is None: return NotImplemented
        va = val(vm, args[0])
        n0, d0 = obs_sig(vm, args[0])
        if vm.top is self:      # recursion: by induction on the denominator
            if not vm.valid(z3.And(d0 < self.entry, d0 >= 1)): raise Unsupported('recursion that does not decrease the denominator')
        s, n, d = fresh_sig(vm, 'norm')
        vm.assume(z3.And(val(vm, s) == va, z3.Or(d == 1, n % 2 == 1), d <= d0, n <= n0, n * d0 == n0 * d))
        return s
