"""Symbolic and structural values of the Python subset handled by the verifier."""
import sys
import z3
sys.set_int_max_str_digits(0)      # models may hold numbers longer than CPython writes by default

Z3Int = z3.IntSort()
FP = z3.Float64()
Byt = z3.DeclareSort('Byt')     # opaque byte strings
Key = z3.DeclareSort('Key')     # (position value, note) keys of a track's multiset
Bag = z3.DeclareSort('Bag')     # multisets of keys

# uninterpreted mathematical functions; their axioms are the lemmas in theory.py
isp2 = z3.Function('isp2', z3.IntSort(), z3.BoolSort())          # is a positive power of two
band = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())  # Python's & on integers
pow2f = z3.Function('pow2f', z3.IntSort(), z3.IntSort())         # 2**k
bitlen = z3.Function('bitlen', z3.IntSort(), z3.IntSort())       # int.bit_length
V = z3.Function('V', z3.IntSort(), z3.IntSort(), z3.RealSort())  # rational value n/d
f2i = z3.Function('f2i', FP, z3.IntSort())                       # int(float)
i2f = z3.Function('i2f', z3.IntSort(), FP)                       # float(int)
fmul = z3.Function('fmul', FP, FP, FP)
fdiv = z3.Function('fdiv', FP, FP, FP)
fadd = z3.Function('fadd', FP, FP, FP)
fsub = z3.Function('fsub', FP, FP, FP)
fpow = z3.Function('fpow', FP, FP, FP)
fdivii = z3.Function('fdivii', z3.IntSort(), z3.IntSort(), FP)   # int / int
nilB = z3.Const('nilB', Byt)
consB = z3.Function('consB', z3.IntSort(), Byt, Byt)             # byte followed by the rest
LEB = z3.Function('LEB', z3.IntSort(), z3.IntSort(), Byt)        # little-endian bytes of (value, length)
BEB = z3.Function('BEB', z3.IntSort(), z3.IntSort(), Byt)        # big-endian bytes of (value, length)
PRE = z3.Function('PRE', z3.IntSort(), Byt, Byt)                 # continuation bytes of a VLQ, then the tail
def VLQ(x): return PRE(x / 128, consB(x % 128, nilB))            # the variable-length quantity of x
K = z3.Function('K', z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), FP, Key)   # (position, pitch, duration, velocity)
bempty = z3.Const('bempty', Bag)
badd = z3.Function('badd', Bag, Key, Bag)
bmax = z3.Function('bmax', Bag, z3.RealSort())                   # largest position + duration, 0 when empty
bsize = z3.Function('bsize', Bag, z3.IntSort())
pls = z3.Function('pls', z3.IntSort(), z3.RealSort(), z3.IntSort())   # floor(w * v)
powr = z3.Function('powr', z3.RealSort(), z3.RealSort())         # 2**x over the reals


class SInt:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SInt({self.t})'


class SBool:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SBool({self.t})'


class SFloat:
    """A float: z3 Float64 term, or a z3 Real term in real mode."""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'SFloat({self.t})'


# ---- strings -------------------------------------------------------------------------------
class Dec:
    """Decimal text of an integer."""
    def __init__(self, v): self.v = v
    def __repr__(self): return f'Dec({self.v})'


class FltTxt:
    """repr()/format() text of a float; fmt None means repr/str."""
    def __init__(self, v, fmt): self.v, self.fmt = v, fmt


class Acc:
    """A run of '#' and 'b' characters in any order; only the counts matter."""
    def __init__(self, sharps, flats): self.sharps, self.flats = sharps, flats


class DigTxt:
    """Any text matching -?\\d+ that denotes the integer v (leading zeros allowed)."""
    def __init__(self, v): self.v = v


class OpaqueTxt:
    """An arbitrary string about which only regex membership facts are known."""
    def __init__(self, name): self.name, self.facts = name, {}


class SStr:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                for q in p.parts: SStr._push(out, q)
            else:
                SStr._push(out, p)
        self.parts = out
    @staticmethod
    def _push(out, p):
        if isinstance(p, Dec) and isinstance(p.v, int): p = str(p.v)
        if isinstance(p, FltTxt) and isinstance(p.v, (int, float)): p = format(p.v, p.fmt) if p.fmt else repr(p.v)
        if isinstance(p, str):
            if not p: return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)
    def concrete(self):
        if not self.parts: return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str): return self.parts[0]
        return None
    def __repr__(self): return f'SStr({self.parts})'


def mkstr(parts):
    s = SStr(parts)
    c = s.concrete()
    return s if c is None else c


# ---- bytes ---------------------------------------------------------------------------------
class Blob:
    """An opaque byte string with length term n and a byte function."""
    def __init__(self, name, n):
        self.name, self.n = name, n
        self.f = z3.Function('byte_' + name, z3.IntSort(), z3.IntSort())


class Slice:
    def __init__(self, blob, off, n): self.blob, self.off, self.n = blob, off, n
    def __repr__(self): return f'Slice({self.blob.name},{self.off},{self.n})'


class OpaqueBytes:
    """An opaque byte-string term (sort Byt) of length n (z3 Int)."""
    def __init__(self, t, n, origin=None): self.t, self.n, self.origin = t, n, origin
    def __repr__(self): return f'OB({self.t})'


class SBytes:
    """Sequence of parts: python int / SInt (one byte), Slice, OpaqueBytes."""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, (bytes, bytearray)): out.extend(p)
            elif isinstance(p, SBytes): out.extend(p.parts)
            elif isinstance(p, MBytes): out.extend(SBytes([p.v]).parts)
            else: out.append(p)
        self.parts = out
    def concrete(self):
        if all(isinstance(p, int) for p in self.parts): return bytes(self.parts)
        return None
    def __repr__(self): return f'SBytes({self.parts})'


def mkbytes(parts):
    b = SBytes(parts)
    c = b.concrete()
    return b if c is None else c


class MBytes:
    """bytearray: a mutable byte string with the value v."""
    def __init__(self, v): self.v = v
    def copy(self): return MBytes(self.v)
    def __repr__(self): return f'MBytes({self.v})'


# ---- objects -------------------------------------------------------------------------------
class Obj:
    _n = 0
    def __init__(self, cls):
        self.cls, self.fields, self.ghost = cls, {}, None
        self.pre = self.built = False      # was there before the verified call; its constructor has returned
    def __repr__(self): return f'<{self.cls.name} {self.fields if self.ghost is None else self.ghost}>'


class PyClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.dc_fields = None
        self.nt_fields = None
        self.dc_eq = self.dc_order = self.frozen = self.opaque_exc = False
        self._mro = None
    def mro(self):
        """C3 linearization of the classes defined in Python; None when there is none."""
        if self._mro is None:
            bs = [b for b in self.bases if isinstance(b, PyClass)]
            seqs = [list(b.mro()) for b in bs] + [bs]
            out = [self]
            while any(seqs):
                seqs = [q for q in seqs if q]
                for q in seqs:
                    h = q[0]
                    if not any(h in r[1:] for r in seqs): break
                else: return None
                out.append(h)
                for q in seqs:
                    if q and q[0] is h: del q[0]
            self._mro = out
        return self._mro
    def all_names(self): return {n for c in self.mro() for n in c.ns}
    def slots(self):
        """The attribute names instances can have, or None when they can have any."""
        out = set()
        for c in self.mro():
            sl = c.ns.get('__slots__')
            if isinstance(sl, str): sl = (sl,)
            if isinstance(sl, SymList): sl = tuple(v for _, v in sl.segs)
            if not isinstance(sl, tuple) or not all(isinstance(x, str) for x in sl) or '__dict__' in sl: return None
            if any(isinstance(b, type) and b is not object for b in c.bases): return None
            out |= set(sl)
        return out
    def lookup(self, name):
        for c in self.mro():
            if name in c.ns: return c.ns[name]
        return None
    def has(self, name): return any(name in c.ns for c in self.mro())
    def issub(self, other):
        if isinstance(other, PyClass): return other in self.mro()
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type) and isinstance(other, type) and issubclass(b, other): return True
        return other is object
    def __repr__(self): return f'<class {self.name}>'


class PyFunc:
    def __init__(self, node, genv, closure, qual, defaults, kwdefaults):
        self.node, self.genv, self.closure, self.qual = node, genv, closure, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.is_gen = None
        self.owner = None
        self.locals_ = None
    def __repr__(self): return f'<func {self.qual}>'


class Bound:
    def __init__(self, func, self_): self.func, self.self_ = func, self_


class StaticM:
    def __init__(self, f): self.f = f
class ClassM:
    def __init__(self, f): self.f = f
class PropM:
    def __init__(self, f, setter=None): self.f, self.setter = f, setter
class AbstractM:
    def __init__(self, f): self.f = f
class CachedM:
    def __init__(self, f): self.f = f
class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
class TypingV:
    def __init__(self, name=''): self.name = name
class NTuple(tuple):
    """An instance of a named tuple class."""
    def __new__(cls, c, items):
        t = tuple.__new__(cls, items)
        t.cls = c
        return t
class Suppress:
    def __init__(self, types): self.types = types
class CtxV:
    def __init__(self, gen): self.gen = gen
class Partial:
    def __init__(self, f, args, kw): self.f, self.args, self.kw = f, list(args), dict(kw)
class Cached:
    def __init__(self, f): self.f = f
class Auto: pass
class EnumInt(int):
    """A member of an IntEnum: an integer with a name."""
    def __new__(cls, v, name, enum):
        x = int.__new__(cls, v)
        x.name, x.enum = name, enum
        return x
class EnumMember:
    def __init__(self, value, name, enum): self.value, self.name, self.enum = value, name, enum
class EnumCls:
    def __init__(self, name, isint, module): self.name, self.isint, self.module, self.members, self.ns = name, isint, module, {}, {}
    def uniq(self):
        out = []
        for m in self.members.values():
            if not any(m is x for x in out): out.append(m)
        return out
    def by_value(self, vm, v):
        from .engine import rz
        for m in self.uniq():
            if v is m or vm.truth(vm.cmp('Eq', int(m) if self.isint else m.value, v)): return m
        raise rz(ValueError, 'not a valid member')
class NotImpl:
    def __repr__(self): return 'NotImplemented'
NOTIMPL = NotImpl()


class Builtin:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f'<builtin {self.name}>'


class Module:
    def __init__(self, name, ns): self.name, self.ns = name, ns


class ExcVal:
    """A raised exception instance; cls is a python exception class or a PyClass."""
    def __init__(self, cls, args=()): self.cls, self.args = cls, args
    @property
    def name(self): return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name
    def isinst(self, cls):
        if isinstance(self.cls, PyClass): return self.cls.issub(cls)
        return isinstance(cls, type) and issubclass(self.cls, cls)
    def __repr__(self): return f'Exc({self.name})'


class Poison:
    def __init__(self, why): self.why = why
    def __repr__(self): return f'Poison({self.why})'


# ---- symbolic sequences --------------------------------------------------------------------
class SymSeq:
    """An immutable sequence of symbolic length n; elem(vm, k) gives the k-th element."""
    def __init__(self, name, n, elem, origin=None, **attrs):
        self.name, self.n, self.elem, self.origin = name, n, elem, origin
        self.attrs = attrs           # bag, sorted, ...
    def __repr__(self): return f'SymSeq({self.name})'


class SymList:
    """A mutable list: segments are ('base', SymSeq) and ('item', value)."""
    def __init__(self, segs): self.segs = list(segs)
    def copy(self): return SymList(self.segs)
    def __repr__(self): return f'SymList({self.segs})'


class TOMB: pass


class MapBase:
    """An opaque map from ints: has(k), get(k), nonempty."""
    def __init__(self, name, getter, keyrange=None):
        self.name, self.getter, self.keyrange = name, getter, keyrange
        self.has = z3.Function('has_' + name, z3.IntSort(), z3.BoolSort())
        self.nonempty = z3.Bool('nonempty_' + name)


class PyDict:
    """dict / defaultdict with possibly symbolic keys, on top of an optional opaque base map."""
    def __init__(self, items=(), base=None, factory=None):
        self.log = [list(x) for x in items]
        self.base, self.factory = base, factory
    def copy(self):
        d = PyDict(base=self.base, factory=self.factory)
        d.log = [[k, v.copy() if isinstance(v, SymList) else (list(v) if isinstance(v, list) else v)] for k, v in self.log]
        return d
    def __repr__(self): return f'PyDict({self.log}, base={self.base and self.base.name})'


class GenExp:
    def __init__(self, node, env, first): self.node, self.env, self.first, self.it = node, env, first, None


class GenCall:
    """A call of a generator function, run in push mode by the consumer."""
    def __init__(self, func, env): self.func, self.env, self.state = func, env, None      # state: None, "on" (running, or left), "done"


class FileObj:
    """Binary file: read side over a Blob, write side as a list of byte parts."""
    def __init__(self, blob=None, pos=0):
        self.blob, self.pos, self.out, self.conc = blob, pos, [], None
        self.closed = False


class Itemgetter:
    def __init__(self, i): self.i = i


class RegexV:
    def __init__(self, pattern, flags=0): self.pattern, self.flags = pattern, flags


class MatchV:
    def __init__(self, groups): self.groups = groups
