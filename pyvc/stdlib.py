"""Models of the builtins and standard-library functions the code uses.

These models are the assumed contracts on dependencies (CPython builtins, heapq, io.BytesIO, re, random, math,
operator, collections); DESIGN.md lists them.  Anything not modelled raises Unsupported.
"""
import ast, re, math
import z3
from .values import *


def _E():
    from . import engine
    return engine


class MISSING_: pass


def rz(*a): return _E().rz(*a)
def Uns(m): return _E().Unsupported(m)


# ---------------------------------------------------------------------- lists / iteration
def conc_items(l):
    if isinstance(l, SymList):
        if all(k == 'item' for k, _ in l.segs): return [v for _, v in l.segs]
    return None


def as_items(vm, v):
    """All items of a value with a known number of items."""
    if isinstance(v, MBytes): v = v.v
    if isinstance(v, tuple): return list(v)
    if isinstance(v, SymList):
        r = conc_items(v)
        if r is not None: return r
    if isinstance(v, (str, bytes)): return list(v)
    if isinstance(v, SBytes):
        ps = _norm(vm, v.parts)
        if len(ps) == 1 and isinstance(ps[0], Slice):
            ps = [SInt(byte_at(vm, ps[0], i)) for i in range(vm.concretize(ps[0].n, 16))]
        if all(isinstance(p, (int, SInt)) for p in ps): return ps
    if isinstance(v, frozenset):
        if len(v) > 1: raise Uns('order of the elements of a set')
        return list(v)
    if isinstance(v, range): return list(v)
    if isinstance(v, PyDict) and v.base is None: return [k for k, x in v.log if x is not TOMB]
    if isinstance(v, EnumCls): return v.uniq()
    if isinstance(v, SymSeq):
        n = z3.simplify(v.n) if z3.is_expr(v.n) else z3.IntVal(v.n)
        if z3.is_int_value(n) and n.as_long() <= 64: return [v.elem(vm, z3.IntVal(i)) for i in range(n.as_long())]
    if isinstance(v, (GenExp, GenCall, Obj, LazyIter)): return list(iter_items(vm, v, True))
    if isinstance(v, (int, float, SInt, SFloat, SBool, type(None))): raise rz(TypeError, 'not iterable')
    raise Uns(f'items of {type(v).__name__}')


class LazyIter:
    """iter()/zip()/enumerate()/map() results; items are produced eagerly from concrete sources."""
    def __init__(self, src): self.src, self.pos = src, 0


def mkset(vm, xs):
    if not all(_conckey(x) for x in xs): raise Uns('symbolic set')
    return frozenset(xs)


def unordered(vm, v):
    """The items of an iterable for a use in which their order does not matter."""
    return list(v) if isinstance(v, frozenset) else None


def live_of(v):
    """The containers an iteration over v would see changing."""
    if isinstance(v, LazyIter): return live_of(v.src)
    if isinstance(v, (SymList, SymSeq)): return getattr(v, 'live', None) or ([v] if isinstance(v, SymList) else [])
    if isinstance(v, (PyDict, MBytes)): return [v]
    return []


def content(o):
    if isinstance(o, SymList): return tuple((k, id(x)) for k, x in o.segs)
    if isinstance(o, PyDict): return tuple((id(k), id(v)) for k, v in o.log), id(o.base)
    return id(o.v)


def gen_list(vm, g):
    out = []
    try: vm.run_gen(g, out.append)
    except _E().PyRaise:
        if out: raise Uns('a generator that raises after it has yielded')
        raise
    return out


def drain(vm, v):
    if not isinstance(v, GenCall): return iter_items(vm, v, True)
    out = []
    vm.run_gen(v, out.append)
    return out


def gen_items(vm, g):
    """The items of a generator call, for a consumer that works between them or stops early: all are produced at once,
    which shows when the generator changes something, or depends on something that changes meanwhile."""
    seen = {}
    roots, e = [], g.env
    while e is not None:
        roots += list(e.vars.values())
        e = e.parent
    vm.reach(roots, seen)
    def check():
        if any(c is not None and vm.content(o) != c for o, c, _ in seen.values()): raise Uns('a generator that depends on, or changes, what its consumer sees')
    items = gen_list(vm, g)
    check()
    for x in items:
        yield x
        check()


def iter_items(vm, v, eager=False):
    if isinstance(v, GenExp):
        if v.it is None: v.it = vm.comp_iter(v.node, v.env, v.first)
        return list(v.it)
    if isinstance(v, GenCall):
        return gen_list(vm, v) if eager else gen_items(vm, v)
    if isinstance(v, LazyIter):
        items = as_items(vm, v.src)[v.pos:]
        v.pos = len(as_items(vm, v.src))
        return items
    if isinstance(v, Obj):
        f = v.cls.lookup('__iter__')
        if f is None: no_iter(v)
        return iter_items(vm, vm.call(Bound(f, v), [], {}), eager)
    return as_items(vm, v)


def no_iter(v):
    if v.cls.has('__getitem__'): raise Uns('iteration by __getitem__')
    raise rz(TypeError, 'not iterable')


def seq_segs(vm, v):
    """Segments ('item', x) / ('base', SymSeq) of an iterable, or None."""
    if isinstance(v, SymList): return list(v.segs)
    if isinstance(v, SymSeq): return [('base', v)]
    if isinstance(v, LazyIter) and not v.pos: return seq_segs(vm, v.src)
    if isinstance(v, Obj):
        f = v.cls.lookup('__iter__')
        if f is None: no_iter(v)
        return seq_segs(vm, vm.call(Bound(f, v), [], {}))
    if isinstance(v, SStr) and any(isinstance(p, Acc) for p in v.parts) and all(isinstance(p, (str, Acc)) for p in v.parts):
        out = []
        for p in v.parts:
            if isinstance(p, str): out += [('item', c) for c in p]
            else: out.append(('base', acc_seq(vm, p)))
        return out
    if isinstance(v, SBytes) or isinstance(v, (SStr,)):
        try: return [('item', x) for x in as_items(vm, v)]
        except _E().Unsupported: return None
    if isinstance(v, (GenCall,)): return None
    if isinstance(v, PyDict) and v.base is not None: return seq_segs(vm, dict_view(vm, v, 'keys'))
    return [('item', x) for x in iter_items(vm, v)]


def collect_gen(vm, g):
    """Segments of everything a generator call yields when it is run to its end."""
    segs = []
    g.env.collect = segs
    vm.run_gen(g, lambda x: segs.append(('item', x)))
    return segs


def acc_seq(vm, p):
    """The characters of a run of accidentals; S(k) counts the sharps among the first k."""
    nm = vm.fresh_name('acc')
    S = z3.Function('S_' + nm, z3.IntSort(), z3.IntSort())
    n = vm.T(p.sharps) + vm.T(p.flats)
    vm.assume(z3.And(S(z3.IntVal(0)) == 0, S(n) == vm.T(p.sharps)))
    def elem(vm2, k):
        sharp = z3.Bool(vm2.fresh_name('sharp'))
        vm2.assume(S(k + 1) == S(k) + z3.If(sharp, 1, 0))
        return '#' if vm2.branch(sharp) else 'b'
    return SymSeq(nm, n, elem, acc=S)


def length(vm, v):
    if isinstance(v, MBytes): v = v.v
    if isinstance(v, (str, bytes, tuple, frozenset, range)): return len(v)
    if isinstance(v, SymList):
        n, t = 0, None
        for k, x in v.segs:
            if k == 'item': n += 1
            else: t = x.n if t is None else t + x.n
        return n if t is None else vm.mkint(t + n)
    if isinstance(v, SymSeq): return vm.mkint(v.n)
    if isinstance(v, SBytes):
        n = z3.IntVal(0)
        for p in v.parts: n = n + (1 if isinstance(p, (int, SInt)) else p.n)
        return vm.mkint(n)
    if isinstance(v, SStr):
        if all(isinstance(p, (str, Acc)) for p in v.parts):
            return vm.mkint(z3.Sum([z3.IntVal(len(p)) if isinstance(p, str) else vm.T(p.sharps) + vm.T(p.flats) for p in v.parts]))
        raise Uns('len of symbolic string')
    if isinstance(v, PyDict) and v.base is None: return len([1 for _, x in v.log if x is not TOMB])
    if isinstance(v, PyDict) and not v.log:
        return vm.fresh_int('maplen', 1) if dict_truth(vm, v) else 0
    if isinstance(v, Obj):
        f = v.cls.lookup('__len__')
        if f is None: raise rz(TypeError, 'no len')
        return vm.call(Bound(f, v), [], {})
    if isinstance(v, (int, float, SInt, SFloat, type(None))): raise rz(TypeError, 'no len')
    raise Uns(f'len of {type(v).__name__}')


def list_extend(vm, l, v):
    if isinstance(v, SymList): l.segs.extend(v.segs)
    elif isinstance(v, SymSeq): l.segs.append(('base', v))
    else: l.segs.extend(('item', x) for x in iter_items(vm, v))


def gen_segs(vm, g):
    """The segments of a generator expression with one 'for' that nothing has consumed yet."""
    if g.it is not None: return [('item', x) for x in iter_items(vm, g)]
    g.it = iter(())
    return sym_comp(vm, g.node, g.env, g.first).segs


def sym_comp(vm, e, env, src=MISSING_):
    """[expr for target in <symbolic sequence>]: a mapped symbolic sequence (or None)."""
    if len(e.generators) != 1: return None
    g = e.generators[0]
    if src is MISSING_: src = vm.ev(g.iter, env)
    segs = seq_segs(vm, src) if not isinstance(src, (GenExp, GenCall)) else None
    if segs is None or all(k == 'item' for k, _ in segs):
        # evaluate through the ordinary path, with the source already computed
        return SymList([('item', x) for x in vm.comp_iter(e, env, src if segs is None else tuple(x for _, x in segs))])
    world = World(vm, env)

    def ev_on(item):
        en2 = vm.scope(world.frozen, True)
        vm.assign(g.target, item, en2)
        return vm.ev(e.elt, en2)

    out = []
    scope = vm.scope(env)
    for k, x in segs:
        if k == 'item':
            vm.assign(g.target, x, scope)
            if all(vm.truth(vm.ev(c, scope)) for c in g.ifs): out.append(('item', vm.ev(e.elt, scope)))
        else:
            if g.ifs: raise Uns('filtered symbolic comprehension')
            out.append(('base', map_seq(vm, x, ev_on, world)))
    return SymList(out)


class World:
    """What an expression evaluated once for all elements of a symbolic sequence can see: its variables are frozen here, and evaluating
    the expression must change nothing (an effect per element would be lost)."""
    def __init__(self, vm, env):
        self.vm = vm
        self.frozen = self.freeze(env)
        self.seen = {}
        e = env
        while e is not None:
            if e.vars is not e.genv:
                for x in e.vars.values(): self.walk(x)
            e = e.parent
        self.before = self.state()

    def freeze(self, env):
        if env is None or env.vars is env.genv: return env
        e = _E().Env(env.genv, self.freeze(env.parent), env.qual)
        e.__dict__.update({k: v for k, v in env.__dict__.items() if k not in ('vars', 'parent')})
        e.vars = dict(env.vars)
        return e

    def walk(self, x):
        stack = [x]
        while stack:
            o = stack.pop()
            if id(o) in self.seen: continue
            if isinstance(o, SymList): kids = [y for k, y in o.segs if k == 'item']
            elif isinstance(o, PyDict): kids = [y for _, y in o.log]
            elif isinstance(o, Obj): kids = list(o.fields.values())
            elif isinstance(o, tuple): kids = list(o)
            elif isinstance(o, Bound): kids = [o.self_]
            elif isinstance(o, (MBytes, FileObj, LazyIter)): kids = []
            elif isinstance(o, PyFunc) and o.closure is not None: kids = list(o.closure.vars.values())
            else: continue
            self.seen[id(o)] = o
            stack.extend(kids)

    def state(self):
        out = {}
        for i, o in self.seen.items():
            if isinstance(o, (SymList, PyDict, MBytes)): out[i] = content(o)
            elif isinstance(o, Obj): out[i] = tuple((k, id(v)) for k, v in o.fields.items()) + (id(o.ghost and o.ghost.get('bag')),)
            elif isinstance(o, FileObj): out[i] = (id(o.pos), len(o.out), o.closed)
            elif isinstance(o, LazyIter): out[i] = o.pos
            elif isinstance(o, PyFunc): out[i] = tuple((k, id(v)) for k, v in o.closure.vars.items())
        return out

    def check(self):
        if self.state() != self.before: raise Uns('an expression with effects in a symbolic comprehension')
        e = self.frozen


def map_seq(vm, s, fn, world=None):
    """Map over a symbolic sequence; fn is executed once on a generic element to see that it is total."""
    from . import loops
    hook = getattr(vm, 'map_hook', None)
    attrs = {}
    k = vm.fresh_int('mapk', 0)
    vm.assume(k.t < s.n) if vm.choose(2) == 0 else None
    # choose 0: run the generic element (exceptions and side obligations); choose 1: go on with the mapped sequence
    if vm.path.trace[-1] == 0:
        vm.path.abstract = True
        e = s.elem(vm, k.t)
        r = fn(e)
        if world is not None: world.check()
        if hook: hook(vm, s, e, r)
        raise _E().PathEnd()
    if hook: attrs = hook(vm, s, None, None) or {}
    return SymSeq(s.name + "'", s.n, lambda vm2, i: fn(s.elem(vm2, i)), origin=('map', s), **attrs)


# ---------------------------------------------------------------------- equality helpers
def eq_term(vm, a, b):
    r = vm.cmp('Eq', a, b)
    if isinstance(r, SBool): return r.t
    return z3.BoolVal(bool(r))


def bytes_eq(vm, a, b):
    pa = SBytes([a]).parts; pb = SBytes([b]).parts
    pa, pb = _norm(vm, pa), _norm(vm, pb)
    if len(pa) == 1 and isinstance(pa[0], Slice) and not (len(pb) == 1 and isinstance(pb[0], Slice)): pa, pb = pb, pa
    if len(pb) == 1 and isinstance(pb[0], Slice) and all(isinstance(x, (int, SInt)) for x in pa):
        s = pb[0]
        ts = [vm.T(s.n) if not z3.is_expr(s.n) else s.n]
        ts = [(s.n if z3.is_expr(s.n) else z3.IntVal(s.n)) == len(pa)]
        for i, x in enumerate(pa): ts.append(byte_at(vm, s, i) == vm.T(x))
        return vm.mkbool(z3.And(ts))
    ts = []
    if len(pa) == len(pb):
        for x, y in zip(pa, pb):
            if isinstance(x, (int, SInt)) and isinstance(y, (int, SInt)): ts.append(vm.T(x) == vm.T(y))
            elif isinstance(x, OpaqueBytes) and isinstance(y, OpaqueBytes): ts.append(x.t == y.t)
            elif isinstance(x, Slice) and isinstance(y, Slice) and x.blob is y.blob:
                ts.append(z3.And(x.off == y.off, x.n == y.n))
            else: raise Uns('bytes comparison shape')
        return vm.mkbool(z3.And(ts)) if ts else True
    fixed = lambda ps: all(isinstance(p, (int, SInt)) for p in ps)
    if fixed(pa) and fixed(pb): return False
    raise Uns('bytes comparison shape')


def _norm(vm, parts):
    out = []
    for p in parts:
        if isinstance(p, Slice):
            n = z3.simplify(p.n) if z3.is_expr(p.n) else z3.IntVal(p.n)
            if z3.is_int_value(n) and n.as_long() <= 16:
                out.extend(SInt(byte_at(vm, p, i)) for i in range(n.as_long()))
                continue
        out.append(p)
    return out


def byte_at(vm, s, i):
    t = s.blob.f(z3.simplify(s.off + i)) if z3.is_expr(s.off) else s.blob.f(z3.IntVal(s.off + i))
    f = z3.And(t >= 0, t <= 255)
    if f.get_id() not in vm.path.__dict__.setdefault('byte_facts', set()):
        vm.path.byte_facts.add(f.get_id())
        vm.path.__dict__.setdefault('keep', []).append(f)
        vm.path.pc.append(f)
    return t


def str_eq(vm, a, b):
    pa, pb = SStr([a]).parts, SStr([b]).parts
    if len(pa) == len(pb):
        ts = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y: return False if len(pa) == 1 else _uns('str eq')
            elif isinstance(x, Dec) and isinstance(y, Dec): ts.append(vm.T(x.v) == vm.T(y.v))
            elif isinstance(x, FltTxt) and isinstance(y, FltTxt) and x.fmt == y.fmt and isinstance(x.v, SFloat) and isinstance(y.v, SFloat):
                ts.append(x.v.t == y.v.t)
            else: raise Uns('string comparison')
        return vm.mkbool(z3.And(ts)) if ts else True
    raise Uns('string comparison')


def _uns(m): raise Uns(m)


# ---------------------------------------------------------------------- dicts
def _conckey(k):
    return isinstance(k, (int, str, bytes, type(None), bool)) or isinstance(k, float) and k == k or (isinstance(k, tuple) and all(_conckey(x) for x in k))


def check_key(vm, k):
    """Keys whose hash agrees with their equality."""
    if _conckey(k) or isinstance(k, (SInt, SBool, PyClass, type)): return
    if isinstance(k, tuple):
        for x in k: check_key(vm, x)
        return
    if isinstance(k, (SStr, SBytes)): return
    if isinstance(k, Obj) and not k.cls.has('__eq__') and not k.cls.has('__hash__') and k.cls.dc_fields is None: return
    raise Uns(f'key of type {type(k).__name__}')


def dict_find(vm, d, k):
    """Index in the log of an entry equal to k, or None (forks on symbolic keys)."""
    check_key(vm, k)
    for i, (kk, v) in enumerate(d.log):
        if _conckey(k) and _conckey(kk):
            if k == kk and type(k) in (type(kk), int, bool, float): return i
            if k == kk: return i
            continue
        r = vm.cmp('Eq', kk, k)
        if vm.truth(r): return i
    return None


def dict_set(vm, d, k, v):
    i = dict_find(vm, d, k)
    if i is None: d.log.append([k, v])
    else: d.log[i][1] = v


def dict_has(vm, d, k):
    """Key membership, as a value."""
    if d.base is None and not all(_conckey(kk) for kk, _ in d.log) or d.base is not None or not _conckey(k):
        if d.base is None and all(_conckey(kk) and isinstance(kk, int) for kk, _ in d.log) and isinstance(k, SInt):
            ks = [kk for kk, v in d.log if v is not TOMB]
            return vm.mkbool(z3.Or([k.t == x for x in ks])) if ks else False
        i = dict_find(vm, d, k)
        if i is not None: return d.log[i][1] is not TOMB
        if d.base is None: return False
        return vm.mkbool(d.base.has(vm.T(k)))
    i = dict_find(vm, d, k)
    return i is not None and d.log[i][1] is not TOMB


def dict_get(vm, d, k):
    """Value of key k or None-marker (MISSING)."""
    if d.base is None and isinstance(k, SInt) and all(isinstance(kk, int) for kk, _ in d.log):
        # group the concrete keys by value to limit forking
        groups = {}
        for kk, v in d.log:
            if v is TOMB: continue
            groups.setdefault(_gkey(v), (v, []))[1].append(kk)
        for v, ks in groups.values():
            if vm.branch(z3.Or([k.t == x for x in ks])): return v
        return MISSING
    i = dict_find(vm, d, k)
    if i is not None: return MISSING if d.log[i][1] is TOMB else d.log[i][1]
    if d.base is None: return MISSING
    if not vm.branch(d.base.has(vm.T(k))): return MISSING
    v = d.base.getter(vm, vm.T(k))
    if isinstance(v, SymList): d.log.append([k, v])
    return v


def _gkey(v):
    try:
        hash(v)
        return (type(v), v) if isinstance(v, (int, str, float, bytes)) else id(v)
    except TypeError:
        return id(v)


class MISSING: pass


def dict_truth(vm, d):
    if any(v is not TOMB for _, v in d.log):
        return True
    if d.base is None: return False
    b = vm.branch(d.base.nonempty)
    if not b: d.base = None
    return b


def delitem(vm, o, k):
    if isinstance(o, PyDict):
        i = dict_find(vm, o, k)
        if i is not None:
            if o.log[i][1] is TOMB: raise rz(KeyError)
            if o.base is None: del o.log[i]
            else: o.log[i][1] = TOMB
            return
        if o.base is not None and vm.branch(o.base.has(vm.T(k))):
            o.log.append([k, TOMB]); return
        raise rz(KeyError)
    if isinstance(o, SymList):
        items = conc_items(o)
        if items is not None and isinstance(k, int):
            try: del o.segs[k]
            except IndexError: raise rz(IndexError)
            return
    raise Uns('del item')


def dict_eq(vm, a, b):
    if a.base is not None or b.base is not None: raise Uns('comparison of symbolic maps')
    ia = [(k, v) for k, v in a.log if v is not TOMB]
    ib = [(k, v) for k, v in b.log if v is not TOMB]
    if len(ia) != len(ib): return False
    ts = []
    for k, v in ia:
        w = dict_get(vm, b, k)
        if w is MISSING: return False
        r = vm.item_eq(v, w)
        if r is False: return False
        if r is not True: ts.append(vm.B(r))
    return vm.mkbool(z3.And(ts)) if ts else True


def contains(vm, c, x):
    if isinstance(c, PyDict):
        check_key(vm, x)
        return dict_has(vm, c, x)
    if isinstance(c, Obj):
        f = c.cls.lookup('__contains__')
        if f is not None:
            r = vm.call_special(f, c, [x])
            return r if isinstance(r, SBool) else vm.truth(r)
        if not c.cls.has('__iter__') and not c.cls.has('__getitem__'): raise rz(TypeError, 'not iterable')
        if not c.cls.has('__iter__'): raise Uns('in an object')
        r = vm.call_special(c.cls.lookup('__iter__'), c, [])
        if isinstance(r, (GenCall, GenExp)): raise Uns('in a generator')
        return contains(vm, r if not isinstance(r, LazyIter) else SymList([('item', y) for y in iter_items(vm, r)]), x)
    if isinstance(c, range) and isinstance(x, SInt) and c.step == 1: return vm.mkbool(z3.And(x.t >= c.start, x.t < c.stop))
    if isinstance(c, (tuple, SymList, frozenset, range)):
        if isinstance(c, frozenset): check_key(vm, x)
        items = list(c) if isinstance(c, frozenset) else as_items(vm, c)
        ts = []
        for y in items:
            r = vm.item_eq(y, x)
            if r is True: return True
            if r is False: continue
            if not isinstance(r, SBool): raise Uns('equality that is no truth value')
            ts.append(r.t)
        return vm.mkbool(z3.Or(ts)) if ts else False
    if isinstance(c, str) and isinstance(x, str): return x in c
    if isinstance(c, bytes) and isinstance(x, (bytes, int)):
        try: return x in c
        except ValueError: raise rz(ValueError)
    if isinstance(c, bytes) and isinstance(x, SInt):
        if vm.branch(z3.Or(x.t < 0, x.t > 255)): raise rz(ValueError)
        return vm.mkbool(z3.Or([x.t == y for y in set(c)])) if c else False
    if isinstance(c, str) and not isinstance(x, SStr) and vm.kind(x) is not None: raise rz(TypeError)
    if isinstance(c, (int, float, SInt, SFloat, type(None))): raise rz(TypeError, 'not iterable')
    raise Uns(f'in {type(c).__name__}')


def getitem(vm, o, k):
    if isinstance(o, MBytes) and not isinstance(k, tuple): o = o.v
    if isinstance(o, PyDict):
        v = dict_get(vm, o, k)
        if v is MISSING:
            if o.factory is not None:
                v = vm.call(o.factory, [], {})
                dict_set(vm, o, k, v)
                return v
            raise rz(KeyError)
        return v
    if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice':
        return getslice(vm, o, k[1], k[2], k[3])
    if isinstance(o, (tuple, SymList, str, bytes, range)) :
        items = conc_items(o) if isinstance(o, SymList) else o
        if items is not None:
            if isinstance(k, bool): k = int(k)
            if isinstance(k, SBool): k = vm.mkint(vm.T(k))
            if isinstance(k, int):
                try: return items[k]
                except IndexError: raise rz(IndexError)
            if isinstance(k, SInt):
                n = len(items)
                if vm.branch(z3.Or(k.t < -n, k.t >= n)): raise rz(IndexError)
                groups = {}
                for i, x in enumerate(items): groups.setdefault(_gkey(x), (x, []))[1].append(i)
                gs = list(groups.values())
                for j, (x, idx) in enumerate(gs):
                    if j == len(gs) - 1: return x
                    if vm.branch(z3.Or([r for i in _ranges(idx) for r in _inrange(k.t, i, n)])): return x
            if isinstance(k, (float, SFloat, str, SStr, bytes, tuple, type(None), SymList, PyDict)): raise rz(TypeError, 'index')
            raise Uns('index')
    if isinstance(o, (SymList, SymSeq)):
        segs = o.segs if isinstance(o, SymList) else [('base', o)]
        if len(segs) == 1:
            s = segs[0][1]
            if isinstance(k, (int, SInt)):
                t = vm.T(k)
                if isinstance(k, int) and k < 0: t = s.n + k
                if vm.branch(z3.Or(t < 0, t >= s.n)): raise rz(IndexError)
                return s.elem(vm, t)
    if isinstance(o, SStr): return str_at(vm, o, k)
    if isinstance(o, SBytes):
        if isinstance(k, SBool): k = vm.mkint(vm.T(k))
        if isinstance(k, (int, SInt)):
            ps = _norm(vm, o.parts)
            if all(isinstance(p, (int, SInt)) for p in ps) and not (isinstance(k, SInt) and len(ps) > 16): return getitem(vm, tuple(ps), k)
        if isinstance(k, int):
            if k >= 0:
                pos = 0
                for p in o.parts:
                    if isinstance(p, (int, SInt)):
                        if pos == k: return p
                        pos += 1
                    elif isinstance(p, Slice):
                        n = z3.simplify(p.n) if z3.is_expr(p.n) else z3.IntVal(p.n)
                        if len(o.parts) == 1:
                            if vm.branch(p.n <= k): raise rz(IndexError)
                            return vm.mkint(byte_at(vm, p, k))
                        if not z3.is_int_value(n): break
                        n = n.as_long()
                        if k < pos + n: return vm.mkint(byte_at(vm, p, k - pos))
                        pos += n
                    else: break
                else: raise rz(IndexError)
        elif isinstance(k, SInt) and len(o.parts) == 1 and isinstance(o.parts[0], Slice):
            p = o.parts[0]
            if vm.branch(z3.Or(k.t < 0, k.t >= p.n)):
                if vm.branch(k.t >= p.n): raise rz(IndexError)
                raise Uns('negative index')
            return vm.mkint(byte_at(vm, p, k.t))
    if isinstance(o, (int, float, SInt, SFloat, type(None))): raise rz(TypeError, 'not subscriptable')
    if isinstance(o, Obj):
        f = o.cls.lookup('__getitem__')
        if f is None: raise rz(TypeError, 'not subscriptable')
        return vm.call(Bound(f, o), [k], {})
    if isinstance(o, MatchV): return o.groups[k]
    if isinstance(o, PyClass) and vm.depth: raise Uns('subscript of a class')
    if isinstance(o, (PyClass, type, Builtin, TypingV)): return o
    raise Uns(f'getitem {type(o).__name__}')


def _ranges(idx):
    out = []
    for i in idx:
        if out and out[-1][1] == i - 1: out[-1][1] = i
        else: out.append([i, i])
    return out


def _inrange(t, r, n):
    a, b = r
    return [z3.And(t >= a, t <= b), z3.And(t >= a - n, t <= b - n)]


def str_at(vm, s, k):
    """The character at constant index k of a symbolic text, where the parts show it."""
    ps = s.parts
    if isinstance(k, bool) or not isinstance(k, int): raise Uns('index of symbolic text')
    if k >= 0 and isinstance(ps[0], str) and k < len(ps[0]): return ps[0][k]
    if k < 0 and isinstance(ps[-1], str) and -k <= len(ps[-1]): return ps[-1][k]
    raise Uns('index of symbolic text')


def str_slice(vm, s, lo, hi, step):
    ps = list(s.parts)
    if step not in (None, 1) or not all(x is None or isinstance(x, int) and not isinstance(x, bool) for x in (lo, hi)): raise Uns('slice of symbolic text')
    if hi is not None:
        if hi < 0 and isinstance(ps[-1], str) and -hi <= len(ps[-1]): ps[-1] = ps[-1][:hi]
        elif hi >= 0 and isinstance(ps[0], str) and hi <= len(ps[0]): ps = [ps[0][:hi]]
        else: raise Uns('slice of symbolic text')
    if lo:
        if lo > 0 and isinstance(s.parts[0], str) and lo <= len(s.parts[0]):
            if not isinstance(ps[0], str): raise Uns('slice of symbolic text')
            ps[0] = ps[0][lo:]
        else: raise Uns('slice of symbolic text')
    return mkstr(ps)


def getslice(vm, o, lo, hi, step):
    if isinstance(o, SStr): return str_slice(vm, o, lo, hi, step)
    if isinstance(o, SBytes) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        ps = _norm(vm, o.parts)
        if all(isinstance(p, (int, SInt)) for p in ps): return mkbytes(ps[lo:hi:step])
    if isinstance(o, SymSeq): raise Uns('slice of a sequence')
    if isinstance(o, MBytes): return MBytes(getslice(vm, o.v, lo, hi, step))
    if isinstance(o, SymList):
        items = conc_items(o)
        if items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return SymList([('item', x) for x in items[lo:hi:step]])
        if lo is None and hi is None and step is None: return o.copy()
        if lo is None and hi is None and step == -1: return b_reversed(vm, [o], {})
        raise Uns('slice of symbolic list')
    if isinstance(o, (tuple, str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return o[lo:hi:step]
    if isinstance(o, (SBytes, bytes)) and step is None:
        o = SBytes([o])
        n = length(vm, o)
        lo = 0 if lo is None else lo
        # clamp
        def clamp(x):
            if isinstance(x, int) and isinstance(n, int): return max(0, min(n, x if x >= 0 else n + x))
            t = vm.T(x); nt = vm.T(n)
            if isinstance(x, int) and x < 0: t = nt + x
            elif not isinstance(x, int) and vm.branch(t < 0): t = nt + t
            if vm.branch(t < 0): return 0
            if vm.branch(t > nt): return n
            return vm.mkint(t)
        l = clamp(lo); h = n if hi is None else clamp(hi)
        lt, ht = vm.T(l), vm.T(h)
        if not (isinstance(l, int) and isinstance(h, int)) and vm.branch(ht <= lt): return b''
        if isinstance(l, int) and isinstance(h, int) and h <= l: return b''
        ps = o.parts
        if len(ps) == 1 and isinstance(ps[0], Slice):
            s = ps[0]
            return mkbytes([Slice(s.blob, z3.simplify(s.off + lt), z3.simplify(ht - lt))])
        if isinstance(l, int) and isinstance(h, int):
            ps = _norm(vm, ps)
            if all(isinstance(p, (int, SInt)) for p in ps): return mkbytes(ps[l:h])
        raise Uns('bytes slice')
    raise Uns(f'slice of {type(o).__name__}')


def setitem(vm, o, k, v):
    if isinstance(o, PyDict): dict_set(vm, o, k, v); return
    if isinstance(o, SymList):
        items = conc_items(o)
        if items is not None and isinstance(k, int):
            try: o.segs[k] = ('item', v)
            except IndexError: raise rz(IndexError)
            return
    if isinstance(o, (int, float, str, bytes, tuple, type(None), SInt)): raise rz(TypeError, 'item assignment')
    raise Uns('setitem')


# ---------------------------------------------------------------------- text
TEXT_LIMIT = z3.IntVal('1' + '0' * 4300)      # CPython refuses to write (and to read) longer decimal numbers


def dec(vm, x):
    """Decimal text of a symbolic integer."""
    if vm.top is not None and not getattr(vm.top, 'text_assumed', False):
        if vm.branch(z3.Or(x.t >= TEXT_LIMIT, x.t <= -TEXT_LIMIT)): raise rz(ValueError, 'Exceeds the limit for integer string conversion')
    return mkstr([Dec(x)])


def fmt(vm, x, spec):
    if spec == '':
        return b_str(vm, [x], {})
    if isinstance(x, (int, float, str)) and not isinstance(x, bool): 
        try: return format(x, spec)
        except ValueError: raise rz(ValueError)
    if isinstance(x, (SInt,)) and spec == 'd': return dec(vm, x)
    if isinstance(x, (SStr,)) and spec == 's': return x
    if isinstance(x, SFloat): return mkstr([FltTxt(x, spec)])
    if isinstance(x, SInt) and spec.endswith('d') and spec.startswith('+'):
        dec(vm, x)
        return mkstr([OpaqueTxt('fmt')])
    raise Uns(f'format {spec}')


def percent(vm, f, args):
    """text % values, for the plain conversions."""
    if not isinstance(f, str): raise Uns('% formatting')
    if isinstance(args, PyDict): raise Uns('% formatting with a mapping')
    vals = list(args) if isinstance(args, tuple) else [args]
    out, i = [], 0
    for lit, conv in re.findall(r'((?:[^%]|%%)+)|(%[^%a-zA-Z]*[a-zA-Z])', f):
        if lit: out.append(lit.replace('%%', '%')); continue
        if i >= len(vals): raise rz(TypeError, 'not enough arguments for format string')
        v, k = vals[i], conv[-1]
        i += 1
        if isinstance(v, (int, float, str)): 
            try: out.append(conv % (v,))
            except (TypeError, ValueError, OverflowError) as e: raise rz(type(e))
        elif conv == '%s': out.append(b_str(vm, [v], {}))
        elif conv == '%r': out.append(b_repr(vm, [v], {}))
        elif conv in ('%d', '%i') and isinstance(v, SInt): out.append(dec(vm, v))
        else: raise Uns('% formatting')
    if ''.join(a.replace('%%', '%%') + b for a, b in re.findall(r'((?:[^%]|%%)+)|(%[^%a-zA-Z]*[a-zA-Z])', f)) != f: raise Uns('% formatting')
    if i < len(vals) : raise rz(TypeError, 'not all arguments converted')
    return mkstr(out)


def b_str(vm, a, kw):
    if not a: return ''
    x = a[0]
    if isinstance(x, (str, SStr)): return x
    if isinstance(x, (int, float, type(None), bytes, bool)): return str(x)
    if isinstance(x, SInt): return dec(vm, x)
    if isinstance(x, SFloat): return mkstr([FltTxt(x, None)])
    if isinstance(x, SBool): return 'True' if vm.truth(x) else 'False'
    if isinstance(x, Obj):
        f = x.cls.lookup('__str__') or (x.cls.lookup('__repr__') if x.cls.dc_fields is None else None)
        if f: return vm.call_special(f, x, [])
        return mkstr([OpaqueTxt('objstr')])
    if isinstance(x, tuple) or isinstance(x, SymList): return b_repr(vm, a, kw)
    return mkstr([OpaqueTxt('str')])


def b_repr(vm, a, kw):
    x = a[0]
    if isinstance(x, (int, float, str, bytes, bool, type(None))): return repr(x)
    if isinstance(x, SInt): return dec(vm, x)
    if isinstance(x, SFloat): return mkstr([FltTxt(x, None)])
    if isinstance(x, SBool): return 'True' if vm.truth(x) else 'False'
    if isinstance(x, NTuple): raise Uns('repr of a named tuple')
    if isinstance(x, tuple):
        parts = ['(']
        for i, y in enumerate(x):
            if i: parts.append(', ')
            parts.append(b_repr(vm, [y], {}))
        parts.append(',)' if len(x) == 1 else ')')
        return mkstr(parts)
    if isinstance(x, SymList) and conc_items(x) is not None:
        parts = ['[']
        for i, y in enumerate(conc_items(x)):
            if i: parts.append(', ')
            parts.append(b_repr(vm, [y], {}))
        return mkstr(parts + [']'])
    if isinstance(x, SymList) and len(x.segs) == 1 and getattr(vm, 'sjoin_hook', None):
        m = map_seq(vm, x.segs[0][1], lambda e: b_repr(vm, [e], {}))
        return mkstr(['[', vm.sjoin_hook(vm, ', ', [('base', m)]), ']'])
    if isinstance(x, Obj):
        f = x.cls.lookup('__repr__')
        if f and (x.cls.dc_fields is None or '__repr__' in x.cls.ns): return vm.call_special(f, x, [])
        if not f and x.cls.dc_fields is None: return mkstr([OpaqueTxt('objrepr')])
    raise Uns('repr')


# ---------------------------------------------------------------------- regular expressions
# The pattern is read from the source; sequences of parts are matched symbolically.
def sre(pattern):
    import re._parser as p
    return p.parse(pattern)


def re_z3(node_list):
    """z3 regular expression of a parsed pattern (plain subset)."""
    import re._constants as C
    def cls(items):
        neg = False; alts = []
        for op, av in items:
            if op is C.NEGATE: neg = True
            elif op is C.LITERAL: alts.append(z3.Re(chr(av)))
            elif op is C.RANGE: alts.append(z3.Range(chr(av[0]), chr(av[1])))
            elif op is C.CATEGORY and av is C.CATEGORY_DIGIT: alts.append(z3.Range('0', '9'))
            else: raise Uns('regex class')
        if neg: raise Uns('regex negated class')
        return alts[0] if len(alts) == 1 else z3.Union(*alts)
    def one(op, av):
        if op is C.LITERAL: return z3.Re(chr(av))
        if op is C.IN: return cls(av)
        if op is C.SUBPATTERN: return seq(av[3])
        if op is C.BRANCH:
            xs = [seq(x) for x in av[1]]
            return xs[0] if len(xs) == 1 else z3.Union(*xs)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            r = seq(sub)
            if hi is C.MAXREPEAT:
                if lo == 0: return z3.Star(r)
                if lo == 1: return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            if (lo, hi) == (0, 1): return z3.Option(r)
            return z3.Loop(r, lo, hi)
        if op is C.AT: raise Uns('regex anchor')
        raise Uns(f'regex {op}')
    def seq(l):
        xs = [one(op, av) for op, av in l]
        xs = [x for x in xs if x is not None]
        if not xs: return z3.Re('')
        return xs[0] if len(xs) == 1 else z3.Concat(*xs)
    return seq(node_list)


def re_match(vm, rx, s, full):
    """Symbolic match of a parsed regex against the parts of s (greedy, with backtracking).

    Acc and DigTxt/Dec parts are atomic: a repeat over a class containing both '#' and 'b' takes a whole Acc, and
    the node sequence  -? \\d+  takes a whole DigTxt/Dec.  Every other way of touching such a part is Unsupported,
    so a returned match is the match CPython computes for every concrete string with these parts.
    """
    import re._constants as C
    if isinstance(s, str):
        m = (re.compile(rx.pattern, rx.flags).fullmatch if full else re.compile(rx.pattern, rx.flags).match)(s)
        if m is None: return None
        g = {0: m.group(0)}
        for i in range(1, (m.re.groups or 0) + 1): g[i] = m.group(i)
        for n, i in m.re.groupindex.items(): g[n] = m.group(i)
        return MatchV(g)
    parts = SStr([s]).parts
    if len(parts) == 1 and isinstance(parts[0], OpaqueTxt):
        return re_match_opaque(vm, rx, parts[0], full)
    toks = []
    for p in parts:
        if isinstance(p, str): toks.extend(p)
        else: toks.append(p)
    tree = sre(rx.pattern)
    names = {v: k for k, v in tree.state.groupdict.items()}

    def in_cls(items, ch):
        neg = False; hit = False
        for op, av in items:
            if op is C.NEGATE: neg = True
            elif op is C.LITERAL: hit |= ord(ch) == av
            elif op is C.RANGE: hit |= av[0] <= ord(ch) <= av[1]
            elif op is C.CATEGORY and av is C.CATEGORY_DIGIT: hit |= ch.isdigit()
            elif op is C.CATEGORY and av is C.CATEGORY_WORD: hit |= ch.isalnum() or ch == '_'
            else: raise Uns('regex class')
        return hit != neg
    def is_digit_cls(sub):
        if len(sub) != 1: return False
        op, av = sub[0]
        if op is C.IN:
            return all(in_cls(av, c) for c in '0123456789') and not in_cls(av, '-')
        return False
    def is_acc_cls(sub):
        if len(sub) != 1: return False
        op, av = sub[0]
        return op is C.IN and in_cls(av, '#') and in_cls(av, 'b')
    def single(sub):
        if len(sub) == 1 and sub[0][0] in (C.IN, C.LITERAL):
            op, av = sub[0]
            return (lambda ch: in_cls(av, ch)) if op is C.IN else (lambda ch: ord(ch) == av)
        return None

    def m_seq(nodes, i, g, k):
        if not nodes: return k(i, g)
        (op, av), rest = nodes[0], nodes[1:]
        if op in (C.LITERAL, C.IN):
            if i < len(toks) and isinstance(toks[i], str):
                ok = ord(toks[i]) == av if op is C.LITERAL else in_cls(av, toks[i])
                return m_seq(rest, i + 1, g, k) if ok else None
            if i < len(toks): raise Uns('regex touches a symbolic part')
            return None
        if op is C.SUBPATTERN:
            gid = av[0]
            def k2(j, g2):
                if gid is not None:
                    g2 = dict(g2); g2[gid] = mkstr(toks[i:j])
                    if gid in names: g2[names[gid]] = g2[gid]
                return m_seq(rest, j, g2, k)
            return m_seq(list(av[3]), i, g, k2)
        if op is C.BRANCH:
            for alt in av[1]:
                r = m_seq(list(alt) + rest, i, g, k)
                if r is not None: return r
            return None
        if op is C.MAX_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            hi = 10 ** 9 if hi is C.MAXREPEAT else hi
            # -? \d+ on a decimal part
            if i < len(toks) and isinstance(toks[i], (DigTxt, Dec)):
                one = single(sub)
                if (lo, hi) == (0, 1) and one and one('-') and not any(one(c) for c in '0123456789'):
                    if rest and rest[0][0] is C.MAX_REPEAT and rest[0][1][0] <= 1 and rest[0][1][1] is C.MAXREPEAT \
                            and is_digit_cls(list(rest[0][1][2])):
                        return m_seq(rest[1:], i + 1, g, k)
                    raise Uns('regex touches a symbolic part')
                if one and not any(one(c) for c in '-0123456789'):
                    return m_seq(rest, i, g, k) if lo == 0 else None
                if (lo, hi) == (0, 1) and one is None:
                    r = m_seq(sub + rest, i, g, k)
                    return r if r is not None else m_seq(rest, i, g, k)
                raise Uns('regex touches a symbolic part')
            if i < len(toks) and isinstance(toks[i], Acc):
                if is_acc_cls(sub) and lo == 0 and hi == 10 ** 9:
                    one = single(sub)
                    j = i + 1
                    while j < len(toks) and isinstance(toks[j], str) and one(toks[j]): j += 1
                    if j < len(toks) and isinstance(toks[j], (DigTxt, Dec)) and any(one(c) for c in '-0123456789'):
                        raise Uns('regex touches a symbolic part')
                    # greedy; giving back characters could only help a rest that starts with '#' or 'b'
                    r = m_seq(rest, j, g, k)
                    if r is None and _may_start(rest, '#b', C, in_cls): raise Uns('regex backtracks into a symbolic part')
                    return r
                raise Uns('regex touches a symbolic part')
            one = single(sub)
            if one:
                js = [i]
                while len(js) <= hi and js[-1] < len(toks) and isinstance(toks[js[-1]], str) and one(toks[js[-1]]):
                    js.append(js[-1] + 1)
                j = js[-1]
                if len(js) <= hi and j < len(toks) and isinstance(toks[j], Acc) and (one('#') or one('b')): raise Uns('regex touches a symbolic part')
                if len(js) <= hi and j < len(toks) and isinstance(toks[j], (DigTxt, Dec)) and any(one(c) for c in '-0123456789'):
                    raise Uns('regex touches a symbolic part')
                for j in reversed(js):
                    if j - i < lo: break
                    r = m_seq(rest, j, g, k)
                    if r is not None: return r
                return None
            if (lo, hi) == (0, 1):
                r = m_seq(sub + rest, i, g, k)
                return r if r is not None else m_seq(rest, i, g, k)
            raise Uns('regex repeat')
        raise Uns(f'regex {op}')

    def fin(j, g):
        if full and j != len(toks): return None
        g = dict(g); g[0] = mkstr(toks[:j])
        return g
    g = m_seq(list(tree), 0, {}, fin)
    if g is None: return None
    for i in range(1, tree.state.groups):
        g.setdefault(i, None)
        if i in names: g.setdefault(names[i], g[i])
    return MatchV(g)


def _may_start(nodes, chars, C, in_cls):
    for op, av in nodes:
        if op is C.LITERAL: return chr(av) in chars
        if op is C.IN: return any(in_cls(av, c) for c in chars)
        if op is C.MAX_REPEAT:
            if _may_start(list(av[2]), chars, C, in_cls): return True
            if av[0] > 0: return False
            continue
        if op is C.SUBPATTERN:
            if _may_start(list(av[3]), chars, C, in_cls): return True
            continue
        return True
    return False


def re_match_opaque(vm, rx, o, full):
    """Any string outside the spec language: proved not to match by language inclusion (z3 sequences)."""
    spec = o.facts.get('not_in')
    if spec is None: raise Uns('regex on opaque text')
    lang = re_z3(sre(rx.pattern))
    if not full: lang = z3.Concat(lang, z3.Full(z3.ReSort(z3.StringSort())))
    x = z3.String('s')
    s = z3.Solver(); s.set('timeout', 20000)
    s.add(z3.InRe(x, lang), z3.Not(z3.InRe(x, spec)))
    r = s.check()
    if r == z3.unsat: return None
    if r == z3.sat:
        o.facts['witness'] = s.model()[x].as_string()
        vm.path.inputs['notation'] = o.facts['witness']
        # the code's language is larger than the spec's: follow the match
        return MatchV(_AnyGroups())
    raise Uns('regex inclusion unknown')


class _AnyGroups(dict):
    def __missing__(self, k): raise Uns('group of an arbitrary match')


def int_of_str(vm, s):
    if isinstance(s, str):
        try: return int(s)
        except ValueError: raise rz(ValueError, 'int()')
    ps = s.parts
    if len(ps) == 1 and isinstance(ps[0], (Dec, DigTxt)): return ps[0].v
    raise Uns('int of symbolic string')


# ---------------------------------------------------------------------- builtins
def py_isinstance(vm, x, t):
    if isinstance(t, tuple): return any(py_isinstance(vm, x, u) for u in t)
    if isinstance(t, Poison): raise Uns(t.why)
    if isinstance(t, PyClass):
        if t.name in ('Protocol',) or any(isinstance(v, AbstractM) for v in t.ns.values()) and '__subclasshook__' in t.ns: raise Uns('isinstance of a protocol')
        if isinstance(x, NTuple): return x.cls is t
        if isinstance(x, Obj): return x.cls.issub(t)
        if isinstance(x, ExcVal): return x.isinst(t)
        return False
    if t is int: return isinstance(x, (int, SInt, SBool))
    if t is bool: return isinstance(x, (bool, SBool))
    if t is float: return isinstance(x, (float, SFloat))
    if t is str: return isinstance(x, (str, SStr))
    if t is bytearray: return isinstance(x, MBytes)
    if t is bytes: return isinstance(x, (bytes, SBytes))
    if t is tuple: return isinstance(x, tuple)
    if t is list: return isinstance(x, SymList)
    if t is dict: return isinstance(x, PyDict)
    if t is type(None): return x is None
    if t is ITERABLE:
        if isinstance(x, Obj): return x.cls.has('__iter__')
        return isinstance(x, (str, bytes, SStr, SBytes, tuple, SymList, SymSeq, PyDict, GenExp, GenCall, LazyIter, frozenset, range))
    if t is SEQUENCE: return isinstance(x, (str, bytes, SStr, SBytes, tuple, SymList, range))
    if isinstance(t, type) and isinstance(x, ExcVal): return x.isinst(t)
    if isinstance(t, type) and isinstance(x, (Obj,)): return t is object
    raise Uns(f'isinstance {t}')


class ITERABLE: pass
class SEQUENCE: pass


def b_int(vm, a, kw):
    if not a: return 0
    x = a[0]
    if isinstance(x, bool): return int(x)
    if isinstance(x, (int, SInt)): return x
    if isinstance(x, SBool): return vm.mkint(vm.T(x))
    if isinstance(x, float):
        try: return int(x)
        except (ValueError, OverflowError) as e: raise rz(type(e))
    if isinstance(x, SFloat):
        if vm.float_mode == 'real': raise Uns('int of real')
        if vm.branch(z3.fpIsNaN(x.t)): raise rz(ValueError, 'nan')
        if vm.branch(z3.fpIsInf(x.t)): raise rz(OverflowError, 'inf')
        return vm.mkint(f2i(x.t))
    if isinstance(x, (str, SStr)):
        if len(a) > 1: raise Uns('int base')
        return int_of_str(vm, x if isinstance(x, str) else x)
    raise rz(TypeError, 'int()')


def b_float(vm, a, kw):
    if not a: return 0.0
    x = a[0]
    if isinstance(x, (int, float)):
        try: return float(x)
        except OverflowError: raise rz(OverflowError)
    if isinstance(x, str):
        try: return float(x)
        except ValueError: raise rz(ValueError)
    if isinstance(x, SFloat): return x
    if isinstance(x, (type(None), bytes, tuple, SymList, PyDict)) and not isinstance(x, bytes): raise rz(TypeError)
    if isinstance(x, SInt): return SFloat(vm.F(x))
    raise Uns('float()')


def minmax(vm, a, kw, less):
    hook = getattr(vm, 'max_hook', None)
    if hook and len(a) == 1:
        src = a[0]
        if isinstance(src, GenExp) and len(src.node.generators) == 1 and not src.node.generators[0].ifs: src = SymList(gen_segs(vm, src))
        segs = seq_segs(vm, src) if isinstance(src, (SymList, SymSeq, LazyIter, PyDict)) else None
        if segs is not None and len(segs) == 1 and segs[0][0] == 'base': return hook(vm, segs[0][1], less, kw)
        if segs is not None: a = [SymList(segs)]
    key = kw.get('key')
    if set(kw) - {'key', 'default'}: raise Uns('min/max keywords')
    items = (unordered(vm, a[0]) or as_items(vm, a[0])) if len(a) == 1 else a
    if isinstance(a[0], frozenset) and len(a) == 1 and not all(isinstance(x, int) for x in items) : raise Uns('order of the elements of a set')
    if not items:
        if 'default' in kw: return kw['default']
        raise rz(ValueError)
    best = items[0]
    if key is not None:
        bk = vm.call(key, [best], {})
        for x in items[1:]:
            k = vm.call(key, [x], {})
            if vm.truth(vm.cmp('Lt' if less else 'Gt', k, bk)): best, bk = x, k
        return best
    for x in items[1:]:
        c = vm.cmp('Lt' if less else 'Gt', x, best)
        if c is True: best = x
        elif c is False: pass
        elif vm.isint(best) and vm.isint(x): best = vm.mkint(z3.If(c.t, vm.T(x), vm.T(best)))
        elif (vm.isflt(best) or vm.isint(best)) and (vm.isflt(x) or vm.isint(x)) and vm.isflt(best) and vm.isflt(x):
            best = SFloat(z3.If(c.t, vm.F(x), vm.F(best)))
        else:
            if vm.truth(c): best = x
    return best


def b_sum(vm, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    src = a[0]
    if isinstance(src, GenExp) and len(src.node.generators) == 1:
        g = src.node.generators[0]
        r = acc_sum(vm, src, g, src.first, start)
        if r is not None: return r
    if unordered(vm, src) is not None and all(isinstance(x, int) for x in src): src = tuple(src)
    if isinstance(src, SymList) and conc_items(src) is None: raise Uns('sum of symbolic list')
    out = start
    for x in iter_items(vm, src): out = vm.binop(ast.Add(), out, x)
    return out


def acc_sum(vm, src, g, it, start):
    """sum(f(t) for t in text) where text contains a run of '#'/'b': f('#')*sharps + f('b')*flats."""
    if not isinstance(it, SStr): return None
    total = start
    def val(ch):
        en = vm.scope(src.env, True)
        vm.assign(g.target, ch, en)
        if not all(vm.truth(vm.ev(c, en)) for c in g.ifs): return 0
        return vm.ev(src.node.elt, en)
    for p in it.parts:
        if isinstance(p, str):
            for ch in p: total = vm.binop(ast.Add(), total, val(ch))
        elif isinstance(p, Acc):
            for ch, cnt in (('#', p.sharps), ('b', p.flats)):
                total = vm.binop(ast.Add(), total, vm.binop(ast.Mult(), val(ch), cnt))
        else: raise Uns('sum over symbolic text')
    return total


def b_sorted(vm, a, kw):
    if len(a) != 1: raise rz(TypeError)
    if isinstance(a[0], frozenset):
        try: return SymList([('item', x) for x in sorted(a[0])]) if not kw else _uns('sorted set')
        except TypeError: raise rz(TypeError)
    segs = gen_segs(vm, a[0]) if isinstance(a[0], GenExp) and len(a[0].node.generators) == 1 and not a[0].node.generators[0].ifs else seq_segs(vm, a[0])
    if segs is None: raise Uns('sorted')
    l = SymList(segs)
    list_sort(vm, l, kw)
    return l


def list_sort(vm, l, kw):
    items = conc_items(l)
    key = kw.get('key')
    rev = kw.get('reverse', False)
    if set(kw) - {'key', 'reverse'}: raise rz(TypeError)
    if type(rev) is int: rev = bool(rev)
    if rev is not False: 
        if rev is not True: raise Uns('sort reverse')
    if items is not None:
        # insertion sort by symbolic comparison (stable): only for few items
        if len(items) > 6 and not all(isinstance(x, (int, str)) for x in items): raise Uns('sort of many symbolic items')
        ks = [vm.call(key, [x], {}) if key is not None else x for x in items]
        order = []
        for i in range(len(items)):
            j = len(order)
            while j > 0:
                c = vm.cmp('Lt', ks[i], ks[order[j - 1]]) if rev is False else vm.cmp('Lt', ks[order[j - 1]], ks[i])
                if not vm.truth(c): break
                j -= 1
            order.insert(j, i)
        l.segs = [('item', items[i]) for i in order]
        return
    hook = getattr(vm, 'sort_hook', None)
    if hook is None: raise Uns('sort of symbolic list')
    hook(vm, l, key, rev)


def isnone(x): return x is None


def make_builtins(vm):
    B = {}
    def reg(name):
        def d(fn):
            B[name] = Builtin(name, fn)
            return fn
        return d
    for t in (int, str, float, bool, bytes, bytearray, tuple, list, dict, set, frozenset, object, type):
        B[t.__name__] = t
    for n in ('ValueError', 'TypeError', 'KeyError', 'IndexError', 'AssertionError', 'Exception', 'BaseException',
              'OverflowError', 'ZeroDivisionError', 'AttributeError', 'RuntimeError', 'NotImplementedError',
              'StopIteration', 'ArithmeticError', 'LookupError', 'EOFError', 'OSError', 'RecursionError', 'UnicodeDecodeError', 'NameError'):
        B[n] = getattr(__import__('builtins'), n)
    B['NotImplemented'] = NOTIMPL
    B['Ellipsis'] = ...
    reg('isinstance')(lambda vm, a, kw: py_isinstance(vm, a[0], a[1]))
    reg('len')(lambda vm, a, kw: length(vm, a[0]))
    reg('abs')(lambda vm, a, kw: b_abs(vm, a[0]))
    reg('max')(lambda vm, a, kw: minmax(vm, a, kw, False))
    reg('min')(lambda vm, a, kw: minmax(vm, a, kw, True))
    reg('sum')(b_sum)
    reg('repr')(b_repr)
    reg('sorted')(b_sorted)
    reg('iter')(lambda vm, a, kw: a[0] if isinstance(a[0], (LazyIter, SymSeq, GenCall, GenExp)) else LazyIter(a[0] if not isinstance(a[0], Obj) else vm.call(Bound(a[0].cls.lookup('__iter__') or _no_iter(), a[0]), [], {})))
    reg('range')(b_range)
    reg('zip')(b_zip)
    reg('enumerate')(b_enumerate)
    reg('reversed')(b_reversed)
    reg('all')(lambda vm, a, kw: b_all(vm, a[0], True))
    reg('any')(lambda vm, a, kw: b_all(vm, a[0], False))
    reg('map')(b_map)
    def b_filter(vm, a, kw):
        segs = seq_segs(vm, a[1])
        if segs is None or any(k == 'base' for k, _ in segs): raise Uns('filter of a symbolic sequence')
        return LazyIter(SymList([('item', x) for _, x in segs if vm.truth(x if a[0] is None else vm.call(a[0], [x], {}))]))
    reg('filter')(b_filter)
    def b_issub(vm, a, kw):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        if not all(isinstance(x, (PyClass, type)) for x in (a[0],) + ts): raise Uns('issubclass')
        return any(a[0].issub(t) if isinstance(a[0], PyClass) else isinstance(t, type) and issubclass(a[0], t) for t in ts)
    reg('issubclass')(b_issub)
    def b_setattr(vm, a, kw):
        if not isinstance(a[1], str): raise Uns('setattr')
        vm.setattr(a[0], a[1], a[2])
    reg('setattr')(b_setattr)
    reg('divmod')(lambda vm, a, kw: (vm.binop(ast.FloorDiv(), a[0], a[1]), vm.binop(ast.Mod(), a[0], a[1])))
    reg('pow')(lambda vm, a, kw: vm.binop(ast.Pow(), a[0], a[1]))
    reg('chr')(lambda vm, a, kw: chr(a[0]) if isinstance(a[0], int) else _uns('chr'))
    reg('ord')(lambda vm, a, kw: ord(a[0]) if isinstance(a[0], str) else _uns('ord'))
    reg('format')(lambda vm, a, kw: fmt(vm, a[0], a[1] if len(a) > 1 else ''))
    reg('hasattr')(b_hasattr)
    reg('getattr')(b_getattr)
    reg('next')(b_next)
    reg('print')(lambda vm, a, kw: None)
    reg('id')(lambda vm, a, kw: _uns('id'))
    reg('round')(b_round)
    reg('callable')(lambda vm, a, kw: isinstance(a[0], (PyFunc, Bound, Builtin, PyClass)))
    return B


def _no_iter(): raise rz(TypeError, 'not iterable')


def b_round(vm, a, kw):
    if len(a) == 1 and isinstance(a[0], (int, float)): return round(a[0])
    if len(a) == 1 and isinstance(a[0], SInt): return a[0]
    if len(a) == 1 and isinstance(a[0], SFloat) and vm.float_mode != 'real':
        if vm.branch(z3.fpIsNaN(a[0].t)): raise rz(ValueError)
        if vm.branch(z3.fpIsInf(a[0].t)): raise rz(OverflowError)
        return vm.mkint(z3.Function('fround', FP, z3.IntSort())(a[0].t))
    raise Uns('round')


def b_getattr(vm, a, kw):
    if len(a) < 2 or not isinstance(a[1], str): raise Uns('getattr')
    if len(a) == 2: return vm.getattr(a[0], a[1])
    if isinstance(a[0], Obj): return vm.getattr(a[0], a[1]) if b_hasattr(vm, a[:2], {}) else a[2]
    raise Uns('getattr')


def b_hasattr(vm, a, kw):
    o, n = a
    if isinstance(o, Obj): return n in o.fields or o.cls.has(n)
    if n == '__iter__': return py_isinstance(vm, o, ITERABLE)
    raise Uns('hasattr')


def b_next(vm, a, kw):
    it = a[0]
    if isinstance(it, LazyIter):
        items = as_items(vm, it.src)
        if it.pos < len(items):
            it.pos += 1
            return items[it.pos - 1]
        if len(a) > 1: return a[1]
        raise rz(StopIteration)
    if isinstance(it, GenExp):
        if it.it is None: it.it = vm.comp_iter(it.node, it.env, it.first)
        for x in it.it: return x
        if len(a) > 1: return a[1]
        raise rz(StopIteration)
    if isinstance(it, (SymList, tuple, str, bytes, int, float, PyDict, type(None), SInt)) and not hasattr(it, 'live'): raise rz(TypeError, 'not an iterator')
    raise Uns('next')


def b_abs(vm, x):
    if isinstance(x, (int, float)): return abs(x)
    if isinstance(x, SInt): return vm.mkint(z3.If(x.t >= 0, x.t, -x.t))
    if isinstance(x, SFloat): return SFloat(z3.If(x.t >= 0, x.t, -x.t)) if vm.float_mode == 'real' else SFloat(z3.fpAbs(x.t))
    if isinstance(x, Obj):
        f = x.cls.lookup('__abs__')
        if f: return vm.call(Bound(f, x), [], {})
    raise rz(TypeError, 'abs')


def b_range(vm, a, kw):
    if all(isinstance(x, int) for x in a): return range(*a)
    lo = 0 if len(a) == 1 else a[0]
    hi = a[0] if len(a) == 1 else a[1]
    if not all(vm.isint(x) for x in a):
        if all(vm.kind(x) is not None for x in a): raise rz(TypeError, 'range')
        raise Uns('range')
    lt, ht = vm.T(lo), vm.T(hi)
    if len(a) == 3 and a[2] != 1:
        k = a[2]
        if not isinstance(k, int): raise Uns('range step')
        if k == 0: raise rz(ValueError, 'range() arg 3 must not be zero')
        n = z3.If(ht > lt, (ht - lt + k - 1) / k, z3.IntVal(0)) if k > 0 else z3.If(lt > ht, (lt - ht - k - 1) / -k, z3.IntVal(0))
        return SymSeq('range', n, lambda vm2, i: vm2.mkint(lt + i * k), origin=('range', lo, hi, k))
    n = z3.If(ht > lt, ht - lt, z3.IntVal(0))
    return SymSeq('range', n, lambda vm2, i: vm2.mkint(lt + i), origin=('range', lo, hi))


def b_zip(vm, a, kw):
    r = b_zip_(vm, a, kw)
    live = [y for x in a for y in live_of(x)]
    if live and isinstance(r, (SymList, SymSeq)): r.live = live
    return r


def b_zip_(vm, a, kw):
    if kw: raise Uns('zip keywords')
    if not a: return SymList([])
    segs = [seq_segs(vm, x) for x in a]
    if any(s is None for s in segs): raise Uns('zip')
    if all(k == 'item' for s in segs for k, _ in s):
        return SymList([('item', t) for t in zip(*[[v for _, v in s] for s in segs])])
    if all(len(s) == 1 and s[0][0] == 'base' for s in segs):
        ss = [s[0][1] for s in segs]
        n = ss[0].n
        for s in ss[1:]: n = z3.If(s.n < n, s.n, n)
        return SymSeq('zip', n, lambda vm2, i: tuple(s.elem(vm2, i) for s in ss), origin=('zip',) + tuple(ss))
    raise Uns('zip of mixed sequences')


def b_enumerate(vm, a, kw):
    r = b_enumerate_(vm, a, kw)
    live = [y for x in a for y in live_of(x)]
    if live and isinstance(r, (SymList, SymSeq)): r.live = live
    return r


def b_enumerate_(vm, a, kw):
    if set(kw) - {'start'}: raise rz(TypeError)
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    segs = seq_segs(vm, a[0])
    if segs is None: raise Uns('enumerate')
    if all(k == 'item' for k, _ in segs):
        return SymList([('item', (vm.binop(ast.Add(), start, i), v)) for i, (_, v) in enumerate(segs)])
    if len(segs) == 1:
        s = segs[0][1]
        return SymSeq('enum', s.n, lambda vm2, i: (vm2.mkint(vm2.T(start) + i), s.elem(vm2, i)), origin=('enum', s))
    raise Uns('enumerate')


def b_reversed(vm, a, kw):
    r = b_reversed_(vm, a, kw)
    live = [y for x in a for y in live_of(x)]
    if live and isinstance(r, (SymList, SymSeq)): r.live = live
    return r


def b_reversed_(vm, a, kw):
    if isinstance(a[0], SymList) and conc_items(a[0]) is None:
        return SymList([(k, rev_seq(x)) if k == 'base' else (k, x) for k, x in reversed(a[0].segs)])
    if isinstance(a[0], SymSeq) and not hasattr(a[0], 'live'): return rev_seq(a[0])
    if isinstance(a[0], (GenExp, GenCall, LazyIter, frozenset)): raise Uns('reversed')
    items = as_items(vm, a[0])
    return SymList([('item', x) for x in reversed(items)])


def rev_seq(s):
    at = {}
    if 'byt' in s.attrs: at['rbyt'] = s.attrs['byt']
    if 'rbyt' in s.attrs: at['byt'] = s.attrs['rbyt']
    return SymSeq(s.name + "r", s.n, lambda vm2, i: s.elem(vm2, s.n - 1 - i), origin=('rev', s), **at)


def rev_part(p):
    """The reversed byte string of an opaque part that has one."""
    if isinstance(p, OpaqueBytes) and isinstance(p.origin, tuple) and p.origin[0] == 'rev': return OpaqueBytes(p.origin[1], p.n, ('rev', p.t))
    return None


def byt_of(vm, v, rev=False):
    """Byt term of a byte string or list of bytes (reversed), or None when it has no such term."""
    if isinstance(v, (bytes, SBytes, MBytes)): parts = SBytes([v]).parts
    elif isinstance(v, SymList):
        parts = [x if k == 'item' else (OpaqueBytes(x.attrs['rbyt' if rev else 'byt'], x.n) if 'byt' in x.attrs else None) for k, x in v.segs]
    else: return None
    if rev: parts = list(reversed(parts if isinstance(v, SymList) else [p if isinstance(p, (int, SInt)) else rev_part(p) for p in parts]))
    if not parts: return nilB
    t = nilB
    for i, p in enumerate(reversed(parts)):
        if isinstance(p, OpaqueBytes):
            if i: return None
            t = p.t
        elif isinstance(p, (int, SInt)): t = consB(vm.T(p), t)
        else: return None
    return t


def b_map(vm, a, kw):
    if len(a) == 2:
        segs = seq_segs(vm, a[1])
        if segs is not None and all(k == 'item' for k, _ in segs):
            return SymList([('item', vm.call(a[0], [x], {})) for _, x in segs])
        if segs is not None:
            return SymList([('item', vm.call(a[0], [x], {})) if k == 'item' else ('base', map_seq(vm, x, lambda e: vm.call(a[0], [e], {}))) for k, x in segs])
    raise Uns('map')


def b_all(vm, src, is_all):
    if isinstance(src, GenExp) and len(src.node.generators) == 1 and not src.node.generators[0].ifs:
        g = src.node.generators[0]
        segs = seq_segs(vm, src.first) if src.it is None and not isinstance(src.first, (GenExp, GenCall)) else None
        hook = getattr(vm, 'all_hook', None)
        if segs is not None and any(k == 'base' for k, _ in segs):
            if hook is None or len(segs) != 1: raise Uns('all/any over symbolic sequence')
            world = World(vm, src.env)
            def ev_on(item):
                en = vm.scope(world.frozen, True)
                vm.assign(g.target, item, en)
                r = vm.ev(src.node.elt, en)
                world.check()
                return r
            return hook(vm, segs[0][1], ev_on, is_all)
    if isinstance(src, GenExp):
        if src.it is None: src.it = vm.comp_iter(src.node, src.env, src.first)
        for x in src.it:
            if vm.truth(x) != is_all: return not is_all
        return is_all
    for x in unordered(vm, src) or iter_items(vm, src):
        if vm.truth(x) != is_all: return not is_all
    return is_all


def call_type(vm, t, a, kw):
    if t is int: return b_int(vm, a, kw)
    if t is str: return b_str(vm, a, kw)
    if t is float: return b_float(vm, a, kw)
    if t is bool: return (a[0] if isinstance(a[0], SBool) else vm.mkbool(a[0].t != 0) if isinstance(a[0], SInt) else vm.truth(a[0])) if a else False
    if t is tuple: return tuple(drain(vm, a[0])) if a else ()
    if t is list:
        if not a: return SymList([])
        segs = seq_segs(vm, a[0])
        return SymList(segs if segs is not None else [('item', x) for x in drain(vm, a[0])])
    if t is dict:
        d = PyDict()
        if a and isinstance(a[0], PyDict): d = dict_copy(a[0])
        elif a:
            for it in iter_items(vm, a[0]):
                kv = as_items(vm, it)
                if len(kv) != 2: raise rz(ValueError)
                dict_set(vm, d, *kv)
        for k, v in kw.items(): dict_set(vm, d, k, v)
        return d
    if t in (set, frozenset):
        xs = (unordered(vm, a[0]) or iter_items(vm, a[0])) if a else []
        return mkset(vm, xs)
    if t is bytearray: return MBytes(call_type(vm, bytes, a, kw))
    if t is bytes:
        if not a: return b''
        if isinstance(a[0], MBytes): return a[0].v
        x = a[0]
        if isinstance(x, int):
            if x < 0: raise rz(ValueError)
            if x > 10 ** 6: raise Uns('many bytes')
            return bytes(x)
        if isinstance(x, (bytes, SBytes)): return x
        parts = []
        segs = seq_segs(vm, x) if isinstance(x, (SymList, SymSeq)) else None
        if len(a) > 1 or kw: raise Uns('bytes with an encoding')
        if isinstance(x, (float, SFloat, str, SStr, type(None))): raise rz(TypeError, 'bytes')
        if isinstance(x, (SInt, SBool)): raise Uns('bytes of a symbolic length')
        if segs is None: segs = [('item', v) for v in iter_items(vm, x)]
        for sk, v in segs:
            if sk == 'base':
                if 'byt' not in v.attrs: raise Uns('bytes of symbolic list')
                parts.append(OpaqueBytes(v.attrs['byt'], v.n)); continue
            if isinstance(v, int):
                if not 0 <= v <= 255: raise rz(ValueError, 'bytes')
                parts.append(v)
            elif isinstance(v, SInt):
                if vm.branch(z3.Or(v.t < 0, v.t > 255)): raise rz(ValueError, 'bytes')
                parts.append(v)
            elif vm.kind(v) in ('none', 'str', 'bytes', 'tuple', 'list', 'dict') or isinstance(v, (float, SFloat)): raise rz(TypeError, 'bytes')
            else: raise Uns('bytes')
        return mkbytes(parts)
    if t is type and len(a) == 1:
        return type_of(vm, a[0])
    if issubclass(t, BaseException):
        if kw: raise Uns('exception keywords')
        return ExcVal(t, tuple(a))
    if t is object: return Obj(PyClass('object', [], {}, None))
    raise Uns(f'call {t}')


def type_of(vm, x):
    if isinstance(x, (Obj, NTuple)): return x.cls
    if isinstance(x, ExcVal): return x.cls
    if isinstance(x, (bool, SBool)): return bool
    if isinstance(x, (int, SInt)): return int
    if isinstance(x, (float, SFloat)): return float
    if isinstance(x, (str, SStr)): return str
    if isinstance(x, (bytes, SBytes)): return bytes
    if isinstance(x, MBytes): return bytearray
    if isinstance(x, tuple): return tuple
    if isinstance(x, SymList): return list
    if isinstance(x, PyDict): return dict if x.factory is None else _uns('type()')
    if x is None: return type(None)
    raise Uns('type()')


def dict_copy(d):
    """A shallow copy, as dict.copy() makes."""
    if d.base is not None: raise Uns('copy of a symbolic map')
    r = PyDict(factory=d.factory)
    r.log = [list(x) for x in d.log]
    return r


# ---------------------------------------------------------------------- methods of builtin types
def meth(fn): return Builtin(fn.__name__, fn)


def to_bytes(vm, a, kw):
    x = a[0]
    n = a[1] if len(a) > 1 else kw.get('length', 1)
    order = a[2] if len(a) > 2 else kw.get('byteorder', 'big')
    if kw.get('signed'): raise Uns('to_bytes signed')
    if isinstance(n, SInt):
        if vm.unroll is None and order in ('little', 'big'):
            # symbolic length: x fits n bytes exactly when bit_length(x) <= 8 n
            if vm.branch(n.t < 0): raise rz(ValueError)
            xt = vm.T(x)
            if vm.branch(xt < 0): raise rz(OverflowError)
            if vm.branch(bitlen(xt) > 8 * n.t): raise rz(OverflowError)
            return mkbytes([OpaqueBytes((LEB if order == 'little' else BEB)(xt, n.t), n.t)])
        n = vm.concretize(n.t)
    if n < 0: raise rz(ValueError)
    if isinstance(x, int):
        try: return int(x).to_bytes(n, order)
        except OverflowError: raise rz(OverflowError)
    t = vm.T(x)
    if vm.branch(z3.Or(t < 0, t >= 256 ** n)): raise rz(OverflowError)
    ps = [vm.mkint((t / 256 ** i) % 256) if n > 1 else vm.mkint(t) for i in range(n)]
    if order == 'big': ps.reverse()
    elif order != 'little': raise rz(ValueError)
    return mkbytes(ps)


def mb_extend(vm, o, v):
    if not isinstance(v, (bytes, SBytes, MBytes)): v = call_type(vm, bytes, [v], {})
    o.v = mkbytes([o.v, v])


def from_bytes(vm, a, kw):
    b = a[0]
    order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
    if kw.get('signed'): raise Uns('from_bytes signed')
    if isinstance(b, MBytes): b = b.v
    if isinstance(b, bytes): return int.from_bytes(b, order)
    if not isinstance(b, SBytes): 
        if isinstance(b, SymList): ps = as_items(vm, b)
        else: raise rz(TypeError)
    else: ps = _norm(vm, b.parts)
    if any(isinstance(p, Slice) for p in ps) and len(ps) == 1:
        n = vm.concretize(ps[0].n, 16)
        ps = [SInt(byte_at(vm, ps[0], i)) for i in range(n)]
    if not all(isinstance(p, (int, SInt)) for p in ps): raise Uns('from_bytes of opaque bytes')
    if order == 'little': ps = list(reversed(ps))
    t = z3.IntVal(0)
    for p in ps: t = t * 256 + vm.T(p)
    return vm.mkint(t)


def bit_length(vm, a, kw):
    x = a[0]
    if isinstance(x, int): return x.bit_length()
    if vm.unroll is not None:
        t = x.t
        vm.assume(z3.And(t >= 0, t < 2 ** 96))
        return vm.mkint(z3.Sum([z3.If(t >= 2 ** i, 1, 0) for i in range(96)]))
    return vm.mkint(bitlen(x.t))


def bjoin(vm, a, kw):
    sep, it = a
    if isinstance(sep, (str, SStr)):
        if isinstance(it, GenExp) and len(it.node.generators) == 1: segs = gen_segs(vm, it)
        elif isinstance(it, (SymList, SymSeq, LazyIter, Obj)): segs = seq_segs(vm, it)
        else: segs = [('item', x) for x in as_items(vm, it)]
        if segs is None or any(k == 'base' for k, _ in segs):
            hook = getattr(vm, 'sjoin_hook', None)
            if hook and segs is not None: return hook(vm, sep, segs)
            raise Uns('str join of symbolic list')
        items = [x for _, x in segs]
        parts = []
        for i, x in enumerate(items):
            if not isinstance(x, (str, SStr)): raise rz(TypeError)
            if i: parts.append(sep)
            parts.append(x)
        return mkstr(parts)
    parts = []
    if isinstance(it, (SymList, SymSeq)):
        segs = seq_segs(vm, it)
    elif isinstance(it, GenExp) and len(it.node.generators) == 1:
        segs = gen_segs(vm, it)
    else: segs = [('item', x) for x in iter_items(vm, it)]
    for i, (k, x) in enumerate(segs):
        if i and sep != b'': parts.append(sep)
        if k == 'item':
            if not isinstance(x, (bytes, SBytes, MBytes)): raise rz(TypeError, 'join')
            parts.append(x)
        else:
            if sep != b'': raise Uns('join with separator')
            j = x.attrs.get('joined')
            if j is None:
                hook = getattr(vm, 'join_hook', None)
                j = hook(vm, x) if hook else None
            if j is None: raise Uns('join of symbolic sequence')
            parts.append(j)
    return mkbytes(parts)


def attr(vm, o, name):
    R = lambda fn: Bound(Builtin(name, fn), o)
    if isinstance(o, (int, SInt, SBool)) and not isinstance(o, type):
        if name == 'to_bytes': return R(to_bytes)
        if name == 'bit_length': return R(bit_length)
        if name in ('real', 'numerator'): return o
        if name == 'denominator': return 1
        if name == 'bit_count' and isinstance(o, int): return R(lambda vm, a, kw: a[0].bit_count())
        if name in ('pitch', '_pitch', '_tone', '_duration', '_nominator', 'duration', 'denominator', '_as_triplet', 'tone', 'velocity'):
            raise rz(AttributeError, name)
    if o is int and name == 'from_bytes': return Builtin(name, from_bytes)
    if o is bytes and name == 'fromhex': return Builtin(name, lambda vm, a, kw: bytes.fromhex(a[0]))
    if o is dict and name == 'fromkeys': raise Uns('fromkeys')
    if isinstance(o, (float, SFloat)):
        if name == 'is_integer' and isinstance(o, float): return R(lambda vm, a, kw: a[0].is_integer())
        if name == 'is_integer' and vm.float_mode != 'real':
            return R(lambda vm, a, kw: vm.mkbool(z3.And(z3.Not(z3.fpIsInf(a[0].t)), z3.fpEQ(a[0].t, z3.fpRoundToIntegral(z3.RTZ(), a[0].t)))))
    if isinstance(o, SymList):
        if name == 'append':
            return R(lambda vm, a, kw: a[0].segs.append(('item', a[1])))
        if name == 'extend': return R(lambda vm, a, kw: list_extend(vm, a[0], a[1]))
        if name == 'sort': return R(lambda vm, a, kw: list_sort(vm, a[0], kw))
        if name == 'insert':
            def ins(vm, a, kw):
                l, i, x = a
                if isinstance(i, int) and i == 0: l.segs.insert(0, ('item', x)); return
                if conc_items(l) is None or not isinstance(i, int): raise Uns('insert')
                l.segs.insert(i, ('item', x))
            return R(ins)
        if name == 'reverse':
            def rev(vm, a, kw):
                if conc_items(a[0]) is None: a[0].segs = b_reversed(vm, a, kw).segs; return
                a[0].segs.reverse()
            return R(rev)
        if name == 'pop':
            def pop(vm, a, kw):
                l = a[0]; i = a[1] if len(a) > 1 else -1
                if conc_items(l) is None or not isinstance(i, int): raise Uns('pop')
                try: return l.segs.pop(i)[1]
                except IndexError: raise rz(IndexError)
            return R(pop)
        if name == 'copy': return R(lambda vm, a, kw: a[0].copy())
        if name == 'clear': return R(lambda vm, a, kw: a[0].segs.clear())
        if name in ('count', 'index', 'remove'):
            def lfind(vm, a, kw):
                items = conc_items(a[0])
                if items is None or len(a) > 2: raise Uns(name)
                n = 0
                for i, y in enumerate(items):
                    if vm.truth(vm.item_eq(y, a[1])):
                        if name == 'index': return i
                        if name == 'remove':
                            del a[0].segs[i]
                            return None
                        n += 1
                if name != 'count': raise rz(ValueError, name)
                return n
            return R(lfind)
        if name.startswith('__'): raise Uns(f'list.{name}')
        raise rz(AttributeError, name)
    if isinstance(o, PyDict):
        if name == 'get':
            def get(vm, a, kw):
                v = dict_get(vm, a[0], a[1])
                return (a[2] if len(a) > 2 else None) if v is MISSING else v
            return R(get)
        if name == 'pop':
            def dpop(vm, a, kw):
                v = dict_get(vm, a[0], a[1])
                if v is MISSING:
                    if len(a) > 2: return a[2]
                    raise rz(KeyError)
                delitem(vm, a[0], a[1])
                return v
            return R(dpop)
        if name == 'setdefault':
            def sd(vm, a, kw):
                v = dict_get(vm, a[0], a[1])
                if v is MISSING:
                    v = a[2] if len(a) > 2 else None
                    dict_set(vm, a[0], a[1], v)
                return v
            return R(sd)
        if name in ('items', 'values', 'keys'): return R(lambda vm, a, kw: dict_view(vm, a[0], name))
        if name == 'copy': return R(lambda vm, a, kw: dict_copy(a[0]))
        if name == 'clear':
            def dclear(vm, a, kw):
                if a[0].base is not None: raise Uns('clear of a symbolic map')
                a[0].log.clear()
            return R(dclear)
        if name == 'update':
            def upd(vm, a, kw):
                for o in a[1:]:
                    if not isinstance(o, PyDict) or o.base is not None: raise Uns('dict.update')
                    for k, v in o.log:
                        if v is not TOMB: dict_set(vm, a[0], k, v)
                for k, v in kw.items(): dict_set(vm, a[0], k, v)
                return None
            return R(upd)
        if name.startswith('__') or hasattr(dict, name) or o.factory is not None: raise Uns(f'dict.{name}')
        raise rz(AttributeError, name)
    if isinstance(o, MBytes):
        if name == 'append': return R(lambda vm, a, kw: mb_extend(vm, a[0], SymList([('item', a[1])])))
        if name == 'extend': return R(lambda vm, a, kw: mb_extend(vm, a[0], a[1]))
        if name == 'insert':
            def mins(vm, a, kw):
                if not isinstance(a[1], int) or a[1] != 0: raise Uns('bytearray.insert')
                a[0].v = mkbytes([call_type(vm, bytes, [SymList([('item', a[2])])], {}), a[0].v])
            return R(mins)
        if name == 'reverse':
            def mrev(vm, a, kw):
                ps = SBytes([a[0].v]).parts
                a[0].v = mkbytes([p if isinstance(p, (int, SInt)) else rev_part(p) or _uns('bytearray.reverse') for p in reversed(ps)])
            return R(mrev)
        if name == 'copy': return R(lambda vm, a, kw: a[0].copy())
        raise Uns(f'bytearray.{name}')
    if isinstance(o, (bytes, SBytes)):
        if name == 'join': return R(bjoin)
        if name == 'hex' and isinstance(o, bytes): return R(lambda vm, a, kw: a[0].hex())
        if name == 'tobytes': return R(lambda vm, a, kw: a[0])
    if isinstance(o, (str, SStr)):
        if name == 'join': return R(bjoin)
        if isinstance(o, SStr) and name in ('startswith', 'endswith'):
            def stw(vm, a, kw):
                s, pre = a[0], a[1:]
                if len(pre) != 1: raise Uns(name)
                alts = pre[0] if isinstance(pre[0], tuple) else (pre[0],)
                if not all(isinstance(x, str) for x in alts): raise Uns(name)
                end = s.parts[0 if name == 'startswith' else -1]
                if not isinstance(end, str) or any(len(x) > len(end) for x in alts): raise Uns(name)
                return getattr(end, name)(tuple(alts))
            return R(stw)
        if isinstance(o, str) and name in ('index', 'rfind', 'isalpha', 'isupper', 'islower', 'isalnum', 'isspace', 'title', 'capitalize', 'splitlines', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'zfill', 'ljust', 'rjust', 'center', 'isdecimal', 'isnumeric', 'swapcase', 'casefold', 'translate', 'rsplit', 'rindex'):
            def sm2(vm, a, kw):
                if kw or not all(isinstance(x, (str, int, type(None))) for x in a): raise Uns(f'str.{name}')
                try: r = getattr(a[0], name)(*a[1:])
                except (ValueError, TypeError) as e: raise rz(type(e))
                return SymList([('item', x) for x in r]) if isinstance(r, list) else r
            return R(sm2)
        if isinstance(o, str) and name in ('upper', 'lower', 'strip', 'startswith', 'endswith', 'split', 'count', 'replace', 'find', 'isdigit', 'encode', 'lstrip', 'rstrip'):
            def sm(vm, a, kw):
                if kw or not all(isinstance(x, (str, int, type(None), tuple)) for x in a): raise Uns(f'str.{name}')
                try: r = getattr(a[0], name)(*a[1:])
                except (ValueError, TypeError) as e: raise rz(type(e))
                return SymList([('item', x) for x in r]) if isinstance(r, list) else r
            return R(sm)
        if name == 'count' and isinstance(o, SStr):
            def cnt(vm, a, kw):
                s, ch = a
                if ch not in ('#', 'b'): raise Uns('count')
                t = 0
                for p in s.parts:
                    if isinstance(p, str): t = vm.binop(ast.Add(), t, p.count(ch))
                    elif isinstance(p, Acc): t = vm.binop(ast.Add(), t, p.sharps if ch == '#' else p.flats)
                    elif isinstance(p, (Dec, DigTxt)): pass
                    else: raise Uns('count')
                return t
            return R(cnt)
        if name == 'format' and isinstance(o, str):
            def sf(vm, a, kw):
                import string
                out, auto = [], 0
                for lit, fld, spec, conv in string.Formatter().parse(a[0]):
                    out.append(lit)
                    if fld is None: continue
                    if fld == '': v = a[1 + auto]; auto += 1
                    elif fld.isdigit(): v = a[1 + int(fld)]
                    elif fld in kw: v = kw[fld]
                    else: raise Uns('format field')
                    if conv == 'r': v = b_repr(vm, [v], {})
                    elif conv == 's': v = b_str(vm, [v], {})
                    out.append(fmt(vm, v, spec or ''))
                return mkstr(out)
            return R(sf)
        if isinstance(o, SStr) and name.startswith('_') or name in ('pitch', 'tone', 'duration'): raise rz(AttributeError, name)
    if isinstance(o, StructV):
        import struct as st_
        if name == 'size': return st_.calcsize(o.f)
        if name == 'format': return o.f
        if name == 'pack': return Builtin(name, lambda vm, a, kw: struct_pack(vm, [o.f] + list(a), kw))
        if name == 'unpack': return Builtin(name, lambda vm, a, kw: struct_unpack(vm, [o.f] + list(a), kw))
    if isinstance(o, Builtin) and name in getattr(o, 'attrs', {}): return o.attrs[name]
    if isinstance(o, RegexV):
        if name in ('match', 'fullmatch'): return R(lambda vm, a, kw: re_match(vm, a[0], a[1], name == 'fullmatch') if isinstance(a[1], (str, SStr)) else _raise_type())
    if isinstance(o, MatchV):
        if name == 'group':
            return R(lambda vm, a, kw: a[0].groups[a[1] if len(a) > 1 else 0] if len(a) <= 2 else tuple(a[0].groups[x] for x in a[1:]))
        if name == 'groups': return R(lambda vm, a, kw: tuple(a[0].groups[i] for i in range(1, 1 + max([k for k in a[0].groups if isinstance(k, int)]))))
        if name == 'groupdict': return R(lambda vm, a, kw: PyDict([[k, v] for k, v in a[0].groups.items() if isinstance(k, str)]))
        if name == 'end' or name == 'start' or name == 'span': raise Uns('match position')
    if isinstance(o, FileObj):
        if name == 'closed': return o.closed
        if name == 'close':
            def close(vm, a, kw): a[0].closed = True
            return R(close)
        if o.closed:
            def closed(vm, a, kw): raise rz(ValueError, 'I/O operation on closed file.')
            return R(closed)
        if name == 'read': return R(file_read)
        if name == 'write':
            def wr(vm, a, kw):
                x = a[1].v if isinstance(a[1], MBytes) else a[1]
                if not isinstance(x, (bytes, SBytes)): 
                    if vm.kind(x) is not None: raise rz(TypeError, 'write')
                    raise Uns('write')
                a[0].out.append(x)
                try: return length(vm, x)
                except _E().Unsupported: return Poison('length of what was written')
            return R(wr)
        if name in ('getvalue', 'getbuffer'): return R(lambda vm, a, kw: mkbytes(a[0].out) if a[0].blob is None else _uns('getvalue of a file that is read'))
        if name == 'tell' and o.blob is not None: return R(lambda vm, a, kw: a[0].pos if isinstance(a[0].pos, int) else vm.mkint(vm.T(a[0].pos) if not z3.is_expr(a[0].pos) else a[0].pos))
        if name == 'flush': return R(lambda vm, a, kw: None)
    if isinstance(o, (tuple, type(None), LazyIter, Bound, ExcVal)) and (name.startswith('_') and not name.startswith('__') or name in ('pitch', 'tone', 'duration', 'denominator')): raise rz(AttributeError, name)
    if o is None: raise rz(AttributeError, name)
    if isinstance(o, ExcVal) and name == 'args': return o.args
    if isinstance(o, type) and name == '__name__': return o.__name__
    raise Uns(f'attribute {name} of {type(o).__name__}')


def _raise_type(): raise rz(TypeError)


STRUCT = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'I': (4, False), 'i': (4, True), 'L': (4, False), 'l': (4, True), 'Q': (8, False), 'q': (8, True)}


def struct_fmt(f):
    if isinstance(f, bytes): f = f.decode()
    if not isinstance(f, str): raise Uns('struct format')
    order = 'little'
    if f[:1] in ('>', '!', '<', '='):
        order = 'little' if f[0] in '<=' else 'big'
        f = f[1:]
    elif any(c in 'HhIiLlQq' for c in f): raise Uns('struct format with native sizes')
    out = []
    for n, c in re.findall(r'(\d*)([A-Za-z?])', f.replace(' ', '')):
        if c == 's': out.append(('s', int(n or 1), None))
        elif c == 'x': out += [('x', 1, None)] * int(n or 1)
        elif c in STRUCT: out += [('i',) + STRUCT[c]] * int(n or 1)
        else: raise Uns('struct format')
    return order, out


def struct_pack(vm, a, kw):
    import struct as st_
    order, codes = struct_fmt(a[0])
    vals = list(a[1:])
    if len(vals) != sum(1 for c in codes if c[0] != 'x'): raise rz(st_.error)
    parts = []
    for kind, n, signed in codes:
        if kind == 'x': parts.append(b'\0'); continue
        v = vals.pop(0)
        if kind == 's':
            if not isinstance(v, bytes): raise Uns('struct.pack of symbolic bytes')
            parts.append(st_.pack(f'{n}s', v)); continue
        if not vm.isint(v):
            if vm.kind(v) is not None: raise rz(st_.error)
            raise Uns('struct.pack')
        t = vm.T(v)
        lo, hi = (-(1 << (8 * n - 1)), 1 << (8 * n - 1)) if signed else (0, 1 << (8 * n))
        if vm.branch(z3.Or(t < lo, t >= hi)): raise rz(st_.error)
        if signed: t = z3.If(t < 0, t + (1 << (8 * n)), t)
        parts.append(to_bytes(vm, [vm.mkint(t), n, order], {}))
    return mkbytes(parts)


def struct_unpack(vm, a, kw):
    import struct as st_
    order, codes = struct_fmt(a[0])
    data = a[1].v if isinstance(a[1], MBytes) else a[1]
    if not isinstance(data, (bytes, SBytes)): raise Uns('struct.unpack') if vm.kind(data) is None else rz(TypeError)
    total = sum(n for _, n, _ in codes)
    if vm.truth(vm.cmp('NotEq', length(vm, data), total)): raise rz(st_.error)
    out, pos = [], 0
    for kind, n, signed in codes:
        if kind == 's': out.append(getslice(vm, data, pos, pos + n, None))
        elif kind == 'i':
            bs = [getitem(vm, data, pos + i) for i in range(n)]
            if order == 'little': bs.reverse()
            t = z3.IntVal(0)
            for x in bs: t = t * 256 + vm.T(x)
            if signed: t = z3.If(t >= (1 << (8 * n - 1)), t - (1 << (8 * n)), t)
            out.append(vm.mkint(t))
        pos += n
    return tuple(out)


class StructV:
    def __init__(self, f): self.f = f


def ctx_gen(g):
    if not isinstance(g, GenCall): raise Uns('contextmanager')
    return g


def file_read(vm, a, kw):
    f = a[0]
    if f.blob is None and f.conc is None: raise Uns('read of output file')
    n = a[1] if len(a) > 1 else None
    L, pos = f.blob.n, f.pos
    pt = vm.T(pos) if not z3.is_expr(pos) else pos
    rem = L - pt
    if n is None:
        r = Slice(f.blob, pt, z3.simplify(rem)); f.pos = L
        return mkbytes([r])
    nt = vm.T(n)
    if vm.branch(nt < 0): raise Uns('negative read')
    if vm.branch(nt >= 2 ** 63): raise rz(OverflowError, 'Python int too large to convert to C ssize_t')
    if vm.branch(rem <= 0): return b''
    if vm.branch(nt <= rem): k = nt
    else: k = rem
    f.pos = z3.simplify(pt + k)
    if z3.is_int_value(z3.simplify(k)) and z3.simplify(k).as_long() == 0: return b''
    return mkbytes([Slice(f.blob, pt, z3.simplify(k))])


def dict_view(vm, d, what):
    if d.base is not None:
        if d.log: raise Uns('iteration of a modified symbolic map')
        hook = getattr(vm, 'dict_view_hook', None)
        if hook: return hook(vm, d, what)
        raise Uns('iteration of a symbolic map')
    items = [(k, v) for k, v in d.log if v is not TOMB]
    l = SymList([('item', (k, v) if what == 'items' else k if what == 'keys' else v) for k, v in items])
    l.live = [d]
    return l


# ---------------------------------------------------------------------- std modules
def std_module(vm, name):
    ns = {}
    b = lambda n, fn: ns.__setitem__(n, Builtin(n, fn))
    if name in ('typing', 'collections.abc'):
        for n in ('Tuple', 'Union', 'List', 'Optional', 'Dict', 'Generator', 'BinaryIO', 'Iterator', 'Callable', 'Any',
                  'NamedTuple', 'Protocol', 'Generic', 'Literal', 'AnyStr', 'Hashable', 'Sized', 'SupportsInt', 'SupportsFloat', 'Annotated', 'Self', 'TypedDict', 'Deque', 'DefaultDict', 'Counter', 'Text', 'MutableSequence', 'Type', 'Set', 'FrozenSet', 'IO', 'cast', 'overload', 'ClassVar', 'Final', 'Mapping', 'Collection', 'NoReturn'):
            ns[n] = TypingV(n)
        ns['Iterable'] = ITERABLE
        ns['Sequence'] = SEQUENCE
        ns['TYPE_CHECKING'] = False
        b('cast', lambda vm, a, kw: a[1])
    elif name == 'heapq':
        def heappush(vm, a, kw):
            l, x = a
            items = conc_items(l)
            if items is not None and not getattr(vm, 'heap_hook', None):
                import itertools
                # CPython's sift-down, by symbolic comparison
                items = items + [x]
                pos = len(items) - 1
                while pos > 0:
                    par = (pos - 1) >> 1
                    if vm.truth(vm.cmp('Lt', x, items[par])):
                        items[pos] = items[par]; pos = par
                    else: break
                items[pos] = x
                l.segs = [('item', v) for v in items]
                return None
            hook = getattr(vm, 'heap_hook', None)
            if hook is None: raise Uns('heappush on symbolic list')
            return hook(vm, l, x)
        b('heappush', heappush)
        def heapify(vm, a, kw):
            hook = getattr(vm, 'perm_hook', None)
            if conc_items(a[0]) is not None and len(a[0].segs) <= 1: return None
            if hook is None: raise Uns('heapify')
            return hook(vm, a[0])
        b('heapify', heapify)
        def heappop(vm, a, kw):
            l = a[0]
            items = conc_items(l)
            if items is None or getattr(vm, 'heap_hook', None) or len(items) > 8: raise Uns('heappop')
            if not items: raise rz(IndexError)
            # CPython's algorithm, by symbolic comparison
            lt = lambda x, y: vm.truth(vm.cmp('Lt', x, y))
            last = items.pop()
            if items:
                ret, items[0] = items[0], last
                end, pos, start = len(items), 0, 0
                new = items[pos]
                child = 2 * pos + 1
                while child < end:
                    right = child + 1
                    if right < end and not lt(items[child], items[right]): child = right
                    items[pos] = items[child]
                    pos = child
                    child = 2 * pos + 1
                items[pos] = new
                while pos > start:
                    par = (pos - 1) >> 1
                    if lt(new, items[par]):
                        items[pos] = items[par]; pos = par
                        continue
                    break
                items[pos] = new
            else: ret = last
            l.segs = [('item', v) for v in items]
            return ret
        b('heappop', heappop)
    elif name == 'io':
        def bio(vm, a, kw):
            f = FileObj()
            if a:
                x = a[0]
                if isinstance(x, bytes):
                    blob = Blob(vm.fresh_name('conc'), z3.IntVal(len(x)))
                    for i, c in enumerate(x): vm.path.pc.append(blob.f(z3.IntVal(i)) == c)
                    f.blob, f.pos = blob, 0
                elif isinstance(x, SBytes) and len(x.parts) == 1 and isinstance(x.parts[0], Slice) and x.parts[0].blob.n is x.parts[0].n:
                    f.blob, f.pos = x.parts[0].blob, 0
                elif isinstance(x, SBytes): raise Uns('BytesIO of composite bytes')
                else: raise rz(TypeError)
            return f
        b('BytesIO', bio)
    elif name == 're':
        b('compile', lambda vm, a, kw: RegexV(a[0], a[1] if len(a) > 1 else 0))
        b('match', lambda vm, a, kw: re_match(vm, RegexV(a[0]), a[1], False))
        b('fullmatch', lambda vm, a, kw: re_match(vm, RegexV(a[0]), a[1], True))
    elif name == 'math':
        def sqrt(vm, a, kw):
            x = a[0]
            if isinstance(x, (int, float)):
                try: return math.sqrt(x)
                except ValueError: raise rz(ValueError)
            r = SFloat(z3.Function('fsqrt', FP, FP)(vm.F(x)))
            if vm.branch(z3.fpLT(vm.F(x), z3.FPVal(0.0, FP))): raise rz(ValueError)
            return r
        b('sqrt', sqrt)
        def gcd(vm, a, kw):
            if len(a) == 2 and all(isinstance(x, int) for x in a): return math.gcd(*a)
            if len(a) != 2 or not all(vm.isint(x) for x in a): raise Uns('math.gcd')
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                n, d = vm.T(x), vm.T(y)
                if not vm.valid(z3.And(isp2(d), n >= 0)): continue
                # the gcd with a power of two: a power of two, and what is left has no common factor 2
                g = vm.fresh_int('gcd', 1).t
                vm.assume(z3.And(isp2(g), isp2(d / g), d == g * (d / g), n == g * (n / g), d / g >= 1, n / g >= 0, g <= d, z3.Or(d / g == 1, (n / g) % 2 == 1)))
                return vm.mkint(g)
            raise Uns('math.gcd')
        b('gcd', gcd)
        b('log2', lambda vm, a, kw: _uns('log2'))
        def fltpred(name, term):
            def fn(vm, a, kw):
                x = a[0]
                if isinstance(x, (int, float)): return getattr(math, name)(x)
                if isinstance(x, SInt): return name == 'isfinite'
                if isinstance(x, SFloat) and vm.float_mode != 'real': return vm.mkbool(term(x.t))
                raise Uns(name)
            b(name, fn)
        fltpred('isnan', z3.fpIsNaN)
        fltpred('isinf', z3.fpIsInf)
        fltpred('isfinite', lambda t: z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
        def rounding(name):
            def fn(vm, a, kw):
                x = a[0]
                if isinstance(x, (int, float)):
                    try: return getattr(math, name)(x)
                    except (ValueError, OverflowError) as e: raise rz(type(e))
                if isinstance(x, SInt): return x
                if isinstance(x, SFloat) and vm.float_mode != 'real':
                    if vm.branch(z3.fpIsNaN(x.t)): raise rz(ValueError)
                    if vm.branch(z3.fpIsInf(x.t)): raise rz(OverflowError)
                    if name == 'trunc' or name == 'floor' and vm.valid(z3.fpLEQ(z3.FPVal(0.0, FP), x.t)): return vm.mkint(f2i(x.t))
                raise Uns(name)
            b(name, fn)
        for n_ in ('floor', 'ceil', 'trunc'): rounding(n_)
        ns['pi'], ns['inf'], ns['nan'], ns['e'], ns['tau'] = math.pi, math.inf, math.nan, math.e, math.tau
    elif name == 'random':
        b('gauss', lambda vm, a, kw: vm.fresh_float('gauss'))
        b('random', lambda vm, a, kw: vm.fresh_float('rnd'))
        b('uniform', lambda vm, a, kw: vm.fresh_float('rnd'))
        b('normalvariate', lambda vm, a, kw: vm.fresh_float('gauss'))
    elif name == 'collections':
        b('defaultdict', lambda vm, a, kw: PyDict(factory=a[0] if a else None))
        b('OrderedDict', lambda vm, a, kw: call_type(vm, dict, a, kw))
        def namedtuple(vm, a, kw):
            names = a[1]
            if isinstance(names, str): names = names.replace(',', ' ').split()
            elif isinstance(names, (tuple, SymList)): names = as_items(vm, names)
            if len(a) != 2 or set(kw) - {'defaults'} or not isinstance(a[0], str) or not all(isinstance(n, str) and n.isidentifier() for n in names): raise Uns('namedtuple')
            cls = PyClass(a[0], [], {}, None)
            d = list(as_items(vm, kw['defaults'])) if kw.get('defaults') is not None else []
            if len(d) > len(names): raise rz(TypeError)
            cls.nt_fields = [(n, Poison('nodefault')) for n in names[:len(names) - len(d)]] + list(zip(names[len(names) - len(d):], d))
            return cls
        b('namedtuple', namedtuple)
    elif name == 'dataclasses':
        b('dataclass', lambda vm, a, kw: Builtin('dataclass', lambda v, aa, k: aa[0]))
    elif name == 'operator':
        b('itemgetter', lambda vm, a, kw: Itemgetter(a[0]) if len(a) == 1 else Builtin('itemgetter', lambda v, x, k: tuple(v.getitem(x[0], i) for i in a)))
        def attrgetter(vm, a, kw):
            def get(v, o, path):
                for n in path.split('.'): o = v.getattr(o, n)
                return o
            return Builtin('attrgetter', lambda v, x, k: get(v, x[0], a[0]) if len(a) == 1 else tuple(get(v, x[0], p) for p in a))
        b('attrgetter', attrgetter)
        b('methodcaller', lambda vm, a, kw: Builtin('methodcaller', lambda v, x, k: v.call(v.getattr(x[0], a[0]), list(a[1:]), dict(kw))))
        for n_, op in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('floordiv', ast.FloorDiv), ('mod', ast.Mod), ('truediv', ast.Div), ('and_', ast.BitAnd),
                       ('or_', ast.BitOr), ('xor', ast.BitXor), ('lshift', ast.LShift), ('rshift', ast.RShift), ('pow', ast.Pow), ('concat', ast.Add)):
            b(n_, lambda vm, a, kw, op=op: vm.binop(op(), a[0], a[1]))
        for n_, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
            b(n_, lambda vm, a, kw, op=op: vm.cmp(op, a[0], a[1]))
        b('neg', lambda vm, a, kw: vm.binop(ast.Sub(), 0, a[0]) if vm.isint(a[0]) else _uns('neg'))
        b('not_', lambda vm, a, kw: not vm.truth(a[0]))
        b('truth', lambda vm, a, kw: vm.truth(a[0]))
        b('is_', lambda vm, a, kw: vm.is_(a[0], a[1]))
        b('is_not', lambda vm, a, kw: vm.bnot(vm.is_(a[0], a[1])))
        b('contains', lambda vm, a, kw: contains(vm, a[0], a[1]))
        b('getitem', lambda vm, a, kw: vm.getitem(a[0], a[1]))
        b('index', lambda vm, a, kw: a[0] if isinstance(a[0], (int, SInt)) else _uns('index'))
    elif name == 'functools':
        def reduce(vm, a, kw):
            if isinstance(a[1], frozenset): raise Uns('reduce')
            items = iter_items(vm, a[1])
            if len(a) > 2: items = [a[2]] + list(items)
            if not items: raise rz(TypeError)
            r = items[0]
            for x in items[1:]: r = vm.call(a[0], [r, x], {})
            return r
        b('reduce', reduce)
        b('partial', lambda vm, a, kw: Partial(a[0], a[1:], kw))
        b('total_ordering', lambda vm, a, kw: _uns('total_ordering'))
        b('wraps', lambda vm, a, kw: Builtin('wraps', lambda v, x, k: x[0]))
        b('cached_property', lambda vm, a, kw: CachedM(a[0]))
        b('cache', lambda vm, a, kw: Cached(a[0]) if isinstance(a[0], PyFunc) and not a[0].node.args.vararg else _uns('cache'))
        b('lru_cache', lambda vm, a, kw: Cached(a[0]) if a and isinstance(a[0], PyFunc) else Builtin('lru_cache', lambda v, x, k: Cached(x[0])))
    elif name == 'itertools':
        def conc(vm, x):
            if isinstance(x, frozenset): raise Uns('order of the elements of a set')
            segs = seq_segs(vm, x)
            if segs is None: segs = [('item', y) for y in iter_items(vm, x)]
            if any(k == 'base' for k, _ in segs): raise Uns('itertools on a symbolic sequence')
            return [y for _, y in segs]
        L = lambda xs: LazyIter(SymList([('item', x) for x in xs]))
        import itertools as it_
        def zl(vm, a, kw):
            if set(kw) - {'fillvalue'}: raise rz(TypeError)
            return L(it_.zip_longest(*[conc(vm, x) for x in a], fillvalue=kw.get('fillvalue')))
        b('zip_longest', zl)
        def chain(vm, a, kw):
            segs = []
            for x in a:
                ss = seq_segs(vm, x)
                segs += ss if ss is not None else [('item', y) for y in iter_items(vm, x)]
            return SymList(segs)
        ns['chain'] = Builtin('chain', chain)
        ns['chain'].attrs = {'from_iterable': Builtin('from_iterable', lambda vm, a, kw: chain(vm, conc(vm, a[0]), {}))}
        def islice(vm, a, kw):
            if not all(x is None or isinstance(x, int) for x in a[1:]): raise Uns('islice')
            if isinstance(a[0], (LazyIter, GenExp, GenCall)): raise Uns('islice of an iterator')
            try: return L(it_.islice(conc(vm, a[0]), *a[1:]))
            except ValueError: raise rz(ValueError)
        b('islice', islice)
        b('takewhile', lambda vm, a, kw: L(it_.takewhile(lambda x: vm.truth(vm.call(a[0], [x], {})), conc(vm, a[1]))))
        b('dropwhile', lambda vm, a, kw: L(it_.dropwhile(lambda x: vm.truth(vm.call(a[0], [x], {})), conc(vm, a[1]))))
        b('pairwise', lambda vm, a, kw: L(it_.pairwise(conc(vm, a[0]))))
        b('product', lambda vm, a, kw: L(it_.product(*[conc(vm, x) for x in a])) if not kw else _uns('product'))
        b('repeat', lambda vm, a, kw: L([a[0]] * max(0, a[1])) if len(a) == 2 and isinstance(a[1], int) and a[1] < 1000 else _uns('repeat'))
        def accumulate(vm, a, kw):
            fn = a[1] if len(a) > 1 else kw.get('func')
            out = [kw['initial']] if kw.get('initial') is not None else []
            for x in conc(vm, a[0]):
                out.append(x if not out else vm.binop(ast.Add(), out[-1], x) if fn is None else vm.call(fn, [out[-1], x], {}))
            return L(out)
        b('accumulate', accumulate)
        b('starmap', lambda vm, a, kw: L([vm.call(a[0], as_items(vm, x), {}) for x in conc(vm, a[1])]))
    elif name == 'contextlib':
        b('suppress', lambda vm, a, kw: Suppress(list(a)))
        b('contextmanager', lambda vm, a, kw: Builtin('contextmanager', lambda v, x, k: CtxV(ctx_gen(v.call(a[0], x, k)))))
    elif name == 'struct':
        import struct as st_
        ns['error'] = st_.error
        b('pack', struct_pack)
        b('unpack', struct_unpack)
        b('calcsize', lambda vm, a, kw: st_.calcsize(a[0]))
        def unpack_from(vm, a, kw):
            if kw or len(a) < 2: raise Uns('unpack_from')
            off = a[2] if len(a) > 2 else 0
            n = st_.calcsize(a[0])
            if not isinstance(off, int) or off < 0: raise Uns('unpack_from')
            if vm.truth(vm.cmp('Lt', length(vm, a[1]), off + n)): raise rz(st_.error)
            return struct_unpack(vm, [a[0], getslice(vm, a[1], off, off + n, None)], {})
        b('unpack_from', unpack_from)
        def Struct(vm, a, kw):
            return StructV(a[0])
        b('Struct', Struct)
    elif name == 'enum':
        for n in ('Enum', 'IntEnum'): ns[n] = TypingV(n)
        b('auto', lambda vm, a, kw: Auto())
        b('unique', lambda vm, a, kw: a[0])
    elif name == 'abc':
        ns['ABC'], ns['ABCMeta'] = TypingV('ABC'), TypingV('ABCMeta')
        b('abstractmethod', lambda vm, a, kw: AbstractM(a[0]))
    elif name == 'fractions':
        b('Fraction', lambda vm, a, kw: _uns('Fraction'))
    elif name == 'bisect':
        def insort(vm, a, kw, n_of):
            hook = getattr(vm, 'insort_hook', None)
            if hook is None and len(a) == 2 and not kw and conc_items(a[0]) is not None:
                i = ns['bisect_left' if n_of[0] == 'insort_left' else 'bisect_right'].fn(vm, a, kw)
                a[0].segs.insert(i, ('item', a[1]))
                return None
            if hook is None or len(a) != 2 or kw: raise Uns('insort')
            return hook(vm, a[0], a[1])
        def bsearch(left):
            def fn(vm, a, kw):
                if kw or len(a) != 2: raise Uns('bisect')
                items = conc_items(a[0]) if isinstance(a[0], SymList) else list(a[0]) if isinstance(a[0], tuple) else None
                if items is None: raise Uns('bisect')
                lo, hi = 0, len(items)
                while lo < hi:                       # CPython's search, by symbolic comparison
                    mid = (lo + hi) // 2
                    if vm.truth(vm.cmp('Lt', items[mid], a[1]) if left else vm.cmp('Lt', a[1], items[mid])) == left: lo = mid + 1
                    else: hi = mid
                return lo
            return fn
        b('bisect_left', bsearch(True)); b('bisect_right', bsearch(False)); b('bisect', bsearch(False))
        for n_ in ('insort', 'insort_left', 'insort_right'): b(n_, lambda vm, a, kw, n_=n_: insort(vm, a, kw, (n_,)))
    elif name in ('argparse', 'copy', 'sys', 'os', 'string', 'numbers', 'warnings', 'logging'):
        pass
    else:
        raise Uns(f'import {name}')
    return Module(name, ns)
