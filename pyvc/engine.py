"""Path-exploring symbolic interpreter for the Python subset used by melodia.

The functions are extracted mechanically (ast) from /repo's working tree on every run.  Paths are explored by
re-execution with a decision trace, so heap objects are plain mutable Python objects of the interpreter.
Loops over symbolic data are cut with loop specifications (see loops.py) or unrolled up to a stated bound.
"""
import ast, builtins as builtins_, os, time
import z3
from .values import *
from . import theory


_feas = {}


class Unsupported(Exception): pass
class PathEnd(Exception): pass
class BoundHit(Exception): pass
class Restart(Exception): pass
class BudgetExceeded(Exception): pass


class PyRaise(Exception):
    def __init__(self, exc): self.exc = exc
class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(self, frame, value): self.frame, self.value = frame, value
class GenBreak(Exception):
    def __init__(self, token): self.token = token


def rz(name, *args):
    if os.environ.get('PYVC_RAISES'): import traceback; print('RAISES', name, args, *traceback.format_stack(limit=int(os.environ['PYVC_RAISES']))[:-1])
    return PyRaise(ExcVal(name, args))


class Env:
    def __init__(self, genv, parent=None, qual=''):
        self.vars, self.parent, self.genv, self.qual = {}, parent, genv, qual
        self.nonlocals, self.globals_ = set(), set()
        self.on_yield = None
        self.consumer = None
        self.func = None
        self.collect = None
        self.locals_ = None        # the names a function binds: never looked up further out
        self.is_comp = False
    def find(self, name):
        e = self
        while e is not None:
            if name in e.globals_: return None
            if name not in e.nonlocals:
                if name in e.vars: return e
                if e.locals_ is not None and name in e.locals_: raise rz(UnboundLocalError if e is self or self.is_comp else NameError, name)
            e = e.parent
            while e is not None and getattr(e, 'is_class', False) and e is not self: e = e.parent     # a class body is no enclosing scope
        return None


def local_names(node):
    """The names a function binds (parameters apart): Python decides this before the function runs."""
    out, free = set(), set()
    def walk(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list: walk(d)
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): comp = True
        if isinstance(n, ast.NamedExpr): out.add(n.target.id)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp: out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)): out.update((a.asname or a.name).split('.')[0] for a in n.names)
        if isinstance(n, (ast.Global, ast.Nonlocal)): free.update(n.names)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: out.add(n.name)
        for c in ast.iter_child_nodes(n): walk(c, comp)
    for b in node.body if isinstance(node.body, list) else [node.body]: walk(b)
    return frozenset(out - free)


NODEFAULT = object()

# methods with which Python changes what an operation on an object means: nothing here looks at them
UNMODELLED = ('__new__', '__getattr__', '__getattribute__', '__setattr__', '__delattr__', '__init_subclass__', '__class_getitem__', '__set_name__',
              '__instancecheck__', '__subclasscheck__', '__del__', '__dict__', '__prepare__')


def _total(root):
    lt, refl = root, {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[root]
    strict = root in ('__lt__', '__gt__')
    # functools.total_ordering, written out: from one operation the three others
    neg = {'__lt__': '__ge__', '__gt__': '__le__', '__le__': '__gt__', '__ge__': '__lt__'}[root]
    other = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}[root]
    weak = {'__lt__': '__le__', '__gt__': '__ge__', '__le__': '__lt__', '__ge__': '__gt__'}[root]
    head = 'def {}(self, other):\n    r = type(self).%s(self, other)\n    if r is NotImplemented: return r\n    return ' % root
    if strict:
        return {other: head.format(other) + 'not r and self != other', weak: head.format(weak) + 'r or self == other', neg: head.format(neg) + 'not r'}
    return {other: head.format(other) + 'not r or self == other', weak: head.format(weak) + 'r and self != other', neg: head.format(neg) + 'not r'}


TOTAL_ORDERING = {m: _total(m) for m in ('__lt__', '__gt__', '__le__', '__ge__')}


def _uns_(m): raise Unsupported(m)
def LazyIter_():
    from . import stdlib
    return stdlib.LazyIter


LIST_EQ = ast.parse('len(a) == len(b) and all(x == y for x, y in zip(a, b))', mode='eval').body


_mutable = {}
MUTATING = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'remove', 'discard', 'clear', 'setdefault', 'sort', 'reverse', 'appendleft',
            'popleft', 'extendleft', 'rotate', 'write', 'seek', 'read', 'send', 'throw', 'close', 'subtract', 'move_to_end', '__setitem__', '__delitem__', '__setattr__'}
MUTATING_FUNCS = {'heappush', 'heapify', 'heappop', 'heapreplace', 'heappushpop', 'insort', 'insort_left', 'insort_right', 'next', 'setattr', 'delattr', 'shuffle'}


def mutable_state(root):
    """Module-level names and class attributes that some function of the package changes (syntactically).  What a function reads
    from them depends on the calls before, so a contract over one call says nothing: reading them is Unsupported."""
    if root in _mutable: return _mutable[root]
    names, attrs, items = set(), set(), set()
    chains = []
    for base, _, files in os.walk(os.path.join(root, 'melodia')):
        for fn in sorted(files):
            if not fn.endswith('.py'): continue
            with open(os.path.join(base, fn)) as fh: tree = ast.parse(fh.read())
            def params(f):
                a = f.args
                return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
            def visit(n, bound, infunc):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    for d in getattr(n, 'decorator_list', []): visit(d, bound, infunc)
                    b2 = bound | params(n) | local_names(n)
                    body = n.body if isinstance(n.body, list) else [n.body]
                    for c in body: visit(c, b2, True)
                    return
                if infunc:
                    if isinstance(n, ast.Global): names.update(n.names)
                    tgt = None
                    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)): tgt = n
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING: tgt = n.func
                    elif isinstance(n, ast.Call) and n.args and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, 'attr', '')) in MUTATING_FUNCS:
                        tgt = ast.Attribute(value=n.args[0], attr='', ctx=ast.Load())
                    if tgt is not None:
                        x, path = tgt.value, []
                        if isinstance(tgt, ast.Attribute) and isinstance(tgt.ctx, (ast.Store, ast.Del)):
                            v = tgt.value
                            first = isinstance(v, ast.Name) and v.id not in bound or isinstance(v, ast.Name) and v.id == 'cls' or \
                                isinstance(v, ast.Attribute) and v.attr == '__class__' or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'type'
                            if first: attrs.add(tgt.attr)
                        while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
                            if isinstance(x, ast.Attribute): path.append(x.attr)
                            x = x.func if isinstance(x, ast.Call) else x.value
                        if isinstance(x, ast.Name) and x.id not in bound: names.add(x.id)
                        chains.extend(path)
                for c in ast.iter_child_nodes(n): visit(c, bound, infunc)
            visit(tree, set(), False)
            for c in ast.walk(tree):
                if isinstance(c, ast.ClassDef):
                    for st in c.body:
                        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and not isinstance(st.value, (ast.Constant, ast.Tuple, ast.Name, ast.UnaryOp)):
                            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                                if isinstance(t, ast.Name): items.add((c.name, t.id))
    items = {(c, a) for c, a in items if a in chains}
    names -= {'self'}
    _mutable[root] = {'names': names, 'attrs': attrs, 'items': items}
    return _mutable[root]


class Path:
    def __init__(self, prefix):
        self.prefix, self.trace, self.alts = [v for v, _ in prefix], [], []
        self.psites, self.sites = [x for _, x in prefix], []      # decision sites, to detect diverging replays
        self.pc = []
        self.fresh = {}
        self.inputs = {}
        self.bound_hit = False
        self.state = None         # the values inside the objects that were there before the call
        self.abstract = False     # an invariant/havoc abstraction is on this path


def trailing_zeros(t):
    """A k such that 2^k divides the integer term t, read off its syntax."""
    if z3.is_int_value(t):
        n = t.as_long()
        return 64 if n == 0 else min(64, (n & -n).bit_length() - 1)
    if not z3.is_app(t): return 0
    d = t.decl()
    if d.kind() == z3.Z3_OP_MUL: return sum(trailing_zeros(c) for c in t.children())
    if d.kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return min(trailing_zeros(c) for c in t.children())
    if d.kind() == z3.Z3_OP_UMINUS: return trailing_zeros(t.arg(0))
    if d.kind() == z3.Z3_OP_ITE: return min(trailing_zeros(t.arg(1)), trailing_zeros(t.arg(2)))
    return 0


class VM:
    def __init__(self, root='/repo/src', float_mode='fp'):
        self.root = root
        self.modules = {}
        self.path = Path([])
        self.float_mode = float_mode
        self.contracts = {}
        self.top = None
        self.loopspecs = []
        self.loopstate = {}
        self.unroll = None         # None: proof mode; int: bounded unrolling
        self.results = {}          # obligation name -> dict
        self.npaths = 0
        self.completed = 0         # paths that reached the end of the contract
        self.inlined, self.summarised, self.trusted = set(), set(), set()
        self.lines = 0
        self.depth = 0
        self.loading = 0
        self.notes = set()         # reasons why the contract does not cover every call, found while exploring
        self.state0 = {}           # id -> (object, its content) for what modules, classes and functions hold after loading
        self.in_building = 0
        self.deadline = None
        self.prune = False         # use the lemmas as well when deciding whether a branch is feasible
        self.feas_timeout = 3000
        from . import stdlib
        self.std = stdlib
        self.builtins = stdlib.make_builtins(self)

    # ------------------------------------------------------------------ paths
    def fresh_name(self, base):
        n = self.path.fresh.get(base, 0)
        self.path.fresh[base] = n + 1
        return f'{base}!{n}'

    def assume(self, f):
        if isinstance(f, bool):
            if not f: raise PathEnd()
            return
        f = z3.simplify(f) if z3.is_true(f) or z3.is_false(f) else f
        if z3.is_false(f): raise PathEnd()
        if z3.is_true(f): return
        if z3.is_and(f):
            for g in f.children(): self.assume(g)
        else: self.path.pc.append(f)

    def feasible(self, extra=()):
        fs = self.path.pc + list(extra)
        key = (self.prune, frozenset(e.get_id() for e in fs))
        c = _feas.get(key)
        if c is not None: return c[0]
        s = z3.Solver(); s.set('timeout', self.feas_timeout)
        s.add(*fs)
        r = s.check() != z3.unsat
        if r and self.prune and extra:
            want = theory.symbols(extra[0])
            sub = [f for f in self.path.pc if theory.symbols(f) <= want] + list(extra)
            r = theory.check(sub, timeout_ms=1000, quick=True)[0] != 'unsat'
        _feas[key] = (r, fs)          # keeps the terms alive, so ids stay unique
        return r

    def site(self, x):
        p = self.path
        i = len(p.trace)
        if i < len(p.prefix) and p.psites[i] != x: raise Unsupported('diverging replay of a path')
        p.sites.append(x)
        return i

    def alt(self, v):
        p = self.path
        p.alts.append(list(zip(p.trace + [v], p.sites)))

    def branch(self, cond):
        """Fork on a z3 Bool (or python bool)."""
        if isinstance(cond, SBool): cond = cond.t
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        p = self.path
        i = self.site(('b', cond.hash()))
        if i < len(p.prefix):
            b = p.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline: raise BudgetExceeded('path budget')
            t = self.feasible([cond])
            f = self.feasible([z3.Not(cond)]) if t else True
            if t and f:
                self.alt(False); b = True
            elif t: b = True
            elif f: b = False
            else: raise PathEnd()
        p.trace.append(b)
        p.pc.append(cond if b else z3.Not(cond))
        return b

    def choose(self, n):
        p = self.path
        i = self.site(('c', n))
        if i < len(p.prefix):
            v = p.prefix[i]
        else:
            for j in range(1, n): self.alt(j)
            v = 0
        p.trace.append(v)
        return v

    def explore(self, thunk, max_paths=20000):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.path = Path(prefix)
            self.npaths += 1
            if self.npaths > max_paths: raise BudgetExceeded('too many paths')
            if self.deadline and time.time() > self.deadline: raise BudgetExceeded('time')
            try:
                thunk()
                self.completed += 1
                self.check_state()
            except PathEnd:
                self.check_state()
            except BoundHit:
                self.path.bound_hit = True
                self.any_bound_hit = True
            stack.extend(reversed(self.path.alts))

    def concretize(self, t, limit=64):
        """Fork over all feasible values of an integer term (finite), return a python int."""
        if isinstance(t, SInt): t = t.t
        if isinstance(t, int): return t
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        p = self.path
        i = self.site(('k', t.hash()))
        if i < len(p.prefix):
            v = p.prefix[i]
        else:
            s = z3.Solver(); s.set('timeout', 10000); s.add(*p.pc)
            s.add(*theory.instances(p.pc + [t == 0]))
            vals = []
            while True:
                r = s.check()
                if r == z3.unknown: raise Unsupported('concretize: unknown')
                if r == z3.unsat: break
                x = s.model().eval(t, model_completion=True).as_long()
                vals.append(x); s.add(t != x)
                if len(vals) > limit: raise Unsupported('concretize: too many values')
            if not vals: raise PathEnd()
            vals.sort()
            for x in vals[1:]: self.alt(x)
            v = vals[0]
        p.trace.append(v)
        p.pc.append(t == v)
        return v

    # ------------------------------------------------------------------ obligations
    def prove(self, name, goal, extra=None, kind='post'):
        """Discharge pc => goal. Returns True when proved; failures are recorded under name."""
        if isinstance(goal, SBool): goal = goal.t
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        rec = self.results.setdefault(name, {'vcs': 0, 'proved': 0, 'failed': [], 'kind': kind, 'backends': {}})
        rec['vcs'] += 1
        g = z3.simplify(goal)
        if z3.is_true(g):
            rec['proved'] += 1
            rec['backends']['simplify'] = rec['backends'].get('simplify', 0) + 1
            return True
        r, model, backend = theory.check(self.path.pc + [z3.Not(goal)])
        if r == 'unsat':
            rec['proved'] += 1
            rec['backends'][backend] = rec['backends'].get(backend, 0) + 1
            return True
        rm = None
        rr, m2, _ = theory.check(self.path.pc + [z3.Not(goal)], timeout_ms=10000, refute=True)
        if rr == 'sat': rm = m2
        rec['failed'].append({'result': r, 'model': self.model_inputs(rm if rm is not None else model),
                              'goal': str(goal)[:800], 'trace': list(self.path.trace), 'extra': extra,
                              'abstract': self.path.abstract})
        return False

    def valid(self, goal):
        if isinstance(goal, SBool): goal = goal.t
        if isinstance(goal, bool): return goal
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g) and not self.path.pc: return False
        r, _, _ = theory.check(self.path.pc + [z3.Not(goal)], timeout_ms=8000)
        return r == 'unsat'

    def model_inputs(self, model):
        if model is None: return None
        out = {}
        for k, v in self.path.inputs.items():
            out[k] = self.eval_in(model, v)
        return out

    def eval_in(self, model, v):
        ev = lambda t: model.eval(t, model_completion=True)
        if isinstance(v, SInt): return ev(v.t).as_long()
        if isinstance(v, SBool): return z3.is_true(ev(v.t))
        if isinstance(v, SFloat):
            x = ev(v.t)
            try:
                if z3.is_fp_value(x) if hasattr(z3, 'is_fp_value') else z3.is_fp(x):
                    if x.isNaN(): return float('nan')
                    if x.isInf(): return float('-inf') if x.isNegative() else float('inf')
                    bv = z3.simplify(z3.fpToIEEEBV(x)).as_long()
                    import struct
                    return struct.unpack('>d', bv.to_bytes(8, 'big'))[0]
                return float(x.as_fraction())
            except Exception:
                return 0.5
        if isinstance(v, Blob):
            n = ev(v.n).as_long() if not isinstance(v.n, int) else v.n
            n = max(0, min(n, 4096))
            return bytes(ev(v.f(z3.IntVal(i))).as_long() % 256 for i in range(n))
        if isinstance(v, (list, tuple)): return [self.eval_in(model, x) for x in v]
        if isinstance(v, dict): return {k: self.eval_in(model, x) for k, x in v.items()}
        if z3.is_expr(v):
            x = ev(v)
            return x.as_long() if z3.is_int_value(x) else str(x)
        if isinstance(v, (int, float, str, bytes, type(None), bool)): return v
        return repr(v)

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules: return self.modules[name]
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path): file = os.path.join(path, '__init__.py')
        else: file = path + '.py'
        if not os.path.exists(file): raise Unsupported(f'module {name}')
        with open(file) as f: tree = ast.parse(f.read(), file)
        ns = {'__name__': name}
        mod = Module(name, ns)
        self.modules[name] = mod
        env = Env(ns, None, name)
        env.vars = ns
        env.is_module = True
        pkg = name if os.path.isdir(path) else name.rpartition('.')[0]
        env.pkg = pkg
        ns['__pkg__'] = pkg
        self.loading += 1
        try: self.exec_block(tree.body, env)
        finally: self.loading -= 1
        self.record_state(ns)
        return mod

    def content(self, o):
        if isinstance(o, SymList): return tuple(id(x) for _, x in o.segs)
        if isinstance(o, PyDict): return tuple((id(k) if not isinstance(k, (int, str, tuple)) else k, id(v)) for k, v in o.log)
        if isinstance(o, Obj): return tuple((k, id(v)) for k, v in o.fields.items())
        if isinstance(o, MBytes): return id(o.v)
        if isinstance(o, self.std.LazyIter): return 'it', repr(o.pos), id(o.src)
        if isinstance(o, GenExp): return 'gen', id(o.it), repr(getattr(o.it, 'pos', 0))
        if isinstance(o, FileObj): return 'file', id(o.blob), id(o.pos), len(o.out), o.closed
        return None

    def reach(self, stack, seen, known=()):
        """The mutable values reachable from the given ones: (value, its content, its parts)."""
        while stack:
            o = stack.pop()
            if isinstance(o, (Builtin, type, Module)) or id(o) in seen or id(o) in known: continue
            kids = None
            if isinstance(o, SymList): kids = [x for _, x in o.segs]
            elif isinstance(o, PyDict): kids = [y for k, v in o.log for y in (k, v)]
            elif isinstance(o, Obj): kids = list(o.fields.values())
            elif isinstance(o, tuple): kids = list(o)
            elif isinstance(o, PyClass): kids = list(o.ns.values())
            elif isinstance(o, (PropM, StaticM, ClassM, AbstractM, CachedM)): kids = [o.f]
            elif isinstance(o, Bound): kids = [o.func, o.self_]
            elif isinstance(o, PyFunc): kids = list(o.defaults) + list(o.kwdefaults) + (list(o.closure.vars.values()) if o.closure is not None else [])
            elif isinstance(o, (MBytes, self.std.LazyIter, GenExp, FileObj)): kids = []
            elif isinstance(o, GenCall): raise Unsupported('a generator that outlives the call')
            elif isinstance(o, Partial): kids = [o.f, *o.args, *o.kw.values()]
            elif isinstance(o, Cached): kids = [o.f]
            if kids is None: continue
            seen[id(o)] = (o, self.content(o), kids)        # kids keeps the items alive
            stack.extend(kids)

    def record_state(self, root): self.reach(list(root.values()), self.state0)

    def record_fields(self, o):
        """The values inside an object that was there before the call."""
        if o.pre and o.cls.name in self.STATEFUL and (o.cls.module or '').startswith('melodia'):
            if self.path.state is None: self.path.state = {}
            self.reach([x for x in o.fields.values() if not (isinstance(x, Obj) and x.cls.name in self.STATEFUL)], self.path.state, self.state0)

    def check_state(self):
        for o, c, _ in self.state0.values():
            if c is not None and self.content(o) != c: raise Unsupported('an object of a module, class or default argument is changed: state that outlives the call')
        for o, c, _ in (self.path.state or {}).values():
            if c is not None and self.content(o) != c: raise Unsupported('a value inside an object is changed after its construction: state that outlives the call')

    def load_source(self, name, text):
        if name in self.modules: return self.modules[name]
        ns = {'__name__': name, '__pkg__': ''}
        self.modules[name] = mod = Module(name, ns)
        env = Env(ns, None, name)
        env.vars = ns
        env.is_module = True
        self.exec_block(ast.parse(text).body, env)
        return mod

    def do_import(self, node, env):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.name.split('.')[0] == 'melodia':
                    m = self.load(a.name)
                    if a.asname: self.assign_name(a.asname, m, env)
                    else: self.assign_name('melodia', self.load('melodia'), env)
                else:
                    self.assign_name(a.asname or a.name.split('.')[0], self.std.std_module(self, a.name), env)
            return
        if node.level:
            pkg = env.genv['__pkg__'].split('.')
            base = '.'.join(pkg[:len(pkg) - (node.level - 1)])
            name = base + ('.' + node.module if node.module else '')
        else:
            name = node.module
        if name.split('.')[0] == 'melodia':
            m = self.load(name)
            for a in node.names:
                if a.name in m.ns: v = m.ns[a.name]
                else: v = self.load(name + '.' + a.name)
                self.assign_name(a.asname or a.name, v, env)
        elif name == '__future__':
            pass
        else:
            m = self.std.std_module(self, name)
            for a in node.names:
                if a.name not in m.ns: v = Poison(f'{name}.{a.name}')
                else: v = m.ns[a.name]
                self.assign_name(a.asname or a.name, v, env)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts: self.exec(s, env)

    def exec(self, s, env):
        self.lines += 1
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None: raise Unsupported(f'statement {type(s).__name__}')
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, env)
    def x_Pass(self, s, env): pass
    def x_Import(self, s, env): self.do_import(s, env)
    def x_ImportFrom(self, s, env): self.do_import(s, env)
    def x_Global(self, s, env): env.globals_.update(s.names)
    def x_Nonlocal(self, s, env): env.nonlocals.update(s.names)
    def x_Break(self, s, env): raise BreakX()
    def x_Continue(self, s, env): raise ContinueX()

    def x_Return(self, s, env):
        v = self.ev(s.value, env) if s.value else None
        e = env
        while getattr(e, 'frame', None) is None: e = e.parent
        raise ReturnX(e.frame, v)

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
        if getattr(env, 'is_class', False) and isinstance(s.target, ast.Name) and s.target.id not in env.annotations and 'ClassVar' not in ast.unparse(s.annotation):
            env.annotations.append(s.target.id)

    def x_AugAssign(self, s, env):
        op = s.op
        if isinstance(s.target, ast.Name):
            cur = self.ev_name(s.target.id, env)
            r = self.aug(op, cur, self.ev(s.value, env))
            self.assign_name(s.target.id, r, env)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.aug(op, cur, self.ev(s.value, env)))
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            k = self.ev_index(s.target.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(op, cur, self.ev(s.value, env)))
        else: raise Unsupported('augassign')

    def aug(self, op, cur, val):
        if isinstance(cur, MBytes) and isinstance(op, ast.Add):
            self.std.mb_extend(self, cur, val)
            return cur
        if isinstance(cur, SymList) and isinstance(op, ast.Add):
            self.std.list_extend(self, cur, val)
            return cur
        return self.binop(op, cur, val)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.std.as_items(self, v)
            if star:
                i = star[0]; n = len(vals) - (len(t.elts) - 1)
                if n < 0: raise rz(ValueError, 'not enough values')
                vals = vals[:i] + [SymList([('item', x) for x in vals[i:i + n]])] + vals[i + n:]
                for e, x in zip(t.elts, vals): self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(vals) != len(t.elts): raise rz(ValueError, 'unpack')
            for e, x in zip(t.elts, vals): self.assign(e, x, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        else: raise Unsupported('assign target')

    def assign_name(self, name, v, env):
        if name in env.globals_:
            if not self.loading: raise Unsupported('assignment to a global variable')
            env.genv[name] = v; return
        if name in env.nonlocals:
            e = env.parent.find(name)
            if e is None: raise Unsupported('nonlocal')
            e.vars[name] = v; return
        env.vars[name] = v

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = env.find(t.id)
                if e is None: raise rz(NameError, t.id)
                del e.vars[t.id]
            elif isinstance(t, ast.Subscript):
                self.std.delitem(self, self.ev(t.value, env), self.ev_index(t.slice, env))
            else: raise Unsupported('del')

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)): self.exec_block(s.body, env)
        else: self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise rz(AssertionError, 'assert')

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur: raise PyRaise(cur[-1])
            raise Unsupported('bare raise')
        v = self.ev(s.exc, env)
        raise PyRaise(self.as_exc(v))

    def as_exc(self, v):
        if isinstance(v, ExcVal): return v
        if isinstance(v, type) and issubclass(v, BaseException): return ExcVal(v)
        if isinstance(v, PyClass): return ExcVal(v)
        raise Unsupported('raise of non-exception')

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                self.not_left(e, env)
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        ts = self.ev(h.type, env)
                        ts = ts if isinstance(ts, tuple) else (ts,)
                        if not all(isinstance(t, PyClass) or isinstance(t, type) and issubclass(t, BaseException) for t in ts): raise Unsupported('except clause')
                        ok = any(e.exc.isinst(t) for t in ts)
                    if ok:
                        if h.name: self.assign_name(h.name, e.exc, env)
                        self.handling = getattr(self, 'handling', []) + [e.exc]
                        try: self.exec_block(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                            if h.name and h.name not in env.globals_ and h.name not in env.nonlocals: env.vars.pop(h.name, None)
                        break
                else: raise
            else:
                self.exec_block(s.orelse, env)
        except (PathEnd, BoundHit, Restart, Unsupported, BudgetExceeded):
            raise
        except BaseException as e:
            self.not_left(e, env)
            if s.finalbody: self.exec_block(s.finalbody, env)
            raise
        else:
            if s.finalbody: self.exec_block(s.finalbody, env)

    def not_left(self, e, env):
        """What the consumer of a generator does (leaving its loop, raising) is no event in the generator's frame:
        it is closed there, now or later.  Where that would be observable, nothing is claimed."""
        if any(g.frame is env.frame for g in getattr(e, 'through', ())): raise Unsupported('a generator left inside try or with')

    def x_With(self, s, env):
        def rec(i):
            if i == len(s.items): self.exec_block(s.body, env); return
            it = s.items[i]
            v = self.ev(it.context_expr, env)
            if isinstance(v, FileObj):
                if v.closed: raise rz(ValueError, 'I/O operation on closed file.')
                try:
                    if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
                    return rec(i + 1)
                finally: v.closed = True
            if isinstance(v, CtxV):
                state = {'n': 0}
                def on(x):
                    state['n'] += 1
                    if state['n'] > 1: raise Unsupported("a context manager that yields twice")
                    try:
                        if it.optional_vars is not None: self.assign(it.optional_vars, x, env)
                        rec(i + 1)
                    except (ReturnX, BreakX, ContinueX, GenBreak) as e:      # the generator goes on, the statement is left afterwards
                        self.not_left(e, env)
                        state['out'] = e
                    except PyRaise as e: self.not_left(e, env); raise
                self.run_gen(v.gen, on, thrown=True)
                if not state['n']: raise rz(RuntimeError, "generator didn't yield")
                if 'out' in state: raise state['out']
                return
            if isinstance(v, Suppress):
                try: return rec(i + 1)
                except PyRaise as e:
                    self.not_left(e, env)
                    if not any(e.exc.isinst(t) for t in v.types): raise
                    return
            if not isinstance(v, Obj): raise Unsupported('with')
            en, ex = v.cls.lookup('__enter__'), v.cls.lookup('__exit__')
            if en is None or ex is None: raise rz(TypeError, 'context manager')
            x = self.call_special(en, v, [])
            if it.optional_vars is not None: self.assign(it.optional_vars, x, env)
            try: rec(i + 1)
            except PyRaise as e:
                self.not_left(e, env)
                if not self.truth(self.call_special(ex, v, [e.exc.cls, e.exc, None])): raise
            except (ReturnX, BreakX, ContinueX, GenBreak) as e:
                self.not_left(e, env)
                self.call_special(ex, v, [None, None, None])
                raise
            else: self.call_special(ex, v, [None, None, None])
        rec(0)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        self.assign_name(s.name, f, env)

    def make_func(self, s, env, qual=None):
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = [self.ev(d, env) if d is not None else NODEFAULT for d in s.args.kw_defaults]
        is_mod = getattr(env, 'is_module', False) or getattr(env, 'is_class', False)
        name = getattr(s, 'name', '<lambda>')
        if getattr(env, 'is_class', False): q = env.cls_name + '.' + name
        elif getattr(env, 'is_module', False): q = env.genv['__name__'].rpartition('.')[2] + '.' + name
        else: q = env.qual + '.<' + name + '>'
        clo = None if is_mod else env
        if getattr(env, 'is_class', False): clo = env.parent if not getattr(env.parent, 'is_module', False) else None
        return PyFunc(s, env.genv, clo, q, defaults, kwd)

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name) and d.id == 'property': return PropM(f)
        if isinstance(d, ast.Name) and d.id == 'staticmethod': return StaticM(f)
        if isinstance(d, ast.Name) and d.id == 'classmethod': return ClassM(f)
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter'):
            p = self.ev(d.value, env)
            if isinstance(p, PropM): return PropM(f, p.setter) if d.attr == 'getter' else PropM(p.f, f)
        v = self.ev(d, env)
        if isinstance(v, Builtin): return v.fn(self, [f], {})
        if isinstance(v, PyFunc): return self.call(v, [f], {})
        raise Unsupported('decorator')

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        if s.keywords and [ast.unparse(k) for k in s.keywords] != ['metaclass=ABCMeta'] and [ast.unparse(k) for k in s.keywords] != ['metaclass=abc.ABCMeta']: raise Unsupported('class keywords')
        bases = [b for b in bases if not (isinstance(b, TypingV) and b.name in ('Protocol', 'Generic')) and b is not object]
        if any(isinstance(b, TypingV) and b.name == 'NamedTuple' for b in bases): return self.named_tuple(s, env)
        if any(isinstance(b, TypingV) and b.name in ('Enum', 'IntEnum') for b in bases): return self.enum_class(s, env, bases)
        bases = [b for b in bases if not (isinstance(b, TypingV) and b.name == 'ABC')]
        for b in bases:
            if not isinstance(b, PyClass) and not (isinstance(b, type) and issubclass(b, BaseException)): raise Unsupported(f'base class {b}')
        cenv = Env(env.genv, env if not getattr(env, 'is_module', False) else None, s.name)
        cenv.is_class, cenv.cls_name, cenv.annotations = True, s.name, []
        cenv.parent = env
        self.exec_block(s.body, cenv)
        for d in UNMODELLED:
            if d in cenv.vars: raise Unsupported(f'{d} of class {s.name}')
        cls = PyClass(s.name, bases, cenv.vars, env.genv.get('__name__'))
        if cls.mro() is None: raise rz(TypeError, 'mro')
        if cls.issub(BaseException) and any(d in cenv.vars for d in ('__init__', '__str__', '__repr__')): cls.opaque_exc = True
        for k, v in cenv.vars.items():
            f = v.f if isinstance(v, (PropM, StaticM, ClassM)) else v
            if isinstance(f, PyFunc): f.owner = cls
        if any(c.dc_fields is not None for c in cls.mro()) and not any('dataclass' in ast.unparse(d) for d in s.decorator_list):
            # a plain class below a dataclass: constructor and comparison are inherited
            if len(bases) != 1 or any(m in cls.ns for m in ('__init__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__repr__', '__str__', '__hash__', '__post_init__', '__setattr__')): raise Unsupported('class below a dataclass')
            b = bases[0]
            cls.dc_fields, cls.dc_eq, cls.dc_order, cls.frozen = b.dc_fields, b.dc_eq, b.dc_order, b.frozen
            if any(n in cls.ns for n, _ in cls.dc_fields): raise Unsupported('class below a dataclass')
        if any(c.nt_fields is not None for c in cls.mro()): raise Unsupported('class below a named tuple')
        for d in s.decorator_list:
            call = isinstance(d, ast.Call)
            v = self.ev(d.func if call else d, env)
            if getattr(v, 'name', '') == 'dataclass' and isinstance(v, Builtin): self.dataclass(cls, d, cenv, bases)
            elif getattr(v, 'name', '') == 'total_ordering' and isinstance(v, Builtin) and not call: self.total_ordering(cls)
            elif getattr(v, 'name', '') in ('final', 'runtime_checkable') and not call: pass
            else: raise Unsupported('class decorator')
        self.assign_name(s.name, cls, env)

    def dataclass(self, cls, d, cenv, bases):
        opt = {}
        if isinstance(d, ast.Call):
            if d.args or any(k.arg not in ('frozen', 'eq', 'order', 'slots', 'repr', 'init', 'unsafe_hash') or not isinstance(k.value, ast.Constant) for k in d.keywords):
                raise Unsupported('dataclass options')
            opt = {k.arg: bool(k.value.value) for k in d.keywords}
        if '__post_init__' in cls.all_names() or '__init__' in cls.ns or not opt.get('init', True): raise Unsupported('dataclass with its own constructor')
        if len(bases) > 1 or any(not isinstance(b, PyClass) or (b.dc_fields is None and (b.has('__init__') or b.has('__eq__'))) for b in bases): raise Unsupported('bases of a dataclass')
        fl = []
        for b in bases:
            if b.dc_fields: fl += b.dc_fields
        own = [(a, cenv.vars.get(a, Poison('nodefault'))) for a in cenv.annotations]
        names = [n for n, _ in fl]
        cls.dc_fields = [(n, dict(own).get(n, v)) for n, v in fl] + [(n, v) for n, v in own if n not in names]
        seen = False
        for n, v in cls.dc_fields:
            if isinstance(v, (SymList, PyDict, MBytes)): raise rz(ValueError, 'mutable default')
            if isinstance(v, Poison): 
                if seen: raise rz(TypeError, f'non-default argument {n} follows default argument')
            else: seen = True
        cls.frozen = opt.get('frozen', False)
        cls.dc_eq = opt.get('eq', True) and '__eq__' not in cls.ns
        cls.dc_order = opt.get('order', False)
        if cls.dc_order and any(m in cls.ns for m in ('__lt__', '__le__', '__gt__', '__ge__')): raise rz(TypeError, 'order')
        if not cls.dc_eq and any(b.dc_eq for b in bases): raise Unsupported('dataclass without its own comparison')

    def named_tuple(self, s, env):
        if len(s.bases) != 1 or s.decorator_list: raise Unsupported('NamedTuple')
        cenv = Env(env.genv, env if not getattr(env, 'is_module', False) else None, s.name)
        cenv.is_class, cenv.cls_name, cenv.annotations = True, s.name, []
        cenv.parent = env
        self.exec_block(s.body, cenv)
        for d in UNMODELLED + ('__init__', '__eq__', '__iter__', '__len__', '__getitem__', '__lt__', '__le__', '__gt__', '__ge__', '__ne__', '__contains__', '__hash__', '__add__', '__mul__', '__bool__'):
            if d in cenv.vars: raise Unsupported(f'{d} of a NamedTuple')
        cls = PyClass(s.name, [], cenv.vars, env.genv.get('__name__'))
        cls.nt_fields = [(a, cenv.vars.pop(a, Poison('nodefault'))) for a in cenv.annotations]
        for v in cenv.vars.values():
            f = v.f if isinstance(v, (PropM, StaticM, ClassM)) else v
            if isinstance(f, PyFunc): f.owner = cls
        self.assign_name(s.name, cls, env)

    def enum_class(self, s, env, bases):
        if len(bases) != 1 or s.decorator_list and [ast.unparse(d) for d in s.decorator_list] not in (['unique'], ['enum.unique']): raise Unsupported('enum class')
        cenv = Env(env.genv, env if not getattr(env, 'is_module', False) else None, s.name)
        cenv.is_class, cenv.cls_name, cenv.annotations = True, s.name, []
        cenv.parent = env
        self.exec_block(s.body, cenv)
        cls = EnumCls(s.name, bases[0].name == 'IntEnum', env.genv.get('__name__'))
        last = 0
        for n, v in cenv.vars.items():
            if n.startswith('__') and n not in ('__module__', '__qualname__', '__doc__'): raise Unsupported('enum class with special methods')
            if isinstance(v, (PyFunc, StaticM, ClassM, PropM)):
                f = v.f if not isinstance(v, PyFunc) else v
                cls.ns[n] = v
                continue
            if n.startswith('_'): raise Unsupported('enum member')
            if isinstance(v, Auto): v = last + 1
            if isinstance(v, bool) or not isinstance(v, int if cls.isint else (int, str, bytes, float, tuple)): raise Unsupported('enum value')
            if isinstance(v, int): last = v
            same = [m for m in cls.members.values() if m.value == v and (not cls.isint or int(m) == v)] if not cls.isint else [m for m in cls.members.values() if int(m) == v]
            cls.members[n] = same[0] if same else (EnumInt(v, n, cls) if cls.isint else EnumMember(v, n, cls))
        self.assign_name(s.name, cls, env)

    def total_ordering(self, cls):
        have = [m for m in ('__lt__', '__gt__', '__le__', '__ge__') if cls.lookup(m) is not None]
        if not have: raise rz(ValueError, 'must define at least one ordering operation')
        root = have[0]
        src = TOTAL_ORDERING[root]
        for m, text in src.items():
            if cls.lookup(m) is not None: continue
            f = ast.parse(text).body[0]
            fn = PyFunc(f, {'__name__': 'functools'}, None, cls.name + '.' + m, [], [])
            fn.owner = cls
            cls.ns[m] = fn

    def x_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.exec_block(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue): return self.truth(self.cmp('Eq', v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton): return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr): return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env): return False
            if p.name: self.assign_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (int, float, str, bytes, SInt, SFloat, SBool, SStr, SBytes, type(None), PyDict, MBytes)): return False
            if not isinstance(v, (tuple, SymList)): raise Unsupported('match')
            items = self.std.as_items(self, v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and all(self.match(q, x, env) for q, x in zip(p.patterns, items))
            i = star[0]; after = len(p.patterns) - i - 1
            if len(items) < i + after: return False
            if not all(self.match(q, x, env) for q, x in zip(p.patterns[:i], items[:i])): return False
            if p.patterns[i].name: self.assign_name(p.patterns[i].name, SymList([('item', x) for x in items[i:len(items) - after]]), env)
            return all(self.match(q, x, env) for q, x in zip(p.patterns[i + 1:], items[len(items) - after:]))
        if isinstance(p, ast.MatchClass):
            t = self.ev(p.cls, env)
            if not self.std.py_isinstance(self, v, t): return False
            if p.patterns:
                if t in (int, str, float, bool, bytes, tuple, list, dict, bytearray) and len(p.patterns) == 1:
                    if not self.match(p.patterns[0], v, env): return False
                elif isinstance(t, PyClass) and (t.dc_fields is not None or t.nt_fields is not None) and '__match_args__' not in t.all_names():
                    names = [n for n, _ in (t.dc_fields or t.nt_fields)]
                    if len(p.patterns) > len(names): raise rz(TypeError)
                    if not all(self.match(q, self.getattr(v, n), env) for q, n in zip(p.patterns, names)): return False
                elif isinstance(t, PyClass) and isinstance(t.lookup('__match_args__'), tuple):
                    if not all(self.match(q, self.getattr(v, n), env) for q, n in zip(p.patterns, t.lookup('__match_args__'))): return False
                else: raise Unsupported('match')
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(q, self.getattr(v, n), env): return False
            return True
        raise Unsupported(f'pattern {type(p).__name__}')

    # loops ----------------------------------------------------------------
    def x_While(self, s, env):
        from . import loops
        loops.exec_while(self, s, env)

    def x_For(self, s, env):
        from . import loops
        loops.exec_for(self, s, env)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env): return self.ev_name(e.id, env)

    def ev_name(self, name, env):
        x = env.find(name)
        if x is not None: v = x.vars[name]
        elif name in env.genv:
            v = env.genv[name]
            if not self.loading and name in mutable_state(self.root)['names'] and not isinstance(v, (Module, PyFunc)): raise Unsupported(f'module variable {name}, which some function changes')
        elif name in self.builtins: v = self.builtins[name]
        elif hasattr(builtins_, name): raise Unsupported(f'builtin {name}')
        else:
            raise rz(NameError, name)
        if isinstance(v, Poison): raise Unsupported(f'use of {name}: {v.why}')
        return v

    def e_Tuple(self, e, env): return tuple(self.ev_elts(e.elts, env))
    def e_List(self, e, env):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                s = self.std.seq_segs(self, v) if isinstance(v, (SymList, SymSeq)) else None
                segs += s if s is not None else [('item', y) for y in self.std.as_items(self, v)]
            else: segs.append(('item', self.ev(x, env)))
        return SymList(segs)
    def e_Set(self, e, env): return self.std.mkset(self, self.ev_elts(e.elts, env))

    def ev_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out += self.std.as_items(self, self.ev(x.value, env))
            else: out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, PyDict) or o.base is not None: raise Unsupported('dict unpack')
                for kk, vv in o.log:
                    if vv is not TOMB: self.std.dict_set(self, d, kk, vv)
                continue
            self.std.dict_set(self, d, self.ev(k, env), self.ev(v, env))
        return d

    def e_Lambda(self, e, env): return self.make_func(e, env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        while env.is_comp:
            if env.generic: raise Unsupported('assignment expression in a symbolic comprehension')
            env = env.parent
        self.assign_name(e.target.id, v, env)
        return v

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t: return False if isinstance(v, SBool) else v
            if isinstance(e.op, ast.Or) and t: return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool): return SBool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(v, Obj):
            f = v.cls.lookup({ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)])
            if f is None: raise rz(TypeError, 'bad operand type for unary operator')
            return self.call_special(f, v, [])
        if isinstance(v, SBool): v = SInt(self.T(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            if isinstance(v, SInt): return self.mkint(-v.t)
            if isinstance(v, SFloat): return SFloat(-v.t if self.float_mode == 'real' else z3.fpNeg(v.t))
        if isinstance(e.op, ast.UAdd):
            if isinstance(v, (int, float, SInt, SFloat)): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int): return ~v
            if isinstance(v, SInt): return self.mkint(-v.t - 1)
        raise Unsupported('unary')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1: return v
            if not self.truth(v): return False
            left = right

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.keywords and env.find('super') is None and 'super' not in env.genv:
            if e.args:
                a = [self.ev(x, env) for x in e.args]
                if len(a) != 2 or not isinstance(a[0], PyClass) or not isinstance(a[1], (Obj, PyClass)): raise Unsupported('super')
                return SuperV(*a)
            x = env
            while x is not None and (x.func is None or x.func.owner is None): x = x.parent
            if x is None: raise Unsupported('super')
            a = x.func.node.args
            ps = [p.arg for p in a.posonlyargs + a.args]
            me = x.vars.get(ps[0]) if ps else None
            if not isinstance(me, (Obj, PyClass)): raise Unsupported('super')
            return SuperV(x.func.owner, me)
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred): args += self.std.as_items(self, self.ev(a.value, env))
            else: args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, PyDict) or d.base: raise Unsupported('**kwargs')
                for kk, vv in d.log: kw[kk] = vv
            else: kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def e_Attribute(self, e, env): return self.getattr(self.ev(e.value, env), e.attr)
    def e_Subscript(self, e, env): return self.getitem(self.ev(e.value, env), self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return ('slice', f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                fmt = ''
                if v.format_spec is not None:
                    fs = self.e_JoinedStr(v.format_spec, env)
                    if not isinstance(fs, str): raise Unsupported('format spec')
                    fmt = fs
                if v.conversion == 114: x = self.std.b_repr(self, [x], {})
                elif v.conversion == 115: x = self.std.b_str(self, [x], {})
                parts.append(self.std.fmt(self, x, fmt))
        return mkstr(parts)

    def comp_iter(self, e, env, first=None):
        """The items of a comprehension, one after the other."""
        scope = self.scope(env)
        elt = (lambda: (self.ev(e.key, scope), self.ev(e.value, scope))) if isinstance(e, ast.DictComp) else (lambda: self.ev(e.elt, scope))
        def rec(i):
            if i == len(e.generators):
                yield elt()
                return
            g = e.generators[i]
            if g.is_async: raise Unsupported('async')
            src = self.ev(g.iter, scope) if i else (self.ev(g.iter, env) if first is None else first)
            eager = first is None and not any(isinstance(x, ast.Call) for y in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]) + [c for h in e.generators for c in h.ifs] for x in ast.walk(y))
            for item in self.std.iter_items(self, src, eager):
                self.assign(g.target, item, scope)
                if all(self.truth(self.ev(c, scope)) for c in g.ifs): yield from rec(i + 1)
        return rec(0)

    def scope(self, env, generic=False):
        """The scope of a comprehension: one for all its iterations (closures see the last value of the target)."""
        en = Env(env.genv, env, env.qual)
        en.is_comp, en.generic, en.frame = True, generic, None
        return en

    def e_ListComp(self, e, env):
        it = self.std.sym_comp(self, e, env)
        if it is not None: return it
        return SymList([('item', x) for x in self.comp_iter(e, env)])

    def e_SetComp(self, e, env):
        return self.std.mkset(self, list(self.comp_iter(e, env)))

    def e_DictComp(self, e, env):
        d = PyDict()
        for k, v in self.comp_iter(e, env): self.std.dict_set(self, d, k, v)
        return d

    def e_GeneratorExp(self, e, env):
        src = self.ev(e.generators[0].iter, env)      # Python evaluates the first iterable at once, the rest on demand
        if isinstance(src, (int, float, SInt, SFloat, SBool, type(None))): raise rz(TypeError, 'not iterable')
        return GenExp(e, env, src)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value else None
        x = env
        while x is not None and x.on_yield is None: x = x.parent
        if x is None: raise Unsupported('yield')
        x.on_yield(v)
        return None

    def e_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        x = env
        while x is not None and x.on_yield is None: x = x.parent
        if x is None: raise Unsupported('yield from')
        segs = self.std.seq_segs(self, v)
        if segs is None: raise Unsupported('yield from')
        for k, y in segs:
            if k == 'item': x.on_yield(y)
            elif x.collect is not None: x.collect.append((k, y))
            else: raise Unsupported('yield from a symbolic sequence')
        return None

    # ------------------------------------------------------------------ operations
    def mkint(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t): return t.as_long()
        return SInt(t)

    def T(self, v):
        """z3 Int term of an int-like value."""
        if isinstance(v, SInt): return v.t
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f'int term of {type(v).__name__}')

    def F(self, v):
        """z3 float term."""
        if isinstance(v, SFloat): return v.t
        if self.float_mode == 'real':
            if isinstance(v, (int, float)): return z3.RealVal(repr(v) if isinstance(v, float) else v)
            if isinstance(v, SInt): return z3.ToReal(v.t)
        else:
            if isinstance(v, (int, float)):
                try: return z3.FPVal(float(v), FP)
                except OverflowError: raise rz(OverflowError, 'int too large to convert to float')
            if isinstance(v, SBool): return z3.If(v.t, z3.FPVal(1.0, FP), z3.FPVal(0.0, FP))
            if isinstance(v, SInt):
                if not self.small(v.t): raise Unsupported('an integer that may be too large for a float')
                return i2f(v.t)
        raise Unsupported(f'float term of {type(v).__name__}')

    def small(self, t):
        memo = self.path.__dict__.setdefault('small', {})
        if t.get_id() not in memo:
            if not self.valid(z3.And(t > -2 ** 1023, t < 2 ** 1023)): return False
            memo[t.get_id()] = t
        return True

    def B(self, v):
        if isinstance(v, SBool): return v.t
        if isinstance(v, bool): return z3.BoolVal(v)
        raise Unsupported('bool term')

    def isint(self, v): return isinstance(v, (int, SInt, SBool))
    def isflt(self, v): return isinstance(v, (float, SFloat))

    def truth(self, v):
        if isinstance(v, SBool): return self.branch(v.t)
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, SInt): return self.branch(v.t != 0)
        if isinstance(v, (int, float, str, bytes, tuple, frozenset)): return bool(v)
        if isinstance(v, SFloat):
            return self.branch(v.t != 0 if self.float_mode == 'real' else z3.Not(z3.fpIsZero(v.t)))
        if isinstance(v, MBytes): v = v.v
        if isinstance(v, bytes): return bool(v)
        if isinstance(v, (SymList, SymSeq, SBytes)):
            return self.branch(self.T(self.std.length(self, v)) > 0)
        if isinstance(v, SStr):
            for p in v.parts:
                if isinstance(p, (str, Dec, DigTxt, FltTxt)): return True
            if len(v.parts) == 1 and isinstance(v.parts[0], Acc):
                return self.branch(self.T(v.parts[0].sharps) + self.T(v.parts[0].flats) > 0)
            raise Unsupported('truth of string')
        if isinstance(v, PyDict): return self.std.dict_truth(self, v)
        if isinstance(v, Obj):
            f = v.cls.lookup('__bool__')
            if f: return self.truth(self.call(Bound(f, v), [], {}))
            f = v.cls.lookup('__len__')
            if f: return self.truth(self.compare(ast.NotEq(), self.call(Bound(f, v), [], {}), 0))
            return True
        if isinstance(v, (EnumMember, EnumCls, PyClass, PyFunc, Bound, Builtin, MatchV, RegexV, FileObj, Module, type, ExcVal)): return True
        raise Unsupported(f'truth of {type(v).__name__}')

    BIN = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__',
           'Div': '__truediv__', 'BitAnd': '__and__', 'BitOr': '__or__', 'LShift': '__lshift__',
           'RShift': '__rshift__', 'Pow': '__pow__', 'BitXor': '__xor__'}

    def binop(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, MBytes) or isinstance(b, MBytes):
            if o == 'Add' and isinstance(a, MBytes) and isinstance(b, (bytes, SBytes, MBytes)): return MBytes(mkbytes([a, b]))
            if o == 'Add' and isinstance(a, (bytes, SBytes)): return mkbytes([a, b])
            raise Unsupported('operation on bytearray')
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x in (a, b):
                if not isinstance(x, (Obj, int, float, str, bytes, tuple, SInt, SFloat, SBool, SStr, SBytes, SymList, PyDict, type(None), PyClass)): raise Unsupported(f'binop {o} on {type(x).__name__}')
            if isinstance(a, (str, SStr, bytes)) and o == 'Mod': raise Unsupported('% formatting')
            m, rm = self.BIN[o], '__r' + self.BIN[o][2:]
            tries = []
            if isinstance(a, Obj): tries.append((a, a.cls.lookup(m), b))
            if isinstance(b, Obj) and not (isinstance(a, Obj) and a.cls is b.cls):
                g = b.cls.lookup(rm)
                # a subclass that overrides the reflected operation comes first
                first = isinstance(a, Obj) and b.cls.issub(a.cls) and g is not None and g is not a.cls.lookup(rm)
                tries.insert(0 if first else len(tries), (b, g, a))
            for x, f, y in tries:
                if f is None: continue
                r = self.call_special(f, x, [y])
                if r is not NOTIMPL: return r
            raise rz(TypeError, 'unsupported operand')
        if self.isint(a) and self.isint(b): return self.int_op(o, a, b)
        if (self.isint(a) or self.isflt(a)) and (self.isint(b) or self.isflt(b)): return self.flt_op(o, a, b)
        if o == 'Add':
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)): return mkstr([a, b])
            if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)): return mkbytes([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, SymList) and isinstance(b, SymList): return SymList(a.segs + b.segs)
            raise rz(TypeError, 'bad operand types for +')
        if o == 'Mult':
            if isinstance(b, (str, bytes, tuple, SymList)) and isinstance(a, (int, SInt)): a, b = b, a
            if isinstance(a, (str, bytes, tuple)) and isinstance(b, int): return a * b
            if isinstance(a, SymList) and isinstance(b, int): return SymList(a.segs * b)
            if a in ('#', 'b') and isinstance(a, str) and isinstance(b, SInt):
                n = self.mkint(z3.If(b.t > 0, b.t, z3.IntVal(0)))
                return mkstr([Acc(n, 0) if a == '#' else Acc(0, n)])
            if isinstance(b, (SInt, SBool)) or isinstance(a, (SStr, SBytes)) or isinstance(b, (SStr, SBytes)): raise Unsupported('repetition')
        if o == 'Mod' and isinstance(a, (str, SStr)): return self.std.percent(self, a, b)
        if o == 'Mod' and isinstance(a, (bytes, SBytes)): raise Unsupported('% formatting')
        if isinstance(a, (frozenset,)) and isinstance(b, frozenset) and o in ('BitOr', 'BitAnd'):
            return a | b if o == 'BitOr' else a & b
        for x in (a, b):
            if not isinstance(x, (int, float, str, bytes, tuple, SInt, SFloat, SBool, SStr, SBytes, SymList, type(None))):
                raise Unsupported(f'binop {o} on {type(a).__name__},{type(b).__name__}')
        raise rz(TypeError, f'unsupported operand type(s) for {o}')

    def int_op(self, o, a, b):
        ca = isinstance(a, int); cb = isinstance(b, int)
        if ca and cb:
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'FloorDiv': lambda: a // b,
                        'Mod': lambda: a % b, 'Div': lambda: a / b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b,
                        'BitXor': lambda: a ^ b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b,
                        'Pow': lambda: a ** b if abs(b) < 10 ** 5 else _uns_('power')}[o]()
            except (ZeroDivisionError, ValueError, OverflowError) as ex:
                raise rz(type(ex), str(ex))
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and o in ('BitAnd', 'BitOr', 'BitXor'):
            p, q = self.B(a), self.B(b)
            return self.mkbool(z3.And(p, q) if o == 'BitAnd' else z3.Or(p, q) if o == 'BitOr' else z3.Xor(p, q))
        x, y = self.T(a), self.T(b)
        if o == 'Add': return self.mkint(x + y)
        if o == 'Sub': return self.mkint(x - y)
        if o == 'Mult': return self.mkint(x * y)
        if o in ('FloorDiv', 'Mod'):
            if not cb:
                if self.branch(y == 0): raise rz(ZeroDivisionError)
                if not self.valid(y > 0):
                    if self.branch(y < 0): return self.mkint((-x) / (-y)) if o == 'FloorDiv' else self.mkint(-((-x) % (-y)))
            elif b == 0: raise rz(ZeroDivisionError)
            elif b < 0:       # floor division: x // b == (-x) // (-b), x % b == -((-x) % (-b))
                return self.mkint((-x) / (-y)) if o == 'FloorDiv' else self.mkint(-((-x) % (-y)))
            return self.mkint(x / y) if o == 'FloorDiv' else self.mkint(x % y)
        if o == 'BitAnd':
            if ca and a >= 0: return self.mkint(self.and_const(y, a))
            if cb and b >= 0: return self.mkint(self.and_const(x, b))
            if self.disjoint_bits(x, y): return self.mkint(z3.IntVal(0))
            return self.mkint(band(x, y))
        if o == 'BitOr':
            if ca and a >= 0: return self.mkint(y + a - self.and_const(y, a))
            if cb and b >= 0: return self.mkint(x + b - self.and_const(x, b))
            if self.disjoint_bits(x, y): return self.mkint(x + y)
            return self.mkint(x + y - band(x, y))
        if o == 'BitXor':
            if ca and a >= 0: return self.mkint(y + a - 2 * self.and_const(y, a))
            if cb and b >= 0: return self.mkint(x + b - 2 * self.and_const(x, b))
            if self.disjoint_bits(x, y): return self.mkint(x + y)
            return self.mkint(x + y - 2 * band(x, y))
        if o == 'LShift':
            if cb:
                if b < 0: raise rz(ValueError, 'negative shift count')
                return self.mkint(x * (1 << b))
            if self.branch(y < 0): raise rz(ValueError, 'negative shift count')
            return self.mkint(x * pow2f(y)) if not (ca and a == 1) else self.mkint(pow2f(y))
        if o == 'RShift':
            if cb:
                if b < 0: raise rz(ValueError, 'negative shift count')
                return self.mkint(x / (1 << b))
            if self.branch(y < 0): raise rz(ValueError, 'negative shift count')
            return self.mkint(x / pow2f(y))
        if o == 'Pow':
            if ca and a == 2:
                if self.branch(y < 0): raise Unsupported('negative exponent')
                return self.mkint(pow2f(y))
            if cb and 0 <= b <= 4:
                r = z3.IntVal(1)
                for _ in range(b): r = r * x
                return self.mkint(r)
            raise Unsupported('pow')
        if o == 'Div':
            if not cb and self.branch(y == 0): raise rz(ZeroDivisionError)
            if cb and b == 0: raise rz(ZeroDivisionError)
            if self.float_mode == 'real': return SFloat(z3.ToReal(x) / z3.ToReal(y))
            if not self.small(x): raise Unsupported('the quotient may be too large for a float')
            return SFloat(fdivii(x, y))
        raise Unsupported(f'int op {o}')

    def disjoint_bits(self, x, y):
        """One of x, y is a multiple of 2^k and the other lies in [0, 2^k): no bit in common, so x & y == 0."""
        for a, b in ((x, y), (y, x)):
            k = trailing_zeros(z3.simplify(a))
            if k and self.valid(z3.And(b >= 0, b < (1 << k))): return True
        return False

    def and_const(self, x, c):
        """x & c for a constant c >= 0, exact for every integer x (floor semantics)."""
        out = z3.IntVal(0)
        i = trailing_zeros(z3.simplify(x))
        while c >> i:
            if (c >> i) & 1:
                j = i
                while (c >> j) & 1: j += 1
                out = out + ((x / (1 << i)) % (1 << (j - i))) * (1 << i)
                i = j
            else: i += 1
        return z3.simplify(out)

    def flt_op(self, o, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                        'Pow': lambda: a ** b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b}[o]()
            except ZeroDivisionError: raise rz(ZeroDivisionError)
            except OverflowError: raise rz(OverflowError)
        if self.float_mode == 'real' and o == 'Pow' and isinstance(a, int) and a == 2: return SFloat(powr(self.F(b)))
        x, y = self.F(a), self.F(b)
        if self.float_mode == 'real':
            if o == 'Add': return SFloat(x + y)
            if o == 'Sub': return SFloat(x - y)
            if o == 'Mult': return SFloat(x * y)
            if o == 'Div':
                if self.branch(y == 0): raise rz(ZeroDivisionError)
                return SFloat(x / y)
            raise Unsupported('real op')
        if o in ('Mult', 'Add'):
            if x.sexpr() > y.sexpr(): x, y = y, x     # commutative: canonical order
            return SFloat((fmul if o == 'Mult' else fadd)(x, y))
        if o == 'Sub': return SFloat(fsub(x, y))
        if o == 'Div':
            if self.branch(z3.fpIsZero(y)): raise rz(ZeroDivisionError)
            return SFloat(fdiv(x, y))
        if o == 'Pow':
            if b == 0.5 and self.valid(z3.fpLEQ(z3.FPVal(0.0, FP), x)): return SFloat(fpow(x, y))
            raise Unsupported('float power')
        raise Unsupported(f'float op {o}')

    CMP = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
    REFL = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE', 'Eq': 'Eq', 'NotEq': 'NotEq'}

    def bnot(self, v):
        if isinstance(v, SBool): return SBool(z3.Not(v.t))
        if isinstance(v, bool): return not v
        return not self.truth(v)

    def mkbool(self, t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return SBool(t)

    def compare(self, op, a, b):
        o = type(op).__name__
        if o == 'Is': return self.is_(a, b)
        if o == 'IsNot': return self.bnot(self.is_(a, b))
        if o == 'In': return self.std.contains(self, b, a)
        if o == 'NotIn': return self.bnot(self.std.contains(self, b, a))
        return self.cmp(o, a, b)

    def is_(self, a, b):
        if a is None or b is None: return a is b
        if isinstance(a, bool) and isinstance(b, SBool): a, b = b, a
        if isinstance(a, SBool) and isinstance(b, bool): return SBool(a.t if b else z3.Not(a.t))
        if isinstance(a, (Builtin, PyFunc)) and isinstance(b, (Builtin, PyFunc)): return a is b
        if isinstance(a, (EnumInt, EnumMember)) or isinstance(b, (EnumInt, EnumMember)):
            if isinstance(a, (EnumInt, EnumMember)) and isinstance(b, (EnumInt, EnumMember)): return a is b
            if isinstance(a, SInt) or isinstance(b, SInt): raise Unsupported('is')
            return False
        if isinstance(a, (Obj, PyClass, SymList, PyDict, type)) or isinstance(b, (Obj, PyClass, SymList, PyDict, type)): return a is b
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(a, bool) and isinstance(b, (SInt, int)) or isinstance(b, bool) and isinstance(a, (SInt, int)): return False
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            # small integers are one object each; two equal larger ones may or may not be
            if isinstance(a, int) and isinstance(b, int) and a != b: return False
            x, y = self.T(a), self.T(b)
            if self.branch(x != y): return False
            if self.branch(z3.And(x >= -5, x <= 256)): return True
            if a is b and getattr(a, 't', None) is not None: return True
            return self.choose(2) == 0
        if a is NOTIMPL or b is NOTIMPL: return a is b
        if self.kind(a) is not None and self.kind(b) is not None and self.kind(a) != self.kind(b): return False
        raise Unsupported('is')

    def call_special(self, f, x, args):
        """A method Python looks up on the class."""
        if isinstance(f, StaticM): return self.call(f.f, args, {})
        if isinstance(f, ClassM): return self.call(Bound(f.f, x.cls), args, {})
        if not isinstance(f, (PyFunc, Builtin)): raise Unsupported('special method')
        return self.call(Bound(f, x), args, {})

    def rich(self, o, a, b):
        """One operand's answer to a comparison: a value or NOTIMPL."""
        if not isinstance(a, Obj):
            if isinstance(a, (int, float, str, bytes, tuple, SInt, SFloat, SBool, SStr, SBytes, MBytes, type(None), SymList, PyDict, frozenset, PyClass)): return NOTIMPL
            raise Unsupported(f'cmp {type(a).__name__}')
        for c in a.cls.mro():
            m = self.CMP[o]
            if m in c.ns:
                if c.ns[m] is None: raise rz(TypeError, m)
                return self.call_special(c.ns[m], a, [b])
            if c.dc_fields is not None and (o == 'Eq' and c.dc_eq or o in ('Lt', 'LtE', 'Gt', 'GtE') and c.dc_order):
                if not isinstance(b, Obj) or b.cls is not a.cls: return NOTIMPL
                return self.cmp(o, tuple(a.fields[n] for n, _ in c.dc_fields), tuple(b.fields[n] for n, _ in c.dc_fields))
        if o == 'NotEq':
            r = self.rich('Eq', a, b)
            return r if r is NOTIMPL else self.bnot(r)
        if o == 'Eq': return True if a is b else NOTIMPL
        return NOTIMPL

    def cmp(self, o, a, b):
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            if o in ('Eq', 'NotEq') and not isinstance(a, Obj) and not isinstance(b, Obj): return (a is b) == (o == 'Eq')
            raise Unsupported('comparison of an enum member')
        if isinstance(a, Obj) or isinstance(b, Obj):
            order = [(a, b, o), (b, a, self.REFL[o])]
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls and b.cls.issub(a.cls): order.reverse()
            for x, y, p in order:
                r = self.rich(p, x, y)
                if r is not NOTIMPL: return r
            if o == 'Eq': return a is b
            if o == 'NotEq': return a is not b
            raise rz(TypeError, 'not supported between instances')
        if self.isint(a) and self.isint(b):
            if isinstance(a, int) and isinstance(b, int): return self.pycmp(o, a, b)
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and o in ('Eq', 'NotEq'):
                e = self.B(a) == self.B(b)
                return self.mkbool(e if o == 'Eq' else z3.Not(e))
            x, y = self.T(a), self.T(b)
            return self.mkbool({'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y,
                                'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[o]())
        if (self.isint(a) or self.isflt(a)) and (self.isint(b) or self.isflt(b)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return self.pycmp(o, a, b)
            if self.float_mode != 'real' and (self.isint(a) or self.isint(b)):
                r = self.cmp_int_float(o, a, b)
                if r is not None: return r
            x, y = self.F(a), self.F(b)
            if self.float_mode == 'real':
                return self.mkbool({'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y,
                                    'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[o]())
            return self.mkbool({'Eq': lambda: z3.fpEQ(x, y), 'NotEq': lambda: z3.Not(z3.fpEQ(x, y)),
                                'Lt': lambda: z3.fpLT(x, y), 'LtE': lambda: z3.fpLEQ(x, y),
                                'Gt': lambda: z3.fpGT(x, y), 'GtE': lambda: z3.fpGEQ(x, y)}[o]())
        if isinstance(a, tuple) and isinstance(b, tuple): return self.tuple_cmp(o, a, b)
        if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)) and o in ('Eq', 'NotEq'):
            r = self.std.bytes_eq(self, a, b)
            return r if o == 'Eq' else self.bnot(r)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str): return self.pycmp(o, a, b)
            if o in ('Eq', 'NotEq'):
                r = self.std.str_eq(self, a, b)
                return r if o == 'Eq' else self.bnot(r)
            raise Unsupported('string order')
        if isinstance(a, (bytes,)) and isinstance(b, bytes): return self.pycmp(o, a, b)
        if isinstance(a, SymList) and isinstance(b, SymList):
            ia, ib = self.std.conc_items(a), self.std.conc_items(b)
            if ia is not None and ib is not None: return self.tuple_cmp(o, tuple(ia), tuple(ib))
            if o not in ('Eq', 'NotEq') or getattr(self, 'all_hook', None) is None: raise Unsupported('symbolic list comparison')
            # a == b  is  len(a) == len(b) and all(x == y for x, y in zip(a, b))
            en = Env({}, None, 'list comparison')
            en.vars.update({'a': a, 'b': b})
            r = self.ev(LIST_EQ, en)
            return r if o == 'Eq' else self.bnot(r)
        if o in ('Eq', 'NotEq') and isinstance(a, (type, PyClass)) and isinstance(b, (type, PyClass)): return (a is b) == (o == 'Eq')
        if o in ('Eq', 'NotEq') and isinstance(a, PyDict) and isinstance(b, PyDict):
            r = self.std.dict_eq(self, a, b)
            return r if o == 'Eq' else self.bnot(r)
        if o in ('Eq', 'NotEq') and isinstance(a, MBytes) | isinstance(b, MBytes) and isinstance(a, (bytes, SBytes, MBytes)) and isinstance(b, (bytes, SBytes, MBytes)):
            return self.cmp(o, a.v if isinstance(a, MBytes) else a, b.v if isinstance(b, MBytes) else b)
        if isinstance(a, frozenset) and isinstance(b, frozenset): return self.pycmp(o, a, b)
        if o in ('Eq', 'NotEq'):
            if a is None or b is None: return (a is b) == (o == 'Eq')
            ka, kb = self.kind(a), self.kind(b)
            if ka is not None and kb is not None and ka != kb: return o == 'NotEq'
        ka, kb = self.kind(a), self.kind(b)
        if ka is not None and kb is not None and ka != kb: raise rz(TypeError, f"'{o}' not supported")
        raise Unsupported(f'cmp {o} {type(a).__name__} {type(b).__name__}')

    def cmp_int_float(self, o, a, b):
        """Comparison of an integer with a float: exact in Python, whatever the integer."""
        if self.isflt(a): a, b, o = b, a, self.REFL[o]
        x = self.T(a)
        if isinstance(b, float):
            if b != b: return o == 'NotEq'
            if b in (float('inf'), float('-inf')): return {'Eq': False, 'NotEq': True}.get(o, (b > 0) == (o in ('Lt', 'LtE')))
            import math
            lo, hi, whole = math.floor(b), math.ceil(b), b == math.floor(b)
            return self.mkbool({'Eq': lambda: z3.And(z3.BoolVal(whole), x == lo), 'NotEq': lambda: z3.Not(z3.And(z3.BoolVal(whole), x == lo)),
                                'Lt': lambda: x < hi, 'LtE': lambda: x <= lo, 'Gt': lambda: x > lo, 'GtE': lambda: x >= hi}[o]())
        if isinstance(a, int):
            try:
                if int(float(a)) == a: return None       # the float term of the integer is exact
            except OverflowError: pass
            raise Unsupported('comparison of a float with a large integer')
        if isinstance(a, SBool): raise Unsupported('comparison of a float with a truth value')
        if not self.valid(z3.And(x >= -2 ** 53, x <= 2 ** 53)): raise Unsupported('comparison of a float with an integer that may be large')
        return None

    def kind(self, v):
        if v is None: return 'none'
        if isinstance(v, (int, float, SInt, SFloat, SBool)): return 'num'
        if isinstance(v, (str, SStr)): return 'str'
        if isinstance(v, (bytes, SBytes)): return 'bytes'
        if isinstance(v, tuple): return 'tuple'
        if isinstance(v, SymList): return 'list'
        if isinstance(v, PyDict): return 'dict'
        return None

    def pycmp(self, o, a, b):
        return {'Eq': a == b, 'NotEq': a != b}[o] if o in ('Eq', 'NotEq') else \
            {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[o]()

    def item_eq(self, x, y):
        """Equality of items of containers: identical objects count as equal."""
        if isinstance(x, Obj) and x is y: return True
        if self.isflt(x) and self.isflt(y) and self.float_mode != 'real':
            if isinstance(x, float) and isinstance(y, float):
                if x != x and y != y: raise Unsupported('identity of NaN')
            elif not (isinstance(x, float) and x == x) and not (isinstance(y, float) and y == y) and not self.not_nan(x) and not self.not_nan(y):
                if x is y: return True
                raise Unsupported('identity of a float that may be NaN')
        return self.cmp('Eq', x, y)

    def not_nan(self, v):
        if isinstance(v, float): return v == v
        memo = self.path.__dict__.setdefault('notnan', {})
        k = v.t.get_id()
        if k not in memo:
            n = z3.Not(z3.fpIsNaN(v.t))
            memo[k] = (any(c.eq(n) for c in self.path.pc) or self.valid(n), v.t)
            if not memo[k][0]: return memo.pop(k)[0]
        return memo[k][0]

    def tuple_cmp(self, o, a, b):
        if o in ('Eq', 'NotEq'):
            if len(a) != len(b): r = False
            else:
                ts, r = [], True
                for x, y in zip(a, b):
                    e = self.item_eq(x, y)
                    if e is False: r = False; break
                    if e is True: continue
                    ts.append(self.B(e) if isinstance(e, SBool) else z3.BoolVal(self.truth(e)))
                if r: r = self.mkbool(z3.And(ts)) if ts else True
            return r if o == 'Eq' else self.bnot(r)
        # first differing index decides; without difference the lengths decide
        n = min(len(a), len(b))
        res = z3.BoolVal(self.pycmp(o, len(a), len(b)))
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            e = self.item_eq(x, y)
            if e is True: continue
            if e is not False and not isinstance(e, SBool): raise Unsupported('equality that is no truth value')
            l = self.cmp(o, x, y)
            lt = l.t if isinstance(l, SBool) else z3.BoolVal(bool(l))
            if e is False: res = lt; continue
            res = z3.If(e.t, res, lt)
        return self.mkbool(res)

    # ------------------------------------------------------------------ attributes, calls
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name == '__class__': return o.cls
            if name == '__dict__': raise Unsupported('__dict__')
            d = o.cls.lookup(name)
            if isinstance(d, PropM): return self.call(d.f, [o], {})
            if isinstance(d, AbstractM): raise Unsupported('abstract method')
            if isinstance(d, CachedM): raise Unsupported('cached property')
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, Poison): raise Unsupported(f'use of field {name}: {v.why}')
                return v
            if isinstance(d, StaticM): return d.f
            if isinstance(d, ClassM): return Bound(d.f, o.cls)
            if isinstance(d, PyFunc): return Bound(d, o)
            if isinstance(d, Poison): raise Unsupported(f'use of attribute {name}: {d.why}')
            if d is not None:
                if isinstance(d, Obj) and any(d.cls.has(m) for m in ('__get__', '__set__')): raise Unsupported('descriptor')
                self.class_state(o.cls, name)
                return d
            if o.ghost is not None and o.ghost.get('abstract') and not name.startswith('__'):
                raise Unsupported(f'field {name} of an abstract {o.cls.name}')
            if name.startswith('__') and name.endswith('__'): raise Unsupported(f'attribute {name}')
            raise rz(AttributeError, name)
        if isinstance(o, NTuple):
            names = [n for n, _ in o.cls.nt_fields]
            if name in names: return o[names.index(name)]
            d = o.cls.lookup(name)
            if isinstance(d, PropM): return self.call(d.f, [o], {})
            if isinstance(d, StaticM): return d.f
            if isinstance(d, ClassM): return Bound(d.f, o.cls)
            if isinstance(d, PyFunc): return Bound(d, o)
            if name == '_replace': 
                def replace(vm, a, kw):
                    if len(a) > 1 or any(k not in names for k in kw): raise rz(TypeError if len(a) > 1 else ValueError)
                    return NTuple(o.cls, [kw.get(n, x) for n, x in zip(names, o)])
                return Bound(Builtin('_replace', replace), o)
            if name == '_fields': return tuple(names)
            if name in ('count', 'index') or name.startswith('_') or d is not None: raise Unsupported(f'attribute {name} of a named tuple')
            raise rz(AttributeError, name)
        if isinstance(o, SuperV):
            cls = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            mro = cls.mro()
            if o.cls not in mro: raise rz(TypeError, 'super')
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.ns:
                    d = c.ns[name]
                    if isinstance(d, PropM): return self.call(d.f, [o.obj], {})
                    if isinstance(d, StaticM): return d.f
                    if isinstance(d, ClassM): return Bound(d.f, cls)
                    if isinstance(d, PyFunc): return Bound(d, o.obj) if isinstance(o.obj, Obj) else d
                    self.class_state(c, name)
                    return d
            if name == '__init__' and isinstance(o.obj, Obj): return Builtin('__init__', lambda vm, a, kw: vm.std._raise_type() if a or kw else None)
            if name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__setattr__', '__new__', '__init_subclass__'): raise Unsupported(f'super().{name}')
            raise rz(AttributeError, name)
        if isinstance(o, PyClass):
            if name in ('__name__', '__qualname__'): return o.name
            if name == '__module__': return o.module
            d = o.lookup(name)
            if d is None:
                if o.nt_fields is not None:
                    if name == '_fields': return tuple(n for n, _ in o.nt_fields)
                    raise Unsupported(f'attribute {name} of a named tuple class')
                if name.startswith('__') and name.endswith('__'): raise Unsupported(f'attribute {name} of a class')
                if o.dc_fields is not None and name in dict(o.dc_fields): raise Unsupported(f'attribute {name} of a dataclass')
                raise rz(AttributeError, name)
            if isinstance(d, StaticM): return d.f
            if isinstance(d, ClassM): return Bound(d.f, o)
            if isinstance(d, (PropM, AbstractM, CachedM)): raise Unsupported('property object')
            if not isinstance(d, PyFunc): self.class_state(o, name)
            return d
        if isinstance(o, EnumCls):
            if name in o.members: return o.members[name]
            d = o.ns.get(name)
            if isinstance(d, StaticM): return d.f
            if isinstance(d, ClassM): return Bound(d.f, o)
            raise Unsupported(f'attribute {name} of an enum')
        if isinstance(o, (EnumInt, EnumMember)):
            if name in ('value', '_value_'): return int(o) if isinstance(o, EnumInt) else o.value
            if name in ('name', '_name_'): return o.name
            d = o.enum.ns.get(name)
            if isinstance(d, PropM): return self.call(d.f, [o], {})
            if isinstance(d, PyFunc): return Bound(d, o)
            if isinstance(o, EnumInt): return self.std.attr(self, int(o), name)
            raise Unsupported(f'attribute {name} of an enum member')
        if isinstance(o, PyFunc):
            if name in ('__name__',): return o.node.name if not isinstance(o.node, ast.Lambda) else '<lambda>'
            raise Unsupported(f'attribute {name} of a function')
        if isinstance(o, Module):
            if name in o.ns: 
                v = o.ns[name]
                if isinstance(v, Poison): raise Unsupported(v.why)
                if not self.loading and o.name.startswith('melodia') and name in mutable_state(self.root)['names'] and not isinstance(v, (Module, PyFunc)): raise Unsupported(f'module variable {name}, which some function changes')
                return v
            if o.name.startswith('melodia'):
                return self.load(o.name + '.' + name)
            raise Unsupported(f'{o.name}.{name}')
        return self.std.attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            d = o.cls.lookup(name)
            if isinstance(d, PropM):
                if d.setter is None: raise rz(AttributeError, name)
                self.call(d.setter, [o, v], {})
                return
            if isinstance(d, (CachedM, AbstractM)) or isinstance(d, Obj) and d.cls.has('__set__'): raise Unsupported('descriptor')
            if any(c.dc_fields is not None and c.frozen for c in o.cls.mro()): raise rz(AttributeError, name)
            sl = o.cls.slots()
            if sl is not None and name not in sl: raise rz(AttributeError, name)
            if name == '__class__': raise Unsupported('__class__ assignment')
            if o.ghost is not None and o.ghost.get('abstract'): raise Unsupported('field store on abstract object')
            if o.pre and o.built: self.pre_write(o, name)
            o.fields[name] = v
            return
        if isinstance(o, PyClass): raise Unsupported('class attribute store')
        raise Unsupported(f'setattr on {type(o).__name__}')

    # ------------------------------------------------------------------ state outside the objects a contract speaks about
    STATEFUL = {'Tone', 'Signature', 'Note', 'MIDIWriter', 'MIDIReader', 'Track'}

    def pre_write(self, o, name):
        """A field of an object that was there before the call is written.  The contracts start from objects as their
        constructors leave them (a track: from its class invariant), so what later calls see of such a field is not covered."""
        if o.cls.name not in self.STATEFUL or not (o.cls.module or '').startswith('melodia'): return
        if o.cls.name == 'Track':
            f = getattr(self, 'track_fields', None)
            if f is None or name in f(self): return
        self.notes.add(f'{o.cls.name}.{name} is written after the construction of the object')

    def class_state(self, cls, name):
        if not (cls.module or '').startswith('melodia'): return
        m = mutable_state(self.root)
        if name in m['attrs'] or (cls.name, name) in m['items']: raise Unsupported(f'class attribute {cls.name}.{name}, which some function changes')

    def getitem(self, o, k): return self.std.getitem(self, o, k)
    def setitem(self, o, k, v): return self.std.setitem(self, o, k, v)

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            g = f.func
            if isinstance(g, Builtin): return g.fn(self, [f.self_] + args, kw)
            return self.call(g, [f.self_] + args, kw)
        if isinstance(f, PyFunc): return self.call_func(f, args, kw)
        if isinstance(f, PyClass): return self.instantiate(f, args, kw)
        if isinstance(f, Builtin): return f.fn(self, args, kw)
        if isinstance(f, StaticM): return self.call(f.f, args, kw)
        if isinstance(f, type):
            return self.std.call_type(self, f, args, kw)
        if isinstance(f, Itemgetter): return self.getitem(args[0], f.i)
        if isinstance(f, Partial): return self.call(f.f, f.args + args, {**f.kw, **kw})
        if isinstance(f, Cached):
            if kw or not all(isinstance(x, (str, SStr, bytes, SBytes)) for x in args): raise Unsupported('a cache whose keys may be equal without being alike')
            r = self.call(f.f, args, kw)
            if isinstance(r, (SymList, PyDict, MBytes, GenCall, GenExp, LazyIter_())): raise Unsupported('a cache of mutable objects')
            return r
        if isinstance(f, EnumCls): return f.by_value(self, args[0]) if len(args) == 1 and not kw else _uns_('enum')
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m: return self.call(Bound(m, f), args, kw)
        raise Unsupported(f'call of {type(f).__name__}')

    def instantiate(self, cls, args, kw):
        if cls.issub(BaseException):
            if any(c.opaque_exc for c in cls.mro()): raise Unsupported('exception class with its own methods')
            if kw: raise rz(TypeError, 'keyword arguments of an exception')
            return ExcVal(cls, tuple(args))
        if any(isinstance(v, AbstractM) for n in cls.all_names() for v in [cls.lookup(n)]): raise rz(TypeError, 'abstract class')
        c = self.contracts.get(cls.name + '.__init__')
        if c is not None and self.depth > 0 and c is not self.top and c.summary is not None:
            r = c.summary(self, args, kw)
            if r is not NotImplemented:
                self.summarised.add(c.qual)
                return r
        if cls.nt_fields is not None:
            names = [n for n, _ in cls.nt_fields]
            vals = dict(zip(names, args))
            if len(args) > len(names): raise rz(TypeError)
            for k, v in kw.items():
                if k not in names or k in vals: raise rz(TypeError, k)
                vals[k] = v
            for n, d in cls.nt_fields:
                if n not in vals:
                    if isinstance(d, Poison): raise rz(TypeError, n)
                    vals[n] = d
            return NTuple(cls, [vals[n] for n in names])
        o = Obj(cls)
        o.pre = bool(getattr(self, 'in_building', 0))
        if cls.dc_fields is not None:
            names = [n for n, _ in cls.dc_fields]
            vals = dict(zip(names, args))
            if len(args) > len(names): raise rz(TypeError)
            for k, v in kw.items():
                if k not in names or k in vals: raise rz(TypeError, k)
                vals[k] = v
            for n, d in cls.dc_fields:
                if n not in vals:
                    if isinstance(d, Poison): raise rz(TypeError, n)
                    vals[n] = d
                o.fields[n] = vals[n]
            o.built = True; self.record_fields(o)
            return o
        init = cls.lookup('__init__')
        if init is None:
            if args or kw: raise rz(TypeError)
            o.built = True; self.record_fields(o)
            return o
        if not isinstance(init, PyFunc): raise Unsupported('__init__ is no function')
        if self.call_func(init, [o] + args, kw, ctor=True) is not None: raise rz(TypeError, '__init__() should return None')
        o.built = True; self.record_fields(o)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if not a.vararg: raise rz(TypeError, 'too many arguments')
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg: vals[a.vararg.arg] = ()
        for n, v in zip(names, args): vals[n] = v
        kwonly, posonly = [x.arg for x in a.kwonlyargs], [x.arg for x in a.posonlyargs]
        extra = PyDict()
        for k, v in kw.items():
            if k in posonly:
                if a.kwarg: extra.log.append([k, v]); continue
                raise rz(TypeError, 'positional-only argument')
            if k in vals and k in names: raise rz(TypeError, 'multiple values')
            if k in names or k in kwonly: vals[k] = v
            elif a.kwarg: extra.log.append([k, v])
            else: raise rz(TypeError, f'unexpected keyword {k}')
        if a.kwarg: vals[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in vals: vals[n] = d
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in vals and d is not NODEFAULT: vals[n] = d
        for n in names + kwonly:
            if n not in vals: raise rz(TypeError, f'missing argument {n}')
        return vals

    def is_gen(self, f):
        if f.is_gen is None:
            f.is_gen = False
            if not isinstance(f.node, ast.Lambda):
                stack = list(f.node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.FunctionDef, ast.Lambda)): continue
                    if isinstance(n, (ast.Yield, ast.YieldFrom)): f.is_gen = True
                    stack.extend(ast.iter_child_nodes(n))
        return f.is_gen

    def interface_kept(self, c, f, kw):
        memo = self.__dict__.setdefault('iface_memo', {})
        if id(f) not in memo:
            from contracts.base import interface
            memo[id(f)] = (interface(c, f), f)
        return memo[id(f)][0] in (None, 'same') or (memo[id(f)][0] == 'renamed' and not kw)

    def call_func(self, f, args, kw, ctor=False):
        c = self.contracts.get(f.qual)
        if c is not None and self.depth > 0 and (c is not self.top or c.recursive) and c.summary is not None and not ctor:
            r = c.summary(self, args, kw) if self.interface_kept(c, f, kw) else NotImplemented
            if r is not NotImplemented:
                self.summarised.add(c.qual)
                return r
        vals = self.bind(f, args, kw)
        env = Env(f.genv, f.closure, f.qual)
        env.vars.update(vals)
        env.func = f
        if f.locals_ is None: f.locals_ = local_names(f.node)
        env.locals_ = f.locals_
        env.frame = object()
        if self.is_gen(f): return GenCall(f, env)
        if self.depth > 0: self.inlined.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion too deep')
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, env)
            self.exec_block(f.node.body, env)
            return None
        except ReturnX as r:
            if r.frame is not env.frame: raise
            return r.value
        finally:
            self.depth -= 1

    def run_gen(self, g, on_item, consumer=None, thrown=False):
        """Run a generator call in push mode."""
        if g.state == 'done': return
        if g.state == 'on': raise Unsupported('a generator that is running or was left')
        g.state = 'on'
        def item(x):
            try: on_item(x)
            except (PyRaise, ReturnX, BreakX, ContinueX, GenBreak) as e:
                if not thrown: e.through = getattr(e, 'through', ()) + (g.env,)
                raise
        g.env.on_yield = item
        g.env.consumer = consumer
        self.inlined.add(g.func.qual)
        self.depth += 1
        try:
            self.exec_block(g.func.node.body, g.env)
        except ReturnX as r:
            if r.frame is not g.env.frame: raise
        except (PyRaise, GenBreak) as e:
            e.through = tuple(x for x in getattr(e, 'through', ()) if x is not g.env)
            raise
        finally:
            self.depth -= 1
        g.state = 'done'

    # ------------------------------------------------------------------ symbolic inputs
    def sym_int(self, name, lo=None, hi=None):
        v = SInt(z3.Int(name))
        self.path.inputs[name] = v
        if lo is not None: self.assume(v.t >= lo)
        if hi is not None: self.assume(v.t <= hi)
        return v

    def fresh_int(self, base='i', lo=None, hi=None):
        v = SInt(z3.Int(self.fresh_name(base)))
        if lo is not None: self.assume(v.t >= lo)
        if hi is not None: self.assume(v.t <= hi)
        return v

    def sym_float(self, name):
        v = SFloat(z3.Real(name) if self.float_mode == 'real' else z3.FP(name, FP))
        self.path.inputs[name] = v
        return v

    def fresh_float(self, base='f'):
        n = self.fresh_name(base)
        return SFloat(z3.Real(n) if self.float_mode == 'real' else z3.FP(n, FP))

    def cls(self, mod, name):
        c = self.load(mod).ns.get(name)
        if not isinstance(c, PyClass): raise Unsupported(f'class {mod}.{name} not found')
        return c
