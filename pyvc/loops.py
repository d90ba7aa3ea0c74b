"""Loops: unrolling, and cutting with loop specifications (invariants, measures, coupled transition systems)."""
import ast, os
import os
import z3
DEBUG = os.environ.get('PYVC_DEBUG')
from .values import *
from .engine import *
from . import stdlib


PURE_METHODS = {'items', 'values', 'keys', 'get', 'to_bytes', 'bit_length', 'from_bytes', 'join', 'group', 'groups',
                'copy', 'count', 'index', 'format', 'startswith', 'endswith', 'normalized', 'to', 'transposed',
                'with_velocity', 'with_duration', 'to_notation', 'match', 'fullmatch'}
PURE_FUNCS = {'len', 'isinstance', 'int', 'str', 'float', 'max', 'min', 'abs', 'range', 'enumerate', 'zip', 'sorted',
              'sum', 'tuple', 'list', 'bytes', 'repr', 'reversed', 'bool', 'all', 'any', 'iter', 'divmod'}


class LoopSpec:
    """A loop specification.  Subclasses override the parts they need.

    candidates(vm, ints, k): inductive-invariant candidates [(label, z3 Bool)] over the integer locations
    measures(vm, ints): termination measure candidates [(label, z3 Int)]; one must decrease and stay >= 0
    emits / carries / step: coupling with a transition system written as a spec (see contracts)
    """
    name = 'loop'
    emits = ()
    carries = ()
    def applies(self, vm, node, env, item_seq): return True
    def candidates(self, vm, ints, k): return []
    def measures(self, vm, ints): return []
    step = None


TRACK = {}        # operations on tracks (havoc, inv), provided by contracts/track.py


class Loc:
    def __init__(self, kind, key, get, set_): self.kind, self.key, self.get, self.set = kind, key, get, set_


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)): continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
    return out


def binders(stmts, name):
    """The statements that bind a name."""
    out = []
    for s in stmts:
        for n in ast.walk(s):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)) else \
                [i.optional_vars for i in n.items if i.optional_vars] if isinstance(n, ast.With) else [n] if isinstance(n, ast.ExceptHandler) else []
            for t in ts:
                if isinstance(t, ast.ExceptHandler):
                    if t.name == name: out.append(n)
                elif any(isinstance(m, ast.Name) and m.id == name for m in ast.walk(t)): out.append(n)
    return out


def aliased(e, name, v):
    while e is not None:
        if any(x is v and m != name for m, x in e.vars.items()): return True
        if any(isinstance(x, (Obj, SymList, PyDict, tuple)) and refers(x, v) for m, x in e.vars.items() if x is not v): return True
        e = e.parent
    return False


def refers(x, v, depth=3):
    if x is v: return True
    if depth == 0: return False
    if isinstance(x, Obj): return any(refers(y, v, depth - 1) for y in x.fields.values())
    if isinstance(x, SymList): return any(refers(y, v, depth - 1) for _, y in x.segs)
    if isinstance(x, tuple): return any(refers(y, v, depth - 1) for y in x)
    if isinstance(x, PyDict): return any(refers(y, v, depth - 1) for _, y in x.log)
    return False


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def mutated_roots(stmts):
    """Names whose value may be mutated by the statements (syntactic over-approximation)."""
    roots, called, iterated = set(), set(), set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    if n.func.attr not in PURE_METHODS:
                        r = root_name(n.func.value)
                        if r: roots.add(r)
                    pure = n.func.attr in PURE_METHODS
                elif isinstance(n.func, ast.Name):
                    called.add(n.func.id)
                    pure = n.func.id in PURE_FUNCS
                else: pure = False
                if not pure:
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        for m in ast.walk(a):
                            if isinstance(m, ast.Name): roots.add(m.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = root_name(n)
                if r: roots.add(r)
            elif isinstance(n, ast.AugAssign):
                r = root_name(n.target) if not isinstance(n.target, ast.Name) else n.target.id
                if r: roots.add(r)
            elif isinstance(n, (ast.For, ast.comprehension)):
                r = root_name(n.iter)
                if r: iterated.add(r)
    return roots, called, iterated - roots


_stored = {}


def stored_attrs(vm):
    """Attribute names some function of the package assigns (or deletes), except in the constructor of its own object."""
    if vm.root in _stored: return _stored[vm.root]
    out = set()
    for base, _, files in os.walk(os.path.join(vm.root, 'melodia')):
        for f in files:
            if not f.endswith('.py'): continue
            with open(os.path.join(base, f)) as fh: tree = ast.parse(fh.read())
            own = set()
            for c in ast.walk(tree):
                if isinstance(c, ast.ClassDef):
                    for m in c.body:
                        if isinstance(m, ast.FunctionDef) and m.name == '__init__' and m.args.args:
                            own |= {id(n) for n in ast.walk(m) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == m.args.args[0].arg}
            out |= {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in own}
    _stored[vm.root] = out
    return out


def peek(e, n):
    """(the scope the name is bound in, whether it can be bound at all): a local name without a value yet is no error here."""
    try: return e.find(n), True
    except PyRaise: return None, False


def modified_locations(vm, stmts, env, seen=None):
    """Variables and heap locations the loop body may change."""
    locs, objs = {}, {}
    seen = set() if seen is None else seen

    def add_var(e, n, stmts):
        if n in e.vars:
            v = e.vars[n]
            if isinstance(v, MBytes) and all(isinstance(a, ast.AugAssign) for a in binders(stmts, n)): return      # mutated in place
            if isinstance(v, SymList):
                if all(isinstance(a, ast.AugAssign) for a in binders(stmts, n)): return      # mutated in place
                if ('list', id(v)) not in locs and not aliased(e, n, v):
                    locs[('varlist', id(e), n)] = Loc('list', n, lambda: e.vars[n], lambda x: e.vars.__setitem__(n, x))
                    return
            locs[('var', id(e), n)] = Loc('var', n, lambda: e.vars[n], lambda v: e.vars.__setitem__(n, v))

    def add_obj(v, path):
        if id(v) in objs: return
        if isinstance(v, SymList):
            objs[id(v)] = v
            locs[('list', id(v))] = Loc('list', path, lambda: v, None)
        elif isinstance(v, PyDict):
            objs[id(v)] = v
            locs[('dict', id(v))] = Loc('dict', path, lambda: v, None)
            for _, x in v.log: add_obj(x, path + '[]')
        elif isinstance(v, MBytes):
            objs[id(v)] = v
            locs[('mbytes', id(v))] = Loc('mbytes', path, lambda: v, None)
        elif isinstance(v, FileObj):
            objs[id(v)] = v
            locs[('file', id(v))] = Loc('file', path, lambda: v, None)
        elif isinstance(v, Obj):
            objs[id(v)] = v
            if v.ghost is not None and v.ghost.get('track'):
                locs[('track', id(v))] = Loc('track', path, lambda: v, None)
                return
            stored = stored_attrs(vm)
            for f, x in list(v.fields.items()):
                if f in stored:
                    locs[('field', id(v), f)] = Loc('field', path + '.' + f, (lambda v=v, f=f: v.fields[f]),
                                                    (lambda y, v=v, f=f: v.fields.__setitem__(f, y)))
                add_obj(x, path + '.' + f)
        elif isinstance(v, Bound): add_obj(v.self_, path)
        elif isinstance(v, tuple):
            for x in v: add_obj(x, path)

    def scan(stmts, e):
        key = (id(stmts[0]) if stmts else 0, id(e))
        if key in seen: return
        seen.add(key)
        roots, called, iterated = mutated_roots(stmts)
        for n in iterated:
            # iterating over a value (or over something inside it) may reorder a track, but leaves dicts and lists alone
            t, _ = peek(e, n)
            v = t.vars[n] if t is not None else None
            if isinstance(v, PyDict):
                for _, x in v.log: add_obj(x, n + '[]')
            elif t is not None: add_obj(v, n)
        for n in roots | called:
            t, bound = peek(e, n)
            v = t.vars[n] if t is not None else e.genv.get(n) if bound else None
            if isinstance(v, PyFunc) and v.closure is not None:
                if ('fn', id(v.node), id(v.closure)) in seen: continue
                seen.add(('fn', id(v.node), id(v.closure)))
                e2 = Env(v.genv, v.closure, v.qual)
                for d in ast.walk(v.node):
                    if isinstance(d, ast.Nonlocal): e2.nonlocals.update(d.names)
                scan(v.node.body if not isinstance(v.node, ast.Lambda) else [ast.Expr(v.node.body)], e2)
            elif t is not None and n in roots: add_obj(v, n)
        for n in assigned_names(stmts):
            t = peek(e, n)[0] if (n in e.nonlocals) else (e if n in e.vars else None)
            if t is not None: add_var(t, n, stmts)
        if e.consumer is not None:
            has_yield = any(isinstance(x, ast.Yield) for s in stmts for x in ast.walk(s))
            if has_yield:
                node, ce = e.consumer
                scan([ast.Assign(targets=[node.target], value=ast.Constant(None))] + node.body, ce)
    scan(list(stmts), env)
    return list(locs.values())


def snapshot(v):
    if isinstance(v, (SymList, MBytes)): return v.copy()
    if isinstance(v, PyDict): return v.copy()
    if isinstance(v, FileObj):
        f = FileObj(v.blob, v.pos); f.out, f.closed = list(v.out), v.closed
        return f
    return v


# ---------------------------------------------------------------------- drivers
def leaving_by_break(s):
    """`while c: body` as `while True: if not c: break; body`."""
    d = getattr(s, 'leaving_by_break', None)
    if d is None:
        d = s.leaving_by_break = ast.copy_location(ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, []), s)
        ast.copy_location(d.test, s)
        for n in ast.walk(d.body[0]):
            if not hasattr(n, 'lineno'): ast.copy_location(n, s.test)
    return d


def exec_while(vm, s, env):
    def test(): return vm.truth(vm.ev(s.test, env))
    if vm.unroll is not None or not vm.loopspecs:
        bound = vm.unroll if vm.unroll is not None else 64
        n = 0
        while test():
            n += 1
            if n > bound: raise BoundHit()
            try: vm.exec_block(s.body, env)
            except ContinueX: continue
            except BreakX: return
        vm.exec_block(s.orelse, env)
        return
    body, rotated = (lambda item: vm.exec_block(s.body, env)), False
    if not s.orelse and not (isinstance(s.test, ast.Constant) and s.test.value is True) and any(getattr(sp, 'join_break', False) for sp in vm.loopspecs if sp.applies(vm, s, env, None)):
        if any(isinstance(n, ast.NamedExpr) or isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'len')) for n in ast.walk(s.test)):
            s = leaving_by_break(s)
            def test(): return True
        else:
            # `while c: body` as `if c: while True: body; if not c: break`; c holds whenever the body starts
            rotated, cond = True, test
            v = vm.ev(s.test, env)
            if not isinstance(v, int) or not v: raise Unsupported('a loop whose first test depends on the input')
            def test():
                try: return cond()
                except Unsupported: return True          # c need not be assumed
            def body(item):
                try: vm.exec_block(s.body, env)
                except ContinueX: pass
                if not cond(): raise BreakX()
    inv_loop(vm, s, env, test=test, seq=None, body=body, stmts=s.body + [ast.Expr(s.test)], rotated=rotated)
    # inv_loop returns normally on exit through the test, or after break
    if not vm.loop_broke: vm.exec_block(s.orelse, env)


def exec_for(vm, s, env):
    it = vm.ev(s.iter, env)
    if isinstance(it, GenCall):
        token = object()
        def on_item(v):
            vm.assign(s.target, v, env)
            try: vm.exec_block(s.body, env)
            except ContinueX: pass
            except BreakX: raise GenBreak(token)
        try:
            vm.run_gen(it, on_item, consumer=(s, env))
        except GenBreak as g:
            if g.token is not token: raise
            return
        vm.exec_block(s.orelse, env)
        return
    segs = stdlib.seq_segs(vm, it)
    if segs is None: raise Unsupported('for over unknown iterable')
    live = stdlib.live_of(it)
    def one(x):
        vm.assign(s.target, x, env)
        before = [stdlib.content(o) for o in live]
        try: vm.exec_block(s.body, env)
        except ContinueX: pass
        if before != [stdlib.content(o) for o in live]: raise Unsupported('a container changes while it is iterated over')
    for k, x in segs:
        if k == 'item':
            try: one(x)
            except BreakX: return
        else:
            body = one
            if copy_loop(vm, s, env, x): continue
            if map_loop(vm, s, env, x): continue
            if vm.unroll is not None or not vm.loopspecs:
                raise Unsupported('loop over symbolic sequence without loop specification')
            inv_loop(vm, s, env, test=None, seq=x, body=body,
                     stmts=[ast.Assign(targets=[s.target], value=ast.Constant(None))] + s.body)
            if vm.loop_broke: return
    vm.exec_block(s.orelse, env)


def copy_loop(vm, s, env, seq):
    """for x in seq: yield x   in a generator whose items are collected."""
    x = env
    while x is not None and x.on_yield is None: x = x.parent
    if x is None or x.collect is None or len(s.body) != 1 or not isinstance(s.target, ast.Name): return False
    b = s.body[0]
    if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Yield) and isinstance(b.value.value, ast.Name) and b.value.value.id == s.target.id): return False
    x.collect.append(('base', seq))
    return True


def map_loop(vm, s, env, seq):
    """for t in seq: out.append(expr)   is   out += [expr for t in seq], where expr does not read out."""
    if any(sp.applies(vm, s, env, seq) for sp in vm.loopspecs) or len(s.body) != 1: return False
    b = s.body[0]
    if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'append'
            and isinstance(b.value.func.value, ast.Name) and len(b.value.args) == 1 and not b.value.keywords): return False
    name = b.value.func.value.id
    used = {n.id for n in ast.walk(b.value.args[0]) if isinstance(n, ast.Name)}
    targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    out = vm.ev(b.value.func.value, env)
    if name in used | targets or not isinstance(out, SymList): return False
    world = stdlib.World(vm, env)
    def on(item):
        en = vm.scope(world.frozen, True)
        vm.assign(s.target, item, en)
        return vm.ev(b.value.args[0], en)
    out.segs.append(('base', stdlib.map_seq(vm, seq, on, world)))
    for n in targets: env.vars[n] = Poison('loop variable after the loop')
    return True


def loop_key(vm, s, env):
    return (env.qual, s.lineno, s.col_offset)


def is_intlike(v): return isinstance(v, (int, SInt)) and not isinstance(v, bool)


def inv_loop(vm, s, env, test, seq, body, stmts, rotated=False):
    key = loop_key(vm, s, env)
    st = vm.loopstate.setdefault(key, {'i': 0, 'dead': set(), 'log': []})
    specs = [sp for sp in vm.loopspecs if sp.applies(vm, s, env, seq)]
    if st['i'] >= len(specs):
        raise Unsupported(f'no loop specification fits the loop at {key[0]}:{key[1]}: ' + '; '.join(st['log'][-3:]))
    spec = specs[st['i']]

    def reject(why):
        st['log'].append(f'{spec.name}: {why}')
        if DEBUG: print('reject', key, spec.name, why, [(l.kind, l.key) for l in modified_locations(vm, stmts, env)])
        st['i'] += 1
        st['dead'] = set()
        raise Restart()

    vm.path.abstract = True
    vm.loop_broke = False
    locs = modified_locations(vm, stmts, env)
    if seq is not None:
        # the iterated sequence itself is a value here, not a location
        pass
    entry = {id(l): snapshot(l.get()) for l in locs}
    run = LoopRun(vm, spec, locs, entry, key, seq, reject)
    targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if isinstance(s, ast.For) else set()
    run.targets = {id(l) for l in locs if l.kind == 'var' and l.key in targets}      # rebound by every iteration, so no component
    run.last = st['i'] == len(specs) - 1
    for l in locs:
        if l.kind != 'track': continue
        e = env
        while e is not None:
            for x in e.vars.values():
                if isinstance(x, SymList) and any(x is y for y in l.get().fields.values()): raise Unsupported('a local variable aliases the list of a track across a loop')
            e = e.parent
        if not vm.valid(TRACK['inv'](vm, l.get(), None)): raise Unsupported('the class invariant of a track does not hold at a loop head')
    if getattr(spec, 'enter', None): spec.enter(vm, run)
    # --- initialisation
    k0 = z3.IntVal(0)
    run.match()
    init, again = set(), False
    for label, f in run.cands(k0):
        init.add(label)
        if label in st['dead']: continue
        if not vm.valid(f):
            st['dead'].add(label)
            again = True
    if again: raise Restart()
    pc0 = list(vm.path.pc)
    # --- arbitrary iteration
    k = vm.fresh_int('k_' + spec.name, 0)
    if seq is not None: vm.assume(k.t <= seq.n)
    run.havoc(k.t)
    for n in assigned_names(stmts):
        if n not in env.vars and n not in env.nonlocals and n not in env.globals_:
            env.vars[n] = Poison('assigned by an earlier iteration or not at all')
    alive = [(l, f) for l, f in run.cands(k.t) if l not in st['dead'] and l in init]
    for l, f in alive: vm.assume(f)
    pre_meas = [(l, m) for l, m in run.meas()]
    which = vm.choose(2)
    if which == 1:
        # exit
        if seq is not None: vm.assume(k.t == seq.n)
        elif rotated or test():
            raise PathEnd()
        run.finish(k.t)
        vm.loop_broke = False
        return
    if seq is not None:
        vm.assume(k.t < seq.n)
        item = seq.elem(vm, k.t)
    else:
        item = None
        if not test(): raise PathEnd()
    run.before_body(k.t, item)
    outcome = ('next', None)
    try:
        body(item)
    except ContinueX: pass
    except BreakX: outcome = ('break', None)
    except GenBreak as g: outcome = ('genbreak', g)
    except ReturnX as r: outcome = ('return', r)
    except PyRaise as e: outcome = ('raise', e)
    run.after_body(k.t, item, outcome)
    if outcome[0] == 'next':
        after = dict(run.cands(k.t + 1))
        for label, _ in alive:
            if label not in after or not vm.valid(after[label]):
                st['dead'].add(label)
                again = True
        if again: raise Restart()
        if seq is None:
            post = dict(run.meas())
            bad = set()
            ms = [(l, m) for l, m in pre_meas if ('m', l) not in st['dead']]
            ok = False
            for l, m in ms:
                if l in post and vm.valid(z3.And(m >= 0, post[l] < m)): ok = True
                else: bad.add(('m', l))
            if bad:
                st['dead'] |= bad
                raise Restart()
            tag = getattr(vm.top, 'term_tag', None) or vm.top.props[0]
            vm.prove(f'{tag} {vm.top.qual}: the loop in {key[0]} terminates (a measure decreases)', z3.BoolVal(ok), kind='termination')
        raise PathEnd()
    if outcome[0] == 'break':
        if getattr(spec, 'join_break', False):
            # all paths that leave the loop here continue from one state: what the specification says about it
            jk = (key, tuple(c.get_id() for c in pc0))
            first = vm.__dict__.setdefault('joined', {}).setdefault(jk, (list(vm.path.trace), pc0))
            if first[0] != vm.path.trace: raise PathEnd()
            vm.path.pc[:] = list(pc0)
            vm.assume(k.t >= 0)
            run.rejoin(k.t)
            for n in assigned_names(stmts):
                if n in env.vars and not any(l.kind == 'var' and l.key == n and id(l) in run.used for l in locs): env.vars[n] = Poison('assigned in a loop that was left')
        run.finish(k.t + 1)
        vm.loop_broke = True
        return
    if getattr(run, 'left_by_return', False): run.finish(k.t + 1)
    raise outcome[1]


class LoopRun:
    """One traversal of a loop head: locations, matching with the specification, havoc, comparison."""
    def __init__(self, vm, spec, locs, entry, key, seq, reject):
        self.vm, self.spec, self.locs, self.entry, self.key, self.seq, self.reject = vm, spec, locs, entry, key, seq, reject
        self.bind = {}        # component name -> Loc
        self.used = set()
        self.targets = set()

    def entry_of(self, l): return self.entry[id(l)]

    def ints(self):
        out = {}
        for l in self.locs:
            v = l.get()
            if is_intlike(v) and id(l) not in self.used: out[l.key] = self.vm.T(v)
        return out

    def cands(self, k):
        self.spec.run_ = self
        same = []
        for l in self.locs:
            v, e = l.get() if l.kind in ('var', 'field') and id(l) not in self.used and id(l) not in self.targets else None, self.entry_of(l)
            if isinstance(v, (bool, SBool)) and isinstance(e, (bool, SBool)): same.append((f'{l.key} as before the loop', self.vm.B(v) == self.vm.B(e)))
        return same + list(self.spec.candidates(self.vm, self.ints(), k))
    def meas(self): return self.spec.measures(self.vm, self.ints())

    def match(self):
        """Bind emit and carry components to locations."""
        vm = self.vm
        for c in self.spec.carries:
            cand = [l for l in self.locs if id(l) not in self.used and id(l) not in self.targets and c.fits(vm, l, self.entry_of(l))]
            if not cand:
                if c.optional: continue
                self.reject(f'no location for component {c.name}')
            pref = [l for l in cand if l.key.split('.')[-1] == c.hint] if c.hint else []
            l = (pref or cand)[0]
            self.bind[c.name] = l; self.used.add(id(l))
        for c in self.spec.emits:
            cand = [l for l in self.locs if id(l) not in self.used and id(l) not in self.targets and c.fits(vm, l, self.entry_of(l))]
            if not cand:
                if c.optional: continue
                self.reject(f'no location for {c.name}')
            self.bind[c.name] = cand[0]; self.used.add(id(cand[0]))

    def havoc(self, k):
        vm = self.vm
        self.state = {}
        for l in self.locs:
            if l.kind == 'list' and l.set is not None: l.set(l.get().copy())
        for c in list(self.spec.carries) + list(self.spec.emits):
            if c.name not in self.bind: continue
            l = self.bind[c.name]
            self.state[c.name] = c.havoc(vm, l, self.entry_of(l), self, k)
        if getattr(self.spec, 'on_havoc', None): self.spec.on_havoc(vm, self, k)
        for l in self.locs:
            if id(l) in self.used: continue
            v = self.entry_of(l)
            if l.kind in ('var', 'field'):
                if isinstance(v, (bool, SBool)): l.set(SBool(z3.Bool(vm.fresh_name('h_' + l.key))))
                elif is_intlike(v): l.set(vm.fresh_int('h_' + l.key))
                elif isinstance(v, (float, SFloat)): l.set(vm.fresh_float('h_' + l.key))
                elif isinstance(v, (bytes, SBytes)): l.set(SBytes([OpaqueBytes(z3.Const(vm.fresh_name('hb_' + l.key), Byt), vm.fresh_int('hbn', 0).t)]))
                elif l.kind == 'var': l.set(Poison(f'value of {l.key} changed by an earlier iteration'))
                else: l.set(Poison(f'value of {l.key} changed by an earlier iteration'))
            elif l.kind == 'list':
                # unknown content
                lst = l.get()
                lst.segs[:] = [('base', SymSeq(vm.fresh_name('unk'), vm.fresh_int('n', 0).t, _poison_elem,
                                            byt=z3.Const(vm.fresh_name('byt'), Byt), rbyt=z3.Const(vm.fresh_name('rbyt'), Byt)))]
            elif l.kind == 'dict':
                d = l.get(); d.log[:] = []
                d.base = MapBase(vm.fresh_name('unk'), _poison_get)
            elif l.kind == 'track':
                TRACK['havoc'](vm, l.get(), None)
            elif l.kind == 'mbytes':
                l.get().v = SBytes([OpaqueBytes(z3.Const(vm.fresh_name('mb'), Byt), vm.fresh_int('mbn', 0).t, ('rev', z3.Const(vm.fresh_name('rmb'), Byt)))])
            elif l.kind == 'file':
                f = l.get()
                if f.blob is not None: f.pos = vm.fresh_int('fpos', 0).t
                if f.out or f.blob is None: f.out = [Poison('written by an earlier iteration')]

    def rejoin(self, k):
        """The state after a break in iteration k, for specifications in which a break changes no component but those with 'left'."""
        self.left = True
        saved = self.spec.carries, self.spec.emits
        comps = list(saved[0]) + list(saved[1])
        gone = [c for c in comps if c.name in self.bind and getattr(c, 'left', False)]
        for c in gone: self.used.discard(id(self.bind[c.name]))
        try:
            self.spec.carries, self.spec.emits = [c for c in saved[0] if c not in gone], [c for c in saved[1] if c not in gone]
            self.havoc(k)
        finally: self.spec.carries, self.spec.emits = saved

    def before_body(self, k, item):
        self.pre = {n: snapshot_state(v) for n, v in self.state.items()}

    def after_body(self, k, item, outcome):
        vm = self.vm
        for l in self.locs:
            if l.kind == 'track' and id(l) not in self.used and outcome[0] in ('next', 'break'):
                if not vm.valid(TRACK['inv'](vm, l.get(), None)): self.fail('class invariant of a track')
        if self.spec.step is None: return
        res = self.spec.step(vm, self, self.pre, item, k, outcome)
        self.escaped = outcome[0] == 'raise' and not exc_named(outcome[1].exc, getattr(self.spec, 'known_error', ''))
        if res is None: return self.fail('the outcome of the body: ' + self.say(outcome))
        kind, new = res
        if kind == 'raise':
            if outcome[0] == 'raise' and exc_named(outcome[1].exc, new): return
            return self.fail(f'the body must raise {new}; it does: {self.say(outcome)}')
        if kind == 'break' and outcome[0] == 'return': self.left_by_return = True      # leaving by return is leaving
        elif kind != outcome[0]: return self.fail(f'the body must {kind}; it does: {self.say(outcome)}')
        if kind == 'return': return
        for c in list(self.spec.carries) + list(self.spec.emits):
            if c.name not in self.bind: continue
            l = self.bind[c.name]
            if kind == 'break' and getattr(self.spec, 'join_break', False) and getattr(c, 'left', False): continue     # arbitrary afterwards
            goal = c.goal(vm, l, self.entry_of(l), self, self.pre, new.get(c.name), k)
            if isinstance(goal, bool): goal = z3.BoolVal(goal)
            if not vm.valid(goal): self.fail(f'component {c.name} after one iteration', goal)

    def say(self, outcome):
        return f'raise {outcome[1].exc.name}' if outcome[0] == 'raise' else outcome[0]

    def fail(self, why, goal=None):
        """The step differs from the specification: try the next loop specification, or report the failed obligation."""
        vm = self.vm
        if vm.valid(z3.BoolVal(False)): raise PathEnd()
        if DEBUG: print('fail', self.key, self.spec.name, why, z3.simplify(goal) if goal is not None else '')
        if not self.last: self.reject(why)
        tag = (getattr(self.spec, 'raise_tag', None) if getattr(self, 'escaped', False) else None) or getattr(self.spec, 'tag', None) or getattr(vm.top, 'term_tag', None) or vm.top.props[0]
        vm.prove(f'{tag} {vm.top.qual}: loop specification "{self.spec.name}" in {self.key[0]}: {why}', goal if goal is not None else z3.BoolVal(False), kind='loop')
        raise PathEnd()

    def finish(self, k):
        self.vm.path.__dict__.setdefault('loops', {})[self.spec.name] = self
        self.final_k = k
        self.spec_finish = getattr(self.spec, 'finish', None)
        if self.spec_finish: self.spec_finish(self.vm, self, k)


def exc_named(exc, name):
    c = exc.cls
    while c is not None:
        if isinstance(c, type): return any(x.__name__ == name for x in c.__mro__)
        if c.name == name: return True
        c = c.bases[0] if c.bases else None
    return False


def snapshot_state(v):
    return v.copy() if isinstance(v, (PyDict, SymList)) else v


def _poison_elem(vm, i): raise Unsupported('element of a list changed by an earlier iteration')
def _poison_get(vm, k): raise Unsupported('value of a map changed by an earlier iteration')
