"""Contracts of melodia.core.track.

The abstract value of a track is a time signature and a multiset (sort Bag) of keys K(position, pitch, duration
nominator, duration denominator, velocity); positions are the exact fractions.  The class invariant ties the fields
(found by running the real constructor) to it:
  - the list holds exactly the multiset, as pairs (Signature, Note);
  - every stored denominator divides (is at most) the stored maximal denominator, a power of two;
  - the sorted flag implies that the list is ascending by (position, note);
  - the stored length is the largest position + duration.
"""
from .base import *
from .note import note_case, copy_note
from .signature import val
from pyvc.loops import LoopSpec, TRACK
from pyvc import stdlib

REF = {}


def note_key_terms(vm, note):
    p, n, d, v = obs_note(vm, note)
    val(vm, get(vm, note, 'duration'))
    return p, n, d, v


def key_of(vm, pos, note):
    """Key of a pair, or None."""
    if obs_sig(vm, pos) is None or obs_note(vm, note) is None: return None
    p, n, d, v = note_key_terms(vm, note)
    return K(val(vm, pos), p, n, d, v)


def elem_key(vm, item):
    if not isinstance(item, tuple) or len(item) != 2: return None
    return key_of(vm, *item)


def klt(vm, a, b):
    """Ascending order of pairs: by position, then by the note (pitch, duration, velocity)."""
    (p, x), (q, y) = a, b
    V1, V2 = val(vm, p), val(vm, q)
    from .note import lex, note_key
    return z3.Or(V1 < V2, z3.And(V1 == V2, lex('Lt', note_key(vm, x), note_key(vm, y))))


# ---------------------------------------------------------------------- abstract lists of pairs
def pair_seq(vm, name, bag, sorted_, maxden=None, n=None):
    """A sequence of pairs with multiset bag; the elements are determined by functions of the index."""
    I = z3.IntSort()
    fs = {x: z3.Function(f'{x}_{name}', I, I) for x in ('pn', 'pd', 'pp', 'dn', 'dd')}
    fv = z3.Function(f'pv_{name}', I, FP)
    n = n if n is not None else bsize(bag)
    def elem(vm2, k):
        t = {x: f(k) for x, f in fs.items()}
        v = fv(k)
        vm2.assume(z3.And(t['pn'] >= 0, t['pd'] >= 1, isp2(t['pd']), t['dn'] >= 0, t['dd'] >= 1, isp2(t['dd']), vel_ok(vm2, v)))
        if maxden is not None: vm2.assume(t['pd'] <= maxden)
        pos = mk_sig(vm2, vm2.mkint(t['pn']), vm2.mkint(t['pd']))
        dur = mk_sig(vm2, vm2.mkint(t['dn']), vm2.mkint(t['dd']))
        tone = mk_tone(vm2, vm2.mkint(t['pp']))
        note = build(vm2, lambda: vm2.instantiate(Not(vm2), [], {'tone': tone, 'duration': dur, 'velocity': SFloat(v)}))
        return (pos, note)
    s = SymSeq(name, n, elem, bag=bag, sorted=sorted_)
    s.fs, s.fv = fs, fv
    return s


def seg_bag(vm, segs):
    b = None
    for k, x in segs:
        if k == 'base':
            if b is not None or 'bag' not in x.attrs: return None
            b = x.attrs['bag']
    if b is None: b = bempty
    for k, x in segs:
        if k == 'item':
            kk = elem_key(vm, x)
            if kk is None: return None
            b = badd(b, kk)
    return b


def seg_sorted(vm, segs):
    if len(segs) == 1 and segs[0][0] == 'base': return segs[0][1].attrs.get('sorted', z3.BoolVal(False))
    if len(segs) == 0 or (len(segs) == 1): return z3.BoolVal(True)
    return z3.Bool(vm.fresh_name('sorted'))


def drawn(old_segs, extra=None):
    """Element function of a rearrangement: every element is one of the old ones (or the extra one)."""
    def elem(vm, k):
        opts = ([('x', extra)] if extra is not None else []) + list(old_segs)
        if not opts: raise PathEnd()
        kind, s = opts[vm.choose(len(opts))] if len(opts) > 1 else opts[0]
        if kind == 'base':
            i = z3.Function('perm_' + s.name, z3.IntSort(), z3.IntSort())(k)
            vm.assume(z3.And(i >= 0, i < s.n))
            return s.elem(vm, i)
        return s
    return elem


def install(vm):
    """Models of heappush, sort and comprehensions on lists of (position, note) pairs."""
    def heap_hook(vm, l, x):
        b = seg_bag(vm, l.segs)
        kk = elem_key(vm, x)
        if b is None or kk is None: raise Unsupported('heappush of something else than (position, note)')
        # CPython compares the new pair with some stored ones; the comparison must not fail
        old = list(l.segs)
        n = vm.T(stdlib.length(vm, l)) + 1
        l.segs[:] = [('base', SymSeq(vm.fresh_name('pushed'), n, drawn(old, x), bag=badd(b, kk), sorted=z3.Bool(vm.fresh_name('sorted'))))]

    def generic_lt(vm, l, key):
        """Does the comparison used by sort agree with the order of the keys, for every two elements?"""
        i, j = vm.fresh_int('si'), vm.fresh_int('sj')
        def at(t):
            base = [s for k, s in l.segs if k == 'base']
            e = base[0].elem(vm, t)
            return e
        base = [s for k, s in l.segs if k == 'base']
        if len(base) != 1: return False
        x, y = fresh_pair(vm, 'sx'), fresh_pair(vm, 'sy')
        kx, ky = (x, y) if key is None else (vm.call(key, [x], {}), vm.call(key, [y], {}))
        r = vm.cmp('Lt', kx, ky)
        t = vm.B(r) if isinstance(r, (bool, SBool)) else z3.BoolVal(vm.truth(r))
        return vm.valid(t == klt(vm, x, y))

    def sort_hook(vm, l, key, rev):
        b = seg_bag(vm, l.segs)
        if b is None: raise Unsupported('sort of something else than (position, note) pairs')
        ok = rev is False and generic_lt(vm, l, key)
        if ok and vm.valid(seg_sorted(vm, l.segs)): return      # sorting is stable: nothing changes
        old = list(l.segs)
        n = vm.T(stdlib.length(vm, l))
        memo = vm.path.__dict__.setdefault('sorted_memo', {})       # sorting is a function
        key_ = (tuple(id(x) for _, x in old), ok)
        if key_ in memo and key is None and rev is False:
            l.segs[:] = list(memo[key_][0])
            return
        l.segs[:] = [('base', SymSeq(vm.fresh_name('sortd'), n, drawn(old), bag=b, sorted=z3.BoolVal(True) if ok else z3.Bool(vm.fresh_name('sorted'))))]
        if key is None and rev is False: memo[key_] = (list(l.segs), old)

    def perm_hook(vm, l):
        b = seg_bag(vm, l.segs)
        if b is None: raise Unsupported('rearrangement of other things')
        old = list(l.segs); n = vm.T(stdlib.length(vm, l))
        l.segs[:] = [('base', SymSeq(vm.fresh_name('perm'), n, drawn(old), bag=b, sorted=z3.Bool(vm.fresh_name('sorted'))))]

    def insort_hook(vm, l, x):
        b, kk = seg_bag(vm, l.segs), elem_key(vm, x)
        if b is None or kk is None: raise Unsupported('insort of something else')
        old, so = list(l.segs), seg_sorted(vm, l.segs)
        n = vm.T(stdlib.length(vm, l)) + 1
        if [s for k, s in old if k == 'base'] and not generic_lt(vm, l, None): so = z3.Bool(vm.fresh_name('sorted'))
        l.segs[:] = [('base', SymSeq(vm.fresh_name('pushed'), n, drawn(old, x), bag=badd(b, kk), sorted=so))]

    def map_hook(vm, s, e, r):
        if 'bag' not in s.attrs: return None
        if e is not None:
            ke, kr = elem_key(vm, e), elem_key(vm, r)
            if kr is None: return None
            vm.map_same = getattr(vm, 'map_same', {})
            same = vm.valid(ke == kr)
            memo = vm.loopstate.setdefault(('map', s.name, 0), {'i': 0, 'dead': set(), 'log': []})
            if not same and 'differs' not in memo['dead']:
                memo['dead'].add('differs')
                raise Restart()
            return None
        memo = vm.loopstate.get(('map', s.name, 0))
        if memo and 'differs' in memo['dead']: return {}
        return dict(bag=s.attrs['bag'], sorted=s.attrs.get('sorted', z3.BoolVal(False)))
    vm.heap_hook, vm.sort_hook, vm.perm_hook, vm.insort_hook, vm.map_hook = heap_hook, sort_hook, perm_hook, insort_hook, map_hook


def fresh_pair(vm, base):
    s, _, _ = fresh_sig(vm, base)
    return (s, fresh_note(vm, base))


def fresh_note(vm, base):
    d, _, _ = fresh_sig(vm, base + 'd')
    t = mk_tone(vm, vm.fresh_int(base + 'p'))
    v = vm.fresh_float(base + 'v')
    vm.assume(vel_ok(vm, v.t))
    return build(vm, lambda: vm.instantiate(Not(vm), [], {'tone': t, 'duration': d, 'velocity': v}))


# ---------------------------------------------------------------------- shape of the representation
def counts(vm, field):
    """Is the field 2 after two additions?"""
    saved, vm.path = vm.path, Path([])
    try:
        install(vm)
        with building(vm):
            o = vm.instantiate(Trk(vm), [], {'signature': mk_sig(vm, 3, 4)})
            note = vm.instantiate(Not(vm), [], {'tone': 60, 'duration': (1, 4), 'velocity': 0.5})
            for _ in range(2): vm.call(vm.getattr(o, 'add'), [note, (1, 4)], {})
            return o.fields.get(field) == 2
    except (PyRaise, PathEnd, Unsupported, Restart): return True
    finally: vm.path = saved


def sorted_value(vm, field, initial):
    """The value of the boolean field that marks a sorted list: the one iterating switches it to after an addition; when
    iterating switches nothing, the value of a new track (its list is empty, hence sorted)."""
    saved, vm.path = vm.path, Path([])
    try:
        install(vm)
        with building(vm):
            o = vm.instantiate(Trk(vm), [], {'signature': mk_sig(vm, 3, 4)})
            note = vm.instantiate(Not(vm), [], {'tone': 60, 'duration': (1, 4), 'velocity': 0.5})
            vm.call(vm.getattr(o, 'add'), [note, (1, 4)], {})
            before = o.fields.get(field)
            try: stdlib.iter_items(vm, o)
            except Unsupported: pass           # the items themselves are of no interest
            after = o.fields.get(field)
    except (PyRaise, PathEnd, Unsupported, Restart): return initial
    finally: vm.path = saved
    return after if isinstance(before, bool) and isinstance(after, bool) and before != after else initial


def shape(vm):
    """Which field plays which role, from the real constructor."""
    sh = getattr(vm, '_trk_shape', None)
    if sh is not None: return sh
    saved, vm.path = vm.path, Path([])        # outside the path being explored
    try:
        with building(vm):
            sig = mk_sig(vm, 3, 4)
            try: o = vm.instantiate(Trk(vm), [], {'signature': sig})
            except PyRaise: raise Unsupported('empty track construction raises')
    finally: vm.path = saved
    role = {}
    for f, v in o.fields.items():
        if v is sig: r = 'sig'
        elif isinstance(v, SymList) and not v.segs: r = 'list'
        elif isinstance(v, bool): r = 'flag' if sorted_value(vm, f, v) else 'dirty'
        elif isinstance(v, int) and v >= 1 and v & (v - 1) == 0: r = 'maxden'
        elif isinstance(v, int) and v == 0 and counts(vm, f): r = 'count'
        elif isinstance(v, Obj) and v.cls is Sig(vm) and obs_sig(vm, v) is not None and z3.simplify(obs_sig(vm, v)[0]).eq(z3.IntVal(0)): r = 'maxpos'
        else: raise Unsupported(f'field {f} of Track has no known role')
        if r in role: raise Unsupported(f'two fields of Track look alike: {f}, {role[r]}')
        role[r] = f
    if 'list' not in role or 'sig' not in role: raise Unsupported('fields of Track')
    vm._trk_shape = role
    vm.track_fields = lambda vm2: set(role.values())
    return role


def set_state(vm, o, bag, name=None, inplace=True):
    """Puts the track into an arbitrary state satisfying the class invariant, with multiset bag (fresh when None)."""
    role = shape(vm)
    if bag is None:
        bag = z3.Const(vm.fresh_name('bag'), Bag)
    name = name or vm.fresh_name('trk')
    md = None
    if 'maxden' in role:
        m = vm.fresh_int('maxden', 1); md = m.t
        vm.assume(isp2(md))
        o.fields[role['maxden']] = m
    so = z3.Bool(vm.fresh_name('issorted'))
    if 'flag' in role:
        b = z3.Bool(vm.fresh_name('flag')); o.fields[role['flag']] = SBool(b); vm.assume(z3.Implies(b, so))
    elif 'dirty' in role:
        b = z3.Bool(vm.fresh_name('flag')); o.fields[role['dirty']] = SBool(b); vm.assume(z3.Implies(z3.Not(b), so))
    elif getattr(vm, 'always_sorted', True): pass
    if 'count' in role: o.fields[role['count']] = SInt(bsize(bag))
    if 'maxpos' in role:
        s, n, d = fresh_sig(vm, 'end')
        vm.assume(val(vm, s) == bmax(bag))
        o.fields[role['maxpos']] = s
    seq = pair_seq(vm, name, bag, so, md)
    vm.assume(bsize(bag) >= 0)
    l = o.fields.get(role['list'])
    if isinstance(l, SymList) and inplace: l.segs[:] = [('base', seq)]
    else: o.fields[role['list']] = SymList([('base', seq)])
    o.ghost = {'track': True}
    return bag


def mk_track(vm, name, bag=None, sig=None):
    role = shape(vm)
    o = Obj(Trk(vm)); o.pre = o.built = True
    if sig is None: sig, n, d = sym_sig(vm, name + '_s')
    o.fields[role['sig']] = sig
    bag = set_state(vm, o, bag if bag is not None else z3.Const('bag_' + name, Bag), name)
    return o, bag, sig


def state_bag(vm, o):
    l = o.fields.get(shape(vm)['list'])
    return seg_bag(vm, l.segs) if isinstance(l, SymList) else None


def inv_parts(vm, o, bag=None):
    """[(tag, what, formula)] of the class invariant for the multiset bag (its own when None)."""
    role = shape(vm)
    extra = set(o.fields) - set(role.values())
    if extra: raise Unsupported(f'new fields {sorted(extra)} of Track')
    out = []
    l = o.fields.get(role['list'])
    own = state_bag(vm, o)
    if own is None: return [('C11', 'the list holds (position, note) pairs', z3.BoolVal(False))]
    if bag is None: bag = own
    else: out.append(('C11', 'contents', own == bag))
    n = vm.T(stdlib.length(vm, l))
    out.append(('C11', 'number of stored pairs', n == bsize(bag)))
    so = seg_sorted(vm, l.segs)
    f = o.fields.get(role.get('flag'), o.fields.get(role.get('dirty')))
    if 'flag' in role or 'dirty' in role:
        ft = vm.B(f) if isinstance(f, (bool, SBool)) else None
        if ft is None: raise Unsupported('sorted flag')
        out.append(('C12', 'a list marked as sorted is sorted', z3.Implies(ft if 'flag' in role else z3.Not(ft), so)))
    if 'count' in role: out.append(('C11', 'stored count', vm.T(o.fields[role['count']]) == bsize(bag)))
    if 'maxpos' in role:
        s = o.fields[role['maxpos']]
        out.append(('C13', 'length is the right-most end', val(vm, s) == bmax(bag)) if obs_sig(vm, s) is not None else ('C13', 'length is a signature', z3.BoolVal(False)))
    if 'maxden' in role:
        md = vm.T(o.fields[role['maxden']])
        out.append(('C11', 'maximal denominator is a power of two', z3.And(md >= 1, isp2(md))))
        for kind, s in l.segs:
            if kind == 'item': e = s
            else: e = s.elem(vm, vm.fresh_int('anyk').t)
            ps = obs_sig(vm, e[0])
            out.append(('C11', 'stored denominators do not exceed the maximal one', z3.And(isp2(ps[1]), ps[1] <= md)))
    return out


def inv_formula(vm, o, bag=None): return z3.And([f for _, _, f in inv_parts(vm, o, bag)])


TRACK['havoc'] = lambda vm, o, bag: set_state(vm, o, bag)
TRACK['inv'] = inv_formula


def prove_inv(vm, name, o, bag):
    for tag, what, f in inv_parts(vm, o, bag): vm.prove(f'{tag} {name}: {what}', f, kind='inv')


class TrackComp:
    """Loop component: the multiset of one track after k iterations."""
    optional, hint = False, None
    def __init__(self, name, pick, bagfn): self.name, self.pick, self.bagfn = name, pick, bagfn
    def fits(self, vm, l, entry): return l.kind == 'track' and self.pick(l.get())
    def havoc(self, vm, l, entry, run, k): return set_state(vm, l.get(), self.bagfn(k))
    def goal(self, vm, l, entry, run, pre, new, k):
        o = l.get()
        b = state_bag(vm, o)
        if b is None: return z3.BoolVal(False)
        return inv_formula(vm, o, new)


# ---------------------------------------------------------------------- add
def any_position(vm, prefix, kind, end):
    """(argument, validity, value of the position)"""
    if kind == 'none': return None, z3.BoolVal(True), end
    if kind == 'sig':
        s, n, d = sym_sig(vm, prefix); return s, z3.BoolVal(True), val(vm, s)
    if kind in ('int', 'float', 'len0', 'len1', 'len3'):
        v = {'int': 3, 'float': 0.25}.get(kind)
        if v is None: v = tuple(vm.sym_int(f'{prefix}_{x}') for x in 'nde')[:int(kind[3:])]
        return v, z3.BoolVal(False), end
    n, d = vm.sym_int(prefix + '_n'), vm.sym_int(prefix + '_d')
    ok = z3.And(n.t >= 0, d.t > 0, isp2(d.t))
    v = (n, d) if kind == 'tuple' else SymList([('item', n), ('item', d)])
    from .signature import value_facts
    value_facts(vm, n.t, d.t)
    return v, ok, V(n.t, d.t)


class GroupLoop(LoopSpec):
    name = 'add a group'
    def __init__(self, track, G, posv, seq):
        self.track, self.G, self.posv, self.seq = track, G, posv, seq
        self.carries = [TrackComp('track', lambda o: o is track, lambda k: G(k))]
    def applies(self, vm, node, env, seq): return seq is self.seq
    def step(self, vm, run, pre, item, k, outcome):
        if outcome[0] not in ('next',): return None
        kk = K(self.posv, *note_key_terms(vm, item))
        vm.assume(self.G(k + 1) == badd(self.G(k), kk))       # definition of the specification G
        return 'next', {'track': self.G(k + 1)}


def note_seq(vm, name):
    """An arbitrary finite sequence of notes."""
    I = z3.IntSort()
    p, n, d = (z3.Function(f'{x}_{name}', I, I) for x in ('np', 'nn', 'nd'))
    v = z3.Function('nv_' + name, I, FP)
    def elem(vm2, k):
        vm2.assume(z3.And(n(k) >= 0, d(k) >= 1, isp2(d(k)), vel_ok(vm2, v(k))))
        t = mk_tone(vm2, vm2.mkint(p(k)))
        s = mk_sig(vm2, vm2.mkint(n(k)), vm2.mkint(d(k)))
        return build(vm2, lambda: vm2.instantiate(Not(vm2), [], {'tone': t, 'duration': s, 'velocity': SFloat(v(k))}))
    return SymSeq(name, vm.sym_int(name + '_len', 0).t, elem)


def add_args(vm, args, kw):
    vals = dict(zip(['self', 'what', 'where'], args)); vals.update(kw)
    if not {'self', 'what'} <= set(vals) <= {'self', 'what', 'where'} or len(args) > 3: return None
    return vals['self'], vals['what'], vals.get('where')


@register
class Add(Contract):
    """requires: a note, or a group of notes, and a position (pair, Signature, nothing).
    ensures: contents' = contents + (position, note) for each; length' accordingly; ValueError and no change for an
    invalid position."""
    qual = 'Track.add'
    mod = TRACKM
    props = ('C11', 'C12', 'C13')
    recursive = True
    def variants(self):
        out = []
        for wh in ('none', 'sig', 'tuple', 'list'):
            for what in ('note', 'seq', 'tuple'):
                if what != 'note' and wh == 'list': continue
                out.append((f'{what},{wh}', (lambda a, b: lambda vm: self.go(vm, a, b))(what, wh)))
        for what, whs in (('note', ('int', 'float', 'len0', 'len1', 'len3')), ('tuple', ('int', 'len3')), ('tuple-empty', ('none', 'sig', 'tuple', 'int')),
                          ('tuple-nested', ('none', 'sig', 'tuple'))):
            for wh in whs: out.append((f'{what},{wh}', (lambda a, b: lambda vm: self.go(vm, a, b))(what, wh)))
        return out
    def go(self, vm, whatk, wherek):
        install(vm)
        t, bag, sig = mk_track(vm, 't')
        end = bmax(bag)
        vm.assume(bmax(bag) >= 0)
        where, ok, posv = any_position(vm, 'w', wherek, end)
        if whatk == 'note': what, _ = sym_note(vm, 'a'); new = badd(bag, K(posv, *note_key_terms(vm, what)))
        elif whatk == 'tuple-empty': what, new = SymList([]) if vm.choose(2) else (), bag
        elif whatk == 'tuple-nested':
            # a group of groups and notes: when it is accepted, all the notes share one position
            x = [sym_note(vm, c)[0] for c in 'abc']; new = bag
            what = [((x[0], x[1]), x[2]), (x[0], SymList([('item', x[1]), ('item', x[2])])), (x[0], (x[1], x[2]))][vm.choose(3)]
            for y in x: new = badd(new, K(posv, *note_key_terms(vm, y)))
        elif whatk == 'tuple':
            what = (sym_note(vm, 'a')[0], sym_note(vm, 'b')[0]); new = bag
            for x in what: new = badd(new, K(posv, *note_key_terms(vm, x)))
        else:
            seq = note_seq(vm, 'grp')
            G = z3.Function('G', z3.IntSort(), Bag)
            vm.assume(G(z3.IntVal(0)) == bag)
            vm.loopspecs = [GroupLoop(t, G, posv, seq)]
            what, new = SymList([('base', seq)]), G(seq.n)
        f = self.target(vm)
        vm.path.inputs['wherek'] = wherek
        args = [what] if wherek == 'none' and vm.choose(2) == 0 else [what, where]
        k, v = outcome(vm, lambda: vm.call(Bound(f, t), args, {}))
        if k == 'exc':
            if whatk == 'tuple-nested' and exc_is(v, 'TypeError'): return       # a group of groups need not be supported
            vm.prove('C11 Track.add refuses only an invalid position', z3.Not(ok))
            if wherek in ('int', 'float') or wherek.startswith('len'): vm.prove('C11 Track.add refuses other kinds of positions', exc_is(v, 'ValueError') or exc_is(v, 'TypeError'))
            else: vm.prove('C11 Track.add refuses with ValueError', exc_is(v, 'ValueError'))
            prove_inv(vm, 'Track.add leaves the track as it was when it refuses', t, bag)
            return
        vm.prove('C11 Track.add accepts only valid positions', ok)
        if wherek not in ('none', 'sig') and not vm.valid(ok): return     # reported above
        prove_inv(vm, 'Track.add', t, new)
        vm.prove('C11 Track.add keeps the time signature', z3.BoolVal(t.fields[shape(vm)['sig']] is sig))
    def cases(self, m, variant):
        what, wh = variant.split(',')
        a = note_case(m, 'a')
        nd = (m.get('w_n', 0), m.get('w_d', 1))
        where = {'none': None, 'int': 3, 'float': 0.25}.get(wh, nd)
        if wh.startswith('len'): where = (1, 4, 4)[:int(wh[3:])]
        ok = where is None or len(nd) == 2 and wh in ('sig', 'tuple', 'list') and nd[0] >= 0 and nd[1] > 0 and nd[1] & (nd[1] - 1) == 0
        first = ('add', a, (0, 1), 0)
        if not ok: return [('C11', ('ops', [first, ('bad', a, where, {'note': 0, 'tuple-empty': 1, 'seq': 2, 'tuple': 3}.get(what, 0))], (4, 4)))]
        if what == 'note': ops = [first, ('add', a, where, 0)]
        elif what == 'tuple-nested': ops = [first, ('nested', [[a, note_case(m, 'b')], [note_case(m, 'c')]], where), ('nested', [[a], [note_case(m, 'b'), note_case(m, 'c')]], where)]
        else: ops = [first, ('group', [] if what == 'tuple-empty' else [a, note_case(m, 'b')], where, 1)]
        return [('C11', ('ops', ops, (4, 4)))]
    def summary(self, vm, args, kw):
        a = add_args(vm, args, kw)
        if a is None: return NotImplemented
        t, what, where = a
        if vm.top is self and not vm.variant.startswith(('seq', 'tuple')): return NotImplemented      # adding one note may not recurse
        if not isinstance(t, Obj) or not t.ghost or not t.ghost.get('track') or obs_note(vm, what) is None: return NotImplemented
        bag = state_bag(vm, t)
        if bag is None: return NotImplemented
        if where is None:
            if 'maxpos' not in shape(vm): return NotImplemented
            pv = bmax(bag)
        elif obs_sig(vm, where) is not None: pv = val(vm, where)
        elif isinstance(where, (tuple, SymList)):
            ds = stdlib.as_items(vm, where)
            if len(ds) != 2 or not all(vm.isint(x) for x in ds): return NotImplemented
            ok = z3.And(vm.T(ds[0]) >= 0, vm.T(ds[1]) > 0, isp2(vm.T(ds[1])))
            if not vm.branch(ok): raise rz(ValueError, 'position')
            pv = val(vm, mk_sig(vm, ds[0], ds[1]))
        else: return NotImplemented
        # the callee's precondition: the class invariant
        if not vm.valid(inv_formula(vm, t, None)):
            return NotImplemented
        set_state(vm, t, badd(bag, K(pv, *note_key_terms(vm, what))), inplace=False)
        return None


# ---------------------------------------------------------------------- construction
class ContentLoop(LoopSpec):
    """Adding the pairs of content one after the other: contents C(k), where C(k+1) = C(k) + (position_k or end, note_k)."""
    name = 'add the content'
    def __init__(self, seq, C):
        self.seq, self.C = seq, C
        self.carries = [TrackComp('track', lambda o: True, lambda k: C(k))]
    def applies(self, vm, node, env, seq): return seq is self.seq
    def step(self, vm, run, pre, item, k, outcome):
        note, pos = item
        ok, pv = pos_spec(vm, pos, bmax(self.C(k)))
        if not vm.branch(ok): return 'raise', 'ValueError'
        vm.assume(self.C(k + 1) == badd(self.C(k), K(pv, *note_key_terms(vm, note))))
        return 'next', {'track': self.C(k + 1)}


def pos_spec(vm, pos, end):
    if pos is None: return z3.BoolVal(True), end
    if obs_sig(vm, pos) is not None: return z3.BoolVal(True), val(vm, pos)
    n, d = (vm.T(x) for x in stdlib.as_items(vm, pos))
    from .signature import value_facts
    value_facts(vm, n, d)
    return z3.And(n >= 0, d > 0, isp2(d)), V(n, d)


def content_seq(vm, name, kinds=('none', 'sig', 'tuple')):
    """An arbitrary sequence of (note, position) with the position a Signature, a pair of integers or None."""
    ns = note_seq(vm, name)
    I = z3.IntSort()
    kd, pn, pd = (z3.Function(f'{x}_{name}', I, I) for x in ('ck', 'cn', 'cd'))
    def elem(vm2, k):
        note = ns.elem(vm2, k)
        for i, kk in enumerate(kinds):
            if i == len(kinds) - 1 or vm2.branch(kd(k) == i): break
        if kk == 'none': return (note, None)
        n, d = vm2.mkint(pn(k)), vm2.mkint(pd(k))
        if kk == 'sig':
            vm2.assume(z3.And(pn(k) >= 0, pd(k) >= 1, isp2(pd(k))))
            return (note, mk_sig(vm2, n, d))
        return (note, (n, d))
    return SymSeq(name, ns.n, elem)


@register
class Init(Contract):
    qual = 'Track.__init__'
    mod = TRACKM
    props = ('C11', 'C12', 'C13', 'C14')
    def variants(self):
        return [(f'{s},{c}', (lambda a, b: lambda vm: self.go(vm, a, b))(s, c))
                for s, c in (('sig', 'omitted'), ('tuple', 'omitted'), ('list', 'none'), ('default', 'omitted'), ('sig', 'empty'), ('sig', 'seq'), ('tuple', 'seq'))]
    def go(self, vm, sk, ck):
        install(vm)
        kw, ok = {}, z3.BoolVal(True)
        if sk == 'sig': kw['signature'], n, d = sym_sig(vm, 's')
        elif sk in ('tuple', 'list'):
            a, b = vm.sym_int('s_n'), vm.sym_int('s_d')
            n, d = a.t, b.t
            kw['signature'] = (a, b) if sk == 'tuple' else SymList([('item', a), ('item', b)])
            ok = z3.And(n >= 0, d > 0, isp2(d))
        else: n, d = z3.IntVal(4), z3.IntVal(4)
        bag = bempty
        if ck == 'none': kw['content'] = None
        elif ck == 'empty': kw['content'] = SymList([])
        elif ck == 'seq':
            seq = content_seq(vm, 'cnt')
            C = z3.Function('C', z3.IntSort(), Bag)
            vm.assume(C(z3.IntVal(0)) == bempty)
            vm.loopspecs = [ContentLoop(seq, C)]
            kw['content'], bag = SymList([('base', seq)]), C(seq.n)
        ob = []
        real = vm.instantiate
        # the object under construction is a track as soon as its constructor runs
        k, v = outcome(vm, lambda: self.construct(vm, kw))
        if k == 'exc':
            if ck == 'seq':
                vm.prove('C11 Track.__init__ refuses with ValueError', exc_is(v, 'ValueError'))
                if not vm.path.__dict__.get('in_content'): vm.prove('C11 Track.__init__ refuses only invalid arguments', z3.Not(ok) if not vm.path.abstract else z3.BoolVal(True))
                return
            vm.prove('C11 Track.__init__ refuses only invalid signatures', z3.Not(ok))
            vm.prove('C11 Track.__init__ refuses with ValueError', exc_is(v, 'ValueError'))
            return
        vm.prove('C11 Track.__init__ accepts only valid signatures', ok)
        s = obs_sig(vm, get(vm, v, 'signature'))
        vm.prove('C11 Track.__init__ keeps the time signature', z3.BoolVal(False) if s is None else z3.And(s[0] == n, s[1] == d))
        vm.prove('C14 Track.__init__ keeps the time signature', z3.BoolVal(False) if s is None else z3.And(s[0] == n, s[1] == d))
        v.ghost = {'track': True}
        prove_inv(vm, 'Track.__init__', v, bag)
    def construct(self, vm, kw):
        shape(vm)
        o = Obj(Trk(vm)); o.ghost = {'track': True}
        init = Trk(vm).lookup('__init__')
        vm.call_func(init, [o], kw, ctor=True)
        return o
    def summary(self, vm, args, kw):
        vals = dict(zip(['signature', 'content'], args)); vals.update(kw)
        if len(args) > 2 or not set(vals) <= {'signature', 'content'}: return NotImplemented
        s, bag = vals.get('signature'), bempty
        if 'signature' not in vals: s = mk_sig(vm, 4, 4)
        if obs_sig(vm, s) is None:
            if not isinstance(s, (tuple, SymList)): return NotImplemented
            if isinstance(s, SymList) and stdlib.conc_items(s) is None: return NotImplemented
            ds = stdlib.as_items(vm, s)
            if len(ds) != 2 or not all(vm.isint(x) for x in ds): return NotImplemented
            n, d = (vm.T(x) for x in ds)
            if not vm.branch(z3.And(n >= 0, d > 0, isp2(d))): raise rz(ValueError, 'signature')
            s = mk_sig(vm, *ds)
        if vals.get('content') is not None:
            # content known to a contract of the caller as a whole
            hook, segs = getattr(vm, 'content_hook', None), None
            c = vals['content']
            if hook and isinstance(c, (SymList, SymSeq)): segs = stdlib.seq_segs(vm, c)
            elif hook and isinstance(c, GenExp) and len(c.node.generators) == 1: segs = stdlib.gen_segs(vm, c)
            if segs is None or len(segs) != 1 or segs[0][0] != 'base': return NotImplemented
            bag = hook(vm, segs[0][1])
            if bag is None: return NotImplemented
        o = Obj(Trk(vm))
        o.fields[shape(vm)['sig']] = s
        set_state(vm, o, bag)
        return o


# ---------------------------------------------------------------------- observers
def iter_segs(vm, v):
    """Segments of what iterating the returned value yields."""
    if isinstance(v, GenCall): return stdlib.collect_gen(vm, v)
    return stdlib.seq_segs(vm, v)


@register
class Iter(Contract):
    """ensures: yields a sequence with exactly the contents, ascending; contents unchanged; the same again."""
    qual = 'Track.__iter__'
    mod = TRACKM
    props = ('C12', 'C11', 'C13')
    def run(self, vm):
        install(vm)
        t, bag, sig = mk_track(vm, 't')
        f = self.target(vm)
        def once(which):
            k, v = outcome(vm, lambda: vm.call(Bound(f, t), [], {}))
            if k == 'exc': vm.prove(f'C12 Track.__iter__ ({which}) does not raise', False); return None
            segs = iter_segs(vm, v)
            if segs is None: raise Unsupported('result of Track.__iter__')
            b = seg_bag(vm, segs)
            if b is None: raise Unsupported('Track.__iter__ yields other things')
            vm.prove(f'C12 Track.__iter__ ({which}) yields exactly the contents, once each', b == bag)
            vm.prove(f'C12 Track.__iter__ ({which}) yields in ascending order', seg_sorted(vm, segs))
            prove_inv(vm, 'Track.__iter__', t, bag)
            return list(segs)
        a = once('first')
        if a is None: return
        b = once('again')
        if b is None: return
        same = len(a) == len(b) and all(x[1] is y[1] for x, y in zip(a, b))
        vm.prove('C12 Track.__iter__ yields the same sequence again', z3.BoolVal(same) if same else z3.Bool(vm.fresh_name('sameseq')))
    def summary(self, vm, args, kw):
        if len(args) != 1 or kw: return NotImplemented
        t = args[0]
        if not t.ghost or not t.ghost.get('track'): return NotImplemented
        bag = state_bag(vm, t)
        if bag is None or not vm.valid(inv_formula(vm, t, None)): return NotImplemented
        memo = t.ghost.get('iter')
        if memo is not None and memo[0].eq(bag): return stdlib.LazyIter(SymList([('base', memo[1])]))
        seq = pair_seq(vm, vm.fresh_name('it'), bag, z3.BoolVal(True))
        t.ghost['iter'] = (bag, seq)
        return stdlib.LazyIter(SymList([('base', seq)]))


@register
class Len(Contract):
    qual = 'Track.__len__'
    mod = TRACKM
    props = ('C11',)
    def run(self, vm):
        install(vm)
        t, bag, sig = mk_track(vm, 't')
        f = self.target(vm)
        k, v = outcome(vm, lambda: vm.call(Bound(f, t), [], {}))
        if k == 'exc': vm.prove('C11 Track.__len__ does not raise', False); return
        vm.prove('C11 Track.__len__ is the number of notes', vm.T(v) == bsize(bag) if vm.isint(v) else False)
        prove_inv(vm, 'Track.__len__', t, bag)
    def summary(self, vm, args, kw):
        if len(args) != 1 or kw or not args[0].ghost: return NotImplemented
        bag = state_bag(vm, args[0])
        if bag is None or not vm.valid(inv_formula(vm, args[0], None)): return NotImplemented
        vm.assume(bsize(bag) >= 0)
        return vm.mkint(bsize(bag))


@register
class Length(Contract):
    qual = 'Track.length'
    mod = TRACKM
    props = ('C13', 'C11', 'C12')
    def run(self, vm):
        install(vm)
        t, bag, sig = mk_track(vm, 't')
        s = obs_sig(vm, sig)
        vm.depth += 1
        k, v = outcome(vm, lambda: vm.getattr(t, 'length'))
        k2, v2 = outcome(vm, lambda: vm.getattr(t, 'signature'))
        vm.depth -= 1
        if k == 'exc': vm.prove('C13 Track.length does not raise', False); return
        vm.prove('C13 Track.length is the right-most end of any note', val(vm, v) == bmax(bag) if obs_sig(vm, v) is not None else False)
        vm.prove('C11 Track.signature reports the time signature', k2 == 'ret' and obs_sig(vm, v2) is not None and z3.And(obs_sig(vm, v2)[0] == s[0], obs_sig(vm, v2)[1] == s[1]))
        prove_inv(vm, 'Track.length', t, bag)


# ---------------------------------------------------------------------- equality
def same_pair(vm, a, b):
    """Equal position, tone, duration (as fractions) and velocity."""
    from .note import lex, note_key
    return z3.And(val(vm, a[0]) == val(vm, b[0]), lex('Eq', note_key(vm, a[1]), note_key(vm, b[1])))


class EqLoop(LoopSpec):
    """Scanning two ascending sequences: all pairs before k are equal (shown for an arbitrary index j)."""
    name = 'compare pairwise'
    def __init__(self, ctx): self.ctx = ctx
    def applies(self, vm, node, env, seq): return seq is not None
    def candidates(self, vm, ints, k):
        c = self.ctx
        if 'a' not in c: return []
        return [('pairs before k are equal', z3.Implies(z3.And(c['j'] >= 0, c['j'] < k), c['eqj']))]
    def step(self, vm, run, pre, item, k, outcome):
        c = self.ctx
        c['k'] = k
        if 'a' not in c: return outcome[0], {}
        a, b = c['a'].elem(vm, k), c['b'].elem(vm, k)
        c['eqk'] = same_pair(vm, a, b)
        return outcome[0], {}


@register
class Eq(Contract):
    """ensures: True exactly when signatures are equal fractions and the ascending sequences agree pairwise and in
    length; by lemma sorted_perm (Lean) that is equality of the multisets up to the writing of durations."""
    qual = 'Track.__eq__'
    mod = TRACKM
    props = ('C14',)
    def run(self, vm): self.go(vm, False)
    def variants(self): return [('==', lambda vm: self.go(vm, False)), ('!=', lambda vm: self.go(vm, True))]
    def go(self, vm, neg):
        install(vm)
        a, ba, sa = mk_track(vm, 'a')
        b, bb, sb = mk_track(vm, 'b')
        va, vb = val(vm, sa), val(vm, sb)
        # the sequences both tracks iterate over (contract of __iter__)
        A = stdlib.seq_segs(vm, vm_iter(vm, a))[0][1]
        B = stdlib.seq_segs(vm, vm_iter(vm, b))[0][1]
        j = vm.fresh_int('j', 0).t
        ctx = {'a': A, 'b': B, 'j': j}
        ctx['eqj'] = same_pair(vm, A.elem(vm, j), B.elem(vm, j))
        vm.loopspecs = [EqLoop(ctx)]
        def all_hook(vm2, seq, ev_on, is_all):
            return self.all_any(vm2, seq, ev_on, is_all, A, B, ctx)
        vm.all_hook = all_hook
        vm.depth += 1
        k, v = outcome(vm, lambda: vm.cmp('NotEq' if neg else 'Eq', a, b))
        vm.depth -= 1
        if k == 'exc': vm.prove('C14 Track comparison does not raise', False); return
        r = vm.B(v) if isinstance(v, (bool, SBool)) else z3.BoolVal(vm.truth(v))
        if neg: r = z3.Not(r)
        n, m = A.n, B.n
        if vm.branch(r):
            vm.prove('C14 Track.__eq__ is true only for equal signatures and equal contents', z3.And(va == vb, n == m, z3.Implies(j < n, ctx['eqj'])))
        else:
            diff = [va != vb, n != m]
            if 'eqk' in ctx: diff.append(z3.And(ctx['k'] >= 0, ctx['k'] < n, ctx['k'] < m, z3.Not(ctx['eqk'])))
            vm.prove('C14 Track.__eq__ is false only for different signatures or different contents', z3.Or(diff))
        prove_inv14(vm, a, ba); prove_inv14(vm, b, bb)
    def all_any(self, vm, seq, ev_on, is_all, A, B, ctx):
        """all(...)/any(...) over the zipped sequences: a witness index, or the fact for every index (here: j)."""
        dec = vm.choose(2)
        if dec == 0:        # decided by a witness
            k = vm.fresh_int('wit', 0).t
            vm.assume(k < seq.n)
            r = vm.truth(ev_on(seq.elem(vm, k)))
            if r == is_all: raise PathEnd()
            ctx['k'], ctx['eqk'] = k, same_pair(vm, A.elem(vm, k), B.elem(vm, k))
            return not is_all
        j = ctx['j']
        if vm.branch(j < seq.n):
            r = vm.truth(ev_on(seq.elem(vm, j)))
            if r != is_all: raise PathEnd()
        return is_all
    def summary(self, vm, args, kw): return NotImplemented


def prove_inv14(vm, o, bag):
    vm.prove('C14 Track.__eq__ leaves both tracks unchanged', state_bag(vm, o) == bag)


def vm_iter(vm, o):
    vm.depth += 1
    try: return Iter.summary(REG['Track.__iter__'], vm, [o], {})
    finally: vm.depth -= 1
