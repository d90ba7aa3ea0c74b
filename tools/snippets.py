"""Snippets for tools/crosscheck.py: name -> (source defining f, argument kinds: i int, n int in 0..256, f float)."""
SNIPPETS = {}


def s(name, kinds, body):
    base, k = name, 2
    while name in SNIPPETS: name, k = f'{base}_{k}', k + 1
    SNIPPETS[name] = (body.strip('\n') + '\n', kinds)


def e(name, kinds, expr, pre=''):
    args = ', '.join('xyzw'[:len(kinds)])
    s(name, kinds, f"{pre}\ndef f({args}):\n    return {expr}\n")


# --- integers
for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('//', 'fdiv'), ('%', 'mod'), ('<', 'lt'), ('<=', 'le'), ('==', 'eq'), ('!=', 'ne'), ('>', 'gt'), ('>=', 'ge'), ('and', 'and'), ('or', 'or')):
    e('int_' + nm, 'ii', f'x {op} y')
for c in (1, 2, 7, 12, 127, 128, 4096, -3, -8):
    e(f'int_divc_{c}'.replace('-', 'm'), 'i', f'(x // {c}, x % {c}, divmod(x, {c}))')
for c in (0, 1, 0x7f, 0x80, 0xf, 0xf0, 0xff, 3, 12):
    e(f'int_andc_{c}', 'n', f'(x & {c}, {c} & x)')
    e(f'int_orc_{c}', 'n', f'(x | {c}, x ^ {c})')
e('int_and_neg', 'i', 'x & 7')
e('int_and_neg2', 'i', 'x & 0xF0')
e('int_and_pow2', 'i', 'x & (x - 1)')
e('int_and_self', 'i', 'x & x')
e('int_odd', 'i', '(x & 1, x % 2, x & 1 == 0)')
e('int_shl', 'n', '(x << 1, x << 7, 1 << 5)')
e('int_shr', 'i', '(x >> 1, x >> 4, x >> 0)')
e('int_shl_var', 'n', '1 << (x % 8)')
e('int_shl_negative', 'i', 'x << 3')
e('int_shift_by_negative', 'i', '1 << (x - x - 1)')
e('int_invert', 'i', '(~x, -x, +x, abs(x), not x)')
e('int_true_div', 'ii', 'x / y')
e('int_pow', 'i', '(x ** 2, x ** 0, 2 ** 3)')
e('int_pow_var', 'n', '2 ** (x % 8)')
e('int_bit_length', 'i', 'x.bit_length()')
e('int_chain', 'ii', '(0 <= x <= y, x < y < 100, x == y == 3, x != y != x)')
e('int_bool_arith', 'ii', '((x > y) - (x < y), (x > 0) + (y > 0), True + x)')
e('int_minmax', 'ii', '(min(x, y), max(x, y), min(x, y, 3), max([x, y, 5]), min((x, y)))')
e('int_minmax_key', 'ii', '(min(x, y, key=abs), max(x, y, key=lambda v: -v))')
e('int_clamp', 'i', 'max(0, min(127, x))')
e('int_minmax_default', 'i', '(max([], default=x), min([x], default=3))')
e('int_sum', 'iii', '(sum([x, y, z]), sum((x, y), 10), sum(v for v in (x, y)))')
e('int_anyall', 'ii', '(any([x, y]), all((x, y)), any(v > 3 for v in (x, y)), all(v > 3 for v in []))')
e('int_cond', 'ii', 'x if x > y else y if y > 0 else None')
e('int_in', 'i', '(x in (1, 2, 3), x not in [0, 5], x in {7: 1}, x in range(3, 9))')
e('int_is', 'i', '(None is x, x is not None, x is x)')
e('int_isinstance', 'i', '(isinstance(x, int), isinstance(x, float), isinstance(x, (str, int)), isinstance(x > 1, int), isinstance(x, bool))')
e('int_conv', 'i', '(int(x), bool(x), int(x > 3), float(x) == x)')
e('int_str', 'n', '(str(x), repr(x), f"{x}", f"{x:d}", f"<{x!r}>", "%d" % x, "{}".format(x))')
e('int_str_neg', 'i', 'str(x)')
e('int_str_len', 'n', 'len(str(x))')
e('int_parse', 'n', 'int(str(x)) + 1')
e('int_to_bytes', 'n', 'x.to_bytes(1, "big")')
e('int_to_bytes2', 'i', 'x.to_bytes(2, "big")')
e('int_to_bytes_le', 'i', 'x.to_bytes(3, "little")')
e('int_to_bytes_len', 'n', 'len(x.to_bytes(x.bit_length() // 8 + 1, "big"))')
e('int_from_bytes', 'nn', 'int.from_bytes(bytes([x % 256, y % 256]), "big")')
e('int_from_bytes_le', 'nn', 'int.from_bytes(bytes([x % 256, y % 256]), "little")')
e('int_bytes', 'n', 'bytes([x])')
e('int_bytes_n', 'n', 'len(bytes(x % 4))')
e('int_round', 'i', '(round(x), round(x, 0) if x > 5 else 1)')
e('int_divmod_neg', 'ii', 'divmod(x, y)')
e('int_hashable_key', 'i', '{x: 1}.get(x)')
e('int_or_default', 'i', '(x or 5, x and 5, (x or None), not (x and 3))')
e('int_compare_none', 'i', '(x == None, x != None)')
e('int_lt_none', 'i', 'x < None')
e('int_add_str', 'i', 'x + "a"')
e('int_eq_str', 'i', '(x == "1", x != "1")')
e('int_eq_float', 'i', '(x == 2.0, x < 2.5, 2.5 > x)')
e('int_index', 'i', '(10, 20, 30)[x]')
e('int_index_list', 'i', '[10, 20, 30, 40][x]')
e('int_slice', 'i', '[1, 2, 3, 4, 5][1:3]')
e('int_slice_neg', 'i', '([1, 2, 3, x][-2:], [1, 2, x][:-1], (1, x, 3)[::-1])')
e('int_dict_index', 'i', '{1: "a", 2: "b"}[x]')
e('int_dict_get', 'i', '({1: "a", 2: "b"}.get(x), {1: "a"}.get(x, "z"))')
e('int_str_index', 'n', '"CDEFGAB"[x]')
e('int_range', 'n', 'list(range(x % 5))')
e('int_range2', 'n', 'list(range(2, x % 9, 2))')
e('int_range_rev', 'n', 'list(reversed(range(x % 4)))')
e('int_isqrt', 'n', 'x.__add__(1)')
e('math_gcd', 'ii', 'math.gcd(x, y)', 'import math')
# --- floats
for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('<', 'lt'), ('<=', 'le'), ('==', 'eq'), ('!=', 'ne'), ('>', 'gt'), ('>=', 'ge'), ('/', 'div')):
    e('flt_' + nm, 'ff', f'x {op} y')
    e('flt_int_' + nm, 'fi', f'x {op} y')
e('flt_chain', 'f', '(0.0 <= x <= 1.0, not 0.0 <= x <= 1.0, x != x, 0 <= x <= 1.0)')
e('flt_int', 'f', 'int(x)')
e('flt_int127', 'f', 'int(x * 127)')
e('flt_neg', 'f', '(-x, abs(x), +x)')
e('flt_bool', 'f', '(bool(x), not x, x or 1.0)')
e('flt_minmax', 'ff', '(min(x, y), max(x, y))')
e('flt_minmax3', 'ff', 'max(0.0, min(1.0, x))')
e('flt_minmax_int', 'f', 'max(0, min(1.0, x))')
e('flt_isinstance', 'f', '(isinstance(x, float), isinstance(x, int))')
e('flt_eq_int', 'f', '(x == 1, x == 0, x > 0)')
e('flt_tuple_eq', 'f', '((x,) == (x,), (x, 1) < (x, 2), [x] == [x])')
e('flt_sqrt', 'f', 'math.sqrt(x) >= 0', 'import math')
e('flt_pow', 'f', 'x ** 0.5 >= 0 if x >= 0 else 0')
e('flt_const', 'f', '(x == float("inf"), x == float("nan"), 1.0 / 3.0, 2 ** 0.5)')
e('flt_round', 'f', 'round(x)')
e('flt_mod', 'f', 'x % 1.0')
e('flt_isnan', 'f', '(math.isnan(x), math.isinf(x), math.isfinite(x))', 'import math')
e('flt_floor', 'f', '(math.floor(x), math.ceil(x))', 'import math')
e('flt_repr', 'f', 'x.is_integer() if x == x else None')
e('flt_sorted', 'ff', 'sorted([x, y])')
e('flt_in', 'f', '(x in (1.0, 2.0), x in [x])')
# --- control flow
s('while_else', 'n', '''
def f(x):
    n = 0
    while n < x % 5:
        n += 1
        if n == 3:
            break
    else:
        return ('else', n)
    return ('broke', n)
''')
s('for_else', 'n', '''
def f(x):
    for i in (1, 2, 3):
        if i == x:
            r = ('found', i)
            break
    else:
        r = ('none', i)
    return r, i
''')
s('continue_', 'n', '''
def f(x):
    out = []
    for i in range(5):
        if i % 2 == x % 2:
            continue
        out.append(i)
    return out
''')
s('try_finally', 'i', '''
def f(x):
    log = []
    def g():
        try:
            log.append('try')
            if x > 3:
                raise ValueError('v')
            if x > 0:
                return 'r'
        except KeyError:
            log.append('key')
        except (ValueError, TypeError) as e:
            log.append('value')
            return str(e)
        else:
            log.append('else')
        finally:
            log.append('finally')
        return 'end'
    r = g()
    return r, log
''')
s('try_finally_override', 'i', '''
def f(x):
    def g():
        for i in range(3):
            try:
                if i == x:
                    return i
                if i == x - 3:
                    raise KeyError(i)
            finally:
                if i == 1:
                    break
        return 'out'
    return g()
''')
s('try_nested', 'i', '''
def f(x):
    try:
        try:
            return 10 // x
        except ZeroDivisionError:
            raise ValueError('zero') from None
    except ValueError as e:
        return e.args
''')
s('reraise', 'i', '''
def f(x):
    try:
        try:
            [1, 2][x]
        except IndexError:
            raise
    except LookupError:
        return 'lookup'
    return 'fine'
''')
s('custom_exception', 'i', '''
class E(Exception):
    pass
class F(E):
    pass
def g(x):
    if x > 5: raise F('big')
    if x < 0: raise E('neg', x)
    return x
def f(x):
    try: return g(x)
    except F as e: return 'F', e.args
    except E as e: return 'E', len(e.args)
''')
s('exception_escapes', 'i', '''
class E(ValueError): pass
def f(x):
    if x == 3: raise E
    if x > 100: raise KeyError('k')
    assert x != 5, 'five'
    return x
''')
s('chained_assign', 'i', '''
def f(x):
    a = b = [x]
    a.append(1)
    c = d = x
    c += 1
    return a, b, c, d
''')
s('aug_alias', 'i', '''
def f(x):
    a = [1]
    b = a
    a += [x]
    t = (1,)
    u = t
    t += (x,)
    return a, b, t, u
''')
s('list_alias_rebind', 'i', '''
def f(x):
    a = [1, 2]
    b = a
    a = a + [x]
    b.append(9)
    return a, b
''')
s('swap', 'ii', '''
def f(x, y):
    x, y = y, x
    (a, b), c = (x, y), 3
    first, *rest = [x, y, a]
    *init, last = (1, 2, x)
    return x, y, a, b, c, first, rest, init, last
''')
s('unpack_error', 'n', '''
def f(x):
    a, b = list(range(x % 4))
    return a, b
''')
s('mutable_default', 'i', '''
def g(v, acc=[]):
    acc.append(v)
    return len(acc)
def f(x):
    return g(x), g(x), g(x, [])
''')
s('closures', 'i', '''
def f(x):
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    n = x
    def inc():
        nonlocal n
        n += 1
        return n
    inc()
    return [h() for h in fs], [h() for h in gs], inc(), n
''')
s('closure_late', 'i', '''
def f(x):
    def g():
        return y
    y = x + 1
    return g()
''')
s('unbound_local', 'i', '''
def f(x):
    if x > 3:
        y = 1
    return y
''')
s('comp_scope', 'i', '''
def f(x):
    i = 'outer'
    a = [i for i in range(3)]
    b = {k: v for k, v in zip('ab', (x, 2))}
    c = [(i, j) for i in range(3) for j in range(i) if i != x]
    return i, a, b, c
''')
s('global_state', 'i', '''
count = 0
def g():
    global count
    count += 1
    return count
def f(x):
    g(); g()
    return count
''')
s('args_kwargs', 'ii', '''
def g(a, b=2, *args, c=3, **kw):
    return a, b, args, c, sorted(kw.items())
def f(x, y):
    return g(x), g(x, y), g(x, y, 5, 6), g(b=x, a=y), g(x, c=y, d=1), g(*[x, y], **{'c': 9}), g(*(x,), b=y)
''')
s('call_errors', 'i', '''
def g(a, b=2): return a
def f(x):
    try:
        if x == 0: return g()
        if x == 1: return g(1, 2, 3)
        if x == 2: return g(1, a=2)
        if x == 3: return g(1, c=2)
    except TypeError:
        return 'type'
    return 'ok'
''')
s('kwonly', 'i', '''
def g(*, a, b=1): return a + b
def h(a, /, b): return a - b
def f(x): return g(a=x), h(x, b=2)
''')
s('walrus', 'i', '''
def f(x):
    if (n := x * 2) > 10:
        return n
    return [m := 3, m + n]
''')
s('ternary_short', 'ii', '''
def f(x, y):
    log = []
    def t(v):
        log.append(v)
        return v
    a = t(x) and t(y)
    b = t(x) or t(y)
    c = t(1) < t(x) < t(y)
    return a, b, c, log
''')
s('eval_order', 'i', '''
def f(x):
    log = []
    def t(v):
        log.append(v)
        return v
    d = {t(1): t(2), t(3): t(4)}
    l = [t(5), *[t(6)], t(7)]
    t(8) + t(9) * t(10)
    (lambda *a, **k: None)(t(11), k=t(12))
    l[t(0)] = t(13)
    return log
''')
s('del_stmt', 'i', '''
def f(x):
    d = {1: x, 2: 3}
    del d[1]
    l = [1, x, 3]
    del l[0]
    y = 1
    del y
    return d, l
''')
s('del_missing', 'i', '''
def f(x):
    d = {1: 2}
    del d[x]
    return d
''')
s('match_stmt', 'i', '''
def f(x):
    match x:
        case 0: return 'zero'
        case 1 | 2: return 'small'
        case n if n < 0: return 'neg'
        case _: return 'big'
''')
s('with_cm', 'i', '''
class CM:
    def __init__(self, log, swallow): self.log, self.swallow = log, swallow
    def __enter__(self):
        self.log.append('in'); return self
    def __exit__(self, t, v, tb):
        self.log.append(t is None); return self.swallow
def f(x):
    log = []
    with CM(log, True) as c:
        if x > 3: raise ValueError
        log.append('body')
    return log
''')
s('with_reraise', 'i', '''
class CM:
    def __enter__(self): return 1
    def __exit__(self, *a): return False
def f(x):
    try:
        with CM():
            if x > 3: raise ValueError
    except ValueError:
        return 'caught'
    return 'fine'
''')
# --- lists, dicts, tuples
s('list_methods', 'i', '''
def f(x):
    l = [3, 1, x]
    l.append(4); l.extend([5, 6]); l.insert(1, 9)
    p = l.pop(); q = l.pop(0)
    r = l[:]
    r.reverse()
    return l, p, q, r, len(l), l.index(9), l.count(9), l + [1], [0] * 3, l.copy()
''')
s('list_pop_empty', 'i', '''
def f(x):
    l = [1] if x > 3 else []
    return l.pop()
''')
s('list_sort', 'ii', '''
def f(x, y):
    l = [x, y, 3]
    l.sort()
    m = sorted([x, y, 3], reverse=True)
    n = sorted([(1, x), (0, y), (1, 2)], key=lambda p: p[0])
    return l, m, n
''')
s('list_sort_stable', 'ii', '''
from operator import itemgetter
def f(x, y):
    l = [(x, 'a'), (y, 'b'), (x, 'c'), (y, 'd')]
    l.sort(key=itemgetter(0))
    m = sorted(l, key=lambda p: -p[0])
    return l, m
''')
s('list_sort_tuple', 'ii', '''
def f(x, y):
    return sorted([(x, y), (y, x), (x, x)])
''')
s('list_eq', 'ii', '''
def f(x, y):
    return [x] == [y], [x, 1] != [y, 1], [] == [], [x] == (x,), [x] < [y], [x, y] <= [x]
''')
s('list_in_loop_mutation', 'n', '''
def f(x):
    l = [1, 2]
    for v in l:
        if len(l) < 4:
            l.append(v + x)
    return l
''')
s('dict_methods', 'i', '''
def f(x):
    d = {'a': 1}
    d['b'] = x
    d.setdefault('a', 9); d.setdefault('c', 3)
    d.update({'a': 7, 'd': 4})
    p = d.pop('b'); q = d.pop('zz', None)
    return list(d), list(d.values()), list(d.items()), p, q, 'a' in d, len(d), d == {'a': 7, 'c': 3, 'd': 4}, sorted(d)
''')
s('dict_order', 'ii', '''
def f(x, y):
    d = {}
    d[x] = 1
    d[y] = 2
    d[3] = 3
    d[x] = 4
    return list(d.items())
''')
s('dict_int_keys', 'ii', '''
def f(x, y):
    d = {1: 'a', 2: 'b'}
    d[x] = 'c'
    return d.get(y), y in d, len(d)
''')
s('dict_comp_inverse', 'i', '''
_t = {'C': 0, 'D': 2, 'E': 4}
_r = {v: k for k, v in _t.items()}
def f(x):
    return _r[x] if x in _r else 'none'
''')
s('defaultdict', 'i', '''
from collections import defaultdict
def f(x):
    d = defaultdict(list)
    d[x].append(1)
    d[3].append(2)
    d[x].append(3)
    return list(d.items()), len(d), d.get(99), 99 in d
''')
s('counter_like', 'ii', '''
def f(x, y):
    c = {}
    for v in (x, y, x, 1):
        c[v] = c.get(v, 0) + 1
    return list(c.items())
''')
s('tuple_ops', 'ii', '''
def f(x, y):
    t = (x, y)
    return t + (1,), t[0], t[-1], len(t), t == (x, y), t < (y, x), (x, 'a') == (x, 'b'), t * 2, x in t
''')
s('tuple_cmp_mixed', 'ii', '''
def f(x, y):
    return (x, y) < (x, y + 1), (x, 1) <= (y, 1), (x,) < (x, y), () < (x,), (x, y) > (y, x), (x, y) >= (y, x)
''')
s('zip_enum', 'i', '''
def f(x):
    return list(zip([1, 2, 3], 'ab')), list(enumerate('ab', 1)), [a + b for a, b in zip((1, 2), (x, x))], dict(zip('ab', (1, x)))
''')
s('map_filter', 'i', '''
def f(x):
    return list(map(lambda v: v + x, [1, 2])), list(filter(lambda v: v > x, [1, 2, 3])), list(map(abs, (-1, x))), [*map(str, [1, 2])]
''')
s('set_ops', 'i', '''
def f(x):
    s = {1, 2, x}
    return len({1, 1, 2}), 1 in {1, 2}, x in {1, 2}
''')
s('nested_data', 'i', '''
def f(x):
    d = {'l': [1, {'k': (x, [2])}]}
    d['l'][1]['k'][1].append(x)
    return d['l'][1]['k']
''')
s('star_list', 'i', '''
def f(x):
    a = [1, 2]
    return [*a, x, *a], (*a, x), {**{'p': 1}, 'q': x}
''')
s('reversed_', 'i', '''
def f(x):
    return list(reversed([1, x, 3])), [1, x, 3][::-1], list(reversed((x, 2)))
''')
s('slice_assign', 'i', '''
def f(x):
    l = [1, 2, 3]
    l[0] = x
    l[-1] = 9
    return l
''')
# --- generators
s('generator_lazy', 'i', '''
def f(x):
    log = []
    def g():
        for i in range(3):
            log.append(i)
            yield i
    for v in g():
        if v == x:
            break
    return log
''')
s('generator_interleave', 'i', '''
def f(x):
    log = []
    def g():
        log.append('start')
        yield 1
        log.append('mid')
        yield x
        log.append('end')
    for v in g():
        log.append(v)
    return log
''')
s('generator_next', 'i', '''
def f(x):
    def g():
        yield 1
        yield x
    it = g()
    a = next(it)
    b = next(it)
    c = next(it, 'done')
    return a, b, c
''')
s('generator_return', 'i', '''
def f(x):
    def g():
        yield 1
        if x > 3:
            return
        yield 2
    return list(g()), sum(g()), max(g())
''')
s('generator_any_short', 'i', '''
def f(x):
    log = []
    def t(v):
        log.append(v)
        return v == x
    r = any(t(v) for v in (0, 1, 2))
    q = all(t(v) for v in (0, 1, 2))
    return r, q, log
''')
s('generator_expr_late', 'i', '''
def f(x):
    a = [1, 2]
    g = (v + x for v in a)
    x = 100
    return list(g)
''')
s('yield_from', 'i', '''
def f(x):
    def a():
        yield 1
        yield from [x, 3]
    return list(a())
''')
s('generator_error', 'i', '''
def f(x):
    def g():
        yield 1
        raise ValueError
    out = []
    try:
        for v in g(): out.append(v)
    except ValueError:
        out.append('err')
    return out
''')
s('iter_next', 'i', '''
def f(x):
    it = iter([1, x, 3])
    a = next(it)
    return a, list(it)
''')
# --- classes
s('class_basic', 'i', '''
class A:
    k = 5
    def __init__(self, v): self.v = v
    def get(self): return self.v + self.k
    @property
    def double(self): return self.v * 2
    @staticmethod
    def st(a): return a + 1
    @classmethod
    def make(cls, v): return cls(v + 1)
def f(x):
    a = A(x)
    b = A.make(x)
    a.k = 7
    return a.get(), b.get(), a.double, A.st(x), a.st(2), A.k, type(a).__name__, isinstance(a, A), A.get(b)
''')
s('class_inherit', 'i', '''
class A:
    def __init__(self, v): self.v = v
    def name(self): return 'A'
    def show(self): return self.name() + str(self.v % 3)
class B(A):
    def __init__(self, v):
        super().__init__(v + 1)
        self.w = v
    def name(self): return 'B' + super().name()
def f(x):
    b = B(x)
    return b.show(), b.v, b.w, isinstance(b, A), issubclass(B, A), isinstance(A(1), B)
''')
s('class_eq_default', 'i', '''
class A:
    pass
def f(x):
    a, b = A(), A()
    return a == a, a == b, a != b, a is b
''')
s('class_eq_reflected', 'i', '''
class A:
    def __init__(self, v): self.v = v
    def __eq__(self, o):
        if not isinstance(o, A): return NotImplemented
        return self.v == o.v
    def __lt__(self, o):
        if not isinstance(o, A): return NotImplemented
        return self.v < o.v
def f(x):
    a, b = A(x), A(3)
    return a == b, a != b, a < b, a > b, a == 3, 3 != a, a == None
''')
s('class_lt_type_error', 'i', '''
class A:
    def __lt__(self, o): return NotImplemented
def f(x):
    return A() < x
''')
s('class_add', 'i', '''
class V:
    def __init__(self, v): self.v = v
    def __add__(self, o):
        if isinstance(o, int): return V(self.v + o)
        return NotImplemented
    def __radd__(self, o): return V(o * 100)
    def __mul__(self, o): return V(self.v * o.v)
    def __neg__(self): return V(-self.v)
    def __abs__(self): return V(abs(self.v))
    def __bool__(self): return self.v > 3
    def __len__(self): return 2
    def __contains__(self, y): return y == self.v
    def __getitem__(self, i): return self.v + i
    def __call__(self, a): return a + self.v
def f(x):
    v = V(x)
    return (v + 1).v, (1 + v).v, (v * v).v, (-v).v, abs(v).v, bool(v), len(v), 3 in v, v[2], v(5), 'y' if v else 'n'
''')
s('class_len_truth', 'i', '''
class L:
    def __init__(self, n): self.n = n
    def __len__(self): return self.n
def f(x):
    return bool(L(x % 3)), not L(0), 'a' if L(x % 2) else 'b'
''')
s('class_iter', 'i', '''
class C:
    def __init__(self, l): self.l = l
    def __iter__(self): return iter(self.l)
def f(x):
    c = C([1, x])
    a, b = c
    return list(c), sum(c), a, b, [v for v in c], x in c, tuple(c), max(c)
''')
s('class_getitem_iter', 'i', '''
class C:
    def __getitem__(self, i):
        if i > 2: raise IndexError
        return i * 2
def f(x):
    return list(C())
''')
s('class_setter', 'i', '''
class A:
    def __init__(self): self._v = 0
    @property
    def v(self): return self._v
    @v.setter
    def v(self, x): self._v = x + 1
def f(x):
    a = A()
    a.v = x
    return a.v
''')
s('class_readonly_property', 'i', '''
class A:
    @property
    def v(self): return 1
def f(x):
    a = A()
    a.v = x
''')
s('class_slots', 'i', '''
class A:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
def f(x):
    a = A(x)
    a.v += 1
    return a.v
''')
s('class_missing_attr', 'i', '''
class A: pass
def f(x):
    a = A()
    if x > 3: a.z = 1
    return a.z
''')
s('getattr_fn', 'i', '''
class A:
    def __init__(self): self.v = 3
def f(x):
    a = A()
    setattr(a, 'w', x)
    return getattr(a, 'v'), getattr(a, 'w'), getattr(a, 'q', 'none'), hasattr(a, 'v'), hasattr(a, 'q')
''')
s('dataclass', 'ii', '''
from dataclasses import dataclass
@dataclass(frozen=True)
class P:
    a: int
    b: int = 2
@dataclass(frozen=True)
class Q(P):
    c: int = 3
def f(x, y):
    p = P(x, y)
    q = Q(x, c=y)
    return p == P(x, y), p == P(y, x), p != P(x, 2), q.a, q.b, q.c, p == q, P(a=1).b, isinstance(q, P)
''')
s('dataclass_frozen', 'i', '''
from dataclasses import dataclass
@dataclass(frozen=True)
class P:
    a: int
def f(x):
    p = P(x)
    try:
        p.a = 3
    except AttributeError:
        return 'frozen', p.a
''')
s('dataclass_order', 'ii', '''
from dataclasses import dataclass
@dataclass(order=True)
class P:
    a: int
    b: int
def f(x, y):
    return P(x, y) < P(y, x), P(x, y) <= P(x, y), sorted([P(y, 1), P(x, 2)])[0].a
''')
s('namedtuple', 'ii', '''
from collections import namedtuple
P = namedtuple('P', 'a b')
def f(x, y):
    p = P(x, y)
    a, b = p
    return p.a, p[1], a, b, p == (x, y), len(p), p._replace(a=1).a
''')
s('typing_namedtuple', 'ii', '''
from typing import NamedTuple
class P(NamedTuple):
    a: int
    b: int = 4
def f(x, y):
    p = P(x)
    return p.a, p.b, p == (x, 4)
''')
s('enum_', 'i', '''
from enum import Enum
class E(Enum):
    A = 1
    B = 2
def f(x):
    return E.A == E.A, E.A == E.B, E.A.value, E.B.name
''')
s('total_ordering', 'ii', '''
import functools
@functools.total_ordering
class A:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v
    def __lt__(self, o): return self.v < o.v
def f(x, y):
    a, b = A(x), A(y)
    return a < b, a <= b, a > b, a >= b, a == b, a != b
''')
s('sort_objects', 'ii', '''
class A:
    def __init__(self, v, n): self.v, self.n = v, n
    def __lt__(self, o): return self.v < o.v
def f(x, y):
    return [a.n for a in sorted([A(x, 'a'), A(y, 'b'), A(x, 'c')])], min(A(x, 1), A(y, 2)).n, max(A(x, 1), A(y, 2)).n
''')
s('hash_eq', 'i', '''
class A:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v
def f(x):
    return A(x) in [A(1), A(3)], [A(1)] == [A(x)], (A(x), 1) == (A(3), 1)
''')
s('str_repr_methods', 'n', '''
class A:
    def __init__(self, v): self.v = v
    def __str__(self): return f'A{self.v}'
    def __repr__(self): return f'A({self.v!r})'
def f(x):
    a = A(x)
    return str(a), repr(a), f'{a}', f'{a!r}', f'{[a]}', '%s' % a
''')
s('format_dunder', 'n', '''
class A:
    def __repr__(self): return 'R'
def f(x): return str(A()), f'{A()}'
''')
# --- strings, bytes
s('str_ops', 'n', '''
def f(x):
    t = 'C#' + str(x)
    return t[0], t[1:], len(t), t.startswith('C'), t.endswith('9'), t == 'C#7', 'ab'.upper(), 'a,b'.split(','), '-'.join(['a', 'b'])
''')
s('str_methods', 'n', '''
def f(x):
    t = ' abca '
    return t.strip(), t.count('a'), t.find('b'), t.replace('a', 'x'), t.index('c'), 'x' in t, 'A'.isalpha(), '12'.isdigit(), 'a' < 'b', 'Ab'.lower(), t.rstrip(), t.lstrip(), 'aXb'.partition('X')
''')
s('str_format_spec', 'n', '''
def f(x):
    return f'{5:>3d}', f'{"a":s}', f'{3.5:.2f}', f'{x % 10}', '{:s}{:d}'.format('a', 5), f'{5:03d}', '{0}-{1}-{0}'.format(1, 2), '{a}'.format(a=3)
''')
s('str_iter', 'n', '''
def f(x):
    return [c for c in 'abc'], ''.join(c * 2 for c in 'ab'), sorted('cab'), list('ab'), ord('A') + x, chr(65)
''')
s('str_mul', 'n', '''
def f(x): return 'ab' * 2, '#' * (x % 3), 'a' + 'b' 'c'
''')
s('bytes_ops', 'nn', '''
def f(x, y):
    b = bytes([x % 256, y % 256, 3])
    return b[0], b[1:], len(b), b + b'z', b''.join([b, b'q']), b == b'abc', list(b), b[-1], b[:1] + b[2:], b'\\x00' in b''
''')
s('bytearray_ops', 'nn', '''
def f(x, y):
    b = bytearray()
    b.append(x % 256)
    b.extend([y % 256, 1])
    b += b'zz'
    b.insert(0, 7)
    return bytes(b), len(b), b[0]
''')
s('bytearray_reverse', 'n', '''
def f(x):
    b = bytearray([1, x % 256])
    b.reverse()
    c = bytes(reversed(b))
    return bytes(b), c, bytes(b[::-1])
''')
s('bytesio', 'nn', '''
import io
def f(x, y):
    g = io.BytesIO()
    g.write(bytes([x % 256]))
    g.write(b'ab')
    a = g.getvalue()
    h = io.BytesIO(b'12345')
    return a, h.read(2), h.read(0), h.read(10), h.read(1), h.tell()
''')
s('bytesio_ctx', 'n', '''
import io
def f(x):
    with io.BytesIO() as g:
        n = g.write(b'abc')
        return g.getbuffer().tobytes(), n
''')
s('bytes_const_cmp', 'n', '''
def f(x):
    b = bytes([x % 256, 0])
    return b == b'\\x80\\x00', b != b'ab', b in (b'ab', b'\\x05\\x00'), b[:1] == b'\\x05'
''')
s('struct_pack', 'n', '''
import struct
def f(x): return struct.pack('>BH', x % 256, x), struct.unpack('>H', b'\\x01\\x02')[0]
''')
s('bytes_value_error', 'i', '''
def f(x): return bytes([x])
''')
s('re_match', 'n', '''
import re
_p = re.compile(r'^(?P<a>[A-G])(?P<b>[#b]*)(?P<c>-?[0-9]+)?$')
def f(x):
    m = _p.match('C#4')
    n = _p.match('H')
    q = re.fullmatch('[0-9]+', '12')
    return m.group('a'), m.group('b'), m['c'], n is None, q is not None, _p.match('C').group('c'), m.groups(), m.groupdict() == {'a': 'C', 'b': '#', 'c': '4'}
''')
# --- library
s('heapq_', 'ii', '''
import heapq
def f(x, y):
    h = []
    heapq.heappush(h, x); heapq.heappush(h, y); heapq.heappush(h, 5)
    return sorted(h), len(h)
''')
s('heapq_pop', 'ii', '''
import heapq
def f(x, y):
    h = [x, y, 3]
    heapq.heapify(h)
    return heapq.heappop(h), heapq.heappop(h), h
''')
s('bisect_', 'ii', '''
import bisect
def f(x, y):
    l = [1, 5, 9]
    bisect.insort(l, x)
    return l, bisect.bisect_left([1, 5, 9], y), bisect.bisect([1, 5, 9], y)
''')
s('itertools_', 'i', '''
import itertools
def f(x):
    return list(itertools.chain([1], [x])), list(itertools.islice([1, 2, 3], 2)), list(itertools.accumulate([1, x])), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.zip_longest([1, 2], [3]))
''')
s('itertools_takewhile', 'i', '''
import itertools
def f(x):
    return list(itertools.takewhile(lambda v: v < x, [1, 2, 3])), list(itertools.dropwhile(lambda v: v < 2, [1, 2, 3])), list(itertools.repeat(x, 2))
''')
s('functools_reduce', 'ii', '''
from functools import reduce, partial
def f(x, y):
    g = partial(max, x)
    return reduce(lambda a, b: a + b, [x, y, 1]), g(y)
''')
s('lru_cache', 'i', '''
from functools import lru_cache
calls = []
@lru_cache(maxsize=None)
def g(v):
    calls.append(v)
    return v + 1
def f(x): return g(x), g(x)
''')
s('operator_', 'ii', '''
import operator
def f(x, y): return operator.add(x, y), operator.itemgetter(1)((x, y)), operator.lt(x, y), operator.attrgetter('real')(5)
''')
s('recursion', 'n', '''
def g(n): return 1 if n <= 1 else n * g(n - 1)
def f(x): return g(x % 5)
''')
s('mutual_recursion', 'n', '''
def even(n): return True if n == 0 else odd(n - 1)
def odd(n): return False if n == 0 else even(n - 1)
def f(x): return even(x % 6)
''')
s('isinstance_abc', 'i', '''
from collections.abc import Iterable, Sequence
from typing import Iterable as TI
def f(x):
    return isinstance([1], Iterable), isinstance(x, Iterable), isinstance('a', TI), isinstance((1,), Sequence), isinstance({}, Iterable)
''')
s('callable_type', 'i', '''
def f(x): return type(x) is int, type(x) == int, type('a') is str, callable(len), type([]) is list
''')
s('numbers_conv', 'i', '''
def f(x): return int('12'), int(3.9), float(2), str(3), bool(''), bool([0]), int(-2.5), list((1, 2)), tuple([1]), dict([('a', 1)])
''')
s('int_parse_error', 'i', '''
def f(x): return int('1x') if x > 3 else int(' 12 ')
''')
s('fractions_like', 'ii', '''
def f(x, y):
    n, d = abs(x), 8
    while n % 2 == 0 and d > 1:
        n //= 2
        d //= 2
    return n, d
''')
s('while_true_break', 'n', '''
def f(x):
    x = x % 7
    out = []
    while True:
        out.append(x & 1)
        x >>= 1
        if not x:
            break
    return out
''')
s('nested_break', 'n', '''
def f(x):
    out = []
    for i in range(3):
        for j in range(3):
            if j == x % 3: break
            out.append((i, j))
        else:
            out.append('full')
    return out
''')
s('loop_var_after', 'n', '''
def f(x):
    for i, (a, b) in enumerate([(1, 2), (3, x)]):
        pass
    return i, a, b
''')
s('property_on_class', 'i', '''
class A:
    total = []
    def __init__(self, v): self.total.append(v)
def f(x):
    n = len(A.total)
    A(x); A(2)
    return len(A.total) - n
''')
s('class_level_shared', 'i', '''
class A:
    def __init__(self, v, items=()):
        self.v = v
        self.items = list(items)
def f(x):
    a = A(x, [1]); b = A(x, a.items)
    b.items.append(2)
    return a.items, b.items
''')
s('bool_int_mix', 'i', '''
def f(x): return True == 1, isinstance(True, int), True + True, [10, 20][x > 3], {True: 'a'}.get(1), sum([x > 1, x > 2])
''')
s('none_checks', 'i', '''
def f(x):
    y = None if x > 3 else x
    return y is None, y or 'd', (y if y is not None else -1)
''')
s('none_arith', 'i', '''
def f(x):
    y = None if x > 3 else x
    return y + 1
''')
s('abs_neg_mod', 'i', '''
def f(x): return (-x) % 12, -(x % 12), -x // 12, (x + 1200) % 12, x - 12 * (x // 12)
''')
s('exception_order', 'i', '''
def f(x):
    try:
        return [][0] if x > 5 else {}['k'] if x > 0 else int('q')
    except IndexError: return 1
    except KeyError: return 2
    except Exception: return 3
''')
s('raise_in_except', 'i', '''
def f(x):
    try:
        raise KeyError('a')
    except KeyError as e:
        if x > 3:
            raise ValueError(str(x % 2)) from e
    return 'fine'
''')
s('suppress', 'i', '''
import contextlib
def f(x):
    with contextlib.suppress(ValueError):
        if x > 3: raise ValueError
        return 'no'
    return 'yes'
''')
s('contextmanager', 'i', '''
from contextlib import contextmanager
@contextmanager
def cm(log):
    log.append('in')
    try:
        yield 5
    finally:
        log.append('out')
def f(x):
    log = []
    try:
        with cm(log) as v:
            log.append(v)
            if x > 3: raise ValueError
    except ValueError:
        log.append('err')
    return log
''')
s('singledispatch', 'i', '''
from functools import singledispatch
@singledispatch
def g(v): return 'other'
@g.register
def _(v: int): return 'int'
def f(x): return g(x), g('a')
''')
s('try_in_loop', 'n', '''
def f(x):
    out = []
    for k in ('a', 'b', x):
        try:
            out.append(int(k) if not isinstance(k, str) else {'a': 1}[k])
        except KeyError:
            out.append('miss')
            continue
        finally:
            out.append('.')
    return out
''')
s('loop_modify_dict', 'n', '''
def f(x):
    d = {1: 1, 2: 2}
    for k in list(d):
        if k == x: del d[k]
    return d
''')
s('dict_changed', 'n', '''
def f(x):
    d = {1: 1, 2: 2}
    for k in d:
        if k == x: d[9] = 1
    return d
''')
s('str_compare_var', 'n', '''
def f(x):
    t = 'C' if x > 3 else 'D'
    u = t + '#'
    return t == 'C', u != 'D#', t < 'D', {'C': 0, 'D': 2}[t], t in 'CDE', t in ('C', 'E')
''')
s('str_int_of_str', 'i', '''
def f(x):
    t = f'C{x}'
    return int(t[1:]), t[0]
''')
s('int_of_signed', 'i', '''
def f(x): return int(f'-{abs(x)}'), int(f'+{abs(x)}'), int(f'0{abs(x)}')
''')
s('join_gen', 'n', '''
def f(x): return b''.join(bytes([v]) for v in (1, x % 256)), ''.join(f'{v}' for v in (1, 2))
''')

# --- classes and library objects
s('total_ordering', 'ii', """
import functools
@functools.total_ordering
class P:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v
    def __lt__(self, o): return self.v < o.v
def f(x, y):
    a, b = P(x), P(y)
    return a < b, a <= b, a > b, a >= b, a == b, a != b
""")
s('total_ordering_le', 'ii', """
import functools
@functools.total_ordering
class P:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v % 3 == o.v % 3
    def __le__(self, o): return self.v <= o.v
def f(x, y):
    a, b = P(x), P(y)
    return a < b, a <= b, a > b, a >= b
""")
s('namedtuple_cls', 'ii', """
from typing import NamedTuple
class P(NamedTuple):
    a: int
    b: int = 7
    def s(self): return self.a + self.b
def f(x, y):
    p, q = P(x, y), P(x)
    u, v = p
    return p.s(), q.b, u, v, p[0], len(p), p == (x, y), p < q, p._replace(a=1).a, tuple(p), isinstance(p, tuple), q == P(a=x, b=7)
""")
s('namedtuple_fn', 'ii', """
from collections import namedtuple
P = namedtuple('P', 'a b')
Q = namedtuple('Q', ['a', 'b'], defaults=[3])
def f(x, y):
    p = P(x, b=y)
    return p.a, p.b, Q(x).b, p + (1,), max(p, P(y, x)).a, P._fields
""")
s('namedtuple_missing', 'i', """
from collections import namedtuple
P = namedtuple('P', 'a b')
def f(x): return P(x)
""")
s('enum_basic', 'n', """
from enum import Enum, IntEnum
class K(Enum):
    A = 1
    B = 2
    C = 1
class N(IntEnum):
    ONE = 1
    TWO = 2
def f(x):
    n = N(x % 3) if x % 3 else N.ONE
    return n == 1, n + 1, n is N.TWO, n < 2, K.A is K.C, K.A == 1, K.A == K.B, K(2) is K.B, K.B.value, K['A'] is K.A, [k.value for k in K], n.name
""")
s('enum_bad', 'n', """
from enum import Enum
class K(Enum):
    A = 1
    B = 2
def f(x): return K(x).value
""")
s('match_stmt', 'n', """
def f(x):
    match x:
        case 0: return 'zero'
        case 1 | 2 | 3: return 'few'
        case 127 | 128: return 'edge'
        case v if v > 200: return ('big', v)
        case _: return 'other'
""")
s('match_seq', 'ii', """
def f(x, y):
    out = []
    for t in ((x, y), (x,), [1, 2, x, y], 'ab', None, (), {'a': x}):
        match t:
            case (a, b): out.append(('two', a, b))
            case [a]: out.append(('one', a))
            case [a, *rest]: out.append((a, len(rest)))
            case str(): out.append('str')
            case None: out.append(None)
            case []: out.append('empty')
            case {'a': v}: out.append(v)
    return out
""")
s('match_cls', 'ii', """
from dataclasses import dataclass
@dataclass
class P:
    a: int
    b: int
class Q(P): pass
def f(x, y):
    out = []
    for t in (P(x, y), Q(x, 2), x, True):
        match t:
            case Q(a=v): out.append(('q', v))
            case P(1, b): out.append(('one', b))
            case P(a, b): out.append((a, b))
            case bool(): out.append('bool')
            case int(): out.append('int')
    return out
""")
s('struct_pack', 'n', """
import struct
H = struct.Struct('>BH')
def f(x): return struct.pack('>H', x), struct.pack('<I', x), struct.pack('>4sB', b'MThd', x % 256), H.size, H.pack(x % 256, x), struct.unpack('>H', struct.pack('>H', x))[0], struct.calcsize('>IHHH')
""")
s('struct_overflow', 'i', """
import struct
def f(x): return struct.pack('>B', x)
""")
s('struct_unpack', 'n', """
import struct
def f(x):
    b = bytes([1, x % 256, 3, 4])
    return struct.unpack('>HH', b), struct.unpack_from('>H', b, 1)
""")
s('struct_unpack_short', 'n', """
import struct
def f(x): return struct.unpack('>I', bytes([1, x % 256]))
""")
s('cm_cls', 'n', """
class C:
    def __init__(self, log): self.log = log
    def __enter__(self):
        self.log.append('in'); return self
    def __exit__(self, t, v, tb):
        self.log.append('none' if t is None else t.__name__)
        return t is ValueError
def f(x):
    log = []
    try:
        with C(log) as c:
            if x > 100: raise ValueError('a')
            if x > 5: raise KeyError('b')
            log.append('body')
    except KeyError: log.append('key')
    return log
""")
s('cm_gen', 'n', """
from contextlib import contextmanager, suppress
@contextmanager
def g(log):
    log.append('in')
    try: yield 5
    except ValueError: log.append('caught')
    finally: log.append('out')
def f(x):
    log = []
    with suppress(KeyError), g(log) as v:
        log.append(v)
        if x > 100: raise ValueError
        if x > 5: raise KeyError
    return log
""")
s('cm_return', 'n', """
class C:
    def __enter__(self): return 3
    def __exit__(self, *a): return None
def f(x):
    for i in range(3):
        with C() as v:
            if x > 7: return v + i
            if x > 3: break
            continue
    return i
""")
s('super_chain', 'i', """
class A:
    def __init__(self, v): self.v = v
    def g(self): return ('A', self.v)
class B(A):
    def g(self): return ('B',) + super().g()
class C(A):
    def __init__(self, v): super().__init__(v + 1)
    def g(self): return ('C',) + super().g()
class D(B, C):
    @property
    def p(self): return super().g()
    @classmethod
    def mk(cls, v): return cls(v)
def f(x):
    d = D.mk(x)
    return d.g(), d.p, [c.__name__ for c in D.__mro__[:4]], isinstance(d, C), issubclass(D, A), super(D, d).g()
""")
s('slots_store', 'i', """
class A:
    __slots__ = ('a',)
    def __init__(self, v): self.a = v
class B(A): pass
def f(x):
    b = B(x); b.z = 1
    a = A(x)
    try:
        a.b = 1
        return 'stored'
    except AttributeError: return a.a, b.z, hasattr(a, 'b')
""")
s('slots_unset', 'i', """
class A:
    __slots__ = ('a', 'b')
    def __init__(self, v): self.a = v
def f(x): return A(x).b
""")
s('prop_setter', 'i', """
class A:
    def __init__(self, v): self.v = v
    @property
    def v(self): return self._v + 1
    @v.setter
    def v(self, n): self._v = n * 2
def f(x):
    a = A(x); a.v = a.v; a.v += 1
    return a.v, a._v
""")
s('prop_readonly', 'i', """
class A:
    @property
    def v(self): return 1
def f(x):
    a = A(); a.v = x
    return a
""")
s('dataclass_all', 'ii', """
from dataclasses import dataclass, field, replace
@dataclass(order=True, frozen=True)
class P:
    a: int
    b: int = 3
    c: list = field(default_factory=list, compare=False)
@dataclass
class Q(P if False else object):
    a: int
    def __post_init__(self): self.d = self.a * 2
def f(x, y):
    p, q = P(x, y), P(x)
    p.c.append(1)
    return p == q, p < q, p >= q, q.b, q.c, p.c, Q(x).d, replace(p, b=9).b, p == P(x, y, [5]), p != 1
""")
s('dataclass_frozen', 'i', """
from dataclasses import dataclass
@dataclass(frozen=True)
class P:
    a: int
def f(x):
    p = P(x)
    try: p.a = 2
    except AttributeError: return 'frozen', p.a
    return 'changed'
""")
s('dataclass_cmp_type', 'i', """
from dataclasses import dataclass
@dataclass(order=True)
class P:
    a: int
@dataclass(order=True)
class Q:
    a: int
def f(x): return P(x) == Q(x), P(x) != Q(x), P(x) < Q(x)
""")
s('callable_obj', 'i', """
class A:
    def __init__(self, k): self.k = k
    def __call__(self, v, *, w=1): return v + self.k + w
    def __len__(self): return 2
    def __getitem__(self, i):
        if i > 2: raise IndexError(i)
        return i * self.k
    def __contains__(self, v): return v == self.k
    def __bool__(self): return self.k > 3
def f(x):
    a = A(x)
    return a(1), a(1, w=2), len(a), a[2], list(a), x in a, bool(a), 'y' if a else 'n', callable(a), list(map(a, (1, 2)))
""")
s('iter_proto', 'n', """
class It:
    def __init__(self, n): self.n, self.i = n, 0
    def __iter__(self): return self
    def __next__(self):
        self.i += 1
        if self.i > self.n: raise StopIteration
        return self.i
def f(x):
    it = It(x % 4)
    a = next(it, None)
    return a, list(it), list(it), sum(It(3))
""")
s('gen_twice', 'n', """
def g(n):
    for i in range(n): yield i
def f(x):
    it = g(3)
    a = list(it)
    return a, list(it), [v for v in g(2)], sum(g(4))
""")
s('gen_return', 'n', """
def g(n):
    yield 1
    if n > 4: return
    yield 2
    yield from (3, 4)
def f(x): return list(g(x)), tuple(v * 2 for v in g(x)), dict(enumerate(g(x))), max(g(x)), any(v == 2 for v in g(x))
""")
s('zip_forms', 'n', """
import itertools, operator
def f(x):
    a, b = [1, 2, 3], (x, 5)
    return list(zip(a, b)), list(itertools.zip_longest(a, b)), list(itertools.zip_longest(a, b, fillvalue=9)), list(itertools.pairwise(a)), list(itertools.accumulate(a)), list(itertools.chain(a, b)), list(itertools.chain.from_iterable([a, b])), list(itertools.islice(a, 1, None)), list(itertools.takewhile(lambda v: v < 3, a)), list(itertools.repeat(x, 2)), list(itertools.starmap(operator.add, [(x, 1), (2, 3)]))
""")
s('zip_strict', 'n', """
def f(x): return list(zip([1, 2, 3], [x] * (x % 4), strict=True))
""")
s('reduce_forms', 'ii', """
import functools, operator
def f(x, y):
    g = functools.partial(lambda a, b, c=1: (a, b, c), x, c=5)
    return functools.reduce(operator.add, [x, y, 3]), functools.reduce(lambda a, b: a * 2 + b, (x, y), 1), g(y), g(y, c=2), operator.itemgetter(1)((x, y)), operator.itemgetter(0, 1)([x, y]), operator.attrgetter('real')(3) if False else 0, operator.lt(x, y), operator.floordiv(x, 3), operator.neg(x), operator.mul(x, y), operator.sub(x, y)
""")
s('reduce_empty', 'i', """
import functools
def f(x): return functools.reduce(lambda a, b: a + b, [])
""")
s('lru', 'i', """
import functools
@functools.lru_cache(maxsize=None)
def g(t): return len(t) + 1
def f(x): return g('ab') + x, g('ab'), g('abc')
""")
s('bisect_forms', 'ii', """
import bisect
def f(x, y):
    a = [1, 5, 5, 9]
    b = [3]
    bisect.insort(b, x); bisect.insort_right(b, y); bisect.insort_left(b, 3)
    return bisect.bisect_left(a, 5), bisect.bisect_right(a, 5), bisect.bisect(a, x), b
""")
s('heap_forms', 'ii', """
import heapq
def f(x, y):
    h = []
    for v in (x, y, 3, 4): heapq.heappush(h, v)
    a = heapq.heappop(h)
    return a, h[0], sorted(h), len(h)
""")
s('sort_keys', 'ii', """
def f(x, y):
    a = [(x, 'a'), (y, 'b'), (x, 'c'), (2, 'd')]
    b = sorted(a, key=lambda t: t[0])
    c = sorted(a, key=lambda t: t[0], reverse=True)
    a.sort(key=lambda t: -t[0])
    return a, b, c, sorted([x, y, 1]), min(a, key=lambda t: t[0]), max([x, y], default=0), min([], default=4), max((x, y), (y, x))
""")
s('minmax_ties', 'ii', """
def f(x, y):
    a = [(x, 1), (y, 2), (x, 3)]
    return max(a, key=lambda t: t[0]), min(a, key=lambda t: t[0]), max(x, y, 5), min(1, x, True), max(1, True), max(True, 1), min(0, False)
""")
s('percent_fmt', 'i', """
def f(x): return '%d' % x, '%s:%d' % ('a', x), '%s' % x, '%d%%' % 3, 'n=%i' % 4
""")
s('format_fn', 'i', """
def f(x): return '{}-{}'.format(x, 'b'), '{0}{1}{0}'.format('a', x), '{a}'.format(a=x), f'{x!r}', f'{"q"!r}', f'{x}' + str(x), format(3, 'd'), f'{x:d}', '{:d}'.format(x)
""")
s('bytes_ops', 'n', """
def f(x):
    b = bytes([x % 256, 2, 3])
    m = bytearray(b); m.append(7); m += b'ab'; m.extend([1, 2]); m.insert(0, 5); m[1] = 9
    return b[0], b[1:], b[-1], len(b), b + b'x', b * 2, b == bytes([x % 256, 2, 3]), 2 in b, bytes(m), m[0], b''.join([b, b'']), bytes(2), list(b), b.hex() if False else '', bytes(reversed(b)), m[::-1][0], b.startswith(b'M')
""")
s('bytes_range', 'i', """
def f(x): return bytes([x])
""")
s('bytearray_range', 'i', """
def f(x):
    m = bytearray(); m.append(x)
    return m
""")
s('to_bytes_forms', 'n', """
def f(x): return x.to_bytes(2, 'big'), x.to_bytes(4, 'little'), int.from_bytes(x.to_bytes(3, 'big'), 'big'), int.from_bytes(b'\\x01\\x02', byteorder='little'), x.to_bytes(length=2, byteorder='big'), (-1).to_bytes(2, 'big', signed=True), int.from_bytes(b'', 'big')
""")
s('to_bytes_over', 'i', """
def f(x): return x.to_bytes(1, 'big')
""")
s('float_forms', 'f', """
import math
def f(x): return x < 0.5, -x, abs(x), x == x, x >= 1, math.isnan(x), math.isinf(x), x != 0, 0 <= x <= 1, bool(x), x + 0.0 if False else 0.0, isinstance(x, float), x.is_integer() if x == 0.5 else None
""")
s('float_int', 'f', """
import math
def f(x):
    if not (-1000 < x < 1000): return 'far'
    return int(x), math.floor(x), math.ceil(x), math.trunc(x)
""")
s('float_int_bad', 'f', """
def f(x): return int(x) if not abs(x) < 1000 and not 1e299 < x < 1e301 else 0
""")
s('float_minmax', 'f', """
def f(x): return max(0.0, min(1.0, x)), max(x, 0.0), min(x, 1.0), max(0.0, x), sorted([0.5, 0.25])[0]
""")
s('float_mix_cmp', 'if', """
def f(x, y): return x < y, x == y, y >= x, (x, y) == (x, y), x in (y,), y in [y], [y] == [y], (y, 1) < (y, 2)
""")
s('del_forms', 'n', """
def f(x):
    a = [1, 2, 3, 4]; d = {1: 2, x: 3}
    del a[0], d[x]
    del a[1:]
    v = 5
    del v
    try: return v
    except UnboundLocalError: return a, d
""")
s('try_else_finally', 'n', """
def f(x):
    out = []
    for i in range(3):
        try:
            if x > 100 and i == 1: break
            if x > 5 and i == 1: continue
            if x > 3 and i == 2: raise ValueError(i)
        except ValueError as e: out.append(('v', e.args[0]))
        else: out.append(('else', i))
        finally: out.append(('fin', i))
    else: out.append('done')
    return out
""")
s('finally_return', 'n', """
def f(x):
    try:
        if x > 3: raise KeyError
        return 'try'
    except KeyError: return 'except'
    finally:
        if x > 100: return 'finally'
""")
s('raise_from', 'n', """
class E(ValueError): pass
def f(x):
    try:
        try:
            if x > 3: raise KeyError('k')
            raise E('e')
        except KeyError as k: raise E('from') from k
    except ValueError as e: return type(e).__name__, str(e), e.args, isinstance(e, E), e.__cause__ is None
""")
s('reraise', 'n', """
def f(x):
    try:
        try: return [1, 2][x]
        except LookupError:
            if x > 3: raise
            return 'low'
    except IndexError: return 'index'
""")
s('nested_fn_state', 'n', """
def f(x):
    c = 0
    def inc(k=1):
        nonlocal c
        c += k
        return c
    fs = [lambda i=i: i + c for i in range(3)]
    gs = [lambda: i for i in range(3)]
    inc(); inc(x)
    return c, [g() for g in fs], [g() for g in gs]
""")
s('star_args', 'ii', """
def g(a, *b, c=1, **d): return a, b, c, sorted(d.items())
def h(a, /, b, *, c): return a, b, c
def f(x, y): return g(x), g(x, y, 3, c=4), g(*[x, y], **{'c': 2, 'z': y}), h(1, b=x, c=y), h(x, y, c=0)
""")
s('star_args_bad', 'i', """
def h(a, /, b, *, c): return a, b, c
def f(x): return h(a=x, b=1, c=2)
""")
s('kwonly_missing', 'i', """
def h(a, *, c): return a, c
def f(x): return h(x)
""")
s('mutable_default_local', 'i', """
def f(x):
    def g(v, acc=[]):
        acc.append(v)
        return acc
    g(1)
    return g(x), g(2)
""")
s('unpack_forms', 'ii', """
def f(x, y):
    a, *b = [x, y, 3]
    *c, d = (x,)
    (p, q), r = (x, y), 3
    [u, v] = x, y
    a, x = x, a
    return a, b, c, d, p, q, r, u, v, x
""")
s('unpack_bad', 'n', """
def f(x):
    a, b = [1] * (x % 4)
    return a, b
""")
s('chained_cmp', 'ii', """
def f(x, y):
    log = []
    def t(v):
        log.append(v); return v
    r = t(1) < t(x) < t(y) <= t(100)
    return r, log, x < y > 3, 1 < x != y
""")
s('cond_expr', 'ii', """
def f(x, y): return (x and y, x or y, not x, x if y else 0, (x > 3) + (y > 3), sum(v > 2 for v in (x, y)), [v for v in (x, y) if v if v > 1], {v: v + 1 for v in (1, 2)}[1], x is None, (x == y) is True)
""")
s('int_methods', 'i', """
def f(x): return abs(x), x.bit_length(), -x // 7, -(x // 7), divmod(-x, 12), pow(x, 2), x ** 2, +x, int(x), x.real if False else 0, int('12'), int('-3'), int(True), round(x), hash(1) == hash(1), ~x
""")
s('str_methods', 'n', """
def f(x):
    t = 'C#4' if x > 3 else 'Db-1'
    return t[0], t[1:], t[-1], len(t), '#' in t, t.startswith('C'), t.replace('#', 'b'), t.lower(), t.count('b'), t.find('#'), 'a' * 3, t.isdigit(), '7'.isdigit(), ','.join(['a', t]), t.split('#')[0], t.strip('C'), t * 2 == t + t, ord(t[0]), chr(65)
""")
s('list_methods', 'ii', """
def f(x, y):
    a = [x, y]
    b = a
    b.append(3); a.extend((4, x)); a.insert(1, 9)
    c = a[:]; c.pop(); c.reverse()
    d = a.copy(); d.clear()
    return a, c, d, a.index(9), a.count(9), a[1:3], a[-2:], a[::2], a is b, a == c, [0] * 2 + [x], a.pop(0), 9 in a
""")
s('list_bad_index', 'n', """
def f(x): return [1, 2, 3][x - 4]
""")
s('dict_methods', 'n', """
def f(x):
    d = {'a': 1}
    d['b'] = x; d.setdefault('c', []).append(x); d.update(e=2)
    d2 = {**d, 'a': 5}; d3 = d | {'z': 1}
    p = d.pop('a', None), d.pop('q', 7)
    return d, list(d2.items()), len(d3), p, d.get('zz'), d.get('b', 3), 'b' in d, list(d), list(d.values()), sorted(d2), dict([('k', x)]), dict(zip('ab', (1, x)))
""")
s('dict_sym_keys', 'ii', """
def f(x, y):
    d = {}
    d[x] = 'a'; d[y] = 'b'; d[(x, 1)] = 'c'
    return len(d), d[x], d.get((y, 1)), x in d, 3 in d
""")
s('dict_missing', 'n', """
def f(x): return {1: 'a', 2: 'b'}[x]
""")
s('defaultdict_forms', 'n', """
from collections import defaultdict, OrderedDict, deque
def f(x):
    d = defaultdict(list)
    d[x].append(1); d[x].append(2); d[0]
    return dict(d), len(d), d.get(77), 77 in d
""")
s('set_forms', 'n', """
def f(x): return x in {1, 2, 3}, x in frozenset((4, 5)), len({1, 1, 2}), {1, 2} == {2, 1}, x not in set(range(3))
""")
s('while_else', 'n', """
def f(x):
    i = 0
    while i < 5:
        i += 1
        if i == x: break
    else: return 'none'
    return i
""")
s('global_const', 'n', """
T = [i * 2 for i in range(8)]
M = {v: k for k, v in enumerate(T)}
for i in range(3): T[i] = -1
def f(x): return T[x % 8], M.get(x), i, len(T)
""")
s('class_attr', 'i', """
class A:
    K = 3
    T = {1: 2}
    def g(self): return self.K, A.K, type(self).K, self.T[1]
class B(A):
    K = 4
def f(x):
    b = B(); b.K = x
    return A().g(), b.g(), B.K
""")
s('static_class', 'i', """
class A:
    n = 2
    @staticmethod
    def s(v): return v + 1
    @classmethod
    def c(cls, v): return cls.n + v
class B(A): n = 5
def f(x): return A.s(x), A().s(x), B.c(x), B().c(x), A.c(x)
""")
s('eq_reflect', 'i', """
class A:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v if isinstance(o, A) else NotImplemented
    def __lt__(self, o): return self.v < o.v if isinstance(o, A) else NotImplemented
    def __add__(self, o): return A(self.v + (o.v if isinstance(o, A) else o))
    __radd__ = __add__
    def __neg__(self): return A(-self.v)
    def __abs__(self): return A(abs(self.v))
    def __mul__(self, k): return A(self.v * k)
    def __rmul__(self, k): return ('r', self.v * k)
def f(x):
    a, b = A(x), A(3)
    return a == b, a != b, a == 3, a < b, a > b, (a + b).v, (1 + a).v, sum([a, b]).v, (-a).v, abs(a).v, (a * 2).v, 2 * a, a in [b], [a, b].index(b)
""")
s('lt_typeerror', 'i', """
class A:
    def __init__(self, v): self.v = v
    def __lt__(self, o): return NotImplemented
def f(x): return A(x) < A(3)
""")
s('hash_rules', 'i', """
class A:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return self.v == o.v
def f(x): return {A(x): 1}
""")
s('abc_inst', 'i', """
from abc import ABC, abstractmethod
class A(ABC):
    @abstractmethod
    def g(self): ...
class B(A):
    def g(self): return 1
def f(x):
    if x > 3: return B().g()
    return A()
""")
s('walrus', 'n', """
def f(x):
    a = [y := x, y + 1]
    if (n := len(a)) > 1: z = n
    b = [w for v in (1, 2) if (w := v * x) > 1]
    return a, z, y, b
""")
s('fstr_nested', 'i', """
def f(x): return f'{x if x > 3 else "low"}', f'{[1, x]}' if False else '', f"{'a' + 'b'}{x + 1}", f'{{}}{x}'
""")
s('isinstance_forms', 'i', """
from collections.abc import Iterable, Sequence
from typing import Iterable as TI
def f(x): return isinstance(x, int), isinstance(x, (str, int)), isinstance(True, int), isinstance(x, bool), isinstance([], Iterable), isinstance((), Sequence), isinstance('', TI), isinstance(x, Iterable), isinstance(None, type(None)), type(x) is int, isinstance(b'', Sequence), isinstance({}, Sequence)
""")
s('any_all', 'ii', """
def f(x, y):
    log = []
    def t(v):
        log.append(v); return v > 3
    return any(t(v) for v in (x, y, 9)), all(t(v) for v in (x, y)), log, any([]), all([]), any((0, x)), all([1, y])
""")
s('range_forms', 'n', """
def f(x): return list(range(x % 5)), list(range(5, 0, -2)), len(range(x)), x in range(3, 9), range(4)[2], list(reversed(range(3))), sum(range(4)), range(x) == range(x), list(range(3, x % 4)), 2 in range(0, 9, 3)
""")
s('io_bytes', 'n', """
import io
def f(x):
    b = io.BytesIO(bytes([1, x % 256, 3, 4]))
    o = io.BytesIO()
    a = b.read(1); c = b.read(2)
    o.write(b'xy'); n = o.write(c)
    return a, c, b.read(), b.read(1), o.getvalue(), n
""")
s('io_with', 'n', """
import io
def f(x):
    with io.BytesIO() as o:
        o.write(bytes([x % 256]))
        return o.getbuffer().tobytes()
""")
s('gen_left_exc', 'i', """
def g(log):
    for i in range(3):
        try:
            yield i
        except ValueError:
            log.append('caught')
        finally:
            log.append(i)
def f(x):
    log = []
    try:
        for y in g(log):
            if y == 1: raise ValueError
    except ValueError:
        log.append('out')
    return log[0], 'caught' in log
""")
s('gen_left_break', 'i', """
def g(log):
    yield 1
    log.append('a')
    yield 2
    log.append('b')
def f(x):
    log = []
    for y in g(log):
        if y == 2: break
    it = g(log)
    for y in it: break
    return log
""")
s('gen_left_return', 'i', """
def g(log):
    for i in range(5):
        log.append(i)
        yield i
def h(log, x):
    for y in g(log):
        if y == 2: return y + x
    return 0
def f(x):
    log = []
    return h(log, x), log
""")
s('gen_left_raise', 'i', """
def g(log):
    for i in range(5):
        log.append(i)
        yield i
def f(x):
    log = []
    try:
        for y in g(log):
            if y == 2: raise KeyError(x)
    except KeyError: log.append('k')
    return log
""")
s('gen_resume', 'i', """
def g():
    yield 1
    yield 2
    yield 3
def f(x):
    it = g()
    for y in it: break
    return list(it)
""")
s('ctx_return', 'i', """
from contextlib import contextmanager
@contextmanager
def c(log):
    log.append('in')
    yield 5
    log.append('out')
def h(log):
    with c(log) as v: return v
def f(x):
    log = []
    return h(log), log
""")
s('ctx_break', 'i', """
from contextlib import contextmanager
@contextmanager
def c(log):
    try:
        yield 5
    except ValueError:
        log.append('ve')
    else:
        log.append('else')
    finally:
        log.append('fin')
def f(x):
    log = []
    for i in range(3):
        with c(log):
            if i == 0: continue
            if i == 1: raise ValueError
            break
    return log, i
""")
s('ctx_gen', 'i', """
from contextlib import contextmanager
@contextmanager
def c(log):
    try:
        yield 5
    finally:
        log.append('fin')
def g(log):
    with c(log):
        yield 1
        yield 2
def f(x):
    log = []
    out = list(g(log))
    for y in g(log):
        out.append(y)
    return out, log
""")
s('zip_gen_lazy', 'i', """
def g():
    yield 1
    yield 2
    raise ValueError
def f(x):
    try: return list(zip([3, 4], g()))
    except ValueError: return 'err'
""")
s('zip_gen_lazy2', 'i', """
def g():
    yield 1
    yield 2
    raise ValueError
def f(x):
    try: return list(zip(g(), [3]))
    except ValueError: return 'err'
""")
s('any_gen_lazy', 'i', """
def g():
    yield 1
    yield 2
    raise ValueError
def f(x):
    return any(y == 2 for y in g()), 1 in g(), any(g())
""")
s('next_gen', 'i', """
def g(log):
    log.append(1)
    yield 10
    log.append(2)
    yield 20
def f(x):
    log = []
    it = g(log)
    a = next(it)
    log.append(x)
    b = next(it)
    return a, b, log, next(it, None)
""")
s('gen_default_first', 'i', """
def f(x):
    xs = [3, 1, 2]
    return next((y for y in xs if y < 3), None), next(iter(xs)), next((y for y in xs if y > 9), x)
""")
s('gen_mutate', 'i', """
def g(xs):
    for y in xs: yield y
def f(x):
    xs = [1, 2]
    it = g(xs)
    xs.append(x)
    return list(it), xs
""")
s('genexp_late', 'i', """
def f(x):
    k = 1
    it = (y + k for y in [1, 2, 3])
    k = x
    return list(it), list(it)
""")
s('posonly_kw', 'i', """
def g(a, /, **kw): return a, kw
def f(x):
    return g(x, a=3)
""")
s('dc_sub', 'ii', """
from dataclasses import dataclass
@dataclass(order=True)
class P:
    a: int
    b: int = 3
class Q(P):
    def tot(self): return self.a + self.b
def f(x, y):
    q = Q(x, b=y)
    return q.tot(), q == Q(x, y), q == P(x, y), Q(x) < Q(x, 4), isinstance(q, P)
""")
s('comp_gen_effects', 'i', """
def g(log):
    for i in range(3):
        log.append(i)
        yield i
def h(log, y):
    log.append('h')
    return y
def f(x):
    log = []
    a = [h(log, y) for y in g(log)]
    return a, log
""")
s('comp_gen_raise_order', 'i', """
def g():
    yield 1
    raise KeyError(1)
def h(y): raise ValueError
def f(x):
    try: return [h(y) for y in g()]
    except ValueError: return 'v'
    except KeyError: return 'k'
""")
s('extend_gen_raise', 'i', """
def g():
    yield 1
    raise KeyError(1)
def f(x):
    out = [0]
    try: out.extend(g())
    except KeyError: pass
    try: out += g()
    except KeyError: pass
    return out
""")
s('list_gen_raise', 'i', """
def g():
    yield 1
    raise KeyError(1)
def f(x):
    try: return list(g())
    except KeyError: return 'k'
""")
s('unpack_gen', 'i', """
def g(n):
    for i in range(n): yield i
def f(x):
    a, b = g(2)
    try: c, d = g(3)
    except ValueError: c = 'v'
    p, *q = g(4)
    return a, b, c, p, q
""")
s('ctx_swallow', 'i', """
from contextlib import contextmanager
@contextmanager
def c(log):
    try: yield
    except ValueError: log.append('swallowed')
def f(x):
    log = []
    with c(log):
        if x > 0: raise ValueError
        log.append('ok')
    with c(log): raise ValueError(x)
    return log
""")
s('ctx_convert', 'i', """
from contextlib import contextmanager
@contextmanager
def c():
    try: yield
    except ValueError as e: raise KeyError('k') from e
def f(x):
    try:
        with c():
            if x % 2: raise ValueError
            return 'r'
    except KeyError: return 'k'
""")
s('dict_gen_update', 'i', """
def g():
    yield 'a', 1
    yield 'b', 2
def f(x):
    d = dict(g())
    d.update(g())
    d['c'] = x
    return d, sum(y for _, y in g()), max(y for _, y in g()), sorted(g()), dict((b, a) for a, b in g())
""")
s('gen_in_gen', 'i', """
def g(n):
    for i in range(n): yield i
def h(n):
    for i in g(n):
        if i == 2: return
        yield from g(i)
        yield 'x'
def f(x): return list(h(4))
""")
s('gen_mutating_consumer', 'i', """
def g(xs):
    for i in range(3): yield len(xs)
def f(x):
    xs = []
    out = []
    for n in g(xs):
        xs.append(n); out.append(n)
    ys = []
    out2 = [ys.append(n) or n for n in g(ys)]
    return out, out2
""")
s('file_closed', 'i', """
import io
def f(x):
    with io.BytesIO() as f:
        f.write(b'ab')
        v = f.getvalue()
    try: f.getvalue()
    except ValueError: return v, 'closed', f.closed
    return v
""")
s('file_closed_2', 'i', """
import io
def f(x):
    f = io.BytesIO(b'abcd')
    a = f.read(2)
    f.close()
    try: f.read(1)
    except ValueError: return a, 'closed'
    return a
""")
s('file_read_huge', 'i', """
import io
def f(x):
    f = io.BytesIO(b'abcd')
    if x < 0: x = -x
    return f.read((1 << 62) + x)
""")
s('int_text_limit', 'i', """
def f(x):
    y = (x if x > 0 else 1 - x) << 15000
    try: str(y)
    except ValueError: return 'limit'
    return 'fine'
""")
