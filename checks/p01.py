"""Poly arithmetic against a plain dict model, as histories of operations."""
import copy
import math
import pickle
from fractions import Fraction as F

from hypothesis import strategies as st

from harness import Sub, Violation, call, ensure, expect_raises, load
from synth import bulk, clean, frac, key_of, make, model, num, plain, val

PROPERTY = 'P01'
RULE = ('random histories of up to 14 operations (+, -, *, scalar *, **, merge, add_keyval, remove_zero, copy, '
        'item assignment, operations on mismatched operands) over a pool of polynomials of two kinds, and random '
        'triples for the ring laws, changes of a result or an operand after an operation, and polynomials of up to 1500 terms in up to 13 columns; every polynomial of the pool is compared with its model after each operation. '
        'Non-trivial: at least three operations, or non-empty operands in a law')
ASSUMPTIONS = ['coefficients are ints and Fractions (documented), key components are ints or tuples of ints']

KF = {'A': ['e', 'h'], 'B': ['e', 'v'], 'C': ['e', 'h', 'l'], 'D': ['e']}


COPIES = {'method': lambda p: p.copy(), 'copy': copy.copy, 'deepcopy': copy.deepcopy,
          'pickle': lambda p: pickle.loads(pickle.dumps(p))}


def key(kind):
    e = st.integers(-3, 4)
    if kind == 'C':
        return st.tuples(e, e, st.lists(st.integers(-2, 2), max_size=2)).map(list)
    if kind == 'D':
        return st.tuples(e).map(list)
    return st.tuples(e, e).map(list)


def items(kind, size=4):
    return st.lists(st.tuples(key(kind), num()).map(list), max_size=size)


@st.composite
def history(draw):
    kinds = [draw(st.sampled_from('AABCD')) for _ in range(draw(st.integers(2, 4)))]
    polys = [[k, draw(items(k))] for k in kinds]
    ops = []
    n = len(kinds)
    for _ in range(draw(st.integers(1, 14))):
        op = draw(st.sampled_from(['add', 'sub', 'mul', 'rmul', 'pow', 'merge', 'addkv', 'rz', 'copy', 'set', 'cross',
                                   'alien', 'badpow', 'self']))
        i = draw(st.integers(0, n - 1))
        same = [j for j in range(n) if kinds[j] == kinds[i]]
        diff = [j for j in range(n) if kinds[j] != kinds[i]]
        if op in ('add', 'sub', 'mul'):
            ops.append([op, i, draw(st.sampled_from(same))])
            kinds.append(kinds[i])
        elif op == 'self':
            ops.append([draw(st.sampled_from(['add', 'sub', 'mul', 'merge'])), i, i])
            if ops[-1][0] != 'merge':
                kinds.append(kinds[i])
        elif op == 'rmul':
            ops.append([op, i, draw(st.one_of(num(), st.sampled_from([[1, 1], [-1, 1], [0, 1], [2, 1], [2, 2]])))])
            kinds.append(kinds[i])
        elif op == 'pow':
            ops.append([op, i, draw(st.one_of(st.integers(1, 3), st.integers(1, 12)))])
            kinds.append(kinds[i])
        elif op == 'badpow':
            ops.append([op, i, draw(st.integers(-3, 0))])
        elif op == 'merge':
            ops.append([op, i, draw(st.sampled_from(same))])
        elif op in ('addkv', 'set'):
            ops.append([op, i, draw(key(kinds[i])), draw(num())])
        elif op == 'rz':
            ops.append([op, i])
        elif op == 'copy':
            ops.append([op, i, draw(st.sampled_from(sorted(COPIES)))])
            kinds.append(kinds[i])
        elif op == 'cross' and diff:
            ops.append([op, i, draw(st.sampled_from(diff)), draw(st.sampled_from(['add', 'sub', 'mul', 'merge']))])
        elif op == 'alien':
            ops.append([op, i, draw(st.sampled_from(['dict', 'int', 'none', 'list'])),
                        draw(st.sampled_from(['add', 'sub', 'mul', 'merge']))])
        n = len(kinds)
    return {'polys': polys, 'ops': ops}


def m_mul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(x + y for x, y in zip(k1, k2))
            r[k] = r.get(k, 0) + v1 * v2
    return r


def do(op, a, b):
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    return a.merge(b)


def history_body(case):
    Poly = load('poly').Poly
    pool = []   # (poly, model dict or None, kind)
    for kind, its in case['polys']:
        pool.append((make(its, KF[kind]), model(its), kind))
    size = 0
    for step, o in enumerate(case['ops']):
        op, i = o[0], o[1]
        p, m, kind = pool[i]
        what = f'step {step} {o}'
        new = None
        strict = False
        if op in ('add', 'sub', 'mul'):
            q, w, _ = pool[o[2]]
            if len(m) * len(w) > 400:
                pool.append((p.copy(), dict(m), kind))
                continue
            r = call(what, do, op, p, q)
            if op == 'mul':
                new = m_mul(m, w)
            else:
                s = 1 if op == 'add' else -1
                new = dict(m)
                for k, v in w.items():
                    new[k] = new.get(k, 0) + s * v
            strict = True
        elif op == 'rmul':
            c = val(o[2])
            r = call(what, lambda: c * p)
            new = {k: frac(o[2]) * v for k, v in m.items()}
            strict = True
        elif op == 'pow':
            bits = max((v.numerator.bit_length() + v.denominator.bit_length() for v in m.values()), default=0)
            if math.comb(len(m) + o[2] - 1, o[2]) > 220 or bits * o[2] > 600:
                pool.append((p.copy(), dict(m), kind))
                continue
            r = call(what, lambda: p ** o[2])
            new = m
            for _ in range(o[2] - 1):
                new = m_mul(new, m)
            new = dict(new)
        elif op == 'badpow':
            expect_raises(what, NotImplementedError, lambda: p ** o[2])
        elif op == 'merge':
            q, w, _ = pool[o[2]]
            call(what, p.merge, q)
            for k, v in list(w.items()):
                m[k] = m.get(k, 0) + v
            for k in [k for k in m if m[k] == 0]:
                del m[k]
            ensure(all(p[k] != 0 for k in p), f'{what}: a zero coefficient is left')
        elif op == 'addkv':
            k = key_of(o[2])
            call(what, p.add_keyval, k, val(o[3]))
            m[k] = m.get(k, 0) + frac(o[3])
        elif op == 'set':
            k = key_of(o[2])
            call(what, p.__setitem__, k, val(o[3]))
            m[k] = frac(o[3])
        elif op == 'rz':
            call(what, p.remove_zero)
            for k in [k for k in m if m[k] == 0]:
                del m[k]
            ensure(all(p[k] != 0 for k in p), f'{what}: a zero coefficient is left')
        elif op == 'copy':
            r = call(what, COPIES[o[2]], p)
            new = dict(m)
        elif op == 'cross':
            expect_raises(what, NotImplementedError, do, o[3], p, pool[o[2]][0])
            ensure(p.is_exact_type(pool[o[2]][0]) is False, f'{what}: is_exact_type holds for different keyfor')
        elif op == 'alien':
            x = {'dict': dict(p), 'int': 3, 'none': None, 'list': [1]}[o[2]]
            expect_raises(what, NotImplementedError, do, o[3], p, x)
            ensure(p.is_exact_type(x) is False, f'{what}: is_exact_type holds for a {o[2]}')
        if new is not None:
            ensure(isinstance(r, Poly), f'{what}: result is {type(r).__name__}')
            if strict:
                ensure(all(r[k] != 0 for k in r), f'{what}: a zero coefficient is left in the result')
            pool.append((r, new, kind))
        for j, (p, m, kind) in enumerate(pool):
            if clean(plain(p)) != clean(m):
                raise Violation(f'after {what}, polynomial {j} is {clean(plain(p))}, should be {clean(m)}')
            ensure(tuple(p.keyfor) == tuple(KF[kind]), f'after {what}, keyfor of polynomial {j} is {p.keyfor}')
            ensure(p.is_exact_type(p), f'after {what}, polynomial {j} is not of its own type')


@st.composite
def law(draw):
    kind = draw(st.sampled_from('ACD'))
    return {'kind': kind, 'a': draw(items(kind)), 'b': draw(items(kind)), 'c': draw(items(kind, 3)),
            's': draw(num()), 't': draw(num()), 'm': draw(st.integers(1, 3)), 'n': draw(st.integers(1, 2))}


def law_body(case):
    kind = case['kind']
    a, b, c = (make(case[x], KF[kind]) for x in 'abc')
    s, t = frac(case['s']), frac(case['t'])

    def eq(what, x, y):
        x, y = call(what, x), call(what, y)
        if clean(plain(x)) != clean(plain(y)):
            raise Violation(f'{what}: {clean(plain(x))} != {clean(plain(y))}')

    eq('a+b = b+a', lambda: a + b, lambda: b + a)
    eq('(a+b)+c = a+(b+c)', lambda: (a + b) + c, lambda: a + (b + c))
    eq('(a+b)-b = a', lambda: (a + b) - b, lambda: a)
    eq('a-b = a+(-1)b', lambda: a - b, lambda: a + (-1) * b)
    if kind != 'C':  # tuple components concatenate: not commutative
        eq('ab = ba', lambda: a * b, lambda: b * a)
    eq('(ab)c = a(bc)', lambda: (a * b) * c, lambda: a * (b * c))
    eq('a(b+c) = ab+ac', lambda: a * (b + c), lambda: a * b + a * c)
    eq('s(a+b) = sa+sb', lambda: s * (a + b), lambda: s * a + s * b)
    eq('(s+t)a = sa+ta', lambda: (s + t) * a, lambda: s * a + t * a)
    eq('s(ab) = (sa)b', lambda: s * (a * b), lambda: (s * a) * b)
    small = make(case['a'][:3], KF[kind])
    eq('a^m a^n = a^(m+n)', lambda: small ** case['m'] * small ** case['n'], lambda: small ** (case['m'] + case['n']))
    one = make([[[0] * 2 + [[]] if kind == 'C' else [0] * len(KF[kind]), [1, 1]]], KF[kind])
    eq('1 a = a', lambda: one * a, lambda: a)
    z = call('0 a', lambda: 0 * a)
    ensure(clean(plain(z)) == {}, '0 a is not zero')


# ---- a result is a polynomial of its own -------------------------------------
OWN = ['a+0', '0+a', 'a-0', '0-a', 'a+b', 'a-b', 'a*b', 'a*1', '1*a', 'a**1', 'a**2', 'c*a', 'copy', 'copy.copy',
       'deepcopy', 'mul_poly', 'mul_poly one']
CHANGES = ['addkv', 'addkv present', 'set', 'set present', 'del', 'merge', 'update', 'clear', 'keyfor', 'rz', 'pop']


@st.composite
def own(draw):
    kind = draw(st.sampled_from('ABD'))
    return {'kind': kind, 'a': draw(items(kind)), 'b': draw(st.one_of(st.just([]), items(kind))),
            'op': draw(st.sampled_from(OWN)), 'c': draw(st.sampled_from([1, -1, 0, 2, '1', '-1', '1/2', '1.0'])),
            'who': draw(st.sampled_from(['result', 'a', 'b'])), 'how': draw(st.sampled_from(CHANGES)),
            'k': draw(key(kind)), 'v': draw(num())}


def own_body(case):
    kf = KF[case['kind']]
    a, b = make(case['a'], kf), make(case['b'], kf)
    empty, one = make([], kf), make([[[0] * len(kf), [1, 1]]], kf)
    c = case['c']
    c = float(c) if c == '1.0' else F(c) if isinstance(c, str) else c
    every = [list(range(len(kf)))] * 2
    ops = {'a+0': (lambda: a + empty, empty), '0+a': (lambda: empty + a, empty), 'a-0': (lambda: a - empty, empty),
           '0-a': (lambda: empty - a, empty), 'a+b': (lambda: a + b, b), 'a-b': (lambda: a - b, b),
           'a*b': (lambda: a * b, b), 'a*1': (lambda: a * one, one), '1*a': (lambda: one * a, one),
           'a**1': (lambda: a ** 1, b), 'a**2': (lambda: a ** 2, b), 'c*a': (lambda: c * a, b),
           'copy': (lambda: a.copy(), b), 'copy.copy': (lambda: copy.copy(a), b),
           'deepcopy': (lambda: copy.deepcopy(a), b), 'mul_poly': (lambda: a.mul_poly(b, every, list(kf)), b),
           'mul_poly one': (lambda: a.mul_poly(one, every, list(kf)), one)}
    f, b = ops[case['op']]
    what = f'{case["op"]} (c = {c!r})'
    r = call(what, f)
    ensure(r is not a and r is not b, f'{what} gives one of its operands, not a new polynomial')
    three = {'result': r, 'a': a, 'b': b}
    p = three[case['who']]
    state = lambda x: (plain(x), tuple(x.keyfor))
    before = {n: state(q) for n, q in three.items()}
    k, v = key_of(case['k']), val(case['v'])
    if case['how'].endswith('present') and len(p):
        k = next(iter(p))
    how = case['how'].split()[0]
    if how == 'addkv':
        p.add_keyval(k, v)
    elif how == 'set':
        p[k] = v
    elif how == 'del' and len(p):
        del p[next(iter(p))]
    elif how == 'merge':
        p.merge(make([[case['k'], case['v']]], kf))
    elif how == 'update':
        p.update({k: v})
    elif how == 'clear':
        p.clear()
    elif how == 'keyfor':
        p.set_keyfor([x + "'" for x in kf])
    elif how == 'rz':
        p.remove_zero()
    elif how == 'pop' and len(p):
        p.popitem()
    for n, q in three.items():
        if n != case['who']:
            ensure(state(q) == before[n], lambda: f'after r = {what}, a change ({case["how"]}) of {case["who"]} shows in '
                                                  f'{n}: {state(q)}, should be {before[n]}')


NAMES = ['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)', 'lambda', 'mu_j', 'sigma_j', 'v0', 'x']


@st.composite
def wide(draw):
    """polynomials of the size of the real formulas, and operands whose columns differ in one place only"""
    w = draw(st.integers(1, 13))
    seeds = st.integers(0, 10 ** 6)
    return {'w': w, 'a': [draw(seeds), draw(st.sampled_from([0, 1, 3, 40, 300, 1500]))],
            'b': [draw(seeds), draw(st.sampled_from([0, 1, 3, 40, 300, 1500]))], 'spread': draw(st.sampled_from([0, 1, 2, 6])),
            'at': draw(st.integers(0, w - 1)), 'how': draw(st.sampled_from(['rename', 'drop', 'more', 'swap', 'none'])),
            'op': draw(st.sampled_from(['add', 'sub', 'mul', 'merge'])), 'n': draw(st.integers(2, 4)), 'c': draw(num())}


def wide_body(case):
    w, kf = case['w'], NAMES[:case['w']]
    ia, ib = (bulk(*case[x], [None] * w, case['spread']) for x in 'ab')
    if case['op'] == 'mul':
        ib = ib[:max(1, 20000 // max(1, len(ia)))]
    a, b = make(ia, kf), make(ib, kf)
    ma, mb = model(ia), model(ib)
    other = list(kf)
    j = case['at']
    if case['how'] == 'rename':
        other[j] = other[j] + "'"
    elif case['how'] == 'drop':
        other = other[:-1]
    elif case['how'] == 'more':
        other = other + ['y']
    elif case['how'] == 'swap':
        other[j], other[-1] = other[-1], other[j]
    if other != kf:
        c = make(ib, other)
        for x, y in ((a, c), (c, a)):
            expect_raises(f'{case["op"]} of columns {x.keyfor} and {y.keyfor}', NotImplementedError, do, case['op'], x, y)
            ensure(x.is_exact_type(y) is False, f'is_exact_type of columns {x.keyfor} and {y.keyfor}')
        ensure(plain(c) == mb, 'a refused operation changes its operand')
    what = f'{case["op"]} of {len(ma)} and {len(mb)} terms in {w} columns'
    r = call(what, do, case['op'], a, b)
    if case['op'] == 'mul':
        new = m_mul(ma, mb)
    else:
        s = -1 if case['op'] == 'sub' else 1
        new = dict(ma)
        for k, v in mb.items():
            new[k] = new.get(k, 0) + s * v
    if case['op'] == 'merge':
        ensure(clean(plain(a)) == clean(new), f'{what}: the receiver is not the sum')
    else:
        ensure(plain(r) == clean(new), lambda: f'{what}: wrong at {sorted(set(plain(r).items()) ^ set(clean(new).items()))[:3]}')
        ensure(tuple(r.keyfor) == tuple(kf), f'{what}: keyfor {r.keyfor}')
        ensure(plain(a) == ma, f'{what}: the first operand is changed')
    ensure(plain(b) == mb, f'{what}: the second operand is changed')
    c = frac(case['c'])
    r = call('scalar multiple', lambda: c * b)
    ensure(plain(r) == clean({k: c * v for k, v in mb.items()}), f'multiple of {len(mb)} terms by {c}')
    p = make(ia[:5], kf)
    m = new = model(ia[:5])
    for _ in range(case['n'] - 1):
        new = m_mul(new, m)
    r = call('power', lambda: p ** case['n'])
    ensure(clean(plain(r)) == clean(new), f'power {case["n"]} of {len(m)} terms in {w} columns')


def subs(tier):
    q = tier == 'quick'
    return [
        Sub('wide', wide(), wide_body, 150 if q else 2500, lambda c: c['a'][1] > 1 and c['b'][1] > 1, meta={'cost': 8}, shards=2),
        Sub('history', history(), history_body, 450 if q else 12000, lambda c: len(c['ops']) >= 3, meta={'cost': 5}),
        Sub('own', own(), own_body, 400 if q else 8000, lambda c: bool(c['a']), meta={'cost': 2}),
        Sub('laws', law(), law_body, 250 if q else 5000, lambda c: bool(c['a'] and c['b'] and c['c'])),
    ]
