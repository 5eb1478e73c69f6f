"""Subs for formulas indexed by one order or a tuple of orders."""
from hypothesis import strategies as st

import gen
from formula import check_formula, decoded, derive, same_float, tuplify
from harness import Sub, call, load


def order_sub(name, mod, fn, orders, par, fixed, want, n, scalar=None, poly2num=True, nontrivial=None, cap=99,
              unpack=True, kwargs=(), cost=1, transform=None):
    """formula == want(order, par); scalar function and poly2num == formula

    scalar: (module, function, pass the order tuple as one argument)"""
    tup = lambda o: tuple(o) if isinstance(o, list) else (o,)

    def body(case):
        o, p = tup(case['n']), case['par']
        what = f'{mod}.{fn}{o}'
        poly = derive(mod, fn, *o)
        v, s = check_formula(what, poly, want(o if len(o) > 1 else o[0], p), p)
        fp = tuplify(p)
        if poly2num is not False:
            pm = mod if poly2num is True else poly2num
            x = call(f'{pm}.poly2num({what})', load(pm).poly2num, poly, fp)
            same_float(f'{pm}.poly2num({what})', x, v, s)
        if scalar and case['scalar'] and sum(o) <= cap:
            sm, sf, single = scalar
            x = call(f'{sm}.{sf}({o}, par)', getattr(load(sm), sf), *((o,) if single else o), fp)
            same_float(f'{sm}.{sf}({o}, par)', x, v, s)

    fields = dict(n=st.sampled_from(orders), par=par)
    if scalar:
        fields['scalar'] = st.booleans()
    pinned = tuple(dict({'n': o, 'par': f}, **({'scalar': True} if scalar else {}))
                   for o in orders for f in (fixed if isinstance(fixed, list) else [fixed]))
    low = [o for o in orders if 0 < sum(tup(o)) <= 4]
    if low:  # the boundary values of every parameter, at a small order
        o = max(low, key=lambda x: (min(sum(tup(x)), 3), min(tup(x)), -sum(tup(x))))
        pinned += tuple(dict({'n': o, 'par': p}, **({'scalar': True} if scalar else {}))
                        for p in gen.edges(fixed[0] if isinstance(fixed, list) else fixed))
    return Sub(name, gen.cases(**fields), body, n, nontrivial or (lambda c: sum(tup(c['n'])) >= 2), pinned=pinned,
               meta={'cost': cost})


def upto(n, top):
    """all tuples of n orders with sum <= top"""
    if n == 1:
        return [[a] for a in range(top + 1)]
    return [[a] + r for a in range(top + 1) for r in upto(n - 1, top - a)]
