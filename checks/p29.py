"""Requests outside the documented domain are refused."""
from hypothesis import strategies as st

import gen
from harness import Sub, call, expect_raises, load
from scalars import SCALARS

PROPERTY = 'P29'
RULE = ('random order tuples with at least one negative order for every function that documents non-negative orders, '
        'directly and through its scalar wrapper, next to valid calls made before; non-trivial: at least one order is '
        'negative and, when there are several, at least one is positive')
ASSUMPTIONS = ['which functions promise the refusal is fixed in the list NEGATIVE of this check, from the code']

# function -> number of orders
NEGATIVE = {
    'cpp_mom.mnorm': 1, 'cpp_mom.mcpp': 1, 'cpp_mom.mcpp_original': 1, 'cpp_mom.cmcpp': 1,
    'ito_mom.moment_IEII': 3, 'itos_mom.moment_IEI_IEII': 5, 'ito_cond_mom.moment_IEII': 3,
    'mdl_srjd.mom.moment_v': 1, 'mdl_srjd.cmom.cmoment_v': 1,
    'mdl_srjd.iez_mom.moment_IEZ': 1, 'mdl_srjd.iez_cmom.cmoment_IEZ': 1,
    'mdl_srjd.cond_ie_iez_mom.moment_ie': 1, 'mdl_srjd.cond_ie_iez_mom.moment_ie_iez': 2,
    'mdl_srjd.cond_ie_iez_cmom.moment_ie': 1, 'mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez': 2,
    'mdl_svcj.ieziziz_mom.moment_ieziziz': 3, 'mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz': 6,
    'mdl_svcj.cond_mom.moment_y': 1, 'mdl_svcj.cond_cmom.cmoment_y': 1,
    'mdl_svcj.mom.moment_y': 1, 'mdl_svcj.cmom.cmoment_y': 1,
}
# scalar wrapper -> (number of orders, orders passed as one tuple)
SCALAR = {
    'mdl_srjd.iez_mom.m': (1, False), 'mdl_srjd.iez_cmom.cm': (1, False),
    'mdl_srjd.cond_ie_iez_mom.m_ie': (1, False), 'mdl_srjd.cond_ie_iez_cmom.m_ie': (1, False),
    'mdl_srjd.cond_ie_iez_mom.m_ie_iez': (2, False), 'mdl_srjd.cond_ie_iez_cmom.cm_ie_iez': (2, False),
    'mdl_svcj.cond_mom.m_y': (1, False), 'mdl_svcj.cond_cmom.cm_y': (1, False),
    'mdl_svcj.mom.unm_y': (1, False), 'mdl_svcj.cmom.cm_y': (1, False),
    'mdl_svcj.ieziziz_mom.m_ieziziz': (3, True),
    'mdl_svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz': (6, True),
}


@st.composite
def neg_orders(draw, k):
    n = [draw(st.integers(-3, 3)) for _ in range(k)]
    n[draw(st.integers(0, k - 1))] = -draw(st.integers(1, 6))
    # keep a valid part cheap
    while sum(x for x in n if x > 0) > 4:
        i = max(range(k), key=lambda j: n[j])
        n[i] -= 1
    return n


@st.composite
def history(draw):
    """a rejected call, possibly between valid calls of the same function"""
    name = draw(st.sampled_from(sorted(NEGATIVE)))
    k = NEGATIVE[name]
    before = draw(st.lists(st.sampled_from([[1] + [0] * (k - 1), [2] + [0] * (k - 1), [0] * k]), max_size=2))
    return {'f': name, 'before': before, 'n': draw(neg_orders(k))}


def rejected(case):
    mod, fn = case['f'].rsplit('.', 1)
    f = getattr(load(mod), fn)
    for b in case['before']:
        call(f'{case["f"]}{tuple(b)}', f, *b)
    expect_raises(f'{case["f"]}{tuple(case["n"])}', ValueError, f, *case['n'])


@st.composite
def scalar_case(draw):
    name = draw(st.sampled_from(sorted(SCALAR)))
    return {'f': name, 'n': draw(neg_orders(SCALAR[name][0]))}


def scalar_rejected(case):
    mod, fn = case['f'].rsplit('.', 1)
    n = tuple(case['n'])
    args = (n,) if SCALAR[case['f']][1] else n
    expect_raises(f'{case["f"]}({n}, par)', ValueError, getattr(load(mod), fn), *args, dict(SCALARS[case['f']][1]))


# the integrals int e^{..} s^m ds: (number of arguments, position of m)
INTEGRALS = {'ito_mom.int_et': (2, 1), 'itos_mom.int_et': (3, 2), 'ito_cond_mom.int_et_fZ': (3, 1)}


def integral_rejected(case):
    mod, fn = case['f'].rsplit('.', 1)
    f = getattr(load(mod), fn, None)
    if f is None:
        return  # an internal step that is not there (any more)
    k, j = INTEGRALS[case['f']]
    args = list(case['n'][:k])
    for m in case['before']:
        args[j] = m
        call(f'{case["f"]}{tuple(args)}', f, *args)
    args[j] = case['m']
    expect_raises(f'{case["f"]}{tuple(args)}', ValueError, f, *args)


def nontrivial(c):
    return any(x < 0 for x in c['n']) and (len(c['n']) == 1 or any(x > 0 for x in c['n']))


def all_negative():
    out = []
    for f, k in sorted(NEGATIVE.items()):
        for i in range(k):
            for v in (-1, -2):
                for rest in (0, 1):
                    n = [rest if k <= 4 or j in (0, 3) else 0 for j in range(k)]
                    n[i] = v
                    out.append({'f': f, 'before': [], 'n': n})
            if k > 1:  # the orders sum to zero or more
                n = [0] * k
                n[i], n[(i + 1) % k] = -1, 2
                out.append({'f': f, 'before': [], 'n': n})
    return tuple(out)


def subs(tier):
    q = tier == 'quick'
    n = 400 if q else 6000
    return [
        Sub('negative-order', history(), rejected, n, nontrivial, pinned=all_negative()),
        Sub('negative-power-of-time', gen.cases(f=st.sampled_from(sorted(INTEGRALS)), n=st.lists(
            st.integers(0, 5), min_size=3, max_size=3), m=st.integers(-6, -1), before=st.lists(st.integers(0, 4), max_size=2)),
            integral_rejected, n // 4, lambda c: any(c['n']), pinned=tuple(
                {'f': f, 'n': [a, b, b], 'm': m, 'before': []} for f in sorted(INTEGRALS) for a in (0, 1, 2)
                for b in (0, 1) for m in (-1, -2))),
        Sub('negative-order-scalar', scalar_case(), scalar_rejected, n // 2, nontrivial,
            pinned=tuple({'f': f, 'n': [-1] + [0] * (k - 1)} for f, (k, _) in sorted(SCALAR.items()))),
    ]
