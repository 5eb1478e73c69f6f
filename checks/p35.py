"""The names exported by the package and its models are the documented functions."""
import importlib

from hypothesis import strategies as st

import gen
from formula import decoded, same
from harness import Sub, Violation, call, ensure, load
import sv

PROPERTY = 'P35'
RULE = ('random exported name of the package or of a model subpackage with random orders and parameters: the import as '
        'the README writes it, the call, and the value against the function of the module that defines it; '
        'non-trivial: total order >= 2')
ASSUMPTIONS = ['the module functions are compared with the models by the other checks']

# exported name -> (defining function, number of orders, factors)
EXPORTS = {}
for _m, _f in (('mdl_1fsv', 1), ('mdl_1fsvj', 1), ('mdl_2fsv', 2), ('mdl_2fsvj', 2)):
    EXPORTS[_m + ':moment_y'] = (_m + '.mom.moment_y', 1, _f)
    EXPORTS[_m + ':cmoment_y'] = (_m + '.cmom.cmoment_y', 1, _f)
    EXPORTS[_m + ':cov_yy'] = (_m + '.cov.cov_yy', 2, _f)
    EXPORTS[_m + ':moment_yy'] = (_m + '.cov.moment_yy', 2, _f)
EXPORTS['mdl_svvj:moment_y'] = ('mdl_svvj.cond2_mom.moment_y', 1, 0)
EXPORTS['mdl_svvj:cmoment_y'] = ('mdl_svvj.cond2_cmom.cmoment_y', 1, 0)
EXPORTS[':mcpp'] = ('cpp_mom.mcpp', 1, -1)
EXPORTS[':cmcpp'] = ('cpp_mom.cmcpp', 1, -1)
EXPORTS[':moment_v'] = ('ito_mom.moment_v', 1, -2)
EXPORTS[':moment_IEI_IEII'] = ('itos_mom.moment_IEI_IEII', 5, -3)

# orders that tell the arguments apart
UNEVEN = {1: ([0], [1], [2], [3], [4]), 2: ([2, 1], [1, 2], [1, 3], [3, 1], [0, 2], [2, 0]),
          5: ([2, 1, 0, 0, 0], [1, 0, 2, 0, 0], [0, 1, 0, 2, 0], [0, 0, 1, 0, 2], [0, 2, 0, 1, 0], [1, 1, 1, 1, 1])}
GEN = {1: gen.sv1(True), 2: gen.sv2(True), 0: gen.cond2('svvj'), -1: gen.sv1(True), -2: gen.ito1(), -3: gen.ito2()}


@st.composite
def case(draw):
    name = draw(st.sampled_from(sorted(EXPORTS)))
    _, k, f = EXPORTS[name]
    n = [draw(st.integers(0, {1: 5, 2: 4, 5: 2}[k])) for _ in range(k)]
    while sum(n) > 4:
        n[n.index(max(n))] -= 1
    return {'name': name, 'n': n, 'par': draw(GEN[f])}


_cache = {}


def cached(what, f, n):
    key = (f, tuple(n))
    if key not in _cache:
        _cache[key] = call(what, f, *n)
    return _cache[key]


def body(c):
    sub, attr = c['name'].split(':')
    target, k, f = EXPORTS[c['name']]
    pkg = importlib.import_module('ajdmom' + ('.' + sub if sub else ''))
    ensure(hasattr(pkg, attr), f'ajdmom{"." + sub if sub else ""} exports no {attr}')
    what = f'{pkg.__name__}.{attr}{tuple(c["n"])}'
    mod, fn = target.rsplit('.', 1)
    f_, g_ = getattr(pkg, attr), getattr(load(mod), fn)
    a = cached(what, f_, c['n'])
    b = a if f_ is g_ else cached(target, g_, c['n'])
    factors = 2 if f in (2, -3) else 1
    x, s, _ = decoded(what, a, c['par'], factors)
    y, t, _ = decoded(target, b, c['par'], factors)
    same(what, x, y, s + t)


def poly_body(c):
    """Poly as imported from the package is the class of the formulas"""
    ajdmom = importlib.import_module('ajdmom')
    target, k, f = EXPORTS[c['name']]
    mod, fn = target.rsplit('.', 1)
    p = cached(target, getattr(load(mod), fn), c['n'])
    ensure(isinstance(p, ajdmom.Poly), f'{target} returns a {type(p).__name__}, not an ajdmom.Poly')
    q = ajdmom.Poly()
    q.set_keyfor(p.keyfor)
    r = call(f'Poly() + {target}', lambda: q + p)
    ensure({k: v for k, v in r.items()} == {k: v for k, v in p.items() if v != 0} and tuple(r.keyfor) == tuple(p.keyfor),
           f'adding {target} to an empty ajdmom.Poly changes it')


def subs(tier):
    n = 200 if tier == 'quick' else 3000
    nt = lambda c: sum(c['n']) >= 2
    pinned = tuple({'name': e, 'n': o,
                    'par': dict(sv.GENERIC[1], v0=0.3, offset=0.5) if f in (1, -1, -2) else
                    dict(sv.GENERIC[2], v1=0.3, v2=0.1, offset=0.5) if f in (2, -3) else
                    {'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'h': 1.3, 'v0': 0.391, 'mu': 0.137, 'rho': -0.43,
                     'jumptime': [0.2, 0.7], 'jumpsize': [0.15, 0.4]}} for e, (_, k, f) in sorted(EXPORTS.items()) for o in UNEVEN[k])
    return [Sub('exports', case(), body, n, nt, pinned=pinned, meta={'cost': 3}),
            Sub('poly', case(), poly_body, n // 2, nt, pinned=pinned)]
