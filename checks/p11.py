from sv import moment_sub

PROPERTY = 'P11'
RULE = ('random order and random parameters of the 2fsvj model (short decimals over the documented domain, with '
        'boundary values mixed in) plus one fixed point per order; non-trivial: order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of the model SDE in 60+ digit arithmetic; formula and '
               'oracle are compared at random parameter points, not symbolically']


def subs(tier):
    quick = tier == 'quick'
    n, nh = (240, 80) if quick else (1200, 300)
    parts = [(list(range(5)), n, ''), ([5], nh, '-high')] + ([] if quick else [([6], 60, '-higher')])
    return [moment_sub('2fsvj', k, o, x, name) for k in ('mom', 'cmom') for o, x, name in parts]
