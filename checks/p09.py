from sv import moment_sub

PROPERTY = 'P09'
RULE = ('random order and random parameters of the 1fsvj model (short decimals over the documented domain, with '
        'boundary values mixed in) plus one fixed point per order; non-trivial: order >= 2')
ASSUMPTIONS = ['the oracle is the extended generator of the model SDE in 60+ digit arithmetic; formula and '
               'oracle are compared at random parameter points, not symbolically']


def subs(tier):
    quick = tier == 'quick'
    low, high = (range(7), [7, 8]) if quick else (range(8), [8, 9])
    n, nh = (300, 30) if quick else (1500, 150)
    return [moment_sub('1fsvj', k, o, x, name) for k in ('mom', 'cmom')
            for o, x, name in ((list(low), n, ''), (high[:1], nh, '-high'), (high[1:], nh, '-higher'))]
