from deriv import formula_sub, synthetic_sub, unknown_sub

PROPERTY = 'P16'
RULE = ('random order, parameter of differentiation and parameter point of the 2FSV and 2FSVJ models, every '
        '(order, parameter) pair at one fixed point, random polynomials of the same layout, and unknown parameter '
        'names; non-trivial: total order >= 2 or at least two terms')
ASSUMPTIONS = ['derivatives are compared with central differences in 60-digit arithmetic (step 1e-18)']
MODELS = ('2fsv', '2fsvj')


def subs(tier):
    q = tier == 'quick'
    top = 4 if q else 5
    n = 120 if q else 400
    pairs = [[a, b] for a in range(4) for b in range(4) if 1 <= a + b <= (3 if q else 4)]
    out = []
    for m in MODELS:
        out += [formula_sub(m, 'mom', list(range(top + 1)), n, tier),
                formula_sub(m, 'cmom', list(range(top + 1)), n, tier),
                formula_sub(m, 'cov', pairs, n, tier),
                synthetic_sub(m, 'mom', n), synthetic_sub(m, 'cmom', n)]
    return out + [unknown_sub(MODELS)]
