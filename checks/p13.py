from sv import cov_sub

PROPERTY = 'P13'
RULE = ('random orders (l1, l2) and random parameters of the 2FSV and 2FSVJ models plus one fixed point per pair; '
        'non-trivial: both orders >= 1')
ASSUMPTIONS = ['the oracle is the extended generator of the model SDE in 60+ digit arithmetic, run over two '
               'adjacent intervals from the stationary variance']


def subs(tier):
    quick = tier == 'quick'
    top = 5 if quick else 6
    pairs = [(a, b) for a in range(top) for b in range(top) if a + b < top]
    n = 120 if quick else 400
    high = [(a, top - a) for a in range(1, top)]
    return [cov_sub(m, f, pairs, n) for m in ('2fsv', '2fsvj') for f in ('moment_yy', 'cov_yy')] + \
           ([cov_sub(m, f, [o], 6, 1, f'-high-{o[0]}', False) for m in ('2fsv', '2fsvj') for f in ('moment_yy', 'cov_yy')
             for o in high]
            if quick else [])
