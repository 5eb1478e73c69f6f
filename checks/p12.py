from sv import cov_sub

PROPERTY = 'P12'
RULE = ('random orders (l1, l2) and random parameters of the 1FSV and 1FSVJ models plus one fixed point per pair; '
        'non-trivial: both orders >= 1')
ASSUMPTIONS = ['the oracle is the extended generator of the model SDE in 60+ digit arithmetic, run over two '
               'adjacent intervals from the stationary variance']


def subs(tier):
    quick = tier == 'quick'
    top = 6 if quick else 7
    pairs = [(a, b) for a in range(top) for b in range(top) if a + b < top]
    n = 200 if quick else 400
    high = [(a, top - a) for a in range(1, top)]
    return [cov_sub(m, f, pairs, n) for m in ('1fsv', '1fsvj') for f in ('moment_yy', 'cov_yy')] + \
           [cov_sub(m, f, high, 24 if quick else 100, 2, '-high', False)
            for m in ('1fsv', '1fsvj') for f in ('moment_yy', 'cov_yy')]
