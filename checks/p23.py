from cond2 import ASSUMPTIONS, RULE, cond2_sub, high_sub, many_sub

PROPERTY = 'P23'


def subs(tier):
    n, h = (240, 60) if tier == 'quick' else (2000, 400)
    top, high = (5, [6]) if tier == 'quick' else (6, [7])
    return [cond2_sub('svcj', c, top, n, 6) for c in (False, True)] + \
           [high_sub('svcj', c, high, h, 4) for c in (False, True)] + \
           [high_sub('svcj', True, [high[0] + 1], h, 3, 'er')] + \
           [many_sub('svcj', c, h // 2) for c in (False, True)]
