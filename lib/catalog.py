"""The formula-deriving functions of the package: (module, function, number of orders, largest total order).

`small` is the largest total order that derives within well under a second."""
from harness import call, load

JUMPS = ((0.15, 0.4), ())

FORMULAS = {
    'ito_mom.moment_IEII': (3, 5), 'ito_mom.moment_v': (1, 8),
    'itos_mom.moment_IEI_IEII': (5, 4), 'ito_cond_mom.moment_IEII': (3, 4),
    'cpp_mom.mnorm': (1, 8), 'cpp_mom.mcpp': (1, 6), 'cpp_mom.mcpp_original': (1, 6), 'cpp_mom.cmcpp': (1, 6),
    'utils.cmnorm': (1, 8), 'mdl_svcj.cond2_mom.mnorm_cond': (1, 6),
    'mdl_1fsv.mom.moment_y': (1, 5), 'mdl_1fsv.cmom.cmoment_y': (1, 5),
    'mdl_1fsv.cov.moment_yy': (2, 3), 'mdl_1fsv.cov.cov_yy': (2, 3),
    'mdl_1fsvj.mom.moment_y': (1, 5), 'mdl_1fsvj.cmom.cmoment_y': (1, 5),
    'mdl_1fsvj.cov.moment_yy': (2, 3), 'mdl_1fsvj.cov.cov_yy': (2, 3),
    'mdl_2fsv.mom.moment_y': (1, 4), 'mdl_2fsv.cmom.cmoment_y': (1, 4),
    'mdl_2fsv.cov.moment_yy': (2, 3), 'mdl_2fsv.cov.cov_yy': (2, 3),
    'mdl_2fsvj.mom.moment_y': (1, 4), 'mdl_2fsvj.cmom.cmoment_y': (1, 4),
    'mdl_2fsvj.cov.moment_yy': (2, 3), 'mdl_2fsvj.cov.cov_yy': (2, 3),
    'mdl_srjd.cond_mom.moment_v': (1, 5), 'mdl_srjd.cond_mom.moment_x': (1, 5),
    'mdl_srjd.cond_cmom.cmoment_v': (1, 5), 'mdl_srjd.cond_cmom.cmoment_x': (1, 5),
    'mdl_srjd.mom.moment_v': (1, 6), 'mdl_srjd.cmom.cmoment_v': (1, 6), 'mdl_srjd.cmom.cond_cmoment_v': (1, 5),
    'mdl_srjd.cond2_mom.moment_v': (1, 4), 'mdl_srjd.cond2_cmom.cmoment_v': (1, 4),
    'mdl_srjd.iez_mom.moment_IEZ': (1, 6), 'mdl_srjd.iez_cmom.cmoment_IEZ': (1, 6),
    'mdl_srjd.cond_ie_iez_mom.moment_ie': (1, 6), 'mdl_srjd.cond_ie_iez_mom.moment_ie_iez': (2, 5),
    'mdl_srjd.cond_ie_iez_cmom.moment_ie': (1, 6), 'mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez': (2, 5),
    'mdl_svvj.cond2_mom.moment_y': (1, 4), 'mdl_svvj.cond2_cmom.cmoment_y': (1, 4),
    'mdl_svij.cond2_mom.moment_y': (1, 4), 'mdl_svij.cond2_cmom.cmoment_y': (1, 4),
    'mdl_svcj.cond2_mom.moment_y': (1, 4), 'mdl_svcj.cond2_cmom.cmoment_y': (1, 4),
    'mdl_svcj.cond_mom.moment_y': (1, 3), 'mdl_svcj.cond_cmom.cmoment_y': (1, 3),
    'mdl_svcj.mom.moment_y': (1, 3), 'mdl_svcj.cmom.cmoment_y': (1, 3), 'mdl_svcj.mom.moment_v_theta': (1, 5),
    'mdl_svcj.ieziziz_mom.moment_ieziziz': (3, 4), 'mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz': (6, 3),
}
LISTS = {
    'mdl_1fsv.cond_cmom.cmoments_y_to': 5,
    'mdl_svvj.cond2_mom.moments_y_to': 4, 'mdl_svvj.cond2_cmom.cmoments_y_to': 4,
    'mdl_svij.cond2_mom.moments_y_to': 4, 'mdl_svij.cond2_cmom.cmoments_y_to': 4,
    'mdl_svcj.cond2_mom.moments_y_to': 4, 'mdl_svcj.cond2_cmom.cmoments_y_to': 4,
}
NEEDS_JUMPS = ('mdl_svcj.cond2_mom.moment_y', 'mdl_svcj.cond2_cmom.cmoment_y', 'mdl_svcj.cond2_mom.moments_y_to',
               'mdl_svcj.cond2_cmom.cmoments_y_to')


def derive_fresh(name, orders, jumps=JUMPS[0]):
    """derive without the cache of formula.py"""
    mod, fn = name.rsplit('.', 1)
    args = tuple(orders) + ((tuple(jumps),) if name in NEEDS_JUMPS else ())
    return call(f'{name}{args}', getattr(load(mod), fn), *args)


# orders above those drawn, that can still be derived in a moment
HIGH = {'cpp_mom.mcpp': [14], 'cpp_mom.cmcpp': [12], 'cpp_mom.mnorm': [30], 'utils.cmnorm': [30], 'ito_mom.moment_IEII': [3, 3, 2],
        'ito_mom.moment_v': [16], 'itos_mom.moment_IEI_IEII': [1, 1, 1, 1, 1], 'ito_cond_mom.moment_IEII': [2, 2, 2],
        'mdl_srjd.cond_mom.moment_v': [7], 'mdl_srjd.cond_mom.moment_x': [6], 'mdl_srjd.cond_cmom.cmoment_v': [7],
        'mdl_srjd.cond_cmom.cmoment_x': [6], 'mdl_srjd.mom.moment_v': [7], 'mdl_srjd.cmom.cmoment_v': [7],
        'mdl_srjd.cond2_mom.moment_v': [10], 'mdl_srjd.cond2_cmom.cmoment_v': [11], 'mdl_srjd.iez_mom.moment_IEZ': [16],
        'mdl_srjd.iez_cmom.cmoment_IEZ': [14], 'mdl_srjd.cond_ie_iez_mom.moment_ie': [9], 'mdl_srjd.cond_ie_iez_mom.moment_ie_iez': [4, 3],
        'mdl_srjd.cond_ie_iez_cmom.moment_ie': [9], 'mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez': [4, 3],
        'mdl_svvj.cond2_mom.moment_y': [6], 'mdl_svvj.cond2_cmom.cmoment_y': [6], 'mdl_svij.cond2_mom.moment_y': [6],
        'mdl_svij.cond2_cmom.cmoment_y': [6], 'mdl_svcj.cond2_mom.moment_y': [5], 'mdl_svcj.cond2_cmom.cmoment_y': [5],
        'mdl_1fsv.mom.moment_y': [6], 'mdl_1fsv.cmom.cmoment_y': [6], 'mdl_1fsvj.mom.moment_y': [6], 'mdl_1fsvj.cmom.cmoment_y': [6],
        'mdl_1fsv.cov.cov_yy': [2, 2], 'mdl_1fsvj.cov.cov_yy': [2, 2], 'mdl_svcj.mom.moment_v_theta': [7],
        'mdl_svcj.cond_mom.moment_y': [4], 'mdl_svcj.cond_cmom.cmoment_y': [4], 'mdl_1fsv.cond_cmom.cmoments_y_to': [7]}


def high_orders(k, top):
    """one order high and the others zero, or one of them one"""
    out = []
    for i in range(k):
        o = [0] * k
        o[i] = top
        out.append(list(o))
        o[i] -= 1
        o[(i + 1) % k] += 1
        out.append(o)
    return out


HIGHER = {'ito_cond_mom.moment_IEII': [[0, 0, 8], [8, 0, 0], [0, 8, 0], [3, 2, 3], [1, 1, 6]],
          'ito_mom.moment_IEII': [[0, 0, 10], [10, 0, 0], [0, 10, 0], [2, 3, 4], [1, 2, 6]],
          'itos_mom.moment_IEI_IEII': [[0, 0, 0, 0, 6], [6, 0, 0, 0, 0], [0, 2, 0, 2, 2], [3, 0, 3, 0, 0], [0, 3, 0, 3, 0], [0, 0, 0, 6, 0]],
          'mdl_svcj.ieziziz_mom.moment_ieziziz': [[0, 8, 0], [8, 0, 0], [0, 0, 8], [3, 2, 2]],
          'mdl_srjd.cond_ie_iez_mom.moment_ie_iez': [[8, 1], [2, 6]], 'cpp_mom.mcpp': [[18]], 'mdl_1fsv.cov.cov_yy': [[3, 1], [1, 3], [0, 4]],
          'mdl_1fsvj.cov.moment_yy': [[3, 1], [1, 3], [2, 2]], 'mdl_2fsv.mom.moment_y': [[5]], 'mdl_2fsvj.cmom.cmoment_y': [[5]],
          'mdl_2fsv.cov.moment_yy': [[2, 2]], 'mdl_2fsvj.cov.cov_yy': [[2, 2]]}


def beyond(name):
    """orders of a function above those drawn"""
    out = [HIGH[name]] if name in HIGH else []
    if name in FORMULAS and FORMULAS[name][0] > 1:
        out += high_orders(FORMULAS[name][0], FORMULAS[name][1] + 1)
    return out + HIGHER.get(name, [])
