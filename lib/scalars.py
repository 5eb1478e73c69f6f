"""The scalar functions of the package: name -> (argument tuples before par, parameters)."""
V1 = {'mu': 0.137, 'k': 0.613, 'theta': 0.271, 'sigma_v': 0.359, 'rho': -0.43, 'h': 0.877, 'v0': 0.391,
      'lambda': 0.571, 'mu_j': -0.119, 'sigma_j': 0.233}
V2 = {'mu': -0.137, 'k1': 0.613, 'theta1': 0.271, 'sigma_v1': 0.359, 'k2': 0.377, 'theta2': 0.131, 'sigma_v2': 0.217,
      'h': 0.877, 'lambda': 0.571, 'mu_j': 0.119, 'sigma_j': 0.233}
RJ = {'v0': 0.391, 'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'lmbd': 0.571, 'mu_v': 0.233, 'h': 0.877,
      'mu': 0.137, 'rho': -0.43, 'rhoJ': 0.37, 'mu_s': -0.119, 'sigma_s': 0.233, 'lb': 0.31, 'ub': 1.17}
C2 = {'k': 0.613, 'theta': 0.271, 'sigma': 0.359, 'h': 1.3, 'v0': 0.391, 'mu': 0.137, 'rho': -0.43, 'lmbd_s': 0.571,
      'mu_s': -0.119, 'sigma_s': 0.233, 'rho_J': 0.37, 'jumptime': (0.2, 0.7), 'jumpsize': (0.15, 0.4)}

ONE = [(0,), (1,), (2,), (3,)]
TWO = [(1, 0), (0, 1), (1, 1), (2, 1)]

SCALARS = {}
for m, p in (('1fsv', V1), ('1fsvj', V1), ('2fsv', V2), ('2fsvj', V2)):
    SCALARS[f'mdl_{m}.mom.m'] = (ONE, p)
    SCALARS[f'mdl_{m}.cmom.cm'] = (ONE, p)
    SCALARS[f'mdl_{m}.cov.cov'] = (TWO, p)
SCALARS['mdl_1fsv.cond_cmom.cond_cm'] = (ONE, V1)
for f in ('cond_mom.m', 'cond_mom.m_x', 'cond_cmom.cm', 'cond_cmom.cm_x', 'iez_mom.m', 'iez_cmom.cm',
          'cond_ie_iez_mom.m_ie', 'cond_ie_iez_cmom.m_ie'):
    SCALARS['mdl_srjd.' + f] = (ONE, RJ)
for f in ('cond_ie_iez_mom.m_ie_iez', 'cond_ie_iez_cmom.cm_ie_iez'):
    SCALARS['mdl_srjd.' + f] = (TWO, RJ)
for m in ('srjd', 'svvj', 'svij', 'svcj'):
    SCALARS[f'mdl_{m}.cond2_mom.m'] = (ONE, C2)
    SCALARS[f'mdl_{m}.cond2_cmom.cm'] = (ONE, C2)
for f in ('cond_mom.m_y', 'cond_cmom.cm_y', 'mom.unm_y', 'cmom.cm_y'):
    SCALARS['mdl_svcj.' + f] = ([(0,), (1,), (2,)], RJ)
SCALARS['mdl_svcj.ieziziz_mom.m_ieziziz'] = ([((1, 0, 0),), ((1, 1, 1),), ((0, 2, 1),)], RJ)
SCALARS['mdl_svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz'] = ([((1, 1, 0, 0, 0, 0),), ((1, 0, 0, 1, 1, 0),)], RJ)
