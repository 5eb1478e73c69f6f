#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/ajdmom/'
I, H, C, P = 'inputs', 'histories', 'configurations', 'programs'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], observe, technique, note
T = []


def prop(*a):
    T.append(a)


prop('P01', 'Poly arithmetic is exact polynomial arithmetic',
     'Adding, subtracting, multiplying, scaling, raising to a positive power, merging and copying polynomials gives exactly '
     'the polynomial that arithmetic over the rationals gives: no term is lost, duplicated or left with coefficient zero '
     'by the arithmetic. The columns are kept, the operands are left unchanged (except the receiver of an in-place merge), '
     'and results do not share storage with the operands. Operands whose columns differ, and powers below one, are '
     'refused with NotImplementedError and leave everything as it was.',
     [I, H], 'all sequences of operations over polynomials with integer or fraction coefficients and integer or tuple-of-'
     'integer key components',
     'The tests add and multiply a few fixed polynomials once each; aliasing, cancellation and long mixed histories are '
     'never reached.',
     ['poly.py'], [('operators', 'poly.py Poly.__add__, __sub__, __mul__, __rmul__, __pow__, merge'),
                   ('zero removal', 'poly.py Poly.remove_zero'), ('type guard', 'poly.py Poly.is_exact_type')],
     ['items and columns of every polynomial involved, after every operation'],
     'stateful property-based testing (Hypothesis) against a dict-of-Fraction model; ring laws')
prop('P02', 'Re-expressing a polynomial keeps its value',
     'Multiplying polynomials of different columns into chosen result columns, expanding the sqrt(1-rho^2) column, the three '
     'simplified forms of the conditional Heston formulas, the simplification of the SVVJ/SVIJ formulas and the split of a '
     'formula by number of jump columns, and the expansions of E[v], of sqrt(1-rho^2), of t-s and to more columns of the SRJD and '
     'SVCJ formulas all denote the same function of the parameters as their input. An odd power of '
     'sqrt(1-rho^2) and an unknown simplification type are refused with an exception, and inputs are not changed.',
     [I], 'all polynomials of the documented layouts (synthetic ones included) and all parameter values',
     'Tests compare a handful of derived formulas by eye or by length; terms that cancel, collide or have unusual powers '
     'never occur there.',
     ['poly.py', 'utils.py', 'mdl_1fsv/cond_cmom.py', 'mdl_svvj/cond2_cmom.py', 'mdl_svvj/cond2_mom.py', 'mdl_srjd/mom.py'],
     [('mul_poly', 'poly.py'), ('simplify_rho', 'utils.py'), ('simplify', 'mdl_1fsv/cond_cmom.py'),
      ('simplify, classify', 'mdl_svvj/cond2_cmom.py')],
     ['60-digit value of the polynomial before and after'],
     'metamorphic property-based testing: value before = value after at random points')
prop('P03', 'Files written for a polynomial contain exactly that polynomial',
     'A text or CSV file written for a polynomial holds its column names and, line by line, every key with its coefficient '
     'as numerator and denominator, so that reading it back gives the same polynomial; jump columns are spread over '
     'numbered columns, one title name per column, and fields with commas are quoted. The file name gets its suffix once, '
     'an existing file is replaced, and a polynomial that mixes different numbers of jump columns is refused.',
     [I, P], 'all polynomials of every column layout, and the formulas of every model',
     'Tests write nothing and read nothing back.',
     ['poly.py'], [('write_to_txt', 'poly.py'), ('write_to_csv', 'poly.py')],
     ['bytes of the file, parsed by an independent reader'],
     'round-trip property-based testing')
prop('P04', 'Normal and compound-Poisson moments are exact',
     'The formulas for raw and central moments of a normal variable, of a normal variable whose mean depends on a jump, and of '
     'a compound Poisson sum of normal jumps equal, for every order, the moments of those distributions as polynomials in '
     'the parameters.',
     [I], 'all orders >= 0 and all parameter values', 'Tests fix orders up to about 5 at no or one parameter point.',
     ['cpp_mom.py', 'utils.py', 'mdl_svcj/cond2_mom.py'],
     [('mnorm, mcpp, cmcpp, mcpp_original', 'cpp_mom.py'), ('cmnorm', 'utils.py'), ('mnorm_cond', 'mdl_svcj/cond2_mom.py')],
     ['60-digit value of the formula'], 'property-based differential testing against Stein / cumulant recursions')
prop('P05', 'One-factor Ito-process moments are exact',
     'For the square-root variance of one factor, the derived formula for E[IE^a I^b I*^c | v0] over any interval (also one '
     'that does not start at time zero), and that for E[v^n | v0], equal the true moments for every order and every '
     'parameter value.',
     [I], 'all orders, all parameters, interval positions and initial variances',
     'Tests check a few low orders against hand-copied formulas.',
     ['ito_mom.py'], [('recursive equation', 'ito_mom.py recursive_IEII'), ('integration of e^{mkt} t^j', 'ito_mom.py int_et'),
                      ('top level', 'ito_mom.py moment_IEII, moment_v')],
     ['60-digit value of the formula'], 'property-based differential testing against an extended-generator oracle')
prop('P06', 'Two-factor Ito-process moments are exact',
     'The derived formula for E[IE1^a I1^b IE2^c I2^d I*^e | v1, v2] of two independent square-root factors over any interval '
     'equals the true moment for every order and every parameter value with no small integer relation between k1 and k2; '
     'asking for all intermediate moments returns formulas that are right as well.',
     [I], 'all order tuples, all parameters with n1 k1 + n2 k2 != 0, interval positions and initial variances',
     'Tests check tuples of sum at most about 3.',
     ['itos_mom.py'], [('recursive equation', 'itos_mom.py recursive_IEI_IEII'), ('integration', 'itos_mom.py int_et'),
                       ('top level', 'itos_mom.py moment_IEI_IEII')],
     ['60-digit value of the formula'], 'property-based differential testing against an extended-generator oracle')
prop('P07', 'Ito-process moments given variance jumps are exact',
     'Given any path of jumps of the variance (none, several, simultaneous, at the ends of the interval), the formula for '
     'E[IE^a I^b I*^c | v0, jumps] evaluates to the true conditional moment for every order.',
     [I], 'all orders, parameters and jump paths', 'Tests compare lengths or single low orders with one path.',
     ['ito_cond_mom.py', 'utils.py'], [('recursive equation', 'ito_cond_mom.py recursive_IEII'),
                                       ('integration over jumps', 'ito_cond_mom.py int_e_IEZ_poly, int_mIEZ'),
                                       ('sums over jumps', 'utils.py fZ')],
     ['60-digit value of the formula'], 'property-based differential testing against an extended-generator oracle')
for i, m, nm in (('P08', '1fsv', 'Heston (1FSV)'), ('P09', '1fsvj', 'Heston with price jumps (1FSVJ)'),
                 ('P10', '2fsv', 'two-factor (2FSV)'), ('P11', '2fsvj', 'two-factor with price jumps (2FSVJ)')):
    prop(i, f'{m.upper()} moments and central moments are exact',
         f'For the {nm} model in its stationary regime, the derived formulas for E[y^n] and E[(y - E y)^n] equal the true '
         'moments of the return over an interval for every order and every parameter value, and the functions that return '
         'a number give the value of the formula at the given parameters.',
         [I], 'all orders and all parameters of the documented domain (boundary values included)',
         'Tests look at orders up to about 4 by comparing with literals or simulation at one point.',
         [f'mdl_{m}/mom.py', f'mdl_{m}/cmom.py'] + (['ito_mom.py'] if m[0] == '1' else ['itos_mom.py']) +
         (['cpp_mom.py'] if 'j' in m else []),
         [('combination of the terms of y', f'mdl_{m}/mom.py'), ('centralized terms', f'mdl_{m}/cmom.py'),
          ('numeric evaluation', f'mdl_{m}/mom.py poly2num')],
         ['60-digit value of the formula', 'number returned by the scalar functions'],
         'property-based differential testing against an extended-generator oracle')
for i, a, b in (('P12', '1FSV and 1FSVJ', '1fsv'), ('P13', '2FSV and 2FSVJ', '2fsv')):
    prop(i, f'{a} comoments and covariances are exact',
         f'For the {a} models in their stationary regime, the derived formulas for E[y_n^l1 y_(n+1)^l2] and cov(y_n^l1, '
         'y_(n+1)^l2) of two successive returns equal the true values for every pair of orders and every parameter value, '
         'and the functions that return a number give the value of the formula.',
         [I], 'all pairs of orders and all parameters of the documented domain',
         'Tests look at pairs up to (2,2) or so at one point.',
         [f'mdl_{b}/cov.py', f'mdl_{b}j/cov.py'],
         [('moment_yy, cov_yy', f'mdl_{b}/cov.py'), ('with jumps', f'mdl_{b}j/cov.py')],
         ['60-digit value of the formula', 'number returned by cov'],
         'property-based differential testing against an extended-generator oracle over two intervals')
prop('P14', 'Heston central moments given the initial variance are exact',
     'For the Heston model, the derived formulas for E[(y - E[y|v0])^n | v0], for each order of the returned list and in each '
     'of the simplified forms, equal the true conditional central moments for every initial variance and parameter value; '
     'the number returned is the value of the formula.',
     [I], 'all orders, initial variances and parameters', 'Tests only look at the first few orders at one point.',
     ['mdl_1fsv/cond_cmom.py'], [('cmoments_y_to', 'mdl_1fsv/cond_cmom.py'), ('simplify', 'mdl_1fsv/cond_cmom.py')],
     ['60-digit value of the formula', 'number returned'],
     'property-based differential testing against a generator oracle')
for i, a, b in (('P15', '1FSV and 1FSVJ', '1fsv'), ('P16', '2FSV and 2FSVJ', '2fsv')):
    prop(i, f'{a} parameter derivatives are the true partial derivatives',
         f'For the {a} models, the derivative of a moment, central moment or covariance with respect to any of the parameters '
         'offered is the partial derivative of that quantity, as a number and as polynomial, for every order, parameter '
         'point, and polynomial of the same columns. A parameter name that the model does not offer is refused with '
         'ValueError, and the polynomial given is not changed.',
         [I], 'all orders, all parameters to differentiate by, all parameter points, all polynomials of the layout',
         'Tests compare a few derivatives of low order at one point.',
         [f'mdl_{b}/mom.py', f'mdl_{b}/cmom.py', f'mdl_{b}/cov.py', f'mdl_{b}j/mom.py', f'mdl_{b}j/cmom.py', f'mdl_{b}j/cov.py'],
         [('dpoly', f'mdl_{b}/mom.py, cmom.py'), ('dm, dcm, dcov', f'mdl_{b}/mom.py, cmom.py, cov.py')],
         ['60-digit value of the derivative formula', 'number returned'],
         'property-based differential testing against 60-digit central differences of the formula')
prop('P17', 'SRJD moments given the initial variance are exact',
     'For the square-root jump-diffusion, the derived formulas for raw and central moments of the variance at the end of the '
     'interval given the initial variance, and of its noise part, equal the true moments for every order and parameter '
     'value, and the numbers returned are their values.',
     [I], 'all orders, initial variances and parameters', 'Tests cover orders up to about 3 at one point.',
     ['mdl_srjd/cond_mom.py', 'mdl_srjd/cond_cmom.py'], [('moment_v, moment_x', 'mdl_srjd/cond_mom.py'),
                                                         ('cmoment_v, cmoment_x', 'mdl_srjd/cond_cmom.py')],
     ['60-digit value of the formula', 'number returned'], 'property-based differential testing against a generator oracle')
prop('P18', 'SRJD stationary moments of the variance are exact',
     'For the square-root jump-diffusion, the derived formulas for stationary raw and central moments of the variance, and '
     'for moments of the variance about its stationary mean given the initial variance, equal the true moments for every '
     'order and parameter value, simplified or not.',
     [I], 'all orders and parameters', 'Tests cover orders up to about 3.',
     ['mdl_srjd/mom.py', 'mdl_srjd/cmom.py'], [('moment_v', 'mdl_srjd/mom.py'), ('cmoment_v, cond_cmoment_v', 'mdl_srjd/cmom.py')],
     ['60-digit value of the formula'], 'property-based differential testing against the stationary moment recursion')
prop('P19', 'SRJD moments given the variance jumps are exact',
     'Given the initial variance and any jump path, the derived formulas for raw and central moments of the square-root '
     'jump-diffusion, and the numbers returned, equal the true conditional moments for every order.',
     [I], 'all orders, parameters and jump paths', 'Tests use one path and low orders.',
     ['mdl_srjd/cond2_mom.py', 'mdl_srjd/cond2_cmom.py'], [('moment_v', 'mdl_srjd/cond2_mom.py'), ('cmoment_v', 'mdl_srjd/cond2_cmom.py')],
     ['60-digit value of the formula', 'number returned'], 'property-based differential testing against a generator oracle')
prop('P20', 'Moments of IEZ, and joint ones of IE and IEZ, are exact',
     'For the square-root jump-diffusion, the derived formulas for raw and central moments of the discounted jump sum IEZ '
     'over any interval, and for joint moments of IE and (centralized) IEZ given the initial variance, equal the true '
     'moments for every order and parameter value, and the numbers returned are their values.',
     [I], 'all orders (and pairs), intervals and parameters', 'Tests cover very low orders.',
     ['mdl_srjd/iez_mom.py', 'mdl_srjd/iez_cmom.py', 'mdl_srjd/cond_ie_iez_mom.py', 'mdl_srjd/cond_ie_iez_cmom.py'],
     [('moment_IEZ', 'mdl_srjd/iez_mom.py'), ('cmoment_IEZ', 'mdl_srjd/iez_cmom.py'),
      ('moment_ie, moment_ie_iez', 'mdl_srjd/cond_ie_iez_mom.py'), ('cmoment_ie_iez', 'mdl_srjd/cond_ie_iez_cmom.py')],
     ['60-digit value of the formula', 'number returned'], 'property-based differential testing against a generator oracle')
for i, m, nm in (('P21', 'svvj', 'SVVJ'), ('P22', 'svij', 'SVIJ'), ('P23', 'svcj', 'SVCJ')):
    prop(i, f'{nm} return moments given the variance jumps are exact',
         f'For the {nm} model, given the initial variance and any path of variance jumps (none, several, simultaneous, at the '
         'ends of the interval), the derived formulas for raw and central return moments of every order - each of the '
         'returned list - equal the true conditional moments, and the numbers returned are their values.',
         [I], 'all orders, parameters and jump paths',
         'Tests compare one jump path against simulation or literals, at orders up to about 4.',
         [f'mdl_{m}/cond2_mom.py', f'mdl_{m}/cond2_cmom.py', 'ito_cond_mom.py'],
         [('moment_y, moments_y_to', f'mdl_{m}/cond2_mom.py'), ('cmoment_y, cmoments_y_to', f'mdl_{m}/cond2_cmom.py')],
         ['60-digit value of the formula', 'number returned'],
         'property-based differential testing against a generator oracle along the jump path')
prop('P24', 'SVCJ return moments given the initial variance are exact',
     'For the SVCJ model, the derived formulas for raw and central return moments given the initial variance equal the true '
     'moments for every order and parameter value (correlated simultaneous jumps included), and the numbers returned are '
     'their values.',
     [I], 'all orders, initial variances and parameters', 'Tests cover orders up to 2 or 3.',
     ['mdl_svcj/cond_mom.py', 'mdl_svcj/cond_cmom.py'], [('moment_y', 'mdl_svcj/cond_mom.py'), ('cmoment_y', 'mdl_svcj/cond_cmom.py')],
     ['60-digit value of the formula', 'number returned'], 'property-based differential testing against an extended-generator oracle')
prop('P25', 'Joint moments of SVCJ jump integrals are exact',
     'For the SVCJ model, the derived formulas for joint moments of IEZ, IZ and IZ* over any interval, and for joint moments '
     'of IE, I, I*, IEZ, IZ and IZ* given the initial variance, equal the true moments for every order tuple and parameter '
     'value, and the numbers returned are their values.',
     [I], 'all order tuples, intervals and parameters', 'Tests cover single low tuples.',
     ['mdl_svcj/ieziziz_mom.py', 'mdl_svcj/cond_ieii_ieziziz_mom.py'],
     [('moment_ieziziz', 'mdl_svcj/ieziziz_mom.py'), ('moment_ieii_ieziziz', 'mdl_svcj/cond_ieii_ieziziz_mom.py')],
     ['60-digit value of the formula', 'number returned'], 'property-based differential testing against an extended-generator oracle')
prop('P26', 'SVCJ stationary return moments are exact',
     'For the SVCJ model in its stationary regime, the derived formulas for raw and central return moments equal the true '
     'moments for every order and parameter value, the numbers returned are their values, and the central moments stay '
     'right after the column of mu is dropped.',
     [I], 'all orders and parameters', 'Tests cover orders up to 2 or 3.',
     ['mdl_svcj/mom.py', 'mdl_svcj/cmom.py'], [('moment_y', 'mdl_svcj/mom.py'), ('cmoment_y, remove_mu_column', 'mdl_svcj/cmom.py')],
     ['60-digit value of the formula', 'number returned'], 'property-based differential testing against an extended-generator oracle')
prop('P27', 'Derived formulas are well-formed polynomials of their documented layout',
     'Every deriving function returns, for every order including zero, a polynomial whose columns are the documented ones, '
     'whose keys have one component of the right kind per column, whose coefficients are exact (integers or fractions) and '
     'not zero. Formulas of one function but different orders can be added to each other.',
     [I], 'all deriving functions and all orders', 'Tests check the layout of a few results, mostly of middle orders.',
     ['ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'cpp_mom.py', 'mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/',
      'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/'],
     [('set_keyfor, remove_zero', 'poly.py and every deriving function')],
     ['columns, keys and coefficients of the returned polynomial'],
     'property-based invariant testing over all deriving functions')
prop('P28', 'Results do not depend on earlier calls or on what is done to earlier results',
     'Calling the deriving and numeric functions and the simulators in any order, any number of times, gives each time what '
     'the first call in a fresh process gives, whatever the caller did to the polynomials and lists returned before, and '
     'whether the parameters come in a new dictionary or in one changed since the last call. Parameters passed in are not '
     'changed.',
     [H], 'all histories of calls over all functions of the package, with changes of returned objects in between',
     'Each test calls a function once; shared tables or leaked accumulators cannot show.',
     ['ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'cpp_mom.py', 'utils.py', 'mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/',
      'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/'],
     [('local tables of intermediate moments', 'moment_IEII, moment_IEI_IEII, moment_ieii_ieziziz')],
     ['returned formulas and numbers, parameter dictionaries'],
     'stateful property-based testing: random call histories with mutation of the results')
prop('P29', 'Negative orders are refused',
     'The moment functions of normal and compound Poisson variables, of the Ito processes (one factor, two factors, given '
     'jumps), of the stationary SRJD variance, of IE and IEZ, and of the SVCJ model refuse, with ValueError, every call in '
     'which any of the orders is negative, whatever the other orders and whatever was called before; so do the integrals '
     'they are built from, when the power of time is negative.',
     [I, H], 'all order tuples with at least one negative entry', 'Tests make at most one such call, or none.',
     ['cpp_mom.py', 'ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'mdl_srjd/', 'mdl_svcj/'],
     [('guards at the top of the moment functions', 'the files listed')],
     ['the exception raised'], 'property-based testing of rejection')
prop('P30', 'Combinatorial helpers agree with enumeration',
     'Multinomial coefficients, the index tuples of multiple sums, the splits of an integer into parts, double factorials, '
     'and the multiple sums over jumps used in the conditional formulas equal what exhaustive enumeration gives: every '
     'item once, none missing, for every valid argument.',
     [I], 'all valid arguments', 'Tests use one or two small arguments.',
     ['utils.py', 'cpp_mom.py'], [('comb, multilevel_index, multilevel_comb, fZ', 'utils.py')],
     ['returned values and lists'], 'property-based differential testing against enumeration')
prop('P31', 'Models agree where they coincide',
     'A model whose extra feature is switched off gives the moments of the simpler model: price jumps of rate or size zero, a '
     'variance factor that is zero, an empty jump path, jumps of size zero; exchanging the two factors changes nothing. '
     'A stationary moment is the average of the moment given the initial variance over the stationary variance.',
     [I], 'all orders and all parameters at the degenerate value of the extra ones',
     'Tests look at each model alone.',
     ['mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/', 'ito_mom.py', 'itos_mom.py',
      'ito_cond_mom.py'],
     [('separate derivations of the models', 'mdl_*/')], ['60-digit values of both formulas'],
     'metamorphic property-based testing across models')
prop('P32', 'Moments obey the laws of a distribution and of the process',
     'Central moments follow from the raw ones binomially; a shift of mu shifts the return and leaves central moments alone; '
     'a change of the time unit changes nothing; two successive intervals joined give the moment over the double interval, '
     'and moments of the variance compose over time. The moments of each order sequence can belong to a distribution '
     '(Hankel determinants and covariance bounds).',
     [I], 'all models, orders and parameters', 'Tests look at single values, not at relations between them.',
     ['mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/'],
     [('raw and central derivations', 'mdl_*/*mom.py, *cmom.py'), ('covariances', 'mdl_*/cov.py')],
     ['60-digit values of the formulas'], 'metamorphic property-based testing')
prop('P33', 'Simulated returns of the SV models follow the Euler scheme',
     'The simulators of the 1FSV, 1FSVJ, 2FSV and 2FSVJ models return the requested number of finite returns whose joint law, '
     'all along the series, is that of the Euler scheme of the model (variance truncated at zero) with the given number of '
     'segments, interval length and initial variance; the i.i.d. simulator starts every sample anew. Successive calls are '
     'independent and the samples differ from call to call and from process to process unless the global generator is seeded; '
     'the same seed gives the same samples, and mu shifts them by mu h.',
     [I], 'all parameters, initial variances, interval lengths, numbers of segments and samples (statistically)',
     'No test runs a simulator.',
     ['mdl_1fsv/euler.py', 'mdl_1fsvj/euler.py', 'mdl_2fsv/euler.py', 'mdl_2fsvj/euler.py'],
     [('Euler loop', 'the files listed')], ['samples returned'],
     'property-based statistical testing against exact moments of the scheme')
prop('P34', 'Simulators given the variance jumps follow the model',
     'Given any jump path (also none, ties, and jumps at the ends), the exact SRJD simulator samples the true law of the '
     'variance, and the SVVJ, SVIJ and SVCJ simulators return the requested number of finite i.i.d. returns with the '
     'law of the Euler scheme on the grid cut at the jumps, independent between calls and, unless the global generator is '
     'seeded, different in every call and process. The jump sums they use count exactly the jumps up to the given time.',
     [I], 'all parameters, jump paths, interval lengths, numbers of segments and samples (statistically)',
     'Tests run them, if at all, without looking at the law.',
     ['mdl_srjd/euler.py', 'mdl_svvj/euler.py', 'mdl_svij/euler.py', 'mdl_svcj/euler.py'],
     [('rSRD, rSRJD', 'mdl_srjd/euler.py'), ('rIEII, rSVVJ, IZ, IEZ', 'mdl_svvj/euler.py'), ('rSVIJ', 'mdl_svij/euler.py'),
      ('rSVCJ', 'mdl_svcj/euler.py')], ['samples returned'],
     'property-based statistical testing against exact moments')
prop('P35', 'Exported names are the documented functions',
     'The functions that the package and its model subpackages export give, for every order, the same formulas as the '
     'functions of the modules that define them, and the exported polynomial class is the class of all formulas and '
     'combines with them.',
     [I, C], 'all exported names, orders and parameters', 'Tests import from the modules only.',
     ['__init__.py', 'mdl_1fsv/__init__.py', 'mdl_1fsvj/__init__.py', 'mdl_2fsv/__init__.py', 'mdl_2fsvj/__init__.py', 'mdl_svvj/__init__.py'],
     [('re-exports', 'the files listed')], ['returned formulas'], 'property-based differential testing')
prop('P36', 'The way arguments are passed does not matter',
     'Every numeric function (moments, central and conditional moments, comoments, covariances, parameter derivatives, '
     'simulators) gives the same value whether its arguments are passed by position or by their documented names, whole '
     'numbers as int or float, as Python or numpy floats, jumps as tuples, lists or arrays, parameters in any order of the '
     'dictionary or next to unrelated entries; and it leaves all its arguments, the parameters included, unchanged.',
     [I, C], 'all functions, orders, parameters and ways of passing them',
     'Tests pass each function one literal dictionary of floats by position and never look at it again.',
     ['mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/'],
     [('m, cm, cov, dm, dcm, dcov and their variants', 'mdl_*/*.py'), ('poly2num', 'mdl_*/*.py'), ('simulators', 'mdl_*/euler.py')],
     ['values returned, arguments after the call'], 'metamorphic property-based testing over call forms')
prop('P37', 'Documented integrals and jump-sum moments are exact',
     'The integrals of e^{nks} s^m (one factor), of e^{(n1 k1 + n2 k2) s} s^m (two factors), and of e^{nks} s^m from the '
     'latest of some jumps, that the formulas are assembled from, are exact for every exponent of either sign and every '
     'power; so are the raw and central moments of the sum of the price jumps given the sizes of the variance jumps, and the '
     'product of the reciprocal rates 1/(n1 k1 + n2 k2)^i that the two-factor formulas carry, for every such product.',
     [I], 'all exponents, powers, speeds, interval ends, jump vectors',
     'Tests look at a few small exponents; the moments that the tests derive meet powers of time up to about four.',
     ['ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'mdl_svcj/cond2_mom.py', 'mdl_svcj/cond2_cmom.py'],
     [('c_nmi, int_et', 'ito_mom.py'), ('int_et, t_mul_t0', 'itos_mom.py'), ('int_et_fZ', 'ito_cond_mom.py'),
      ('moment_IZs', 'mdl_svcj/cond2_mom.py'), ('cmoment_IZs', 'mdl_svcj/cond2_cmom.py')],
     ['60-digit value of the formula'], 'property-based differential testing against power series and exact rational moments')
prop('P38', 'Calls made in different threads do not disturb each other',
     'Deriving formulas and evaluating moments in several threads of one process at once, of the same or different models, '
     'at the same or different orders and parameters, gives in every thread what the same call gives when made alone; so do '
     'the combinatorial and jump helpers and the operations on a polynomial that several threads share.',
     ['schedules', H], 'all interleavings of calls of the deriving and numeric functions by several threads',
     'Tests call one function at a time in one thread; state shared between calls in flight cannot show.',
     ['poly.py', 'utils.py', 'cpp_mom.py', 'ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/',
      'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/'],
     [('tables and accumulators local to a call', 'every deriving function'), ('polynomials', 'poly.py Poly')],
     ['formulas and numbers returned in each thread'],
     'property-based concurrency testing: random call sequences in threads at drawn switch intervals')
prop('P39', 'Modules run as programs print what their functions return',
     'Run as a program with any orders (or numbers of jumps) as arguments, or with none, every module of the package ends '
     'without error and prints, for these orders, exactly the formulas its functions return, with the names of their columns; '
     'a numerical value printed with its parameters is the value there; the simulators print the number of samples and the '
     'jumps they announce. The example scripts of the paper print the formulas they name.',
     [I], 'all modules and all order arguments', 'No test runs a module as a program.',
     ['mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/', 'ito_mom.py',
      'ito_cond_mom.py', 'itos_mom.py', 'cpp_mom.py', 'utils.py', 'poly.py'],
     [('example usage at the end of a module', 'every module')], ['standard output of the program'],
     'property-based testing of the programs: random arguments, output parsed back and compared with the functions')

prop('P40', "poly2num gives a polynomial's value as its columns define it",
     "Every module's poly2num, given any polynomial of the module's layout (exponents that no derived formula contains "
     'included, negative ones where the base is never zero) and any parameters of the domain, boundary values included, '
     'returns the value that the documented names of the columns define, whatever further entries the parameter set has; it '
     'changes neither the polynomial nor the parameters.',
     [I], 'all polynomials of the layout of every module that has poly2num, all parameters',
     'Tests evaluate derived formulas of low order at one parameter point inside the domain.',
     ['mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/', 'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/', 'ito_cond_mom.py'],
     [('poly2num', 'every module that has it')], ['number returned', 'arguments after the call'],
     'property-based differential testing of evaluation over generated polynomials and parameters')

prop('P41', 'Calls have no effect on the program but their result',
     'Deriving a formula, computing with polynomials, and computing a moment, covariance or derivative, at any order, prints nothing and leaves the rest '
     'of the program as it was: the random generators of Python and numpy (a seeded simulation goes on as without the call), '
     'files, environment, interpreter settings, warning filters, numpy and decimal settings, other modules. Writing a polynomial '
     'makes its file and changes nothing else. Simulating, and '
     'importing any module, changes none of these either, but for the generators that a simulation draws from.',
     [I, H], 'all deriving, numeric and simulating functions, orders and parameters; all modules',
     'Tests look at the value returned only.',
     ['poly.py', 'utils.py', 'cpp_mom.py', 'ito_mom.py', 'itos_mom.py', 'ito_cond_mom.py', 'mdl_1fsv/', 'mdl_1fsvj/', 'mdl_2fsv/',
      'mdl_2fsvj/', 'mdl_srjd/', 'mdl_svvj/', 'mdl_svij/', 'mdl_svcj/'],
     [('generators at module level', 'mdl_*/euler.py'), ('deriving functions', 'every module')],
     ['state of the process before and after, output, working directory'],
     'property-based testing of an invariant of the process state over generated calls')

prop('P42', 'The comparison scripts tabulate derived and sample moments',
     'Each comparison script in scripts/ (mdl_*_comp.py, experiment1.py, experiment2.py) runs to its end whatever series the '
     'simulator returns and whatever values the formulas have, zero included, and prints, for each order of its tables, one row '
     'with the value the package derives at the parameters of the simulation, the sample moment, central moment or covariance '
     'of successive values of the simulated series, their absolute difference, and that in percent of the derived value (nan '
     'where this is zero); the simulation starts at the mean of the variance, or where the conditional formulas do, and takes '
     'the jumps the formulas take.',
     [I], 'all comparison scripts, all series of samples and all values of the formulas', 'No test runs a script.',
     ['scripts/mdl_1fsv_comp.py', 'scripts/mdl_1fsvj_comp.py', 'scripts/mdl_2fsv_comp.py', 'scripts/mdl_2fsvj_comp.py',
      'scripts/mdl_srjd_comp.py', 'scripts/experiment1.py', 'scripts/experiment2.py'],
     [('comp_moments, comp_cmoments, comp_cov, print_comp', 'scripts/mdl_*_comp.py')], ['standard output of the script'],
     'property-based testing of the scripts: generated series and values put in for the package, tables recomputed')

NOTE = {
    'P42': 'exploration; the simulators give a few samples instead of millions',
    'P41': 'exploration; the state is the one listed in the check',
    'P40': 'exploration; reads the columns by their documented names',
    'P39': 'exploration; compares the programs with the functions',
    'P38': 'schedules are those the interpreter takes at the drawn switch intervals; not enumerated',
    'P36': 'exploration; compares the package with itself',
    'P37': 'exploration; a grid of small exponents, powers and orders is always tried; trusts the power series in the check',
    'P33': 'statistical exploration: exact moments of the scheme within 7 standard errors over 40000 to 150000 samples per '
           'parameter point; trusts numpy and the polynomial moment recursion of lib/euler_ref.py',
    'P34': 'statistical exploration: exact moments within 7 standard errors over 40000 to 150000 samples per parameter point; '
           'trusts numpy, lib/euler_ref.py and lib/oracle.py',
    'P01': 'exploration of random histories; trusts the dict model in the check',
    'P03': 'exploration; trusts the independent reader in the check',
    'P27': 'exploration over every deriving function; trusts the documented layouts recorded in lib/keyfor.json',
    'P28': 'exploration of random histories; the same call made first in a fresh process is the reference',
    'P29': 'exploration; every single-negative position of every listed function is always tried',
    'P31': 'exploration at random parameter points in 60-digit arithmetic; trusts lib/decode.py, compares the package with itself',
    'P32': 'exploration at random parameter points in 60-digit arithmetic; trusts lib/decode.py, compares the package with itself',
    'P35': 'exploration; compares the package with itself',
    'P30': 'exploration; small argument ranges are enumerated completely',
}
DEFAULT = ('exploration: every order up to the bound of the tier at a fixed generic point plus random orders and parameter points, '
           'in 60-digit arithmetic; trusts lib/oracle.py (extended generator, no recursion of the package) and lib/decode.py')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i, title, stmt, over, text, why, files, mech, obs, tech in T:
            assert len(title) <= 80, title
            f.write(json.dumps({
                'id': i, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why,
                'anchors': {'files': [x if x.startswith('scripts/') else S + x for x in files],
                            'mechanism': [{'name': a, 'where': b if b.startswith(('the ', 'scripts/')) else S + b} for a, b in mech],
                            'observe_at': obs, 'hook_needed': None}}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 run.py --selftest',
        'checks': [{'property': t[0], 'quick_cmd': f'python3 run.py {t[0]} --tier quick',
                    'thorough_cmd': f'python3 run.py {t[0]} --tier thorough', 'technique': t[9], 'level': 'exploration',
                    'level_note': NOTE.get(t[0], DEFAULT)} for t in T],
        'not_applicable': [],
        'notes': 'pure Python: there is nothing to build, each check imports the package from /repo/src of the working tree. '
                 'No hooks.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
