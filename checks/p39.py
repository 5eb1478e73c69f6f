"""The modules run as programs, and the example scripts, print what the functions return."""
import ast
import os
import re
import subprocess
import sys
from fractions import Fraction

from hypothesis import strategies as st

from harness import REPO_SRC, Sub, Violation, call, ensure, load

PROPERTY = 'P39'
RULE = ('a module of the package run as `python -m` with 0..2 random orders (or an example script); every formula it prints '
        'below a call is compared with what the function returns for these arguments, column names, numbers and samples with '
        'what they stand for; non-trivial: run with an order that is not the one taken when none is given')
ASSUMPTIONS = ['the formulas themselves are compared with the models by the other checks',
               'scripts that simulate millions of samples are not run']
SCRIPTS = os.path.join('/repo', 'scripts')

# module -> (function in the label, the orders when none are given, largest orders, how to obtain the formula)
ONE = {
    'mdl_1fsv.mom': ('moment_y', [2], 6), 'mdl_1fsv.cmom': ('cmoment_y', [2], 6),
    'mdl_1fsvj.mom': ('moment_y', None, 5), 'mdl_1fsvj.cmom': ('cmoment_y', None, 5),
    'mdl_2fsv.mom': ('moment_y', None, 3), 'mdl_2fsv.cmom': ('cmoment_y', None, 4),
    'mdl_2fsvj.mom': ('moment_y', None, 3), 'mdl_2fsvj.cmom': ('cmoment_y', None, 4),
    'mdl_1fsv.cov': ('cov_yy', [1, 1], 3), 'mdl_1fsvj.cov': ('cov_yy', None, 3),
    'mdl_2fsv.cov': ('cov_yy', None, 1), 'mdl_2fsvj.cov': ('cov_yy', None, 1),
    'mdl_1fsv.cond_cmom': ('cmoment_y', [3], 6),
    'mdl_srjd.cond2_cmom': ('cmoment_v', [2], 5), 'mdl_srjd.cond2_mom': ('moment_v', [2], 5),
    'mdl_svvj.cond2_mom': ('moment_y', [1], 4), 'mdl_svvj.cond2_cmom': ('cmoment_y', [3], 4),
    'mdl_svij.cond2_mom': ('moment_y', [1], 4), 'mdl_svij.cond2_cmom': ('cmoment_y', [2], 4),
    'mdl_svcj.cond2_cmom': ('cmoment_y', [2], 4),
    'ito_mom': ('moment_IEII', [3], 4), 'ito_cond_mom': ('moment_IEII', [3], 4),
    'mdl_svcj.cond2_mom': ('moment_y', [2, 2], 3),  # number of jumps, order
}
FIXED = ['cpp_mom', 'itos_mom', 'mdl_srjd.cmom', 'mdl_srjd.mom', 'mdl_srjd.cond_mom', 'mdl_srjd.cond_cmom',
         'mdl_srjd.cond_ie_iez_mom', 'mdl_srjd.cond_ie_iez_cmom', 'mdl_srjd.iez_mom', 'mdl_srjd.iez_cmom',
         'utils', 'poly', 'mdl_svcj.cond_mom', 'mdl_svcj.cond_cmom', 'mdl_svcj.cond_ieii_ieziziz_mom', 'mdl_svcj.ieziziz_mom',
         'mdl_svcj.mom', 'mdl_svcj.cmom', 'example1', 'example2', 'usage']
COLUMNS = ['cpp_mom', 'mdl_srjd.mom', 'mdl_srjd.cmom', 'mdl_srjd.cond_ie_iez_mom', 'mdl_srjd.cond_ie_iez_cmom', 'mdl_srjd.iez_mom',
           'mdl_srjd.iez_cmom', 'mdl_svcj.ieziziz_mom']
SIMULATORS = {'mdl_srjd.euler': 'SRJD', 'mdl_svvj.euler': 'SVVJ', 'mdl_svij.euler': 'SVIJ', 'mdl_svcj.euler': 'SVCJ'}
TWO = {'mdl_1fsv.cov', 'mdl_1fsvj.cov', 'mdl_2fsv.cov', 'mdl_2fsvj.cov', 'mdl_svcj.cond2_mom', 'mdl_srjd.cond2_mom'}


def run(what, args):
    """standard output of the program"""
    name = what.split(' ')[0]
    if os.path.exists(os.path.join(SCRIPTS, name + '.py')) and '.' not in name:
        cmd, cwd = [os.path.join(SCRIPTS, name + '.py')], SCRIPTS
    else:
        cmd, cwd = ['-m', 'ajdmom.' + name], REPO_SRC
    env = dict(os.environ, PYTHONPATH=REPO_SRC, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-B'] + cmd + [str(a) for a in args], cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode:
        raise Violation(f'python {" ".join(cmd)} {args} ends with {r.returncode}: {r.stderr.strip()[-300:]}')
    return r.stdout


def literal(text):
    return eval(text, {'__builtins__': {}}, {'Fraction': Fraction})  # output of pprint: numbers, tuples, dictionaries


def balanced(text):
    """the bracketed expression at the start of the text"""
    close, depth = {'{': '}', '(': ')', '[': ']'}, 0
    quote = None
    for i, ch in enumerate(text):
        if quote:
            quote = None if ch == quote else quote
        elif ch in '\'"':
            quote = ch
        elif ch in '{([':
            depth += 1
        elif ch in '})]':
            depth -= 1
            if depth == 0:
                return text[:i + 1]
    return None


def blocks(out):
    """(function, arguments, value, following text) of every `f(args) = {...}` printed"""
    res = []
    for m in re.finditer(r'^(\w+)\(([-\d, J]*)\) =[ ]*\n*[ \n]*(?=\{)', out, re.M):
        b = balanced(out[m.end():])
        if b is not None:
            args = tuple(a.strip() for a in m.group(2).split(',')) if m.group(2) else ()
            res.append((m.group(1), args, literal(b), out[m.end() + len(b):]))
    return res


def strip(p):
    return {k: Fraction(v) for k, v in dict(p).items() if v != 0}


_made = {}


def returned(name, fn, args, jumps):
    key = (name, fn, args, jumps)
    if key in _made:
        return _made[key]
    mod = load(name)
    nums = [int(a) for a in args if a != 'J']
    if name == 'mdl_svcj.cond2_mom' or name == 'mdl_svcj.cond2_cmom':
        f = getattr(mod, fn[:-2] + 's_y_to')
        r = call(f'{name}.{fn}', f, nums[0], list(jumps))[nums[0]]
    elif name == 'mdl_srjd.mom':  # its example shows the form in terms of the mean
        r = call('moment_v', mod.moment_v, *nums, simplify=False)
    elif hasattr(mod, fn):
        r = call(f'{name}.{fn}{args}', getattr(mod, fn), *nums)
    else:  # printed as moment_y(l) by modules that derive all orders up to l
        r = call(f'{name}.{fn}{args}', getattr(mod, fn[:-2] + 's_y_to'), nums[0])[nums[0]]
    _made[key] = r
    return r


def check_blocks(what, name, out, jumps=()):
    found = blocks(out)
    for fn, args, value, _ in found:
        r = returned(name, fn, args, tuple(jumps))
        if name == 'mdl_svcj.cmom':
            # printed without the column of mu, and in powers of e^{-kt}
            r = {(-k[0], *k[1:3], *k[4:]): v for k, v in r.items() if v != 0}
        ensure(strip(value) == strip(r), lambda: f'{what} prints {fn}({", ".join(args)}) = {str(value)[:200]}, the function returns '
                                                 f'{str(dict(r))[:200]}')
    return found


def columns(what, out, poly):
    """the column names printed are those of the formula"""
    kf = tuple(poly.keyfor)
    names = []
    for m in re.finditer(r'[(\[](?=\')', out):
        b = balanced(out[m.start():])
        if b:
            try:
                names.append(tuple(ast.literal_eval(b)))
            except (SyntaxError, ValueError):
                pass
    ensure(kf in names, lambda: f'{what} prints the columns {names}, the formula has {kf}')


def formula_body(case):
    name, args = case['name'], case['args']
    what = f'python -m ajdmom.{name} {" ".join(map(str, args))}'.strip()
    out = run(name, args)
    label, default, _ = ONE[name]
    jumps = ()
    if name == 'mdl_svcj.cond2_mom':
        m = re.search(r'jumpsize =\s*\n', out)
        jumps = tuple(ast.literal_eval(balanced(out[m.end():])))
        want = args[0] if args else 2
        ensure(len(jumps) == want, f'{what}: {len(jumps)} jumps are taken, not {want}')
        args = args[1:2]
    elif name == 'mdl_svcj.cond2_cmom':
        jumps = (0.4, 0.1, 0.3, 0.2, 0.5)
    found = check_blocks(what, name, out, jumps)
    ensure(found, f'{what} prints no formula')
    if name in ('ito_mom', 'ito_cond_mom'):
        n = args[0] if args else 3
        got = sorted(tuple(map(int, a)) for f, a, _, _ in found if f == label)
        want = sorted((i, j, n - i - j) for i in range(n + 1) for j in range(n + 1 - i))
        ensure(got == want, f'{what} prints the formulas of orders {got}, not {want}')
        columns(what, out, returned(name, label, want[0], ()))
        return
    if args:
        want = [str(a) for a in args] if name in TWO and name not in ('mdl_srjd.cond2_mom', 'mdl_svcj.cond2_mom') else [str(args[0])]
        got = [list(a) for f, a, _, _ in found if f == label]
        ensure(any(g[:len(want)] == want for g in got), f'{what} prints {label} of {got}, not of {want}')
        if name == 'mdl_srjd.cond2_mom':
            w = str(args[1]) if len(args) > 1 else '1'
            ensure(any(f == 'moment_IE' and a == (w,) for f, a, _, _ in found), f'{what} does not print moment_IE({w})')
    fn, a, _, _ = [b for b in found if b[0] == label][-1]
    columns(what, out, returned(name, fn, a, tuple(jumps)))
    m = re.search(r'numerical value = (\S+), given parameters =\s*', out)
    if m:
        par = ast.literal_eval(balanced(out[m.end():]))
        x = call('poly2num', load(name).poly2num, returned(name, fn, a, ()), par)
        ensure(abs(float(m.group(1)) - x) <= 1e-12 * abs(x), f'{what} prints the value {m.group(1)}, the formula has {x} there')


def fixed_body(case):
    name = case['name']
    out = run(name, [])
    what = f'running {name}'
    if name in ('example1', 'example2'):
        from_mod = 'mdl_1fsv.mom' if name == 'example1' else 'mdl_1fsv.cov'
        found = check_blocks(what, from_mod, out)
        ensure(len(found) == 1, f'{what} prints {len(found)} formulas')
        columns(what, out, returned(from_mod, *found[0][:2], ()))
        return
    if name == 'usage':
        return
    if name in ('mdl_svcj.cond_mom', 'mdl_svcj.cond_cmom'):
        got = {int(n): float(x) for n, x in re.findall(r'moment\((\d)\) = (\S+)', out)}
        ensure(sorted(got) == [1, 2, 3, 4], f'{what} prints the orders {sorted(got)}')
        return
    if name == 'poly':
        d = [literal(balanced(out[m.start():])) for m in re.finditer(r'\{', out)]
        ensure(len(d) == 5 and d[0] == d[3] and d[1] == d[4] and strip(d[2]) ==
               {k: Fraction(d[0].get(k, 0) + d[1].get(k, 0)) for k in set(d[0]) | set(d[1])}, f'{what}: {out[-300:]}')
        return
    if name == 'mdl_svcj.cond_ieii_ieziziz_mom':
        d = literal(balanced(out[out.index('{'):]))
        ensure(strip(d) == strip(call('moment_ieii_ieziziz', load(name).moment_ieii_ieziziz, 1, 1, 1, 2, 1, 1)), f'{what}: {out[:300]}')
        return
    found = check_blocks(what, name, out)
    ensure(found, f'{what} prints no formula')
    if name in COLUMNS:
        for fn, a, _, _ in found:
            columns(what, out, returned(name, fn, a, ()))


def simulator_body(case):
    name, args = case['name'], case['args']
    what = f'python -m ajdmom.{name} {" ".join(map(str, args))}'.strip()
    out = run(name, args)
    lists = {}
    for m in re.finditer(r'^(\w+) = (?=\()', out, re.M):
        lists[m.group(1)] = re.findall(r'[-+.\de]*\d[-+.\de]*', re.sub(r'np\.float64', '', balanced(out[m.end():])))
    sizes = [v for k, v in lists.items() if 'size' in k][0]
    times = [float(x) for x in [v for k, v in lists.items() if 'time' in k][0]]
    n = int(re.search(r'(\d+) jumps', out).group(1))
    ensure(len(sizes) == len(times) == n, f'{what} prints {len(sizes)} sizes and {len(times)} times of {n} jumps')
    ensure(not args or n == args[0], f'{what} takes {n} jumps')
    ensure(times == sorted(times) and all(0 <= t <= 1 for t in times) and all(float(s) > 0 for s in sizes), f'{what}: {out[:300]}')
    y = re.findall(r'[-+.\de]*\d[-+.\de]*', out[out.rindex('['):])
    want = int(re.search(r'(\d+) (?:replicate|i\.i\.d\.)', out).group(1))
    ensure(len(y) == want and len(set(y)) > want // 2 and 'nan' not in out, f'{what} prints {len(y)} samples, not {want}')
    if SIMULATORS[name] == 'SRJD':
        ensure(all(float(v) >= 0 for v in y), f'{what} prints a negative variance')


@st.composite
def programs(draw):
    name = draw(st.sampled_from(sorted(ONE)))
    top = ONE[name][2]
    if name == 'mdl_svcj.cond2_mom':
        args = [draw(st.integers(0, 4)), draw(st.integers(1, top))][:draw(st.integers(0, 2))]
    elif name in TWO:
        args = [draw(st.integers(1, top)), draw(st.integers(1, top))][:draw(st.integers(0, 2))]
    else:
        args = [draw(st.integers(1 if 'ito' not in name else 0, top))][:draw(st.integers(0, 3))]
    return {'name': name, 'args': args}


def subs(tier):
    q = tier == 'quick'
    sim = st.fixed_dictionaries({'name': st.sampled_from(sorted(SIMULATORS)),
                                 'args': st.lists(st.one_of(st.integers(0, 6), st.integers(7, 130)), max_size=1)})
    slow = ['mdl_svcj.mom', 'mdl_svcj.cmom', 'mdl_svcj.cond_mom', 'mdl_svcj.cond_cmom', 'mdl_svcj.cond_ieii_ieziziz_mom']
    pin = [{'name': n, 'args': a} for n in sorted(ONE) for a in (
        [[], [1, 2], [2, 1]] if n in TWO and '2fsv' not in n else [[], [1, 1]] if n in TWO else [[], [1], [2], [3], [4]])]
    return [Sub('formulas', programs(), formula_body, 60 if q else 600, lambda c: bool(c['args']), pinned=tuple(pin), shards=4),
            Sub('fixed', st.fixed_dictionaries({'name': st.sampled_from([n for n in FIXED if n not in slow])}), fixed_body, 1,
                lambda c: True, pinned=tuple({'name': n} for n in FIXED), shards=2),
            Sub('simulators', sim, simulator_body, 24 if q else 400, lambda c: c['args'] not in ([], [0]),
                pinned=tuple({'name': n, 'args': a} for n in SIMULATORS for a in ([], [0], [3], [12], [101])), shards=2)]
