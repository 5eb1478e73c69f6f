"""Files written for a polynomial contain exactly that polynomial."""
import ast
import csv
import io
import os
import tempfile
from contextlib import redirect_stdout
from fractions import Fraction as F

from hypothesis import strategies as st

from formula import derive
from harness import SCRATCH, Sub, Violation, call, ensure, expect_raises, load
from synth import bulk, clean, key_of, make, num, plain

PROPERTY = 'P03'
RULE = ('random polynomials of every column layout (plain, with pair/tuple components, with l/o and with l/o/p/q '
        'jump columns) and derived formulas of the models, written to a scratch folder and read back by an '
        'independent reader; non-trivial: at least two terms')
ASSUMPTIONS = ['the file system stores what is written; files go to a scratch folder under /verif/.scratch']

NAMES = ['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'v0-theta', 'rho', 'sqrt(1-rho^2)', "x'y", 'a,b', 'q"r']
STEMS = ['poly', 'poly', 'm3', 'formulas_csv', 'formulas-txt', 'v1.2', 'csv', 'txt', 'a.csv.old', 'a.txt.old', 'a b',
         'moment(4)']
LETTERS = 'abkx019 ._-()~#%+=@,;&!^{}\u03b8\u65e5'


HUGE = st.tuples(st.sampled_from([10 ** 310, -7 ** 900, 3 ** 2000 + 1]), st.sampled_from([1, 2 ** 1100, 11 ** 500])).map(list)


def stems():
    """names of files: any of the usual characters, in any place"""
    free = st.text(st.sampled_from(LETTERS), min_size=1, max_size=9).filter(lambda s: not s.endswith(('.csv', '.txt')))
    return st.one_of(st.sampled_from(STEMS), free, st.sampled_from(['x.', 'x..', '..x', ' x', 'x ', 'x.csv.', 'x.txt ', '.x', '-x', 'x,y']))


LAYOUTS = ('plain', 'pairs', 'l_o', 'l_o_p_q')


@st.composite
def synth(draw, same_length=True):
    layout = draw(st.sampled_from(LAYOUTS)) if same_length else draw(st.sampled_from(LAYOUTS[2:]))
    pre = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    post = draw(st.lists(st.sampled_from([n for n in NAMES if n not in pre]), max_size=3, unique=True))
    e = st.integers(-4, 6)
    n = draw(st.integers(0 if same_length else 2, 6))
    lev = draw(st.integers(0, 3))
    its = []
    for i in range(n):
        if not same_length:
            lev = draw(st.integers(0, 2)) if i > 1 else i
        v = lambda m: [draw(e) for _ in range(m)]
        k = v(len(pre))
        if layout == 'pairs':
            k.append([v(2)] + [v(3) for _ in range(draw(st.integers(0, 1)))])
        elif layout == 'l_o':
            k += [v(lev), v(max(0, lev - 1))]
        elif layout == 'l_o_p_q':
            k += [v(lev), v(lev), v(max(0, lev - 1)), v(max(0, lev - 1))]
        k += v(len(post))
        its.append([k, draw(st.one_of(num(), num(), num(), HUGE))])
    mid = {'plain': [], 'pairs': ['((n_1m,n_2m,i_m),...,(n_11,n_21,i_1))'], 'l_o': ['l_{1:n}', 'o_{2:n}'],
           'l_o_p_q': ['l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}']}[layout]
    return {'keyfor': pre + mid + post, 'items': its, 'ext': draw(st.booleans()), 'stem': draw(stems()),
            'old': draw(st.booleans()), 'cwd': draw(st.booleans())}


FORMULAS = [('mdl_1fsv.mom', 'moment_y', (3,)), ('mdl_1fsv.cmom', 'cmoment_y', (4,)), ('mdl_1fsv.cov', 'cov_yy', (2, 1)),
            ('mdl_1fsvj.mom', 'moment_y', (3,)), ('mdl_1fsvj.cmom', 'cmoment_y', (3,)),
            ('mdl_2fsv.mom', 'moment_y', (3,)), ('mdl_2fsv.cmom', 'cmoment_y', (4,)), ('mdl_2fsvj.cov', 'cov_yy', (1, 1)),
            ('mdl_srjd.mom', 'moment_v', (4,)), ('mdl_srjd.cond_cmom', 'cmoment_v', (3,)),
            ('mdl_svcj.mom', 'moment_y', (2,)), ('mdl_svcj.cond_cmom', 'cmoment_y', (2,)),
            ('itos_mom', 'moment_IEI_IEII', (1, 1, 1, 0, 0)), ('ito_mom', 'moment_IEII', (2, 1, 1)),
            ('cpp_mom', 'mcpp', (4,)), ('utils', 'cmnorm', (4,))]
BY_LEVEL = [('mdl_srjd.cond2_mom', 'moment_v', (3,)), ('mdl_svvj.cond2_mom', 'moment_y', (3,)),
            ('mdl_svvj.cond2_cmom', 'cmoment_y', (3,)), ('mdl_svij.cond2_mom', 'moment_y', (3,)),
            ('ito_cond_mom', 'moment_IEII', (1, 2, 1))]


def the_poly(case):
    if 'terms' in case:
        lev = case['lev']
        t = [0] * lev            # a tuple of lev integers
        u = [0] * max(0, lev - 1)
        mid, names = {'plain': ([], []), 'pairs': ([[2, 3]], ['((n_1m,n_2m,i_m),...,(n_11,n_21,i_1))']),
                      'l_o': ([t, u], ['l_{1:n}', 'o_{2:n}']),
                      'l_o_p_q': ([t, t, u, u], ['l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}'])}[case['layout']]
        pre, post = NAMES[:case['pre']], NAMES[case['pre']:case['pre'] + case['post']]
        return make(bulk(case['seed'], case['terms'], [None] * len(pre) + mid + [None] * len(post), 9), pre + names + post)
    if 'items' in case:
        return make(case['items'], case['keyfor'])
    i, level = case['formula']
    mod, fn, args = (FORMULAS + BY_LEVEL)[i]
    p = derive(mod, fn, *args)
    if level is not None:
        p2 = load('poly').Poly()
        c = list(p.keyfor).index('l_{1:n}')
        for k in p:
            if len(k[c]) == level:
                p2[k] = p[k]
        p2.set_keyfor(p.keyfor)
        p = p2
    return p


def write(p, how, case):
    """returns the text of the only file written"""
    os.makedirs(SCRATCH, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=SCRATCH) as d:
        stem = case.get('stem', 'poly')
        name = stem + (how if case['ext'] else '')
        file = stem + how
        if case.get('old'):  # a file that is there already, longer than any new one
            with open(os.path.join(d, file), 'w') as f:
                f.write('old,line: (1, 2)\n' * 20000)
        cwd = os.getcwd()
        if case.get('cwd'):
            os.chdir(d)
        else:
            name = os.path.join(d, name)
        try:
            call(f'write_to_{how[1:]}', p.write_to_txt if how == '.txt' else p.write_to_csv, name)
        finally:
            os.chdir(cwd)
        ensure(os.listdir(d) == [file], f'files written for the name {os.path.basename(name)!r}: {os.listdir(d)}')
        with open(os.path.join(d, file), encoding='utf-8', newline='') as f:
            return f.read()


def read_txt(text):
    lines = text.split('\n')
    ensure(lines[-1] == '', 'the last line is not terminated')
    try:
        names, _, tail = lines[0].rpartition(': ')
        ensure(tail == 'value(in fraction)', f'title line {lines[0]!r}')
        keyfor = ast.literal_eval(names)
        d = {}
        for ln in lines[1:-1]:
            k, v = ln.split(': ')
            n, m = ast.literal_eval(v)
            k = ast.literal_eval(k)
            ensure(k not in d, f'key {k} is written twice')
            d[k] = F(n, m)
        return tuple(keyfor), d
    except (ValueError, SyntaxError, TypeError) as e:
        raise Violation(f'the txt file cannot be read back: {type(e).__name__} {e}; {text[:300]!r}')


def txt_body(case):
    p = the_poly(case)
    before = plain(p)
    keyfor, d = read_txt(write(p, '.txt', case))
    ensure(keyfor == tuple(p.keyfor), f'title {keyfor}, keyfor is {p.keyfor}')
    ensure(d == before, lambda: f'read back {d}, written {before}')
    ensure(plain(p) == before, 'the poly has changed')


def csv_body(case):
    p = the_poly(case)
    before = plain(p)
    rows = list(csv.reader(io.StringIO(write(p, '.csv', case))))
    ensure(plain(p) == before, 'the poly has changed')
    ensure(len(rows) == len(before) + 1, f'{len(rows) - 1} rows for {len(before)} terms')
    kf = list(p.keyfor)
    if 'l_{1:n}' not in kf:
        title = kf
        flat = lambda k: [str(x) for x in k]
    else:
        i = kf.index('l_{1:n}')
        full = 'p_{2:n}' in kf
        lev = len(next(iter(before))[i]) if before else 0
        names = lambda c, a: [f'{c}{j}' for j in range(a, lev + 1)]
        mid = names('l', 1) + (names('o', 1) + names('p', 2) + names('q', 2) if full else names('o', 2))
        title = kf[:i] + mid + kf[i + (4 if full else 2):]
        flat = lambda k: [str(y) for x in k for y in (x if isinstance(x, tuple) else (x,))]
    ensure(rows[0] == title + ['num', 'den'], f'title line {rows[0]}, columns {title}')
    got = {}
    for r in rows[1:]:
        ensure(len(r) == len(rows[0]), f'row {r} does not match the title {rows[0]}')
        key = tuple(r[:-2])
        ensure(key not in got, f'row {key} is written twice')
        try:
            got[key] = F(int(r[-2]), int(r[-1]))
        except (ValueError, ZeroDivisionError):
            raise Violation(f'num, den of {r}')
    want = {tuple(flat(k)): v for k, v in before.items()}
    ensure(got == want, lambda: f'read back {got}, written {want}')


def mixed_body(case):
    """different numbers of jump columns cannot go to one csv file"""
    p = make(case['items'], case['keyfor'])
    before = plain(p)
    os.makedirs(SCRATCH, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=SCRATCH) as d:
        expect_raises('write_to_csv of mixed levels', Exception, p.write_to_csv, os.path.join(d, 'x'))
        # the txt format has no such restriction
        call('write_to_txt', p.write_to_txt, os.path.join(d, 'y'))
        with open(os.path.join(d, 'y.txt'), encoding='utf-8') as f:
            keyfor, got = read_txt(f.read())
    ensure(got == before, 'txt of mixed levels does not contain the poly')
    ensure(plain(p) == before, 'the poly has changed')


def subpolys_body(case):
    l, nth = case['l'], case['nth']
    p = derive('mdl_svvj.cond2_cmom', 'cmoment_y', l)
    mod = load('mdl_svvj.cond2_cmom')
    want = plain(p)
    os.makedirs(SCRATCH, exist_ok=True)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(dir=SCRATCH) as d:
        os.chdir(d)
        try:
            call('write_to_subpolys', mod.write_to_subpolys, p, nth)
        finally:
            os.chdir(cwd)
        levels = sorted({len(k[6]) for k in want})
        ensure(sorted(os.listdir(d)) == sorted(f'svvj-cond-cmoment-{nth}-formula-{n}.txt' for n in levels),
               f'files {sorted(os.listdir(d))}, levels {levels}')
        got = {}
        for n in levels:
            with open(os.path.join(d, f'svvj-cond-cmoment-{nth}-formula-{n}.txt'), encoding='utf-8') as f:
                keyfor, part = read_txt(f.read())
            kf = ('e^{-kt}',) + tuple(p.keyfor)[1:]
            ensure(keyfor == (kf[:6] + kf[10:] if n == 0 else kf), f'title of level {n}: {keyfor}')
            for k, v in part.items():
                k = k if n else k[:6] + ((), (), (), ()) + k[6:]
                ensure(len(k[6]) == n, f'key {k} in the file of level {n}')
                got[(-k[0],) + k[1:]] = v
    ensure(clean(got) == clean(want), 'the files do not contain the poly')
    ensure(plain(p) == want, 'the poly has changed')


def subs(tier):
    q = tier == 'quick'
    k = 1 if q else 12
    named = [{'items': [[[1, 2], [3, 2]], [[0, 1], [-1, 1]]], 'keyfor': ['h', 'mu'], 'ext': e, 'stem': s, 'old': False, 'cwd': True}
             for s in ('x.', 'x..', '.x', ' x ', 'x.csv.', 'x.txt_', '-x', 'a,b', '\u03b8') for e in (False, True)]
    formulas = [{'formula': [i, None], 'ext': bool(i % 2)} for i in range(len(FORMULAS))]
    bylevel = [{'formula': [len(FORMULAS) + i, lev], 'ext': True} for i in range(len(BY_LEVEL)) for lev in (0, 1, 2)]
    mixed = [{'formula': [len(FORMULAS) + i, None], 'ext': True} for i in range(len(BY_LEVEL))]
    nt = lambda c: 'formula' in c or len(c['items']) >= 2

    def distinct(c):
        def shape(its):
            i = c['keyfor'].index('l_{1:n}')
            return len({len(k[i]) for k, _ in its})
        return shape(c['items']) > 1

    def levels_differ(c):
        i = c['keyfor'].index('l_{1:n}')
        return len({len(key_of(k)[i]) for k, _ in c['items']}) > 1

    big = gen.cases(terms=st.sampled_from([100, 1100, 5000]), seed=st.integers(0, 10 ** 6), layout=st.sampled_from(LAYOUTS),
                    lev=st.integers(0, 4), pre=st.integers(1, 8), post=st.integers(0, 4), ext=st.booleans())
    return [
        Sub('txt', synth(), txt_body, 300 * k, nt, pinned=tuple(formulas + bylevel + mixed + named)),
        Sub('csv', synth(), csv_body, 300 * k, nt, pinned=tuple(formulas + bylevel + named)),
        Sub('txt-big', big, txt_body, 24 * min(k, 4)),
        Sub('csv-big', big, csv_body, 24 * min(k, 4)),
        Sub('csv-mixed-levels', synth(False).filter(levels_differ), mixed_body, 100 * k),
        Sub('subpolys', gen.cases(l=st.integers(0, 4), nth=st.integers(0, 9)), subpolys_body, 12 * min(k, 3),
            lambda c: c['l'] >= 2),
    ]


import gen  # noqa: E402
