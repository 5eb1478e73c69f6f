"""Random mutants of the library against the quick checks (never read by a check).

  mutate.py N SEED [--files PATTERN] [--kind basic|guard|all] [--workers W]

Works on a copy of /verif and copies of /repo/src under /tmp/mutate.  For each
mutant the checks that concern its file run in order until one reports it; the
survivors are printed with their diff.  `guard` mutants change a statement only
from some value of an integer variable on (high orders, large powers, ...).
"""
import argparse
import ast
import copy
import difflib
import fnmatch
import glob
import os
import random
import shutil
import subprocess
import sys
import concurrent.futures as cf

SRC = '/repo/src/ajdmom'
ROOT = '/tmp/mutate'

MAP = [
    ('poly.py', 'P01 P02 P03 P27 P28 P08'),
    ('utils.py', 'P30 P02 P03 P27 P08 P29 P11 P13'),
    ('ito_mom.py', 'P05 P14 P08 P17 P29 P27 P28'),
    ('itos_mom.py', 'P06 P10 P29 P27 P28'),
    ('ito_cond_mom.py', 'P07 P19 P20 P21 P22 P23 P29 P27'),
    ('cpp_mom.py', 'P04 P09 P11 P29 P27 P03'),
    ('__init__.py', 'P35'),
    ('mdl_1fsv/cond_cmom.py', 'P14 P02 P27 P29 P35'),
    ('mdl_1fsv/cov.py', 'P12 P15 P27 P29'),
    ('mdl_1fsv/*', 'P08 P15 P27 P33 P29 P31 P32'),
    ('mdl_1fsvj/cov.py', 'P12 P15 P27 P29'),
    ('mdl_1fsvj/*', 'P09 P15 P27 P33 P29 P31 P32'),
    ('mdl_2fsv/cov.py', 'P13 P16 P27 P29'),
    ('mdl_2fsv/*', 'P10 P16 P27 P33 P29 P31 P32'),
    ('mdl_2fsvj/cov.py', 'P13 P16 P27 P29'),
    ('mdl_2fsvj/*', 'P11 P16 P27 P33 P29 P31 P32'),
    ('mdl_srjd/euler.py', 'P34'), ('mdl_sv?j/euler.py', 'P34'),
    ('mdl_srjd/cond_mom.py', 'P17 P27 P29'), ('mdl_srjd/cond_cmom.py', 'P17 P27 P29'),
    ('mdl_srjd/mom.py', 'P18 P27 P29'), ('mdl_srjd/cmom.py', 'P18 P27 P29'),
    ('mdl_srjd/cond2*', 'P19 P27 P29 P20'),
    ('mdl_srjd/*', 'P20 P27 P29'),
    ('mdl_svvj/*', 'P21 P27 P29 P34'), ('mdl_svij/*', 'P22 P27 P29 P34'),
    ('mdl_svcj/cond2*', 'P23 P27 P29'),
    ('mdl_svcj/*ieziziz*', 'P25 P24 P26 P27 P29'),
    ('mdl_svcj/cond*', 'P24 P27 P29'),
    ('mdl_svcj/*', 'P26 P27 P29 P34'),
]


def props(rel):
    for pat, ps in MAP:
        if fnmatch.fnmatch(rel, pat) or fnmatch.fnmatch(rel, '*/' + pat) and '/' not in pat:
            return ps.split()
    return ['P27', 'P31', 'P32', 'P35']


BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.FloorDiv], ast.Div: [ast.Mult],
       ast.FloorDiv: [ast.Mult], ast.Pow: [ast.Mult]}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.LtE, ast.GtE],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


class Sites(ast.NodeVisitor):
    """expression sites and statement sites below functions"""

    def __init__(self):
        self.expr, self.stmt, self.fn, self.loopvars = [], [], [], []

    def visit_FunctionDef(self, node):
        if node.name.startswith('print') or node.name in ('test',):
            return
        ints = [a.arg for a in node.args.args if a.arg in ('n', 'm', 'i', 'l', 'l1', 'l2', 'n1', 'n2', 'n3', 'n4', 'n5',
                                                           'n3n', 'n4n', 'n5n', 'order', 'wrt', 'power', 'na', 'nb', 'k', 'c')]
        old = self.loopvars
        self.loopvars = ints
        for d in node.args.defaults:
            pass
        self.block(node.body)
        self.loopvars = old

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.Continue, ast.Break)):
                self.stmt.append((body, i, list(self.loopvars)))
            if isinstance(s, ast.For):
                old = list(self.loopvars)
                if isinstance(s.target, ast.Name):
                    self.loopvars = old + [s.target.id]
                self.exprs(s.iter)
                self.block(s.body)
                self.block(s.orelse)
                self.loopvars = old
            elif isinstance(s, (ast.If, ast.While)):
                self.exprs(s.test)
                self.block(s.body)
                self.block(s.orelse)
            elif isinstance(s, ast.FunctionDef):
                self.visit_FunctionDef(s)
            elif isinstance(s, (ast.With, ast.Try)):
                self.block(s.body)
            else:
                self.exprs(s)

    def exprs(self, node):
        for x in ast.walk(node):
            if isinstance(x, ast.BinOp) and type(x.op) in BIN:
                self.expr.append(x)
            elif isinstance(x, ast.Compare) and type(x.ops[0]) in CMP:
                self.expr.append(x)
            elif isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
                self.expr.append(x)
            elif isinstance(x, ast.BoolOp):
                self.expr.append(x)
            elif isinstance(x, ast.Call) and len(x.args) >= 2:
                self.expr.append(x)
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
                self.expr.append(x)

    def visit_ClassDef(self, node):
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.visit_FunctionDef(s)


def mutant(text, rng, kind):
    tree = ast.parse(text)
    s = Sites()
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            s.visit_FunctionDef(x)
        elif isinstance(x, ast.ClassDef):
            s.visit_ClassDef(x)
    k = kind if kind != 'all' else rng.choice(['basic', 'basic', 'guard'])
    for _ in range(50):
        if k == 'guard':
            cand = [c for c in s.stmt if c[2] and not isinstance(c[0][c[1]], (ast.If,))]
            if not cand:
                k = 'basic'
                continue
            body, i, lv = rng.choice(cand)
            v, t = rng.choice(lv), rng.randint(2, 5)
            if rng.random() < .5 and v in ('k', 'k1', 'k2', 'key', 'kk', 'K'):
                j = rng.randint(0, 7)
                cond = f'isinstance({v}, tuple) and len({v}) > {j} and isinstance({v}[{j}], int) and {v}[{j}] >= {t}'
            elif v in ('k', 'k1', 'k2', 'key', 'kk', 'K'):
                cond = f'isinstance({v}, tuple) and sum(x for x in {v} if isinstance(x, int)) >= {2 * t}'
            else:
                cond = f'isinstance({v}, int) and {v} >= {t}'
            body[i] = ast.If(test=ast.parse(f'not ({cond})', mode='eval').body, body=[body[i]], orelse=[])
        elif rng.random() < .2 and s.stmt:
            body, i, lv = rng.choice(s.stmt)
            if isinstance(body[i], ast.Break):
                body[i] = ast.Continue()
            else:
                body[i] = ast.Pass()
        elif s.expr:
            x = rng.choice(s.expr)
            if isinstance(x, ast.BinOp):
                x.op = rng.choice(BIN[type(x.op)])()
            elif isinstance(x, ast.Compare):
                x.ops[0] = rng.choice(CMP[type(x.ops[0])])()
            elif isinstance(x, ast.Constant):
                x.value += rng.choice([1, -1])
            elif isinstance(x, ast.BoolOp):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            elif isinstance(x, ast.Call):
                a, b = rng.sample(range(len(x.args)), 2)
                x.args[a], x.args[b] = x.args[b], x.args[a]
            elif isinstance(x, ast.UnaryOp):
                x.op = ast.UAdd()
        else:
            return None
        new = ast.unparse(ast.fix_missing_locations(tree))
        if new != ast.unparse(ast.parse(text)):
            return new
        return None


def one(job):
    idx, rel, new, diff = job
    d = f'{ROOT}/w{idx}'
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree('/repo/src', d + '/src')
    open(f'{d}/src/ajdmom/{rel}', 'w').write(new)
    env = dict(os.environ, VERIF_REPO_SRC=f'{d}/src')
    out = 'SURVIVED'
    for p in props(rel):
        try:
            r = subprocess.run([sys.executable, f'{ROOT}/verif/run.py', p, '--tier', 'quick', '--jobs', '2'],
                               cwd=f'{ROOT}/verif', env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            out = f'{p} timeout'
            break
        if r.returncode == 1:
            out = p
            break
        if r.returncode != 0:
            out = f'{p} rc={r.returncode} {(r.stderr.strip().splitlines() or [""])[-1][:150]}'
            break
    shutil.rmtree(d)
    return idx, rel, out, diff


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('n', type=int)
    ap.add_argument('seed', type=int)
    ap.add_argument('--files', default='*')
    ap.add_argument('--kind', default='all')
    ap.add_argument('--workers', type=int, default=6)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    os.makedirs(ROOT, exist_ok=True)
    if os.path.exists(f'{ROOT}/verif'):
        shutil.rmtree(f'{ROOT}/verif')
    shutil.copytree('/verif', f'{ROOT}/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replay'))
    files = [os.path.relpath(f, SRC) for f in sorted(glob.glob(SRC + '/**/*.py', recursive=True))]
    files = [f for f in files if fnmatch.fnmatch(f, a.files) and not f.endswith('__init__.py')]
    w = [len(open(f'{SRC}/{f}').read()) ** .7 for f in files]
    jobs, seen = [], set()
    while len(jobs) < a.n:
        rel = rng.choices(files, w)[0]
        text = open(f'{SRC}/{rel}').read()
        new = mutant(text, rng, a.kind)
        if not new or new in seen:
            continue
        seen.add(new)
        diff = '\n'.join(x for x in difflib.unified_diff(ast.unparse(ast.parse(text)).splitlines(), new.splitlines(),
                                                         rel, rel, lineterm='', n=2))
        jobs.append((len(jobs), rel, new, diff))
    n = {}
    with cf.ThreadPoolExecutor(a.workers) as ex:
        for idx, rel, out, diff in ex.map(one, jobs):
            n[out.split()[0] if not out.startswith('SURV') else out] = n.get(out.split()[0], 0) + 1
            print(f'#{idx} {rel}: {out}', flush=True)
            if out.startswith('SURV') or 'rc=' in out or 'timeout' in out:
                print(diff, flush=True)
    print(n)


if __name__ == '__main__':
    main()
