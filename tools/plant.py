"""Author and validate planted bugs (never read by a check).

  plant.py make SPECFILE [ID...]   build /verif/seeded/<id>/ from the specs
  plant.py test ID...              stable tests on a scratch copy with the patch
  plant.py fast ID...              the same without the slow tests
  plant.py check ID...             the property's quick check on a scratch copy

A spec is a dict: id, property, file (below src/ajdmom), edits [(old, new)],
needs, breaks, and either `demo` (python source, raising on the bug) or
`exprs` (setup source, list of expressions): the values on the unchanged tree
are stored and compared.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
PY = '/opt/venv/bin/python'
SCRATCH = '/tmp/mut'

DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not.  Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
'''


def load(specfile):
    ns = {}
    exec(compile(open(specfile).read(), specfile, 'exec'), ns)
    return ns['SPECS']


def copy(bid):
    d = f'{SCRATCH}/{bid}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(['cp', '-a', REPO, d], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    return d


def run_demo(folder, cwd):
    return subprocess.run(['bash', f'{folder}/demo.sh'], cwd=cwd, capture_output=True, text=True)


def values(setup, exprs, cwd):
    src = setup + '\nimport json\nprint("@@" + json.dumps([' + ', '.join(f'repr({e})' for e in exprs) + ']))\n'
    env = dict(os.environ, PYTHONPATH=f'{cwd}/src', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([PY, '-c', src], cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode:
        return 'error: ' + r.stderr.strip().split('\n')[-1]
    return json.loads(r.stdout.split('@@')[-1])


def demo_of(spec):
    if 'demo' in spec:
        return textwrap.dedent(spec['demo'])
    setup, exprs = spec['exprs']
    setup = textwrap.dedent(setup)
    good = values(setup, exprs, REPO)
    assert isinstance(good, list), good
    out = [setup, 'from fractions import Fraction', 'import sys', 'bad = 0', 'cases = [']
    for e, g in zip(exprs, good):
        out.append(f'    ({e!r}, lambda: {e}, {g}),')
    out += [']', 'for name, f, want in cases:', '    got = f()',
            '    if isinstance(want, float):',
            '        ok = abs(got - want) <= 1e-9 * abs(want)',
            '    else:', '        ok = got == want',
            '    if not ok:', '        bad += 1',
            '        print(f"{name} = {got}, should be {want}")',
            'sys.exit(1 if bad else 0)', '']
    return '\n'.join(out)


def make(spec):
    bid = spec['id']
    d = copy(bid)
    f = f'{d}/src/ajdmom/{spec["file"]}'
    edits = spec['edits']
    s = open(f).read()
    for e in edits:
        old, new = e[0], e[1]
        n = e[2] if len(e) > 2 else 1
        if s.count(old) != n:
            raise SystemExit(f'{bid}: {s.count(old)} occurrences of {old!r}')
        s = s.replace(old, new)
    open(f, 'w').write(s)
    for extra, eds in spec.get('more', []):
        g = f'{d}/src/ajdmom/{extra}'
        t = open(g).read()
        for old, new in eds:
            if t.count(old) != 1:
                raise SystemExit(f'{bid}: {t.count(old)} occurrences of {old!r} in {extra}')
            t = t.replace(old, new)
        open(g, 'w').write(t)
    patch = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
    out = f'{VERIF}/seeded/{bid}'
    os.makedirs(out, exist_ok=True)
    open(f'{out}/patch.diff', 'w').write(patch)
    open(f'{out}/demo.sh', 'w').write(DEMO_SH)
    os.chmod(f'{out}/demo.sh', 0o755)
    open(f'{out}/demo.py', 'w').write(demo_of(spec))
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(f'{out}/meta.json', 'w'), indent=1)
    r0 = run_demo(out, REPO)
    r1 = run_demo(out, d)
    print(f'{bid}: demo unchanged={r0.returncode} patched={r1.returncode} :: '
          f'{(r1.stdout + r1.stderr).strip().splitlines()[-1:] }'[:300])
    if r0.returncode:
        print(r0.stdout, r0.stderr)


def patched(bid):
    d = copy(bid)
    subprocess.run(['git', '-C', d, 'apply', f'{VERIF}/seeded/{bid}/patch.diff'], check=True)
    return d


def check(bid, extra=()):
    d = patched(bid)
    prop = json.load(open(f'{VERIF}/seeded/{bid}/meta.json'))['property']
    env = dict(os.environ, VERIF_REPO_SRC=f'{d}/src')
    res = {}
    for p in [prop, *extra]:
        r = subprocess.run([sys.executable, f'{VERIF}/run.py', p, '--tier', 'quick'], cwd=VERIF,
                           env=env, capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        res[p] = (r.returncode, v[:1])
        print(f'{bid}: {p} rc={r.returncode} {v[:1]} {(r.stderr.strip().splitlines() or [""])[-1][:200] if r.returncode not in (0,1) else ""}')
    shutil.rmtree(d)
    return res


SLOW = 'rSV or test_mdl_1fsv or test_mdl_svcj or test_mdl_svij or test_mdl_svvj'  # over a minute each


def tests(bid, fast=False):
    d = patched(bid)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = {'HOME': '/root', 'PATH': os.environ['PATH'], 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONPYCACHEPREFIX': '/opt/vp/no-pycache', 'PYTHONHASHSEED': '0',
           'PYTHONPATH': f'{d}/src:/opt/vp/plugins', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
           'AJDMOM_SEED': '0'}
    x = f'{SCRATCH}/{bid}.xml'
    more = ['-k', f'not ({SLOW})'] if fast else []
    subprocess.run([PY, '-m', 'pytest', '-q', 'tests', '-p', 'ajdmom_seed', '-p', 'no:cacheprovider', '-n', '3' if fast else '8',
                    '--dist', 'worksteal', '--timeout=400', '--continue-on-collection-errors', '--tb=short',
                    '--show-capture=no', '--ignore=tests/test_mdl_2fsv.py', '--ignore=tests/test_mdl_2fsvj.py',
                    '-o', 'junit_family=xunit2', f'--junitxml={x}'] + more, cwd=d, env=env, capture_output=True)
    o = f'{SCRATCH}/{bid}.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', o, f'junit:{x}'], capture_output=True)
    passed = set(json.load(open(o))['passed'])
    miss = [t for t in stable if t not in passed]
    if fast:
        miss = [t for t in miss if not any(s in t for s in SLOW.split(' or '))]
    print(f'{bid}: tests {"PASS" if not miss else "FAIL " + str(miss[:4])}')
    shutil.rmtree(d)
    os.remove(x), os.remove(o)


if __name__ == '__main__':
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        ids = rest[1:]
        for spec in load(rest[0]):
            if not ids or spec['id'] in ids:
                make(spec)
                shutil.rmtree(f'{SCRATCH}/{spec["id"]}')
    elif cmd == 'check':
        for b in rest:
            bid, *extra = b.split(':')
            check(bid, extra)
    elif cmd in ('test', 'fast'):
        for b in rest:
            tests(b, cmd == 'fast')
