"""Samples of a simulator as users get them: a process of its own, nothing seeded."""
import json
import os
import subprocess
import sys

import numpy as np

from harness import REPO_SRC, Violation

CODE = '''
import sys, json, importlib
import numpy as np
job = json.load(sys.stdin)
sys.path.insert(0, job['src'])
f = getattr(importlib.import_module('ajdmom.' + job['mod']), job['fn'])
a, kw = job['args'], job['kw']
a = [tuple(x) if isinstance(x, list) else x for x in a]
out = [np.asarray(f(*a, **kw), float).tolist() for _ in range(job['calls'])]
print('@@' + json.dumps(out))
'''


def samples(mod, fn, args, kw, calls):
    """the arrays returned by successive calls in a fresh process"""
    job = {'src': REPO_SRC, 'mod': mod, 'fn': fn, 'args': list(args), 'kw': kw, 'calls': calls}
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONHASHSEED'}
    r = subprocess.run([sys.executable, '-B', '-c', CODE], input=json.dumps(job), env=env, capture_output=True, text=True)
    if r.returncode:
        raise Violation(f'{mod}.{fn}{tuple(args)}, {kw} in a process of its own: {r.stderr.strip()[-400:]}')
    return [np.array(x) for x in json.loads(r.stdout.rsplit('@@', 1)[1])]


def new_each_time(what, ys):
    for i in range(1, len(ys)):
        if len(ys[i]) == len(ys[0]) and bool((np.sort(ys[i]) == np.sort(ys[0])).all()):
            raise Violation(f'{what}: call {i + 1} in a process gives the samples of the first call again')


def new_each_process(what, mod, fn, args, kw):
    """two processes, two calls each: four different arrays"""
    ys = samples(mod, fn, args, kw, 2) + samples(mod, fn, args, kw, 2)
    for i in range(4):
        for j in range(i):
            if len(ys[i]) == len(ys[j]) and bool((np.sort(ys[i]) == np.sort(ys[j])).any()):
                raise Violation(f'{what}: call {i % 2 + 1} in process {i // 2 + 1} repeats samples of '
                                f'call {j % 2 + 1} in process {j // 2 + 1}')
