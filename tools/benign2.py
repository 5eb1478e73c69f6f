"""Like benign.py, with rewrites by hand: functions replaced by others that do the same.

    tools/benign2.py OUT
"""
import shutil
import sys
import textwrap
from pathlib import Path

NEW = {
'poly.py': '''
    def _mul(self, other):
        if not self.is_exact_type(other):
            raise NotImplementedError("The operands must be Polys having the same 'keyfor' attribute.")
        acc = {}
        for k2, v2 in reversed(list(other.items())):
            for k1, v1 in self.items():
                key = tuple(a + b for a, b in zip(k1, k2))
                acc[key] = acc.get(key, 0) + v1 * v2
        poly = Poly({k: v for k, v in acc.items() if v != 0})
        poly.set_keyfor(self.keyfor)
        return poly

    def _pow(self, n):
        if n <= 0:
            raise NotImplementedError("n must be an integer and >= 1.")
        if n == 1:
            poly = Poly(self)
            poly.set_keyfor(self.keyfor)
            return poly
        half = _pow(self, n // 2)
        r = _mul(half, half)
        return _mul(r, self) if n % 2 else r

    def _rmul(self, c):
        poly = Poly({k: v * c for k, v in self.items()})
        poly.set_keyfor(self.keyfor)
        poly.remove_zero()
        return poly

    def _exact(self, other):
        return isinstance(other, Poly) and tuple(self.keyfor) == tuple(other.keyfor)

    def _merge(self, other):
        if not self.is_exact_type(other):
            raise NotImplementedError("The operands must be Polys having the same 'keyfor' attribute.")
        for k, v in list(other.items()):
            total = self.get(k, 0) + v
            self[k] = total
        for k in [k for k, v in self.items() if v == 0]:
            self.pop(k)

    Poly.__mul__, Poly.__pow__, Poly.__rmul__, Poly.is_exact_type, Poly.merge = _mul, _pow, _rmul, _exact, _merge
''',
'utils.py': '''
    def fZ(l, o, p, q, k, s, J):
        if len(l) == 0:
            return 1
        if len(J) == 0:
            return 0
        from itertools import product
        return sum(fZ_each_index(l, o, p, q, k, s, J, list(i)) for i in product(range(len(J)), repeat=len(l)))

    def multilevel_index(n, m, show=False):
        from itertools import product
        out = [list(i) for i in product(range(m), repeat=n)]
        if show:
            for i in out:
                print(i)
        return out

    def dbfactorial(n):
        f = 1
        while n > 1:
            f, n = f * n, n - 2
        return f

    def comb(n, ns):
        f = math.factorial(n)
        for k in ns:
            f //= math.factorial(k)
        return f // math.factorial(n - sum(ns))
''',
'ito_mom.py': '''
    def c_nmi(n, m, i):
        from math import factorial
        return Frac((-1) ** i * factorial(m) // factorial(m - i), n ** (i + 1))

    def moment_IEII(n3, n4, n5):
        """every moment kept in a table, by need"""
        if min(n3, n4, n5) < 0:
            raise ValueError(f"moment_IEII({n3},{n4},{n5}) is called!")
        table = {}

        class Table(dict):
            def __missing__(self, key):
                if sum(key) <= 2:
                    r = _plain(*key)
                else:
                    r = recursive_IEII(*key, self)
                    r.remove_zero()
                self[key] = r
                return r
        return Table()[(n3, n4, n5)]
''',
'mdl_svvj/euler.py': '''
    def IZ(t, jumpsize, jumptime):
        return sum(z for z, s in zip(jumpsize, jumptime) if s <= t)

    def IEZ(t, jumpsize, jumptime, k):
        return sum(math.exp(k * s) * z for z, s in zip(jumpsize, jumptime) if s <= t)

    def incIEII(v0, t0, dt, k, theta, sigma):
        z_v, z_y = rng.normal(0, 1), rng.normal(0, 1)
        root = math.sqrt(v0 * dt)
        vt = max(v0 + k * (theta - v0) * dt + sigma * root * z_v, 0)
        return math.exp(k * t0) * root * z_v, root * z_v, root * z_y, vt
''',
'mdl_1fsvj/euler.py': '''
    def r1FSVJ(v0, par, N, n_segment=10, h=1):
        mu, k, theta, sigma, rho = (par[x] for x in ('mu', 'k', 'theta', 'sigma_v', 'rho'))
        lmbd, mu_j, sigma_j = par['lambda'], par['mu_j'], par['sigma_j']
        dlt = h / n_segment
        y = np.empty(N)
        for i in range(N):
            count = np.random.poisson(lmbd * h)
            total = mu * h + sum(np.random.normal(mu_j, sigma_j) for _ in range(count))
            noise = np.random.normal(0, math.sqrt(dlt), (n_segment, 2))
            for a, b in noise:
                root = math.sqrt(v0)
                total += -v0 * dlt / 2 + rho * root * a + math.sqrt(1 - rho ** 2) * root * b
                v0 = max(v0 + k * (theta - v0) * dlt + sigma * root * a, 0)
            y[i] = total
        return y
''',
'mdl_1fsv/mom.py': '''
    def poly2num(poly, par):
        k, h, mu, theta, sigma_v, rho = (par[x] for x in ('k', 'h', 'mu', 'theta', 'sigma_v', 'rho'))
        base = (math.exp(-k * h), h, 1 / k, mu, theta, sigma_v, rho, math.sqrt(1 - rho ** 2))
        return math.fsum(float(v) * math.prod(b ** e for b, e in zip(base, key)) for key, v in poly.items())
''',
'cpp_mom.py': '''
    def mnorm(n):
        if n < 0:
            raise ValueError(f"mnorm(n): order of the moment is {n} which must be > 0!")
        poly = Poly({(n - 2 * j, j): math.comb(n, 2 * j) * math.prod(range(1, 2 * j, 2)) for j in range(n // 2 + 1)})
        poly.set_keyfor(['mu', 'sigma^2'])
        return poly
''',
}
PRE = {'ito_mom.py': '_plain = moment_IEII\n'}


def main(out):
    out = Path(out)
    shutil.rmtree(out / 'src', ignore_errors=True)
    shutil.copytree('/repo/src', out / 'src', ignore=shutil.ignore_patterns('__pycache__'))
    for name, code in NEW.items():
        f = out / 'src/ajdmom' / name
        text = f.read_text()
        main_block = text.find("\nif __name__ ==")
        code = '\n\n' + PRE.get(name, '') + textwrap.dedent(code)
        text = text + code if main_block < 0 else text[:main_block] + code + text[main_block:]
        f.write_text(text)
    print(out / 'src')


if __name__ == '__main__':
    main(sys.argv[1])
