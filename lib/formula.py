"""Common bodies: derived formula against oracle, scalar value against formula."""
import contextlib
import io

import mpmath
from mpmath import mpf

from decode import Decoder, Undecodable
from harness import Violation, call, ensure, load
from oracle import M

REL = mpf(10) ** -26
FLOOR = mpf(10) ** -45
FLOAT_REL = mpf(10) ** -9

_cache = {}


def derive(mod, fn, *args):
    """the formula, derived once per process"""
    key = (mod, fn, args)
    if key not in _cache:
        _cache[key] = call(f'{mod}.{fn}{args}', getattr(load(mod), fn), *args)
    return _cache[key]


def derive_shown(mod, fn, *args):
    """the formula, derived with progress messages, which are dropped"""
    key = (mod, fn, args, 'show')
    if key not in _cache:
        with contextlib.redirect_stdout(io.StringIO()):
            _cache[key] = call(f'{mod}.{fn}{args} with show=True', getattr(load(mod), fn), *args, show=True)
    return _cache[key]


def decoded(what, poly, par, factors=1, dec=None):
    dec = dec or Decoder(par, factors)
    try:
        return dec(poly)
    except Undecodable as e:
        raise Violation(f'{what}: not readable as the formula its keyfor documents: {e}')
    except (TypeError, ValueError, AttributeError, KeyError, IndexError, ZeroDivisionError) as e:
        raise Violation(f'{what}: not readable as the formula its keyfor documents: {type(e).__name__} {e}; '
                        f'{type(poly).__name__} keyfor={getattr(poly, "keyfor", None)} '
                        f'keys={list(poly)[:2] if hasattr(poly, "__iter__") else poly!r}')


def same(what, got, want, scale, rel=REL):
    tol = rel * (abs(scale) + abs(want)) + FLOOR
    if not abs(got - want) <= tol:
        raise Violation(f'{what}: formula gives {mpmath.nstr(got, 15)}, the model gives {mpmath.nstr(want, 15)}')


def same_float(what, got, want, scale, rel=FLOAT_REL):
    try:
        g = M(float(got))
    except Exception:
        raise Violation(f'{what} returned {got!r}, not a number')
    tol = rel * (abs(scale) + abs(want)) + mpf(10) ** -30
    if not abs(g - want) <= tol:
        raise Violation(f'{what} = {got!r}, its formula evaluates to {mpmath.nstr(want, 15)}')


def check_formula(what, poly, want, par, factors=1, dec=None):
    """returns (value, scale)"""
    v, s, n = decoded(what, poly, par, factors, dec)
    same(what, v, want, s)
    return v, s


def tuplify(par):
    """what a caller passes: jump vectors are documented as tuples"""
    return {k: tuple(v) if isinstance(v, list) else v for k, v in par.items()}
