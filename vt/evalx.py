"""Numeric evaluation of terms (mpmath, 30 digits)."""
from __future__ import annotations
import mpmath as mp
from .expr import *

mp.mp.dps = 30


class Undef(Exception):
    pass


UF = {}  # name -> python callable on mpf: interpretation of assumed library functions


def evalx(e, env):
    cache = {}
    bound = {}

    def go(x):
        if x.op == "c":
            f = x.args[0]
            return mp.mpf(f.numerator) / f.denominator if f.denominator != 1 else mp.mpf(f.numerator)
        dep = bool(bound) and any(v in bound for v in fv(x))
        if not dep and x in cache:
            return cache[x]
        r = _go(x)
        if not dep:
            cache[x] = r
        return r

    def idx(a):
        return int(go(a))

    def _go(x):
        op = x.op
        if op == "v":
            if x in bound:
                return bound[x]
            v = env[x.args[0]]
            return mp.mpf(v) if not isinstance(v, bool) else v
        if op == "nonfin":
            raise Undef(x.args[0])
        if op == "el":
            a = env[x.args[0]]
            ix = tuple(idx(t) for t in x.args[1:])
            for t, s in zip(ix, a.shape):
                if t < 0 or t >= s:
                    raise Undef("index")
            return mp.mpf(float(a[ix]))
        if op == "add":
            return mp.fsum(go(a) for a in x.args)
        if op == "mul":
            r = mp.mpf(1)
            for a in x.args:
                r *= go(a)
            return r
        if op == "pow":
            b, p = go(x.args[0]), go(x.args[1])
            if b == 0 and p < 0:
                raise Undef("0^neg")
            if b < 0 and p != int(p):
                raise Undef("neg^frac")
            return mp.power(b, p) if p != int(p) else b ** int(p)
        if op == "fn":
            n = x.args[0]
            a = [go(t) for t in x.args[1:]]
            if n == "exp":
                return mp.exp(a[0])
            if n == "log":
                if a[0] <= 0:
                    raise Undef("log")
                return mp.log(a[0])
            if n == "gammaln":
                return mp.loggamma(a[0])
            if n == "polygamma":
                return mp.polygamma(int(a[0]), a[1])
            if n == "abs":
                return abs(a[0])
            if n == "sign":
                return mp.sign(a[0])
            if n == "floor":
                return mp.floor(a[0])
            if n == "fdiv":
                return mp.floor(a[0] / a[1])
            if n == "mod":
                return a[0] - a[1] * mp.floor(a[0] / a[1])
            if n == "min":
                return min(a)
            if n == "max":
                return max(a)
            if n == "pi":
                return mp.pi
            if n == "normcdf":
                return mp.ncdf(a[0])
            if n == "normppf":
                if not 0 < a[0] < 1:
                    raise Undef("normppf")
                return mp.sqrt(2) * mp.erfinv(2 * a[0] - 1)
            if n == "gammacdf":
                return mp.gammainc(a[0], 0, a[1], regularized=True)
            if n in UF:
                return UF[n](*a)
            raise NotImplementedError(n)
        if op == "sum":
            b, n, body = x.args
            k = int(go(n))
            tot = mp.mpf(0)
            for t in range(k):
                bound[b] = mp.mpf(t)
                tot += go(body)
            bound.pop(b, None)
            return tot
        if op == "all":
            b, n, body = x.args
            k = int(go(n))
            ok = True
            for t in range(k):
                bound[b] = mp.mpf(t)
                ok = ok and go(body)
            bound.pop(b, None)
            return ok
        if op == "ite":
            return go(x.args[1]) if go(x.args[0]) else go(x.args[2])
        if op == "le":
            return go(x.args[0]) <= 0
        if op == "lt":
            return go(x.args[0]) < 0
        if op == "eq":
            return abs(go(x.args[0])) < mp.mpf(10) ** -25
        if op == "not":
            return not go(x.args[0])
        if op == "and":
            return all(go(a) for a in x.args)
        if op == "or":
            return any(go(a) for a in x.args)
        if op == "true":
            return True
        if op == "false":
            return False
        raise NotImplementedError(op)

    return go(e)
