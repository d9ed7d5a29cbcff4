"""What the real modules see instead of numpy / scipy / math when they are executed symbolically.

Every function dispatches: no symbolic argument -> the real library is called; otherwise the
symbolic semantics below (mathematical reals, see DESIGN.md) is used; anything not modelled
raises Unsupported (tool limit)."""
from __future__ import annotations
import builtins, math as _math, types, sys, os, importlib, warnings as _warnings
import numpy as _np
import scipy as _scp
import scipy.sparse, scipy.stats, scipy.special, scipy.linalg, scipy.optimize  # noqa
from fractions import Fraction
from .expr import *
from . import expr as X
from .tensor import *
from . import tensor as TT
from .tensor import T

import os as _os

REPO = _os.environ.get("VT_REPO", "/repo")
PYDIR = REPO + "/src/mssm/src/python"
ASSUMED = set()  # library contracts actually relied on in this run


def is_sym(x):
    if isinstance(x, T):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(is_sym(v) for v in x)
    if isinstance(x, dict):
        return builtins.any(is_sym(v) for v in x.values())
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return builtins.any(is_sym(v) for v in x.flat)
    return False


def anysym(args, kw):
    return builtins.any(is_sym(a) for a in args) or builtins.any(is_sym(a) for a in kw.values())


# ------------------------------------------------------------------ definedness
_defd = {}


def defd(e):
    r = _defd.get(e)
    if r is not None:
        return r
    op = e.op
    if op in ("c", "v", "el", "true", "false"):
        r = TRUE
    elif op == "nonfin":
        r = FALSE
    elif op == "pow":
        b, p = e.args
        r = defd(b)
        if p.op == "c":
            q = p.args[0]
            if q.denominator != 1:
                r = and_(r, lt(ZERO, b) if q < 0 else le(ZERO, b))
            elif q < 0:
                r = and_(r, not_(eq(b, ZERO)))
        else:
            r = and_(r, defd(p), lt(ZERO, b))
    elif op == "fn":
        r = and_(*[defd(a) for a in e.args[1:]])
        if e.args[0] == "log":
            r = and_(r, lt(ZERO, e.args[1]))
        if e.args[0] == "gammaln":
            r = and_(r, lt(ZERO, e.args[1]))
    elif op == "ite":
        r = and_(or_(not_(e.args[0]), defd(e.args[1])), or_(e.args[0], defd(e.args[2])))
    elif op in ("sum", "all"):
        b, n, body = e.args
        d = defd(body)
        t = fresh("d")
        r = all_(t, n, subst(d, {b: t}))
    else:
        r = and_(*[defd(a) for a in e.args if isinstance(a, E)])
    _defd[e] = r
    return r


# ------------------------------------------------------------------ numpy
SYM = {}


def sym(*names):
    def deco(f):
        for n in names:
            SYM[n] = f
        return f

    return deco


def unary(name, f, dtype="R"):
    SYM[name] = lambda x, *a, **k: un_(f, x, dtype)


unary("exp", lambda e: fn("exp", e))
unary("log", lambda e: fn("log", e))
unary("log1p", lambda e: fn("log", X.add(ONE, e)))
unary("expm1", lambda e: X.sub(fn("exp", e), ONE))
unary("sqrt", lambda e: X.power(e, HALF))
unary("square", lambda e: X.power(e, const(2)))
unary("abs", absE)
unary("absolute", absE)
unary("fabs", absE)
unary("sign", lambda e: ite(lt(ZERO, e), ONE, ite(lt(e, ZERO), MONE, ZERO)))
unary("negative", X.neg)
unary("reciprocal", lambda e: X.power(e, MONE))


def _resolved(x, flip):
    """definedness of every entry, decided once for a generic index where that is provable"""
    t = lift(x)
    f = t.fn_frozen()
    r = T(t.shape_, (lambda *i: not_(defd(f(*i)))) if flip else (lambda *i: defd(f(*i))), "B")
    r.mask = t.mask
    if TT.Path.cur is not None:
        idx = [ZERO if s is ONE else fresh("nn") for s in t.shape_]
        d = defd(f(*idx))
        if d is not TRUE and d is not FALSE:
            c = TT.Path.cur.ctx.child(*[q for i, s in zip(idx, t.shape_) if s is not ONE for q in (le(ZERO, i), lt(i, s))])
            if t.mask is not None:
                try:
                    c = c.child(t.mask.fn(*idx))
                except Exception:
                    pass
            from .norm import prove

            if prove(d, c, 800):
                r = T(t.shape_, lambda *i: FALSE if flip else TRUE, "B")
                r.mask = t.mask
    return TT.demote(r) if r.mask is None else r


SYM["isnan"] = lambda x, *a, **k: _resolved(x, True)
SYM["isinf"] = lambda x, *a, **k: _resolved(x, True)
SYM["isfinite"] = lambda x, *a, **k: _resolved(x, False)
unary("logical_not", not_, "B")
unary("floor", lambda e: fn("floor", e))


def binary(name, f, dtype=None):
    SYM[name] = lambda a, b, *r, **k: bin_(f, a, b, dtype)


binary("add", X.add)
binary("subtract", X.sub)
binary("multiply", X.mul)
binary("divide", X.div, "R")
binary("true_divide", X.div, "R")
binary("power", X.power)
binary("pow", X.power)
binary("maximum", lambda a, b: ite(le(b, a), a, b))
binary("minimum", lambda a, b: ite(le(a, b), a, b))
binary("logical_and", and_, "B")
binary("logical_or", or_, "B")
binary("equal", X.eq, "B")
binary("not_equal", lambda a, b: not_(X.eq(a, b)), "B")
binary("less", X.lt, "B")
binary("less_equal", X.le, "B")
binary("greater", lambda a, b: X.lt(b, a), "B")
binary("greater_equal", lambda a, b: X.le(b, a), "B")
binary("mod", lambda a, b: fold_int("mod", a, b))
binary("floor_divide", lambda a, b: fold_int("fdiv", a, b))


def _shape(s):
    if isinstance(s, (T, int, _np.integer)):
        return (s,)
    return tuple(s)


def filled(shape, v, dtype="R"):
    return T(_shape(shape), lambda *i: v, dtype)


@sym("zeros")
def _zeros(shape, dtype=None, **k):
    return filled(shape, ZERO)


@sym("ones")
def _ones(shape, dtype=None, **k):
    return filled(shape, ONE)


@sym("empty")
def _empty(shape, dtype=None, **k):
    u = f"uninit{next(X._fresh)}"
    return T(_shape(shape), lambda *i: el(u, *i))


@sym("full")
def _full(shape, v, **k):
    return filled(shape, lift(v).scalarE())


@sym("zeros_like")
def _zl(a, dtype=None, **k):
    return filled(lift(a).shape_, ZERO)


@sym("ones_like")
def _ol(a, dtype=None, **k):
    return filled(lift(a).shape_, ONE)


@sym("full_like")
def _fl(a, v, **k):
    return filled(lift(a).shape_, lift(v).scalarE())


@sym("identity", "eye")
def _eye(n, m=None, k=0, **kw):
    m = n if m is None else m
    return T((n, m), lambda i, j: ite(X.eq(X.add(i, const(k)), j), ONE, ZERO))


@sym("arange")
def _arange(*a, **k):
    a = [lift(x).scalarE() for x in a]
    if len(a) == 1:
        a = [ZERO, a[0]]
    if len(a) == 3:
        raise Unsupported("arange step")
    s, e = a
    return T((X.sub(e, s),), lambda i: X.add(s, i), "I")


@sym("array", "asarray", "ascontiguousarray", "asfortranarray")
def _array(x, *a, **k):
    if isinstance(x, T):
        return x.copy()
    return lift(x)


@sym("atleast_1d")
def _atleast_1d(x):
    x = lift(x)
    return x if x.ndim else x.reshape(1)


@sym("flip")
def _flip(x, axis=None):
    x = lift(x)
    ax = range(x.ndim) if axis is None else ([axis] if isinstance(axis, int) else list(axis))
    ax = {a % x.ndim for a in ax}
    f, sh = x.fn_frozen(), x.shape_
    return T(sh, lambda *i: f(*[X.sub(X.sub(sh[d], ONE), q) if d in ax else q for d, q in enumerate(i)]), x.dtype_)


@sym("copy")
def _copy(x):
    return lift(x).copy()


@sym("sum")
def _sum(a, axis=None, keepdims=False, **k):
    return sum_axis(lift(a), axis, keepdims)


@sym("mean", "average")
def _mean(a, axis=None, **k):
    return lift(a).mean(axis)


@sym("prod")
def _prod(a, axis=None, **k):
    return lift(a).prod(axis)


@sym("any")
def _any(a, **k):
    return any_(a)


@sym("all")
def _all(a, **k):
    return allt(a)


@sym("max", "amax", "nanmax")
def _max(a, axis=None, **k):
    return reduce_minmax(a, "max", axis)


@sym("min", "amin", "nanmin")
def _min(a, axis=None, **k):
    return reduce_minmax(a, "min", axis)


@sym("dot", "matmul")
def _dot(a, b, **k):
    return matmul(a, b)


@sym("inner", "vdot")
def _inner(a, b):
    return matmul(lift(a).flatten(), lift(b).flatten())


@sym("outer")
def _outer(a, b):
    return lift(a).flatten().reshape(-1, 1) * lift(b).flatten().reshape(1, -1)


@sym("transpose")
def _tr(a):
    return lift(a).T


@sym("reshape")
def _rs(a, s, **k):
    return reshape(a, s if isinstance(s, (tuple, list)) else (s,))


@sym("ravel")
def _rv(a):
    return lift(a).flatten()


@sym("squeeze")
def _sq(a, axis=None):
    a = lift(a)
    return reshape(a, [d for d in a.shape_ if d is not ONE])


@sym("expand_dims")
def _ed(a, axis):
    a = lift(a)
    s = list(a.shape_)
    s.insert(axis if axis >= 0 else axis + len(s) + 1, ONE)
    return reshape(a, s)


@sym("where")
def _where(c, *ab):
    if not ab:
        raise Unsupported("where(cond)")
    c, a, b = lift(c), lift(ab[0]), lift(ab[1])
    sh = bcast([c.shape_, a.shape_, b.shape_])
    n = len(sh)
    fc, fa, fb = c.fn_frozen(), a.fn_frozen(), b.fn_frozen()
    return T(sh, lambda *i: ite(fc(*bidx(c.shape_, n, i)), fa(*bidx(a.shape_, n, i)), fb(*bidx(b.shape_, n, i))), "I" if a.dtype_ in "IB" and b.dtype_ in "IB" else "R")


@sym("clip")
def _clip(a, lo, hi):
    r = lift(a)
    if lo is not None:
        r = SYM["maximum"](r, lo)
    if hi is not None:
        r = SYM["minimum"](r, hi)
    return r


@sym("insert")
def _insert(a, at, values, axis=None):
    a, v = lift(a), lift(values)
    if axis is None or not isinstance(at, int):
        raise Unsupported("insert with these arguments")
    ax = axis % a.ndim
    if v.ndim == a.ndim - 1:
        v = v[tuple([slice(None)] * ax + [None])]
    sl = lambda q: tuple([slice(None)] * ax + [q])
    n = a.shape[ax]
    parts = ([a[sl(slice(0, at))]] if at > 0 else []) + [v] + ([a[sl(slice(at, n))]] if at < n else [])
    return _concat(parts, axis=ax)


@sym("concatenate")
def _concat(xs, axis=0, **k):
    xs = [lift(x) for x in xs]
    nd = xs[0].ndim
    ax = axis % nd
    tot = X.add(*[x.shape_[ax] for x in xs])
    for x in xs[1:]:
        if x.ndim != nd or not builtins.all(q == ax or same_dim(x.shape_[q], xs[0].shape_[q]) for q in range(nd)):
            raise ValueError("concatenate: dimensions must match")
    fs = [x.fn_frozen() for x in xs]
    offs, o = [], ZERO
    for x in xs:
        offs.append(o)
        o = X.add(o, x.shape_[ax])

    def g(*i):
        t = i[ax]
        if t.op == "c" and builtins.all(o.op == "c" for o in offs) and tot.op == "c":
            for q in range(len(xs) - 1, -1, -1):
                if t.args[0] >= offs[q].args[0]:
                    return fs[q](*i[:ax], X.sub(t, offs[q]), *i[ax + 1 :])
        r = fs[-1](*i[:ax], X.sub(t, offs[-1]), *i[ax + 1 :])
        for q in range(len(xs) - 2, -1, -1):
            r = ite(lt(t, offs[q + 1]), fs[q](*i[:ax], X.sub(t, offs[q]), *i[ax + 1 :]), r)
        return r

    sh = list(xs[0].shape_)
    sh[ax] = tot
    dt = "R" if builtins.any(x.dtype_ == "R" for x in xs) else xs[0].dtype_
    return T(sh, g, dt)


@sym("hstack")
def _hs(xs):
    xs = [lift(x) for x in xs]
    return _concat(xs, 0 if xs[0].ndim == 1 else 1)


@sym("vstack")
def _vs(xs):
    xs = [lift(x) for x in xs]
    return _concat([x.reshape(1, -1) if x.ndim == 1 else x for x in xs], 0)


@sym("column_stack")
def _cs(xs):
    xs = [lift(x) for x in xs]
    return _concat([x.reshape(-1, 1) if x.ndim == 1 else x for x in xs], 1)


@sym("append")
def _app(a, b, axis=None):
    if axis is None:
        return _concat([lift(a).flatten(), lift(b).flatten()])
    return _concat([a, b], axis)


@sym("split")
def _split(a, idx, axis=0):
    a = lift(a)
    out = []
    if isinstance(idx, (int, _np.integer)):
        n = a.shape_[axis]
        if n.op != "c":
            raise Unsupported("split into equal parts")
        k = int(n.args[0]) // idx
        idx = [k * q for q in range(1, idx)]
    prev = 0
    pts = list(idx) + [None]
    for p in pts:
        s = slice(prev, p)
        out.append(a[s] if axis == 0 else a[:, s])
        prev = p
    return out


@sym("diff")
def _diff(a, n=1, axis=-1):
    a = lift(a)
    for _ in range(int(n)):
        ax = axis % a.ndim
        f = a.fn_frozen()
        sh = list(a.shape_)
        sh[ax] = X.sub(sh[ax], ONE)
        a = T(sh, lambda *i, f=f, ax=ax: X.sub(f(*i[:ax], X.add(i[ax], ONE), *i[ax + 1 :]), f(*i)), a.dtype_)
    return a


@sym("diag")
def _diag(a, k=0):
    a = lift(a)
    f = a.fn_frozen()
    if a.ndim == 1:
        return T((a.shape_[0],) * 2, lambda i, j: ite(X.eq(i, j), f(i), ZERO))
    return a.diagonal()


@sym("trace")
def _trace(a):
    return lift(a).trace()


@sym("tile")
def _tile(a, reps):
    a = lift(a)
    f = a.fn_frozen()
    if isinstance(reps, (tuple, list)):
        if len(reps) == 2 and a.ndim <= 2:
            if a.ndim == 1:
                a = a.reshape(1, -1)
                f = a.fn_frozen()
            sh = tuple(X.mul(dimE(r), s) for r, s in zip(reps, a.shape_))
            s0, s1 = a.shape_
            return T(sh, lambda i, j: f(fold_mod(i, s0), fold_mod(j, s1)), a.dtype_)
        raise Unsupported("tile")
    r = dimE(reps)
    if a.ndim == 0:
        return T((r,), lambda i: f(), a.dtype_)
    n = a.shape_[-1]
    if a.ndim > 1:
        raise Unsupported("tile nd")
    return T((X.mul(r, n),), lambda i: f(fold_mod(i, n)), a.dtype_)


def fold_mod(i, n):
    if n is ONE:
        return ZERO
    return fold_int("mod", i, n)


@sym("repeat")
def _repeat(a, r, axis=None):
    a = lift(a)
    if axis is not None or a.ndim > 1:
        raise Unsupported("repeat nd")
    f = a.fn_frozen()
    rr = lift(r)
    if rr.ndim > 0:
        raise Unsupported("repeat by array")
    n = rr.scalarE()
    if a.ndim == 0:
        return T((n,), lambda i: f(), a.dtype_)
    return T((X.mul(a.shape_[0], n),), lambda i: f(fold_int("fdiv", i, n)), a.dtype_)


@sym("delete")
def _delete(a, obj, axis=None):
    a = lift(a)
    n = a.shape_[axis if axis is not None else 0]
    if n.op == "c":
        objs = [int(o) for o in (obj if isinstance(obj, (list, tuple, _np.ndarray)) else [obj])]
        N = int(n.args[0])
        keep = [q for q in range(N) if q not in [o % N for o in objs]]
        if axis in (None, 0):
            return a[keep]
        return a[:, keep]
    k = lift(obj)
    if k.ndim != 0:
        raise Unsupported("delete many")
    e = k.scalarE()
    f = a.fn_frozen()
    ax = axis if axis is not None else 0
    sh = list(a.shape_)
    sh[ax] = X.sub(sh[ax], ONE)
    return T(sh, lambda *i: ite(lt(i[ax], e), f(*i), f(*i[:ax], X.add(i[ax], ONE), *i[ax + 1 :])), a.dtype_)


@sym("ix_")
def _ix(*a):
    out = []
    for k, v in enumerate(a):
        v = lift(v)
        sh = [ONE] * len(a)
        sh[k] = v.shape_[0]
        out.append(reshape(v, sh))
    return tuple(out)


@sym("cumsum")
def _cumsum(a, axis=None):
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported("cumsum nd")
    if a.concrete():
        out, s = [], T((), lambda: ZERO, a.dtype_)
        for x in a:
            s = s + x
            out.append(s)
        return from_list(out)
    f = a.fn_frozen()

    def g(i):
        t = fresh("c")
        return sum_(t, X.add(i, ONE), f(t))

    return T(a.shape_, g, a.dtype_)


@sym("einsum")
def _einsum(spec, *ops, **k):
    ops = [lift(o) for o in ops]
    lhs, rhs = spec.replace(" ", "").split("->")
    dims = {}
    for s, o in zip(lhs.split(","), ops):
        for c, d in zip(s, o.shape_):
            dims.setdefault(c, d)
    bound = [c for c in dims if c not in rhs]

    def g(*i):
        env = dict(zip(rhs, i))

        def rec(bs):
            if not bs:
                return X.mul(*[o.fn(*[env[c] for c in s]) for s, o in zip(lhs.split(","), ops)])
            c = bs[0]
            if dims[c].op == "c":
                r = ZERO
                for q in range(int(dims[c].args[0])):
                    env[c] = const(q)
                    r = X.add(r, rec(bs[1:]))
                return r
            t = fresh("e")
            env[c] = t
            return sum_(t, dims[c], rec(bs[1:]))

        return rec(bound)

    return T([dims[c] for c in rhs], g)


@sym("linspace")
def _linspace(a, b, num=50, **k):
    if k:
        raise Unsupported("linspace options")
    n = int(num)
    a, b = lift(a), lift(b)
    if a.ndim or b.ndim:
        raise Unsupported("linspace of arrays")
    if n == 1:
        return from_list([a])
    return from_list([a + (b - a) * T((), lambda q=q: const(Fraction(q, n - 1))) for q in range(n)])


@sym("isin")
def _isin(a, b, **k):
    a, b = lift(a), lift(b)
    if not b.concrete():
        raise Unsupported("isin")
    vals = [b.fn(*i) for i in all_idx(b)]
    return un_(lambda e: or_(*[X.eq(e, v) for v in vals]), a, "B")


@sym("array_equal")
def _ae(a, b):
    return allt(lift(a) == lift(b))


@sym("ndim")
def _nd(a):
    return lift(a).ndim


@sym("isscalar")
def _iss(a):
    return False if not isinstance(a, T) else a.ndim == 0


# allocations inside a symbolic run may later receive symbolic entries
ALWAYS = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "full_like", "identity", "eye"}


class Disp:
    """np.<name>: real when nothing symbolic is involved."""

    def __init__(self, name, real, table):
        self.name, self.real, self.table = name, real, table
        self.__name__ = name

    def __call__(self, *a, **k):
        if not anysym(a, k) and not (self.name in ALWAYS and TT.Path.cur is not None and self.table is SYM):
            return self.real(*a, **k)
        f = self.table.get(self.name)
        if f is None:
            raise Unsupported(f"{self.name} on symbolic data")
        return f(*a, **k)

    def __getattr__(self, n):
        r = getattr(self.real, n)
        return r


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (T, _np.ndarray)) and not (isinstance(x, T) and x.ndim == 0)


class ndarray(metaclass=_NDMeta):
    @staticmethod
    def flatten(x):
        return x.flatten()


class _Np(types.ModuleType):
    def __getattr__(self, name):
        real = getattr(_np, name)
        if name == "ndarray":
            return ndarray
        if name == "linalg":
            return _NpLinalg("linalg")
        if name == "random":
            return real
        if isinstance(real, type) or not callable(real):
            if name == "pi" and TT.Path.cur is not None:
                return T((), lambda: fn("pi"), "R")
            return real
        d = Disp(name, real, SYM)
        self.__dict__[name] = d
        return d


class _NpLinalg(types.ModuleType):
    def __getattr__(self, name):
        return Disp("linalg." + name, getattr(_np.linalg, name), SYM)


np = _Np("numpy")


@sym("linalg.norm")
def _norm(x, ord=None, *a, **k):
    """Euclidean/Frobenius norm"""
    if ord is not None or a or k:
        raise Unsupported("norm with options")
    x = lift(x)
    return SYM["sqrt"]((x * x).sum())


# ------------------------------------------------------------------ math
class _Math(types.ModuleType):
    def __getattr__(self, name):
        real = getattr(_math, name)
        if not callable(real):
            if name == "pi" and TT.Path.cur is not None:
                return T((), lambda: fn("pi"), "R")
            return real
        nm = {"fabs": "abs"}.get(name, name)
        return Disp(nm, real, SYM)


math = _Math("math")

# ------------------------------------------------------------------ scipy
PI = fn("pi")
LOG2PI = X.add(fn("log", const(2)), fn("log", PI))


def assumed(name):
    ASSUMED.add(name)


def ew(f):
    """lift an elementwise E-function of several arguments to tensors"""

    def g(*args):
        ts = [lift(a) for a in args]
        sh = bcast([t.shape_ for t in ts])
        n = len(sh)
        fs = [t.fn_frozen() for t in ts]
        masks = [t.mask for t in ts if t.mask is not None]
        r = T(sh, lambda *i: f(*[q(*bidx(t.shape_, n, i)) for q, t in zip(fs, ts)]))
        if masks:
            r.mask = masks[0]
        return r

    return g


def normlogpdfE(x, loc, scale):
    z = X.div(X.sub(x, loc), scale)
    return X.sub(X.sub(X.mul(const(-0.5), X.power(z, const(2))), fn("log", scale)), X.mul(HALF, LOG2PI))


def gammalogpdfE(x, a, scale):
    return X.add(
        X.mul(X.sub(a, ONE), fn("log", x)),
        X.neg(X.div(x, scale)),
        X.neg(X.mul(a, fn("log", scale))),
        X.neg(fn("gammaln", a)),
    )


def invgausslogpdfE(x, mu, scale):
    z = X.div(x, scale)
    return X.add(
        X.mul(const(-0.5), X.add(LOG2PI, X.mul(const(3), fn("log", z)))),
        X.neg(X.div(X.power(X.sub(z, mu), const(2)), X.mul(const(2), z, X.power(mu, const(2))))),
        X.neg(fn("log", scale)),
    )


def poissonlogpmfE(k, mu):
    return X.sub(X.sub(X.mul(k, fn("log", mu)), mu), fn("gammaln", X.add(k, ONE)))


def binomlogpmfE(k, n, p):
    return X.add(
        fn("gammaln", X.add(n, ONE)),
        X.neg(fn("gammaln", X.add(k, ONE))),
        X.neg(fn("gammaln", X.add(X.sub(n, k), ONE))),
        X.mul(k, fn("log", p)),
        X.mul(X.sub(n, k), fn("log", X.sub(ONE, p))),
    )


class Dist:
    def __init__(self, name, real):
        self._n, self._r = name, real

    def __getattr__(self, m):
        real = getattr(self._r, m)

        def call(*a, **k):
            if not anysym(a, k):
                return real(*a, **k)
            f = getattr(self, "S_" + m, None) if False else STATS.get((self._n, m))
            if f is None:
                raise Unsupported(f"scipy.stats.{self._n}.{m}")
            assumed(f"scipy.stats.{self._n}.{m}")
            return f(*a, **k)

        return call


STATS = {
    ("norm", "logpdf"): lambda x, loc=0, scale=1: ew(normlogpdfE)(x, loc, scale),
    ("norm", "pdf"): lambda x, loc=0, scale=1: ew(lambda *a: fn("exp", normlogpdfE(*a)))(x, loc, scale),
    ("norm", "logcdf"): lambda x, loc=0, scale=1: ew(lambda x, l, s: fn("log", fn("normcdf", X.div(X.sub(x, l), s))))(x, loc, scale),
    ("norm", "cdf"): lambda x, loc=0, scale=1: ew(lambda x, l, s: fn("normcdf", X.div(X.sub(x, l), s)))(x, loc, scale),
    ("norm", "ppf"): lambda q, loc=0, scale=1: ew(lambda q, l, s: X.add(l, X.mul(s, fn("normppf", q))))(q, loc, scale),
    ("gamma", "logpdf"): lambda x, a, loc=0, scale=1: ew(lambda x, a, l, s: gammalogpdfE(X.sub(x, l), a, s))(x, a, loc, scale),
    ("gamma", "pdf"): lambda x, a, loc=0, scale=1: ew(lambda x, a, l, s: fn("exp", gammalogpdfE(X.sub(x, l), a, s)))(x, a, loc, scale),
    ("gamma", "logcdf"): lambda x, a, loc=0, scale=1: ew(lambda x, a, l, s: fn("log", fn("gammacdf", a, X.div(X.sub(x, l), s))))(x, a, loc, scale),
    ("invgauss", "logpdf"): lambda x, mu, loc=0, scale=1: ew(lambda x, m, l, s: invgausslogpdfE(X.sub(x, l), m, s))(x, mu, loc, scale),
    # argument >= 0 (the code passes squares)
    ("expon", "logpdf"): lambda x, loc=0, scale=1: ew(lambda x, l, s: X.neg(X.add(X.div(X.sub(x, l), s), fn("log", s))))(x, loc, scale),
    ("expon", "logcdf"): lambda x, loc=0, scale=1: ew(lambda x, l, s: fn("log", X.sub(ONE, fn("exp", X.neg(X.div(X.sub(x, l), s))))))(x, loc, scale),
    ("poisson", "logpmf"): lambda k, mu, loc=0: ew(poissonlogpmfE)(k, mu),
    ("binom", "logpmf"): lambda k, n, p, loc=0: ew(binomlogpmfE)(k, n, p),
}


class _Stats(types.ModuleType):
    def __getattr__(self, name):
        return Dist(name, getattr(_scp.stats, name))


SPECIAL = {
    "gammaln": lambda x: un_(lambda e: fn("gammaln", e), x, "R"),
    "loggamma": lambda x: un_(lambda e: fn("gammaln", e), x, "R"),
    "digamma": lambda x: un_(lambda e: fn("polygamma", ZERO, e), x, "R"),
    "psi": lambda x: un_(lambda e: fn("polygamma", ZERO, e), x, "R"),
    "polygamma": lambda n, x: un_(lambda e: fn("polygamma", const(int(n)), e), x, "R"),
    "expit": lambda x: un_(lambda e: X.div(fn("exp", e), X.add(ONE, fn("exp", e))), x, "R"),
    "xlogy": lambda x, y: ew(lambda a, b: ite(X.eq(a, ZERO), ZERO, X.mul(a, fn("log", b))))(x, y),
    "logit": lambda x: un_(lambda e: fn("log", X.div(e, X.sub(ONE, e))), x, "R"),
}


class _Special(types.ModuleType):
    def __getattr__(self, name):
        real = getattr(_scp.special, name)
        if name in SPECIAL:
            assumed(f"scipy.special.{name}")
        return Disp(name, real, SPECIAL)


class _SpMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, T):
            return x.sp
        return _scp.sparse.issparse(x)

    def __call__(cls, arg, shape=None, **k):
        return make_sparse(arg, shape, cls._real)


def make_sparse(arg, shape, real):
    if not is_sym(arg) and not (shape is not None and is_sym(shape)):
        if shape is None:
            return real(arg)
        return real(arg, shape=shape)
    if isinstance(arg, T):
        r = arg.copy()
        r.sp = True
        return r
    if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)):
        data, (rows, cols) = lift(arg[0]), [lift(x) for x in arg[1]]
        n = data.shape_[0]
        fd, fr, fc = data.fn_frozen(), rows.fn_frozen(), cols.fn_frozen()
        if shape is None:
            if isinstance(arg[1][0], T) or not builtins.all(isinstance(q, (int, _np.integer)) for q in list(arg[1][0]) + list(arg[1][1])):
                raise Unsupported("csc without shape")
            shape = (builtins.max(arg[1][0]) + 1, builtins.max(arg[1][1]) + 1)

        def g(i, j):
            body = lambda k: ite(and_(X.eq(fr(k), i), X.eq(fc(k), j)), fd(k), ZERO)
            if n.op == "c":
                return X.add(*[body(const(k)) for k in range(int(n.args[0]))])
            t = fresh("z")
            return sum_(t, n, body(t))

        return T(shape, g, "R", True)
    if isinstance(arg, tuple) and len(arg) == 2:
        return T(arg, lambda i, j: ZERO, "R", True)
    raise Unsupported("sparse constructor")


class csc_array(metaclass=_SpMeta):
    _real = staticmethod(_scp.sparse.csc_array)


class csr_array(metaclass=_SpMeta):
    _real = staticmethod(_scp.sparse.csr_array)


class coo_array(metaclass=_SpMeta):
    _real = staticmethod(_scp.sparse.coo_array)


class csc_matrix(metaclass=_SpMeta):
    _real = staticmethod(_scp.sparse.csc_matrix)


def _sp_identity(n, *a, **k):
    r = _eye(n)
    r.sp = True
    return r


def _sp_diags(d, offsets=0, *a, **k):
    offsets = k.get("offsets", offsets)
    off = offsets if isinstance(offsets, (list, tuple)) else [offsets]
    if isinstance(d, (list, tuple)):
        ds = [lift(v) for v in d] if builtins.any(isinstance(v, T) and v.ndim == 1 for v in d) else [lift(d)]
    else:
        ds = [lift(d)]
    if len(ds) != len(off) or 0 not in off or builtins.any(v.ndim != 1 for v in ds):
        raise Unsupported("diags layout")
    n = ds[off.index(0)].shape_[0]
    fs = [(v.fn_frozen(), int(o)) for v, o in zip(ds, off)]

    def f(i, j):
        r = ZERO
        for g, o in fs:
            r = ite(eq(j, X.add(i, const(o))), g(i if o >= 0 else j), r)
        return r

    r = T((n, n), f, "R", True)
    if off == [0]:
        r.diag = fs[0][0]
    return r


def _sp_spdiags(d, dg, m=None, n=None, format=None):
    if m is not None or n is not None:
        raise Unsupported("spdiags with a shape")
    if list(dg) != [0]:
        raise Unsupported("spdiags off the diagonal")
    return _sp_diags(d, [0])


SPARSE = {
    "identity": _sp_identity,
    "eye": _sp_identity,
    "eye_array": _sp_identity,
    "diags": _sp_diags,
    "diags_array": _sp_diags,
    "spdiags": _sp_spdiags,
    "hstack": lambda xs, **k: _mark(_concat(xs, 1)),
    "vstack": lambda xs, **k: _mark(_concat(xs, 0)),
    "issparse": lambda x: x.sp,
    "kron": lambda a, b, *r, **k: _mark(_kron(a, b)),
}


def _mark(t):
    t.sp = True
    return t


class _Sparse(types.ModuleType):
    def __getattr__(self, name):
        if name in ("csc_array", "csr_array", "coo_array", "csc_matrix"):
            return globals()[name]
        return Disp(name, getattr(_scp.sparse, name), SPARSE)


LINALG = {}


def _khatri(a, b):
    """column-wise Kronecker product"""
    a, b = lift(a), lift(b)
    f, g, q = a.fn_frozen(), b.fn_frozen(), b.shape_[0]
    assumed("scipy.linalg.khatri_rao")
    return T((X.mul(a.shape_[0], q), a.shape_[1]), lambda i, j: X.mul(f(fold_int("fdiv", i, q), j), g(fold_int("mod", i, q), j)))


LINALG["linalg.khatri_rao"] = _khatri


def _inv(a, *r, **k):
    """inverse of a small square matrix, by cofactors (defined where the determinant is not zero)"""
    a = lift(a)
    n = a.shape_[0]
    if n.op != "c" or a.shape_[1] is not n or int(n.args[0]) > 4:
        raise Unsupported("inverse of a matrix of symbolic or large size")
    n = int(n.args[0])
    M = [[a.fn(const(i), const(j)) for j in range(n)] for i in range(n)]

    def det(rows, cols):
        if not rows:
            return const(1)
        i, rest = rows[0], rows[1:]
        return X.add(*[X.mul(const((-1) ** c), M[i][j], det(rest, cols[:c] + cols[c + 1:])) for c, j in enumerate(cols)])

    al = tuple(range(n))
    d = det(al, al)
    assumed("scipy.linalg.inv")
    C = [[X.div(X.mul(const((-1) ** (i + j)), det(al[:j] + al[j + 1:], al[:i] + al[i + 1:])), d) for j in range(n)] for i in range(n)]
    return lift(_np.array([[T((), (lambda e=C[i][j]: e)) for j in range(n)] for i in range(n)], dtype=object).tolist())


LINALG["linalg.inv"] = _inv


def _block(bl, format=None, **k):
    rows = []
    hs = [next(b.shape[0] for b in r if b is not None) for r in bl]
    ws = [next(r[c].shape[1] for r in bl if r[c] is not None) for c in range(len(bl[0]))]
    for r, h in zip(bl, hs):
        rows.append(_concat([_zeros((h, w)) if b is None else lift(b) for b, w in zip(r, ws)], 1))
    return _mark(_concat(rows, 0))


SPARSE["block_array"] = SPARSE["bmat"] = _block


@sym("kron")
def _kron(a, b):
    a, b = lift(a), lift(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron of vectors")
    f, g = a.fn_frozen(), b.fn_frozen()
    p, q = b.shape_
    return T((X.mul(a.shape_[0], p), X.mul(a.shape_[1], q)), lambda i, j: X.mul(f(fold_int("fdiv", i, p), fold_int("fdiv", j, q)), g(fold_int("mod", i, p), fold_int("mod", j, q))))


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        return Disp("linalg." + name, getattr(_scp.linalg, name), LINALG)


class _Scp(types.ModuleType):
    stats = _Stats("stats")
    special = _Special("special")
    sparse = _Sparse("sparse")
    linalg = _Linalg("linalg")

    def __getattr__(self, name):
        real = getattr(_scp, name)
        return _Guard(name, real)


class _Guard(types.ModuleType):
    """any other scipy subpackage: real on concrete data, tool limit on symbolic data"""

    def __init__(self, name, real):
        super().__init__(name)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        r = getattr(self._real, n)
        if callable(r) and not isinstance(r, type):
            return Disp(self.__name__ + "." + n, r, {})
        return r


scp = _Scp("scipy")


# ------------------------------------------------------------------ builtins
def _len(x):
    if isinstance(x, T):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return dimOut(x.shape_[0])
    return builtins.len(x)


def _float(x=0.0):
    if isinstance(x, T):
        e = x.scalarE()
        return T((), lambda: e)
    return builtins.float(x)


class _intmeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, T) and x.ndim == 0 and x.dtype_ == "I")

    def __call__(cls, x=0, *a):
        if isinstance(x, T):
            if x.dtype_ == "I":
                return x
            raise Unsupported("int() of a symbolic real")
        return builtins.int(x, *a)


class _floatmeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, T) and x.ndim == 0 and x.dtype_ == "R")

    def __call__(cls, x=0.0):
        return _float(x)


def _sum(xs, start=0):
    if isinstance(xs, T):
        return sum_axis(xs, 0)
    r = start
    for x in xs:
        r = r + x
    return r


def _minmax(name):
    real = getattr(builtins, name)

    def f(*a, **k):
        if not anysym(a, k):
            return real(*a, **k)
        if len(a) == 1:
            a = list(a[0])
        r = lift(a[0])
        for x in a[1:]:
            r = SYM["minimum" if name == "min" else "maximum"](r, x)
        return r

    return f


def _range(*a):
    if builtins.any(isinstance(x, T) for x in a):
        vals = []
        for x in a:
            if isinstance(x, T):
                e = x.scalarE()
                if e.op != "c":
                    raise Unsupported("loop over a symbolic range")
                vals.append(builtins.int(e.args[0]))
            else:
                vals.append(x)
        return builtins.range(*vals)
    return builtins.range(*a)


def _isinstance(x, c):
    if isinstance(x, T):
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if k in (builtins.float, _np.float64, _np.floating) and x.ndim == 0 and x.dtype_ == "R":
                return True
            if k in (builtins.int, _np.integer, _np.int64) and x.ndim == 0 and x.dtype_ == "I":
                return True
            if k is builtins.bool and x.ndim == 0 and x.dtype_ == "B":
                return True
            if isinstance(k, type) and builtins.isinstance(x, k):
                return True
        return False
    return builtins.isinstance(x, c)


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    len=_len,
    sum=_sum,
    min=_minmax("min"),
    max=_minmax("max"),
    range=_range,
    isinstance=_isinstance,
    print=lambda *a, **k: None,
    round=lambda x, *a: (_ for _ in ()).throw(Unsupported("round")) if isinstance(x, T) else builtins.round(x, *a),
)

# `float(x)`/`int(x)` calls on symbolic scalars; the type objects themselves stay usable
class _FloatProxy(builtins.float):
    def __new__(cls, x=0.0):
        if isinstance(x, T):
            return _float(x)
        return builtins.float(x)


class _IntProxy(builtins.int):
    def __new__(cls, x=0, *a):
        if isinstance(x, T):
            e = x.scalarE()
            if x.dtype_ == "I" or e.op == "c":
                return T((), lambda: e, "I") if e.op != "c" else builtins.int(e.args[0])
            raise Unsupported("int() of a symbolic real")
        return builtins.int(x, *a)


# ------------------------------------------------------------------ loader
class Stub(types.ModuleType):
    """C++ extension: callable only through an explicit contract."""

    def __init__(self, name, contracts):
        super().__init__(name)
        self.__dict__["_c"] = contracts

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = self._c.get(n)
        if f is None:
            def f(*a, **k):
                raise Unsupported(f"{self.__name__}.{n} has no contract")
        return f


EXT = ("hazard", "eigen_solvers", "davies", "dChol", "mcmc", "hsmm")


def modpath(name):
    return os.path.join(os.path.dirname(os.path.dirname(PYDIR)), "models.py") if name == "models" else f"{PYDIR}/{name}.py"


class World:
    """The real modules of /repo executed with symbolic numpy. `contracts` maps
    'ext.function' to a symbolic contract for C++ callees."""

    def __init__(self, contracts=None, overrides=None):
        self.mods = {}
        self.contracts = contracts or {}
        self.overrides = overrides or {}
        self.files = set()

    def mod(self, name):
        m = self.mods.get(name)
        if m is None:
            m = self._load(name)
        return m

    def _load(self, name):
        path = modpath(name)
        src = open(path, encoding="utf-8").read()
        self.files.add(path)
        m = types.ModuleType("vtsym." + name)
        m.__file__ = path
        m.__package__ = "vtsym"
        self.mods[name] = m
        sys.modules[m.__name__] = m
        b = dict(BUILTINS)
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        code = compile(src, path, "exec")
        exec(code, m.__dict__)
        for k, v in self.overrides.get(name, {}).items():
            m.__dict__[k] = v
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            base = name.split(".")[-1] if name else ""
            if base and os.path.exists(modpath(base)):
                return self.mod(base)
            if not base:  # from . import x
                ns = types.ModuleType("vtsym")
                for f in fromlist:
                    setattr(ns, f, self.mod(f))
                return ns
            raise Unsupported(f"import {name}")
        top = name.split(".")[0]
        if top == "numpy":
            return np
        if top == "scipy":
            if fromlist and "." in name:
                o = scp
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
                return o
            return scp
        if top == "math":
            return math
        if top in EXT:
            return Stub(top, {k.split(".", 1)[1]: v for k, v in self.contracts.items() if k.split(".")[0] == top})
        return builtins.__import__(name, globals, locals, fromlist, level)
