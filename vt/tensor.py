"""Symbolic n-d arrays: shape entries may be symbolic, an array is a function from indices to
terms.  Path forking happens when the code under contract asks for the truth value of a symbolic
boolean."""
from __future__ import annotations
import numpy as _np
import builtins
from .expr import *
from . import expr as X
from .norm import Ctx, prove, prove_zero, z3_unsat


class Unsupported(Exception):
    """The construct leaves the symbolic subset (a tool limit, never a verdict)."""


class Infeasible(Exception):
    pass


class PathLimit(Unsupported):
    pass


class Path:
    cur: "Path" = None

    def __init__(self, ctx, decisions):
        self.base = ctx
        self.ctx = ctx
        self.decisions = list(decisions)
        self.pos = 0
        self.trace = []  # (cond, value, forced)

    def decide(self, c):
        c = const(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        for k, v, _ in self.trace:
            if k is c:
                return v
            if k is not_(c):
                return not v
        # provable?
        if prove(c, self.ctx, 1500):
            self.trace.append((c, True, True))
            return True
        nc = neg_quant(c)
        if prove(nc, self.ctx, 1500):
            self.trace.append((c, False, True))
            return False
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.decisions.append(v)
        self.pos += 1
        self.trace.append((c, v, False))
        self.ctx = self.ctx.child(c if v else nc)
        return v


def neg_quant(c):
    return not_(c)


def engine_limit(ex):
    """an exception that says something about symbolic values (an operation they do not offer), not about the code:
    an attribute, type or index error raised inside the engine or a library, or naming a symbolic value. An error
    of the code itself also occurs when the contract runs on concrete values, where it is reported with its input"""
    if not isinstance(ex, (AttributeError, TypeError, NotImplementedError, IndexError, KeyError)):
        return False
    if isinstance(getattr(ex, "obj", None), T) or "'T'" in str(ex):
        return True
    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    return "/vt/" in f or "site-packages" in f or "/lib/python" in f


def explore(run, ctx, max_paths=160):
    """All feasible paths of run() -> [(ctx at end, result | exception)]"""
    out = []
    stack = [[]]
    while stack:
        dec = stack.pop()
        p = Path(ctx, dec)
        Path.cur, old = p, Path.cur
        try:
            try:
                r = ("ok", run(p))
            except Infeasible:
                r = None
            except Unsupported:
                raise
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except Exception as ex:  # raised by the code under contract
                if engine_limit(ex):
                    raise Unsupported(f"{type(ex).__name__}: {ex}") from ex
                r = ("raise", ex)
        finally:
            Path.cur = old
        if r is not None:
            out.append((p.ctx, r, p))
        # schedule alternatives for decisions made beyond the prefix
        for k in range(len(dec), len(p.decisions)):
            stack.append(p.decisions[:k] + [not p.decisions[k]])
        if len(out) + len(stack) > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
    return out


def dimE(d):
    if isinstance(d, T):
        if d.shape != ():
            if builtins.all(s is ONE for s in d.shape):
                return d.fn(*[ZERO] * len(d.shape))
            raise Unsupported("array used as a dimension")
        return d.fn()
    if isinstance(d, E):
        return d
    return const(int(d))


def dimOut(e):
    if e.op == "c":
        return int(e.args[0])
    return T((), lambda: e, "I")


def same_dim(a, b):
    if a is b:
        return True
    if a.op == "c" and b.op == "c":
        return False
    ctx = Path.cur.ctx if Path.cur else Ctx()
    if prove_zero(sub(a, b), ctx):
        return True
    return False


class T:
    __array_priority__ = 1000
    __array_ufunc__ = None
    __slots__ = ("shape_", "_fn", "dtype_", "memo", "sp", "mask", "name", "diag", "view", "bver", "ver")

    def __init__(self, shape, fn, dtype="R", sp=False):
        self.shape_ = tuple(dimE(s) for s in shape)
        self._fn = fn
        self.dtype_ = dtype
        self.memo = {}
        self.sp = sp
        self.mask = None
        self.name = None
        self.diag = None  # entries of a diagonal matrix
        self.view = None  # (base, get, put): numpy basic indexing, transposes and reshapes share memory with their base
        self.bver = 0
        self.ver = 0

    def as_view(self, base, get, put):
        if not self.sp and not base.sp and self.shape_:
            base._sync()
            self.view, self.bver = (base, get, put), base.ver
        return self

    def _sync(self):
        """bring a view up to date with writes to its base"""
        if self.view is None:
            return
        base, get, _ = self.view
        base._sync()
        if base.ver != self.bver:
            self._fn = get(base)
            self.memo = {}
            self.bver = base.ver
            self.ver += 1

    # -- access
    def fn(self, *idx):
        if self.view is not None:
            self._sync()
        idx = tuple(const(i) for i in idx)
        r = self.memo.get(idx)
        if r is None:
            r = const(self._fn(*idx))
            self.memo[idx] = r
        return r

    @property
    def shapeE(self):
        return self.shape_

    @property
    def shape(self):
        return tuple(dimOut(s) for s in self.shape_)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        return dimOut(mul(*self.shape_)) if self.shape_ else 1

    # ---- sparse storage of a single row/column of concrete length: an entry is stored iff nonzero
    def _stored(self):
        if not self.sp or not self.concrete() or len(self.shape_) != 2:
            raise Unsupported("sparse storage of symbolic shape")
        key = ("stored",)
        r = self.memo.get(key)
        if r is None:
            r = []
            R_, C_ = (int(x.args[0]) for x in self.shape_)
            for i in builtins.range(R_):
                for j in builtins.range(C_):
                    e = self.fn(const(i), const(j))
                    z = TRUE if e is ZERO else eq(e, ZERO)
                    zero = z is TRUE or (Path.cur is not None and Path.cur.decide(z))
                    if not zero:
                        r.append((i, j, e))
            self.memo[key] = r
        return r

    def _csc(self):
        """a general sparse matrix of concrete shape, column by column: every structurally non-zero entry is stored"""
        if not self.sp or not self.concrete() or len(self.shape_) != 2:
            raise Unsupported("sparse storage of symbolic shape")
        R_, C_ = (int(x.args[0]) for x in self.shape_)
        ent = [(i, j, self.fn(const(i), const(j))) for j in builtins.range(C_) for i in builtins.range(R_)]
        return [e for e in ent if e[2] is not ZERO]

    @property
    def format(self):
        if not self.sp:
            raise AttributeError("format")
        return "csc"

    @property
    def nnz(self):
        return len(self._stored())

    @property
    def indices(self):
        if self.shape_[0] is ONE:
            st = self._stored()
            return _np.array([j for _, j, _ in st], dtype=int)
        return _np.array([i for i, _, _ in self._csc()], dtype=int)

    @property
    def indptr(self):
        if self.shape_[0] is ONE:
            return _np.array([0, len(self._stored())])
        st = self._csc()
        return _np.array([builtins.sum(1 for e in st if e[1] < j) for j in builtins.range(int(self.shape_[1].args[0]) + 1)])

    @property
    def data(self):
        if self.shape_[0] is not ONE:
            st = self._csc()
        else:
            st = self._stored()
        return from_list([T((), lambda e=e: e, "R") for _, _, e in st]) if st else _np.array([])

    @property
    def has_sorted_indices(self):
        return True

    def sort_indices(self):
        return None

    @property
    def dtype(self):
        return {"R": _np.dtype(float), "I": _np.dtype(int), "B": _np.dtype(bool)}[self.dtype_]

    def concrete(self):
        return builtins.all(s.op == "c" for s in self.shape_)

    def _set(self, fn):
        self._fn = fn
        self.memo = {}
        self.ver += 1
        if self.view is not None:
            base, _, put = self.view
            if put is None:
                raise Unsupported("writing through a reshaped view")
            v = self.view
            self.view = None
            put(base, T(self.shape_, self.fn_frozen(), self.dtype_))
            self.view, self.bver = v, base.ver

    def copy(self):
        f = self.fn_frozen()
        r = T(self.shape_, f, self.dtype_, self.sp)
        r.mask = self.mask
        return r

    def fn_frozen(self):
        self._sync()
        f, memo = self._fn, self.memo

        def g(*idx):
            r = memo.get(idx)
            if r is None:
                r = const(f(*idx))
                memo[idx] = r
            return r

        return g

    def item(self, *a):
        if self.ndim == 0:
            return self
        if builtins.all(s is ONE for s in self.shape_):
            v = self.fn(*[ZERO] * self.ndim)
            return T((), lambda: v, self.dtype_)
        raise Unsupported("item()")

    def scalarE(self):
        if builtins.all(s is ONE for s in self.shape_):
            return self.fn(*[ZERO] * self.ndim)
        raise Unsupported("array where a scalar is needed")

    def __len__(self):
        if self.ndim and self.shape_[0].op == "c":
            return int(self.shape_[0].args[0])
        raise Unsupported("len() of a symbolic dimension")

    def __index__(self):
        e = self.scalarE()
        if e.op == "c":
            return int(e.args[0])
        raise Unsupported("symbolic integer used as index")

    def __int__(self):
        e = self.scalarE()
        if e.op != "c" and Path.cur is not None and not is_bool(e):
            # truncation: one path per value
            if bool(self < 0):
                raise Unsupported("int() of a negative symbolic value")
            for q in range(6):
                if bool(self < q + 1):
                    return q
            raise Unsupported("int() of a large symbolic value")
        return self.__index__()

    def __float__(self):
        e = self.scalarE()
        if e.op == "c":
            return float(e.args[0])
        raise Unsupported("float() of a symbolic value")

    def __bool__(self):
        e = self.scalarE()
        if not is_bool(e):
            e = not_(eq(e, ZERO))
        if Path.cur is None:
            if e is TRUE:
                return True
            if e is FALSE:
                return False
            raise Unsupported("branch outside a path")
        return Path.cur.decide(e)

    def __iter__(self):
        n = self.__len__()
        return iter([self[k] for k in range(n)])

    def __hash__(self):
        return id(self)

    # -- arithmetic
    def __add__(self, o):
        return bin_(X.add, self, o)

    def __radd__(self, o):
        return bin_(X.add, o, self)

    def __sub__(self, o):
        return bin_(X.sub, self, o)

    def __rsub__(self, o):
        return bin_(X.sub, o, self)

    def __mul__(self, o):
        return bin_(X.mul, self, o)

    def __rmul__(self, o):
        return bin_(X.mul, o, self)

    def __truediv__(self, o):
        return bin_(X.div, self, o, "R")

    def __rtruediv__(self, o):
        return bin_(X.div, o, self, "R")

    def __pow__(self, o):
        return bin_(X.power, self, o)

    def __rpow__(self, o):
        return bin_(X.power, o, self)

    def __floordiv__(self, o):
        return bin_(lambda a, b: fold_int("fdiv", a, b), self, o)

    def __rfloordiv__(self, o):
        return bin_(lambda a, b: fold_int("fdiv", a, b), o, self)

    def __mod__(self, o):
        return bin_(lambda a, b: fold_int("mod", a, b), self, o)

    def __rmod__(self, o):
        return bin_(lambda a, b: fold_int("mod", a, b), o, self)

    def __neg__(self):
        return un_(X.neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return un_(absE, self)

    def __invert__(self):
        return un_(not_, self, "B")

    def __and__(self, o):
        return bin_(X.and_, self, o, "B")

    __rand__ = __and__

    def __or__(self, o):
        return bin_(X.or_, self, o, "B")

    __ror__ = __or__

    def __lt__(self, o):
        return demote(bin_(X.lt, self, o, "B"))

    def __le__(self, o):
        return demote(bin_(X.le, self, o, "B"))

    def __gt__(self, o):
        return demote(bin_(lambda a, b: X.lt(b, a), self, o, "B"))

    def __ge__(self, o):
        return demote(bin_(lambda a, b: X.le(b, a), self, o, "B"))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return demote(bin_(X.eq, self, o, "B"))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return demote(bin_(lambda a, b: not_(X.eq(a, b)), self, o, "B"))

    def _inplace(self, r):
        f = r.fn_frozen()
        if r.shape_ != self.shape_:
            if len(r.shape_) != len(self.shape_) or not builtins.all(same_dim(a, b) for a, b in zip(r.shape_, self.shape_)):
                raise ValueError("non-broadcastable output operand")
        self._set(f)
        return self

    def __iadd__(self, o):
        if self.ndim == 0 or self.sp:  # scipy.sparse has no in-place addition
            return self + o
        return self._inplace(self.copy() + o)

    def __isub__(self, o):
        if self.ndim == 0 or self.sp:  # scipy.sparse has no in-place addition
            return self - o
        return self._inplace(self.copy() - o)

    def __imul__(self, o):
        if self.ndim == 0:
            return self * o
        return self._inplace(self.copy() * o)

    def __itruediv__(self, o):
        if self.ndim == 0:
            return self / o
        return self._inplace(self.copy() / o)

    def __ipow__(self, o):
        if self.ndim == 0:
            return self**o
        return self._inplace(self.copy() ** o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    dot = __matmul__

    # -- shape
    @property
    def T(self):
        def get(b):
            f = b.fn_frozen()
            return lambda *i: f(*i[::-1])

        def put(b, v):
            f = v.fn_frozen()
            b._set(lambda *i: f(*i[::-1]))

        return T(self.shape_[::-1], get(self), self.dtype_, self.sp).as_view(self, get, put)

    def transpose(self, *a):
        return self.T

    def toarray(self):
        r = self.copy()
        r.sp = False
        return r

    todense = toarray

    def tocsc(self, *a, **k):
        return self.copy()

    tocsr = tocoo = tocsc

    def astype(self, *a, **k):
        return self.copy()

    def flatten(self, *a):
        r = reshape(self, (-1,))
        return r.copy() if r.view is not None else r

    def ravel(self, *a):
        return reshape(self, (-1,))

    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)

    def sum(self, axis=None, **k):
        return sum_axis(self, axis, k.get("keepdims", False))

    def mean(self, axis=None, **k):
        n = mul(*self.shape_) if axis is None else self.shape_[axis]
        return sum_axis(self, axis) / T((), lambda: n, "I")

    def prod(self, axis=None):
        if not self.concrete() or axis is not None:
            raise Unsupported("prod")
        r = ONE
        for i in all_idx(self):
            r = X.mul(r, self.fn(*i))
        return T((), lambda: r, self.dtype_)

    def diagonal(self):
        f = self.fn_frozen()
        return T((self.shape_[0],), lambda i: f(i, i), self.dtype_)

    def trace(self):
        return self.diagonal().sum()

    def multiply(self, o):
        return self * o

    def power(self, p):
        return self**p

    def any(self, axis=None):
        return any_(self)

    def all(self, axis=None):
        return allt(self)

    def max(self, axis=None):
        return reduce_minmax(self, "max", axis)

    def min(self, axis=None):
        return reduce_minmax(self, "min", axis)

    def fill(self, v):
        e = lift(v).scalarE()
        self._set(lambda *i: e)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __repr__(self):
        try:
            idx = [mk("v", c, "I") for c in "ijklm"[: self.ndim]]
            return f"T{self.shape_}:{show(self.fn(*idx))[:300]}"
        except Exception as ex:  # pragma: no cover
            return f"T{self.shape_}<{ex}>"


def demote(t):
    """a comparison decided for every entry is an ordinary boolean array"""
    if t.ndim == 0 or not t.concrete():
        return t
    shp = tuple(int(q.args[0]) for q in t.shape_)
    if _np.prod(shp) > 400:
        return t
    out = []
    for i in all_idx(t):
        e = t.fn(*i)
        if e is not TRUE and e is not FALSE:
            return t
        out.append(e is TRUE)
    return _np.array(out, dtype=bool).reshape(shp)


def fold_int(name, a, b):
    if a.op == "c" and b.op == "c":
        q = a.args[0] // b.args[0]
        return const(q if name == "fdiv" else a.args[0] - b.args[0] * q)
    return fn(name, a, b)


def absE(a):
    return fn("abs", a)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, E):
        return T((), lambda: x, "B" if is_bool(x) else "R")
    if isinstance(x, (bool, _np.bool_)):
        e = TRUE if x else FALSE
        return T((), lambda: e, "B")
    if isinstance(x, (int, _np.integer)):
        e = const(int(x))
        return T((), lambda: e, "I")
    if isinstance(x, (float, _np.floating)):
        e = const(float(x))
        return T((), lambda: e, "R")
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return from_list(x.tolist())
        tab = {}
        flat = x
        dt = "B" if x.dtype == bool else "I" if _np.issubdtype(x.dtype, _np.integer) else "R"

        def f(*i, flat=flat, dt=dt):
            if builtins.all(t.op == "c" for t in i):
                v = flat[tuple(int(t.args[0]) for t in i)]
                return const(bool(v)) if dt == "B" else const(int(v)) if dt == "I" else const(float(v))
            # ite chain over the symbolic positions
            return _chain(lambda *j: f(*j), flat.shape, i)

        return T(x.shape, f, dt)
    if hasattr(x, "toarray"):
        r = lift(_np.asarray(x.toarray()))
        r.sp = True
        return r
    if isinstance(x, (list, tuple)):
        return from_list(x)
    raise Unsupported(f"cannot lift {type(x).__name__}")


def _chain(f, shape, idx):
    for k, t in enumerate(idx):
        if t.op != "c":
            n = int(shape[k]) if not isinstance(shape[k], E) else int(shape[k].args[0])
            if n > 400:
                raise Unsupported("symbolic index into a large constant array")
            r = f(*idx[:k], const(n - 1), *idx[k + 1 :])
            for j in range(n - 2, -1, -1):
                r = ite(eq(t, const(j)), f(*idx[:k], const(j), *idx[k + 1 :]), r)
            return r
    return f(*idx)


def from_list(xs):
    items = [lift(x) for x in xs]
    if not items:
        return T((0,), lambda i: ZERO)
    s0 = items[0].shape_
    for it in items:
        if len(it.shape_) != len(s0) or not builtins.all(same_dim(a, b) for a, b in zip(it.shape_, s0)):
            raise Unsupported("ragged array")
    dt = "B" if builtins.all(i.dtype_ == "B" for i in items) else "I" if builtins.all(i.dtype_ in "IB" for i in items) else "R"
    fs = [i.fn_frozen() for i in items]

    def f(i, *rest):
        if i.op == "c":
            k = int(i.args[0])
            if k < 0:
                k += len(fs)
            return fs[k](*rest)
        r = fs[-1](*rest)
        for k in range(len(fs) - 2, -1, -1):
            r = ite(eq(i, const(k)), fs[k](*rest), r)
        return r

    return T((len(items),) + s0, f, dt)


def all_idx(t):
    import itertools

    return itertools.product(*[[const(k) for k in range(int(s.args[0]))] for s in t.shape_])


def bcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            if s[j] is ONE:
                continue
            if d is ONE:
                d = s[j]
            elif not same_dim(d, s[j]):
                if d.op == "c" and s[j].op == "c":
                    raise ValueError(f"operands could not be broadcast together with shapes {shapes}")
                raise Unsupported(f"cannot decide broadcasting of {d} and {s[j]}")
        out.append(d)
    return tuple(out)


def bidx(shape, n, idx):
    off = n - len(shape)
    return [ZERO if shape[j] is ONE else idx[off + j] for j in range(len(shape))]


def bin_(op, a, b, dtype=None):
    if isinstance(a, _np.ndarray) and a.dtype.kind in "US" or isinstance(b, (str, bytes)):
        raise Unsupported("string array")
    a, b = lift(a), lift(b)
    ma, mb = a.mask, b.mask
    if (ma is not None) != (mb is not None):
        t, o = (a, b) if ma is not None else (b, a)
        if not builtins.all(s is ONE for s in o.shape_):
            raise Unsupported("masked with unmasked")
    if ma is not None and mb is not None and not same_mask(ma, mb):
        raise Unsupported("different masks")
    shape = bcast([a.shape_, b.shape_])
    fa, fb = a.fn_frozen(), b.fn_frozen()
    sa, sb = a.shape_, b.shape_
    n = len(shape)
    if dtype is None:
        dtype = "I" if a.dtype_ in "IB" and b.dtype_ in "IB" else "R"

    def num(e):
        return ite(e, ONE, ZERO) if is_bool(e) and dtype != "B" else e

    if dtype == "B":
        f = lambda *i: op(fa(*bidx(sa, n, i)), fb(*bidx(sb, n, i)))
    else:
        f = lambda *i: op(num(fa(*bidx(sa, n, i))), num(fb(*bidx(sb, n, i))))
    r = T(shape, f, dtype, a.sp or b.sp)
    r.mask = ma if ma is not None else mb
    return r


def un_(op, a, dtype=None):
    a = lift(a)
    f = a.fn_frozen()
    dt = dtype or ("R" if a.dtype_ != "I" else "I")

    def num(e):
        return ite(e, ONE, ZERO) if is_bool(e) and dt != "B" else e

    r = T(a.shape_, lambda *i: op(num(f(*i))), dt, a.sp)
    r.mask = a.mask
    return r


def same_mask(m1, m2):
    if m1 is m2:
        return True
    if len(m1.shape_) != len(m2.shape_):
        return False
    idx = [mk("v", f"mk{k}", "I") for k in range(len(m1.shape_))]
    return m1.fn(*idx) is m2.fn(*idx)


def matmul(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if not same_dim(a.shape_[-1], b.shape_[0] if b.ndim == 1 else b.shape_[-2]):
        if a.shape_[-1].op == "c" and b.shape_[0].op == "c":
            raise ValueError("matmul: dimension mismatch")
        raise Unsupported(f"matmul dims {a.shape_} {b.shape_}")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul nd")
    fa, fb = a.fn_frozen(), b.fn_frozen()
    n = a.shape_[-1]
    if a.diag is not None and a.ndim == 2:
        d = a.diag
        if b.ndim == 1:
            return T(b.shape_, lambda i: X.mul(d(i), fb(i)))
        r = T(b.shape_, lambda i, j: X.mul(d(i), fb(i, j)), "R", a.sp and b.sp)
        if b.diag is not None:
            e = b.diag
            r.diag = lambda i: X.mul(d(i), e(i))
        return r
    if b.diag is not None and b.ndim == 2:
        d = b.diag
        if a.ndim == 1:
            return T(a.shape_, lambda j: X.mul(fa(j), d(j)))
        return T(a.shape_, lambda i, j: X.mul(fa(i, j), d(j)), "R", a.sp and b.sp)

    def num(e):
        return ite(e, ONE, ZERO) if is_bool(e) else e

    def s(g):
        if n.op == "c":
            return X.add(*[g(const(k)) for k in range(int(n.args[0]))])
        i = fresh("m")
        return sum_(i, n, g(i))

    if a.ndim == 1 and b.ndim == 1:
        return T((), lambda: s(lambda k: X.mul(num(fa(k)), num(fb(k)))))
    if a.ndim == 1:
        return T((b.shape_[1],), lambda j: s(lambda k: X.mul(num(fa(k)), num(fb(k, j)))))
    if b.ndim == 1:
        return T((a.shape_[0],), lambda i: s(lambda k: X.mul(num(fa(i, k)), num(fb(k)))))
    return T(
        (a.shape_[0], b.shape_[1]),
        lambda i, j: s(lambda k: X.mul(num(fa(i, k)), num(fb(k, j)))),
        "R",
        a.sp and b.sp,
    )


def sum_axis(a, axis=None, keepdims=False):
    a = lift(a)
    f = a.fn_frozen()
    mk_ = a.mask
    if mk_ is not None:
        g = mk_.fn_frozen()
        f0 = f
        f = lambda *i: ite(g(*i), f0(*i), ZERO)

    def num(e):
        return ite(e, ONE, ZERO) if is_bool(e) else e

    def red(n, g):
        if n.op == "c" and int(n.args[0]) <= 4096:
            return X.add(*[g(const(k)) for k in range(int(n.args[0]))])
        i = fresh("t")
        return sum_(i, n, g(i))

    dt = "I" if a.dtype_ in "IB" else "R"
    if axis is None:
        def full(k, idx):
            if k == a.ndim:
                return num(f(*idx))
            return red(a.shape_[k], lambda t: full(k + 1, idx + [t]))

        if keepdims:
            return T((1,) * a.ndim, lambda *i: full(0, []), dt)
        return T((), lambda: full(0, []), dt)
    ax = axis if axis >= 0 else axis + a.ndim
    shp = a.shape_[:ax] + ((ONE,) if keepdims else ()) + a.shape_[ax + 1 :]

    def g(*i):
        i = list(i)
        if keepdims:
            del i[ax]
        return red(a.shape_[ax], lambda t: num(f(*(i[:ax] + [t] + i[ax:]))))

    return T(shp, g, dt)


def any_(a):
    a = lift(a)
    return ~allt(~a)


def allt(a):
    a = lift(a)
    f = a.fn_frozen()
    if a.mask is not None:
        g = a.mask.fn_frozen()
        f0 = f
        f = lambda *i: or_(not_(g(*i)), f0(*i))

    def go(k, idx):
        if k == a.ndim:
            e = f(*idx)
            return e if is_bool(e) else not_(eq(e, ZERO))
        n = a.shape_[k]
        if n.op == "c":
            return and_(*[go(k + 1, idx + [const(t)]) for t in range(int(n.args[0]))])
        i = fresh("u")
        return all_(i, n, go(k + 1, idx + [i]))

    return T((), lambda: go(0, []), "B")


def reduce_minmax(a, name, axis=None):
    a = lift(a)
    if not a.concrete():
        raise Unsupported(f"{name} over a symbolic dimension")
    if axis is not None:
        if not isinstance(axis, int) or a.ndim > 2:
            raise Unsupported("min/max axis")
        ax = axis % a.ndim
        if a.ndim == 2:
            n, f = X.int_value(a.shape_[ax]), a.fn_frozen()

            def one(i):
                r = None
                for q in range(n):
                    e = f(const(q), i) if ax == 0 else f(i, const(q))
                    r = e if r is None else (ite(le(e, r), e, r) if name == "min" else ite(le(r, e), e, r))
                return r

            return T((a.shape_[1 - ax],), one, a.dtype_)
    r = None
    for i in all_idx(a):
        e = a.fn(*i)
        r = e if r is None else (ite(le(e, r), e, r) if name == "min" else ite(le(r, e), e, r))
    return T((), lambda: r, a.dtype_)


def reshape(a, shape):
    a = lift(a)
    f = a.fn_frozen()
    shape = [s for s in shape]
    tot = X.mul(*a.shape_) if a.shape_ else ONE
    known = [dimE(s) for s in shape if not (isinstance(s, int) and s == -1)]
    res = []
    for s in shape:
        if isinstance(s, int) and s == -1:
            kk = X.mul(*known) if known else ONE
            q = X.div(tot, kk)
            if q.op == "c" and q.args[0].denominator != 1:
                raise ValueError("cannot reshape array")
            res.append(q)
        else:
            res.append(dimE(s))
    shp = tuple(res)
    if a.mask is not None:
        if len(shp) == 1 and a.ndim == 1:
            return a
        raise Unsupported("reshape of masked selection")
    if not same_dim(X.mul(*shp) if shp else ONE, tot):
        if tot.op == "c":
            raise ValueError(f"cannot reshape array of size {tot} into shape {shp}")
        raise Unsupported(f"reshape {a.shape_} -> {shp}")
    src = [d for d in a.shape_ if d is not ONE]
    dst = [d for d in shp if d is not ONE]
    if len(src) == len(dst) and builtins.all(same_dim(x, y) for x, y in zip(src, dst)):
        ash = a.shape_

        def through(f, frm, to):
            def g(*i):
                it = iter([t for t, d in zip(i, frm) if d is not ONE])
                return f(*[ZERO if d is ONE else next(it) for d in to])

            return g

        return T(shp, through(f, shp, ash), a.dtype_, a.sp).as_view(a, lambda b: through(b.fn_frozen(), shp, ash), lambda b, v: b._set(through(v.fn_frozen(), ash, shp)))

    def g2(*i):
        # flat index, row major
        flat = ZERO
        for t, d in zip(i, shp):
            flat = X.add(X.mul(flat, d), t)
        idx = []
        rem = flat
        for d in reversed(a.shape_[1:]):
            idx.append(fold_int("mod", rem, d))
            rem = fold_int("fdiv", rem, d)
        idx.append(rem)
        return f(*idx[::-1])

    return T(shp, g2, a.dtype_, a.sp).as_view(a, lambda b: reshape(b, shape)._fn, None)


def norm_int(k, n):
    """python index k on dimension n -> E"""
    if isinstance(k, T):
        return k.scalarE()
    if isinstance(k, E):
        return k
    k = int(k)
    if k < 0:
        return X.add(n, const(k))
    if n.op == "c" and k >= int(n.args[0]):
        raise IndexError("index out of bounds")
    return const(k)


def slice_(s, n):
    step = 1 if s.step is None else int(s.step)
    if step == -1 and s.start is None and s.stop is None:
        return n, (lambda i: X.sub(X.sub(n, ONE), i))
    if step != 1:
        if n.op == "c" and not isinstance(s.start, T) and not isinstance(s.stop, T):
            r = range(int(n.args[0]))[s]
            st, sp_, ln = r.start, r.step, len(r)
            return const(ln), (lambda i: X.add(const(st), X.mul(const(sp_), i)))
        raise Unsupported("slice step")

    def bound(v, default):
        if v is None:
            return default
        if isinstance(v, (T, E)):
            e = dimE(v)
            return e
        v = int(v)
        if v < 0:
            return X.add(n, const(v))
        if n.op == "c":
            return const(min(v, int(n.args[0])))
        return const(v)

    a, b = bound(s.start, ZERO), bound(s.stop, n)
    if n.op == "c" and a.op == "c" and b.op == "c":
        N = int(n.args[0])
        x, y = max(0, min(int(a.args[0]), N)), max(0, min(int(b.args[0]), N))
        a, b = const(x), const(max(x, y))
    elif not (a is ZERO and b is n):
        ctx = Path.cur.ctx if Path.cur else Ctx()
        if not ctx.prove_z3(and_(le(ZERO, a), le(a, b), le(b, n)), 1000):
            raise Unsupported("slice bounds not provable")
    return X.sub(b, a), (lambda i: X.add(a, i))


def _is_int(k):
    return isinstance(k, (int, _np.integer)) and not isinstance(k, (bool, _np.bool_)) or (
        isinstance(k, T) and k.ndim == 0 and k.dtype_ != "B"
    )


def expand_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    if builtins.any(k is Ellipsis for k in key):
        p = [j for j, k in enumerate(key) if k is Ellipsis][0]
        nn = sum_n(key) - 1
        key = key[:p] + (slice(None),) * (t.ndim - nn) + key[p + 1 :]
    key = list(key)
    return key


def sum_n(key):
    return builtins.sum(1 for k in key if k is not None)


def is_boolkey(k):
    return (isinstance(k, T) and k.dtype_ == "B" and k.ndim > 0) or (isinstance(k, _np.ndarray) and k.dtype == bool) or (
        isinstance(k, list) and len(k) > 0 and builtins.all(isinstance(v, (bool, _np.bool_)) or (isinstance(v, T) and v.dtype_ == "B") for v in k)
    )


def concretise_mask(m):
    m = lift(m)
    if not m.concrete():
        return None
    return _np.array([bool(T((), (lambda e=m.fn(*i): e), "B")) for i in all_idx(m)], dtype=bool).reshape(
        tuple(int(s.args[0]) for s in m.shape_)
    )


def always(k):
    """a one-dimensional mask over a symbolic dimension that is literally true at an arbitrary index"""
    m = lift(k)
    return m.ndim == 1 and m.shape_[0].op != "c" and m.fn(fresh("q")) is TRUE


def getitem(t, key):
    if t.mask is not None:
        raise Unsupported("index of masked selection")
    key = expand_key(t, key)
    # a row/column mask that is true everywhere selects everything
    key = [slice(None) if (not isinstance(k, slice) and is_boolkey(k) and always(k)) else k for k in key]
    # boolean mask covering everything
    if len(key) == 1 and is_boolkey(key[0]):
        m = lift(key[0])
        if m.ndim == t.ndim and not t.concrete():
            if not builtins.all(same_dim(a, b) for a, b in zip(m.shape_, t.shape_)):
                raise Unsupported("mask shape")
            r = T(t.shape_, t.fn_frozen(), t.dtype_)
            r.mask = m.copy()
            return r
        cm = concretise_mask(m)
        if cm is None:
            raise Unsupported("row mask on a symbolic dimension")
        if m.ndim == t.ndim:
            idx = _np.argwhere(cm)
            return from_list([T((), (lambda e=t.fn(*[const(int(v)) for v in row]): e), t.dtype_) for row in idx]) if len(idx) else T((0,), lambda i: ZERO, t.dtype_)
        key = [_np.flatnonzero(cm)]
    f = t.fn_frozen()
    out_dims, maps = [], []
    # maps: list over source dims of function(out_idx)->E
    src = 0
    adv = []
    plan = []
    for k in key:
        if k is None:
            plan.append(("new",))
            out_dims.append(ONE)
            continue
        if src >= t.ndim:
            raise IndexError("too many indices for array")
        n = t.shape_[src]
        if isinstance(k, slice):
            ln, mp_ = slice_(k, n)
            plan.append(("sl", src, mp_))
            out_dims.append(ln)
        elif _is_int(k):
            plan.append(("int", src, norm_int(k, n)))
        else:
            if is_boolkey(k):
                cm = concretise_mask(k)
                if cm is None:
                    raise Unsupported("mask on a symbolic dimension")
                k = _np.flatnonzero(cm)
            if isinstance(k, range):
                k = list(k)
            kt = lift(k) if len_or_none(k) != 0 else T((0,), lambda i: ZERO, "I")
            adv.append((src, kt))
            plan.append(("adv", src, kt))
            out_dims.append(None)
        src += 1
    while src < t.ndim:
        ln, mp_ = slice_(slice(None), t.shape_[src])
        plan.append(("sl", src, mp_))
        out_dims.append(ln)
        src += 1
    if adv:
        ash = bcast([kt.shape_ for _, kt in adv])
        # position: first advanced if contiguous (ints count as advanced in numpy)
        posn = [p for p, pl in enumerate(plan) if pl[0] == "adv"]
        advint = [p for p, pl in enumerate(plan) if pl[0] in ("adv", "int")]
        contiguous = advint == list(range(advint[0], advint[-1] + 1))
        dims = []
        order = []
        inserted = False
        if not contiguous:
            dims.extend(ash)
            inserted = True
        oi = 0
        shape = []
        layout = []  # entries: ('adv',k) / ('sl', plan index)
        if not contiguous:
            layout += [("adv", k) for k in range(len(ash))]
            shape += list(ash)
        od = iter(out_dims)
        for p, pl in enumerate(plan):
            if pl[0] == "int":
                if contiguous and not inserted and p == advint[0]:
                    layout += [("adv", k) for k in range(len(ash))]
                    shape += list(ash)
                    inserted = True
                continue
            d = next(od)
            if pl[0] == "adv":
                if not inserted:
                    layout += [("adv", k) for k in range(len(ash))]
                    shape += list(ash)
                    inserted = True
            else:
                layout.append(("pl", p))
                shape.append(d)

        def g(*i):
            ai = [i[q] for q, l in enumerate(layout) if l[0] == "adv"]
            pv = {l[1]: i[q] for q, l in enumerate(layout) if l[0] == "pl"}
            idx = [None] * t.ndim
            for p, pl in enumerate(plan):
                if pl[0] == "new":
                    continue
                if pl[0] == "sl":
                    idx[pl[1]] = pl[2](pv[p])
                elif pl[0] == "int":
                    idx[pl[1]] = pl[2]
                else:
                    kt = pl[2]
                    v = kt.fn(*bidx(kt.shape_, len(ai), ai))
                    if v.op == "c" and v.args[0] < 0:
                        v = X.add(t.shape_[pl[1]], v)
                    if v.op == "c" and t.shape_[pl[1]].op == "c" and v.args[0] >= t.shape_[pl[1]].args[0]:
                        raise IndexError("index out of bounds")
                    idx[pl[1]] = v
            return f(*idx)

        return T(tuple(shape), g, t.dtype_, t.sp)

    def g(*i):
        it = iter(i)
        idx = [None] * t.ndim
        for pl in plan:
            if pl[0] == "new":
                next(it)
            elif pl[0] == "sl":
                idx[pl[1]] = pl[2](next(it))
            else:
                idx[pl[1]] = pl[2]
        return f(*idx)

    r = T(tuple(out_dims), g, t.dtype_, t.sp and len(out_dims) == 2)
    if builtins.any(pl[0] == "new" for pl in plan):
        return r.as_view(t, lambda b: _reindex(b, key), None)
    return r.as_view(t, lambda b: _reindex(b, key), lambda b, v: setitem(b, tuple(key), v))


def _reindex(b, key):
    return getitem(b, tuple(key))._fn


def len_or_none(k):
    try:
        return len(k)
    except Exception:
        return None


def setitem(t, key, val):
    v = lift(val)
    f = t.fn_frozen()
    key = expand_key(t, key)
    if len(key) == 1 and is_boolkey(key[0]):
        m = lift(key[0])
        if m.ndim == t.ndim or (not m.concrete() and m.ndim == 1):
            g = m.fn_frozen()
            nd = m.ndim
            if v.mask is not None:
                if not same_mask(v.mask, m):
                    raise Unsupported("assignment under a different mask")
                fv_ = v.fn_frozen()
                t._set(lambda *i: ite(g(*i[:nd]), fv_(*i), f(*i)))
                return
            if builtins.all(s is ONE for s in v.shape_):
                e = v.scalarE()
                t._set(lambda *i: ite(g(*i[:nd]), e, f(*i)))
                return
            if m.concrete():
                cm = concretise_mask(m)
                pos = {tuple(int(x) for x in r): q for q, r in enumerate(_np.argwhere(cm))}
                fv_ = v.fn_frozen()

                def h(*i):
                    if not builtins.all(x.op == "c" for x in i):
                        return _chain(h, t.shape_, i)
                    k = tuple(int(x.args[0]) for x in i)
                    if k[:nd] in pos:
                        return fv_(*bidx(v.shape_, 1, [const(pos[k[:nd]])]))
                    return f(*i)

                t._set(h)
                return
            raise Unsupported("masked assignment")
        cm = concretise_mask(m)
        if cm is None:
            raise Unsupported("masked row assignment")
        key = [_np.flatnonzero(cm)]
    # general: build predicate + inverse index for each dimension
    src = 0
    plan = []
    out_dims = []
    for k in key:
        if k is None:
            raise Unsupported("newaxis in assignment")
        n = t.shape_[src]
        if isinstance(k, slice):
            st = k
            step = 1 if st.step is None else int(st.step)
            if step != 1:
                raise Unsupported("slice step in assignment")
            ln, mp_ = slice_(k, n)
            a = mp_(ZERO)
            plan.append(("sl", a, ln))
            out_dims.append(ln)
        elif _is_int(k):
            plan.append(("int", norm_int(k, n)))
        else:
            if is_boolkey(k):
                cm = concretise_mask(k)
                if cm is None:
                    raise Unsupported("mask in assignment")
                k = _np.flatnonzero(cm)
            kt = lift(k)
            if kt.ndim != 1 or not kt.concrete():
                raise Unsupported("fancy assignment")
            vals = [kt.fn(const(j)) for j in range(len(kt))]
            plan.append(("adv", vals))
            out_dims.append(const(len(vals)))
        src += 1
    while src < t.ndim:
        plan.append(("sl", ZERO, t.shape_[src]))
        out_dims.append(t.shape_[src])
        src += 1
    nadv = builtins.sum(1 for p in plan if p[0] == "adv")
    if nadv > 1:
        # paired indices, all concrete
        advp = [p[1] for p in plan if p[0] == "adv"]
        if not builtins.all(p[0] in ("adv", "int") for p in plan):
            raise Unsupported("mixed fancy assignment")
        L = len(advp[0])
        fv_ = v.fn_frozen()
        cur = f
        for j in range(L):
            vj = fv_(*bidx(v.shape_, 1, [const(j)])) if v.ndim else fv_()
            tgt = []
            q = 0
            for p in plan:
                if p[0] == "int":
                    tgt.append(p[1])
                else:
                    tgt.append(p[1][j])

            def nxt(*i, tgt=tgt, vj=vj, prev=cur):
                return ite(and_(*[eq(a, b) for a, b in zip(i, tgt)]), vj, prev(*i))

            cur = nxt
        t._set(cur)
        return
    fv_ = v.fn_frozen()
    vs = v.shape_
    # numpy drops leading ones of the value
    while len(vs) > len(out_dims):
        if vs[0] is not ONE:
            raise ValueError("could not broadcast input array")
        f0 = fv_
        fv_ = lambda *i, f0=f0: f0(ZERO, *i)
        vs = vs[1:]
    for j in range(len(vs)):
        d = out_dims[len(out_dims) - len(vs) + j]
        if vs[j] is not ONE and not same_dim(vs[j], d):
            raise ValueError(f"could not broadcast input array from shape {vs} into shape {out_dims}")

    def h(*i):
        conds, vi, alts = [], [], [None]
        opts = [([], [])]
        for p, t_ in zip(plan, i):
            if p[0] == "int":
                opts = [(c + [eq(t_, p[1])], ix) for c, ix in opts]
            elif p[0] == "sl":
                a, ln = p[1], p[2]
                off = X.sub(t_, a)
                cs = [] if (a is ZERO and same_dim_quick(ln, t, plan, p, i)) else [le(a, t_), lt(t_, X.add(a, ln))]
                opts = [(c + cs, ix + [off]) for c, ix in opts]
            else:
                new = []
                for j, val_ in enumerate(p[1]):
                    for c, ix in opts:
                        new.append((c + [eq(t_, val_)], ix + [const(j)]))
                opts = new
        r = f(*i)
        for c, ix in opts:
            cond = and_(*c)
            if cond is FALSE:
                continue
            r = ite(cond, fv_(*bidx(vs, len(ix), ix)), r)
        return r

    t._set(h)


def same_dim_quick(ln, t, plan, p, i):
    k = [q for q, pl in enumerate(plan) if pl is p][0]
    return t.shape_[k] is ln


T.__copy__ = lambda self: self.copy()
T.__deepcopy__ = lambda self, memo: self.copy()


# a concrete scipy sparse array as left operand hands the operation over to the symbolic right operand
def _patch_scipy():
    import scipy.sparse as sp

    for nm in ("__matmul__", "__add__", "__sub__", "__mul__", "__truediv__"):
        owners = {c for k in (sp.csc_array, sp.csr_array, sp.coo_array, sp.csc_matrix, sp.dia_array) for c in k.__mro__ if nm in vars(c)}
        for c in owners:
            old = vars(c)[nm]

            def f(self, other, old=old):
                return NotImplemented if isinstance(other, T) else old(self, other)

            setattr(c, nm, f)


_patch_scipy()
