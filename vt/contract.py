"""Contracts: one text, two readings.

A contract is a function of a kit ``k``.  It obtains inputs (`k.arr`, `k.real`, `k.dim`), calls the
real code through `k.mod(..)`, and states postconditions (`k.ensure_eq`, `k.ensure`).  In the
symbolic reading the inputs are unconstrained symbolic arrays of symbolic size and every
postcondition becomes a proof obligation; in the concrete reading the same text runs the unmodified
code under CPython/numpy on sampled inputs (vacuity guard, engine cross-check, replay of
counterexamples, bounded stand-in)."""
from __future__ import annotations
import inspect, itertools, json, os, sys, time, traceback, types, importlib, random
import numpy as np
import mpmath as mp
from fractions import Fraction
from .expr import *
from . import expr as X
from . import norm as N
from .norm import Ctx, prove, prove_zero, Stats
from .tensor import T, explore, Unsupported, lift, dimE, Path, Infeasible
from . import shim
from .evalx import evalx, Undef

REPO = shim.REPO


# -------------------------------------------------------------------- domains
class Dom:
    def __init__(self, facts, sample, isint=False):
        self.facts, self.sample, self.isint = facts, sample, isint


def _s(f):
    return f


DOMS = {
    "real": Dom(lambda e: [], lambda r, s: r.choice([r.normal(0, 1.5, s), r.normal(0, 0.3, s)])),
    "pos": Dom(lambda e: [lt(ZERO, e)], lambda r, s: np.exp(r.normal(0, 0.9, s))),
    "nonneg": Dom(lambda e: [le(ZERO, e)], lambda r, s: np.where(r.random(s) < 0.25, 0.0, np.exp(r.normal(0, 0.9, s)))),
    "unit": Dom(lambda e: [lt(ZERO, e), lt(e, ONE)], lambda r, s: r.beta(1.3, 1.3, s) * 0.998 + 0.001),
    "unit0": Dom(lambda e: [le(ZERO, e), le(e, ONE)], lambda r, s: np.where(r.random(s) < 0.3, np.round(r.random(s)), r.random(s))),
    "count": Dom(lambda e: [le(ZERO, e)], lambda r, s: r.poisson(2.0, s).astype(float), True),
    "bin": Dom(lambda e: [or_(eq(e, ZERO), eq(e, ONE))], lambda r, s: r.integers(0, 2, s).astype(float), True),
    "small": Dom(lambda e: [], lambda r, s: r.normal(0, 0.5, s)),
}


class Skip(Exception):
    pass


class Violation(Exception):
    pass


class StubMismatch(Skip):
    """the code no longer calls the function whose contract stands in for it (or calls it differently)"""


STUBMISS = {"n": 0, "why": ""}


class Obl:
    def __init__(self, label, kind, goal_terms, ctx):
        self.label, self.kind, self.terms, self.ctx = label, kind, goal_terms, ctx


class Over:
    """an object with one (nested) attribute replaced"""

    def __init__(self, o, path, f):
        self.__dict__.update(_o=o, _p=path, _f=f)

    def __getattr__(self, n):
        v = getattr(self._o, n) if not (self._p == [n]) else None
        if self._p and n == self._p[0]:
            return self._f if len(self._p) == 1 else Over(v, self._p[1:], self._f)
        return v

    def __call__(self, *a, **kw):
        return self._o(*a, **kw)


SIGS = json.load(open(os.path.join(os.path.dirname(__file__), "sigs.json")))


def positions(orig, name, f, a, kw):
    """arguments of a call of `orig`, at the positions a stand-in f is written against"""
    base = SIGS.get(name)
    if base is None:
        return a, kw
    try:
        sig = inspect.signature(orig)
    except (TypeError, ValueError):
        return a, kw
    cur = [q.name for q in sig.parameters.values()]
    if any(q.kind in (q.VAR_POSITIONAL, q.VAR_KEYWORD) for q in sig.parameters.values()):
        return a, kw
    if cur == base:
        try:
            inspect.signature(f).bind(*a, **kw)
            return a, kw
        except TypeError:
            pass
    b = sig.bind(*a, **kw)
    vals = dict(b.arguments)
    missing = [q for q in base if q not in cur]
    if missing:
        raise TypeError(f"parameters {missing} are gone")
    given = [q for q in base if q in vals]
    upto = max((base.index(q) for q in given), default=-1) + 1
    b.apply_defaults()
    pos = tuple(b.arguments[q] for q in base[:upto])
    try:
        inspect.signature(f).bind(*pos)
        return pos, {}
    except TypeError:
        return (), {q: b.arguments[q] for q in given}


class Kit:
    def __init__(self, mode, world=None, rng=None, dims=None, force=None, real=None):
        self.mode = mode
        self.world = world
        self.rng = rng
        self.env = {}  # concrete values by name
        self.inputs = {}
        self.symarr = {}
        self.domains = {}
        self.path = None
        self.obls = []
        self.fails = []
        self.force = force or {}
        self.checks = 0
        self.np = shim.np
        self.scp = shim.scp
        self.real = real
        self.frames = []
        self.dimvals = dims or {}
        self.branch = {}
        self.notes = {}
        self.stubs = []

    # ------- concrete-only helpers (bounded stand-ins)
    def note(self, name, v):
        """record an input for the replay file"""
        self.notes[name] = v
        return v

    def check(self, label, cond, msg=""):
        self.checks += 1
        if not bool(cond):
            self.fails.append((label, str(msg) or "postcondition is false"))

    def close(self, label, a, b, rtol=1e-6, atol=1e-8, equal_nan=False):
        self.checks += 1
        a, b = toarr(a), toarr(b)
        if a.shape != b.shape:
            self.fails.append((label, f"shape {a.shape} != {b.shape}"))
            return
        bad = ~(np.abs(a - b) <= atol + rtol * np.maximum(1.0, np.abs(b)))
        bad &= ~((a == b))
        if equal_nan:
            bad &= ~(np.isnan(a) & np.isnan(b))
        if bad.any():
            k = tuple(int(v) for v in np.argwhere(bad)[0]) if a.ndim else ()
            self.fails.append((label, f"at {k}: got {a[k]!r}, contract says {b[k]!r}"))

    def raises(self, label, exc, f):
        self.checks += 1
        try:
            f()
        except exc:
            return
        except Exception as ex:
            self.fails.append((label, f"raised {type(ex).__name__} instead"))
            return
        self.fails.append((label, "did not raise"))

    # ------- callee contracts
    def stub(self, mod, name, f):
        """replace function `name` of module `mod` by its contract f for the rest of this contract"""
        if not hasattr(mod, name):
            self.nostub(f"{name} does not exist")
        orig = getattr(mod, name)
        st = {"n": 0}

        def wrapped(*a, **kw):
            st["n"] += 1
            try:
                a, kw = positions(orig, name, f, a, kw)
                return f(*a, **kw)
            except (TypeError, IndexError, KeyError, AttributeError, ValueError) as ex:
                if os.environ.get("VT_DEBUG"):
                    traceback.print_exc()
                self.nostub(f"{name} is called differently: {type(ex).__name__}: {ex}")

        setattr(mod, name, wrapped)
        self.stubs.append((mod, name, orig, st))
        return st

    def patch(self, mod, path, f):
        """replace the library function reached through `mod`.a.b.c (e.g. scp.stats.norm.rvs) by f, for this module only"""
        top, *rest = path.split(".")
        orig = getattr(mod, top, None)
        if orig is None:
            self.nostub(f"{path} does not exist")
        st = {"n": 0}

        def wrapped(*a, **kw):
            st["n"] += 1
            try:
                return f(*a, **kw)
            except (TypeError, IndexError, KeyError, AttributeError, ValueError) as ex:
                if os.environ.get("VT_DEBUG"):
                    traceback.print_exc()
                self.nostub(f"{path} is called differently: {type(ex).__name__}: {ex}")

        setattr(mod, top, Over(orig, rest, wrapped))
        self.stubs.append((mod, top, orig, st))
        return st

    def nostub(self, why):
        if self.mode == "sym":
            raise Unsupported("callee contract: " + why)
        STUBMISS["n"] += 1
        STUBMISS["why"] = why
        raise StubMismatch(why)

    def used(self, *sts):
        """the stubs that have to have been called for the contract to say anything"""
        for st in sts:
            if st["n"] == 0:
                self.nostub("a callee is not called any more")

    def unstub(self):
        for mod, name, orig, _ in reversed(self.stubs):
            setattr(mod, name, orig)
        self.stubs = []

    # ------- inputs
    def mod(self, name):
        if self.mode == "sym":
            return self.world.mod(name)
        return self.real(name)

    def dim(self, name, lo=1, choices=(2, 3, 4)):
        v = var(name, "I")
        self.domains[name] = lambda e: [le(const(lo), e)]
        s = T((), lambda: v, "I")
        self.symarr[name] = s
        if self.mode == "sym":
            return s
        n = self.force.get(name)
        if n is None:
            n = int(self.rng.choice([c for c in choices if c >= lo]))
        self.env[name] = n
        return n

    def _shapeE(self, shape):
        out = []
        for d in shape:
            if isinstance(d, (T, E)):
                out.append(dimE(d))
            elif isinstance(d, str):
                out.append(var(d, "I"))
            else:
                out.append(const(int(d)))
        return tuple(out)

    def _shapeC(self, shape):
        out = []
        for d in shape:
            if isinstance(d, str):
                out.append(int(self.env[d]))
            elif isinstance(d, (T, E)):
                out.append(int(evalx(dimE(d), self.env)))
            else:
                out.append(int(d))
        return tuple(out)

    def arr(self, name, shape, dom="real", sp=False, frame=True, facts=None, sample=None):
        """shape entries: ints, dimension names."""
        d = DOMS[dom] if isinstance(dom, str) else dom
        self.domains[name] = facts or d.facts
        t = T(self._shapeE(shape), lambda *i: el(name, *i), "R", sp)
        t.name = name
        self.symarr[name] = t.copy()
        if self.mode == "sym":
            if frame:
                self.frames.append((name, t, t.fn_frozen()))
            return t
        shp = self._shapeC(shape)
        if name in self.force:
            a = np.array(self.force[name], dtype=float)
            if a.shape != shp:
                a = np.resize(a, shp)
            if getattr(d, "isint", False):
                a = np.round(a)
            self._valid(a, facts or d.facts)
        else:
            a = np.asarray((sample or d.sample)(self.rng, shp), dtype=float)
        self.env[name] = a.copy()
        if sp:
            import scipy.sparse

            v = scipy.sparse.csc_array(a)
        else:
            v = a.copy()
        if frame:
            self.frames.append((name, v, a.copy()))
        return v

    def _valid(self, a, facts):
        """forced inputs must satisfy the declared domain"""
        for v in set(float(x) for x in np.asarray(a).flat):
            if not np.isfinite(v) or abs(v) > 1e6:
                raise Skip()
            for f in facts(const(Fraction(v))):
                if f is TRUE:
                    continue
                if f is FALSE or not evalx(f, self.env):
                    raise Skip()

    def scalar(self, name, dom="real", facts=None, sample=None):
        d = DOMS[dom] if isinstance(dom, str) else dom
        self.domains[name] = facts or d.facts
        v = var(name, "R")
        t = T((), lambda: v, "R")
        self.symarr[name] = t
        if self.mode == "sym":
            return t
        if name in self.force:
            x = float(self.force[name])
            self._valid(x, facts or d.facts)
        else:
            x = float((sample or d.sample)(self.rng, ()))
        self.env[name] = x
        return x

    def index(self, name, n):
        """an arbitrary index 0 <= i < n"""
        v = var(name, "I")
        nE = self._shapeE((n,))[0]
        self.domains[name] = lambda e: [le(ZERO, e), lt(e, nE)]
        t = T((), lambda: v, "I")
        self.symarr[name] = t
        if self.mode == "sym":
            return t
        k = int(self.rng.integers(0, self._shapeC((n,))[0]))
        if name in self.force:
            k = int(self.force[name])
        self.env[name] = k
        return k

    def S(self, name):
        """the input as a symbolic tensor (for specifications)"""
        return self.symarr[name]

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Skip() if self.mode != "sym" else Infeasible()
            return
        c = lift(cond).scalarE() if isinstance(cond, T) else cond
        if isinstance(cond, T) and cond.ndim:
            from .tensor import allt

            c = allt(cond).scalarE()
        if self.mode == "sym":
            if z := (c is FALSE):
                raise Infeasible()
            Path.cur.ctx = Path.cur.ctx.child(c)
        else:
            if not evalx(c, self.env):
                raise Skip()

    def log_lemma(self, x):
        """instantiate log(t) <= t - 1 (t > 0) at every entry of x (mathematical fact, trusted)"""
        if self.mode != "sym":
            return
        shim.ASSUMED.add("lemma log(t) <= t-1 for t>0")
        t = lift(x)
        f = t.fn_frozen()
        self.lemmas = getattr(self, "lemmas", [])
        self.lemmas.append((t.shape_, f))

    def choose(self, name, options):
        """finite enumeration handled by separate contract instances"""
        raise NotImplementedError

    # ------- postconditions
    def ctx(self):
        return Path.cur.ctx

    def ensure_eq(self, label, actual, spec, rtol=1e-6, atol=1e-8, shape=True):
        spec = lift(spec)
        if self.mode == "sym":
            a = lift(actual).copy()
            if a.ndim != spec.ndim and not shape:
                pass
            self.obls.append(("eq", label, a, spec, Path.cur.ctx, shape))
            return
        self.checks += 1
        try:
            sv = evalT(spec, self.env)
        except Undef:
            return
        av = toarr(actual)
        if shape and av.shape != sv.shape:
            self.fails.append((label, f"shape {av.shape} != {sv.shape}"))
            return
        if not shape:
            if av.size != sv.size:
                self.fails.append((label, f"size {av.shape} != {sv.shape}"))
                return
            av = av.reshape(sv.shape)
        bad = ~(np.abs(av - sv) <= atol + rtol * np.maximum(1.0, np.abs(sv)))
        bad &= np.isfinite(sv) & (np.abs(sv) < 1e120)
        if bad.any():
            k = tuple(int(v) for v in np.argwhere(bad)[0]) if av.ndim else ()
            self.fails.append((label, f"at {k}: got {av[k]!r}, contract says {sv[k]!r}"))

    def ensure(self, label, actual, pred):
        """pred(E) must hold for every entry of actual"""
        if self.mode == "sym":
            self.obls.append(("pred", label, lift(actual).copy(), pred, Path.cur.ctx, True))
            return
        self.checks += 1
        av = toarr(actual)
        for k in np.ndindex(av.shape):
            if not np.isfinite(av[k]):
                self.fails.append((label, f"at {k}: {av[k]!r}"))
                return
            c = pred(const(Fraction(float(av[k]))))
            if c is not TRUE and not (c is not FALSE and evalx(c, self.env)):
                self.fails.append((label, f"at {k}: value {av[k]!r} violates the postcondition"))
                return

    def ensure_true(self, label, cond):
        """a Python-level boolean"""
        if self.mode == "sym":
            c = lift(cond).scalarE()
            self.obls.append(("bool", label, c, None, Path.cur.ctx, True))
            return
        self.checks += 1
        if not bool(cond):
            self.fails.append((label, "postcondition is false"))

    def ensure_frame(self):
        for name, v, orig in self.frames:
            if self.mode == "sym":
                idx = [var(f"fr{k}", "I") for k in range(v.ndim)]
                a, b = v.fn(*idx), orig(*idx)
                if a is not b:
                    t = T(v.shape_, v.fn_frozen())
                    o = T(v.shape_, orig)
                    self.obls.append(("eq", f"frame:{name}", t, o, Path.cur.ctx, True))
            else:
                cur = v.toarray() if hasattr(v, "toarray") else v
                if not np.array_equal(cur, orig, equal_nan=True):
                    self.fails.append((f"frame:{name}", "input array was modified by the call"))


def toarr(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.asarray(x, dtype=float)


def evalT(t, env):
    shp = tuple(int(evalx(s, env)) for s in t.shape_)
    out = np.zeros(shp)
    for k in np.ndindex(shp):
        e = t.fn(*[const(int(v)) for v in k])
        v = evalx(e, env)
        out[k] = float(v) if not isinstance(v, bool) else float(v)
    return out if shp else np.asarray(float(out))


# ---------------------------------------------------------------- derivatives
def D(t, wrt_name, *idx):
    """elementwise derivative of tensor t wrt scalar var or element of array wrt_name"""
    t = lift(t)
    f = t.fn_frozen()
    x = el(wrt_name, *idx) if idx else var(wrt_name, "R")
    return T(t.shape_, lambda *i: X.diff(f(*i), x))


def Dew(t, wrt_name):
    """derivative of an elementwise tensor: d t[i..] / d wrt[i..] (same index)"""
    t = lift(t)
    f = t.fn_frozen()
    return T(t.shape_, lambda *i: X.diff(f(*i), el(wrt_name, *i)))


def grad(s, name, p, col=True):
    """gradient of a scalar wrt the column vector `name` of length p -> (p,1)"""
    e = lift(s).scalarE()
    pE = dimE(p) if not isinstance(p, str) else var(p, "I")
    if col:
        return T((pE, 1), lambda k, _: X.diff(e, el(name, k, ZERO)))
    return T((pE,), lambda k: X.diff(e, el(name, k)))


def hess(s, name, p):
    e = lift(s).scalarE()
    pE = dimE(p) if not isinstance(p, str) else var(p, "I")
    return T((pE, pE), lambda a, b: X.diff(X.diff(e, el(name, a, ZERO)), el(name, b, ZERO)))


# ----------------------------------------------------------------- discharging
class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []  # (label, status, backend, seconds)
        self.status = "proved"
        self.detail = ""
        self.replay = None
        self.paths = 0
        self.samples = 0
        self.assumed = []
        self.functions = []
        self.wall = 0.0


def eq_subst(ctx):
    """assumed equalities between two inputs, as a substitution"""
    m = {}

    def atomof(e):
        if e.op in ("el", "v"):
            return e, 1
        if e.op == "mul" and len(e.args) == 2 and e.args[0].op == "c" and e.args[1].op in ("el", "v"):
            return e.args[1], e.args[0].args[0]
        return None, None

    def go(f):
        if f.op == "and":
            for g in f.args:
                go(g)
        elif f.op == "eq" and f.args[0].op == "add" and len(f.args[0].args) == 2:
            (a, ca), (b, cb) = (atomof(q) for q in f.args[0].args)
            if a is not None and b is not None and ca == -cb:
                a, b = m.get(a, a), m.get(b, b)
                if a is not b:
                    for k_ in list(m):
                        if m[k_] is a:
                            m[k_] = b
                    m[a] = b

    for f in ctx.assume:
        go(f)
    return m


def ghost_levels(*es):
    """ways to read ghost names (vt.cxx): the last one by its definition, all opaque, all by definition"""
    from . import cxx

    G = cxx.GHOST
    free = set().union(*(X.free_atoms(e) for e in es)) if G else set()
    if not any(g in free for g in G):
        return [lambda e: e]
    names = list(G)
    last = [g for g in names if g in free][-1]

    def all_(e):
        for g in reversed(names):
            e = X.subst(e, {g: G[g]})
        return e

    return [lambda e: X.subst(e, {last: G[last]}), lambda e: e, all_]


def discharge(ob, lemmas=()):
    kind, label, a, spec, ctx, shape = ob
    before = dict(Stats.by)
    t0 = time.time()
    ok = False
    try:
        if kind == "bool":
            ok = prove(a, ctx)
        elif kind == "pred":
            idx = [fresh("g") for _ in range(a.ndim)]
            c = ctx.child(*[f for i, s in zip(idx, a.shape_) for f in (le(ZERO, i), lt(i, s))])
            idx2 = [ZERO if s is ONE else i for i, s in zip(idx, a.shape_)]
            e = a.fn(*idx2)
            d = shim.defd(e)
            for shp, f in lemmas:
                if len(shp) == len(idx2):
                    t = f(*idx2)
                    lg = N.Normaliser(c).canon(fn("log", t))
                    c = c.child(le(lg, X.sub(t, ONE)))
            ok = prove(d, c) and prove(spec(e), c)
        else:
            if shape:
                if a.ndim != spec.ndim:
                    return False, "shape", time.time() - t0
                for x, y in zip(a.shape_, spec.shape_):
                    if not prove_zero(X.sub(x, y), ctx):
                        return False, "shape", time.time() - t0
            elif a.ndim != spec.ndim:
                from .tensor import reshape

                a = reshape(a, spec.shape_)
            cells = 1
            axes = []
            for s in spec.shape_:
                n_ = X.int_value(s)
                if n_ is not None and 0 <= n_ and cells * max(n_, 1) <= 144:
                    axes.append([const(q) for q in range(n_)])
                    cells *= max(n_, 1)
                else:
                    axes.append([None])
            ok = True
            eqs = eq_subst(ctx)
            for combo in itertools.product(*axes):
                idx2, facts = [], []
                for q, s in zip(combo, spec.shape_):
                    if q is None:
                        q = fresh("g")
                        facts += [le(ZERO, q), lt(q, s)]
                    idx2.append(q)
                c = ctx.child(*facts)
                ea, es = a.fn(*idx2), spec.fn(*idx2)
                if eqs:
                    ea, es = X.subst(ea, eqs), X.subst(es, eqs)
                if kind == "vac":
                    ok = prove_zero(X.sub(X.sub(ea, es), ONE), c)
                    break
                ok = False
                for gs in ghost_levels(ea, es):
                    ok = prove_zero(X.sub(gs(ea), gs(es)), c)
                    if ok:
                        break
                if ok:
                    d = shim.defd(gs(ea))
                    if d is not TRUE:
                        ds = shim.defd(gs(es))
                        ok = d is ds or prove(d, c if ds is TRUE else c.child(ds))
                        if not ok:
                            return False, "definedness", time.time() - t0
                if not ok:
                    break
    except (N.TooBig, NotImplementedError, X.NotDiff, ZeroDivisionError, Undef) as ex:
        return False, f"engine:{type(ex).__name__}:{ex}", time.time() - t0
    be = ",".join(k for k in Stats.by if Stats.by[k] != before.get(k, 0)) or "simplifier"
    return ok, be, time.time() - t0


def sym_run(fn_, world):
    """-> list of (label, ok, backend, secs), paths, error"""
    ctx = Ctx(domains={})

    kits = []

    def run(path):
        k = Kit("sym", world=world)
        k.domains = ctx.domains
        k.path = path
        try:
            fn_(k)
        finally:
            k.unstub()
        k.ensure_frame()
        kits.append(k)
        return k

    paths = explore(run, ctx)
    return paths


def model_inputs(ctx, k):
    """concrete values satisfying the path condition, from z3"""
    import z3

    tr = N.ToZ3(ctx)
    s = z3.Solver()
    s.set("timeout", 3000)
    zs = [tr.go(a) for a in ctx.assume]
    done, extra = set(), []
    for _ in range(4):
        new = [t for t in tr.terms if t not in done]
        if not new:
            break
        done.update(new)
        for f in ctx.facts_for(new):
            extra.append(tr.go(f))
    s.add(*zs, *extra, *tr.side)
    if s.check() != z3.sat:
        return None
    m = s.model()

    def val(z):
        v = m.eval(z, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.numerator_as_long()) / float(v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(15)
            return float(a.numerator_as_long()) / float(a.denominator_as_long())
        raise Undef("model")

    out = {}
    try:
        for t in done:
            if t.op == "v":
                if t.args[1] in ("R", "I"):
                    out[t.args[0]] = val(tr.go(t))
            elif t.op == "el":
                ix = tuple(int(val(tr.go(a))) for a in t.args[1:])
                out.setdefault(("el", t.args[0]), {})[ix] = val(tr.go(t))
    except Undef:
        return None
    return out


def force_from_model(mod, base_env, domains):
    """merge model values into sampled arrays (dims clipped to small sizes)"""
    force = {}
    for k, v in mod.items():
        if isinstance(k, tuple):
            continue
        if k in base_env and not isinstance(base_env[k], np.ndarray):
            if isinstance(base_env[k], int):
                if 0 <= v <= 300:
                    force[k] = v
            else:
                force[k] = v
    for k, v in mod.items():
        if isinstance(k, tuple):
            name = k[1]
            if name in base_env:
                a = np.array(base_env[name], dtype=float)
                for ix, x in v.items():
                    ix = tuple(min(max(i, 0), s - 1) for i, s in zip(ix, a.shape))
                    if len(ix) == a.ndim:
                        a[ix] = x
                    # every element may have to satisfy the same pointwise condition
                force[name] = a
                b = np.array(base_env[name], dtype=float)
                if v:
                    b[...] = list(v.values())[0]
                force[("all", name)] = b
    return force


RESTRUCT = ("unexpected keyword argument", "required positional argument", "required keyword-only argument", "positional arguments but", "positional argument but",
            "got multiple values for argument", "values to unpack", "takes no arguments", "is not in list")


def contract_side(ex, strict):
    """An exception raised by the contract's own code while it reads what the real code returned.  A changed signature, result tuple or name means the
    code was restructured around the contract (undecided); in a bounded contract on whole fits anything else means that the result the contract reads is
    missing or malformed, which is a failure of the real code."""
    msg = str(ex)
    if isinstance(ex, (ImportError, NameError)) or any(r in msg for r in RESTRUCT):
        return "restructured"
    if isinstance(ex, AttributeError) and "NoneType" not in msg:
        return "restructured"
    return "violated" if strict else "restructured"


def conc_run(fn_, real, seed, force=None, strict=False):
    rng = np.random.default_rng(seed)
    k = Kit("conc", rng=rng, force=force, real=real)
    try:
        fn_(k)
        k.ensure_frame()
    except Skip:
        return None
    except (Undef,):
        return None
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        in_repo = any("/src/mssm/" in f.filename for f in tb)
        if not in_repo and contract_side(ex, strict) == "restructured":
            STUBMISS["n"] += 1
            STUBMISS["why"] = f"the contract could not read the result ({type(ex).__name__}: {str(ex)[:120]})"
            if os.environ.get("VT_DEBUG"):
                traceback.print_exc()
            return None
        k.fails.append(("raises", f"{type(ex).__name__}: {ex}"))
    finally:
        k.unstub()
    return k


def decide(name, fn_, world_factory, real, nsamp=12, nstand=120, seed=1, functions=(), symbolic=True, stop=True, thorough=False, strict=False):
    """Full decision for one contract."""
    res = Result(name)
    STUBMISS.update(n=0, why="")
    res.functions = list(functions)
    t0 = time.time()
    N.LAST_FAIL.clear()
    unproved = []
    err = None
    before = set(shim.ASSUMED)
    if symbolic:
        try:
            paths = sym_run(fn_, world_factory())
            res.paths = len(paths)
            for ctx, (st, val), p in paths:
                if st == "raise":
                    res.obls.append(("no exception", False, "path", 0.0))
                    unproved.append(("raises", ctx, repr(val)))
                    if os.environ.get("VT_DEBUG"):
                        traceback.print_exception(val)
                    continue
                if val.obls and N.z3_unsat(ctx, [], 1000):
                    res.vacuous = True
                for ob in val.obls:
                    if thorough and ob[0] == "eq":
                        vok, _, _ = discharge(("vac",) + tuple(ob[1:]))
                        if vok and not N.z3_unsat(ctx, [], 1000):
                            raise RuntimeError("vacuity: obligation +1 is provable: " + ob[1])
                    N.LAST_FAIL.clear()
                    ok, be, dt = discharge(ob, getattr(val, 'lemmas', ()))
                    res.obls.append((ob[1], ok, be, round(dt, 3)))
                    if not ok:
                        fctx = N.LAST_FAIL[0][0] if N.LAST_FAIL else ob[4]
                        unproved.append((ob[1], fctx, be))
                        for c, _ in N.LAST_FAIL[1:6]:
                            unproved.append((ob[1], c, be))
        except Unsupported as ex:
            err = f"outside the symbolic subset: {ex}"
        except RecursionError as ex:
            err = "outside the symbolic subset: recursion"
        except Exception as ex:
            err = f"engine error {type(ex).__name__}: {ex}"
            if os.environ.get("VT_DEBUG"):
                traceback.print_exc()
    else:
        err = "bounded contract"
    res.assumed = sorted(set(shim.ASSUMED) - before | set(shim.ASSUMED))
    # concrete reading
    proved = err is None and not unproved and res.obls
    refuted = [u for u in unproved if not str(u[2]).startswith("engine:")] if err is None else []
    n = nsamp if proved else (max(4 * nstand, 200) if refuted else nstand)
    fails = None
    cand = []
    for q, (lab, ctx, be) in enumerate(unproved[:12]):
        try:
            base = conc_run(fn_, real, seed * 7919 + q)
        except Exception:
            base = None
        m = model_inputs(ctx, None) if ctx is not None else None
        if base is not None and m:
            f = force_from_model(m, base.env, None)
            f1 = {k: v for k, v in f.items() if not isinstance(k, tuple)}
            f2 = {k: v for k, v in f1.items() if not isinstance(v, np.ndarray)}
            f2.update({k[1]: v for k, v in f.items() if isinstance(k, tuple)})
            cand += [f1, f2]
    done = 0
    for f in cand:
        k = conc_run(fn_, real, seed * 7919, f, strict)
        if k is not None:
            done += 1
            if k.fails:
                fails = k
                break
    s = 0
    tries = 0
    while fails is None and s < n and tries < 6 * n + 10:
        k = conc_run(fn_, real, seed * 100003 + tries, None, strict)
        tries += 1
        if k is None:
            continue
        if k.checks == 0 and not k.fails:
            continue
        s += 1
        if k.fails:
            fails = k
    res.samples = s + done
    if fails is not None:
        res.status = "violated"
        res.detail = "; ".join(f"{l}: {m}" for l, m in fails.fails[:3])
        res.replay = {
            "inputs": {kk: (v.tolist() if isinstance(v, np.ndarray) else v) for kk, v in fails.env.items()},
            "notes": fails.notes,
            "failed": fails.fails[:5],
        }
    elif res.samples == 0 and STUBMISS["n"]:
        res.status = "bounded"
        res.detail = "undecided: " + STUBMISS["why"] + " (the code was restructured around a callee contract); nothing was checked"
    elif res.samples == 0:
        res.status = "error"
        res.detail = "vacuous: no sample satisfied the precondition"
    elif proved:
        res.status = "proved"
    elif refuted:
        res.status = "undischarged"
        res.detail = "obligation not discharged: " + ", ".join(sorted({f"{u[0]} ({u[2]})" for u in refuted}))[:500]
        res.replay = {"obligations": [{"obligation": u[0], "verifier": str(u[2]), "path_condition": [str(a)[:300] for a in (u[1].assume if u[1] is not None else [])][:20]} for u in refuted[:10]],
                      "note": f"no failing input among {res.samples} executions of the real code"}
    else:
        res.status = "bounded"
        res.detail = err or ("undischarged: " + ", ".join(sorted({u[0] + " (" + str(u[2]) + ")" for u in unproved}))[:400])
    res.wall = round(time.time() - t0, 2)
    return res
