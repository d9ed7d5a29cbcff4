"""C18: predictions, intervals, posterior draws and the quantities a fitted model reports."""
from .common import *
from .C13 import sparseT, rows, mm, tr, fwd, perm, dn
import warnings as rwarn

R = Registry("C18")
R.exts = ("eigen_solvers",)
MD = "models."


# ------------------------------------------------------------------------------ sampling
def lst(t, r, c):
    return [[t[i, j] for j in range(c)] for i in range(r)]


def mvn(p, use=None, pm=None, zero=False, L=False, n=2):
    def c(k):
        ut = k.mod("utils")
        s = k.scalar("phi", "pos")
        mu = k.arr("mu", (p,))
        A = k.arr("A", (p, p), sp=True) if not L else None
        z = k.arr("z", (p * n,))
        S = k.S("z")
        Z = [[S[i * n + j] for j in range(n)] for i in range(p)]
        st = k.patch(ut, "scp.stats.norm.rvs", lambda size=None, random_state=None, loc=0, scale=1: z if size == p * n else k.nostub("number of draws"))
        P = None
        if pm is not None:
            import scipy.sparse as sp

            P = perm(pm)
            P = sparseT([[lift(int(v)) for v in r] for r in P]) if k.mode == "sym" else sp.csc_array(P)
        if L:
            low = {(i, j): k.scalar(f"l{i}{j}", "pos" if i == j else "real") for i in range(p) for j in range(i + 1)}
            A = [[low.get((i, j), 0) for j in range(p)] for i in range(p)]
            if k.mode == "sym":
                A = sparseT([[lift(v) for v in r] for r in A])
            else:
                import scipy.sparse as sp

                A = sp.csc_array(rnp.array([[float(v) for v in r] for r in A]))
            LS = [[k.S(f"l{i}{j}") if j <= i else lift(0) for j in range(p)] for i in range(p)]

            def back(U, B):
                if k.mode != "sym":
                    import scipy.sparse as sp, scipy.linalg as sl

                    return sp.csc_array(sl.solve_triangular(rnp.triu(dn(U)), dn(B)))
                u, b = rows(lift(U), p), lst(lift(B), p, n)
                rev = fwd([r[::-1] for r in u[::-1]], b[::-1])
                return sparseT(rev[::-1])

            if k.mode == "sym":
                k.stub(ut, "cpp_backsolve_tr", back)
            out = ut.sample_MVN(n, 0 if zero else mu, s, P, A, seed=3)
        else:
            kw = {} if use is None else {"use": list(use)}
            out = ut.sample_MVN(n, 0 if zero else mu, s, P, None, LI=A, seed=3, **kw)
        k.used(st)
        M = k.S("mu")
        rt = np.sqrt(k.S("phi"))
        idx = list(range(p)) if use is None else list(use)
        k.ensure_true("shape", out.shape == (len(idx), n))
        pv = list(range(p)) if pm is None else pm
        # row i of P' is unit row: (P' v)_i = v_{r} with P[r,i]=1
        src = {cc: int(r) for cc, r in enumerate(pv)}
        if L:
            # (L L')^{-1} * scale is the covariance of P'x: L'/sqrt(phi) (P (out - mu)) = z
            dev = [[out[i, j] - (0 if zero else (M[i] if k.mode == "sym" else k.env["mu"][i])) for j in range(n)] for i in range(p)]
            per = [[None] * n for _ in range(p)]
            for i in range(p):
                for j in range(n):
                    per[src[i]][j] = dev[i][j]
            for i in range(p):
                for j in range(n):
                    k.ensure_eq(f"draw {j}: equation {i}", sum((per[q][j] * (LS[q][i] if k.mode == "sym" else float(evalT(LS[q][i], k.env))) for q in range(i, p)), lift(0) if k.mode == "sym" else 0.0), rt * Z[i][j], atol=1e-7)
        else:
            AS = k.S("A")
            for a, i in enumerate(idx):
                for j in range(n):
                    # x = mu + sqrt(phi) P' LI' z has covariance phi P' LI' LI P
                    w = sum((AS[q, src[i]] * Z[q][j] for q in range(p)), lift(0)) * rt
                    k.ensure_eq(f"draw {j} of coefficient {i}", out[a, j], w if zero else M[i] + w)

    return c


for nm, kw in {"plain": dict(p=3), "one": dict(p=1), "use": dict(p=3, use=(2, 0)), "permuted": dict(p=3, pm=[2, 0, 1]), "permuted-use": dict(p=3, pm=[1, 2, 0], use=(2,)), "deviations": dict(p=2, zero=True), "deviations-use": dict(p=3, zero=True, use=(1, 2)), "L": dict(p=2, pm=[1, 0], L=True), "L-3": dict(p=3, pm=[1, 2, 0], L=True), "L-deviations": dict(p=2, pm=[0, 1], L=True, zero=True)}.items():
    R.add(f"sample-mvn:{nm}", functions=["utils.sample_MVN"], nsamp=6)(mvn(**kw))


@R.add("sample-mvn:refused", symbolic=False, nstand=2, functions=["utils.sample_MVN"], why_bounded="which combinations of arguments are refused", cbound="all of them")
def _mvnref(k):
    import scipy.sparse as sp

    ut = k.mod("utils")
    A = sp.csc_array(rnp.eye(2))
    mu = rnp.zeros(2)
    k.raises("neither factor", ValueError, lambda: ut.sample_MVN(1, mu, 1.0, A, None))
    k.raises("L without P", ValueError, lambda: ut.sample_MVN(1, mu, 1.0, None, A))
    k.raises("use without LI", ValueError, lambda: ut.sample_MVN(1, mu, 1.0, A, A, use=[0]))


@R.add("sample-mvn:moments", symbolic=False, nstand=4, functions=["utils.sample_MVN"], why_bounded="pseudo-random draws: sample mean and covariance with six-sigma tolerance", cbound="1 to 4 coefficients, 20000 draws")
def _mvnmom(k):
    import scipy.sparse as sp

    ut, rng = k.mod("utils"), k.rng
    p = int(rng.integers(1, 5))
    A = rnp.tril(rng.normal(size=(p, p))) + 2 * rnp.eye(p)
    pm = rng.permutation(p)
    P = perm(pm)
    s = float(rng.uniform(0.2, 3))
    mu = rng.normal(size=p)
    N = 20000
    which = int(rng.integers(0, 3))
    if which == 0:
        V = s * A.T @ A
        x = ut.sample_MVN(N, mu, s, None, None, LI=sp.csc_array(A), seed=int(rng.integers(0, 99)))
    elif which == 1:
        V = s * P.T @ A.T @ A @ P
        x = ut.sample_MVN(N, mu, s, sp.csc_array(P), None, LI=sp.csc_array(A), seed=int(rng.integers(0, 99)))
    else:
        V = s * P.T @ rnp.linalg.inv(A @ A.T) @ P
        x = ut.sample_MVN(N, mu, s, sp.csc_array(P), sp.csc_array(A), seed=int(rng.integers(0, 99)))
    k.note("which", which)
    sd = rnp.sqrt(rnp.diag(V))
    k.check("mean", bool(rnp.all(rnp.abs(x.mean(axis=1) - mu) < 6 * sd / N**0.5)))
    C = rnp.atleast_2d(rnp.cov(x))
    k.check("covariance", bool(rnp.all(rnp.abs(C - V) < 6 * rnp.sqrt((V**2 + rnp.outer(sd**2, sd**2)) / N))))
    y = ut.sample_MVN(3, mu, s, None, None, LI=sp.csc_array(A), seed=11)
    y2 = ut.sample_MVN(3, mu, s, None, None, LI=sp.csc_array(A), seed=11)
    k.check("a seed makes draws reproducible", bool(rnp.array_equal(y, y2)))


# ------------------------------------------------------------------------------ a formula as the model sees it
class Lhs:
    def __init__(self, v, f=None):
        self.variable, self.f = v, f


class Form:
    """what the methods of a model read of a formula; opaque parts are distinct tokens"""

    def __init__(self, nm, p, irf=False, y=None, notna=None, terms=None, cov_flat=None, lhs=None, idx=None):
        self.nm, self.n_coef = nm, p
        self.irf = irf
        self.terms = terms if terms is not None else ["term-" + nm]
        self.has_intercept = ("int", nm)
        self.y_flat, self.NOT_NA_flat = y, notna
        self.cov_flat, self.cov = cov_flat, ("cov", nm)
        self.built_penalties = True
        self.coef_idx_per_term = idx
        self.file_paths = []
        self._lhs = lhs or Lhs("y")
        self.seen = []

    def get_lhs(self):
        return self._lhs

    def get_var_map(self):
        return {"x": 0}

    def get_subgroup_variables(self):
        return []

    def get_linear_term_idx(self):
        return ("ltx", self.nm)

    def get_ir_smooth_term_idx(self):
        return [0] if self.irf else []

    def get_smooth_term_idx(self):
        return ("stx", self.nm)

    def get_random_term_idx(self):
        return ("rtx", self.nm)

    def get_var_types(self):
        return ("types", self.nm)

    def get_var_mins(self):
        return ("mins", self.nm)

    def get_var_maxs(self):
        return ("maxs", self.nm)

    def get_factor_levels(self):
        return ("levels", self.nm)

    def encode_data(self, d, prediction=False):
        self.seen.append((d, prediction))
        return None, ("enc", d.nm), None, None, ("enccov", d.nm), None, None


class Dat:
    def __init__(self, nm, cols=("x",)):
        self.nm, self.columns = nm, list(cols)


def builder(k, md, form, mats, use):
    """the contract of build_sparse_matrix_from_formula: the matrix of this formula, these data and these terms"""
    names = ["terms", "has_intercept", "ltx", "irstx", "stx", "rtx", "var_types", "var_map", "var_mins", "var_maxs", "factor_levels", "cov_flat", "cov"]
    calls = []

    def f(*a, use_only=None, **kw):
        d = dict(zip(names, a))
        d.update(kw)
        fm = form
        if d["terms"] is not fm.terms or d["has_intercept"] != fm.has_intercept or d["ltx"] != fm.get_linear_term_idx() or d["irstx"] != fm.get_ir_smooth_term_idx():
            k.nostub("another formula")
        for q, g in (("stx", fm.get_smooth_term_idx()), ("rtx", fm.get_random_term_idx()), ("var_types", fm.get_var_types()), ("var_map", fm.get_var_map()), ("var_mins", fm.get_var_mins()), ("var_maxs", fm.get_var_maxs()), ("factor_levels", fm.get_factor_levels())):
            if d[q] != g:
                k.nostub("arguments in another order")
        nm = d["cov_flat"][1]
        calls.append(dict(nm=nm, use=use_only, cov=d["cov"]))
        return mats[nm]

    st = k.stub(md, "build_sparse_matrix_from_formula", f)
    return st, calls


SHAPES = {"one-par": ([2], False, 0), "two-par-first": ([2, 1], False, 0), "two-par-second": ([1, 2], False, 1), "three-par-middle": ([1, 2, 1], False, 1), "extra-first": ([2], True, 0), "extra-two": ([1, 2], True, 1)}


def model(k, cls, shape, scale=True):
    """a model with arbitrary coefficients, covariance root and scale"""
    md = k.mod("models")
    ps, extra, par = shape
    tot = sum(ps) + (1 if extra else 0)
    forms = [Form(f"f{i}", p) for i, p in enumerate(ps)]
    if cls == "GAMM":
        m = md.GAMM(forms[0], None)
    else:
        m = getattr(md, cls)(forms, None)
    m.coef = k.arr("beta", (tot, 1))
    m.lvi = k.arr("V", (tot, tot), sp=True)
    m.has_extra_coef = extra
    cs = list(rnp.cumsum(ps))
    m.coef_split_idx = [int(c) for c in (cs if extra else cs[:-1])]
    m.scale = k.scalar("phi", "pos") if scale else 1
    o = int(sum(ps[:par]))
    return md, m, forms, o, tot


def quad(k, x, o, p, tot, phi):
    """phi * sum_q (sum_i V[q,o+i] x_i)^2"""
    V = k.S("V")
    s = lift(0)
    for q in range(tot):
        w = sum((V[q, o + i] * x[i] for i in range(p)), lift(0))
        s = s + w * w
    return s * phi


def predict(cls, shape, ci, use=None):
    ps, extra, par = SHAPES[shape]

    def c(k):
        md, m, forms, o, tot = model(k, cls, SHAPES[shape], cls == "GAMM")
        p, n = ps[par], 2
        al = k.scalar("alpha", "unit")
        X = k.arr("X", (n, p), sp=True)
        d = Dat("new")
        st, calls = builder(k, md, forms[par], {"new": X}, use)
        pred, pm, b = m.predict(use, d, alpha=al, ci=ci, par=par)
        k.used(st)
        k.ensure_true("the new data are encoded for prediction", forms[par].seen == [(d, True)])
        k.ensure_true("requested terms, no time-course data", calls == [dict(nm="new", use=use, cov=None)])
        Xs, be = k.S("X"), k.S("beta")
        phi = k.S("phi") if cls == "GAMM" else lift(1)
        k.ensure_eq("matrix", pm if k.mode == "sym" else dn(pm), Xs)
        for i in range(n):
            x = [Xs[i, j] for j in range(p)]
            k.ensure_eq(f"prediction {i}", pred[i], sum((x[j] * be[o + j, 0] for j in range(p)), lift(0)))
            if ci:
                k.ensure_eq(f"interval {i}", b[i], scp.stats.norm.ppf(1 - k.S("alpha") / 2) * np.sqrt(quad(k, x, o, p, tot, phi)), atol=1e-7)
        if not ci:
            k.ensure_true("no interval", b is None)

    return c


def predict_diff(cls, shape, use=None):
    ps, extra, par = SHAPES[shape]

    def c(k):
        md, m, forms, o, tot = model(k, cls, SHAPES[shape], cls == "GAMM")
        p, n = ps[par], 1
        al = k.scalar("alpha", "unit")
        mats = {"a": k.arr("Xa", (n, p), sp=True), "b": k.arr("Xb", (n, p), sp=True)}
        st, calls = builder(k, md, forms[par], mats, use)
        diff, b = m.predict_diff(Dat("a"), Dat("b"), use, alpha=al, par=par)
        k.used(st)
        k.ensure_true("both data sets, requested terms", sorted(q["nm"] for q in calls) == ["a", "b"] and all(q["use"] == use for q in calls))
        A, B, be = k.S("Xa"), k.S("Xb"), k.S("beta")
        phi = k.S("phi") if cls == "GAMM" else lift(1)
        for i in range(n):
            x = [A[i, j] - B[i, j] for j in range(p)]
            k.ensure_eq(f"difference {i}", diff[i], sum((x[j] * be[o + j, 0] for j in range(p)), lift(0)))
            k.ensure_eq(f"interval {i}", b[i], scp.stats.norm.ppf(1 - k.S("alpha") / 2) * np.sqrt(quad(k, x, o, p, tot, phi)), atol=1e-7)

    return c


def sample_post(cls, shape, dev, use=None):
    ps, extra, par = SHAPES[shape]

    def c(k):
        md, m, forms, o, tot = model(k, cls, SHAPES[shape], cls == "GAMM")
        ut = k.mod("utils")
        p, n = ps[par], 2
        z = k.arr("z", (tot * n,))
        Z = k.S("z")
        st = k.patch(ut, "scp.stats.norm.rvs", lambda size=None, random_state=None, loc=0, scale=1: z if size == tot * n else k.nostub("number of draws"))
        out = m.sample_post(n, None if use is None else list(use), deviations=dev, seed=1, par=par)
        k.used(st)
        idx = list(range(p)) if use is None else list(use)
        k.ensure_true("shape", out.shape == (len(idx), n))
        V, be = k.S("V"), k.S("beta")
        phi = k.S("phi") if cls == "GAMM" else lift(1)
        for a, i in enumerate(idx):
            for j in range(n):
                w = sum((V[q, o + i] * Z[q * n + j] for q in range(tot)), lift(0)) * np.sqrt(phi)
                k.ensure_eq(f"draw {j} of coefficient {i}", out[a, j], w if dev else be[o + i, 0] + w)

    return c


for sh in SHAPES:
    for cls in ("GSMM", "GAMMLSS", "GAMM"):
        if (cls == "GAMM") != (sh == "one-par") and not (cls != "GAMM" and sh != "one-par"):
            continue
        if cls == "GAMMLSS" and "extra" in sh:
            continue
        for ci in (False, True):
            R.add(f"predict:{cls}:{sh}:{'ci' if ci else 'point'}", functions=[MD + "GSMM.predict", MD + cls + ".predict"], nsamp=4)(predict(cls, sh, ci, None if ci else [0]))
        R.add(f"predict-diff:{cls}:{sh}", functions=[MD + "GSMM.predict_diff", MD + cls + ".predict_diff"], nsamp=4)(predict_diff(cls, sh, [0] if "two" in sh else None))
        R.add(f"sample-post:{cls}:{sh}", functions=[MD + "GSMM.sample_post", "utils.sample_MVN"], nsamp=4)(sample_post(cls, sh, False))
        R.add(f"sample-post:{cls}:{sh}:deviations", functions=[MD + "GSMM.sample_post", "utils.sample_MVN"], nsamp=4)(sample_post(cls, sh, True, [SHAPES[sh][0][SHAPES[sh][2]] - 1]))


@R.add("predict:refused", symbolic=False, nstand=2, functions=[MD + "GSMM.predict", MD + "GSMM.predict_diff", MD + "GSMM.sample_post", MD + "GSMM.get_pars", MD + "GSMM.get_ys", MD + "GSMM.get_mmat"], why_bounded="which calls are refused", cbound="all of them")
def _predref(k):
    md = k.mod("models")
    m = md.GSMM([Form("a", 1), Form("b", 1)], None)
    m.coef = rnp.zeros((2, 1))
    m.coef_split_idx = [1]
    for nm, g in {"predict": lambda: m.predict(None, Dat("n"), par=2), "diff": lambda: m.predict_diff(Dat("n"), Dat("n"), None, par=2), "post": lambda: m.sample_post(1, par=2), "pars": lambda: m.get_pars(par=2), "ys": lambda: m.get_ys(par=2), "mmat": lambda: m.get_mmat(par=2)}.items():
        k.raises(nm + ": unknown parameter", ValueError, g)
    k.raises("missing variable", IndexError, lambda: m.predict(None, Dat("n", ("w",)), par=0))
    f = Form("a", 1)
    f.built_penalties = False
    m = md.GSMM([f], None)
    k.raises("matrix before fitting", ValueError, lambda: m.get_mmat())


# ------------------------------------------------------------------------------ getters
def pars(shape):
    ps, extra, par = SHAPES[shape]

    def c(k):
        md, m, forms, o, tot = model(k, "GSMM", SHAPES[shape], False)
        be = k.S("beta")
        for fi, f in enumerate(forms):
            f.coef_idx_per_term = [rnp.arange(ps[fi])[:1], rnp.arange(ps[fi])[1:]]
        k.ensure_eq("all", m.get_pars(), be)
        off = 0
        for fi, p in enumerate(ps):
            v = m.get_pars(par=fi)
            k.ensure_true(f"size {fi}", v.shape == (p, 1))
            for j in range(p):
                k.ensure_eq(f"coefficient {j} of {fi}", v[j, 0], be[off + j, 0])
            v = m.get_pars(par=fi, term=0)
            k.ensure_true(f"term size {fi}", v.shape[0] == 1)
            k.ensure_eq(f"term 0 of {fi}", v[0, 0], be[off, 0])
            if p > 1:
                v = m.get_pars(par=fi, term=1)
                k.ensure_eq(f"term 1 of {fi}", v[0, 0], be[off + 1, 0])
            off += p
        if extra:
            v = m.get_pars(par=len(ps))
            k.ensure_true("size extra", v.shape == (1, 1))
            k.ensure_eq("extra", v[0, 0], be[off, 0])

    return c


for sh in SHAPES:
    R.add(f"get-pars:{sh}", functions=[MD + "GSMM.get_pars"], nsamp=3)(pars(sh))


@R.add("get-pars:GAMM", functions=[MD + "GAMM.get_pars"], nsamp=3)
def _gp(k):
    md, m, forms, o, tot = model(k, "GAMM", ([3], False, 0))
    forms[0].coef_idx_per_term = [rnp.array([0]), rnp.array([1, 2])]
    be = k.S("beta")
    c, s = m.get_pars()
    k.ensure_eq("coef", c, be)
    k.ensure_eq("scale", s, k.S("phi"))
    c, s = m.get_pars(term=1)
    k.ensure_true("size", c.shape[0] == 2)
    k.ensure_eq("term", c[1, 0], be[2, 0])


class Fam:
    """a family that records what it is asked and answers with opaque values"""

    def __init__(self, val, n_par=1, link=None):
        self.val, self.calls, self.n_par = val, [], n_par
        self.links = [link] * n_par

    def llk(self, *a, **kw):
        self.calls.append((a, kw))
        return self.val

    def get_resid(self, *a, **kw):
        self.calls.append((a, kw))
        return self.val


NA = [True, False, True]


def data_form(k, nm, vn, f=None, irf=False, p=2, n=3):
    y = k.arr("y" + nm, (n, 1))
    F = Form(nm, p, irf=irf, y=y, notna=rnp.array(NA), cov_flat=None, lhs=Lhs(vn, f))
    F.cov_flat = k.arr("c" + nm, (n, 1))
    return F


def mm_builder(k, md, forms):
    """the contract of build_sparse_matrix_from_formula as a function of formula, rows and terms: row i is a function of the covariates of row i"""

    def f(terms, hi, ltx, irstx, stx, rtx, vt, vm, mn, mx, fl, cov_flat, cov, use_only=None):
        F = next(q for q in forms if q.terms is terms)
        if (hi, ltx, stx, rtx, vt, mn, mx, fl) != (F.has_intercept, F.get_linear_term_idx(), F.get_smooth_term_idx(), F.get_random_term_idx(), F.get_var_types(), F.get_var_mins(), F.get_var_maxs(), F.get_factor_levels()):
            k.nostub("arguments in another order")
        if F.irf:
            if cov != F.cov or cov_flat.shape[0] != F.cov_flat.shape[0]:
                k.ensure_true("time-course terms are built from all rows", False)
        elif cov is not None:
            k.nostub("time-course data without such terms")
        n = cov_flat.shape[0]
        off = lift(0) if use_only is None else lift(10 + sum(use_only))
        out = [[lift(cov_flat[i, 0]) * (j + 1) + off for j in range(F.n_coef)] for i in range(n)]
        if k.mode == "sym":
            return sparseT(out)
        import scipy.sparse as sp

        return sp.csc_array(rnp.array([[float(evalT(v, {})) for v in r] for r in out]))

    return k.stub(md, "build_sparse_matrix_from_formula", f)


def expect_X(k, F, drop, use=None):
    off = 0 if use is None else 10 + sum(use)
    idx = [i for i in range(3) if NA[i]] if drop else [0, 1, 2]
    c = k.S("c" + F.nm)
    return [[c[i, 0] * (j + 1) + off for j in range(F.n_coef)] for i in idx]


def expect_y(k, F, drop, f=None):
    idx = [i for i in range(3) if NA[i]] if drop else [0, 1, 2]
    y = k.S("y" + F.nm)
    return [(y[i, 0] if f is None else f(y[i, 0])) for i in idx]


def same(k, lab, got, want):
    """compare a matrix/vector with lists of terms"""
    if not isinstance(want[0], list):
        want = [[w] for w in want]
    g = got if k.mode == "sym" else dn(got)
    if tuple(g.shape) != (len(want), len(want[0])):
        k.ensure_true(lab + ": shape", False)
        return
    for i in range(len(want)):
        for j in range(len(want[0])):
            k.ensure_eq(f"{lab} [{i},{j}]", g[i, j], want[i][j])


def getters(drop, irf):
    def c(k):
        md = k.mod("models")
        sq = lambda v: v * v
        forms = [data_form(k, "a", "y", irf=irf), data_form(k, "b", "y", p=1), data_form(k, "d", "y", f=sq, p=1), data_form(k, "e", "w", p=2)]
        fam = Fam(k.scalar("value"))
        m = md.GSMM(forms, fam)
        st = mm_builder(k, md, forms)
        ys = m.get_ys(drop_NA=drop)
        k.ensure_true("one response per formula", len(ys) == 4)
        same(k, "first response", ys[0], expect_y(k, forms[0], drop))
        k.ensure_true("repeated response is not passed again", ys[1] is None)
        k.ensure_true("transformed response is passed", ys[2] is not None and ys[3] is not None)
        if ys[2] is not None:
            same(k, "transformed response", ys[2], expect_y(k, forms[2], drop, sq))
        if ys[3] is not None:
            same(k, "other response", ys[3], expect_y(k, forms[3], drop))
        for i in (1, 3):
            same(k, f"response {i} asked for", m.get_ys(drop_NA=drop, par=i), expect_y(k, forms[i], drop))
        Xs = m.get_mmat(drop_NA=drop)
        k.used(st)
        k.ensure_true("one matrix per formula", len(Xs) == 4)
        for i, F in enumerate(forms):
            same(k, f"matrix {i}", Xs[i], expect_X(k, F, drop))
        same(k, "matrix asked for", m.get_mmat(drop_NA=drop, par=3, use_terms=[1]), expect_X(k, forms[3], drop, [1]))
        same(k, "restricted matrix", m.get_mmat([0], drop_NA=drop, par=0), expect_X(k, forms[0], drop, [0]))
        # log-likelihood and residuals belong to the coefficients, responses and matrices
        m.coef, m.coef_split_idx = k.arr("beta", (6, 1)), [2, 3, 4]
        m.penalty = k.scalar("pen", "pos")
        v, pen = k.S("value"), k.S("pen")
        k.ensure_eq("penalized log-likelihood", m.get_llk(drop_NA=drop), v - pen / 2)
        k.ensure_eq("log-likelihood", m.get_llk(False, drop_NA=drop), v)
        r = m.get_resid(drop_NA=drop, kind=3)
        k.ensure_eq("residuals", r, v)
        k.ensure_true("options passed on", fam.calls[-1][1] == {"kind": 3})
        for a, kw in fam.calls:
            k.ensure_true("coefficients", a[0] is m.coef and a[1] == [2, 3, 4])
            same(k, "response handed over", a[2][0], expect_y(k, forms[0], drop))
            k.ensure_true("repeated response handed over", a[2][1] is None)
            for i, F in enumerate(forms):
                same(k, f"matrix handed over {i}", a[3][i], expect_X(k, F, drop))

    return c


for drop in (True, False):
    for irf in (False, True):
        R.add(f"getters:{'drop' if drop else 'keep'}{':time-course' if irf else ''}", functions=[MD + "GSMM.get_ys", MD + "GSMM.get_mmat", MD + "GSMM.get_llk", MD + "GSMM.get_resid"], nsamp=3)(getters(drop, irf))


@R.add("getters:before-fitting", symbolic=False, nstand=1, functions=[MD + "GSMM.get_llk", MD + "GSMM.get_reml", MD + "GAMMLSS.get_llk", MD + "GAMMLSS.get_reml", MD + "GAMMLSS.get_resid", MD + "GAMM.get_llk", MD + "GAMM.get_reml", MD + "GAMM.get_resid"], why_bounded="which calls are refused", cbound="all of them")
def _before(k):
    md = k.mod("models")
    G = md.GSMM([Form("a", 1)], None)
    k.check("GSMM llk", G.get_llk() is None)
    k.raises("GSMM reml", ValueError, lambda: G.get_reml())
    G = md.GAMMLSS([Form("a", 1)], None)
    k.check("GAMMLSS llk", G.get_llk() is None)
    k.raises("GAMMLSS reml", ValueError, lambda: G.get_reml())
    k.raises("GAMMLSS resid", ValueError, lambda: G.get_resid())
    F = md.GAMM(Form("a", 1), md.Gaussian())
    k.check("GAMM llk", F.get_llk() is None)
    k.raises("GAMM reml", ValueError, lambda: F.get_reml())
    k.raises("GAMM resid", ValueError, lambda: F.get_resid())
    F.res, F.preds = rnp.zeros((2, 1)), [rnp.zeros((2, 1))]
    k.raises("unknown residual", ValueError, lambda: F.get_resid("working"))
    k.raises("undocumented residual", ValueError, lambda: F.get_resid("family"))
    k.raises("ar1 residual without rho", ValueError, lambda: F.get_resid("ar1"))
    F.formulas[0].file_paths = ["x"]
    k.raises("matrix of files", NotImplementedError, lambda: F.get_mmat())
    k.raises("llk of files", NotImplementedError, lambda: F.get_llk())


@R.add("getters:GAMMLSS", functions=[MD + "GAMMLSS.get_llk", MD + "GAMMLSS.get_ys", MD + "GAMMLSS.get_resid", MD + "GAMMLSS.get_mmat"], nsamp=4)
def _glss(k):
    md, ef = k.mod("models"), k.mod("exp_fam")
    forms = [data_form(k, "a", "y"), data_form(k, "b", "w", p=1)]
    fam = Fam(k.scalar("value"), 2)
    fam.links = [ef.Identity(), ef.LOG()]
    m = md.GAMMLSS(forms, fam)
    mm_builder(k, md, forms)
    m.preds = [k.arr("e0", (2, 1), "small"), k.arr("e1", (2, 1), "small")]
    m.mus = ["mu0", "mu1"]
    m.coef = m.hessian = 1
    m.penalty = k.scalar("pen", "pos")
    v = k.S("value")
    k.ensure_eq("penalized log-likelihood", m.get_llk(), v - k.S("pen") / 2)
    k.ensure_eq("log-likelihood", m.get_llk(False), v)
    for a, kw in fam.calls:
        same(k, "response", a[0], expect_y(k, forms[0], True))
        e0, e1 = k.S("e0"), k.S("e1")
        same(k, "first parameter", a[1], [e0[0, 0], e0[1, 0]])
        same(k, "second parameter", a[2], [exp(e1[0, 0]), exp(e1[1, 0])])
        k.ensure_true("two parameters", len(a) == 3)
    k.ensure_eq("residuals", m.get_resid(q=1), v)
    a, kw = fam.calls[-1]
    same(k, "response for residuals", a[0], expect_y(k, forms[0], True))
    k.ensure_true("parameters for residuals", a[1:] == ("mu0", "mu1") and kw == {"q": 1})
    for i, F in enumerate(forms):
        same(k, f"matrix {i}", m.get_mmat()[i], expect_X(k, F, True))
    same(k, "matrix asked for", m.get_mmat([1], 1), expect_X(k, forms[1], True, [1]))


def gamm_llk(fam, link, rho):
    """the log-likelihood of a GAMM is its family's at the linear predictor and scale of the model"""

    def c(k):
        md, ef, ut = k.mod("models"), k.mod("exp_fam"), k.mod("utils")
        F = data_form(k, "a", "y")
        if fam == "Gamma":
            F.y_flat = k.arr("ypos", (3, 1), "pos")
        fm = getattr(ef, fam)(getattr(ef, link)())
        m = md.GAMM(F, fm)
        m.preds = [k.arr("eta", (2, 1), "small")]
        m.penalty = k.scalar("pen", "pos")
        m.scale = k.scalar("phi", "pos")
        m.rho = k.scalar("rho", facts=lambda e: [lt(const(-1), e), lt(e, const(1))], sample=lambda rg, s: rg.uniform(-0.9, 0.9)) if rho else None
        m.res_ar = k.arr("rar", (2, 1))
        cor = lift(0)
        if rho:
            cv = k.scalar("cor")
            st = k.stub(md, "computeAr1Chol", lambda form, r: (None, cv))
            cor = k.S("cor")
        yv = [k.S("ypos" if fam == "Gamma" else "ya")[i, 0] for i in (0, 2)]
        et = k.S("eta")
        ws = k.scalar("s2", "pos")

        def spec(phi):
            t = lift(0)
            for i in range(2):
                e = et[i, 0]
                mu = e if link == "Identity" else exp(e)
                y = yv[i]
                if fam == "Gaussian":
                    if rho and link == "Identity":
                        y, mu = k.S("rar")[i, 0], lift(0)
                    t = t + E1(normlogpdfE, y, mu, np.sqrt(phi))
                elif fam == "Gamma":
                    t = t + E1(gammalogpdfE, y, 1 / phi, phi * mu)
                else:
                    t = t + E1(poissonlogpmfE, y, mu)
            return t

        two = fam != "Poisson"  # the penalty is relative to the scale of the family
        k.ensure_eq("penalized", m.get_llk(), spec(k.S("phi")) - k.S("pen") / (2 * k.S("phi") if two else 2) + cor, atol=1e-7)
        k.ensure_eq("unpenalized", m.get_llk(False), spec(k.S("phi")) + cor, atol=1e-7)
        if fam != "Poisson":
            k.ensure_eq("another scale", m.get_llk(False, ws), spec(k.S("s2")) + cor, atol=1e-7)
            k.ensure_eq("penalized at another scale", m.get_llk(True, ws), spec(k.S("s2")) - k.S("pen") / (2 * k.S("s2")) + cor, atol=1e-7)
        if rho:
            k.used(st)

    return c


for fam, link in (("Gaussian", "Identity"), ("Gaussian", "LOG"), ("Gamma", "LOG")):
    for rho in (False, True):
        R.add(f"gamm-llk:{fam}:{link}{':ar1' if rho else ''}", functions=[MD + "GAMM.get_llk"], nsamp=4)(gamm_llk(fam, link, rho))


@R.add("gamm-residuals", functions=[MD + "GAMM.get_resid"], nsamp=4)
def _gres(k):
    md, ef = k.mod("models"), k.mod("exp_fam")
    F = data_form(k, "a", "y")
    asked = []
    D_ = k.arr("D", (2, 1), "pos")

    class Fm:
        link = ef.LOG()

        def D(self, y, mu):
            asked.append((y, mu))
            return D_

    m = md.GAMM(F, Fm())
    m.preds = [k.arr("eta", (2, 1), "small")]
    m.res = k.arr("r", (2, 1))
    m.res_ar = k.arr("ra", (2, 1))
    k.ensure_eq("default", m.get_resid(), k.S("r"))
    m.rho = 0.3
    k.ensure_eq("ar1", m.get_resid("ar1"), k.S("ra"))
    d = m.get_resid("Deviance")
    et, y, dv = k.S("eta"), k.S("ya"), k.S("D")
    same(k, "response", asked[0][0], [y[0, 0], y[2, 0]])
    same(k, "mean", asked[0][1], [exp(et[0, 0]), exp(et[1, 0])])
    for a, i in enumerate((0, 2)):
        k.ensure_eq(f"deviance residual {a}", d[a, 0], np.sign(y[i, 0] - exp(et[a, 0])) * np.sqrt(dv[a, 0]), atol=1e-7)
    m2 = md.GAMM(F, ef.Gaussian())
    m2.preds, m2.res = m.preds, m.res
    d = m2.get_resid("Deviance")
    for a, i in enumerate((0, 2)):
        k.ensure_eq(f"Gaussian deviance residual {a}", d[a, 0], y[i, 0] - et[a, 0], atol=1e-7)


@R.add("gamm-mmat", functions=[MD + "GAMM.get_mmat"], nsamp=3)
def _gmm(k):
    md, ef = k.mod("models"), k.mod("exp_fam")
    F = data_form(k, "a", "y")
    m = md.GAMM(F, ef.Gaussian())
    mm_builder(k, md, [F])
    same(k, "matrix", m.get_mmat(), expect_X(k, F, True))
    same(k, "restricted", m.get_mmat([2]), expect_X(k, F, True, [2]))
    m.transform_X = lambda X: X * 3
    same(k, "transformed", m.get_mmat(), [[3 * v for v in r] for r in expect_X(k, F, True)])


# ------------------------------------------------------------------------------ whole-function intervals
@R.add("whole-interval", symbolic=False, nstand=40, functions=["utils.adjust_CI"], why_bounded="order statistics of simulated deviations", cbound="1 to 6 coefficients and rows, 50 draws; columns that sum to zero, rows without uncertainty")
def _adj(k):
    import scipy.sparse as sp

    ut, rng = k.mod("utils"), k.rng
    p, n, N = int(rng.integers(1, 7)), int(rng.integers(1, 7)), 50
    X = rng.normal(size=(n, p)) * (rng.random((n, p)) < 0.7)
    if n > 1 and rng.random() < 0.5:
        X[0] = -X[1:].sum(axis=0)  # all columns sum to zero
    if rng.random() < 0.4:
        X[int(rng.integers(0, n))] = 0
    if not X.any():
        X[0, 0] = 1.0
    post = rng.normal(size=(p, N))
    seen = []

    class M:
        def sample_post(self, n_ps, use_post=None, deviations=False, seed=None, par=0):
            seen.append((n_ps, deviations, seed, par))
            return post if use_post is None else post[use_post]

    b = rnp.sqrt((X**2).sum(axis=1)) * rng.uniform(0.5, 2)
    al = float(rng.uniform(0.01, 0.5))
    use = None if rng.random() < 0.4 else [0]
    k.note("args", dict(X=X.tolist(), use=use, alpha=al))
    got = ut.adjust_CI(M(), N, b.copy(), sp.csc_array(X), use, al, 5, 1)
    dev = rnp.abs(X @ post)
    q = rnp.where(b[:, None] > 0, dev / rnp.where(b > 0, b, 1)[:, None], 0.0).max(axis=0)
    k.check("draws asked for", seen == [(N, True, 5, 1)])
    k.close("interval", got, b * rnp.quantile(q, 1 - al))


# ------------------------------------------------------------------------------ fitted models
def fitted(kind):
    def c(k):
        import pandas as pd

        md, rng = k.mod("models"), k.rng
        n = int(rng.integers(60, 120))
        x, w = rng.uniform(-1, 1, n), rng.normal(size=n)
        g = rnp.array(["a", "b", "c"])[rng.integers(0, 3, n)]
        g[:3] = ["c", "a", "b"]
        eta = 0.4 + rnp.sin(2 * x) + 0.3 * (g == "b") + 0.2 * w
        y = eta + rng.normal(size=n) * 0.5
        df = pd.DataFrame(dict(x=x, w=w, g=g, y=y))
        if rng.random() < 0.5:
            df.loc[df.index[rng.integers(3, n, 3)], "y"] = rnp.nan
        df["g"] = df["g"].astype(object)
        pos = df.copy()
        pos["y"] = rnp.exp(pos["y"])
        F = md.Formula
        T1 = lambda: [md.i(), md.l(["g"]), md.f(["x"], nk=int(6)), md.l(["w"])] if rng.random() < 0.5 else [md.i(), md.l(["w"]), md.f(["x"], by="g", nk=5), md.ri("g")]
        if kind == "GAMM":
            m = md.GAMM(F(md.lhs("y"), T1(), data=df), md.Gaussian())
            m.fit(progress_bar=False, max_outer=5)
        elif kind == "GAMM-Gamma":
            m = md.GAMM(F(md.lhs("y"), T1(), data=pos), md.Gamma(md.LOG()))
            m.fit(progress_bar=False, max_outer=5)
        else:
            m = md.GAMMLSS([F(md.lhs("y"), T1(), data=df), F(md.lhs("y"), [md.i(), md.f(["x"], nk=5)], data=df)], md.GAUMLSS([md.Identity(), md.LOGb(-0.01)]))
            m.fit(progress_bar=False, max_outer=5)
        npar = len(m.formulas)
        off = 0
        V = (m.lvi.T @ m.lvi).toarray() * m.scale
        for par in range(npar):
            form = m.formulas[par]
            p = form.n_coef
            X = m.get_mmat() if npar == 1 else m.get_mmat(par=par)
            X = X.toarray()
            ok = form.NOT_NA_flat
            tr_ = df.loc[ok]
            b = m.coef[off : off + p, 0]
            pred, pm, ci = m.predict(None, tr_, ci=True, alpha=0.1, par=par)
            k.close("prediction at the training data", pred, X @ b, atol=1e-7)
            k.close("matrix at the training data", pm.toarray(), X, atol=1e-9)
            k.close("predictor kept by the model", pred, m.preds[par].flatten(), atol=1e-6)
            import scipy.stats as ss

            Vp = V[off : off + p, off : off + p]
            k.close("interval", ci, ss.norm.ppf(0.95) * rnp.sqrt(rnp.einsum("ij,jk,ik->i", X, Vp, X)), atol=1e-7)
            # terms add up
            nt = len(form.terms)
            parts = [m.predict([t], tr_, par=par)[0] for t in range(nt)]
            k.close("predictions of the terms add up", sum(parts), pred, atol=1e-7)
            sub = [t for t in range(nt) if rng.random() < 0.5] or [0]
            k.close("restricted prediction", m.predict(sub, tr_, par=par)[0], sum(parts[t] for t in sub), atol=1e-7)
            i1, i2 = rng.integers(0, len(tr_), 8), rng.integers(0, len(tr_), 8)
            d, dc = m.predict_diff(tr_.iloc[i1], tr_.iloc[i2], None, alpha=0.1, par=par)
            k.close("difference", d, pred[i1] - pred[i2], atol=1e-7)
            dX = X[i1] - X[i2]
            k.close("interval of the difference", dc, ss.norm.ppf(0.95) * rnp.sqrt(rnp.maximum(rnp.einsum("ij,jk,ik->i", dX, Vp, dX), 0)), atol=1e-6)
            wb = m.predict(None, tr_, ci=True, alpha=0.1, whole_interval=True, n_ps=300, seed=3, par=par)[2]
            post = m.sample_post(300, deviations=True, seed=3, par=par)
            k.close("whole-function interval", wb, ci * rnp.quantile((rnp.abs(X @ post) / ci[:, None]).max(axis=0), 0.9), atol=1e-7)
            # every coefficient of a term is where the formula says
            for t in range(nt):
                k.close("coefficients of a term", (m.get_pars(term=t)[0] if npar == 1 else m.get_pars(par=par, term=t)).flatten(), b[form.coef_idx_per_term[t]])
            off += p

    return c


for kd in ("GAMM", "GAMM-Gamma", "GAMMLSS"):
    R.add(f"fitted:{kd}", symbolic=False, nstand=3, timeout=120, functions=[MD + "GSMM.predict", MD + "GSMM.predict_diff", "utils.adjust_CI", MD + "GSMM.sample_post"], why_bounded="whole fitted models", cbound="random data of 60-120 rows, formulas with factors, smooths, by-factors, random intercepts, missing responses")(fitted(kd))


# ---------------------------------------------------------------- histories: what a model reports belongs to its last fit
def refit(kind):
    def c(k):
        import warnings

        import pandas as pd

        warnings.simplefilter("ignore")
        md = k.mod("models")
        rng = k.rng
        nsub, nt = 6, int(rng.integers(12, 20))
        n = nsub * nt
        x, w = rng.uniform(0, 1, n), rng.uniform(0, 1, n)
        y = 1 + rnp.sin(4 * x) + w + 0.4 * rng.normal(size=n)
        df = pd.DataFrame(dict(x=x, w=w, y=y, s=rnp.repeat([f"s{q}" for q in range(nsub)], nt), time=rnp.tile(rnp.arange(nt), nsub)))
        if kind == "Gamma":
            df["y"] = rnp.exp(df["y"])
        fam = (lambda: md.Gamma(md.LOG())) if kind == "Gamma" else md.Gaussian
        lh = md.lhs("y")
        form = lambda: md.Formula(lh, [md.i(), md.f(["x"], nk=8), md.f(["w"], nk=6)], data=df, series_id="s")
        utl = k.mod("utils")

        def look(m):
            utl.compute_bias_corrected_edf(m)
            return dict(coef=m.coef, llk=m.get_llk(True), llk0=m.get_llk(False), edf=m.edf, edf1=m.edf1, term_edf1=rnp.array(m.term_edf1), mmat=m.get_mmat().toarray(), scale=m.scale, preds=m.preds[0], res=m.get_resid(), reml=m.get_reml())

        if kind == "GAMMLSS":
            mk = lambda: md.GAMMLSS([form(), md.Formula(md.lhs("y"), [md.i()], data=df, series_id="s")], md.GAUMLSS([md.Identity(), md.LOGb(-0.01)]))
            firsts = [dict(max_outer=1), dict(extend_lambda=True)]

            def look(m):
                utl.compute_bias_corrected_edf(m)
                return dict(coef=m.coef, llk=m.get_llk(True), edf=m.edf, edf1=m.edf1, term_edf1=rnp.array(m.term_edf1), preds=m.preds[0], preds1=m.preds[1], reml=m.get_reml())
        else:
            mk = lambda: md.GAMM(form(), fam())
            Q = rnp.diag(rng.uniform(0.5, 2, form().n_coef))
            firsts = [dict(max_outer=1), dict(rho=0.4), dict(transform_X=lambda X: (X @ Q).tocsc() if hasattr(X @ Q, "tocsc") else k_csc(X @ Q)), dict(offset=0.5), dict(rho=-0.3, offset=rng.normal(0, 0.3, (n, 1)))]
        import scipy.sparse as sp

        k_csc = sp.csc_array
        fresh = mk()
        fresh.fit(progress_bar=False)
        want = look(fresh)
        for opts in firsts:
            m = mk()
            m.fit(progress_bar=False, **opts)
            look(m)
            if kind == "GAMM" and "rho" in opts:
                k.check("autocorrelation is kept", m.rho == opts["rho"])
            m.fit(progress_bar=False)
            got = look(m)
            for q, v in want.items():
                k.close(f"{q} of a second fit, after a fit with {sorted(opts)}", rnp.asarray(got[q], float), rnp.asarray(v, float), rtol=1e-6, atol=1e-7)

    return c


for kd in ("GAMM", "Gamma", "GAMMLSS"):
    R.add(f"refit:{kd}", symbolic=False, nstand=2, timeout=200, functions=[MD + "GAMM.fit", MD + "GAMMLSS.fit", MD + "GAMM.get_llk", MD + "GAMM.get_mmat", MD + "GAMM.get_resid", "utils.compute_bias_corrected_edf"], why_bounded="sequences of whole fits", cbound="six series of 12-19 samples; a first fit with max_outer, rho, transform_X or an offset, then a second without")(refit(kd))
