"""C22: fitting ends at the optimum of the documented criteria and depends on data and model only."""
from .common import *
from .C11 import lterm
from .C13 import dn
from .C18 import *  # noqa: F401,F403
import warnings as rwarnings
import contextlib, io

R = Registry("C22")
R.exts = ("eigen_solvers", "dChol", "hazard")
GS = "gamm_solvers."
MD = "models."
WB = "iterates compiled factorisations and updates to convergence; every function it composes is under contract in C06, C11, C13, C15, C16 and C19"


def frame(rng, n):
    import pandas as pd

    d = pd.DataFrame(dict(x=rng.uniform(size=n), w=rng.uniform(size=n), v=rng.normal(size=n), s=rnp.repeat([f"s{q}" for q in range(n // 20 + 1)], 20)[:n], a=rng.choice(["a", "b"], n)))
    e = rng.uniform(0.5, 1.2) * rnp.sin(5 * d.x) + rng.uniform(-1, 1) * d.w + 0.2 * d.v + 0.3 * (d.a == "a") + rnp.repeat(rng.normal(size=n // 20 + 1) * 0.4, 20)[:n]
    d["y"] = e + 0.4 * rng.normal(size=n)
    d["g"] = rng.gamma(3, rnp.exp(e) / 3)
    d["ig"] = rnp.exp(0.3 * e) * rng.wald(1, 20, n)
    d["c"] = rng.poisson(rnp.exp(e)).astype(float)
    d["b"] = (rng.uniform(size=n) < 1 / (1 + rnp.exp(-e))).astype(float)
    d["z"] = d.x - d.w + 0.3 * rng.normal(size=n) + 0.5 * (d.y - e)
    d["m"] = (rng.uniform(size=n) < 0.4).astype(float) + (rng.uniform(size=n) < 1 / (1 + rnp.exp(-e)))
    d["t"] = rnp.ceil(10 * rng.exponential(rnp.exp(-e)))
    d["dl"] = (rng.uniform(size=n) < 0.8).astype(float)
    return d


def terms(md, rng, rich):
    """a list of functions, so that every formula gets terms of its own"""
    T_ = [lambda: md.i(), lambda: md.f(["x"], nk=7)]
    extra = [lambda: md.f(["w"], nk=5), lambda: md.l(["v"]), lambda: md.l(["a"]), lambda: md.ri("s"), lambda: md.f(["x"], by="a", nk=5) if rich > 1 else md.f(["w"], nk=6), lambda: md.f(["x", "w"], te=True, nk=4) if rich > 2 else md.f(["v"], nk=5)]
    if not rich:
        return T_[:1] + [lambda: md.f(["w"], nk=5)]
    pick = rng.choice(len(extra), size=int(rng.integers(1, 3)), replace=False)
    if 1 in pick and 5 in pick:
        pick = [q for q in pick if q != 5]
    if 0 in pick and 4 in pick:
        pick = [q for q in pick if q != 4]
    if rich > 1 and 4 in pick:
        T_ = T_[:1] + [lambda: md.l(["a"])]  # by-smooths replace the common one
        pick = [q for q in pick if q != 2]
    if rich > 2 and 5 in pick:
        T_, pick = T_[:1], [q for q in pick if q not in (0, 4)]
    lin = [q for q in pick if q in (1, 2)]
    return T_[:1] + [extra[q] for q in lin] + T_[1:] + [extra[q] for q in pick if q not in lin]


def build(k, kind, d, ts, ts2):
    md, ef, ut = k.mod("models"), k.mod("exp_fam"), k.mod("utils")
    F = lambda y, tt: md.Formula(md.lhs(y), [q() for q in tt], data=d, print_warn=False)
    ga = {"Gaussian": ("y", lambda: ef.Gaussian()), "Gaussian-log": ("g", lambda: ef.Gaussian(ef.LOG())), "Gamma": ("g", lambda: ef.Gamma(ef.LOG())), "InvGauss": ("ig", lambda: ef.InvGauss(ef.LOG())), "Poisson": ("c", lambda: ef.Poisson()), "Binomial": ("b", lambda: ef.Binomial()), "ScaledT": ("y", lambda: ef.ScaledT(ef.Identity()))}
    if kind in ga:
        return md.GAMM(F(ga[kind][0], ts), ga[kind][1]())
    if kind == "GAUMLSS":
        return md.GAMMLSS([F("y", ts), F("y", ts2)], ef.GAUMLSS([ef.Identity(), ef.LOGb(-0.001)]))
    if kind == "GAMMALS":
        return md.GAMMLSS([F("g", ts), F("g", ts2)], ef.GAMMALS([ef.LOG(), ef.LOGb(-0.001)]))
    if kind == "MULNOMLSS":
        return md.GAMMLSS([F("m", ts2), F("m", ts2)], ef.MULNOMLSS(2))
    if kind == "MultiGauss":
        return md.GSMM([F("y", ts), F("z", ts2)], ef.MultiGauss(2, [ef.Identity(), ef.Identity()]))
    if kind == "general":
        return md.GSMM([F("y", ts), F("y", ts2)], ut.GAMLSSGSMMFamily(2, ef.GAUMLSS([ef.Identity(), ef.LOGb(-0.001)])))
    raise KeyError(kind)


def loglik(k, m, kind):
    md = k.mod("models")
    fam = m.family
    if type(m).__name__ == "GAMM":
        X = dn(m.get_mmat())
        y = rnp.asarray(m.formulas[0].y_flat[m.formulas[0].NOT_NA_flat]).reshape(-1, 1)
        phi = m.scale
        return (lambda b: fam.llk(y, fam.link.fi(X @ b.reshape(-1, 1)), phi) if fam.twopar else fam.llk(y, fam.link.fi(X @ b.reshape(-1, 1)))), phi
    if type(m).__name__ == "GAMMLSS":
        Xs = [dn(q) for q in m.get_mmat()]
        y = rnp.asarray(m.formulas[0].y_flat[m.formulas[0].NOT_NA_flat]).reshape(-1, 1)
        return (lambda b: fam.llk(y, *[fam.links[q].fi(Xs[q] @ c) for q, c in enumerate(rnp.split(b.reshape(-1, 1), m.coef_split_idx))])), 1
    Xs = m.get_mmat()
    ys = [rnp.asarray(fo.y_flat[fo.NOT_NA_flat]).reshape(-1, 1) for fo in m.formulas]
    return (lambda b: fam.llk(b.reshape(-1, 1), m.coef_split_idx, ys, Xs)), 1


def options(rng, m, kind):
    o = {}
    if rng.integers(2):
        o["control_lambda"] = int(rng.integers(1, 3))
    if rng.integers(2):
        o["extend_lambda"] = True
        o["extension_method_lam"] = str(rng.choice(["expected_ratio", "nesterov"])) if type(m).__name__ == "GAMM" else "nesterov"
    if type(m).__name__ == "GAMM":
        o["method"] = str(rng.choice(["Chol", "QR"]))
        if rng.integers(2):
            o["max_inner"] = int(rng.integers(1, 4))
    else:
        o["method"] = str(rng.choice(["QR/Chol", "Chol"]))
        o["repara"] = bool(rng.integers(2))
        if rng.integers(3) == 0:
            o["prefit_grad"] = False
    if rng.integers(3) == 0:
        o["init_lambda"] = [float(10 ** rng.uniform(-2, 3)) for _ in m.overall_penalties] if getattr(m, "overall_penalties", None) else None
        if o["init_lambda"] is None:
            del o["init_lambda"]
    o["n_cores"] = 1
    return o


def optimum(kind, qefs=False):
    def c(k):
        rwarnings.simplefilter("ignore")
        rng = k.rng
        d = frame(rng, int(rng.integers(140, 260)))
        md = k.mod("models")
        ts, ts2 = terms(md, rng, int(rng.integers(1, 4)) if kind not in ("MULNOMLSS", "Gaussian-log", "ScaledT") else 1), terms(md, rng, 0)
        m = build(k, kind, d, ts, ts2)
        o = dict(method="qEFS") if qefs else options(rng, m, kind)
        if qefs:
            o["repara"] = bool(rng.integers(2))
        k.note("options", o)
        k.note("terms", [[str(type(q).__name__) + str(getattr(q, "variables", "")) for q in f_.terms] for f_ in m.formulas])
        with contextlib.redirect_stdout(io.StringIO()):
            m.fit(progress_bar=False, **o)
        k.note("code", m.info.code)
        k.assume(m.info.code == 0)
        coef = m.coef.flatten()
        P = len(coef)
        S = sum(p.lam * dn(p.S_J_emb) for p in m.overall_penalties)
        ll, phi = loglik(k, m, kind)
        Lp = lambda b: float(rnp.asarray(ll(b)).ravel()[0]) - 0.5 * b @ S @ b / phi
        E = rnp.eye(P)
        g = rnp.array([(Lp(coef + 1e-5 * e) - Lp(coef - 1e-5 * e)) / 2e-5 for e in E])
        V = dn(m.lvi.T @ m.lvi) * phi
        nH = -dn(m.hessian)
        dr = [] if m.info.dropped is None else [int(q) for q in rnp.asarray(m.info.dropped).ravel()]
        kp = [q for q in range(P) if q not in dr]
        Vk, nHk = V[rnp.ix_(kp, kp)], nH[rnp.ix_(kp, kp)]
        k.check("dropped coefficients are zero", rnp.all(coef[dr] == 0))
        dec = float(g[kp] @ Vk @ g[kp])
        k.check("the score of the penalized likelihood is zero", dec < (0.25 if qefs else 1e-4), dec)
        A = nH + S / phi
        k.close("posterior covariance", Vk @ A[rnp.ix_(kp, kp)], rnp.eye(len(kp)), atol=1e-4)
        if kind in ("Gaussian", "Poisson", "Binomial", "MULNOMLSS", "MultiGauss"):  # elsewhere expected second derivatives are documented
            h = 1e-4
            rows_ = rng.choice(kp, size=min(4, len(kp)), replace=False)
            num = rnp.array([[-(Lp(coef + h * (E[a] + E[b])) - Lp(coef + h * (E[a] - E[b])) - Lp(coef - h * (E[a] - E[b])) + Lp(coef - h * (E[a] + E[b]))) / (4 * h * h) for a in range(P)] for b in rows_])
            tol = 1e-3
            k.check("Hessian at the estimate", rnp.abs(num - A[rows_]).max() < tol * max(1.0, rnp.abs(A[rows_]).max()), rnp.abs(num - A[rows_]).max())
        k.close("total degrees of freedom", m.edf, rnp.trace(Vk @ nHk), atol=1e-4)
        if type(m).__name__ == "GAMM" and m.family.twopar and kind != "ScaledT":
            X = dn(m.get_mmat())
            y = rnp.asarray(m.formulas[0].y_flat[m.formulas[0].NOT_NA_flat]).reshape(-1, 1)
            mu = m.family.link.fi(X @ m.coef)
            if kind == "Gaussian":
                k.close("scale", phi, ((y - mu) ** 2).sum() / (len(y) - m.edf), atol=1e-6 * max(1, phi))
        Sp = rnp.linalg.pinv(S)
        for p in m.overall_penalties if not qefs else ():
            Sj = dn(p.S_J_emb)
            gr = 0.5 * p.lam * (rnp.trace(Sp @ Sj) - rnp.trace(V @ Sj) / phi - coef @ Sj @ coef / phi)
            k.note("penalty", (p.lam, gr))
            lim = 0.02
            k.check("the criterion is stationary in every smoothing parameter, or increases beyond the limits", abs(gr) < lim or (gr > 0 and p.lam > 0.99e7) or (gr < 0 and p.lam < 1.01e-7), gr)
        k.close("reported likelihood", float(rnp.asarray(m.get_llk(penalized=False)).ravel()[0]), float(rnp.asarray(ll(coef)).ravel()[0]), atol=1e-6 * max(1, abs(float(rnp.asarray(ll(coef)).ravel()[0]))))

    return c


for kd_ in ("Gaussian", "Gaussian-log", "Gamma", "InvGauss", "Poisson", "Binomial", "ScaledT", "GAUMLSS", "GAMMALS", "MULNOMLSS", "MultiGauss", "general"):
    fn_ = {"GAUMLSS": "solve_gammlss_sparse", "GAMMALS": "solve_gammlss_sparse", "MULNOMLSS": "solve_gammlss_sparse", "MultiGauss": "solve_generalSmooth_sparse", "general": "solve_generalSmooth_sparse"}.get(kd_, "solve_gamm_sparse")
    big = fn_ != "solve_gamm_sparse"
    R.add(f"optimum:{kd_}", functions=[GS + fn_, MD + ("GAMM.fit" if not big else "GAMMLSS.fit" if "gammlss" in fn_ else "GSMM.fit")], symbolic=False, nsamp=4, nstand=4 if big else 8, timeout=400, why_bounded=WB, cbound="random data sets of 140 to 260 observations, formulas with up to 4 terms, random options")(optimum(kd_))


# ---------------------------------------------------------------- the fit depends on the data and the model only
def pick(rng, kinds):
    return str(rng.choice(kinds))


def state(m):
    """what a fit says, free of the order of coefficients"""
    mu = rnp.column_stack([rnp.asarray(q).ravel() for q in (m.preds if isinstance(m.preds, list) else [m.preds])])
    return dict(mu=mu, llk=float(rnp.asarray(m.get_llk(penalized=False)).ravel()[0]), pen=float(rnp.asarray(m.get_llk(penalized=True)).ravel()[0]), edf=float(m.edf), lam=sorted(float(p.lam) for p in m.overall_penalties), scale=float(m.scale) if type(m).__name__ == "GAMM" else 1.0)


def agree(k, lab, a, b, tol=2e-4):
    for nm in ("mu", "llk", "pen", "edf", "scale"):
        k.close(f"{lab}: {nm}", b[nm], a[nm], atol=tol * max(1.0, float(rnp.abs(a[nm]).max()) if nm == "mu" else abs(a[nm])))
    la, lb = rnp.log(a["lam"]), rnp.log(b["lam"])
    # smoothing parameters beyond the flat part of the criterion are not determined
    det = (la > -8) & (la < 8)
    k.close(f"{lab}: smoothing parameters", lb[det], la[det], atol=0.02)


def fit(m, **o):
    with contextlib.redirect_stdout(io.StringIO()):
        m.fit(progress_bar=False, **o)
    return m


INV = ("Gaussian", "Gamma", "Poisson", "Binomial", "GAUMLSS", "GAMMALS", "MULNOMLSS", "general")


def invariant(what, kinds=INV):
    def c(k):
        rwarnings.simplefilter("ignore")
        rng, md = k.rng, k.mod("models")
        d = frame(rng, int(rng.integers(140, 240)))
        kind = pick(rng, kinds)
        k.note("kind", kind)
        ts, ts2 = terms(md, rng, int(rng.integers(1, 4)) if kind != "MULNOMLSS" else 1), terms(md, rng, 0)
        a = fit(build(k, kind, d, ts, ts2))
        k.assume(a.info.code == 0)
        A = state(a)
        if what == "order of the observations":
            o = rng.permutation(len(d))
            B = state(fit(build(k, kind, d.iloc[o].reset_index(drop=True), ts, ts2)))
            A["mu"] = A["mu"][o]
            agree(k, what, A, B)
        elif what == "order of the terms":
            q = ts[:1] + [ts[1 + j] for j in rng.permutation(len(ts) - 1)]
            if any(type(t()).__name__ == "f" for t in q[1:]):
                B = state(fit(build(k, kind, d, q, ts2)))
                agree(k, what, A, B)
        elif what == "names and index":
            e = d.copy()
            e.index = rng.permutation(len(d)) + 7
            B = state(fit(build(k, kind, e, ts, ts2)))
            agree(k, what, A, B, 1e-9)
        elif what == "missing responses":
            mis = rng.uniform(size=len(d)) < 0.1
            mis[[0, -1]] = rng.integers(2, size=2)
            r = {"Gaussian": "y", "Gamma": "g", "Poisson": "c", "Binomial": "b", "GAUMLSS": "y", "GAMMALS": "g", "MULNOMLSS": "m", "general": "y"}[kind]
            e = d.copy()
            e.loc[mis, r] = rnp.nan
            # knots and levels come from all rows in one case and from the complete ones in the other
            fx = lambda D: [lambda: md.i(), lambda: md.f(["x"], nk=7)]
            e.loc[mis, "x"] = e.x[~mis].iloc[0]
            e.loc[mis, "w"] = e.w[~mis].iloc[0]
            C_ = state(fit(build(k, kind, e, fx(e), ts2)))
            B = state(fit(build(k, kind, e[~mis].reset_index(drop=True), fx(e), ts2)))
            agree(k, what, B, C_, 1e-6)
        elif what == "repeated fit":
            B = state(fit(build(k, kind, d, ts, ts2)))
            agree(k, what, A, B, 1e-9)
            B = state(fit(a))
            agree(k, what + " of the same model", A, B, 1e-9)

    return c


FITS = [GS + "solve_gamm_sparse", GS + "solve_gammlss_sparse", GS + "solve_generalSmooth_sparse", MD + "GAMM.fit", MD + "GAMMLSS.fit", MD + "GSMM.fit"]
for w_ in ("order of the observations", "order of the terms", "names and index", "missing responses", "repeated fit"):
    R.add(f"depends-on-data-only:{w_.replace(' ', '-')}", functions=FITS, symbolic=False, nsamp=4, nstand=6, timeout=400, why_bounded=WB, cbound="random data sets of 140 to 240 observations, formulas with up to 4 terms")(invariant(w_))


@R.add("equivariance:response", functions=FITS, symbolic=False, nsamp=4, nstand=6, timeout=400, why_bounded=WB, cbound="random data sets of 140 to 240 observations")
def affine(k):
    rwarnings.simplefilter("ignore")
    rng, md = k.rng, k.mod("models")
    d = frame(rng, int(rng.integers(140, 240)))
    kind = pick(rng, ("Gaussian", "Gamma", "InvGauss", "GAUMLSS"))
    k.note("kind", kind)
    ts, ts2 = terms(md, rng, int(rng.integers(1, 4))), terms(md, rng, 0)
    s, h = float(rng.uniform(0.5, 3)), float(rng.uniform(-2, 2)) if kind == "Gaussian" else 0.0
    e = d.copy()
    for v in ("y", "g", "ig"):
        e[v] = s * d[v] + h
    if kind == "GAUMLSS":  # the mean can be scaled for a fixed link of the deviation only by shifting
        e["y"] = d["y"] + 1.5
    a, b = fit(build(k, kind, d, ts, ts2)), fit(build(k, kind, e, ts, ts2))
    k.assume(a.info.code == 0 and b.info.code == 0)
    A, B = state(a), state(b)
    if kind == "Gaussian":
        k.close("mean", B["mu"], s * A["mu"] + h, atol=1e-3 * s)
        k.close("variance", B["scale"], s * s * A["scale"], atol=1e-3 * B["scale"])
    elif kind in ("Gamma", "InvGauss"):
        k.close("linear predictor", B["mu"], A["mu"] + rnp.log(s), atol=2e-3)
    else:
        k.close("mean", B["mu"][:, 0], A["mu"][:, 0] + 1.5, atol=2e-3)
        k.close("deviation", B["mu"][:, 1], A["mu"][:, 1], atol=2e-3)
    k.close("degrees of freedom", B["edf"], A["edf"], atol=2e-2)


@R.add("equivariance:offset", functions=[GS + "solve_gamm_sparse", MD + "GAMM.fit"], symbolic=False, nsamp=4, nstand=6, timeout=400, why_bounded=WB, cbound="random data sets of 140 to 240 observations")
def offsets(k):
    rwarnings.simplefilter("ignore")
    rng, md = k.rng, k.mod("models")
    d = frame(rng, int(rng.integers(140, 240)))
    kind = pick(rng, ("Gaussian", "Gamma", "Poisson", "Binomial"))
    k.note("kind", kind)
    ts = terms(md, rng, int(rng.integers(1, 4)))
    n = len(d)
    off = float(rng.uniform(-1, 1))
    a, b = fit(build(k, kind, d, ts, None)), fit(build(k, kind, d, ts, None), offset=rnp.full((n, 1), off) if rng.integers(2) else off)
    k.assume(a.info.code == 0 and b.info.code == 0)
    A, B = state(a), state(b)
    k.close("a constant offset moves the intercept only", rnp.asarray(b.coef).ravel()[1:], rnp.asarray(a.coef).ravel()[1:], atol=2e-3)
    k.close("the intercept moves against it", float(b.coef.ravel()[0]), float(a.coef.ravel()[0]) - off, atol=2e-3)
    k.close("likelihood", B["llk"], A["llk"], atol=2e-3)
    if kind == "Gaussian":  # an offset is the response less the offset
        o = rng.normal(size=n)
        e = d.copy()
        e["y"] = d.y - o
        mis = rng.uniform(size=n) < 0.1
        d.loc[mis, "y"], e.loc[mis, "y"] = rnp.nan, rnp.nan
        C_, D_ = fit(build(k, kind, d, ts, None), offset=o.reshape(-1, 1)), fit(build(k, kind, e, ts, None))
        k.close("offset is subtracted from the response", C_.coef, D_.coef, atol=1e-3)
        k.close("likelihood with an offset", state(C_)["llk"], state(D_)["llk"], atol=1e-3)


@R.add("autocorrelated-residuals", functions=[GS + "solve_gamm_sparse", MD + "GAMM.fit"], symbolic=False, nsamp=4, nstand=6, timeout=400, why_bounded=WB, cbound="random data sets of 140 to 240 observations in series of 20")
def arfit(k):
    rwarnings.simplefilter("ignore")
    rng, md, ef = k.rng, k.mod("models"), k.mod("exp_fam")
    d = frame(rng, int(rng.integers(140, 240)))
    rho = float(rng.uniform(0.1, 0.9))
    ser = bool(rng.integers(2))
    ts = [q for q in terms(md, rng, 1)]
    k.note("rho, series", (rho, ser))
    m = fit(md.GAMM(md.Formula(md.lhs("y"), [q() for q in ts], data=d, print_warn=False, series_id="s" if ser else None), ef.Gaussian()), rho=rho)
    k.assume(m.info.code == 0)
    X, y, b = dn(m.get_mmat()), d.y.values, rnp.asarray(m.coef).ravel()
    n = len(y)
    first = rnp.r_[True, (d.s.values[1:] != d.s.values[:-1]) if ser else rnp.zeros(n - 1, bool)]
    W = rnp.zeros((n, n))
    for t in range(n):
        W[t, t] = 1.0 if first[t] else 1 / rnp.sqrt(1 - rho**2)
        if not first[t]:
            W[t, t - 1] = -rho / rnp.sqrt(1 - rho**2)
    S = sum(p.lam * dn(p.S_J_emb) for p in m.overall_penalties)
    r = W @ (y - X @ b)
    A = X.T @ W.T @ W @ X + S
    g = X.T @ W.T @ r - S @ b
    k.check("the score of the whitened penalized likelihood is zero", g @ rnp.linalg.solve(A, g) / m.scale < 1e-4, g @ rnp.linalg.solve(A, g) / m.scale)
    k.close("covariance", dn(m.lvi.T @ m.lvi) @ A, rnp.eye(len(b)), atol=1e-4)
    k.close("degrees of freedom", m.edf, rnp.trace(rnp.linalg.solve(A, A - S)), atol=1e-4)
    k.close("scale", m.scale, (r**2).sum() / (n - m.edf), atol=1e-4)
    k.close("likelihood of correlated residuals", float(rnp.asarray(m.get_llk(penalized=False)).ravel()[0]), float(-0.5 * (r**2).sum() / m.scale - 0.5 * n * rnp.log(2 * rnp.pi * m.scale) + rnp.linalg.slogdet(W)[1]), atol=1e-4 * n)


@R.add("accumulated-from-files", functions=[GS + "solve_gamm_sparse2", MD + "GAMM.fit"], symbolic=False, nsamp=2, nstand=3, timeout=400, why_bounded=WB, cbound="random data sets of 140 to 240 observations split over up to 5 files")
def files(k):
    import os, tempfile, shutil

    rwarnings.simplefilter("ignore")
    rng, md, ef = k.rng, k.mod("models"), k.mod("exp_fam")
    d = frame(rng, int(rng.integers(140, 240)))
    ts = terms(md, rng, int(rng.integers(1, 3)))  # tensor smooths are refused
    tmp, cwd = tempfile.mkdtemp(prefix="c22-"), os.getcwd()
    try:
        os.chdir(tmp)
        cuts = [0] + sorted(int(q) for q in rng.choice(rnp.arange(20, len(d) - 20), size=int(rng.integers(1, 4)), replace=False)) + [len(d)]
        paths = []
        for q, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
            paths.append(os.path.join(tmp, f"part{q}.csv"))
            d.iloc[lo:hi].to_csv(paths[-1], index=False)
        a = fit(md.GAMM(md.Formula(md.lhs("y"), [q() for q in ts], data=d, print_warn=False), ef.Gaussian()))
        b = fit(md.GAMM(md.Formula(md.lhs("y"), [q() for q in ts], data=None, file_paths=paths, print_warn=False, file_loading_nc=1), ef.Gaussian()))
        k.assume(a.info.code == 0 and b.info.code == 0)
        k.close("coefficients", b.coef, a.coef, atol=1e-3)
        k.close("scale", b.scale, a.scale, atol=1e-4)
        k.close("degrees of freedom", b.edf, a.edf, atol=1e-2)
        k.close("smoothing parameters", rnp.log([p.lam for p in b.overall_penalties]), rnp.log([p.lam for p in a.overall_penalties]), atol=0.05)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


@R.add("unidentifiable-coefficients", functions=FITS, symbolic=False, nsamp=4, nstand=5, timeout=400, why_bounded=WB, cbound="random data sets of 140 to 240 observations, one dependent column")
def duplicate(k):
    rwarnings.simplefilter("ignore")
    rng, md, ef = k.rng, k.mod("models"), k.mod("exp_fam")
    d = frame(rng, int(rng.integers(140, 240)))
    d["v2"] = float(rng.uniform(0.5, 2)) * d.v + float(rng.uniform(-1, 1))
    kind = pick(rng, ("Gaussian", "Gamma", "Binomial", "GAUMLSS", "MultiGauss"))
    which = int(rng.integers(2)) if kind in ("GAUMLSS", "MultiGauss") else 0
    k.note("kind", (kind, which))
    base = [lambda: md.i(), lambda: md.l(["v"]), lambda: md.f(["w"], nk=6)]
    more = [base[0], base[1], lambda: md.l(["v2"]), base[2]]
    A_ = build(k, kind, d, base, base)
    B_ = build(k, kind, d, more if which == 0 else base, more if which == 1 else base)
    o = dict(method="QR" if kind in ("Gaussian", "Gamma", "Binomial") else "QR/Chol")
    a, b = fit(A_, **o), fit(B_, **o)
    k.assume(a.info.code == 0)
    dr = [] if b.info.dropped is None else rnp.asarray(b.info.dropped).ravel()
    k.check("one coefficient is dropped", len(dr) == 1, dr)
    k.check("dropped coefficients are zero", rnp.all(rnp.asarray(b.coef).ravel()[[int(q) for q in dr]] == 0))
    agree(k, "same fit", state(a), state(b), 1e-3)


@R.add("ill-conditioned", functions=[GS + "solve_gamm_sparse"], symbolic=False, nsamp=2, nstand=2, timeout=200, why_bounded=WB, cbound="two methods, reported condition codes 0 to 2")
def condition(k):
    rng, md, ef, gs = k.rng, k.mod("models"), k.mod("exp_fam"), k.mod("gamm_solvers")
    d = frame(rng, 140)
    for meth, code in (("QR", 2), ("Chol", 1), ("QR", 1), ("Chol", 0)):
        m = md.GAMM(md.Formula(md.lhs("y"), [md.i(), md.f(["x"], nk=6)], data=d, print_warn=False), ef.Gaussian())
        old = gs.est_condition
        gs.est_condition = lambda *a, **kw: (1e20, 1, 1, code)
        try:
            with rwarnings.catch_warnings(record=True) as w:
                rwarnings.simplefilter("always")
                fit(m, method=meth, check_cond=1)
        finally:
            gs.est_condition = old
        said = any("ondition number" in str(q.message) for q in w)
        k.check(f"{meth}, code {code}: a warning exactly if the system is ill conditioned for the method", said == ((meth, code) in (("QR", 2), ("Chol", 1))))
        k.check(f"{meth}, code {code}: reported", m.info.code == code and m.info.K2 == 1e20)


# ---------------------------------------------------------------- the outer iteration, against the contracts of its parts
def gdriver(fam, link, maxiter, inner, cond=1, npen=1):
    def c(k):
        gs, ef, ct = k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
        n, p = 2, 2
        a = lambda nm, sh, **kw: k.arr(nm, sh, frame=False, **kw)
        gauss = (fam, link) == ("Gaussian", "Identity")
        y, mu0, off = a("y", (n, 1)), a("ms", (n, 1), dom="unit" if link == "Logit" else "pos"), a("off", (n, 1))
        X = a("X", (n, p), sp=True)
        F = getattr(ef, fam)(getattr(ef, link)())
        lam0 = k.scalar("lam0", "pos")
        pens = [lterm(k, ct, 0, p, 2, 0, 1, None, lam0)] if npen else []
        tolc = k.scalar("tol", "unit", sample=lambda rg, s: rg.choice([1e-3, 0.5, 0.9]))

        def state(tag):
            o = dict(eta=a(f"eta{tag}", (n, 1)), mu=a(f"mu{tag}", (n, 1)), coef=a(f"co{tag}", (p, 1)))
            o["S"] = a(f"S{tag}", (p, p), sp=True)
            o.update(Ch=("Ch", tag), Inv=("Inv", tag), edf=("edf", tag), te=("te", tag), scale=("scale", tag), wres=("wres", tag), dl=k.scalar(f"dl{tag}"))
            return o

        init = state("i")
        steps = [state(str(j)) for j in range(maxiter)]
        corr = [dict(dev=k.scalar(f"cd{j}", "pos"), pen=k.scalar(f"cp{j}", "pos"), mu=a(f"cmu{j}", (n, 1)), eta=a(f"ceta{j}", (n, 1)), coef=a(f"cco{j}", (p, 1))) for j in range(maxiter)]
        d0, p0 = k.scalar("d0", "pos"), k.scalar("p0", "pos")
        pdev = [k.scalar(f"pdv{j}", "pos") for j in range(maxiter)]
        W = [(f"yb{j}", f"Xb{j}", a(f"z{j}", (n, 1)), a(f"W{j}", (n, n), sp=True)) for j in range(maxiter + 1)]
        LW = [(f"lyb{j}", f"lXb{j}", a(f"lz{j}", (n, 1)), a(f"lW{j}", (n, n), sp=True)) for j in range(maxiter)]
        if gauss:
            W = LW = [(y, X, None, None)] * (maxiter + 1)
        wN = a("wN", (n, 1))
        log = []
        ld = lambda v: np.array([[v]]) if k.mode == "sym" else rnp.array([[float(v)]])

        def s_init(*q):
            log.append(("init", q))
            o = init
            return d0, p0, o["eta"], o["mu"], o["coef"], o["Ch"], o["Inv"], o["edf"], o["te"], o["scale"], o["wres"], ld(o["dl"]), o["S"]

        def s_pirls(*q):
            j = sum(e[0] == "pirls" for e in log)
            log.append(("pirls", q))
            return W[j]

        def s_lam(*q):
            j = sum(e[0] in ("lam", "plain") for e in log)
            log.append(("lam", q, [t.lam for t in pens]))
            o = steps[j]
            w = (q[1], q[7], q[2], q[3]) if (gauss or inner <= 1) else LW[j]
            return (*w, o["eta"], o["mu"], o["coef"], o["Ch"], o["Inv"], o["edf"], o["te"], o["scale"], o["wres"], ld(o["dl"]), "eb", q[13], "wx", o["S"], 1, None, None)

        def s_plain(*q):
            j = sum(e[0] in ("lam", "plain") for e in log)
            log.append(("plain", q))
            o = steps[j]
            return o["eta"], o["mu"], o["coef"], o["Ch"], o["Inv"], None, None, o["edf"], o["te"], None, o["scale"], o["wres"], None, None

        def s_cor(*q):
            j = sum(e[0] == "cor" for e in log)
            log.append(("cor", q))
            o = corr[j]
            return o["dev"], o["pen"], o["mu"], o["eta"], o["coef"]

        def s_dev(yy, mm_):
            j = sum(e[0] == "dev" for e in log)
            log.append(("dev", (yy, mm_)))
            return pdev[j]

        newton = []
        st = [k.stub(gs, nm, f_) for nm, f_ in (("init_step_gam", s_init), ("update_PIRLS", s_pirls), ("correct_lambda_step" if npen else "update_coef_and_scale", s_lam if npen else s_plain))]
        single = gauss or inner <= 1
        k.stub(gs, "correct_coef_step", s_cor)
        k.stub(gs, "PIRLS_newton_weights", lambda *q: newton.append(q) or (None, wN, rnp.zeros((n, 1), bool)))
        k.stub(gs, "est_condition", lambda *q, **kw: log.append(("cond", q)) or (7.0, 1, 1, 0))
        k.stub(gs, "calculate_term_edf", lambda P_, te: ("final", te))
        k.stub(gs, "initialize_extension", lambda m_, P_: "eb")
        F.deviance = s_dev
        out = gs.solve_gamm_sparse(mu0, y, X, pens, p, F, maxiter, inner, "svd", tolc, False, 1, False, "nesterov", True, "Chol", cond, False, 1, off)
        k.used(*st)
        coef, eta, wres, Wr, WN, scale, Inv, edf, te, pen, info = out
        sy = k.S
        qf = lambda b, S_: sum((b[i, 0] * S_[i, j] * b[j, 0] for i in range(p) for j in range(p)), lift(0))
        q = log[0][1]
        k.ensure_true("starting step gets the data", log[0][0] == "init" and q[0] is y and q[1] is y and q[6] is X and q[7] is X and q[8] is F and q[10] is pens and q[16] is off)
        k.ensure_eq("starting mean", q[2], sy("ms"))
        k.ensure_eq("starting predictor", q[3], sy("ms") if gauss else np.log(sy("ms")) if link == "LOG" else np.log(sy("ms") / (1 - sy("ms"))))
        lams = [e for e in log if e[0] in ("lam", "plain")]
        cors = [e[1] for e in log if e[0] == "cor"]
        devs = [e[1] for e in log if e[0] == "dev"]
        L = len(lams)
        k.ensure_true("no more iterations than allowed", 1 <= L <= maxiter and int(info.iter) == L)
        conv = len(devs) == L  # the loop is left by the convergence check, made once per later iteration
        cc, lam = sy("coi"), sy("lam0")
        prevd, prevp = sy("d0"), sy("p0")
        cS = sy("Si")
        cur = W[0]
        npir = 1
        k.ensure_true("working model of the starting values", log[1][0] == "pirls" and log[1][1][2] is init["mu"] and log[1][1][0] is y)
        k.ensure_eq("predictor of the starting values", log[1][1][3], sy("etai") - sy("off"))
        pir = [e[1] for e in log if e[0] == "pirls"]
        dl = sy("dli")
        Sobj = init["S"]
        for j in range(L):
            if j > 0:
                if single:
                    w = cors[j - 1]
                    k.ensure_eq(f"iteration {j}: current coefficients", w[0], cc)
                    k.ensure_true(f"iteration {j}: proposed coefficients", w[1] is steps[j - 1]["coef"] and w[6] is steps[j - 1]["eta"] and w[7] is steps[j - 1]["mu"] and w[8] is y and w[9] is X and w[11] is Sobj and int(w[10]) == npen and w[14] is off)
                    k.ensure_eq(f"iteration {j}: penalized deviance of the proposal", w[3], sy(f"pdv{j - 1}") + (qf(sy(f"co{j - 1}"), cS) if npen else 0), shape=False)
                    k.ensure_eq(f"iteration {j}: penalized deviance under the current penalty", w[4], prevd + (qf(cc, cS) if npen else 0), shape=False)
                    cc, prevd, prevp = sy(f"cco{j - 1}"), sy(f"cd{j - 1}"), sy(f"cp{j - 1}")
                    g = pir[npir]
                    npir += 1
                    k.ensure_true(f"iteration {j}: working model of the corrected coefficients", g[2] is corr[j - 1]["mu"] and g[0] is y)
                    k.ensure_eq(f"iteration {j}: predictor of the corrected coefficients", g[3], sy(f"ceta{j - 1}") - sy("off"))
                    cur = W[j]
                else:
                    cc, prevd, prevp = sy(f"co{j - 1}"), sy(f"pdv{j - 1}"), sy(f"pdv{j - 1}") + qf(sy(f"co{j - 1}"), cS)
                    cur = LW[j - 1]
                k.ensure_eq(f"iteration {j}: deviance of the proposal", devs[j - 1][1], sy(f"mu{j - 1}"))
            v = lams[j][1]
            if npen:
                lam = lam + dl
                k.ensure_eq(f"iteration {j}: smoothing parameter", lams[j][2][0], lam, shape=False)
                k.ensure_eq(f"iteration {j}: coefficients handed on", v[8], cc)
                k.ensure_eq(f"iteration {j}: deviance handed on", v[19], prevd, shape=False)
                k.ensure_true(f"iteration {j}: working model handed on", v[0] is y and v[6] is X and v[1] is cur[0] and v[7] is cur[1] and v[2] is cur[2] and v[3] is cur[3] and v[12] is Sobj and v[13] is pens and v[28] is off and int(v[29]) == inner and int(v[18]) == j)
                Sobj, cS, dl = steps[j]["S"], sy(f"S{j}"), sy(f"dl{j}")
            else:
                k.ensure_true(f"iteration {j}: working model handed on", v[0] is y and v[6] is X and v[1] is cur[0] and v[7] is cur[1] and v[2] is cur[2] and v[3] is cur[3] and v[18] is off)
        last = steps[L - 1]
        k.ensure_true("scale, covariance and degrees of freedom of the last update", scale == last["scale"] and Inv == last["Inv"] and edf == last["edf"] and te == ("final", last["te"]))
        if conv:
            now = sy(f"cp{L - 1}") if single else sy(f"pdv{L - 1}") + (qf(sy(f"co{L - 1}"), cS) if npen else 0)
            df = now - prevp
            if k.mode == "sym":
                k.ensure_true("converged only if the penalized deviance has settled", df < sy("tol") * now)
                k.ensure_true("converged only if the penalized deviance has settled, from below", -df < sy("tol") * now)
            k.ensure_true("converged", int(info.code) == 0)
            end = corr[L - 1] if single else last
        else:
            k.ensure_true("not converged within the iterations allowed", int(info.code) == 1 and L == maxiter)
            end = last
        k.ensure_true("coefficients and predictor returned belong together", coef is end["coef"] and eta is end["eta"])
        k.ensure_eq("penalty", pen, qf(sy(("cco" if conv and single else "co") + str(L - 1)), cS) if npen else lift(0), shape=False)
        fin = W[L] if (conv and single) else (LW[L - 1] if not single else cur)
        if not gauss:
            k.ensure_true("weights returned are those of the working model in force", Wr is fin[3])
            g = newton[0]
            k.ensure_true("observed weights at the estimate", len(newton) == 1 and g[0] is y and g[1] is end["mu"] and g[3] is F)
            k.ensure_eq("predictor of the observed weights", g[2], sy(("ceta" if conv and single else "eta") + str(L - 1)) - sy("off"))
            k.ensure_eq("observed weights", WN if k.mode == "sym" else dn(WN), np.array([[sy("wN")[i, 0] if i == j else lift(0) for j in range(n)] for i in range(n)]))
            k.ensure_true("working residuals of the last update", wres == last["wres"])
        else:
            k.ensure_true("no weights", Wr is None and WN is None)

    return c


for nm_, a_ in {"additive,iterations=1": ("Gaussian", "Identity", 1, 1), "additive,iterations=3": ("Gaussian", "Identity", 3, 500), "additive,unpenalized": ("Gaussian", "Identity", 3, 1, 1, 0), "generalized,iterations=1": ("Gamma", "LOG", 1, 500), "generalized,iterations=3": ("Gamma", "LOG", 3, 500), "generalized,single-steps": ("Poisson", "LOG", 3, 1), "generalized,checked": ("Gamma", "LOG", 2, 500, 2), "generalized,unpenalized": ("Binomial", "Logit", 3, 1, 1, 0)}.items():
    R.add(f"driver:{nm_}", functions=[GS + "solve_gamm_sparse"], nsamp=8, nstand=40, timeout=200)(gdriver(*a_))


def mdriver(which, maxo, npen=1, rep=False, dropped=False):
    """outer iteration of the multi-parameter solvers (Newton)"""
    gl = which == "gammlss"

    def c(k):
        gs, ef, ct, ut = k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types"), k.mod("utils")
        n, p = 2, 3
        a = lambda nm, sh, **kw: k.arr(nm, sh, frame=False, **kw)
        y = a("y", (n, 1))
        Xs = [a("X0", (n, 2), sp=True), a("X1", (n, 1), sp=True)]
        c0 = a("c0", (p, 1))
        tolc = k.scalar("tol", "unit", sample=lambda rg, s: rg.choice([1e-3, 0.5, 0.9]))
        lam0 = k.scalar("lam0", "pos")
        pens = [lterm(k, ct, 0, p, 2, 0, 1, None, lam0)] if npen else []
        l0 = k.scalar("l0")
        F = ef.GAUMLSS([ef.Identity(), ef.LOG()])
        seen = {}
        if gl:
            F.llk = lambda yy, *mus: seen.__setitem__("mus", mus) or l0
        else:
            F = ut.GAMLSSGSMMFamily(2, F)
            F.llk = lambda *q: seen.__setitem__("llk", q) or l0
        S0 = a("S0", (p, p), sp=True)
        St = [a(f"Sx{j}", (p, p), sp=True) for j in range(maxo)]
        co = [a(f"co{j}", (p, 1)) for j in range(maxo)]
        lk, pl, dl = [[k.scalar(f"{nm}{j}") for j in range(maxo)] for nm in ("lk", "pl", "dl")]
        drv = [rnp.array([1]) if dropped else None, rnp.array([0, 2]) if dropped else None]

        class M:  # a matrix that is only handed on
            def __init__(self, *t):
                self.t, self.sorted = t, False

            def sort_indices(self):
                self.sorted = True

        mats = [[M(nm, j) for nm in "HLV"] for j in range(maxo)]
        log, cond = [], []
        one = lambda v: np.array([[v]]) if k.mode == "sym" else rnp.array([[float(v)]])
        vec = lambda v: [v]

        def res(j):
            H, L, V = mats[j]
            if gl:
                return (co[j], [co[j][:2], co[j][2:]], ("mus", j), ("etas", j), H, L, V, lk[j], one(pl[j]))
            return (co[j], H, L, V, lk[j], one(pl[j]))

        def s_lam(*q):
            j = len(log)
            log.append((q, [t.lam for t in pens]))
            if gl:
                return (*res(j), 0.5, drv[1], drv[0], St[j], q[10], ("edf", j), ("te", j), vec(dl[j]))
            return (*res(j), q[22], drv[1], drv[0], St[j], q[9], ("edf", j), ("te", j), vec(dl[j]))

        def s_upd(*q):
            log.append((q, []))
            return (*res(0), 0.5, drv[1], drv[0])

        nm = ("correct_lambda_step_gamlss" if gl else "correct_lambda_step_gen_smooth") if npen else ("update_coef_gammlss" if gl else "update_coef_gen_smooth")
        st = [k.stub(gs, nm, s_lam if npen else s_upd)]
        k.stub(gs, "compute_S_emb_pinv_det", lambda *q, **kw: (S0, "pinv", None, [False]))
        k.stub(gs, "est_condition", lambda L, V, verbose=False: cond.append((L, V)) or (7.0, 1, 1, 0))
        k.stub(gs, "calculate_term_edf", lambda P_, te: ("final", te))
        k.stub(gs, "initialize_extension", lambda m_, P_: "eb")
        if npen:
            sn = k.scalar("sn", "pos")
            k.patch(gs, "scp.sparse.linalg.norm", lambda M_, ord=None: sn)
        opts = dict(max_outer=maxo, max_inner=11, min_inner=3, conv_tol=tolc, extend_lambda=False, extension_method_lam="nesterov", control_lambda=1, method="Chol", check_cond=1, repara=rep, prefit_grad=False, progress_bar=False, n_c=1)
        ys = [y, y]
        out = gs.solve_gammlss_sparse(F, y, Xs, [2, 1], [0, 1], c0, [2], pens, **opts) if gl else gs.solve_generalSmooth_sparse(F, ys, Xs, [2, 1], [0, 1], c0, [2], pens, **opts)
        k.used(*st)
        if gl:
            coef, etas, mus, wres, H, LV, edf, te, pen, P2, info = out
        else:
            coef, H, LV, linop, edf, te, pen, P2, info = out[:9]
        sy = k.S
        L = len(log)
        qf = lambda b, S_: sum((b[i, 0] * S_[i, j] * b[j, 0] for i in range(p) for j in range(p)), lift(0))
        k.ensure_true("between one iteration and those allowed", 1 <= L <= maxo and int(info.iter) == L)
        J = L - 1
        lam = sy("lam0")
        if npen:
            for j in range(L):
                q, lm = log[j]
                if gl:
                    cc, ll, PP, SN, it, mi = q[8], q[14], q[10], q[4], q[16], (q[17], q[18])
                    k.ensure_true(f"iteration {j}: data", q[0] is F and q[2] is y and q[3] is Xs and list(q[6]) == [2, 1] and list(q[7]) == [0, 1] and list(q[9]) == [2])
                    if j:
                        k.ensure_true(f"iteration {j}: means of the current coefficients", q[1] == ("mus", j - 1))
                else:
                    cc, ll, PP, SN, it, mi = q[7], q[13], q[9], q[3], q[15], (q[16], q[17])
                    k.ensure_true(f"iteration {j}: data", q[0] is F and q[1] is ys and q[2] is Xs and list(q[5]) == [2, 1] and list(q[6]) == [0, 1] and list(q[8]) == [2])
                k.ensure_true(f"iteration {j}: limits", PP is pens and int(it) == j and (int(mi[0]), int(mi[1])) == (11, 3))
                k.ensure_eq(f"iteration {j}: coefficients", cc, sy("c0") if j == 0 else sy(f"co{j - 1}"))
                k.ensure_eq(f"iteration {j}: likelihood", ll, sy("l0") if j == 0 else sy(f"lk{j - 1}"), shape=False)
                k.ensure_eq(f"iteration {j}: smoothing parameter", lm[0], lam, shape=False)
                if j < L - 1:
                    lam = lam + sy(f"dl{j}")
            k.ensure_eq("the smoothing parameter returned is that of the coefficients returned", P2[0].lam, lam, shape=False)
            k.ensure_true("degrees of freedom of the last update", edf == ("edf", J) and te == ("final", ("te", J)))
            conv = int(info.code) == 0
            if k.mode == "sym":
                near = [abs(sy(f"pl{h}") - sy(f"pl{J}")) < sy("tol") * abs(sy(f"pl{J}")) for h in range(max(0, J - 5), J)]
                if conv and not dropped:
                    ok = near[0]
                    for t in near[1:]:
                        ok = ok | t
                    k.ensure_true("converged only if the penalized likelihood has settled", ok)
                if not conv:
                    for h, t in enumerate(near):
                        k.ensure_true(f"not converged: likelihood still changes ({h})", ~t)
            if not conv:
                k.ensure_true("stops early only if converged", L == maxo and int(info.code) == 1)
            if dropped and gl:
                k.ensure_true("dropped coefficients stay dropped", all(tuple(tuple(int(v) for v in w) for w in log[j][0][22]) == ((0, 2), (1,)) for j in range(1, L)) and log[0][0][22] is None)
        else:
            q = log[0][0]
            k.ensure_true("one optimisation", L == 1 and q[0] is F and int(info.code) == 0)
            k.ensure_eq("start", q[4] if gl else q[3], sy("c0"))
            k.ensure_true("degrees of freedom: identified coefficients", int(edf) == p - (1 if dropped else 0) and te is None)
        k.ensure_true("everything returned belongs to the last update", coef is co[J] and H is mats[J][0] and LV is mats[J][2] and (not gl or (etas == ("etas", J) and mus == ("mus", J))))
        k.ensure_true("condition of that system", len(cond) == 1 and cond[0][0] is mats[J][1] and cond[0][1] is mats[J][2])
        if rep:
            k.ensure_true("indices are in order", all(m_.sorted for m_ in mats[J]))
        k.ensure_eq("penalty", pen, qf(sy(f"co{J}"), sy(f"Sx{J}")) if npen else lift(0), shape=False)
        if gl:
            k.ensure_eq("residuals of the mean", wres, sy("y") - matmul(sy("X0"), sy(f"co{J}")[:2]))
            k.ensure_eq("starting means", seen["mus"][0], matmul(sy("X0"), sy("c0")[:2]))
            k.ensure_eq("starting deviations", seen["mus"][1], np.exp(matmul(sy("X1"), sy("c0")[2:])))

    return c


for nm_, a_ in {"iterations=1": (1,), "iterations=2": (2,), "iterations=3,re-parameterised": (3, 1, True), "iterations=3,dropped": (3, 1, False, True), "unpenalized": (3, 0), "unpenalized,dropped": (3, 0, True, True)}.items():
    for wh_ in ("gammlss", "general"):
        R.add(f"driver:{wh_},{nm_}", functions=[GS + ("solve_gammlss_sparse" if wh_ == "gammlss" else "solve_generalSmooth_sparse")], nsamp=8, nstand=40, timeout=200)(mdriver(wh_, *a_))
