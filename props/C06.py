"""C06: chain rules from parameters to linear predictors to coefficients, and IRLS working data."""
from .common import *
from . import C02, C04, C05

R = Registry("C06")
G = "gamm_solvers"

LINKD = {"Identity": "real", "LOG": "pos", "Logit": "unit", "LOGb": "pos"}


def mk_link(k, m, nm, q):
    """real link object, mathematical link function, mean array with a valid value"""
    if nm == "LOGb":
        b = k.scalar(f"b{q}", "small")
        d = k.arr(f"m{q}", ("n", 1), "pos")
        return m.LOGb(b), (lambda t: np.log(t + k.S(f"b{q}"))), d - b, k.S(f"m{q}") - k.S(f"b{q}")
    a = k.arr(f"m{q}", ("n", 1), LINKD[nm])
    return getattr(m, nm)(), link_spec(nm)[0], a, k.S(f"m{q}")


def mk_family(k, m, links, means):
    """a family whose partial derivatives are arbitrary arrays"""
    np_ = len(links)
    d1 = [k.arr(f"d1_{q}", ("n", 1)) for q in range(np_)]
    d2 = [k.arr(f"d2_{q}", ("n", 1)) for q in range(np_)]
    nm = np_ * (np_ - 1) // 2
    dm = [k.arr(f"dm_{q}", ("n", 1)) for q in range(nm)]

    class Fam:
        n_par = np_
        n_d2m = nm
        d_eta = False

        def __init__(self):
            self.links = links

        def dpars(self, y, *mus, index, order):
            nme = order.name if hasattr(order, "name") else str(order)
            src = {"d1": d1, "d2": d2, "d2m": dm}[nme]
            v = src[index]
            return v.copy()

    return Fam()


def mueta(lks):
    def c(k):
        k.dim("n")
        m = k.mod("exp_fam")
        info = [mk_link(k, m, nm, q) for q, nm in enumerate(lks)]
        fam = mk_family(k, m, [i[0] for i in info], [i[2] for i in info])
        y = k.arr("y", ("n", 1))
        d1e, d2e, d2me = k.mod(G).deriv_transform_mu_eta(y, [i[2] for i in info], fam)
        P = len(lks)
        # g', g'' of the mathematical link
        g1, g2 = [], []
        for q, (lk, f, mu, smu) in enumerate(info):
            a = Dew(f(smu), f"m{q}")
            g1.append(a)
            g2.append(Dew(a, f"m{q}"))
        k.ensure_true("number of derivatives", len(d1e) == P and len(d2e) == P and len(d2me) == P * (P - 1) // 2)
        ix = 0
        for q in range(P):
            # dmu/deta = 1/g', d2mu/deta2 = -g''/g'^3
            k.ensure_eq(f"dl/deta{q}", d1e[q], k.S(f"d1_{q}") / g1[q])
            k.ensure_eq(f"d2l/deta{q}^2", d2e[q], k.S(f"d2_{q}") / (g1[q] * g1[q]) - k.S(f"d1_{q}") * g2[q] / (g1[q] * g1[q] * g1[q]))
            for r in range(q + 1, P):
                k.ensure_eq(f"d2l/deta{q}deta{r}", d2me[ix], k.S(f"dm_{ix}") / (g1[q] * g1[r]))
                ix += 1

    return c


for lks in (["Identity"], ["LOG"], ["Logit"], ["LOGb"], ["Identity", "LOGb"], ["LOG", "LOGb"], ["Identity", "LOG", "Logit"], ["LOG", "LOG", "LOG", "LOG"]):
    R.add("mu-eta:" + "-".join(lks), functions=["gamm_solvers.deriv_transform_mu_eta"])(mueta(lks))


def etabeta(ps):
    def c(k):
        k.dim("n")
        P = len(ps)
        Xs = [k.arr(f"X{q}", ("n", p), sp=True) for q, p in enumerate(ps)]
        if k.mode == "conc":
            import scipy.sparse

            # zero patterns, including empty columns
            for q in range(P):
                A = Xs[q].toarray()
                A[k.rng.random(A.shape) < 0.3] = 0
                if k.rng.random() < 0.3:
                    A[:, int(k.rng.integers(0, A.shape[1]))] = 0
                k.env[f"X{q}"] = A.copy()
                Xs[q] = scipy.sparse.csc_array(A)
            k.frames = [f for f in k.frames if not f[0].startswith("X")]
        d1 = [k.arr(f"d1_{q}", ("n", 1)) for q in range(P)]
        d2 = [k.arr(f"d2_{q}", ("n", 1)) for q in range(P)]
        dm = [k.arr(f"dm_{q}", ("n", 1)) for q in range(P * (P - 1) // 2)]
        og, none = k.mod(G).deriv_transform_eta_beta(d1, d2, dm, Xs, only_grad=True)
        g, H = k.mod(G).deriv_transform_eta_beta(d1, d2, dm, Xs)
        SX = [k.S(f"X{q}") for q in range(P)]
        spec = np.concatenate([matmul(SX[q].T, k.S(f"d1_{q}")) for q in range(P)], axis=0)
        k.ensure_eq("gradient", g, spec)
        k.ensure_eq("gradient only", og, spec)

        def blk(a, b):
            if a == b:
                d = k.S(f"d2_{a}")
            else:
                lo, hi = min(a, b), max(a, b)
                ix = [(i, j) for i in range(P) for j in range(i + 1, P)].index((lo, hi))
                d = k.S(f"dm_{ix}")
            return matmul((SX[a] * d).T, SX[b])

        Hs = np.concatenate([np.concatenate([blk(a, b) for b in range(P)], axis=1) for a in range(P)], axis=0)
        k.ensure_eq("Hessian", H, Hs)

    return c


R.add("eta-beta:1-block", functions=["gamm_solvers.deriv_transform_eta_beta"])(etabeta([2]))
R.add("eta-beta:2-blocks", functions=["gamm_solvers.deriv_transform_eta_beta"])(etabeta([2, 1]))
R.add("eta-beta:3-blocks", functions=["gamm_solvers.deriv_transform_eta_beta"])(etabeta([1, 1, 1]))
for ps in ([3, 2], [1, 3, 2], [2, 2, 2, 1]):
    R.add("eta-beta:sizes-" + "-".join(map(str, ps)), symbolic=False, nstand=30, functions=["gamm_solvers.deriv_transform_eta_beta"],
          why_bounded="coefficient blocks of fixed sizes; the column loop is not over a symbolic size", cbound="n <= 4, block sizes as named, random zero patterns")(etabeta(ps))

# ---------------------------------------------------------------- IRLS weights
FAM = {
    "Gaussian-LOG": ("Gaussian", "LOG", "real", C02.gauss_lp, True, lambda m: m * 0 + 1),
    "Gaussian-Identity": ("Gaussian", "Identity", "real", C02.gauss_lp, True, lambda m: m * 0 + 1),
    "Gamma-LOG": ("Gamma", "LOG", "pos", C02.gamma_lp, True, lambda m: m * m),
    "InvGauss-LOG": ("InvGauss", "LOG", "pos", C02.ig_lp, True, lambda m: m * m * m),
    "Poisson-LOG": ("Poisson", "LOG", "count", lambda y, m, p: C02.pois_lp(y, m), False, lambda m: m),
    "Binomial-Logit": ("Binomial", "Logit", "bin", lambda y, m, p: C02.binom_lp(y, lift(1), m), False, lambda m: m * (1 - m)),
}


def pirls(key, newton):
    fam, lk, dy, lpS, two, VS = FAM[key]

    def c(k):
        k.dim("n")
        m = k.mod("exp_fam")
        g = k.mod(G)
        F = getattr(m, fam)(link=getattr(m, lk)())
        eta = k.arr("eta", ("n", 1), "small")
        # the Newton weight must not vanish: y != 2 mu (Gaussian, log link), 2 y != mu (inverse Gaussian, log link)
        extra = {"Gaussian-LOG": lambda e, mu: [not_(eq(X.sub(e, X.mul(const(2), mu)), ZERO))], "InvGauss-LOG": lambda e, mu: [not_(eq(X.sub(X.mul(const(2), e), mu), ZERO))]}.get(key)
        fac = None
        if extra and newton:
            fac = lambda e: DOMS[dy].facts(e) + (extra(e, fn("exp", el("eta", *e.args[1:]))) if e.op == "el" else [])
        y = k.arr("y", ("n", 1), dy, facts=fac)
        mu = F.link.fi(eta)
        E_ = k.S("eta")
        M = link_spec(lk)[1](E_)
        one = lift(1)
        lp = lpS(k.S("y"), M, one)  # scale 1: weights do not include the scale
        s = Dew(lp, "eta")
        if not newton:
            z, w, inv = g.PIRLS_pdat_weights(y, mu, eta, F)
            dmu = Dew(M, "eta")
            k.ensure_eq("Fisher weight = (dmu/deta)^2 / V", w, dmu * dmu / VS(M))
            k.ensure_eq("weight times (working response - eta) = score in eta", w * (z - eta), s)
        else:
            z, w, inv = g.PIRLS_newton_weights(y, mu, eta, F)
            h = Dew(s, "eta")
            k.ensure_eq("Newton weight = - d2l/deta2", w, -h)
            # where the weight is not zero
            k.ensure_eq("weight times (working response - eta) = score in eta", w * (z - eta), E1(lambda s_, h_: s_, s, h))
        if k.mode == "conc":
            k.check("no observation is dropped", not rnp.asarray(inv).any(), inv)
            k.check("mask shape", rnp.asarray(inv).shape == (k.env["n"],), inv)

    return c


for key in FAM:
    for nw in (False, True):
        R.add(("newton:" if nw else "fisher:") + key, functions=["gamm_solvers." + ("PIRLS_newton_weights" if nw else "PIRLS_pdat_weights")])(pirls(key, nw))


# ---------------------------------------------------------------- extended family
def pirls_t(lk, newton):
    def c(k):
        k.dim("n")
        m, g = k.mod("exp_fam"), k.mod(G)
        th = k.arr("th", (2, 1), "small")
        F = m.ScaledT(link=getattr(m, lk)(), theta=th)
        eta = k.arr("eta", ("n", 1), "small")

        def nonzero(e):
            """the weight does not vanish: (nu phi^2 - r^2) mu' - r (nu phi^2 + r^2) != 0 with r = y - mu (the second part for the log link)"""
            if not newton or e.op != "el":
                return []
            et = el("eta", *e.args[1:])
            mu_ = fn("exp", et) if lk == "LOG" else et
            r = X.sub(e, mu_)
            nphi = X.mul(X.add(fn("exp", el("th", ONE, ZERO)), const(F.min_df)), X.power(fn("exp", el("th", ZERO, ZERO)), const(2)))
            a = X.sub(nphi, X.mul(r, r))
            if lk == "LOG":
                a = X.sub(X.mul(a, mu_), X.mul(r, X.add(nphi, X.mul(r, r))))
            return [not_(eq(a, ZERO))]

        y = k.arr("y", ("n", 1), facts=nonzero)
        mu = F.link.fi(eta)
        M = link_spec(lk)[1](k.S("eta"))
        t0, t1 = k.S("th")[0, 0], k.S("th")[1, 0]
        lp = C04.t_lp(k.S("y"), M, t0, t1, lift(F.min_df))
        s = Dew(lp, "eta")
        phi, nu = exp(t0), exp(t1) + F.min_df
        if newton:
            z, w, inv = g.PIRLS_newton_weights(y, mu, eta, F)
            k.ensure_eq("Newton weight = - d2l/deta2", w, -Dew(s, "eta"))
            k.ensure_eq("working response = eta + score / weight", z, k.S("eta") - s / Dew(s, "eta"), rtol=1e-5)
        else:
            z, w, inv = g.PIRLS_pdat_weights(y, mu, eta, F)
            k.ensure_eq("Fisher weight = E[d2D/dmu2] / 2", w, k.S("y") * 0 + (nu + 1) / ((nu + 3) * phi * phi))
            k.ensure_eq("weight times (working response - eta) = score in eta", w * (z - eta), s)

    return c


R.add("newton:ScaledT-Identity", functions=["gamm_solvers.PIRLS_newton_weights", "exp_fam.ScaledT.d2Ddmu"])(pirls_t("Identity", True))
R.add("newton:ScaledT-LOG", symbolic=False, nstand=60, why_bounded="the solver does not show that the weight is non-zero for the log link", functions=["gamm_solvers.PIRLS_newton_weights", "exp_fam.ScaledT.d2Ddmu"])(pirls_t("LOG", True))
R.add("fisher:ScaledT-Identity", functions=["gamm_solvers.PIRLS_pdat_weights", "exp_fam.ScaledT.Ed2Ddmu"])(pirls_t("Identity", False))


# ---------------------------------------------------------------- families wrapped as general smooth models
def gsmm1(fam, lk):
    """one-parameter families and the scaled t"""
    dy, lpS = {"Poisson": ("count", lambda y, m: C02.pois_lp(y, m)), "Binomial": ("bin", lambda y, m: C02.binom_lp(y, lift(1), m)), "ScaledT": ("real", None)}[fam]

    def c(k):
        k.dim("n")
        p = 2
        m, u = k.mod("exp_fam"), k.mod("utils")
        q = p + (2 if fam == "ScaledT" else 0)
        b = k.arr("b", (q, 1), "small")
        F = getattr(m, fam)(link=getattr(m, lk)())
        W = u.GAMLSSGSMMFamily(1, F)
        y = k.arr("y", ("n", 1), dy)
        X_ = k.arr("X", ("n", p), sp=True)
        B = k.S("b")
        M = link_spec(lk)[1](matmul(k.S("X"), B[:p]))
        lp = lpS(k.S("y"), M) if lpS else C04.t_lp(k.S("y"), M, B[p, 0], B[p + 1, 0], lift(F.min_df))
        ll = lp.sum()
        k.ensure_eq("log-likelihood", W.llk(b, [p], [y], [X_]), ll)
        k.ensure_eq("gradient", W.gradient(b, [p], [y], [X_]), grad(ll, "b", q))

    return c


for f_, l_ in (("Poisson", "LOG"), ("Binomial", "Logit"), ("ScaledT", "Identity"), ("ScaledT", "LOG")):
    R.add(f"wrapped:{f_}-{l_}", functions=["utils.GAMLSSGSMMFamily.llk", "utils.GAMLSSGSMMFamily.gradient"])(gsmm1(f_, l_))


def gsmm2(fam, lk):
    """two-parameter families: the last coefficient is the log of the scale"""
    dy, lpS = {"Gaussian": ("real", C02.gauss_lp), "Gamma": ("pos", C02.gamma_lp), "InvGauss": ("pos", C02.ig_lp)}[fam]

    def c(k):
        k.dim("n")
        p = 2
        m, u = k.mod("exp_fam"), k.mod("utils")
        b = k.arr("b", (p + 1, 1), "small")
        F = getattr(m, fam)(link=getattr(m, lk)())
        W = u.GAMLSSGSMMFamily(1, F)
        y = k.arr("y", ("n", 1), dy)
        X_ = k.arr("X", ("n", p), sp=True)
        B = k.S("b")
        M = link_spec(lk)[1](matmul(k.S("X"), B[:p]))
        ll = lpS(k.S("y"), M, exp(B[p, 0])).sum()
        if k.mode == "sym":
            # callee contract (C03, bounded): the derivative in the log scale; here any number
            dls = k.scalar("dls")
            F.dllkdlscale = lambda *a, **kw: dls
        k.ensure_eq("log-likelihood", W.llk(b, [p], [y], [X_]), ll)
        g = W.gradient(b, [p], [y], [X_])
        G_ = grad(ll, "b", p + 1)
        k.ensure_eq("gradient for the mean's coefficients", g[:p], G_[:p])
        if k.mode == "sym":
            k.ensure_eq("last entry is the log-scale derivative", g[p, 0], k.S("dls"))
        else:  # the code differentiates numerically in the log scale
            k.ensure_eq("gradient", g, G_, rtol=1e-3, atol=1e-4)

    return c


for f_, l_ in (("Gaussian", "Identity"), ("Gamma", "LOG"), ("InvGauss", "LOG")):
    R.add(f"wrapped:{f_}-{l_}", functions=["utils.GAMLSSGSMMFamily.llk", "utils.GAMLSSGSMMFamily.gradient"])(gsmm2(f_, l_))


def gsmmLSS(kind):
    """location-scale families: log-likelihood, gradient, Hessian over the stacked coefficients of both predictors"""

    def c(k):
        k.dim("n")
        m, u = k.mod("exp_fam"), k.mod("utils")
        if kind == "gauss":
            ps, links, dy = [1, 1], ["Identity", "LOG"], "real"
            F = m.GAUMLSS([m.Identity(), m.LOG()])
            lpS = C05.norm_lp
        else:
            ps, links, dy = [1, 1], ["LOG", "LOG"], "pos"
            F = m.GAMMALS([m.LOG(), m.LOG()])
            lpS = C02.gamma_lp
        W = u.GAMLSSGSMMFamily(2, F)
        q = sum(ps)
        b = k.arr("b", (q, 1), "small")
        y = k.arr("y", ("n", 1), dy)
        Xs = [k.arr(f"X{i}", ("n", p), sp=True) for i, p in enumerate(ps)]
        B = k.S("b")
        split, o, mus = [], 0, []
        for i, p in enumerate(ps):
            mus.append(link_spec(links[i])[1](matmul(k.S(f"X{i}"), B[o : o + p])))
            o += p
            split.append(o)
        lp = lpS(k.S("y"), *mus)
        ll = lp.sum()
        k.ensure_eq("log-likelihood", W.llk(b, split[:-1], [y], Xs), ll)
        k.ensure_eq("gradient", W.gradient(b, split[:-1], [y], Xs), grad(ll, "b", q))

    return c


for kd in ("gauss", "gamma"):
    R.add(f"wrapped:location-scale-{kd}", functions=["utils.GAMLSSGSMMFamily.llk", "utils.GAMLSSGSMMFamily.gradient", "gamm_solvers.deriv_transform_mu_eta", "gamm_solvers.deriv_transform_eta_beta"])(gsmmLSS(kd))


def upd(key):
    fam, lk, dy, lpS, two, VS = FAM[key]

    def c(k):
        k.dim("n")
        k.dim("p", choices=(1, 2, 3))
        m, g = k.mod("exp_fam"), k.mod(G)
        F = getattr(m, fam)(link=getattr(m, lk)())
        eta = k.arr("eta", ("n", 1), "small")
        y = k.arr("y", ("n", 1), dy)
        X_ = k.arr("X", ("n", "p"), sp=True)
        mu = F.link.fi(eta)
        yb, Xb, z, Wr = g.update_PIRLS(y, y, mu, eta, X_, X_, F, None)
        M = link_spec(lk)[1](k.S("eta"))
        s = Dew(lpS(k.S("y"), M, lift(1)), "eta")
        dmu = Dew(M, "eta")
        w = dmu * dmu / VS(M)
        if key == "Gaussian-Identity":
            k.ensure_eq("additive model: response unchanged", yb, k.S("y"))
            k.ensure_eq("additive model: design unchanged", Xb, k.S("X"))
            k.ensure_true("no weights", z is None and Wr is None)
            return
        k.ensure_eq("Xb' Xb = X' W X", matmul(Xb.T, Xb) if k.mode == "sym" else (Xb.T @ Xb), matmul(k.S("X").T, w * k.S("X")))
        k.ensure_eq("Xb = sqrt(W) X", Xb, np.sqrt(w) * k.S("X"))
        k.ensure_eq("yb = sqrt(W) z", yb, np.sqrt(w) * (k.S("eta") + s / w))
        k.ensure_eq("z", z, k.S("eta") + s / w)

    return c


for key in FAM:
    R.add("update:" + key, functions=["gamm_solvers.update_PIRLS"])(upd(key))


@R.add("update:dropped-rows", symbolic=False, nstand=40, functions=["gamm_solvers.update_PIRLS", "gamm_solvers.PIRLS_pdat_weights"],
       why_bounded="rows are selected by data-dependent masks", cbound="n in 4..12, up to n-1 unusable rows, with and without an AR1 factor")
def upd_drop(k):
    import scipy.sparse as sps

    m, g = k.mod("exp_fam"), k.mod(G)
    n, p = int(k.rng.integers(4, 12)), 3
    eta = k.rng.normal(size=(n, 1))
    bad = k.rng.random(n) < 0.3
    bad[int(k.rng.integers(0, n))] = False
    eta[bad] = k.rng.choice([rnp.nan, 800.0], size=(int(bad.sum()), 1))
    k.note("eta", eta)
    X_ = sps.csc_array(k.note("X", k.rng.normal(size=(n, p))))
    y = k.note("y", k.rng.poisson(2.0, size=(n, 1)).astype(float))
    F = m.Poisson()
    with rnp.errstate(all="ignore"):
        mu = rnp.exp(eta)
    for L in (None, sps.csr_array(k.note("L", rnp.triu(k.rng.normal(size=(n, n)))))):
        with rnp.errstate(all="ignore"):
            yb, Xb, z, Wr = g.update_PIRLS(y.copy(), y, mu.copy(), eta.copy(), X_.copy(), X_, F, L)
        ok = ~bad
        w = mu[ok]
        zz = eta[ok] + (y[ok] - mu[ok]) / mu[ok]
        eyb, eXb = rnp.sqrt(w) * zz, rnp.sqrt(w) * X_.toarray()[ok]
        if L is not None:
            Lv = L.toarray()[ok][:, ok]
            eyb, eXb = Lv.T @ eyb, Lv.T @ eXb
        tag = "" if L is None else " (AR1)"
        k.close("yb" + tag, yb, eyb)
        k.close("Xb" + tag, Xb.toarray(), eXb)
        k.check("z marks exactly the dropped rows" + tag, (rnp.isnan(z).flatten() == bad).all(), z)
        k.close("z on valid rows" + tag, z[ok], zz)
        k.close("weights" + tag, Wr.diagonal() ** 2, w.flatten())


@R.add("all-rows-unusable", symbolic=False, nstand=3, functions=["gamm_solvers.PIRLS_pdat_weights", "gamm_solvers.PIRLS_newton_weights"], why_bounded="error path on concrete data")
def upd_none(k):
    m, g = k.mod("exp_fam"), k.mod(G)
    n = int(k.rng.integers(1, 5))
    e = rnp.full((n, 1), rnp.nan)
    for f in (g.PIRLS_pdat_weights, g.PIRLS_newton_weights):
        k.raises("no usable observation is an error", ValueError, lambda: f(rnp.ones((n, 1)), e, e, m.Poisson()))


@R.add("wrapped:Hessian", symbolic=False, nstand=20, functions=["utils.GAMLSSGSMMFamily.hessian", "utils.GAMLSSGSMMFamily.get_resid"],
       why_bounded="composition of proved parts compared on data", cbound="n in 3..10, two or three predictors of 1..3 columns")
def wh(k):
    import scipy.sparse as sps

    m, u = k.mod("exp_fam"), k.mod("utils")
    DO = k.mod("custom_types").DerivOrder
    n = int(k.rng.integers(3, 10))
    for kind in ("gauss", "gamma", "multinomial"):
        if kind == "gauss":
            F, P, y = m.GAUMLSS([m.Identity(), m.LOG()]), 2, k.rng.normal(size=(n, 1))
            fi = [lambda e: e, rnp.exp]
            d12 = [lambda mu: (rnp.ones_like(mu), 0 * mu), lambda mu: (1 / mu, -1 / mu**2)]
        elif kind == "gamma":
            F, P, y = m.GAMMALS([m.LOG(), m.LOG()]), 2, k.rng.gamma(2, size=(n, 1))
            fi = [rnp.exp, rnp.exp]
            d12 = [lambda mu: (1 / mu, -1 / mu**2)] * 2
        else:
            F, P, y = m.MULNOMLSS(3), 3, k.rng.integers(0, 4, size=(n, 1)).astype(float)
            fi = [rnp.exp] * 3
            d12 = None
        ps = [int(v) for v in k.rng.integers(1, 4, P)]
        Xd = [k.rng.normal(size=(n, p)) * (k.rng.random((n, p)) < 0.8) for p in ps]
        b = k.note(kind + " b", 0.5 * k.rng.normal(size=(sum(ps), 1)))
        sp = rnp.cumsum(ps)[:-1]
        bs = rnp.split(b, sp)
        mus = [f(x @ c_) for f, x, c_ in zip(fi, Xd, bs)]
        W = u.GAMLSSGSMMFamily(P, F)
        H = W.hessian(b, sp, [y], [sps.csc_array(x) for x in Xd]).toarray()
        d1 = [F.dpars(y, *mus, index=i, order=DO.d1) for i in range(P)]
        d2 = [F.dpars(y, *mus, index=i, order=DO.d2) for i in range(P)]
        dm = [F.dpars(y, *mus, index=i, order=DO.d2m) for i in range(P * (P - 1) // 2)]
        E_ = rnp.zeros((sum(ps), sum(ps)))
        o = rnp.concatenate([[0], rnp.cumsum(ps)])
        ix = 0
        for a in range(P):
            for c_ in range(a, P):
                if a == c_:
                    v = d2[a] if d12 is None else d2[a] / d12[a](mus[a])[0] ** 2 - d1[a] * d12[a](mus[a])[1] / d12[a](mus[a])[0] ** 3
                else:
                    v = dm[ix] if d12 is None else dm[ix] / (d12[a](mus[a])[0] * d12[c_](mus[c_])[0])
                    ix += 1
                blk = (Xd[a] * v).T @ Xd[c_]
                E_[o[a] : o[a + 1], o[c_] : o[c_ + 1]] = blk
                E_[o[c_] : o[c_ + 1], o[a] : o[a + 1]] = blk.T
        k.close(kind + " Hessian", H, E_)
        g_ = rnp.concatenate([Xd[a].T @ (d1[a] if d12 is None else d1[a] / d12[a](mus[a])[0]) for a in range(P)])
        k.close(kind + " gradient", W.gradient(b, sp, [y], [sps.csc_array(x) for x in Xd]), g_)
        k.close(kind + " log-likelihood", W.llk(b, sp, [y], [sps.csc_array(x) for x in Xd]), F.llk(y, *mus))
        if kind != "multinomial":
            k.close(kind + " residuals", W.get_resid(b, sp, [y], [sps.csc_array(x) for x in Xd]), F.get_resid(y, *mus))
    for nm, lk, y in (("Poisson", rnp.exp, k.rng.poisson(2.0, size=(n, 1)).astype(float)), ("Gaussian", lambda e: e, k.rng.normal(size=(n, 1))), ("ScaledT", lambda e: e, k.rng.normal(size=(n, 1)))):
        F = getattr(m, nm)()
        Xd = k.rng.normal(size=(n, 2))
        b = 0.5 * k.rng.normal(size=(2 + {"Poisson": 0, "Gaussian": 1, "ScaledT": 2}[nm], 1))
        mu = lk(Xd @ b[:2])
        Dv = F.D(y, mu) if nm != "ScaledT" else F.D(y, mu, b[2:])
        r = u.GAMLSSGSMMFamily(1, F).get_resid(b, [2], [y], [sps.csc_array(Xd)])
        k.close(nm + " deviance residuals", r, rnp.sign(y - mu) * rnp.sqrt(Dv))


@R.add("unusable-rows", symbolic=False, nstand=40, functions=["gamm_solvers.PIRLS_pdat_weights", "gamm_solvers.PIRLS_newton_weights"],
       why_bounded="rows without finite weight or working response arise from IEEE special values, outside real arithmetic", cbound="n in 2..9, families with rows of zero/infinite weight or non-finite predictors")
def unusable(k):
    m, g = k.mod("exp_fam"), k.mod(G)
    n = int(k.rng.integers(3, 9))
    # (family, link, ordinary y, [(eta, y, bad for Fisher, bad for Newton)])
    cases = [
        (m.Gaussian(link=m.LOG()), "LOG", lambda: k.rng.normal(), [(0.0, 2.0, False, True), (rnp.nan, 1.0, True, True), (800.0, 1.0, True, True)]),
        (m.InvGauss(link=m.LOG()), "LOG", lambda: float(rnp.exp(k.rng.normal())), [(0.0, 0.5, False, True), (rnp.nan, 1.0, True, True)]),
        (m.Poisson(), "LOG", lambda: float(k.rng.poisson(2)), [(800.0, 1.0, True, True), (-800.0, 1.0, True, True), (rnp.nan, 0.0, True, True)]),
        (m.Binomial(), "Logit", lambda: float(k.rng.integers(0, 2)), [(800.0, 1.0, True, True), (rnp.nan, 0.0, True, True)]),
    ]
    F, lk, dr, special = cases[int(k.rng.integers(0, len(cases)))]
    k.note("family", type(F).__name__)
    eta = 0.5 * k.rng.normal(size=(n, 1)) + 0.013
    y = rnp.array([[dr()] for _ in range(n)])
    bf, bn = rnp.zeros(n, bool), rnp.zeros(n, bool)
    for i in k.rng.permutation(n)[: int(k.rng.integers(1, n))]:
        e_, y_, b1, b2 = special[int(k.rng.integers(0, len(special)))]
        eta[i], y[i], bf[i], bn[i] = e_, y_, b1, b2
    k.note("eta", eta), k.note("y", y)
    mu = rnp.exp(eta) if lk == "LOG" else 1 / (1 + rnp.exp(-eta))
    for nm, f, bad in (("Fisher", g.PIRLS_pdat_weights, bf), ("Newton", g.PIRLS_newton_weights, bn)):
        if bad.all():
            continue
        z, w, inv = f(y.copy(), mu.copy(), eta.copy(), F)
        k.check(nm + ": exactly the unusable rows are marked", inv.tolist() == bad.tolist(), (inv, bad))
        k.check(nm + ": unusable rows have no working response", rnp.isnan(z[bad]).all(), z)
        k.check(nm + ": other rows are finite", rnp.isfinite(z[~bad]).all() and rnp.isfinite(w[~bad]).all(), (z, w))
        z1, w1, _ = f(y[~bad], mu[~bad], eta[~bad], F)
        k.close(nm + ": other rows are not affected (z)", z[~bad], z1)
        k.close(nm + ": other rows are not affected (w)", w[~bad], w1)
