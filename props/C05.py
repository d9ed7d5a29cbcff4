"""C05: multi-parameter (location/scale/shape and multinomial) families."""
from .common import *
from .C02 import gamma_lp, gamma_D

R = Registry("C05")


def norm_lp(y, mu, s):
    return E1(lambda y, m, s: X.sub(X.neg(X.div(X.power(X.sub(y, m), const(2)), X.mul(const(2), X.power(s, const(2))))), X.add(fn("log", s), X.mul(HALF, LOG2PI))), y, mu, s)


@R.add("GAUMLSS", functions=[f"exp_fam.GAUMLSS.{q}" for q in ("lp", "lcp", "llk", "dpars", "get_resid")])
def gau(k):
    k.dim("n")
    m = k.mod("exp_fam")
    DO = k.mod("custom_types").DerivOrder
    F = m.GAUMLSS()
    y, mu, s = k.arr("y", ("n", 1)), k.arr("mu", ("n", 1)), k.arr("s", ("n", 1), "pos")
    Y, M, S = k.S("y"), k.S("mu"), k.S("s")
    lp = norm_lp(Y, M, S)
    k.ensure_eq("log density", F.lp(y, mu, s), lp)
    k.ensure_eq("log-likelihood", F.llk(y, mu, s), lp.sum())
    k.ensure_eq("log cdf", F.lcp(y, mu, s), E1(lambda y, m, s: fn("log", fn("normcdf", X.div(X.sub(y, m), s))), Y, M, S))
    d = lambda i, o: F.dpars(y, mu, s, index=i, order=o)
    k.ensure_eq("d/dmu", d(0, DO.d1), Dew(lp, "mu"))
    k.ensure_eq("d/dsigma", d(1, DO.d1), Dew(lp, "s"))
    k.ensure_eq("d2/dmu2", d(0, DO.d2), Dew(Dew(lp, "mu"), "mu"))
    # expected second derivatives: E[(y-mu)^2] = sigma^2, E[y-mu] = 0
    k.ensure_eq("E d2/dsigma2", d(1, DO.d2), -2 / (S * S))
    k.ensure_eq("E d2/dmudsigma", d(0, DO.d2m), M * 0)
    k.ensure_eq("standardised residual", F.get_resid(y, mu, s), (Y - M) / S)


@R.add("GAMMALS", functions=[f"exp_fam.GAMMALS.{q}" for q in ("lp", "lcp", "llk", "dpars", "get_resid")])
def gam(k):
    k.dim("n")
    m = k.mod("exp_fam")
    DO = k.mod("custom_types").DerivOrder
    F = m.GAMMALS()
    y, mu, s = k.arr("y", ("n", 1), "pos"), k.arr("mu", ("n", 1), "pos"), k.arr("s", ("n", 1), "pos")
    Y, M, S = k.S("y"), k.S("mu"), k.S("s")
    lp = gamma_lp(Y, M, S)
    k.ensure_eq("log density", F.lp(y, mu, s), lp)
    k.ensure_eq("log-likelihood", F.llk(y, mu, s), lp.sum())
    k.ensure_eq("log cdf", F.lcp(y, mu, s), E1(lambda y, m, s: fn("log", fn("gammacdf", X.div(ONE, s), X.div(y, X.mul(m, s)))), Y, M, S))
    d = lambda i, o: F.dpars(y, mu, s, index=i, order=o)
    k.ensure_eq("d/dmu", d(0, DO.d1), Dew(lp, "mu"))
    k.ensure_eq("d/dphi", d(1, DO.d1), Dew(lp, "s"))
    # expectations: E[y] = mu makes these exact: d2 is linear in y and log y with E[log y] = digamma(1/phi) + log(mu phi)
    def Ey(e):  # replace y and log y by their expectations
        return e

    k.ensure_eq("E d2/dmu2", d(0, DO.d2), -1 / (S * M * M))
    k.ensure_eq("E d2/dphi2", d(1, DO.d2), E1(lambda s: X.sub(X.power(s, const(-3)), X.mul(X.power(s, const(-4)), fn("polygamma", ONE, X.power(s, MONE)))), S))
    k.ensure_eq("E d2/dmudphi", d(0, DO.d2m), M * 0)
    r = F.get_resid(y, mu, s)
    k.ensure_eq("deviance residual squared", r * r, gamma_D(Y, M) / S)
    k.log_lemma(Y / M)
    k.ensure("residual has the sign of y - mu", r * (y - mu), lambda e: le(ZERO, e))


def mul(K, pos=None):
    def c(k):
        k.dim("n")
        m = k.mod("exp_fam")
        DO = k.mod("custom_types").DerivOrder
        F = m.MULNOMLSS(K)
        yd = dict(facts=lambda e: [or_(*[eq(e, const(q)) for q in range(K + 1)])], sample=lambda r, s: r.integers(0, K + 1, s).astype(float))
        y = k.arr("y", ("n", 1), "count", **yd)
        mus = [k.arr(f"mu{q}", ("n", 1), "pos") for q in range(K)]
        Y = k.S("y")
        MU = [k.S(f"mu{q}") for q in range(K)]

        def lpE(y, *ms):
            r = X.neg(fn("log", X.add(ONE, *ms)))
            for q in range(K):
                r = X.add(r, ite(eq(y, const(q + 1)), fn("log", ms[q]), ZERO))
            return r

        lp = E1(lpE, Y, *MU)
        k.ensure_eq("log probability", F.lp(y, *mus), lp)
        k.ensure_eq("log-likelihood", F.llk(y, *mus), lp.sum())
        # order of the cumulative probabilities: 1, 2, .., K, 0
        def lcpE(y, *ms):
            r = ZERO
            for q in range(K, 0, -1):
                r = ite(eq(y, const(q)), X.sub(fn("log", X.add(*ms[:q])), fn("log", X.add(ONE, *ms))), r)
            return r

        k.ensure_eq("cumulative log probability", F.lcp(y, *mus), E1(lcpE, Y, *MU))
        pr = F.get_probs(*mus)
        tot = MU[0]
        for q in MU[1:]:
            tot = tot + q
        for q in range(K + 1):
            k.ensure_eq(f"probability of class {q}", pr[:, q], ((MU[q - 1] if q else MU[0] * 0 + 1) / (1 + tot))[:, 0])
        k.ensure_eq("probabilities sum to one", pr.sum(axis=1), (MU[0] * 0 + 1)[:, 0])
        # derivatives with respect to the linear predictors eta_q = log mu_q
        def de(t, q):
            return Dew(t, f"mu{q}") * MU[q]

        # exact derivatives with respect to the linear predictors
        pairs = [(a, b) for a in range(K) for b in range(a + 1, K)]
        for q in range(K):
            g = de(lp, q)
            k.ensure_eq(f"d/deta{q}", F.dpars(y, *mus, index=q, order=DO.d1), g)
            k.ensure_eq(f"d2/deta{q}^2", F.dpars(y, *mus, index=q, order=DO.d2), de(g, q))
        for ix, (a, b) in enumerate(pairs):
            k.ensure_eq(f"d2/deta{a}deta{b}", F.dpars(y, *mus, index=ix, order=DO.d2m), de(de(lp, a), b))

    return c


for K in (1, 2, 3, 4):
    R.add(f"MULNOMLSS-{K}", functions=[f"exp_fam.MULNOMLSS.{q}" for q in ("lp", "lcp", "llk", "dpars", "get_probs")])(mul(K))


@R.add("multinomial-residuals-and-draws", symbolic=False, nstand=12, functions=["exp_fam.MULNOMLSS.get_resid", "exp_fam.MULNOMLSS.rvs"],
       why_bounded="randomised quantile residuals and pseudo-random draws (numpy generator state is outside the logic)")
def mres(k):
    import scipy.stats as st

    m = k.mod("exp_fam")
    K = int(k.note("K", k.rng.integers(1, 5)))
    n = int(k.note("n", k.rng.integers(1, 9)))
    F = m.MULNOMLSS(K)
    mus = [k.note(f"mu{q}", rnp.exp(k.rng.normal(0, 0.7, (n, 1)))) for q in range(K)]
    y = k.note("y", k.rng.integers(0, K + 1, (n, 1)).astype(float))
    tot = 1 + sum(mus)
    order = list(range(1, K + 1)) + [0]
    pr = rnp.hstack([(mus[c - 1] if c else 1 + 0 * mus[0]) / tot for c in order])
    cum = rnp.cumsum(pr, axis=1)
    r = F.get_resid(y, *mus, seed=int(k.rng.integers(0, 99)))
    k.check("shape", r.shape == (n, 1), r.shape)
    u = st.norm.cdf(r)
    for i in range(n):
        pos = order.index(int(y[i, 0]))
        lo = cum[i, pos - 1] if pos else 0.0
        k.check("randomised quantile residual lies in its class interval", lo - 1e-9 <= u[i, 0] <= cum[i, pos] + 1e-9, f"class {y[i,0]}: {u[i,0]} not in [{lo},{cum[i,pos]}]")
    S = 4000
    d = F.rvs(*mus, size=S, seed=int(k.rng.integers(0, 99)))
    k.check("draw shape", d.shape == (S, n), d.shape)
    for c in range(K + 1):
        p = pr[:, order.index(c)]
        f = (d == c).mean(axis=0)
        k.check("draw frequencies match class probabilities", (rnp.abs(f - p) < 6 * rnp.sqrt(p * (1 - p) / S) + 1e-3).all(), f"class {c}: {f} vs {p}")


@R.add("gaussian-gamma-draws", symbolic=False, nstand=8, functions=["exp_fam.GAUMLSS.rvs", "exp_fam.GAMMALS.rvs"], why_bounded="pseudo-random draws")
def draws(k):
    m = k.mod("exp_fam")
    n = int(k.note("n", k.rng.integers(1, 6)))
    S = 6000
    mu, s = k.note("mu", rnp.exp(k.rng.normal(0, 0.5, (n, 1)))), k.note("s", rnp.exp(k.rng.normal(-0.5, 0.3, (n, 1))))
    for nm, va in (("GAUMLSS", s**2), ("GAMMALS", s * mu**2)):
        d = getattr(m, nm)().rvs(mu, s, size=S, seed=int(k.rng.integers(0, 99)))
        k.check(nm + " draw shape", d.shape == (S, n), d.shape)
        k.check(nm + " draw mean", (rnp.abs(d.mean(axis=0) - mu[:, 0]) < 6 * rnp.sqrt(va[:, 0] / S)).all(), "mean")
        k.check(nm + " draw variance", (rnp.abs(d.var(axis=0) / va[:, 0] - 1) < 0.35).all(), "variance")
