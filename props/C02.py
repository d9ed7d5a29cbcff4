"""C02: exponential-family densities, deviance, variance function, scale."""
from .common import *

R = Registry("C02")
half = HALF


def gauss_lp(y, mu, phi):
    return E1(lambda y, m, s: X.sub(X.neg(X.div(X.power(X.sub(y, m), const(2)), X.mul(const(2), s))), X.mul(HALF, X.add(fn("log", s), LOG2PI))), y, mu, phi)


def gamma_lp(y, mu, phi):
    # shape a = 1/phi, mean mu: a log a - a log mu + (a-1) log y - a y/mu - lgamma(a)
    def f(y, m, s):
        a = X.div(ONE, s)
        return X.add(X.mul(a, fn("log", a)), X.neg(X.mul(a, fn("log", m))), X.mul(X.sub(a, ONE), fn("log", y)), X.neg(X.div(X.mul(a, y), m)), X.neg(fn("gammaln", a)))

    return E1(f, y, mu, phi)


def ig_lp(y, mu, phi):
    # 0.5 log(lam/(2 pi y^3)) - lam (y-mu)^2/(2 mu^2 y), lam = 1/phi
    def f(y, m, s):
        return X.sub(
            X.mul(HALF, X.sub(X.neg(fn("log", s)), X.add(LOG2PI, X.mul(const(3), fn("log", y))))),
            X.div(X.power(X.sub(y, m), const(2)), X.mul(const(2), s, X.power(m, const(2)), y)),
        )

    return E1(f, y, mu, phi)


def pois_lp(y, mu):
    return E1(lambda y, m: X.sub(X.sub(X.mul(y, fn("log", m)), m), fn("gammaln", X.add(y, ONE))), y, mu)


def binom_lp(kk, n, mu):
    def f(k, n, p):
        return X.add(
            fn("gammaln", X.add(n, ONE)), X.neg(fn("gammaln", X.add(k, ONE))), X.neg(fn("gammaln", X.add(X.sub(n, k), ONE))),
            X.mul(k, fn("log", p)), X.mul(X.sub(n, k), fn("log", X.sub(ONE, p))),
        )

    return E1(f, kk, n, mu)


def gauss_D(y, mu):
    return (y - mu) * (y - mu)


def gamma_D(y, mu):
    return 2 * ((y - mu) / mu - np.log(y / mu))


def ig_D(y, mu):
    return (y - mu) * (y - mu) / (mu * mu * y)


def pois_D(y, mu):
    return E1(lambda y, m: X.mul(const(2), X.sub(xlogyE(y, X.div(y, m)), X.sub(y, m))), y, mu)


def binom_D(kk, n, mu):
    def f(k, n, p):
        r = X.sub(n, k)
        return X.mul(const(2), X.add(xlogyE(k, X.div(k, X.mul(n, p))), xlogyE(r, X.div(r, X.sub(n, X.mul(n, p))))))

    return E1(f, kk, n, mu)


TWO = {
    "Gaussian": ("real", "real", gauss_lp, gauss_D, lambda m: m * 0 + 1),
    "Gamma": ("pos", "pos", gamma_lp, gamma_D, lambda m: m * m),
    "InvGauss": ("pos", "pos", ig_lp, ig_D, lambda m: m * m * m),
}


def two(name):
    dy, dm, lpS, DS, VS = TWO[name]

    def c(k):
        k.dim("n")
        F = getattr(k.mod("exp_fam"), name)()
        y, mu, phi = k.arr("y", ("n", 1), dy), k.arr("mu", ("n", 1), dm), k.scalar("phi", "pos")
        Y, M, P = k.S("y"), k.S("mu"), k.S("phi")
        k.ensure_eq("log density", F.lp(y, mu, phi), lpS(Y, M, P))
        k.ensure_eq("log-likelihood = sum of log densities", F.llk(y, mu, phi), lpS(Y, M, P).sum())
        k.ensure_eq("default scale is 1", F.lp(y, mu), lpS(Y, M, lift(1)))
        k.ensure_eq("deviance contributions", F.D(y, mu), DS(Y, M))
        k.ensure_eq("deviance", F.deviance(y, mu), DS(Y, M).sum())
        # 2*phi*(saturated - fitted)
        k.ensure_eq("deviance = 2 scale (saturated llk - llk)", F.D(y, mu), 2 * P * (lpS(Y, Y, P) - lpS(Y, M, P)))
        k.ensure_eq("variance function", F.V(mu), VS(M))
        k.ensure_eq("variance derivative", F.dVy1(mu), Dew(VS(M), "mu"))

    return c


for nm in TWO:
    R.add(nm, functions=[f"exp_fam.{nm}.{q}" for q in ("lp", "llk", "D", "deviance", "V", "dVy1")])(two(nm))


@R.add("Poisson", functions=[f"exp_fam.Poisson.{q}" for q in ("lp", "llk", "D", "deviance", "V", "dVy1", "init_mu")])
def pois(k):
    k.dim("n")
    F = k.mod("exp_fam").Poisson()
    y, mu = k.arr("y", ("n", 1), "count"), k.arr("mu", ("n", 1), "pos")
    Y, M = k.S("y"), k.S("mu")
    k.ensure_eq("log density", F.lp(y, mu), pois_lp(Y, M))
    k.ensure_eq("log-likelihood", F.llk(y, mu), pois_lp(Y, M).sum())
    k.ensure_eq("deviance contributions", F.D(y, mu), pois_D(Y, M))
    k.ensure_eq("deviance", F.deviance(y, mu), pois_D(Y, M).sum())
    k.ensure_eq("variance function", F.V(mu), M)
    k.ensure_eq("variance derivative", F.dVy1(mu), M * 0 + 1)
    k.ensure("initial mean is a valid mean", F.init_mu(y), lambda e: lt(ZERO, e))


def binom(kind):
    def c(k):
        k.dim("n")
        if kind == "scalar":
            nt = k.scalar("nt", "pos", facts=lambda e: [le(ONE, e)], sample=lambda r, s: float(r.integers(1, 9)))
            N = k.S("nt")
            nn = lambda e: N.scalarE()
        elif kind == "array":
            nt = k.arr("nt", ("n", 1), "pos", facts=lambda e: [le(ONE, e)], sample=lambda r, s: r.integers(1, 9, s).astype(float))
            N = k.S("nt")
            nn = lambda e: el("nt", *e.args[1:])
        else:
            nt = None
            N = lift(1)
            nn = lambda e: ONE
        kk = k.arr("kk", ("n", 1), "count", facts=lambda e: ([le(ZERO, e), le(e, nn(e))] if e.op == "el" else [le(ZERO, e)]),
                   sample=lambda r, s: rnp.floor(r.random(s) * (k.env["nt"] + 1)) if nt is not None else r.integers(0, 2, s).astype(float))
        mu = k.arr("mu", ("n", 1), "unit")
        m = k.mod("exp_fam")
        F = m.Binomial(n=nt) if nt is not None else m.Binomial()
        y = kk / nt if nt is not None else kk
        K, M = k.S("kk"), k.S("mu")
        k.ensure_eq("log density", F.lp(y, mu), binom_lp(K, N, M))
        k.ensure_eq("log-likelihood", F.llk(y, mu), binom_lp(K, N, M).sum())
        k.ensure_eq("deviance contributions", F.D(y, mu), binom_D(K, N, M))
        k.ensure_eq("deviance", F.deviance(y, mu), binom_D(K, N, M).sum())
        k.ensure_eq("variance of a proportion", F.V(mu), M * (1 - M) / N)
        k.ensure_eq("variance derivative", F.dVy1(mu), (1 - 2 * M) / N)
        im = F.init_mu(y)
        k.ensure("initial mean in (0,1)", im, lambda e: and_(lt(ZERO, e), lt(e, ONE)))

    return c


for kd in ("bernoulli", "scalar", "array"):
    R.add(f"Binomial-{kd}", functions=[f"exp_fam.Binomial.{q}" for q in ("lp", "llk", "D", "deviance", "V", "dVy1", "init_mu")])(binom(kd))


@R.add("est_scale", functions=["exp_fam.est_scale"])
def es(k):
    k.dim("n")
    res = k.arr("res", ("n", 1))
    edf = k.scalar("edf", "real", sample=lambda r, s: float(r.uniform(0, 1.5)))
    N = k.S("n")
    rows = k.scalar("rows", "pos", facts=lambda e: [lt(var("edf", "R"), e), lt(ZERO, e)] if e.op == "v" else [], sample=lambda r, s: 4.0 + r.integers(0, 9))
    k.ensure_eq("scale = RSS/(n - edf)", k.mod("exp_fam").est_scale(res, rows, edf), (k.S("res") * k.S("res")).sum() / (k.S("rows") - k.S("edf")))
