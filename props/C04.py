"""C04: scaled-t family."""
from .common import *

R = Registry("C04")


def t_lp(y, mu, t0, t1, mdf):
    def f(y, m, a, b, d):
        phi = fn("exp", a)
        nu = X.add(fn("exp", b), d)
        h = X.div(X.add(nu, ONE), const(2))
        z = X.div(X.sub(y, m), phi)
        return X.add(
            fn("gammaln", h), X.neg(fn("gammaln", X.div(nu, const(2)))), X.neg(fn("log", phi)),
            X.neg(X.mul(HALF, X.add(fn("log", PI), fn("log", nu)))),
            X.neg(X.mul(h, fn("log", X.add(ONE, X.div(X.power(z, const(2)), nu))))),
        )

    return E1(f, y, mu, t0, t1, mdf)


def mk(how):
    def c(k):
        k.dim("n")
        m = k.mod("exp_fam")
        th = k.arr("th", (2, 1), "small")
        mdf = k.scalar("mdf", "pos", facts=lambda e: [le(const(3), e)], sample=lambda r, s: float(3 + r.integers(0, 4)))
        y, mu = k.arr("y", ("n", 1)), k.arr("mu", ("n", 1))
        if how == "stored":
            F = m.ScaledT(theta=th, min_df=mdf)
            a = ()
        else:
            F = m.ScaledT(min_df=mdf)
            a = (th,)
        Y, M, d = k.S("y"), k.S("mu"), k.S("mdf")
        t0, t1 = k.S("th")[0, 0], k.S("th")[1, 0]
        lp = t_lp(Y, M, t0, t1, d)
        sat = t_lp(Y, Y, t0, t1, d)
        phi, nu = exp(t0), exp(t1) + d
        k.ensure_eq("log density", F.lp(y, mu, *a), lp)
        k.ensure_eq("log-likelihood", F.llk(y, mu, *a), lp.sum())
        Dv = 2 * (sat - lp)
        k.ensure_eq("deviance contributions = 2(saturated - fitted)", F.D(y, mu, *a), Dv)
        k.ensure_eq("deviance", F.deviance(y, mu, *a), Dv.sum())
        k.ensure_eq("dD/dmu", F.dDdmu(y, mu, *a), Dew(Dv, "mu"))
        k.ensure_eq("d2D/dmu2", F.d2Ddmu(y, mu, *a), Dew(Dew(Dv, "mu"), "mu"))
        k.ensure_eq("expected d2D/dmu2", F.Ed2Ddmu(y, mu, *a), (Y * 0 + 2) * (nu + 1) / ((nu + 3) * phi * phi))
        k.ensure_eq("variance", F.V(mu, *a), M * 0 + phi * phi * nu / (nu - 2))
        k.ensure_eq("variance derivative", F.dVy1(mu, *a), M * 0)
        ll = lp.sum().scalarE()
        g = T((const(2), const(1)), lambda i, j: X.diff(ll, el("th", i, ZERO)))
        if how == "given":
            gi = F.gradientLTheta(y, mu, th)
            hi = F.hessianLTheta(y, mu, th)
            d0, d1 = el("th", ZERO, ZERO), el("th", ONE, ZERO)
            from vt.tensor import from_list

            def sc(e):
                return T((), lambda: e)

            k.ensure_eq("d llk/d theta0", gi[0, 0], sc(X.diff(ll, d0)))
            k.ensure_eq("d llk/d theta1", gi[1, 0], sc(X.diff(ll, d1)))
            k.ensure_eq("Hessian 00", hi[0, 0], sc(X.diff(X.diff(ll, d0), d0)))
            k.ensure_eq("Hessian 01", hi[0, 1], sc(X.diff(X.diff(ll, d0), d1)))
            k.ensure_eq("Hessian 10", hi[1, 0], sc(X.diff(X.diff(ll, d0), d1)))
            k.ensure_eq("Hessian 11", hi[1, 1], sc(X.diff(X.diff(ll, d1), d1)))

    return c


for h in ("given", "stored"):
    R.add(f"ScaledT-{h}-theta", functions=[f"exp_fam.ScaledT.{q}" for q in ("lp", "llk", "D", "deviance", "dDdmu", "d2Ddmu", "Ed2Ddmu", "V", "dVy1", "gradientLTheta", "hessianLTheta")])(mk(h))


@R.add("expected-curvature", symbolic=False, nstand=6, functions=["exp_fam.ScaledT.Ed2Ddmu", "exp_fam.ScaledT.d2Ddmu"],
       why_bounded="expectation is an integral over the density; numerical quadrature at sampled parameters")
def expc(k):
    import scipy.integrate as si, math

    m = k.mod("exp_fam")
    th = k.note("theta", k.rng.normal(0, 0.6, (2, 1)))
    mu = float(k.note("mu", k.rng.normal()))
    F = m.ScaledT(theta=th)
    A = lambda v: rnp.array([[v]])
    f = lambda u: (lambda y: float(F.d2Ddmu(A(y), A(mu))[0, 0]) * math.exp(float(F.lp(A(y), A(mu))[0, 0])))(mu + math.tan(u)) / math.cos(u) ** 2
    val = si.quad(f, -math.pi / 2 + 1e-9, math.pi / 2 - 1e-9, limit=200)[0]
    k.close("E[d2D/dmu2]", F.Ed2Ddmu(A(0.3), A(mu))[0, 0], val, rtol=1e-5)
