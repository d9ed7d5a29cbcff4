"""C03: score with respect to the coefficients (and the log-scale) for exponential families, any link."""
from .common import *
from .C02 import gauss_lp, gamma_lp, ig_lp, pois_lp, binom_lp

R = Registry("C03")

FAM = {
    "Gaussian": ("real", "real", gauss_lp, True),
    "Gamma": ("pos", "pos", gamma_lp, True),
    "InvGauss": ("pos", "pos", ig_lp, True),
    "Poisson": ("count", "pos", lambda y, m, p: pois_lp(y, m), False),
    "Binomial": ("bin", "unit", lambda y, m, p: binom_lp(y, lift(1), m), False),
}
LINKS = {
    "Gaussian": ["Identity", "LOG"],
    "Gamma": ["LOG"],
    "InvGauss": ["LOG"],
    "Poisson": ["LOG"],
    "Binomial": ["Logit"],
}


def mk(fam, lk):
    dy, dm, lpS, twopar = FAM[fam]

    def c(k):
        k.dim("n")
        k.dim("p", choices=(1, 2, 3))
        m = k.mod("exp_fam")
        F = getattr(m, fam)(link=getattr(m, lk)())
        y = k.arr("y", ("n", 1), dy)
        X_ = k.arr("X", ("n", "p"), sp=True)
        b = k.arr("b", ("p", 1), "small")
        phi = k.scalar("phi", "pos")
        _, fi = link_spec(lk)
        M = fi(matmul(k.S("X"), k.S("b")))
        P = k.S("phi") if twopar else lift(1)
        ll = lpS(k.S("y"), M, P).sum()
        if twopar:
            g = F.dllkdcoef(b, y, X_, phi)
        else:
            g = F.dllkdcoef(b, y, X_)
        k.ensure_eq("gradient of the log-likelihood", g, grad(ll, "b", "p"))

    return c


for f_ in FAM:
    for l_ in LINKS[f_]:
        R.add(f"{f_}-{l_}", functions=["exp_fam.Family.dllkdcoef", f"exp_fam.{f_}.V", f"exp_fam.{l_}.fi", f"exp_fam.{l_}.dy1"])(mk(f_, l_))


def binN(kind):
    def c(k):
        k.dim("n")
        k.dim("p", choices=(1, 2, 3))
        m = k.mod("exp_fam")
        if kind == "scalar":
            nt = k.scalar("nt", "pos", facts=lambda e: [le(ONE, e)], sample=lambda r, s: float(r.integers(1, 9)))
        else:
            nt = k.arr("nt", ("n", 1), "pos", facts=lambda e: [le(ONE, e)], sample=lambda r, s: r.integers(1, 9, s).astype(float))
        kk = k.arr("kk", ("n", 1), "count", sample=lambda r, s: rnp.floor(r.random(s) * (k.env["nt"] + 1)))
        F = m.Binomial(n=nt)
        X_ = k.arr("X", ("n", "p"), sp=True)
        b = k.arr("b", ("p", 1), "small")
        _, fi = link_spec("Logit")
        ll = binom_lp(k.S("kk"), k.S("nt"), fi(matmul(k.S("X"), k.S("b")))).sum()
        k.ensure_eq("gradient of the log-likelihood", F.dllkdcoef(b, kk / nt, X_), grad(ll, "b", "p"))

    return c


for kd in ("scalar", "array"):
    R.add(f"Binomial-trials-{kd}", functions=["exp_fam.Family.dllkdcoef", "exp_fam.Binomial.V"])(binN(kd))


def lscale(fam, lk):
    dy, dm, lpS, twopar = FAM[fam]

    def c(k):
        k.dim("n", choices=(1, 3, 6))
        k.dim("p", choices=(1, 2, 3))
        m = k.mod("exp_fam")
        F = getattr(m, fam)(link=getattr(m, lk)())
        y, X_, b = k.arr("y", ("n", 1), dy), k.arr("X", ("n", "p"), sp=True), k.arr("b", ("p", 1), "small")
        ls = k.scalar("ls", "small")
        phi = rnp.exp(ls)
        _, fi = link_spec(lk)
        ll = lpS(k.S("y"), fi(matmul(k.S("X"), k.S("b"))), exp(k.S("ls")) if twopar else lift(1)).sum()
        g = F.dllkdlscale(b, y, X_, phi) if twopar else F.dllkdlscale(b, y, X_)
        h = F.d2llkd2lscale(b, y, X_, phi) if twopar else F.d2llkd2lscale(b, y, X_)
        d1 = D(ll, "ls") if twopar else lift(0)
        d2 = D(D(ll, "ls"), "ls") if twopar else lift(0)
        k.ensure_eq("d llk / d log scale", g, d1, rtol=1e-3, atol=1e-4)
        k.ensure_eq("d2 llk / d log scale^2", h, d2, rtol=1e-3, atol=1e-4)

    return c


for f_ in FAM:
    R.add(f"logscale-{f_}", functions=["exp_fam.Family.dllkdlscale", "exp_fam.Family.d2llkd2lscale"], symbolic=False, nstand=15,
          why_bounded="the code approximates this derivative by scipy finite differences; compared with the exact derivative within 1e-3")(lscale(f_, LINKS[f_][0]))
