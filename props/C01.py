"""C01: links are exact bijections with exact derivatives."""
from .common import *

R = Registry("C01")


def mk(name, dom):
    def c(k):
        k.dim("n")
        m = k.mod("exp_fam")
        b = None
        if name == "LOGb":
            b = k.scalar("b", "small")
            Lk = m.LOGb(b)
            f, fi = link_spec(name, k.S("b"))
        else:
            Lk = getattr(m, name)()
            f, fi = link_spec(name)
        eta = k.arr("eta", ("n", 1))
        if name == "LOGb":
            # domain: mu + b > 0
            d = k.arr("dd", ("n", 1), "pos")
            mu = d - b
            smu = k.S("dd") - k.S("b")
            wrt = "dd"
        else:
            mu = k.arr("mu", ("n", 1), dom)
            smu = k.S("mu")
            wrt = "mu"
        k.ensure_eq("inverse(eta)", Lk.fi(eta), fi(k.S("eta")))
        k.ensure_eq("link(mu)", Lk.f(mu), f(smu))
        k.ensure_eq("link(inverse(eta)) = eta", Lk.f(Lk.fi(eta)), k.S("eta"))
        k.ensure_eq("inverse(link(mu)) = mu", Lk.fi(Lk.f(mu)), smu)
        k.ensure_eq("first derivative", Lk.dy1(mu), Dew(f(smu), wrt))
        k.ensure_eq("second derivative", Lk.dy2(mu), Dew(Dew(f(smu), wrt), wrt))

    return c


for nm, d in (("Logit", "unit"), ("Identity", "real"), ("LOG", "pos"), ("LOGb", "pos")):
    R.add(nm, functions=[f"exp_fam.{nm}.{q}" for q in ("f", "fi", "dy1", "dy2")], nsamp=15)(mk(nm, d))


@R.add("extreme-predictors", symbolic=False, nstand=10, functions=["exp_fam.Logit.fi", "exp_fam.Identity.fi"], why_bounded="float saturation is outside the real-number model",
       cbound="|eta| up to 1e5")
def ext(k):
    m = k.mod("exp_fam")
    eta = rnp.sort(rnp.concatenate([[-1e5, -750.0, -710.0, -36.0, 0.0, 36.0, 710.0, 750.0, 1e5], k.rng.normal(0, 300, 20)])).reshape(-1, 1)
    k.note("eta", eta)
    mu = m.Logit().fi(eta.copy())
    k.check("inverse logit lies in [0, 1]", bool(rnp.all((mu >= 0) & (mu <= 1))), mu)
    k.check("inverse logit is monotone", bool(rnp.all(rnp.diff(mu.flatten()) >= 0)), mu)
    k.close("inverse logit saturates", [mu[0, 0], mu[-1, 0]], [0.0, 1.0])
    k.close("identity", m.Identity().fi(eta), eta)
