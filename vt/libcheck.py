"""Numeric cross-check of every assumed library contract against the installed library."""
import numpy as np
import mpmath as mp
import scipy.stats as st, scipy.special as sp


def _pts(n, rng):
    return np.exp(rng.normal(0, 0.7, n))


def _eval(fn, args):
    """evaluate the symbolic contract numerically"""
    from .contract import evalT
    from .tensor import T
    from .expr import el, const

    env, ts = {}, []
    for q, a in enumerate(args):
        env[f"a{q}"] = np.asarray(a, float)
        ts.append(T((const(len(a)),), lambda i, q=q: el(f"a{q}", i)))
    return evalT(fn(*ts), env)


def check(assumed):
    from . import shim

    rng = np.random.default_rng(7)
    n, bad = 0, []
    P = lambda: _pts(5, rng)
    U = lambda: rng.uniform(0.05, 0.95, 5)
    N = lambda: rng.normal(0, 1, 5)
    C = lambda: rng.integers(0, 6, 5).astype(float)
    cases = {
        "scipy.stats.norm.logpdf": (lambda x, l, s: st.norm.logpdf(x, loc=l, scale=s), lambda: (N(), N(), P())),
        "scipy.stats.norm.pdf": (lambda x, l, s: st.norm.pdf(x, loc=l, scale=s), lambda: (N(), N(), P())),
        "scipy.stats.norm.cdf": (lambda x, l, s: st.norm.cdf(x, loc=l, scale=s), lambda: (N(), N(), P())),
        "scipy.stats.norm.ppf": (lambda q, l, s: st.norm.ppf(q, loc=l, scale=s), lambda: (U(), N(), P())),
        "scipy.stats.norm.logcdf": (lambda x, l, s: st.norm.logcdf(x, loc=l, scale=s), lambda: (N(), N(), P())),
        "scipy.stats.gamma.logpdf": (lambda x, a, s: st.gamma.logpdf(x, a, scale=s), lambda: (P(), P(), P())),
        "scipy.stats.gamma.pdf": (lambda x, a, s: st.gamma.pdf(x, a, scale=s), lambda: (P(), P(), P())),
        "scipy.stats.gamma.logcdf": (lambda x, a, s: st.gamma.logcdf(x, a, scale=s), lambda: (P(), P(), P())),
        "scipy.stats.invgauss.logpdf": (lambda x, m, s: st.invgauss.logpdf(x, m, scale=s), lambda: (P(), P(), P())),
        "scipy.stats.expon.logpdf": (lambda x, l, s: st.expon.logpdf(x, loc=l, scale=s), lambda: (1 + P(), U(), P())),
        "scipy.stats.expon.logcdf": (lambda x, l, s: st.expon.logcdf(x, loc=l, scale=s), lambda: (1 + P(), U(), P())),
        "scipy.stats.poisson.logpmf": (lambda k, m: st.poisson.logpmf(k, m), lambda: (C(), P())),
        "scipy.stats.binom.logpmf": (lambda k, p: st.binom.logpmf(k, 7, p), lambda: (C(), U())),
        "scipy.special.gammaln": (sp.gammaln, lambda: (P(),)),
        "scipy.special.digamma": (sp.digamma, lambda: (P(),)),
        "scipy.special.polygamma": (lambda x: sp.polygamma(1, x), lambda: (P(),)),
    }
    for name in assumed:
        if name not in cases:
            continue
        lib, gen = cases[name]
        parts = name.split(".")
        for _ in range(3):
            args = gen()
            if parts[1] == "stats":
                f0 = shim.STATS[(parts[2], parts[3])]
                if parts[2] in ("norm", "expon"):
                    f = lambda x, l, s: f0(x, loc=l, scale=s)
                elif parts[2] == "gamma":
                    f = lambda x, a, s: f0(x, a, scale=s)
                elif parts[2] == "invgauss":
                    f = lambda x, m, s: f0(x, m, scale=s)
                elif parts[2] == "binom":
                    f = lambda k, p: f0(k, 7, p)
                else:
                    f = f0
            else:
                f0 = shim.SPECIAL[parts[2]]
                f = (lambda x: f0(1, x)) if parts[2] == "polygamma" else f0
            got = _eval(f, args)
            want = lib(*args)
            n += 1
            if not np.allclose(got, want, rtol=1e-9, atol=1e-10):
                bad.append((name, got.tolist(), np.asarray(want).tolist()))
    return {"n": n, "bad": bad}
