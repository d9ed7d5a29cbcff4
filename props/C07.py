"""C07: multivariate Gaussian family (any covariance, coefficients and Cholesky parameters estimated together)."""
from .common import *

R = Registry("C07")
QS = ("getR", "llk", "gradient", "jcolhessian", "get_resid", "predict")
FN = [f"exp_fam.MultiGauss.{q}" for q in QS]


def tpairs(P):
    return [(i, j) for i in range(P) for j in range(i, P)]


def spec(k, P, ps, shared):
    """log-likelihood (up to the constant) as a term in the entries of the coefficient vector b"""
    B = k.S("b")
    o, res = 0, []
    for i, p in enumerate(ps):
        Xi = k.S("X0" if shared[i] else f"X{i}")
        res.append((k.S(f"y{i}") - matmul(Xi, B[o : o + p]))[:, 0])
        o += p
    th = {ij: B[o + q, 0] for q, ij in enumerate(tpairs(P))}
    R_ = {ij: (exp(t) if ij[0] == ij[1] else t) for ij, t in th.items()}
    cols = []
    for i in range(P):
        c = res[i] * R_[i, i]
        for j in range(i + 1, P):
            c = c + res[j] * R_[i, j]
        cols.append(c)
    n = dimE("n") if False else None
    ss = cols[0] * cols[0]
    for c in cols[1:]:
        ss = ss + c * c
    ld = th[0, 0]
    for i in range(1, P):
        ld = ld + th[i, i]
    one = res[0] * 0 + 1
    return (lift(0) - ss.sum() * const(Fraction(1, 2)) + one.sum() * ld), cols, R_


def mk(P, ps, shared=None, hess=True):
    shared = shared or [False] * P

    def c(k):
        k.dim("n")
        m = k.mod("exp_fam")
        F = m.MultiGauss(P, [m.Identity() for _ in range(P)])
        nt = P * (P + 1) // 2
        q = sum(ps) + nt
        b = k.arr("b", (q, 1), "small")
        ys = [k.arr(f"y{i}", ("n", 1)) for i in range(P)]
        Xs = [None if shared[i] else k.arr(f"X{i}", ("n", p), sp=True) for i, p in enumerate(ps)]
        split = [int(v) for v in rnp.cumsum(ps)]
        ll, cols, R_ = spec(k, P, ps, shared)
        k.ensure_true("number of extra coefficients", F.extra_coef == nt)
        k.ensure_eq("log-likelihood", F.llk(b, split, ys, Xs), ll)
        g = F.gradient(b, split, ys, Xs)
        G = grad(ll, "b", q)
        k.ensure_eq("gradient", g, G)
        le_ = ll.scalarE()
        if hess:
            for j in range(q):
                H = T((const(q), ONE), lambda i, _, j=j: X.diff(X.diff(le_, el("b", i, ZERO)), el("b", const(j), ZERO)))
                k.ensure_eq(f"Hessian column {j}", F.jcolhessian(j, b, split, ys, Xs), H)
        k.ensure_eq("standardised residuals", F.get_resid(b, split, ys, Xs), np.concatenate([c_.reshape(-1, 1) for c_ in cols], axis=1))
        for i in range(P):
            k.ensure_eq(f"standardised residuals of dimension {i}", F.get_resid(b, split, ys, Xs, mean=i), cols[i].reshape(-1, 1))

    return c


R.add("one-dimension", functions=FN)(mk(1, [2]))
R.add("two-dimensions", functions=FN)(mk(2, [1, 2]))
R.add("two-dimensions-shared-design", functions=FN)(mk(2, [2, 2], [False, True]))
R.add("three-dimensions", functions=FN)(mk(3, [1, 1, 1]))


@R.add("four-dimensions", symbolic=False, nstand=6, functions=FN, why_bounded="fixed dimension, sampled", cbound="n in 1..6, four dimensions")
def four(k):
    mk(4, [1, 2, 1, 2])(k)


@R.add("random-draws", symbolic=False, nstand=3, functions=["exp_fam.MultiGauss.rvs", "exp_fam.MultiGauss.getR"], why_bounded="random number generation; sample moments with a six-sigma tolerance", cbound="2 to 3 dimensions, 4000 draws")
def draws(k):
    m = k.mod("exp_fam")
    P = int(k.rng.integers(2, 4))
    F = m.MultiGauss(P, [m.Identity() for _ in range(P)])
    th = k.note("theta", 0.5 * k.rng.normal(size=P * (P + 1) // 2))
    mus = k.note("mus", k.rng.normal(size=(3, P)))
    N_ = 4000
    r = F.rvs(mus, th, size=N_, seed=int(k.rng.integers(0, 1000)))
    k.check("shape", r.shape == (N_, P, 3), r.shape)
    Rm = rnp.zeros((P, P))
    for q, (i, j) in enumerate(tpairs(P)):
        Rm[i, j] = rnp.exp(th[q]) if i == j else th[q]
    Rg, ld = F.getR(th)
    k.close("R", Rg, Rm)
    k.close("log determinant", ld, sum(th[q] for q, (i, j) in enumerate(tpairs(P)) if i == j))
    C = rnp.linalg.inv(Rm.T @ Rm)
    for o in range(3):
        X_ = r[:, :, o]
        se = rnp.sqrt(rnp.diag(C) / N_)
        k.check("sample mean", bool((abs(X_.mean(0) - mus[o]) < 6 * se).all()), (X_.mean(0), mus[o]))
        S = rnp.cov(X_.T)
        sc = rnp.sqrt((rnp.outer(rnp.diag(C), rnp.diag(C)) + C**2) / N_)
        k.check("sample covariance", bool((abs(S - C) < 6 * sc).all()), (S, C))
    k.check("observations are drawn independently", abs(rnp.corrcoef(r[:, 0, 0], r[:, 0, 1])[0, 1]) < 0.1, None)


@R.add("column-wise-hessian", symbolic=False, nstand=8, functions=["exp_fam.GSMMFamily.jhessian", "exp_fam.MultiGauss.jcolhessian"], why_bounded="assembly over a list of column indices", cbound="q <= 12 coefficients, arbitrary subsets and orders of columns, one or two processes")
def jh(k):
    import scipy.sparse as sps

    m = k.mod("exp_fam")
    P = int(k.rng.integers(1, 4))
    F = m.MultiGauss(P, [m.Identity() for _ in range(P)])
    n, ps = int(k.rng.integers(2, 7)), [int(v) for v in k.rng.integers(1, 3, size=P)]
    q = sum(ps) + P * (P + 1) // 2
    b = k.note("b", 0.5 * k.rng.normal(size=(q, 1)))
    Xs = [sps.csc_array(k.note(f"X{i}", k.rng.normal(size=(n, p)))) for i, p in enumerate(ps)]
    ys = [k.note(f"y{i}", k.rng.normal(size=(n, 1))) for i in range(P)]
    split = [int(v) for v in rnp.cumsum(ps)]
    H = rnp.zeros((q, q))
    e = 1e-5
    for j in range(q):
        d = rnp.zeros((q, 1))
        d[j] = e
        H[:, j] = ((F.gradient(b + d, split, ys, Xs) - F.gradient(b - d, split, ys, Xs)) / (2 * e)).flatten()
    cols = k.note("columns", k.rng.permutation(q)[: int(k.rng.integers(1, q + 1))])
    keep = rnp.isin(rnp.arange(q), cols)
    W = rnp.where(keep[:, None] | keep[None, :], H, 0)
    k.close("requested columns and rows of the Hessian", F.jhessian(cols, b, split, ys, Xs), W, rtol=1e-5, atol=1e-5)
    k.close("all columns", F.jhessian(rnp.arange(q), b, split, ys, Xs), H, rtol=1e-5, atol=1e-5)
    if P == 2:
        k.close("two processes", F.jhessian(cols, b, split, ys, Xs, n_c=2), W, rtol=1e-5, atol=1e-5)
