"""C08: proportional-hazards family (Breslow partial likelihood) and its predictions."""
from .common import *

R = Registry("C08")
R.exts = ("hazard",)
EPS = rnp.finfo(float).eps


def fam(k, ut, r):
    return k.mod("exp_fam").PropHaz(rnp.array(ut, dtype=float), rnp.array(r))


# ---------------------------------------------------------------- proved for fixed layouts of tied times, all values
class HazardContract:
    """contract of the C++ callee hazard.cpp, used in place of its body (the body is compared with it by the bounded contracts):
    with G_j, b_j, A_j the running sums of gamma, gamma x, gamma x x' and d_j the events at time j,
    llk2 = -sum_j d_j log G_j, grad2 = -sum_j d_j b_j / G_j, hessian = sum_j d_j (b_j b_j'/G_j^2 - A_j/G_j)"""

    @staticmethod
    def sums(nt, gamma, delta, ris, Xd=None):
        G, out, rows = None, [], []
        for j in range(nt):
            ri = [int(v) for v in rnp.asarray(ris[j])]
            rows += ri
            if not ri:
                out.append(None)
                continue
            tot = lambda ts: sum(ts[1:], ts[0])
            out.append((tot([delta[i] for i in ri]), tot([gamma[i] for i in rows]), [(i, gamma[i]) for i in rows]))
        return [o for o in out if o is not None]

    def llk2(self, nt, gamma, delta, ris):
        return sum((lift(0) - d * np.log(G) for d, G, _ in self.sums(nt, gamma, delta, ris)), lift(0))

    def grad2(self, nt, gamma, delta, ris, Xd):
        p = int(X.int_value(dimE(Xd.shape[1])) if not isinstance(Xd.shape[1], int) else Xd.shape[1])
        g = [lift(0)] * p
        for d, G, rows in self.sums(nt, gamma, delta, ris):
            for q in range(p):
                g[q] = g[q] - d * sum((w * Xd[i, q] for i, w in rows), lift(0)) / G
        return np.array(g)

    def hessian(self, nt, gamma, delta, ris, Xd):
        p = int(X.int_value(dimE(Xd.shape[1])) if not isinstance(Xd.shape[1], int) else Xd.shape[1])
        H = [[lift(0)] * p for _ in range(p)]
        for d, G, rows in self.sums(nt, gamma, delta, ris):
            b = [sum((w * Xd[i, q] for i, w in rows), lift(0)) for q in range(p)]
            for a in range(p):
                for c in range(p):
                    H[a][c] = H[a][c] + d * (b[a] * b[c] / (G * G) - sum((w * Xd[i, a] * Xd[i, c] for i, w in rows), lift(0)) / G)
        return np.array(H)


def part(name):
    ut, r = LAYOUTS[name]

    def c(k):
        p, n = 2, len(r)
        m = k.mod("exp_fam")
        if k.mode == "sym":
            m.hazard = HazardContract()
        F = fam(k, ut, r)
        b = k.arr("b", (p, 1), "small")
        Xd = k.arr("X", (n, p), sp=True)
        delta = k.arr("delta", (n, 1), "bin")
        dl = delta if k.mode == "sym" else delta.astype(rnp.int64)
        B, Xs, D_ = k.S("b"), k.S("X"), k.S("delta")
        eta = [Xs[i, 0] * B[0, 0] + Xs[i, 1] * B[1, 0] for i in range(n)]
        ll = lift(0)
        for i in range(n):
            rs = [exp(eta[q]) for q in range(n) if ut[r[q]] >= ut[r[i]]]
            ll = ll + D_[i, 0] * (eta[i] - log(sum(rs[1:], rs[0])))
        k.ensure_eq("log partial likelihood", F.llk(b, [], [dl], [Xd]), ll)
        k.ensure_eq("gradient", F.gradient(b, [], [dl], [Xd]), grad(ll, "b", p))
        k.ensure_eq("Hessian", F.hessian(b, [], [dl], [Xd]), hess(ll, "b", p))

    return c


LAYOUTS = {
    "one-time": ([3.0], [0, 0]),
    "two-times": ([5.0, 2.0], [0, 1, 1]),
    "ties-and-order": ([9.0, 4.0, 1.0], [0, 1, 1, 2]),
}


def spec_terms(k, ut, r, p):
    """baseline cumulative hazard etc. as terms; row i enters with r[i]"""
    n, nt = len(r), len(ut)
    B, Xs, dl = k.S("b"), k.S("X"), k.S("delta")
    eta = [sum((Xs[i, q] * B[q, 0] for q in range(1, p)), Xs[i, 0] * B[0, 0]) for i in range(n)]
    gam = [exp(e) for e in eta]
    tot = lambda terms: sum(terms[1:], terms[0])
    G = [tot([gam[i] for i in range(n) if r[i] <= j]) for j in range(nt)]
    d = [tot([dl[i, 0] for i in range(n) if r[i] == j]) for j in range(nt)]
    bp = [[tot([gam[i] * Xs[i, q] for i in range(n) if r[i] <= j]) for q in range(p)] for j in range(nt)]
    H = [tot([d[m] / G[m] for m in range(j, nt)]) for j in range(nt)]
    Q = [tot([d[m] / (G[m] * G[m]) for m in range(j, nt)]) for j in range(nt)]
    A = [[tot([bp[m][q] * d[m] / (G[m] * G[m]) for m in range(j, nt)]) for q in range(p)] for j in range(nt)]
    return eta, H, Q, A


def haz(name):
    ut, r = LAYOUTS[name]

    def c(k):
        p, n = 2, len(r)
        F = fam(k, ut, r)
        b = k.arr("b", (p, 1), "small")
        Xd = k.arr("X", (n, p), sp=True)
        delta = k.arr("delta", (n, 1), "bin")
        eta, H, Q, A = spec_terms(k, ut, r, p)
        hs = F.get_baseline_hazard(b, delta, [Xd])
        for j in range(len(ut)):
            k.ensure_eq(f"cumulative baseline hazard at time {j}", hs[j], H[j])
        x = k.arr("x", (1, p))
        V = k.arr("V", (p, p), sample=lambda rg, s: (lambda a: a @ a.T)(rg.normal(size=s)))
        B = k.S("b")
        ex = k.S("x")[0, 0] * B[0, 0] + k.S("x")[0, 1] * B[1, 0]
        for j, t in enumerate(ut):
            S, vS = F.get_survival(b, [Xd], delta, t, x, V, compute_var=False)
            k.ensure_eq(f"survival at time {j}", S[0, 0], exp(lift(0) - H[j] * exp(ex)))
            k.ensure_true(f"no variance requested at time {j}", vS is None)
        Mr = F.get_resid(b, [], [delta], [Xd])
        for i in range(n):
            k.ensure_eq(f"martingale residual {i}", Mr[i, 0], k.S("delta")[i, 0] - H[r[i]] * exp(eta[i]))
        # a second set of coefficients must not see anything of the first
        b2 = k.arr("b2", (p, 1), "small")
        hs2 = F.get_baseline_hazard(b2, delta, [Xd])
        k2 = type("K", (), {"S": lambda self, nm: k.S("b2" if nm == "b" else nm)})()
        _, H2, _, _ = spec_terms(k2, ut, r, p)
        for j in range(len(ut)):
            k.ensure_eq(f"cumulative baseline hazard at time {j} after other coefficients", hs2[j], H2[j])

    return c


for nm in LAYOUTS:
    R.add("baseline:" + nm, functions=["exp_fam.PropHaz.get_baseline_hazard", "exp_fam.PropHaz.get_survival", "exp_fam.PropHaz.__prepare_predictions"])(haz(nm))


for nm in LAYOUTS:
    R.add("likelihood:" + nm, functions=["exp_fam.PropHaz.llk", "exp_fam.PropHaz.gradient", "exp_fam.PropHaz.hessian"])(part(nm))


# ---------------------------------------------------------------- bounded: all parts incl. hazard.cpp against the definition on raw times
def data(k):
    n, p = int(k.rng.integers(2, 14)), int(k.rng.integers(1, 4))
    t = k.rng.integers(1, int(k.rng.integers(2, 12)), size=n).astype(float)
    if k.rng.random() < 0.4:
        t = k.rng.random(n) * 10
    o = rnp.argsort(-t, kind="stable")
    t = t[o]
    delta = (k.rng.random(n) < k.rng.choice([0.3, 0.7, 1.0])).astype(rnp.int64).reshape(-1, 1)
    Xd = k.rng.normal(size=(n, p))
    b = 0.7 * k.rng.normal(size=(p, 1))
    ut = rnp.flip(rnp.unique(t))
    r = rnp.array([int(rnp.where(ut == v)[0][0]) for v in t])
    for a, v in (("times", t), ("delta", delta), ("X", Xd), ("coef", b)):
        k.note(a, v)
    return n, p, t, delta, Xd, b, ut, r


def oracle(t, delta, Xd, b):
    d = delta.flatten()
    e = (Xd @ b).flatten()
    g = rnp.exp(e)
    ll, gr, He = 0.0, rnp.zeros(Xd.shape[1]), rnp.zeros((Xd.shape[1],) * 2)
    for i in range(len(t)):
        if d[i]:
            rs = t >= t[i]
            w = g[rs] / g[rs].sum()
            m = w @ Xd[rs]
            ll += e[i] - rnp.log(g[rs].sum())
            gr += Xd[i] - m
            He -= (Xd[rs].T * w) @ Xd[rs] - rnp.outer(m, m)
    return ll, gr.reshape(-1, 1), He


def H0(t, delta, Xd, b, at):
    d, g = delta.flatten(), rnp.exp(Xd @ b).flatten()
    h = q = 0.0
    a = rnp.zeros(Xd.shape[1])
    for i in range(len(t)):
        if d[i] and t[i] <= at:
            rs = t >= t[i]
            G = g[rs].sum()
            h += 1 / G
            q += 1 / G**2
            a += (g[rs] @ Xd[rs]) / G**2
    return h, q, a


@R.add("partial-likelihood", symbolic=False, nstand=120, functions=["exp_fam.PropHaz.llk", "exp_fam.PropHaz.gradient", "exp_fam.PropHaz.hessian", "hazard.llk2", "hazard.grad2", "hazard.hessian"],
       why_bounded="the sums run in hazard.cpp (Eigen), outside the verifier's reach", cbound="2..13 observations, 1..3 covariates, ties, any censoring pattern")
def pl(k):
    import scipy.sparse as sps

    n, p, t, delta, Xd, b, ut, r = data(k)
    F = fam(k, ut, r)
    Xs = [sps.csc_array(Xd)]
    ll, gr, He = oracle(t, delta, Xd, b)
    k.close("log partial likelihood", F.llk(b, [], [delta], Xs), ll)
    k.close("gradient", F.gradient(b, [], [delta], Xs), gr)
    k.close("Hessian", F.hessian(b, [], [delta], Xs).toarray(), He)


@R.add("predictions", symbolic=False, nstand=80, functions=["exp_fam.PropHaz.get_baseline_hazard", "exp_fam.PropHaz.get_survival", "exp_fam.PropHaz.get_resid"],
       why_bounded="standard errors and residuals on data of sampled size", cbound="2..13 observations, 1..3 covariates, sequences of three coefficient vectors on one family object")
def pred(k):
    import scipy.sparse as sps

    n, p, t, delta, Xd, b, ut, r = data(k)
    F = fam(k, ut, r)
    Xs = [sps.csc_array(Xd)]
    A_ = k.rng.normal(size=(p, p))
    V = A_ @ A_.T
    x = k.note("x", k.rng.normal(size=(int(k.rng.integers(1, 4)), p)))
    for step in range(3):
        hs = F.get_baseline_hazard(b, delta, Xs)
        for j, u in enumerate(ut):
            h, q, a = H0(t, delta, Xd, b, u)
            k.close("cumulative baseline hazard", hs[j], h)
            S, sd = F.get_survival(b, Xs, delta, u, x, sps.csc_array(V) if step else V, compute_var=True)
            e = (x @ b).flatten()
            k.close("survival", S.flatten(), rnp.exp(-h * rnp.exp(e)))
            v = a - h * x
            k.close("standard error of survival", sd.flatten(), rnp.exp(e) * rnp.exp(-h * rnp.exp(e)) * rnp.sqrt(q + rnp.sum((v @ V) * v, axis=1)))
        H = rnp.array([H0(t, delta, Xd, b, u)[0] for u in t]) * rnp.exp(Xd @ b).flatten()
        d = delta.flatten()
        M = d - H
        k.close("martingale residuals", F.get_resid(b, [], [delta], Xs), M.reshape(-1, 1))
        D = rnp.sign(M) * rnp.sqrt(-2 * (M + d * rnp.log(rnp.maximum(H, EPS))))
        k.close("deviance residuals", F.get_resid(b, [], [delta], Xs, resid_type="Deviance"), D.reshape(-1, 1), atol=1e-6)
        o = k.rng.permutation(n)
        k.close("residuals in the requested order", F.get_resid(b, [], [delta], Xs, reorder=o), M[o].reshape(-1, 1))
        b = b + 0.5 * k.rng.normal(size=(p, 1))
        k.note(f"coef{step + 1}", b)
    k.raises("unknown residual type", ValueError, lambda: F.get_resid(b, [], [delta], Xs, resid_type="Nope"))
