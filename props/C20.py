"""C20: uncertainty of smoothing parameters and the corrected posterior covariance."""
from .common import *
from .C13 import sparseT, rows, mm, tr, fwd, EYE, dn
from .C19 import Sys
from vt import cxx
import copy as rcopy
import warnings as rwarnings

R = Registry("C20")
R.exts = ("eigen_solvers", "dChol")
UT = "utils."


# ---------------------------------------------------------------- priors of log smoothing parameters
def bounds(k):
    k.scalar("a", sample=lambda rg, s: rg.uniform(-4, 1))
    k.scalar("w", "pos")
    return k.S("a"), k.S("a") + k.S("w")


def num(k, t):
    return t if k.mode == "sym" else float(evalT(lift(t), k.env))


def moved(k, x, lo, hi, v):
    """values below or above the limits are moved inside by 5% of the range, others are kept"""
    if k.mode == "sym":
        want = lo + (hi - lo) / 20 if bool(x < lo) else (hi - (hi - lo) / 20 if bool(hi < x) else x)
        k.ensure_eq("moved inside", lift(v), want)
    else:
        x, lo, hi = float(num(k, x)), float(num(k, lo)), float(num(k, hi))
        if min(abs(x - lo), abs(x - hi)) > 1e-9:
            want = lo + (hi - lo) / 20 if x < lo else (hi - (hi - lo) / 20 if hi < x else x)
            k.check("moved inside", abs(v - want) < 1e-9 * (1 + abs(want)), (x, lo, hi, v))


def settle(e):
    """the branch of a case distinction taken on this path"""
    while e.op == "ite":
        c = e.args[0]
        e = e.args[1] if bool(T((), lambda: c, "B")) else e.args[2]
    return X.add(*[settle(a) for a in e.args]) if e.op == "add" and any(a.op == "ite" for a in e.args) else e


def neginf(e):
    """minus infinity, possibly plus finite terms"""
    return X.ninf(e) or (e.op == "add" and any(neginf(a) for a in e.args) and all(neginf(a) or "nonfin" not in repr(a) for a in e.args))


def dens(k, xs, los, his, v):
    if k.mode == "sym":
        bad = any([bool((x < l) | (h < x)) for x, l, h in zip(xs, los, his)])
        if bad:
            k.ensure_true("density outside the limits is zero", neginf(settle(lift(v).scalarE())))
            return
    else:
        n = [[float(num(k, z)) for z in zz] for zz in (xs, los, his)]
        if min(min(abs(x - l), abs(x - h)) for x, l, h in zip(*n)) < 1e-9:
            return
        if any(x < l or x > h for x, l, h in zip(*n)):
            k.check("density outside the limits is zero", v == -rnp.inf)
            return
    k.ensure_eq("density inside", lift(v), sum((lift(0) - log(h - l) for l, h in zip(los, his)), start=lift(0)))


@R.add("prior:uniform", functions=[UT + "MVUniformRhoPrior.logpdf", UT + "MVUniformRhoPrior.make_valid"], nsamp=60)
def prior_mv(k):
    """log density of independent uniforms; values outside are moved inside, others are kept"""
    ut = k.mod("utils")
    a, b = bounds(k)
    p = ut.MVUniformRhoPrior(num(k, a), num(k, b))
    rho = k.arr("rho", (1, 2), sample=lambda rg, s: rg.normal(0, 3, s))
    r = k.S("rho")
    v = p.make_valid(rho)
    for j in range(2):
        moved(k, r[0, j], a, b, v[0, j])
    dens(k, [r[0, 0], r[0, 1]], [a, a], [b, b], p.logpdf(rho)[0])


@R.add("prior:centered", functions=[UT + "CenteredUniformRhoPriors.logpdf", UT + "CenteredUniformRhoPriors.make_valid"], nsamp=60)
def prior_c(k):
    """one uniform per parameter, centred and cut at the limits"""
    ut = k.mod("utils")
    a, b = bounds(k)
    k.scalar("c", "pos")
    c = k.S("c")
    k.scalar("u0", "unit")
    k.scalar("u1", "unit")
    m = [a + (b - a) * k.S("u0"), a + (b - a) * k.S("u1")]
    mr = [num(k, x) for x in m]
    p = ut.CenteredUniformRhoPriors(mr, num(k, a), num(k, b), num(k, c))
    rho = k.arr("rho", (1, 2), sample=lambda rg, s: rg.normal(0, 3, s))
    r = k.S("rho")
    if k.mode == "sym":
        lo = [a if bool(x - c < a) else x - c for x in m]
        hi = [b if bool(b < x + c) else x + c for x in m]
    else:
        lo = [lift(max(num(k, x - c), num(k, a))) for x in m]
        hi = [lift(min(num(k, x + c), num(k, b))) for x in m]
    v = p.make_valid(rho)
    for j in range(2):
        moved(k, r[0, j], lo[j], hi[j], v[0, j])
    dens(k, [r[0, 0], r[0, 1]], lo, hi, p.logpdf(rho)[0])


# ---------------------------------------------------------------- covariance of weighted samples
def upd(n, m):
    def c(k):
        ut = k.mod("utils")
        ep = k.arr("ep", (m, 1))
        ws = k.arr("ws", (n,), "unit")
        g = k.arr("g", (n, m), "pos")
        out = ut.updateVp(ep, ws, g)
        l = log(k.S("g"))
        k.ensure_eq("weighted covariance of the log smoothing parameters", out, np.array([[sum((k.S("ws")[q] * (l[q, i] - k.S("ep")[i, 0]) * (l[q, j] - k.S("ep")[j, 0]) for q in range(n)), start=lift(0)) for j in range(m)] for i in range(m)]))

    return c


for a_ in ((1, 1), (3, 2), (2, 3)):
    R.add(f"weighted-covariance:samples={a_[0]},parameters={a_[1]}", functions=[UT + "updateVp"], nsamp=8)(upd(*a_))


# ---------------------------------------------------------------- derivatives of Cholesky factors (compiled)
def uptri(k, p, nm="R"):
    for i in range(p):
        for j in range(i, p):
            k.scalar(f"{nm}{i}{j}", "pos" if i == j else "real")
    return [[k.S(f"{nm}{i}{j}") if j >= i else lift(0) for j in range(p)] for i in range(p)]


def symm(k, p, nm="A"):
    for i in range(p):
        for j in range(i, p):
            k.scalar(f"{nm}{i}{j}")
    return [[k.S(f"{nm}{min(i, j)}{max(i, j)}") for j in range(p)] for i in range(p)]


def cv(k, M):
    """value of an outcome of the code, computed from it by the contract"""
    return np.array(M) if k.mode == "sym" else evalT(np.array(M), k.env)


def put(k, M):
    return np.array(M) if k.mode == "sym" else rnp.asfortranarray(evalT(np.array(M), k.env))


def bsub(Rm):
    """inverse of an upper triangular matrix"""
    p = len(Rm)
    return [r[::-1] for r in fwd([r[::-1] for r in Rm][::-1], EYE(p))][::-1]


def dch(p, inv):
    def c(k):
        ext = cxx.ext(k, "dChol")
        Rm, A = uptri(k, p), symm(k, p)
        if inv:
            Ri = bsub(Rm)
            out = ext.invdChol(put(k, Rm), put(k, Ri), put(k, A))
            o_ = np.reshape(lift(out), (p, p))
            dR = mm(mm(Rm, [[o_[i, j] for j in range(p)] for i in range(p)]), Rm)
        else:
            out = ext.dChol(put(k, Rm), put(k, A))
            o_ = np.reshape(lift(out), (p, p))
            dR = [[o_[i, j] for j in range(p)] for i in range(p)]
        for i in range(p):
            for j in range(i):
                k.ensure_eq("triangular", cv(k, [dR[i][j]]), np.array([lift(0)]))
        # R'R = H + a A, differentiated with respect to a
        k.ensure_eq("differentiates the factorisation", cv(k, [[x + y for x, y in zip(r1, r2)] for r1, r2 in zip(mm(tr(dR), Rm), mm(tr(Rm), dR))]), np.array(A))

    return c


for p_ in (1, 2, 3, 4):
    R.add(f"derivative-of-factor:p={p_}", functions=["cpp:dchol.cpp:dChol"], nsamp=8)(dch(p_, False))
for p_ in (1, 2):
    R.add(f"derivative-of-inverse-factor:p={p_}", functions=["cpp:dchol.cpp:invdChol"], nsamp=8)(dch(p_, True))


def v2(p, m):
    def c(k):
        ext = cxx.ext(k, "dChol")
        V = symm(k, m, "V")
        Ds = [uptri(k, p, f"D{q}") for q in range(m)]
        out = ext.computeV2(put(k, V), [put(k, D_) for D_ in Ds], p)
        want = [[sum((V[a][b] * Ds[a][i][q] * Ds[b][j][q] for a in range(m) for b in range(m) for q in range(p)), start=lift(0)) for j in range(p)] for i in range(p)]
        k.ensure_eq("second-order term", np.reshape(lift(out), (p, p)) if k.mode == "sym" else rnp.reshape(out, (p, p)), np.array(want))

    return c


for a_ in ((1, 1), (2, 2), (3, 2), (3, 1)):
    R.add(f"second-order-term:p={a_[0]},parameters={a_[1]}", functions=["cpp:dchol.cpp:computeV2"], nsamp=8)(v2(*a_))


# ---------------------------------------------------------------- covariance of the log smoothing parameters
class Pen:
    """a penalty as the code sees it"""

    def __init__(s, S, Dm, lam, start):
        s.S_J_emb, s.D_J_emb, s.lam, s.start_index, s.rep_sj = S, Dm, lam, start, 1


def inv2(M):
    p = len(M)
    if p == 1:
        return [[1 / M[0][0]]]
    d = M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return [[M[1][1] / d, (lift(0) - M[0][1]) / d], [(lift(0) - M[1][0]) / d, M[0][0] / d]]


def det2(M):
    return M[0][0] if len(M) == 1 else M[0][0] * M[1][1] - M[0][1] * M[1][0]


def scaled(c_, M):
    return [[c_ * x for x in r] for r in M]


def plus(*Ms):
    return [[sum(xs[1:], start=xs[0]) for xs in zip(*rs)] for rs in zip(*Ms)]


def crit_hess(lam, Sj, St, V, beta, phi, pen):
    """second derivatives of the restricted likelihood of a quadratic log-likelihood; see lemma below"""
    m, p = len(lam), len(V)
    out = []
    trc = lambda M: sum((M[i][i] for i in range(p)), start=lift(0))
    for a in range(m):
        out.append([])
        for b in range(m):
            Sab = mm(mm(Sj[a], V), Sj[b])
            v = lam[a] * lam[b] * (mm(mm(tr(beta), Sab), beta)[0][0] / phi + trc(mm(V, Sab)) / 2 - sum((Sj[a][i][i] * Sj[b][i][i] / (St[i][i] * St[i][i]) for i in pen), start=lift(0)) / 2)
            if a == b:
                v = v + lam[a] * (sum((Sj[a][i][i] / St[i][i] for i in pen), start=lift(0)) - trc(mm(V, Sj[a])) - mm(mm(tr(beta), Sj[a]), beta)[0][0] / phi) / 2
            out[-1].append(v)
    return out


def psys(k, p, ranges, unit):
    m = len(ranges)
    for q, rg_ in enumerate(ranges):
        k.scalar(f"rho{q}", "small")
        for i in rg_:
            k.scalar(f"w{q}{i}", "pos")
    lam = [exp(k.S(f"rho{q}")) for q in range(m)]
    Sj = [[[k.S(f"w{q}{i}") * k.S(f"w{q}{i}") if i == j and i in rg_ else lift(0) for j in range(p)] for i in range(p)] for q, rg_ in enumerate(ranges)]
    Dj = [[[k.S(f"w{q}{i}") if i == j and i in rg_ else lift(0) for j in range(p)] for i in range(p)] for q, rg_ in enumerate(ranges)]
    St = plus(*[scaled(lam[q], Sj[q]) for q in range(m)])
    phi = lift(1)
    if not unit:
        k.scalar("phi", "pos")
        phi = k.S("phi")
    return lam, Sj, Dj, St, phi, sorted({i for rg_ in ranges for i in rg_})


def lemma(p, ranges, unit):
    """the formula used below is the second derivative of the restricted likelihood, and the coefficients' derivative the solution's"""

    def c(k):
        m = len(ranges)
        for i in range(p):
            for j in range(i + 1):
                k.scalar(f"L{i}{j}", "pos" if i == j else "real")
        Lm = [[k.S(f"L{i}{j}") if j <= i else lift(0) for j in range(p)] for i in range(p)]
        k.arr("c", (p, 1))
        cc = [[k.S("c")[i, 0]] for i in range(p)]
        lam, Sj, Dj, St, phi, pen = psys(k, p, ranges, unit)
        nH = plus(mm(Lm, tr(Lm)), St)
        V = inv2(nH)
        beta = mm(V, cc)
        crit = mm(mm(tr(cc), V), cc)[0][0] / (2 * phi) + sum((log(St[i][i]) for i in pen), start=lift(0)) / 2 - log(det2(nH)) / 2
        f = crit_hess(lam, Sj, St, V, beta, phi, pen)
        g = lambda t: t if k.mode == "sym" else evalT(lift(t), k.env)
        for a in range(m):
            for b in range(a, m):
                k.ensure_eq(f"second derivative {a}{b}", g(f[a][b]), D(D(crit, f"rho{a}"), f"rho{b}"))
            k.ensure_eq(f"coefficients {a}", g(np.array(scaled(lift(0) - lam[a], mm(V, mm(Sj[a], beta))))), np.array([[D(beta[i][0], f"rho{a}")] for i in range(p)]))

    return c


for a_ in ((1, ((0,), (0,)), False), (2, ((1,),), False), (2, ((0,), (1,)), True)):
    R.add(f"lemma-criterion:p={a_[0]},penalties={'+'.join(''.join(map(str, r)) for r in a_[1])}", functions=[], nsamp=8)(lemma(*a_))


def vpw(p, ranges, unit):
    """ranges: penalized coefficients of each penalty (diagonal, arbitrary weights)"""

    def c(k):
        ut = k.mod("utils")
        m = len(ranges)
        for i in range(p):
            for j in range(i + 1):
                k.scalar(f"F{i}{j}", "pos" if i == j else "real")
        F = [[k.S(f"F{i}{j}") if j <= i else lift(0) for j in range(p)] for i in range(p)]
        lam, Sj, Dj, St, phi, pen = psys(k, p, ranges, unit)
        k.arr("beta", (p, 1))
        beta = [[k.S("beta")[i, 0]] for i in range(p)]
        Vbr = fwd(F, EYE(p))
        V = mm(tr(Vbr), Vbr)
        nH = mm(F, tr(F))
        Hm = plus(nH, scaled(lift(-1), St))  # unscaled negative Hessian of the log-likelihood
        want = np.array(crit_hess(lam, Sj, St, V, beta, phi, pen))
        if k.mode == "sym":
            pens = [Pen(sparseT(Sj[q]), sparseT(Dj[q]), lam[q], min(rg_)) for q, rg_ in enumerate(ranges)]
            args = (sparseT(Vbr), sparseT(scaled(lift(0) - 1 / phi, Hm)), sparseT(St), pens, np.array(beta))
            Sinv = [[1 / St[i][i] if i == j and i in pen else lift(0) for j in range(p)] for i in range(p)]

            def reparam(X_, S_, cov, option=4, form_inverse=2, **kw):
                if option != 4 or form_inverse != 2 or S_ is not pens:
                    k.nostub("another re-parameterisation")
                blk = sparseT([[St[i][j] for j in pen] for i in pen])
                return pens, sparseT(St), sparseT(Sinv), None, [blk], None, None, None, None, p - len(pen)

            k.stub(ut, "reparam", reparam)
            k.stub(ut, "combine_shared_penalties", lambda x: x)
            k.stub(ut, "cpp_chol", lambda A: (A, 0))
            k.stub(ut, "compute_Linv", lambda A, n_c=10: A)
            eg = [k.scalar(f"e{q}", facts=lambda x: [not_(eq(x, ZERO))]) for q in range(m)]
            k.scalar("t")
            t = k.S("t")
            co, si = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            U = [[lift(1)]] if m == 1 else [[co, lift(0) - si], [si, co]]

            def eigh(A, **kw):
                k.ensure_eq("the negative Hessian of the criterion is decomposed", A, lift(0) - want)
                return np.array([k.S(f"e{q}") for q in range(m)]), np.array(U)

            st = k.patch(ut, "scp.linalg.eigh", eigh)
        else:
            import scipy.sparse as sp

            ct = k.mod("custom_types")
            N_ = lambda M: evalT(np.array(M), k.env)
            pens = [ct.LambdaTerm(S_J=sp.csc_array(N_(Sj[q])[rnp.ix_(rg_, rg_)]), S_J_emb=sp.csc_array(N_(Sj[q])), D_J_emb=sp.csc_array(N_(Dj[q])), rep_sj=1, lam=float(evalT(lam[q], k.env)), start_index=min(rg_), type=ct.PenType.CUSTOM, rank=len(rg_), term=0, dist_param=0) for q, rg_ in enumerate(ranges)]
            args = (sp.csc_array(N_(Vbr)), sp.csc_array(N_(scaled(lift(0) - 1 / phi, Hm))), sp.csc_array(N_(St)), pens, N_(beta))
        Vp, Vpr, Ri, Rir, Hp, dB = ut.compute_Vp_WPS(*args, scale=num(k, phi), n_c=1)
        k.ensure_eq("Hessian of the criterion", Hp, want, atol=1e-6)
        dbs = [mm(V, mm(Sj[q], beta)) for q in range(m)]
        k.ensure_eq("derivatives of the coefficients", dB, np.array([[lift(0) - lam[q] * dbs[q][i][0] for q in range(m)] for i in range(p)]))
        if k.mode == "sym":
            k.used(st)
            up = [bool(lift(0) < k.S(f"e{q}")) for q in range(m)]
            for nm, M, Rt, f in (("", Vp, Ri, lambda e: 1 / e), ("regularised ", Vpr, Rir, lambda e: 10 / (10 * e + 1))):
                v = mm(mm(U, [[f(k.S(f"e{i}")) if i == j and up[i] else lift(0) for j in range(m)] for i in range(m)]), tr(U))
                k.ensure_eq(nm + "covariance is the inverse on the positive part", M, np.array(v))
                k.ensure_eq(nm + "root of the covariance", np.transpose(lift(Rt)) @ lift(Rt), np.array(v))
        else:
            w, U = rnp.linalg.eigh(-evalT(want, k.env))
            if abs(w).min() > 1e-5:
                for nm, M, Rt, a in (("", Vp, Ri, 0), ("regularised ", Vpr, Rir, 0.1)):
                    v = (U * rnp.where(w > 0, 1 / (w + a), 0)) @ U.T
                    k.close(nm + "covariance is the inverse on the positive part", M, v, rtol=1e-5, atol=1e-6)
                    k.close(nm + "root of the covariance", Rt.T @ Rt, v, rtol=1e-5, atol=1e-6)

    return c


for a_ in ((1, ((0,),), True), (1, ((0,), (0,)), False), (2, ((0, 1), (0, 1)), True), (2, ((1,),), False), (2, ((0,), (1,)), True)):
    R.add(f"parameter-covariance:p={a_[0]},penalties={'+'.join(''.join(map(str, r)) for r in a_[1])}" + ("" if a_[2] else ",scale"), functions=[UT + "compute_Vp_WPS"], nsamp=8)(vpw(*a_))


# ---------------------------------------------------------------- correction of the coefficients' covariance
def vbc(p, m, drop, sc, code=0):
    def c(k):
        ut = k.mod("utils")
        from .C19 import unit

        F = unit(k, "F", p)
        for i in range(p):
            k.scalar(f"d{i}", "pos")
        Lw = [[k.S(f"d{i}") * F[i][j] for j in range(p)] for i in range(p)]
        Rm = tr(Lw)
        nH = mm(Lw, Rm)
        phi = lift(1)
        if sc:
            k.scalar("phi", "pos")
            phi = k.S("phi")
        St = symm(k, p, "S")
        Hm = scaled(1 / phi, plus(St, scaled(lift(-1), nH)))
        k.arr("beta", (p, 1))
        beta = [[k.S("beta")[i, 0]] for i in range(p)]
        Sj = [symm(k, p, f"S{q}_") for q in range(m)]
        for q in range(m):
            k.scalar(f"lam{q}", "pos")
        Vpr = symm(k, m, "P")
        k.arr("Vr", (m, m))
        Vr = [[k.S("Vr")[i, j] for j in range(m)] for i in range(m)]
        k.arr("B", (p, p))
        B = [[k.S("B")[i, j] for j in range(p)] for i in range(p)]
        lam = [k.S(f"lam{q}") for q in range(m)]
        if k.mode == "sym":
            sp_ = sparseT

            def chol(A):
                k.ensure_eq("the scaled negative penalized Hessian is factorised", A, np.array(mm(F, tr(F))))
                return sparseT(F), code

            st = k.stub(ut, "cpp_chol", chol)

            def tri(A, b_, **kw):
                if any(kw.get(q_) for q_ in ("lower", "trans", "unit_diagonal")):
                    k.nostub("another triangular system")
                return np.array(mm(bsub([[lift(A)[i, j] for j in range(p)] for i in range(p)]), [[lift(b_)[i, j] for j in range(p)] for i in range(p)]))

            k.patch(ut, "scp.linalg.solve_triangular", tri)
            ut.dChol = cxx.module("dChol")
            A_ = lambda M: np.array(M)
            pens = [Pen(sparseT(Sj[q]), None, lam[q], 0) for q in range(m)]
        else:
            import scipy.sparse as spr

            A_ = lambda M: evalT(np.array(M), k.env)
            sp_ = lambda M: spr.csc_array(A_(M))
            pens = [Pen(spr.csc_array(A_(Sj[q])), None, float(evalT(lam[q], k.env)), 0) for q in range(m)]
            if code:
                real = ut.cpp_chol
                st = k.stub(ut, "cpp_chol", lambda A: (real(A)[0], code))
        kw = dict(scale=num(k, phi)) if sc else {}
        Vc, Vcc = ut.compute_Vb_corr_WPS(sp_(B), rnp.asfortranarray(A_(Vpr)) if k.mode != "sym" else A_(Vpr), A_(Vr), sp_(Hm), sp_(St), pens, A_(beta), drop=rnp.array([0]) if drop else None, **kw)
        Ri = bsub(Rm)
        V = mm(Ri, tr(Ri))
        if drop:
            V = scaled(phi, mm(tr(B), B))
        dB = [mm(V, mm(Sj[q], beta)) for q in range(m)]
        J = [[lift(0) - lam[q] * dB[q][i][0] for q in range(m)] for i in range(p)]
        k.ensure_eq("uncertainty of the coefficients' mean", dn(Vc) if k.mode != "sym" else Vc, np.array(mm(mm(J, mm(tr(Vr), Vr)), tr(J))))
        if code:
            k.ensure_eq("no second-order term without a factor", lift(Vcc) if k.mode == "sym" else Vcc, lift(0))
            return
        dRi = []
        for q in range(m):
            A = scaled(lam[q], Sj[q])
            dR = [[lift(0)] * p for _ in range(p)]
            for i in range(p):
                for j in range(i, p):
                    b = A[i][j] - sum((dR[t][i] * Rm[t][j] + Rm[t][i] * dR[t][j] for t in range(i)), start=lift(0))
                    dR[i][j] = b / (2 * Rm[i][i]) if i == j else (b - dR[i][i] * Rm[i][j]) / Rm[i][i]
            dRi.append(mm(mm(Ri, dR), Ri))
        want = [[phi * sum((Vpr[a][b] * dRi[a][i][q] * dRi[b][j][q] for a in range(m) for b in range(m) for q in range(p)), start=lift(0)) for j in range(p)] for i in range(p)]
        k.ensure_eq("uncertainty of the coefficients' covariance", np.reshape(lift(Vcc), (p, p)) if k.mode == "sym" else Vcc, np.array(want), atol=1e-6)

    return c


for a_ in ((1, 1, False, True, 0), (2, 1, False, False, 0), (2, 2, False, True, 0), (2, 1, True, True, 0), (2, 1, True, False, 1)):
    R.add(f"coefficient-covariance:p={a_[0]},parameters={a_[1]}" + (",dropped" if a_[2] else "") + (",scale" if a_[3] else "") + (",singular" if a_[4] else ""), functions=[UT + "compute_Vb_corr_WPS", "cpp:dchol.cpp:dChol", "cpp:dchol.cpp:computeV2"], nsamp=8)(vbc(*a_))


# ---------------------------------------------------------------- the corrected covariance of a model
class Info:
    dropped = None


class Mod:
    rho = None
    offset = 0

    def __init__(s, k, fam, p, m):
        s.k, s.family, s.info = k, fam, Info()
        s.coef = k.arr("beta", (p, 1))
        s.lvi = k.arr("B", (p, p), sp=True)
        s.edf = k.scalar("edf", "pos")
        Hm = symm(k, p, "H")
        s.H = Hm
        if k.mode == "sym":
            s.hessian = sparseT(scaled(lift(-1), Hm))
        else:
            import scipy.sparse as spr

            s.hessian = spr.csc_array(-evalT(np.array(Hm), k.env))
        s.overall_penalties = [Pen(None, None, k.scalar(f"lam{q}", facts=lambda x: [lt(const(Fraction(1, 10**6)), x), lt(x, const(10**6))], sample=lambda rg, s_: rnp.exp(rg.normal())), 0) for q in range(m)]
        s.scale = k.scalar("phi", "pos")

    def get_ys(s, **kw):
        return "y"

    def get_mmat(s, **kw):
        return "X"

    def get_pars(s):
        return s.coef, s.scale


class LAM:
    """a penalty that survives copying and remembers its parameter"""


def trc(M):
    return sum((M[i][i] for i in range(len(M))), start=lift(0))


def cvb(grid, fam, cc=True, only=False, t1=False, p=2, m=1, nR=1, weights=True, fidiff=False, lim=None):
    """grid: JJJ1 (approximation), JJJ2/JJJ3 (samples of the smoothing parameters)"""

    def c(k):
        ut, ef = k.mod("utils"), k.mod("exp_fam")
        F = getattr(ef, fam)(ef.LOG()) if fam == "Gamma" else getattr(ef, fam)()
        M = Mod(k, F, p, m)
        phi = k.S("phi") if fam != "Binomial" else lift(1)
        B = [[k.S("B")[i, j] for j in range(p)] for i in range(p)]
        base = scaled(phi, mm(tr(B), B))
        Hm = M.H
        Vp, Vpr = symm(k, m, "Vp"), symm(k, m, "Vq")
        for i in range(m):
            k.assume(k.S(f"Vq{i}{i}") > 0) if k.mode == "sym" else k.assume(k.env[f"Vq{i}{i}"] > 0)
        k.arr("Vr", (m, m))
        Vr = [[k.S("Vr")[i, j] for j in range(m)] for i in range(m)]
        k.arr("J", (p, m))
        J = [[k.S("J")[i, j] for j in range(m)] for i in range(p)]
        Vc, Vcc = symm(k, p, "C"), symm(k, p, "E")
        A_ = lambda M_: np.array(M_) if k.mode == "sym" else evalT(np.array(M_), k.env)
        emb = object()
        sts = [k.stub(ut, "compute_S_emb_pinv_det", lambda n, pens, *a, **kw: (emb, None, None, None) if pens is M.overall_penalties and n == p else k.nostub("another penalty"))]
        est = (A_(Vp), A_(Vpr), A_(Vr), "root", "H", A_(J))

        def wps(lvi, H, S, pens, coef, scale=1, n_c=10):
            if lvi is not M.lvi or H is not M.hessian or S is not emb or pens is not M.overall_penalties or coef is not M.coef:
                k.nostub("another model")
            k.ensure_eq("scale of the smoothing parameters' covariance", scale, phi)
            return est

        def evp(mo, n_c=10, grid_type="JJJ1", Vp_fidiff=False, **kw):
            k.ensure_true("finite differences are those asked for", mo is M and Vp_fidiff and grid_type == "JJJ1")
            return est

        sts.append(k.stub(ut, "estimateVp" if fidiff else "compute_Vp_WPS", evp if fidiff else wps))
        if cc and not only and grid != "JJJ2":

            def vb(lvi, Vq, root, H, S, pens, coef, scale=1, drop=None):
                if lvi is not M.lvi or H is not M.hessian or S is not emb or pens is not M.overall_penalties or coef is not M.coef or drop is not None:
                    k.nostub("another model")
                k.ensure_eq("scale of the correction", scale, phi)
                k.ensure_eq("regularised covariance is used for the second term", Vq, np.array(Vpr))
                k.ensure_eq("root of the covariance is used for the first term", root, np.array(Vr))
                return A_(Vc), A_(Vcc)

            sts.append(k.stub(ut, "compute_Vb_corr_WPS", vb))
        chol = []
        if not only:

            def ch(A):
                chol.append(A)
                return "LV", 0

            sts.append(k.stub(ut, "cpp_chol", ch))
        lam0 = [k.S(f"lam{q}") for q in range(m)]
        val = lambda t: float(evalT(lift(t), k.env))
        yes = (lambda a, b: bool(lift(b) < lift(a))) if k.mode == "sym" else (lambda a, b: val(a) > val(b))
        if grid != "JJJ1":
            k.arr("smp", (nR, m), "small")

            def rvs(loc=None, shape=None, df=None, size=1, random_state=None, **kw):
                cen = lam0
                if lim:
                    cen = [(lift(lim[0]) if yes(lim[0], l) else (lift(lim[1]) if yes(l, lim[1]) else l)) for l in lam0]
                k.ensure_eq("samples are centred at the estimates, within the limits", np.exp(loc), np.array(cen))
                k.ensure_eq("samples have the regularised covariance", shape, np.array(Vpr))
                k.ensure_true("number of samples and seed", size == nR and random_state == 5 and df == 40)
                # scipy drops dimensions of length one
                g = k.S("smp") if k.mode == "sym" else k.env["smp"]
                return np.array([g[q, 0] for q in range(nR)]) if k.mode == "sym" and m == 1 and nR > 1 else (g[0, 0] if m == 1 and nR == 1 else (g[:, 0] if m == 1 else (g[0, :] if nR == 1 else g)))

            sts.append(k.patch(ut, "scp.stats.multivariate_t.rvs", rvs))
            cands = []

            def cand(family, y, X_, pens, n_c=1, offset=0, init_eta=None, method="Chol", compute_inv=False, origNH=None):
                if family is not F or y != "y" or X_ != "X" or not compute_inv or init_eta is not None:
                    k.nostub("another candidate")
                q = len(cands)
                cands.append([pen.lam for pen in pens])
                if q > nR:
                    k.nostub("too many candidates")
                if only and fam != "Gaussian":
                    if origNH is None:
                        k.nostub("degrees of freedom of the candidate instead of those of the model's Hessian")
                    k.ensure_eq("degrees of freedom are those of the Hessian of the model", origNH if k.mode == "sym" else dn(origNH), np.array(Hm))
                return (r_[q], Li[q], None, None, be[q], sc_[q], ed[q], None)

            r_ = [k.scalar(f"reml{q}", "small") for q in range(nR + 1)]
            Li = [k.arr(f"Li{q}", (p, p), sp=True) for q in range(nR + 1)]
            be = [k.arr(f"be{q}", (p, 1)) for q in range(nR + 1)]
            sc_ = [k.scalar(f"sc{q}", "pos") for q in range(nR + 1)]
            ed = [k.scalar(f"ed{q}", "pos") for q in range(nR + 1)]
            sts.append(k.stub(ut, "compute_reml_candidate_GAMM", cand))
            if k.mode == "sym":

                def softmax(v, **kw):
                    v = lift(v) if isinstance(v, T) else np.array(list(v))
                    n = X.int_value(v.shape_[0])
                    e = [exp(v[i]) for i in range(n)]
                    return np.array([x / sum(e[1:], start=e[0]) for x in e])

                k.patch(ut, "scp.special.softmax", softmax)
        kw = dict(a=lim[0], b=lim[1]) if lim else {}
        out = ut.correct_VB(M, nR=nR, grid_type=grid, n_c=1, form_t1=t1, only_expected_edf=only, compute_Vcc=cc, seed=5, Vp_fidiff=fidiff, use_importance_weights=weights, **kw)
        k.used(*sts)
        V, LV, oVp, oVpr, edf, tot, edf2, tot2, eedf, mean = out
        full = plus(base, Vc, Vcc) if cc else plus(base, mm(mm(J, mm(tr(Vr), Vr)), tr(J)))
        first = mm(mm(J, mm(tr(Vr), Vr)), tr(J))
        if grid != "JJJ1":
            n = len(cands)
            # candidates: the samples and, when none of them is close, the estimate itself
            want = [[exp(k.S("smp")[q, i]) for i in range(m)] for q in range(nR)]
            if n == nR + 1:
                want = [lam0] + want
            for q in range(n):
                for i in range(m):
                    k.ensure_eq(f"candidate {q}", cands[q][i], want[q][i])
            ew_ = [exp(k.S(f"reml{q}")) if weights else lift(1) for q in range(n)]
            w = [e / sum(ew_[1:], start=ew_[0]) for e in ew_]
            Vs = [scaled(k.S(f"sc{q}"), mm(tr(L_), L_)) for q in range(n) for L_ in [[[k.S(f"Li{q}")[i, j] for j in range(p)] for i in range(p)]]]
            bs = [[[k.S(f"be{q}")[i, 0]] for i in range(p)] for q in range(n)]
            mb = plus(*[scaled(w[q], bs[q]) for q in range(n)])
            spread = plus(*[scaled(w[q], mm(bs[q], tr(bs[q]))) for q in range(n)], scaled(lift(-1), mm(mb, tr(mb))))
            if only:
                ee = sum((w[q] * k.S(f"ed{q}") for q in range(n)), start=lift(0))
                ee = ee if yes(ee, k.S("edf")) else k.S("edf")
                add = trc(mm(first, Hm))
                if grid == "JJJ3":
                    o = trc(mm(spread, Hm))
                    add = add if yes(add, o) else o
                k.ensure_eq("expected degrees of freedom", eedf, ee + add)
                return
            av = plus(*[scaled(w[q], Vs[q]) for q in range(n)])
            if grid == "JJJ2":
                full = plus(base if yes(k.S("edf"), trc(mm(av, Hm))) else av, first)
            else:
                g = plus(av, spread)
                full = full if yes(trc(mm(full, Hm)), trc(mm(g, Hm))) else g
        dd = (lambda x: x) if k.mode == "sym" else dn
        k.ensure_eq("covariance", dd(V), np.array(full))
        k.ensure_true("the covariance is factorised", LV == "LV" and len(chol) == 1)
        k.ensure_eq("factorised matrix", dd(chol[0]), np.array(full))
        k.ensure_eq("covariance of the smoothing parameters", oVp, np.array(Vp))
        k.ensure_eq("regularised covariance of the smoothing parameters", oVpr, np.array(Vpr))
        Fm = mm(full, Hm)
        U = mm(base, Hm)
        up = 2 * k.S("edf") - trc(mm(U, U))
        upd_ = [2 * U[i][i] - mm(U, U)[i][i] for i in range(p)]
        if yes(trc(Fm), up):
            wt, we = up, upd_
        else:
            wt, we = trc(Fm), [Fm[i][i] for i in range(p)]
        k.ensure_eq("total degrees of freedom, at most the bias corrected ones", tot, wt)
        k.ensure_eq("degrees of freedom", edf, np.array(we))
        k.ensure_eq("bias corrected total degrees of freedom", tot2, up + wt - k.S("edf") if t1 else up)
        k.ensure_eq("bias corrected degrees of freedom", edf2, np.array([upd_[i] + we[i] - U[i][i] if t1 else upd_[i] for i in range(p)]))

    return c


for a_, kw_ in ((("JJJ1", "Gaussian"), {}), (("JJJ1", "Binomial"), dict(t1=True)), (("JJJ1", "Gamma"), dict(cc=False, m=2)), (("JJJ1", "Gaussian"), dict(fidiff=True, p=1)), (("JJJ2", "Gaussian"), dict(nR=1, p=1)), (("JJJ2", "Gamma"), dict(nR=2, p=1, weights=False)), (("JJJ3", "Gaussian"), dict(nR=1, p=1)), (("JJJ2", "Gaussian"), dict(only=True, p=2)), (("JJJ3", "Gaussian"), dict(only=True, nR=1, p=1, m=2)), (("JJJ2", "Binomial"), dict(only=True, nR=2, p=1, lim=(1, 2)))):
    R.add(f"corrected-covariance:{a_[0]},{a_[1]}" + "".join(f",{q}={v}" for q, v in kw_.items()), functions=[UT + "correct_VB"], nsamp=8)(cvb(*a_, **kw_))


# ---------------------------------------------------------------- covariance of the smoothing parameters from samples
def evpc(m, nR, weights, prior):
    def c(k):
        ut, ef = k.mod("utils"), k.mod("exp_fam")
        F = ef.Gaussian()
        M = Mod(k, F, 1, m)
        Vp, Vpr = symm(k, m, "Vp"), symm(k, m, "Vq")
        for i in range(m):
            k.assume(k.S(f"Vq{i}{i}") > 0) if k.mode == "sym" else k.assume(k.env[f"Vq{i}{i}"] > 0)
        if k.mode != "sym" and m == 2:
            k.assume(k.env["Vq00"] * k.env["Vq11"] > k.env["Vq01"] ** 2 + 0.05)
        A_ = lambda M_: np.array(M_) if k.mode == "sym" else evalT(np.array(M_), k.env)
        emb = object()
        sts = [k.stub(ut, "compute_S_emb_pinv_det", lambda n, pens, *a, **kw: (emb, None, None, None) if pens is M.overall_penalties and n == 1 else k.nostub("another penalty"))]

        def wps(lvi, H, S, pens, coef, scale=1, n_c=10):
            if lvi is not M.lvi or H is not M.hessian or S is not emb or pens is not M.overall_penalties or coef is not M.coef:
                k.nostub("another model")
            k.ensure_eq("scale", scale, k.S("phi"))
            return (A_(Vp), A_(Vpr), "r1", "r2", "H", "dB")

        sts.append(k.stub(ut, "compute_Vp_WPS", wps))
        k.arr("smp", (nR, m), "small")
        lam0 = [k.S(f"lam{q}") for q in range(m)]

        def rvs(loc=None, shape=None, df=None, size=1, random_state=None, **kw):
            k.ensure_eq("samples are centred at the estimates", np.exp(loc) if k.mode == "sym" else rnp.exp(loc), np.array(lam0))
            k.ensure_eq("samples have the regularised covariance", shape, np.array(Vpr))
            k.ensure_true("number of samples and seed", size == nR and random_state == 5 and df == 40)
            g = k.S("smp") if k.mode == "sym" else k.env["smp"]
            return (np.array([g[q, 0] for q in range(nR)]) if k.mode == "sym" else g[:, 0]) if m == 1 else g

        cands = []
        r_ = [k.scalar(f"reml{q}", "small") for q in range(nR + 1)]

        def cand(family, y, X_, pens, n_c=1, offset=0, init_eta=None, method="Chol", compute_inv=False, origNH=None):
            if family is not F or y != "y" or X_ != "X" or init_eta is not None or len(cands) > nR:
                k.nostub("another candidate")
            cands.append([pen.lam for pen in pens])
            return (r_[len(cands) - 1],) + (None,) * 7

        sts.append(k.stub(ut, "compute_reml_candidate_GAMM", cand))
        if k.mode == "sym":

            def softmax(v, **kw):
                v = lift(v) if isinstance(v, T) else np.array(list(v))
                n = X.int_value(v.shape_[0])
                e = [exp(v[i]) for i in range(n)]
                return np.array([x / sum(e[1:], start=e[0]) for x in e])

            k.patch(ut, "scp.special.softmax", softmax)
        pr = None
        if prior:
            lp = [k.scalar(f"lp{q}", "small") for q in range(nR + 1)]
            lq = [k.scalar(f"lq{q}", "small") for q in range(nR + 1)]

            class Pr:
                def logpdf(s, rho):
                    s.seen = rho
                    n = int(rho.shape[0])
                    return np.array(lp[:n]) if k.mode == "sym" else rnp.array(lp[:n])

            pr = Pr()

        class Q:
            def __init__(s, loc=None, shape=None, df=None, allow_singular=False):
                k.ensure_eq("sampling density is that of the samples", shape, np.array(Vpr))
                k.ensure_eq("centre of the sampling density", np.exp(loc) if k.mode == "sym" else rnp.exp(loc), np.array(lam0))
                k.ensure_true("degrees of freedom of the sampling density", df == 40)

            def logpdf(s, rho):
                n = int(rho.shape[0])
                return np.array(lq[:n]) if k.mode == "sym" else rnp.array(lq[:n])

        k.patch(ut, "scp.stats.multivariate_t", Q)
        sts.append(k.patch(ut, "scp.stats.multivariate_t.rvs", rvs))
        es = {}
        if k.mode == "sym":
            eg = [k.scalar(f"e{q}", facts=lambda x: [not_(eq(x, ZERO))]) for q in range(m)]
            k.scalar("t")
            t = k.S("t")
            co, si = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            U = [[lift(1)]] if m == 1 else [[co, lift(0) - si], [si, co]]

            def eigh(A, **kw):
                es["A"] = A
                return np.array([k.S(f"e{q}") for q in range(m)]), np.array(U)

            sts.append(k.patch(ut, "scp.linalg.eigh", eigh))
        out = ut.estimateVp(M, nR=nR, grid_type="JJJ2", n_c=1, seed=5, use_importance_weights=weights, prior=pr)
        k.used(*sts)
        oV, oVr, Ri, Rir, ep, dB = out
        n = len(cands)
        grid = [[k.S("smp")[q, i] for i in range(m)] for q in range(nR)]
        if n == nR + 1:
            grid = [[log(l) for l in lam0]] + grid
        for q in range(n):
            for i in range(m):
                k.ensure_eq(f"candidate {q}", cands[q][i], exp(grid[q][i]))
        lw = [k.S(f"reml{q}") + (k.S(f"lp{q}") - k.S(f"lq{q}") if prior else 0) if weights else lift(0) for q in range(n)]
        e = [exp(x) for x in lw]
        w = [x / sum(e[1:], start=e[0]) for x in e]
        mean = [sum((w[q] * grid[q][i] for q in range(n)), start=lift(0)) for i in range(m)]
        cov = np.array([[sum((w[q] * (grid[q][i] - mean[i]) * (grid[q][j] - mean[j]) for q in range(n)), start=lift(0)) for j in range(m)] for i in range(m)])
        k.ensure_eq("weighted mean", ep, np.array([[x] for x in mean]))
        k.ensure_true("derivatives of the coefficients", isinstance(dB, str) and dB == "dB")
        if k.mode == "sym":
            k.ensure_eq("weighted covariance is decomposed", es["A"], cov)
            up = [bool(lift(0) < k.S(f"e{q}")) for q in range(m)]
            v = np.array(mm(mm(U, [[k.S(f"e{i}") if i == j and up[i] else lift(0) for j in range(m)] for i in range(m)]), tr(U)))
            k.ensure_eq("covariance is its positive part", oV, v)
            k.ensure_eq("root of the covariance", np.transpose(lift(Ri)) @ lift(Ri), v)
            k.ensure_eq("root of the regularised covariance", np.transpose(lift(Rir)) @ lift(Rir), lift(oVr))
        else:
            cv_ = evalT(cov, k.env)
            k.close("covariance is its positive part", oV, cv_, rtol=1e-6, atol=1e-8)
            k.close("root of the covariance", Ri.T @ Ri, cv_, rtol=1e-6, atol=1e-8)
            k.close("root of the regularised covariance", Rir.T @ Rir, oVr, atol=1e-8)

    return c


for a_ in ((1, 2, True, False), (1, 2, False, False), (2, 2, True, False), (1, 2, True, True)):
    R.add(f"sampled-covariance:parameters={a_[0]},samples={a_[1]}" + ("" if a_[2] else ",averaged") + (",prior" if a_[3] else ""), functions=[UT + "estimateVp", UT + "updateVp"], nsamp=8)(evpc(*a_))


# ---------------------------------------------------------------- penalties with repetitions, overlaps and shared parameters
@R.add("parameter-covariance:random", symbolic=False, nstand=40, timeout=300, functions=[UT + "compute_Vp_WPS"], why_bounded="traces over several predictors, terms and repetitions of penalties",
       cbound="1-3 predictors, 0-2 terms each of 2-4 coefficients, 1-3 penalties of every rank per term, repetitions 1-3, shared smoothing parameters, log smoothing parameters in [-4,4]; second differences of the criterion with a step of 1e-3")
def vprand(k):
    import scipy.sparse as sp

    s = Sys(k)
    rng, ut, N = k.rng, k.mod("utils"), s.N
    K = len(s.pens)
    A = rng.normal(size=(N, N))
    H, b, phi = A @ A.T + rnp.eye(N), rng.normal(size=(N, 1)), float(rnp.exp(rng.uniform(-1, 1)))
    # the matrix each parameter multiplies, from the ghost definition of the system
    par, mats = [], []
    for lam, M, P in zip(s.lams, s.mats, s.P):
        i = par.index(P.id) if P.id is not None and P.id in par else None
        if i is None:
            par.append(P.id)
            mats.append(M.copy())
        else:
            mats[i] = mats[i] + M
    if len(mats) != K:
        k.assume(False)
    # the order of the parameters is that of the penalties the code returns
    order = []
    for p in s.pens:
        near = [i for i, M in enumerate(mats) if rnp.allclose(p.S_J_emb.toarray(), M)]
        k.check("a parameter multiplies all of its penalties", len(near) >= 1)
        order.append(near[0] if near else 0)
    mats = [mats[i] for i in order]
    r0 = rnp.log([p.lam for p in s.pens])
    Tt = sum(mats)
    U = rnp.linalg.svd(Tt)[0][:, : s.rank]

    def reml(rho):
        S = sum(rnp.exp(r) * M for r, M in zip(rho, mats))
        x = rnp.linalg.solve(H + S, H @ b)
        return float((-0.5 * ((b - x).T @ H @ (b - x) + x.T @ S @ x) / phi).item() + 0.5 * rnp.linalg.slogdet(U.T @ S @ U / phi)[1] - 0.5 * rnp.linalg.slogdet((H + S) / phi)[1])

    h = 1e-3
    I = rnp.eye(K) * h
    want = rnp.array([[(reml(r0 + I[i] + I[j]) - reml(r0 + I[i] - I[j]) - reml(r0 - I[i] + I[j]) + reml(r0 - I[i] - I[j])) / (4 * h * h) for j in range(K)] for i in range(K)])
    S = sum(rnp.exp(r) * M for r, M in zip(r0, mats))
    V = rnp.linalg.inv(H + S)
    x = V @ H @ b
    L = rnp.linalg.cholesky(V).T
    Vp, Vpr, Ri, Rir, Hp, dB = ut.compute_Vp_WPS(sp.csc_array(L), sp.csc_array(-H / phi), sp.csc_array(S), s.pens, x, scale=phi, n_c=1)
    sc = 1 + abs(want).max()
    k.close("Hessian of the criterion", Hp / sc, want / sc, rtol=1e-3, atol=2e-4)
    for j in range(K):
        k.close("derivatives of the coefficients", rnp.asarray(dB)[:, j], (-rnp.exp(r0[j]) * V @ mats[j] @ x).flatten(), rtol=1e-6, atol=1e-8)


# ---------------------------------------------------------------- fitted models
def fitted(kind):
    def c(k):
        import pandas as pd

        rwarnings.simplefilter("ignore")
        md, ut, rng = k.mod("models"), k.mod("utils"), k.rng
        n = int(rng.integers(100, 160))
        x, w = rng.uniform(0, 1, n), rng.uniform(0, 1, n)
        mu = 1 + rnp.sin(4 * x) + w
        off = rng.normal(size=(n, 1))
        df = pd.DataFrame(dict(x=x, w=w, y=mu + 0.4 * rng.normal(size=n), g=rng.gamma(2, rnp.exp(mu) / 2)))
        s = lambda v: md.f([v], nk=6)
        if kind == "Gaussian":
            df["y"] = df["y"] + off.flatten()
            m = md.GAMM(md.Formula(md.lhs("y"), [md.i(), s("x"), s("w")], data=df), md.Gaussian())
            m.fit(progress_bar=False, offset=off)
            d0 = df.copy()
            d0["y"] = df["y"] - off.flatten()
            m0 = md.GAMM(md.Formula(md.lhs("y"), [md.i(), s("x"), s("w")], data=d0), md.Gaussian())
            m0.fit(progress_bar=False)
        elif kind == "Gamma":
            m = md.GAMM(md.Formula(md.lhs("g"), [md.i(), s("x"), s("w")], data=df), md.Gamma(md.LOG()))
            m.fit(progress_bar=False)
        else:
            m = md.GAMMLSS([md.Formula(md.lhs("y"), [md.i(), s("x")], data=df), md.Formula(md.lhs("y"), [md.i(), s("w")], data=df)], md.GAUMLSS([md.Identity(), md.LOGb(-0.001)]))
            m.fit(progress_bar=False)
        k.note("kind", kind)
        phi = 1 if kind == "GAMMLSS" else m.scale
        nH = -1 * dn(m.hessian)
        Vb = dn(m.lvi.T @ m.lvi) * phi
        N = nH.shape[0]
        S_emb = sum(p.lam * dn(p.S_J_emb) for p in m.overall_penalties)
        k.close("posterior covariance", Vb @ (nH + S_emb / phi), rnp.eye(N), atol=1e-5)
        lam = rnp.array([p.lam for p in m.overall_penalties])
        runs = [dict(grid_type="JJJ1"), dict(grid_type="JJJ2", recompute_H=True), dict(grid_type="JJJ3"), dict(grid_type="JJJ3", only_expected_edf=True), dict(grid_type="JJJ2", only_expected_edf=True, method="QR")]
        if kind != "GAMMLSS":
            runs.append(dict(grid_type="JJJ2", VP_grid_type="JJJ2", use_importance_weights=False))
        for kw in runs:
            k.note("call", kw)
            st = rcopy.deepcopy((m.coef, lam))
            outs = []
            for nc in (1, 2):
                outs.append(ut.correct_VB(rcopy.deepcopy(m), nR=5, n_c=nc, seed=3, **kw))
            for nm, a, b in zip(("V", "LV", "Vp", "Vpr", "edf", "total edf", "edf2", "total edf2", "expected edf", "mean"), *outs):
                k.check("processes do not change what is computed", (a is None) == (b is None), nm)
                if a is not None:
                    k.close(f"processes do not change the {nm}", rnp.atleast_1d(dn(a)), rnp.atleast_1d(dn(b)), rtol=1e-4, atol=1e-6)
            V, LV, Vp, Vpr, edf, tot, edf2, tot2, ee, mean = outs[0]
            if kind == "Gaussian":
                for nm, a, b in zip(("V", "LV", "Vp", "Vpr", "edf", "total edf", "edf2", "total edf2", "expected edf", "mean"), outs[0], ut.correct_VB(m0, nR=5, n_c=1, seed=3, **kw)):
                    if a is not None:
                        k.close(f"an offset is the same as subtracting it from the response: {nm}", rnp.atleast_1d(dn(a)), rnp.atleast_1d(dn(b)), rtol=1e-3, atol=1e-5)
            if V is not None:
                V = dn(V)
                ev = rnp.linalg.eigvalsh(V - Vb)
                if kw["grid_type"] != "JJJ2":
                    k.check("uncertainty is never smaller than the conditional one", ev.min() > -1e-7 * abs(V).max(), ev.min())
                k.close("factor of the covariance", dn(LV) @ dn(LV).T, V, atol=1e-8)
                tr_ = rnp.trace(V @ nH)
                F0 = Vb @ nH
                up = 2 * rnp.trace(F0) - rnp.trace(F0 @ F0)
                if not kw.get("recompute_H"):
                    k.close("degrees of freedom", tot, min(tr_, up), rtol=1e-4)
                    k.check("degrees of freedom are within bounds", m.edf - 1e-4 * abs(m.edf) <= tot <= tot2 + 1e-4, (m.edf, tot, tot2))
                if kw["grid_type"] == "JJJ1":
                    # first order term from the derivatives of the coefficients
                    J = rnp.stack([-p.lam * (Vb / phi) @ dn(p.S_J_emb) @ m.coef.flatten() for p in m.overall_penalties], axis=1)
                    Vp_, Vpr_ = dn(Vp), dn(Vpr)
                    k.close("covariances are symmetric", Vp_, Vp_.T, rtol=1e-6, atol=1e-8)
                    k.check("correction includes the uncertainty of the coefficients given the parameters", rnp.linalg.eigvalsh(V - Vb - J @ Vp_ @ J.T).min() > -1e-6 * abs(V).max())
            k.close("the model is left alone", st[0], m.coef)

    return c


for kd_ in ("Gaussian", "Gamma", "GAMMLSS"):
    R.add(f"fitted:{kd_}", symbolic=False, nstand=2, timeout=400, functions=[UT + "correct_VB", UT + "estimateVp", UT + "_compute_VB_corr_terms_MP", UT + "compute_reml_candidate_GAMM", UT + "compute_REML_candidate_GSMM"], why_bounded="whole fits and pools of processes",
          cbound="two smooths, 100-160 observations, five samples of the smoothing parameters, one and two processes")(fitted(kd_))
