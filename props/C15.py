"""C15: smoothing-parameter updates, effective degrees of freedom, scale and step control."""
from .common import *
from .C11 import lterm, spec, LAYOUTS, groups, td
from .C13 import sparseT, rows, mm, tr, fr, fwd, EYE, perm, dn
import warnings as rwarn

R = Registry("C15")
R.exts = ("eigen_solvers",)
GS = "gamm_solvers."


def flt(k, v):
    return v if k.mode == "sym" else float(rnp.asarray(v).flatten()[0])


# ---------------------------------------------------------------- derivatives and single updates
@R.add("terms-of-the-criterion", functions=[GS + "compute_lgdetD_bsb"], nsamp=8)
def lgdet(k):
    gs = k.mod("gamm_solvers")
    p = 3
    G, S = k.arr("G", (p, p), sp=True), k.arr("S", (p, p), sp=True)
    b, lam, rank = k.arr("b", (p, 1)), k.scalar("lam", "pos"), k.scalar("rank", "pos")
    sb, sS, sG = k.S("b"), k.S("S"), k.S("G")
    quad = sum((sb[i, 0] * sS[i, j] * sb[j, 0] for i in range(p) for j in range(p)), lift(0))
    for lab, r in (("rank", rank), ("trace", None)):
        d, q = gs.compute_lgdetD_bsb(r, lam, G, S, b)
        k.ensure_eq(f"{lab}: quadratic form", q, quad, shape=False)
        k.ensure_eq(f"{lab}: derivative of the log generalised determinant", d, k.S("rank") / k.S("lam") if r is not None else sum((sG[i, j] * sS[j, i] for i in range(p) for j in range(p)), lift(0)), shape=False)


@R.add("gradient-of-the-criterion", functions=[GS + "grad_lambda", GS + "compute_lgdetD_bsb"], nsamp=8)
def gradl(k):
    """two coefficients, diagonal cross product a, right-hand side c, penalties lam * s_j: the restricted likelihood is
    -(yy - c'(A + lam S)^-1 c) / (2 scale) + 1/2 log|lam S|_+ - 1/2 log|A + lam S|"""
    gs = k.mod("gamm_solvers")
    a, cc = k.arr("a", (2,), "pos"), k.arr("c", (2,))
    s = k.arr("s", (2,), "pos")
    lam, scale = k.scalar("lam", "pos"), k.scalar("scale", "pos")
    yy = k.scalar("yy", "pos")
    A, C, SS, L, PH = [k.S(n) for n in ("a", "c", "s", "lam", "scale")]
    crit = (lift(0) - (k.S("yy") - sum((C[i] * C[i] / (A[i] + L * SS[i]) for i in range(2)), lift(0)))) / (2 * PH) + sum((log(L * SS[i]) - log(A[i] + L * SS[i]) for i in range(2)), lift(0)) / 2
    want = D(crit, "lam")
    # arguments as the solvers compute them
    b = [cc[i] / (a[i] + lam * s[i]) for i in range(2)]
    lg = 2 / lam
    ld = sum(s[i] / (a[i] + lam * s[i]) for i in range(2))
    bsb = sum(b[i] * s[i] * b[i] for i in range(2))
    k.ensure_eq("gradient of the restricted likelihood", gs.grad_lambda(lg, ld, bsb, scale), want, shape=False)


def efs_spec(lg, ld, q, lam, scale):
    """the documented update: scale * (derivative of log|S|+ - trace)/(b'S b) * lambda, within [1e-7, 1e7]"""
    lo, hi = fr(Fraction(repr(1e-7))), fr(Fraction(repr(1e7)))
    num = np.where(lg - ld > 0, lg - ld, 0 * lg)
    raw = scale * num / np.where(q > 0, q, 1 + 0 * q) * lam
    return np.where(q > 0, np.where(raw < lo, lo, np.where(raw > hi, hi, raw)), hi) - lam


@R.add("update", functions=[GS + "step_fellner_schall_sparse", GS + "grad_lambda"], nsamp=12, nstand=60)
def efs(k):
    gs = k.mod("gamm_solvers")
    lg, ld, q = k.scalar("lg"), k.scalar("ld"), k.scalar("q", sample=lambda rg, s: rg.choice([0.0, -1e-12, 1.0, 3.0, 1e-9]))
    lam = k.scalar("lam", "pos")
    scale = k.scalar("scale", "pos")
    d = gs.step_fellner_schall_sparse(lg, ld, q, lam, scale)
    k.ensure_eq("updated smoothing parameter", d, efs_spec(k.S("lg"), k.S("ld"), k.S("q"), k.S("lam"), k.S("scale")), shape=False, rtol=1e-9)


@R.add("update-direction", functions=[GS + "step_fellner_schall_sparse", GS + "grad_lambda"], nsamp=12)
def efsdir(k):
    """the update moves in the direction in which the criterion increases"""
    gs = k.mod("gamm_solvers")
    lg, ld = k.scalar("lg"), k.scalar("ld")
    q, lam, scale = k.scalar("q", "pos"), k.scalar("lam", facts=lambda e: [lt(const(Fraction(1, 10**7)), e), lt(e, const(10**7))], sample=lambda rg, s: rnp.exp(rg.normal())), k.scalar("scale", "pos")
    d = gs.step_fellner_schall_sparse(lg, ld, q, lam, scale)
    g = gs.grad_lambda(lg, ld, q, scale)
    gE = ((k.S("lg") - k.S("ld")) / 2 - k.S("q") / (2 * k.S("scale"))).scalarE()
    k.ensure_eq("gradient", g, (k.S("lg") - k.S("ld")) / 2 - k.S("q") / (2 * k.S("scale")), shape=False)
    tol = ZERO if k.mode == "sym" else const(Fraction(1, 10**9))
    k.ensure("the smoothing parameter grows only where the criterion grows with it", d, lambda e: or_(le(e, tol), lt(X.sub(ZERO, tol), gE)))
    k.ensure("the smoothing parameter shrinks only where the criterion falls with it", d, lambda e: or_(le(X.sub(ZERO, tol), e), lt(gE, tol)))


# ---------------------------------------------------------------- extrapolated updates
def ext(method, it):
    def c(k):
        gs = k.mod("gamm_solvers")
        lam, prev = k.scalar("lam", "pos"), k.scalar("prev", "pos")
        d = k.scalar("d")
        eb = {"prev_lam": [7.0, prev], "acc": [3.0, 5.0]}
        was = [True, True]
        L, PV, Dl = k.S("lam"), k.S("prev"), k.S("d")
        d2, eb2, was2 = gs.extend_lambda_step(1, lam, d, eb, was, it, method)
        acc = eb2["acc"][1]
        k.ensure_eq("recorded extension is what was added to the step", acc, lift(d2) - Dl if k.mode == "sym" else float(d2) - float(d), shape=False) if k.mode == "sym" else k.check("recorded extension is what was added to the step", abs(float(acc) - (float(d2) - float(d))) <= 1e-9 * max(1, abs(float(d2))), (acc, d2, d))
        k.ensure_eq("the accepted smoothing parameter is remembered", eb2["prev_lam"][1], L, shape=False)
        k.ensure_true("other smoothing parameters are left alone", eb2["prev_lam"][0] == 7.0 and eb2["acc"][0] == 3.0 and was2[0] is True)
        DE, LE = Dl.scalarE(), L.scalarE()
        # an extension continues in the direction of the step, and never leaves the allowed range
        k.ensure("an extension only lengthens the step", acc, lambda e: le(ZERO, X.mul(e, DE)))
        k.ensure("no extension across a change of direction", acc, lambda e: or_(eq(e, ZERO), lt(ZERO, X.mul(DE, (L - PV).scalarE()))))
        lo, hi = const(Fraction(1, 10**7)), const(10**7)
        k.ensure("an extended parameter stays within its bounds", acc, lambda e: or_(eq(e, ZERO), and_(lt(lo, X.add(X.add(LE, DE), e)), lt(X.add(X.add(LE, DE), e), hi))))
        was_e = was2[1]
        k.ensure("extensions are flagged", acc, lambda e: (lt(ZERO, X.mul(e, e)) if bool(was_e) else eq(e, ZERO)))
        new = lam + d2
        l3, d3 = gs.undo_extension_lambda_step(1, new, d2, eb2, was2, method)
        k.ensure_eq("undoing restores the step", d3, Dl, shape=False)
        k.ensure_eq("undoing restores the smoothing parameter", l3, L + Dl, shape=False)
        k.ensure_true("undoing clears the extension", bool(was2[1]) is False and eb2["acc"][1] == 0)

    return c


for m_, it_ in (("nesterov", 3), ("nesterov2", 3), ("expected_ratio", 0), ("expected_ratio", 7), ("expected_ratio", 80)):
    R.add(f"extension:{m_}" + (f",iteration={it_}" if m_ == "expected_ratio" else ""), functions=[GS + "extend_lambda_step", GS + "undo_extension_lambda_step"], nsamp=20, nstand=100)(ext(m_, it_))


@R.add("extension:start", functions=[GS + "initialize_extension"], nsamp=3)
def extinit(k):
    gs, ct = k.mod("gamm_solvers"), k.mod("custom_types")
    lams = [k.scalar("l0", "pos"), k.scalar("l1", "pos")]
    eb = gs.initialize_extension("nesterov", [ct.LambdaTerm(lam=l) for l in lams])
    for q in range(2):
        k.ensure_eq(f"remembered parameter {q}", eb["prev_lam"][q], k.S(f"l{q}"), shape=False)
    k.ensure_true("nothing extended", list(eb["acc"]) == [0, 0])


# ---------------------------------------------------------------- effective degrees of freedom and scale
def penset(k, name):
    N, lay = LAYOUTS[name]
    ct, pen = k.mod("custom_types"), k.mod("penalties")
    ids = [l[3] for l in lay]
    lam_of = {i: k.scalar(f"lam_id{i}", "pos") for i in dict.fromkeys(ids) if i is not None}
    lams = [lam_of[i] if i is not None else k.scalar(f"lam{q}", "pos") for q, i in enumerate(ids)]
    slam = [k.S(f"lam_id{i}") if i is not None else k.S(f"lam{q}") for q, i in enumerate(ids)]
    P = [lterm(k, ct, q, N, *l[:3], l[3], lams[q]) for q, l in enumerate(lay)]
    return N, lay, ids, slam, P, pen


def edf(name):
    def c(k):
        gs = k.mod("gamm_solvers")
        N, lay, ids, slam, P, pen = penset(k, name)
        M = pen.combine_shared_penalties(list(P))
        inv = k.arr("Li", (N, N), sp=True)  # any factor with Li' Li = inverse of the penalized cross product
        tot, pp, Bs = gs.calculate_edf(None, None, inv, M, None, N, 1, None, None)
        Li = k.S("Li")
        S_ = [spec(k, q, N, *l[:3])[0] for q, l in enumerate(lay)]
        V = matmul(Li.T, Li)
        trs = [sum((V[i, j] * S_[q][j, i] for i in range(lay[q][1], lay[q][1] + lay[q][0] * lay[q][2]) for j in range(lay[q][1], lay[q][1] + lay[q][0] * lay[q][2])), lift(0)) for q in range(len(lay))]
        k.ensure_true("one value per penalty", len(pp) == len(lay))
        for q in range(len(lay)):
            k.ensure_eq(f"penalty {q}: coefficients penalized away", pp[q], slam[q] * trs[q], shape=False)
        k.ensure_eq("total: coefficients minus lambda-weighted traces", tot, lift(N) - sum((slam[q] * trs[q] for q in range(len(lay))), lift(0)), shape=False)
        k.ensure_true("one derivative per smoothing parameter", len(Bs) == len(M))
        for m, b in zip(M, Bs):
            own = [q for q in range(len(lay)) if ids[q] == m.id and m.id is not None and ids.count(m.id) > 1] or [m.term]
            k.ensure_eq(f"derivative for the penalties {own}", b, sum((trs[q] for q in own), lift(0)), shape=False)

    return c


for n_ in ("no-ids", "one-shared", "two-shared-interleaved", "three-sharing-one", "single-id-next-to-shared"):
    R.add(f"edf:{n_}", functions=[GS + "calculate_edf", "penalties.split_shared_penalties", "penalties.combine_shared_penalties"], nsamp=5, timeout=300)(edf(n_))


@R.add("edf-per-term", functions=[GS + "calculate_term_edf"], nsamp=6)
def tedf(k):
    gs, ct = k.mod("gamm_solvers"), k.mod("custom_types")
    # two penalties on the first term, one on the second, one on a third with two repetitions, one more on the first
    lay = [(2, 1, 1, None), (2, 1, 1, None), (3, 3, 1, None), (2, 6, 2, None)]
    N = 10
    lam = k.scalar("lam", "pos")
    P = [lterm(k, ct, q, N, *l[:3], l[3], lam) for q, l in enumerate(lay)]
    pp = [k.scalar(f"pp{q}") for q in range(4)]
    e = gs.calculate_term_edf(P, pp)
    want = [2 - k.S("pp0") - k.S("pp1"), 3 - k.S("pp2"), 4 - k.S("pp3")]
    k.ensure_true("one value per term", len(e) == 3)
    for i in range(3):
        k.ensure_eq(f"term {i}", e[i], want[i], shape=False)


def scale_edf(kind, drop, fixed=False):
    """kind: 'gaussian' (identity link) or 'gamma' (working residuals), drop: an unidentifiable coefficient"""

    def c(k):
        gs, ef, ct = k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
        n, N = 3, 3
        y, eta = k.arr("y", (n, 1)), k.arr("eta", (n, 1))
        z = k.arr("z", (n, 1))
        w = k.arr("w", (n,), "pos")
        lam = k.scalar("lam", "pos")
        P = [lterm(k, ct, 0, N, 2, 1, 1, None, lam)]
        kp = [0, 2] if drop else [0, 1, 2]
        m = len(kp)
        Pr = [1, 0] if drop else [2, 0, 1]
        invP = k.arr("LiP", (m, m), sp=True)
        F = ef.Gaussian(ef.Identity(), scale=2.5 if fixed else None) if kind == "gaussian" else ef.Gamma(ef.LOG(), scale=2.5 if fixed else None)
        if k.mode == "sym":
            Wr = sparseT([[w[i] if i == j else lift(0) for j in range(n)] for i in range(n)])
        else:
            import scipy.sparse as sp

            Wr = sp.csc_array(rnp.diag(w))
        rowsX = k.dim("N", lo=5, choices=(8, 9))
        wres, Inv, tot, pp, Bs, sc = gs.update_scale_edf(y, z, eta, Wr if kind != "gaussian" else None, rowsX, N, None, invP, Pr, [1.0], None, F, P, rnp.array(kp), rnp.array([1]) if drop else None, 1)
        r = [[(k.S("y") - k.S("eta"))[i, 0]] if kind == "gaussian" else [k.S("w")[i] * (k.S("z") - k.S("eta"))[i, 0]] for i in range(n)]
        k.ensure_eq("working residuals", wres, np.array(r))
        LiP = k.S("LiP")
        PM = perm(Pr)
        full = [[lift(0)] * N for _ in range(N)]
        for i in range(m):
            for j in range(m):
                src = int(rnp.argmax(PM[:, j]))  # column j of P picks entry src
                full[kp[i]][kp[j]] = LiP[i, src]
        Fl = np.array(full)
        k.ensure_eq("inverse factor in the original order of the coefficients, zero for dropped ones", td(Inv), Fl)
        S0 = spec(k, 0, N, 2, 1, 1)[0]
        V = matmul(Fl.T, Fl)
        t = sum((V[i, j] * S0[j, i] for i in (1, 2) for j in (1, 2)), lift(0))
        et = lift(m) - k.S("lam") * t
        k.ensure_eq("effective degrees of freedom", tot, et, shape=False)
        k.ensure_eq("penalized coefficients", pp[0], k.S("lam") * t, shape=False)
        if fixed:
            k.ensure_true("known scale is kept", float(sc) == 2.5)
        else:
            ss = sum((q[0] * q[0] for q in r), lift(0))
            k.ensure_eq("scale is the residual sum of squares over the residual degrees of freedom", sc, ss / (k.S("N") - et), shape=False)

    return c


for a in (("gaussian", False), ("gaussian", True), ("gamma", False), ("gamma", True), ("gaussian", False, True), ("gamma", True, True)):
    R.add("scale:" + a[0] + (",dropped" if a[1] else "") + (",known" if len(a) > 2 else ""), functions=[GS + "update_scale_edf", GS + "calculate_edf", "utils.est_scale", "matrix_solvers.apply_eigen_perm", "matrix_solvers.translate_sparse"], nsamp=6)(scale_edf(*a))


@R.add("scale:unpenalized", functions=[GS + "update_scale_edf", "utils.est_scale"], nsamp=6)
def scale_unp(k):
    gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
    n = 4
    y, eta = k.arr("y", (n, 1)), k.arr("eta", (n, 1))
    ss = sum(((k.S("y") - k.S("eta"))[i, 0] * (k.S("y") - k.S("eta"))[i, 0] for i in range(n)), lift(0))
    for lab, drop, kp, m in (("all kept", None, None, 2), ("one dropped", rnp.array([1]), rnp.array([0]), 1)):
        inv = k.arr(f"LiP{m}", (m, m), sp=True)
        wres, Inv, tot, pp, Bs, sc = gs.update_scale_edf(y, None, eta, None, n, 2, None, inv, list(range(m)), None, None, ef.Gaussian(), [], kp, drop, 1)
        k.ensure_eq(f"{lab}: degrees of freedom are the number of estimated coefficients", tot, lift(m), shape=False)
        k.ensure_eq(f"{lab}: scale", sc, ss / (n - m), shape=False)


# ---------------------------------------------------------------- step control of the coefficients
class DevFam:
    pass


def cstep(nh, fam, link, n_pen=1):
    """nh: number of halvings after which the penalized deviance first does not increase (32: never)"""

    def c(k):
        gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
        n, p = 2, 2
        X_, off = k.arr("X", (n, p), sp=True), k.arr("off", (n, 1))
        coef, nxt = k.arr("coef", (p, 1)), k.arr("next", (p, 1))
        S, y = k.arr("S", (p, p), sp=True), k.arr("y", (n, 1))
        eta0, mu0 = k.arr("eta0", (n, 1)), k.arr("mu0", (n, 1))
        prev, up = k.scalar("prev"), k.scalar("up", "pos")
        cs, ns, Ss = k.S("coef"), k.S("next"), k.S("S")
        quad = lambda v: sum((v[i, 0] * Ss[i, j] * v[j, 0] for i in range(p) for j in range(p)), lift(0)) if n_pen else lift(0)
        at = lambda j: cs + (ns - cs) / fr(2.0**j) if j < 32 else cs
        for j in range(2):
            k.scalar(f"gap{j}", "pos")
        pen = lambda j: k.S("prev") + k.S(f"gap{j % 2}") if j < nh else k.S("prev") - (k.S("up") if nh < 32 else lift(0))
        val = lambda j: pen(j) - quad(at(j))
        num = lambda t: t if k.mode == "sym" else float(evalT(lift(t), k.env))
        F = getattr(ef, fam)(getattr(ef, link)())
        calls = []

        def dev(y_, mu_):
            calls.append((y_, mu_))
            return num(val(len(calls)))

        F.deviance = dev
        d, pd, mu, eta, b = gs.correct_coef_step(coef, nxt, num(val(0)), num(pen(0)), num(k.S("prev")), F, eta0, mu0, y, X_, n_pen, S, None, 1, off)
        tol = dict(rtol=1e-6, atol=1e-7)
        if k.mode != "sym":
            k.assume(len(calls) > 0 or nh == 0)
        want = at(nh)
        k.ensure_eq("accepted coefficients: the proposal, halved until the penalized deviance does not increase", b, want, **tol)
        k.ensure_eq("deviance belongs to the accepted coefficients", d, val(nh), shape=False, **tol)
        k.ensure_eq("penalized deviance belongs to the accepted coefficients", pd, pen(nh), shape=False, **tol)
        et = matmul(k.S("X"), want) + k.S("off") if nh else k.S("eta0")
        k.ensure_eq("predictor belongs to the accepted coefficients", eta, et, **tol)
        k.ensure_eq("mean belongs to the accepted coefficients", mu, link_spec(link)[1](et) if nh else k.S("mu0"), **tol)
        k.ensure_true("no more evaluations than needed", len(calls) == nh)

    return c


for a in ((0, "Gaussian", "Identity"), (1, "Gamma", "LOG"), (2, "Gaussian", "Identity", 0), (3, "Gaussian", "LOG"), (32, "Binomial", "Logit")):
    R.add(f"coefficient-step:{a[1]},{a[2]},halvings={a[0]}" + ("" if len(a) < 4 else ",unpenalized"), functions=[GS + "correct_coef_step"], nsamp=6)(cstep(*a))


# ---------------------------------------------------------------- one outer iteration, against the contracts of its parts
def Sm(k, name, p, m=None):
    """a sparse matrix of arbitrary entries"""
    return k.arr(name, (p, p if m is None else m), sp=True, frame=False)


def ucs(drop, useR, formL):
    def c(k):
        gs, ef, ct = k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
        n, p = 2, 3
        kp = [0, 2] if drop else [0, 1, 2]
        m = len(kp)
        Pr = [1, 0] if drop else [2, 0, 1]
        arr = lambda nm, sh, **kw: k.arr(nm, sh, frame=False, **kw)
        y, yb, z, eta, mu, off = [arr(q, (n, 1)) for q in ("y", "yb", "z", "eta", "mu", "off")]
        X_, Xb, S, root, pinv = arr("X", (n, p), sp=True), arr("Xb", (n, p), sp=True), Sm(k, "S", p), Sm(k, "root", p), Sm(k, "pinv", p)
        coef, LP, Lin = arr("coef", (p, 1)), Sm(k, "LP", m), Sm(k, "Linv", m)
        lam = k.scalar("lam", "pos")
        wr = Sm(k, "Wr", n)
        pens = [lterm(k, ct, 0, p, 2, 1, 1, None, lam), lterm(k, ct, 1, p, 1, 0, 1, None, lam)]
        F = ef.Gaussian()
        keepv, dropv = (rnp.array(kp), rnp.array([1])) if drop else (None, None)
        if k.mode == "sym":
            P = sparseT([[lift(int(v)) for v in r] for r in perm(Pr)])
        else:
            import scipy.sparse as sp

            P = sp.csc_array(perm(Pr))
        seen = {}

        def s_update(*a):
            seen["u"] = a
            return eta, mu, coef, Pr, P, LP, keepv, dropv

        def s_scale(*a):
            seen["s"] = a
            return "wres", "Inv", "tot", "te", "Bs", "sc"

        st = k.stub(gs, "update_coef", s_update), k.stub(gs, "update_scale_edf", s_scale)
        k.stub(gs, "compute_Linv", lambda A, nc=1: seen.__setitem__("L", A) or Lin)
        out = gs.update_coef_and_scale(y, yb, z, wr, n, p, X_, Xb, None, F, S, root, pinv, [useR, False], pens, 1, None, formL, off)
        k.used(*st)
        e2, m2, c2, L, Inv, lg, bs, tot, te, Bs, sc, wres, kp2, dr2 = out
        u, s = seen["u"], seen["s"]
        k.ensure_true("the coefficient update gets the working model and the penalty", u[0] is yb and u[1] is X_ and u[2] is Xb and u[3] is F and u[4] is S and u[5] is root and u[7] is None and u[8] is off)
        k.ensure_eq("the working residuals are those of the working model, which does not include the offset", s[2], k.S("eta") - k.S("off"))
        k.ensure_true("scale and degrees of freedom are those of the new coefficients", s[0] is y and s[1] is z and s[3] is wr and s[4] == n and s[5] == p and s[6] is LP and (s[7] is Lin if formL else s[7] is None) and s[8] is Pr and s[9] is lg and s[11] is F and s[12] is pens and s[13] is keepv and s[14] is dropv)
        k.ensure_true("results are passed on", e2 is eta and m2 is mu and c2 is coef and (Inv, tot, te, Bs, sc, wres) == ("Inv", "tot", "te", "Bs", "sc", "wres") and kp2 is keepv and dr2 is dropv)
        b = k.S("coef")
        for q, (lo, sz) in enumerate(((1, 2), (0, 1))):
            Sq = spec(k, q, p, sz, lo, 1)[0]
            k.ensure_eq(f"penalty {q}: quadratic form at the new coefficients", bs[q], sum((b[i, 0] * Sq[i, j] * b[j, 0] for i in range(p) for j in range(p)), lift(0)), shape=False)
            trc = sum((k.S("pinv")[i, j] * Sq[j, i] for i in range(p) for j in range(p)), lift(0))
            k.ensure_eq(f"penalty {q}: derivative of the log determinant", lg[q], lift(sz) / k.S("lam") if (useR and q == 0) else trc, shape=False)
        # L L' is the matrix that was factorised, in the original order of the coefficients
        LLt = matmul(k.S("LP"), k.S("LP").T)
        PM = perm(Pr)
        full = [[lift(0)] * p for _ in range(p)]
        pos = [int(rnp.argmax(PM[:, q])) for q in range(m)]
        for i in range(m):
            for j in range(m):
                full[kp[i]][kp[j]] = LLt[pos[i], pos[j]]
        k.ensure_eq("factor in the original order of the coefficients, zero for dropped ones", L @ L.T if k.mode == "sym" else dn(L @ L.T), np.array(full))

    return c


for a in ((False, True, True), (True, False, True), (True, True, False)):
    R.add(f"coefficients-and-scale:{'dropped' if a[0] else 'full'},{'rank' if a[1] else 'trace'},{'inverse' if a[2] else 'no-inverse'}", functions=[GS + "update_coef_and_scale", GS + "compute_lgdetD_bsb"], nsamp=5)(ucs(*a))


class Rec:
    """what one coefficient/scale update returns for the smoothing parameters it is called with"""

    def __init__(self, k, j, nq, n, p):
        a = lambda nm, sh, **kw: k.arr(f"{nm}_{j}", sh, frame=False, **kw)
        self.eta, self.mu, self.coef = a("eta", (n, 1)), a("mu", (n, 1)), a("coefn", (p, 1))
        self.lg = [k.scalar(f"lg{q}_{j}") for q in range(nq)]
        self.bs = [k.scalar(f"bs{q}_{j}", "pos") for q in range(nq)]
        self.B = [k.scalar(f"B{q}_{j}") for q in range(nq)]
        self.sc = k.scalar(f"sc_{j}", "pos")
        self.S = Sm(k, f"Semb_{j}", p)
        self.tag = [object() for _ in range(8)]


def lamstep(fam, link, control, extend, was, frozen=(False, False), maxcalls=3, o_iter=3, exclude=False):
    def c(k):
        gs, ef, ct = k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
        n, p, nq = 2, 2, 2
        y = k.arr("y", (n, 1), frame=False)
        coef = k.arr("coef", (p, 1), frame=False)
        S0 = Sm(k, "S", p)
        dev = k.scalar("dev", "pos")
        big = lambda e: [or_(lt(const(Fraction(1, 1000)), e), lt(e, const(Fraction(-1, 1000))))]
        # lambda before the step, the step taken, the part of it that is an extension
        l0 = [k.scalar(f"l{q}", "pos", sample=lambda rg, s: 5 + rg.random()) for q in range(nq)]
        dl = [k.scalar(f"d{q}", facts=big, sample=lambda rg, s: rg.choice([-1, 1]) * rg.uniform(0.5, 2)) if not frozen[q] else 0.0 for q in range(nq)]
        ac = [k.scalar(f"a{q}", facts=big, sample=lambda rg, s: rg.choice([-1, 1]) * rg.uniform(0.1, 0.4)) if was[q] else 0.0 for q in range(nq)]
        sa = [k.S(f"a{q}") if was[q] else lift(0) for q in range(nq)]
        sd = [(k.S(f"d{q}") if not frozen[q] else lift(0)) + sa[q] for q in range(nq)]
        dl = [dl[q] + ac[q] if was[q] else dl[q] for q in range(nq)]
        for q in range(nq):
            k.assume(k.S(f"l{q}") + sd[q] > 0)
            k.assume(k.S(f"l{q}") + sd[q] - sa[q] > 0)
        pens = [lterm(k, ct, q, p, 1, q, 1, None, l0[q] + dl[q]) for q in range(nq)]
        for q in range(nq):
            pens[q].frozen = frozen[q]
        F = getattr(ef, fam)(getattr(ef, link)())
        gauss = fam == "Gaussian" and link == "Identity"
        recs = [Rec(k, j, nq, n, p) for j in range(maxcalls)]
        calls, lams, ups = [], [], []
        k.scalar("acc0", facts=big, sample=lambda rg, s: 0.3)

        def s_pen(col_S, P_, pinv, *r, **kw):
            if len(lams) >= maxcalls:
                k.assume(False)
            lams.append([q_.lam for q_ in P_])
            ups.append((col_S, pinv))
            return recs[len(lams) - 1].S, "pinv", "root", "useR"

        def s_upd(*a):
            r = recs[len(calls)]
            calls.append(a)
            t = r.tag
            return r.eta, r.mu, r.coef, t[0], t[1], r.lg, r.bs, t[2], t[3], r.B, r.sc, t[4], t[5], t[6]

        exts = []

        def s_ext(lti, lam, d, eb, wa, it, m):
            exts.append((lti, lam, d))
            wa[lti] = lti == 0
            a_ = k.S("acc0") if k.mode == "sym" else k.env["acc0"]
            return (d + a_ if lti == 0 else d), eb, wa

        st = k.stub(gs, "compute_S_emb_pinv_det", s_pen), k.stub(gs, "update_coef_and_scale", s_upd)
        if k.mode == "sym":  # contract of the single update, proved above
            k.stub(gs, "step_fellner_schall_sparse", lambda lg, ld_, q, lam, sc: efs_spec(lift(lg), lift(ld_), lift(q), lift(lam), lift(sc)))
        se = k.stub(gs, "extend_lambda_step", s_ext)
        if k.mode == "sym":
            ld = np.array([[dl[q]] for q in range(nq)])
        else:
            ld = rnp.array([[float(dl[q])] for q in range(nq)])
        eb = {"prev_lam": [0, 0], "acc": list(ac)}
        wx = list(was)
        out = gs.correct_lambda_step(y, "yb", "z", "Wr", n, p, "X", "Xb", coef, None, F, p, S0, pens, wx, "svd", ld, eb, o_iter, dev, 1, control, extend, exclude, "nesterov2", None, True, "Chol", "off", 1)
        k.used(*st)
        m = len(calls)
        (yb, Xb, z, Wr, eta, mu, nc, Ch, Inv, tot, te, sc, wres, newd, eb2, P2, wx2, Semb, checks, keep, drop) = out
        k.ensure_true("one coefficient update per penalty", m == len(lams) and m >= 1)
        r = recs[m - 1]
        t = r.tag
        k.ensure_true("everything returned belongs to the last coefficient update", eta is r.eta and mu is r.mu and nc is r.coef and Ch is t[0] and Inv is t[1] and tot is t[2] and te is t[3] and sc is r.sc and wres is t[4] and keep is t[5] and drop is t[6] and Semb is r.S and P2 is pens and (yb, Xb, z, Wr) == ("yb", "Xb", "z", "Wr"))
        k.ensure_true("working model handed on", all(a[0] is y and a[1] == "yb" and a[2] == "z" and a[3] == "Wr" and a[6] == "X" and a[7] == "Xb" and a[9] is F and a[10] is recs[j].S and a[11] == "root" and a[12] == "pinv" and a[13] == "useR" and a[14] is pens and a[18] == "off" for j, a in enumerate(calls)))
        # the smoothing parameters that were tried: the full step, then without extensions or halved
        step = [sd[q] for q in range(nq)]
        waz = list(was)
        for j in range(m):
            for q in range(nq):
                k.ensure_eq(f"attempt {j}: smoothing parameter {q}", lams[j][q], k.S(f"l{q}") + step[q], shape=False)
            if j < m - 1:
                for q in range(nq):
                    if extend and waz[q]:
                        step[q] = step[q] - sa[q]
                        waz[q] = False
                    elif gauss or control == 2:
                        step[q] = step[q] / 2
        for q in range(nq):
            k.ensure_eq(f"the penalties keep the accepted smoothing parameter {q}", pens[q].lam, k.S(f"l{q}") + step[q], shape=False)
        g = lambda j, q: k.S(f"lg{q}_{j}") / 2 - k.S(f"B{q}_{j}") / 2 - k.S(f"bs{q}_{j}") / (2 * k.S(f"sc_{j}"))
        if control and (gauss or control == 2) and not extend:
            # accepted exactly where the criterion does not fall along the step
            s2 = [sd[q] / fr(2.0 ** (m - 1)) for q in range(nq)]
            chk = sum((g(m - 1, q) * s2[q] for q in range(nq)), lift(0))
            tol = 0 if k.mode == "sym" else 1e-9
            k.ensure_true("the accepted step does not lower the criterion", chk >= -tol if k.mode == "sym" else float(evalT(chk, k.env)) >= -tol)
        if control == 0:
            k.ensure_true("without control the step is taken as it is", m == 1)
        k.ensure_true("number of attempts is reported", int(checks) == m)
        # the next step is the documented update at the accepted state
        for q in range(nq):
            got = newd[q, 0]
            if frozen[q]:
                k.ensure_eq(f"frozen parameter {q} is not updated", got, lift(0), shape=False)
                continue
            j = m - 1
            lamq = k.S(f"l{q}") + step[q]
            want = efs_spec(k.S(f"lg{q}_{j}"), k.S(f"B{q}_{j}"), k.S(f"bs{q}_{j}"), lamq, k.S(f"sc_{j}"))
            if extend and q == 0:
                want = want + k.S("acc0")
            k.ensure_eq(f"next step of parameter {q}", got, want, shape=False)

    return c


for nm, a in {
    "additive": ("Gaussian", "Identity", 2, False, (False, False)),
    "additive,extended": ("Gaussian", "Identity", 2, True, (True, False)),
    "additive,both-extended": ("Gaussian", "Identity", 1, True, (True, True)),
    "generalized": ("Gamma", "LOG", 1, False, (False, False)),
    "generalized,extended": ("Gamma", "LOG", 1, True, (False, True)),
    "generalized,controlled": ("Gamma", "LOG", 2, False, (False, False)),
    "uncontrolled": ("Gaussian", "Identity", 0, False, (False, False)),
    "frozen": ("Gaussian", "Identity", 2, False, (False, False), (True, False)),
}.items():
    R.add(f"smoothing-step:{nm}", functions=[GS + "correct_lambda_step", GS + "grad_lambda", GS + "step_fellner_schall_sparse", GS + "undo_extension_lambda_step"], nsamp=8, nstand=60, timeout=300)(lamstep(*a))


def iterated(max_inner, control, maxsteps=None):
    """coefficients are updated to convergence for every trial of the smoothing parameters"""

    def c(k):
        gs, ef, ct = k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
        n, p = 2, 2
        tries = 2 if control else 1
        U = tries * max_inner
        a = lambda nm, sh, **kw: k.arr(nm, sh, frame=False, **kw)
        y, coef, off = a("y", (n, 1)), a("coef", (p, 1)), a("off", (n, 1))
        X = a("X", (n, p), sp=True)
        S0 = Sm(k, "S", p)
        dev0 = k.scalar("dev", "pos")
        big = lambda e: [or_(lt(const(Fraction(1, 1000)), e), lt(e, const(Fraction(-1, 1000))))]
        l0, dl = k.scalar("l0", "pos", sample=lambda rg, s: 5 + rg.random()), k.scalar("d0", facts=big, sample=lambda rg, s: rg.choice([-1, 1]) * rg.uniform(0.5, 2))
        k.assume(k.S("l0") + k.S("d0") > 0)
        pens = [lterm(k, ct, 0, p, 2, 0, 1, None, l0 + dl)]
        F = ef.Gamma(ef.LOG())
        Ss = [Sm(k, f"Semb_{j}", p) for j in range(tries)]
        prop = [(a(f"eta_{j}", (n, 1)), a(f"mu_{j}", (n, 1)), a(f"co_{j}", (p, 1)), [1, 0], None, Sm(k, f"LP_{j}", p)) for j in range(U)]
        done = [(k.scalar(f"dv_{j}", "pos"), k.scalar(f"pd_{j}", "pos"), a(f"cmu_{j}", (n, 1)), a(f"ceta_{j}", (n, 1)), a(f"cco_{j}", (p, 1))) for j in range(U)]
        dvp = [k.scalar(f"dvp_{j}", "pos") for j in range(U)]
        lg, bs, B, sc = [[k.scalar(f"{nm}_{j}", dm) for j in range(tries)] for nm, dm in (("lg", "real"), ("bs", "pos"), ("B", "real"), ("sc", "pos"))]
        if k.mode == "sym":
            P = sparseT([[lift(int(v)) for v in r] for r in perm([1, 0])])
        else:
            import scipy.sparse as sp

            P = sp.csc_array(perm([1, 0]))
        tr_, ups, cors, pirls, quads, scales, devs, lams = [], [], [], [], [], [], [], []
        wm = [("yb", "Xb", "z", "Wr")]  # the working model currently in force

        def s_pen(col_S, P_, pinv, *r, **kw):
            if len(lams) >= tries:
                k.assume(False)
            lams.append(P_[0].lam)
            return Ss[len(lams) - 1], "pinv", "root", [False]

        def s_upd(*q):
            if len(ups) >= U:
                k.assume(False)
            j = len(ups)
            ups.append(q)
            tr_.append(("u", j))
            k.ensure_true(f"proposal {j} is made from the current working model and penalty", q[0] == wm[-1][0] and q[1] is X and q[2] == wm[-1][1] and q[3] is F and q[4] is Ss[len(lams) - 1] and q[5] == "root" and q[8] is off)
            e, m_, c_, Pr, _, L = prop[j]
            return e, m_, c_, Pr, P, L, None, None

        def s_dev(yy, mm_):
            j = len(devs)
            devs.append((yy, mm_))
            return dvp[j] if j < U else k.assume(False)

        def s_cor(*q):
            j = len(cors)
            cors.append(q)
            tr_.append(("c", j))
            return done[j]

        def s_pirls(*q):
            pirls.append(q)
            tr_.append(("w", len(pirls) - 1))
            wm.append(tuple(f"{nm}_{len(pirls)}" for nm in ("yb", "Xb", "z", "Wr")))
            return wm[-1]

        def s_quad(*q):
            quads.append(q)
            return lg[len(quads) - 1], bs[len(quads) - 1]

        def s_scale(*q):
            scales.append(q)
            j = len(scales) - 1
            return "wres", "Inv", "tot", "te", [B[j]], sc[j]

        st = [k.stub(gs, nm, f_) for nm, f_ in (("compute_S_emb_pinv_det", s_pen), ("update_coef", s_upd), ("correct_coef_step", s_cor), ("update_PIRLS", s_pirls), ("compute_lgdetD_bsb", s_quad), ("update_scale_edf", s_scale), ("compute_Linv", lambda A, nc=1: ("inverse", A)))]
        F.deviance = s_dev
        if k.mode == "sym":
            k.stub(gs, "step_fellner_schall_sparse", lambda lg_, ld_, q, lam, sc_: efs_spec(lift(lg_), lift(ld_), lift(q), lift(lam), lift(sc_)))
        ld = np.array([[dl]]) if k.mode == "sym" else rnp.array([[float(dl)]])
        out = gs.correct_lambda_step(y, "yb", "z", "Wr", n, p, X, "Xb", coef, None, F, p, S0, pens, [False], "svd", ld, {"prev_lam": [0], "acc": [0]}, 3, dev0, 1, control, False, False, "nesterov", None, True, "Chol", off, max_inner)
        k.used(*st)
        (yb, Xb, z, Wr, eta, mu, nc, Ch, Inv, tot, te, sc2, wres, newd, eb2, P2, wx2, Semb, checks, keep, drop) = out
        t = len(lams)
        k.ensure_true("every corrected step is preceded by its proposal and followed by its working model", [e_[0] for e_ in tr_ if e_[0] != "w"] == ["u", "c"] * len(cors) and len(pirls) == len(cors) + t - 1)
        # trial boundaries: a reset of the working model that follows another one
        runs, w, prev = [[]], 0, None
        for ev in tr_:
            if ev[0] == "w" and prev == "w":
                runs.append([])
            elif ev[0] == "c":
                runs[-1].append(ev[1])
            prev = ev[0]
        k.ensure_true("one run of updates per trial", len(runs) == t)
        sy = k.S
        wi = 0
        for r, run in enumerate(runs):
            k.ensure_true(f"trial {r}: at least one step, no more than allowed", 1 <= len(run) <= max_inner - 1)
            for s, j in enumerate(run):
                q = cors[j]
                frm = sy("coef") if s == 0 else sy(f"cco_{j - 1}")
                k.ensure_eq(f"step {j} starts at the coefficients reached so far", q[0], frm)
                k.ensure_eq(f"step {j} goes to the proposal", q[1], sy(f"co_{j}"))
                Sj = sy(f"Semb_{r}")
                qf = lambda b: sum((b[i, 0] * Sj[i, l_] * b[l_, 0] for i in range(p) for l_ in range(p)), lift(0))
                k.ensure_eq(f"step {j}: deviance of the proposal", q[2], sy(f"dvp_{j}"), shape=False)
                k.ensure_true(f"step {j}: deviance is taken at the proposal", devs[j][0] is not None and tuple(devs[j][1].shape) == (n, 1))
                k.ensure_eq(f"step {j}: mean of that deviance", devs[j][1], sy(f"mu_{j}"))
                k.ensure_eq(f"step {j}: penalized deviance of the proposal", q[3], sy(f"dvp_{j}") + qf(sy(f"co_{j}")), shape=False)
                k.ensure_eq(f"step {j}: penalized deviance to improve on", q[4], sy("dev") + qf(sy("coef")) if s == 0 else sy(f"pd_{j - 1}"), shape=False)
                k.ensure_true(f"step {j}: predictor and mean of the proposal", q[5] is F and q[6] is prop[j][0] and q[7] is prop[j][1] and q[8] is y and q[9] is X and q[11] is Ss[r] and q[14] is off)
                wq = pirls[wi]
                wi += 1
                k.ensure_true(f"step {j}: working model of the corrected mean", wq[0] is y and wq[2] is done[j][2] and wq[4] is X and wq[6] is F and wq[7] is None)
                k.ensure_eq(f"step {j}: predictor without the offset", wq[3], sy(f"ceta_{j}") - sy("off"))
            if r < t - 1:  # rejected: back to the state at entry
                wq = pirls[wi]
                wi += 1
                k.ensure_eq(f"trial {r}: rejected, predictor at entry", wq[3], matmul(sy("X"), sy("coef")))
                k.ensure_eq(f"trial {r}: rejected, mean at entry", wq[2], np.exp(matmul(sy("X"), sy("coef")) + sy("off")))
            if len(run) < max_inner - 1:
                d = sy(f"pd_{run[-1]}") - sy(f"pd_{run[-2]}") if len(run) > 1 else None
                k.ensure_true(f"trial {r}: stops early only after a second step", d is not None)
                if d is not None and k.mode == "sym":
                    k.ensure_true(f"trial {r}: stops early only if converged", d < sy(f"pd_{run[-1]}") / 10**9)
                    k.ensure_true(f"trial {r}: stops early only if converged, from below", -d < sy(f"pd_{run[-1]}") / 10**9)
            J = run[-1]
            k.ensure_true(f"trial {r}: penalties are evaluated at the coefficients reached", quads[r][4] is done[J][4] and quads[r][2] == "pinv" and quads[r][0] is None)
            zq = scales[r]
            k.ensure_true(f"trial {r}: scale and degrees of freedom use one factorisation", any(zq[6] is L[5] and zq[7] == ("inverse", L[5]) and zq[8] is L[3] for L in prop[run[0]:J + 1]))
            k.ensure_eq(f"trial {r}: working residuals of the coefficients reached", zq[2], sy(f"ceta_{J}") - sy("off"))
        J = runs[-1][-1]
        k.ensure_true("predictor, mean, coefficients and working model returned belong to the same step", nc is done[J][4] and eta is done[J][3] and mu is done[J][2] and (yb, Xb, z, Wr) == wm[-1] and (scales[-1][1], scales[-1][3]) == (wm[-1][2], wm[-1][3]))
        k.ensure_true("results of the last trial", Inv == "Inv" and tot == "tot" and te == "te" and wres == "wres" and sc2 is sc[t - 1] and Semb is Ss[t - 1])
        for r in range(t):
            k.ensure_eq(f"trial {r}: smoothing parameter", lams[r], sy("l0") + sy("d0") / 2**r, shape=False)
        k.ensure_eq("next step of the smoothing parameter", newd[0, 0], efs_spec(sy(f"lg_{t - 1}"), sy(f"B_{t - 1}"), sy(f"bs_{t - 1}"), sy("l0") + sy("d0") / 2 ** (t - 1), sy(f"sc_{t - 1}")), shape=False)

    return c


for a in ((2, 0), (3, 0), (4, 0), (2, 2), (3, 2)):
    R.add(f"smoothing-step:iterated,steps={a[0]}" + (",controlled" if a[1] else ""), functions=[GS + "correct_lambda_step"], nsamp=8, nstand=40, timeout=300)(iterated(*a))


def initstep(npen, fam, link, frozen):
    def c(k):
        gs, ef, ct = k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
        n, p = 2, 2
        y = k.arr("y", (n, 1), "pos", frame=False)
        mu0, eta0, off = [k.arr(q, (n, 1), frame=False) for q in ("mu0", "eta0", "off")]
        r = Rec(k, 0, 2, n, p)
        lam = [k.scalar(f"l{q}", "pos") for q in range(2)]
        pens = [lterm(k, ct, q, p, 1, q, 1, None, lam[q]) for q in range(npen)]
        if npen:
            pens[0].frozen = frozen
        F = getattr(ef, fam)(getattr(ef, link)())
        dv = k.scalar("dev", "pos")
        F.deviance = lambda y_, m_: seen.setdefault("dev", (y_, m_)) and dv
        seen, t = {}, r.tag

        def s_upd(*a):
            seen["u"] = a
            return r.eta, r.mu, r.coef, t[0], t[1], r.lg if npen else None, r.bs if npen else None, t[2], t[3], r.B, r.sc, t[4], t[5], t[6]

        st = [k.stub(gs, "update_coef_and_scale", s_upd)]
        if npen:
            st.append(k.stub(gs, "compute_S_emb_pinv_det", lambda N_, P_, pv, *a, **kw: seen.__setitem__("pen", (N_, P_, pv)) or (r.S, "pinv", "root", "useR")))

        def s_pirls(*a):
            seen["p"] = a
            return "yb2", "Xb2", "z2", "Wr2"

        st.append(k.stub(gs, "update_PIRLS", s_pirls))
        if k.mode == "sym":
            k.stub(gs, "step_fellner_schall_sparse", lambda lg, ld_, q, lam_, sc: efs_spec(lift(lg), lift(ld_), lift(q), lift(lam_), lift(sc)))
        out = gs.init_step_gam(y, "yb", mu0, eta0, n, p, "X", "Xb", F, p, pens, "svd", 1, None, True, "Chol", off, "Lrhoi")
        k.used(*st)
        dev, pdev, eta, mu, coef, Ch, Inv, tot, te, sc, wres, ld, Semb = out
        a, u = seen["p"], seen["u"]
        k.ensure_true("working model at the starting values", a[0] is y and a[1] == "yb" and a[2] is mu0 and a[4] == "X" and a[5] == "Xb" and a[6] is F and a[7] == "Lrhoi")
        k.ensure_eq("the offset is no part of the working response", a[3], k.S("eta0") - k.S("off"))
        k.ensure_true("coefficients from that working model and the penalty", u[0] is y and u[1] == "yb2" and u[2] == "z2" and u[3] == "Wr2" and u[6] == "X" and u[7] == "Xb2" and u[8] == "Lrhoi" and u[9] is F and (u[10] is r.S if npen else True) and u[14] is pens and u[18] is off)
        k.ensure_true("returned quantities belong to the new coefficients", eta is r.eta and mu is r.mu and coef is r.coef and Ch is t[0] and Inv is t[1] and tot is t[2] and te is t[3] and sc is r.sc and wres is t[4])
        k.ensure_eq("deviance", dev, k.S("dev"), shape=False)
        k.ensure_eq("deviance is that of the new mean", seen["dev"][1], k.S("mu_0"))
        b = k.S("coefn_0")
        k.ensure_eq("penalized deviance", pdev, k.S("dev") + (sum((b[i, 0] * k.S("Semb_0")[i, j] * b[j, 0] for i in range(p) for j in range(p)), lift(0)) if npen else lift(0)), shape=False)
        if npen:
            k.ensure_true("total penalty", seen["pen"][0] == p and seen["pen"][1] is pens and seen["pen"][2] == "svd" and Semb is r.S)
        else:
            k.ensure_eq("no penalty", Semb if k.mode == "sym" else dn(Semb), rnp.zeros((p, p)))
        for q in range(npen):
            k.ensure_eq(f"first step of parameter {q}", ld[q, 0], lift(0) if (q == 0 and frozen) else efs_spec(k.S(f"lg{q}_0"), k.S(f"B{q}_0"), k.S(f"bs{q}_0"), k.S(f"l{q}"), k.S("sc_0")), shape=False)

    return c


for a in ((2, "Gaussian", "Identity", False), (2, "Gamma", "LOG", True), (0, "Gamma", "LOG", False)):
    R.add(f"first-step:{a[1]},{a[0]} penalties" + (",frozen" if a[3] else ""), functions=[GS + "init_step_gam"], nsamp=5)(initstep(*a))


@R.add("extra-parameters", symbolic=False, nstand=60, functions=[GS + "updateTheta"], why_bounded="iterates to convergence with an eigendecomposition", cbound="random means and responses, degrees of freedom and scale, up to 60 observations")
def theta(k):
    rng, gs, ef = k.rng, k.mod("gamm_solvers"), k.mod("exp_fam")
    n = int(rng.integers(20, 60))
    mu = rng.normal(size=(n, 1))
    y = mu + rng.standard_t(rng.uniform(3.5, 12), size=(n, 1)) * rng.uniform(0.3, 3)
    F = ef.ScaledT(ef.Identity())
    th0 = rnp.array([[rng.normal()], [rng.normal()]]).reshape(rnp.asarray(F.theta).shape) if F.theta is not None else rng.normal(size=(2, 1))
    F.theta = th0.copy()
    k.note("y", y.tolist()), k.note("mu", mu.tolist()), k.note("theta", th0.tolist())
    with rwarn.catch_warnings():
        rwarn.simplefilter("ignore")
        t = gs.updateTheta(mu, y, F)
    k.close("the family's parameters are left alone", F.theta, th0)
    k.check("same shape", rnp.shape(t) == rnp.shape(th0), (rnp.shape(t), rnp.shape(th0)))
    # beyond ~1e8 degrees of freedom differences of log-gammas have no correct digits left (floating point, not decided here)
    k.assume(bool(rnp.max(t) < 18))
    l0, l1 = F.llk(y, mu, th0), F.llk(y, mu, t)
    k.check("never worse than the start", l1 >= l0 - 1e-9 * abs(l0), (l0, l1))
    g = rnp.abs(F.gradientLTheta(y, mu, t)).max()
    # a maximum, unless no step improved the likelihood any more
    near = max(F.llk(y, mu, t + s * 0.05 * e) for s in (-1, 1) for e in (rnp.array([1.0, 0]).reshape(t.shape), rnp.array([0, 1.0]).reshape(t.shape)))
    k.check("a local maximum", g < 1e-5 * abs(l1) or near <= l1 + 1e-4 * abs(l1), (g, l1, near))


# ---------------------------------------------------------------- smoothing-parameter step of multi-parameter and general models
def lamstep2(kind, control, extend, was, frozen=(False, False), outer=3, rep=False, gamma=None, eps=0.0, neg=False, maxcalls=3, nq=2):
    def c(k):
        gs, ct = k.mod("gamm_solvers"), k.mod("custom_types")
        p = 3
        big = lambda e: [or_(lt(const(Fraction(1, 1000)), e), lt(e, const(Fraction(-1, 1000))))]
        coef = k.arr("coef", (p, 1), frame=False)
        llk = k.scalar("llk")
        l0 = [k.scalar(f"l{q}", "pos", sample=lambda rg, s: 5 + rg.random()) for q in range(nq)]
        dl = [k.scalar(f"d{q}", facts=big, sample=lambda rg, s: rg.choice([-1, 1]) * rg.uniform(0.5, 2)) if not frozen[q] else 0.0 for q in range(nq)]
        ac = [k.scalar(f"a{q}", facts=big, sample=lambda rg, s: rg.choice([-1, 1]) * rg.uniform(0.1, 0.4)) if was[q] else 0.0 for q in range(nq)]
        sa = [k.S(f"a{q}") if was[q] else lift(0) for q in range(nq)]
        sd = [(k.S(f"d{q}") if not frozen[q] else lift(0)) + sa[q] for q in range(nq)]
        dl = [dl[q] + ac[q] if was[q] else dl[q] for q in range(nq)]
        for q in range(nq):
            k.assume(k.S(f"l{q}") + sd[q] > 0)
            k.assume(k.S(f"l{q}") + sd[q] - sa[q] > 0)
        pens = [lterm(k, ct, q, p, 1, q, 1, None, l0[q] + dl[q]) for q in range(nq)]
        for q in range(nq):
            pens[q].frozen = frozen[q]
        # per attempt: coefficients, factors, likelihoods, traces
        A = lambda nm, j, sh, **kw: k.arr(f"{nm}_{j}", sh, frame=False, **kw)
        recs = []
        for j in range(maxcalls):
            r = dict(coef=A("cn", j, (p, 1)), H=A("H", j, (p, p), sp=True), L=A("L", j, (p, p), sp=True), LV=A("LV", j, (p, p), sp=True), S=A("Se", j, (p, p), sp=True), pinv=A("pi", j, (p, p), sp=True), ll=k.scalar(f"ll_{j}"), pl=k.scalar(f"pl_{j}"), tot=object(), te=object())
            r["B"] = [k.scalar(f"B{q}_{j}", facts=(lambda e: [lt(const(10**6), e)]) if neg else (lambda e: [lt(e, ZERO)]), sample=(lambda rg, s: 1e6 + 1 + rg.random()) if neg else (lambda rg, s: -rg.random())) for q in range(nq)]
            recs.append(r)
        Qb = [[1, 0, 0], [0, 0, 1], [0, 1, 0]]
        lams, ups, eds, reps = [], [], [], []
        # with a transformation: penalties, coefficients and design are handed over transformed
        prp = [lterm(k, ct, q + 2, p, 1, q, 1, None, 1.0) for q in range(nq)] if rep else pens

        def s_pen(N_, P_, pv, *r, **kw):
            if len(lams) >= maxcalls:
                k.assume(False)
            lams.append([x.lam for x in P_])
            j = len(lams) - 1
            return recs[j]["S"] if not rep else "unused", recs[j]["pinv"] if not rep else "unused", None, [True, False]

        if k.mode == "sym":
            Qe = sparseT([[lift(v) for v in r] for r in Qb])
            Qs = [sparseT([[lift(1)]]), sparseT([[lift(0), lift(1)], [lift(1), lift(0)]])]
        else:
            import scipy.sparse as sp

            Qe = sp.csc_array(rnp.array(Qb, dtype=float))
            Qs = [sp.csc_array(rnp.eye(1)), sp.csc_array(rnp.array([[0, 1.0], [1, 0]]))]

        def s_rep(fn_, fu, cf, si, X_, P_, **kw):
            reps.append((cf, X_, P_))
            j = len(lams) - 1
            for q in range(nq):
                prp[q].lam = P_[q].lam
            return "coef_rp", "Xs_rp", prp, recs[j]["S"], "Snorm_rp", None, recs[j]["pinv"], Qe, Qs

        keepv = rnp.array([0, 1]) if neg else None
        dropv = rnp.array([2]) if neg else None

        def s_upd(*a):
            r = recs[len(ups)]
            ups.append(a)
            spl = [r["coef"][:1], r["coef"][1:]]
            if kind == "gamlss":
                return r["coef"], spl, "mus", "etas", r["H"], r["L"], r["LV"], r["ll"], r["pl"], eps, keepv, dropv
            return r["coef"], r["H"], r["L"], r["LV"], r["ll"], r["pl"], eps, keepv, dropv

        def s_edf(LP, Pr, LV, P_, lg, nc, n_c, dr, S_):
            r = recs[len(eds)]
            eds.append((LV, P_, nc))
            return r["tot"], r["te"], list(r["B"])

        def s_ext(lti, lam, d, eb, wa, it, m):
            wa[lti] = lti == 0
            if lti == 0:
                eb["acc"][lti] = k.S("acc0") if k.mode == "sym" else k.env["acc0"]
                return d + eb["acc"][lti], eb, wa
            return d, eb, wa

        k.scalar("acc0", facts=big, sample=lambda rg, s: 0.3)
        st = k.stub(gs, "compute_S_emb_pinv_det", s_pen), k.stub(gs, "update_coef_gammlss" if kind == "gamlss" else "update_coef_gen_smooth", s_upd), k.stub(gs, "calculate_edf", s_edf)
        k.stub(gs, "extend_lambda_step", s_ext)
        k.stub(gs, "reparam_model", s_rep)
        if k.mode == "sym":
            k.stub(gs, "step_fellner_schall_sparse", lambda lg, ld_, q, lam, sc: efs_spec(lift(lg), lift(ld_), lift(q), lift(lam), lift(sc)))
        ld = np.array([d for d in dl]) if k.mode == "sym" else rnp.array([float(d) for d in dl])
        eb = {"prev_lam": [0] * nq, "acc": list(ac)}
        wx = list(was[:nq])
        info = ct.Fit_info()
        if kind == "gamlss":
            out = gs.correct_lambda_step_gamlss("fam", "mus0", "y", "Xs", "Snorm", p, [1, 2], [0, 1], coef, [1], pens, ld, eb, wx, llk, info, outer, 7, 1, 1e-7, "Chol", 0.1, None, extend, "nesterov", control, rep, 1)
            nc, spl, mus, etas, H, L, LV, ll, pl, ep, keep, drop, S, P2, tot, te, nd = out
        else:
            g_ = k.scalar("gamma", "pos") if gamma else 1
            out = gs.correct_lambda_step_gen_smooth("fam", "y", "Xs", "Snorm", p, [1, 2], [0, 1], coef, [1], pens, ld, eb, wx, llk, info, outer, 7, 1, 1e-7, g_, "Chol", "Newton", None, None, extend, "nesterov", control, rep, 1, True, None)
            nc, H, L, LV, ll, pl, old, keep, drop, S, P2, tot, te, nd = out
            spl = None
        k.used(*st)
        m = len(ups)
        r = recs[m - 1]
        j = m - 1
        k.ensure_true("one coefficient update and one evaluation per set of smoothing parameters", m == len(lams) == len(eds) and m >= 1)
        k.ensure_true("likelihoods and degrees of freedom belong to the accepted coefficients", ll is r["ll"] and pl is r["pl"] and tot is r["tot"] and te is r["te"] and P2 is pens and keep is keepv and drop is dropv and info.dropped is dropv and int(info.lambda_updates) == m)
        i0 = 3 if kind == "gamlss" else 2
        k.ensure_true("coefficients are updated under the current penalty", all((a[i0] == "Xs_rp" and a[i0 + 1] == "coef_rp") if rep else (a[i0] == "Xs" and a[i0 + 1] is coef) for a in ups) and all(a[i0 + 3] is recs[q]["S"] and a[i0 + 5] is recs[q]["pinv"] and a[i0 + 7] is prp and a[i0 + 8] is llk for q, a in enumerate(ups)))
        k.ensure_true("traces are those of the accepted inverse factor", all(a[0] is recs[q]["LV"] and a[1] is prp and a[2] == p - (1 if neg else 0) for q, a in enumerate(eds)))
        cn = k.S(f"cn_{j}")
        if rep:
            k.ensure_true("the original design, coefficients and penalties are transformed", all(a[0] is coef and a[1] == "Xs" and a[2] is pens for a in reps) and len(reps) == m)
        Q = np.array([[lift(v) for v in r_] for r_ in Qb]) if rep else np.array([[lift(1 if a_ == b_ else 0) for b_ in range(p)] for a_ in range(p)])
        f = lambda M: M if k.mode == "sym" else dn(M)
        k.ensure_eq("coefficients in the original parameterisation", nc, matmul(Q, cn))
        if kind == "gamlss":
            k.ensure_eq("split coefficients", spl[0], matmul(Q, cn)[:1, :])
            k.ensure_eq("split coefficients, second predictor", spl[1], matmul(Q, cn)[1:, :])
            k.ensure_true("predictors", mus == "mus" and etas == "etas")
        con = lambda M: matmul(matmul(Q, M), Q.T)
        k.ensure_eq("Hessian in the original parameterisation", f(H), con(k.S(f"H_{j}")))
        k.ensure_eq("penalty in the original parameterisation", f(S), con(k.S(f"Se_{j}")))
        k.ensure_eq("factor in the original parameterisation", f(L @ L.T), con(matmul(k.S(f"L_{j}"), k.S(f"L_{j}").T)))
        k.ensure_eq("inverse factor in the original parameterisation", f(LV.T @ LV), con(matmul(k.S(f"LV_{j}").T, k.S(f"LV_{j}"))))
        step, waz = list(sd), list(was)
        for q_ in range(m):
            for q in range(nq):
                k.ensure_eq(f"attempt {q_}: smoothing parameter {q}", lams[q_][q], k.S(f"l{q}") + step[q], shape=False)
            if q_ < m - 1:
                for q in range(nq):
                    if extend and waz[q]:
                        step[q] = step[q] - sa[q]
                        waz[q] = False
                    elif control >= 2:
                        step[q] = step[q] / 2
        for q in range(nq):
            k.ensure_eq(f"the penalties keep the accepted smoothing parameter {q}", pens[q].lam, k.S(f"l{q}") + step[q], shape=False)

        def lgbs(q, jj, lamq):
            Sq = spec(k, q + (2 if rep else 0), p, 1, q, 1)[0]
            cq = k.S(f"cn_{jj}")
            bs = sum((cq[a_, 0] * Sq[a_, b_] * cq[b_, 0] for a_ in range(p) for b_ in range(p)), lift(0))
            lg = lift(1) / lamq if q == 0 else sum((k.S(f"pi_{jj}")[a_, b_] * Sq[b_, a_] for a_ in range(p) for b_ in range(p)), lift(0))
            return lg, (bs * k.S("gamma") if gamma else bs)

        if outer == 0 or control == 0 or (not extend and control < 2):
            k.ensure_true("no control: the step is taken as it is", m == 1)
        elif not extend:
            chk = lift(0)
            for q in range(nq):
                lg, bs = lgbs(q, j, k.S(f"l{q}") + step[q])
                chk = chk + (lg / 2 - k.S(f"B{q}_{j}") / 2 - bs / 2) * step[q]
            plx = k.S(f"pl_{j}")
            thr = lift(0) - fr(Fraction(repr(1e-7))) * np.where(plx < 0, lift(0) - plx, plx)
            tol = 0 if k.mode == "sym" else 1e-9
            k.ensure_true("the accepted step does not lower the criterion", chk >= thr if k.mode == "sym" else float(evalT(chk, k.env)) >= float(evalT(thr, k.env)) - tol)
        damp = fr(Fraction(repr(float(rnp.power(0.9, outer - 50))))) if (outer > 50 and eps > 0) else lift(1)
        for q in range(nq):
            lamq = k.S(f"l{q}") + step[q]
            if frozen[q]:
                k.ensure_eq(f"frozen parameter {q} is not updated", nd[q], lift(0), shape=False)
                continue
            lg, bs = lgbs(q, j, lamq)
            want = efs_spec(lg, k.S(f"B{q}_{j}"), bs, lamq, lift(1))
            small = lamq * fr(Fraction(1, 1000))
            red = np.where(want > 0, np.where(want > small, small, want), np.where(want < lift(0) - small, lift(0) - small, want))
            want = np.where(lg - k.S(f"B{q}_{j}") < 0, red, want)
            if extend and q == 0:
                want = want + k.S("acc0")
            k.ensure_eq(f"next step of parameter {q}", nd[q], want * damp, shape=False)
        if extend:
            k.ensure_eq("a damped extension is recorded as damped", eb["acc"][0], k.S("acc0") * damp, shape=False)

    return c


for nm, a in {
    "gamlss": ("gamlss", 1, False, (False, False)),
    "gamlss,first": ("gamlss", 2, False, (False, False), (False, False), 0),
    "gamlss,controlled": ("gamlss", 2, False, (False, False), (False, False), 3, False, None, 0.0, False, 2, 1),
    "gamlss,extended": ("gamlss", 1, True, (True, False), (False, False), 3, False, None, 0.0, False, 2, 1),
    "gamlss,transformed": ("gamlss", 1, False, (False, False), (True, False), 3, True),
    "gamlss,damped": ("gamlss", 1, True, (False, False), (False, False), 60, False, None, 0.5, False, 2, 1),
    "general": ("gsmm", 1, False, (False, False)),
    "general,controlled": ("gsmm", 2, False, (False, False), (False, False), 3, False, True, 0.0, False, 2, 1),
    "general,extended": ("gsmm", 1, True, (True, False), (False, False), 3, False, None, 0.0, False, 2, 1),
    "general,transformed": ("gsmm", 2, False, (False, False), (False, True), 0, True, True),
    "gamlss,large-traces": ("gamlss", 1, False, (False, False), (False, False), 3, False, None, 0.0, True),
    "general,large-traces": ("gsmm", 1, False, (False, False), (False, False), 3, False, None, 0.0, True),
}.items():
    R.add(f"smoothing-step:{nm}", functions=[GS + ("correct_lambda_step_gamlss" if a[0] == "gamlss" else "correct_lambda_step_gen_smooth"), GS + "grad_lambda", GS + "compute_lgdetD_bsb", GS + "undo_extension_lambda_step"], nsamp=8, nstand=60, timeout=300)(lamstep2(*a))
