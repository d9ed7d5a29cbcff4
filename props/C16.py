"""C16: quasi-Newton approximations of the Hessian."""
from .common import *
from .C13 import sparseT, rows, mm, tr, fr, dn, spd, perm
from .C11 import lterm, spec

R = Registry("C16")
R.exts = ("eigen_solvers", "dChol")
CR = "compact_rep."
GS = "gamm_solvers."


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), lift(0))


def sr1(B, S, Y):
    """recursive symmetric rank-one updates"""
    n = len(B)
    for s, y in zip(S, Y):
        u = [y[i] - dot(B[i], s) for i in range(n)]
        d = dot(u, s)
        B = [[B[i][j] + u[i] * u[j] / d for j in range(n)] for i in range(n)]
    return B


def denoms(B, S, Y):
    out, n = [], len(B)
    for s, y in zip(S, Y):
        u = [y[i] - dot(B[i], s) for i in range(n)]
        d = dot(u, s)
        out.append(d)
        B = [[B[i][j] + u[i] * u[j] / d for j in range(n)] for i in range(n)]
    return out


def compact(m, p, which, explicit):
    def c(k):
        cr = k.mod("compact_rep")
        s, y = k.arr("s", (m, p)), k.arr("y", (m, p))
        w = k.scalar("w", "pos")
        W = k.S("w")
        Ss, Ys = [[k.S("s")[a, b] for b in range(p)] for a in range(m)], [[k.S("y")[a, b] for b in range(p)] for a in range(m)]
        H0 = [[W if a == b else lift(0) for b in range(p)] for a in range(p)]
        A, B_ = (Ss, Ys) if which == "H" else (Ys, Ss)
        for q in range(m):
            k.assume(dot(Ss[q], Ys[q]) != 0)
        for d in denoms(H0, A, B_):
            k.assume(d != 0)
        if m == 2:  # the middle matrix is invertible (its determinant is the product of the update denominators)
            mid = lambda a, b: dot(A[a], B_[b]) - W * dot(A[a], A[b])
            k.assume(mid(0, 0) * mid(1, 1) - mid(1, 0) * mid(1, 0) != 0)
        rho = np.array([lift(1) / dot(Ss[q], Ys[q]) for q in range(m)]) if k.mode == "sym" else 1 / rnp.einsum("ij,ij->i", s, y)
        M0 = sparseT(H0) if k.mode == "sym" else __import__("scipy").sparse.identity(p, format="csc") * float(w)
        fn = cr.computeHSR1 if which == "H" else cr.computeVSR1
        out = fn(s, y, rho, M0, w, explicit=explicit)
        if not explicit:
            t1, t2, t3 = out
            out = M0 + t1 @ t2 @ t3
        out = out if k.mode == "sym" else dn(out)
        want = sr1(H0, A, B_)
        k.ensure_eq("the compact form is the sequence of rank-one updates", out, np.array(want))
        k.ensure_eq("latest secant equation", out @ (s if which == "H" else y)[m - 1], np.array(B_[m - 1]))

    return c


for m, p in ((1, 2), (1, 3), (2, 2)):
    for which in "HV":
        for ex in (True, False):
            R.add(f"rank-one-updates:{which},{m}x{p},{'explicit' if ex else 'factors'}", functions=[CR + ("computeHSR1" if which == "H" else "computeVSR1")], nsamp=8, nstand=60, timeout=150)(compact(m, p, which, ex))


def omega(m, p, how):
    @R.add(f"scaling:{how},{m}x{p}", functions=[CR + "compute_omega"], nsamp=12, nstand=80)
    def c(k):
        cr = k.mod("compact_rep")
        nz = lambda e: [not_(eq(e, ZERO))]
        y, s = k.arr("y", (m, p)), k.arr("s", (m, p), facts=nz)
        Y, S = k.S("y"), k.S("s")
        ss = [sum((S[a, b] * S[a, b] for b in range(p)), lift(0)) for a in range(m)]
        sy = [sum((S[a, b] * Y[a, b] for b in range(p)), lift(0)) for a in range(m)]
        for q in range(m):
            k.assume(sy[q] != 0)
            k.assume(ss[q] > 0)
        out = cr.compute_omega(y, s, method=how)
        if how == "NoWr":
            raw = sum((Y[m - 1, b] * Y[m - 1, b] for b in range(p)), lift(0)) / sy[m - 1]
        else:
            om = [sy[q] / ss[q] for q in range(m)]
            raw = sum(om, lift(0)) / m
            if how == "min":
                raw = lift(0)
                for o in om:
                    raw = np.where((o < raw) | (raw <= 0), o, raw)
        k.ensure_eq("scale of the initial approximation", out, np.where(raw < 0, lift(1), raw), shape=False)


for how in ("NoWr", "mean", "min"):
    omega(1, 2, how)
    omega(2, 1, how)
omega(3, 1, "mean")


# ---------------------------------------------------------------- structured approximation
def structured(fc, ac, explicit, damped, corr):
    def c(k):
        cr = k.mod("compact_rep")
        nF, nA = len(fc), len(ac)
        nT = nF + nA
        HBB, HBb, I = k.arr("HBB", (nF, nF), frame=False), k.arr("HBb", (nF, nA), frame=False), k.arr("I", (nF, nF))
        y, s = k.arr("y", (corr, nT)), k.arr("s", (corr, nT))
        w, dm = k.scalar("w", "pos"), k.scalar("dm", "pos")
        t1, t2, t3 = k.arr("t1", (nA, 1), frame=False), k.arr("t2", (1, 1), frame=False), k.arr("t3", (1, nA), frame=False)
        B_, b_, Iv = k.S("HBB"), k.S("HBb"), k.S("I")
        for q in range(corr):
            k.assume(sum((k.S("y")[q, a] * k.S("s")[q, a] for a in ac), lift(0)) != 0)
        pos = {c_: q for q, c_ in enumerate([*fc, *ac])}
        z = lift(0)

        def fd(a, b):
            a, b = pos[a], pos[b]
            if a < nF and b < nF:
                return B_[a, b] if a <= b else B_[b, a]
            if damped or (a >= nF and b >= nF):
                return z
            return b_[a, b - nF] if a < nF else b_[b, a - nF]

        rowsf = [[fd(a, b) for b in range(nT)] for a in range(nT)]
        if k.mode == "sym":
            nHfd = sparseT(rowsf)
        else:
            import scipy.sparse as sp

            nHfd = sp.csc_array(evalT(np.array(rowsf), k.env).astype(float).reshape(nT, nT))
        seen = []

        def s_om(yk, sk, method="NoWr"):
            seen.append(("w", yk, sk, method))
            return w

        def s_h(sk, yk, rho, H0, om=1, make_psd=False, make_pd=False, explicit=True):
            seen.append(("h", sk, yk, rho, H0, om, make_psd, make_pd, explicit))
            return t1, t2, t3

        st = k.stub(cr, "computeHSR1", s_h), k.stub(cr, "compute_omega", s_om)
        out = cr.computeSH(y, s, nHfd, I, rnp.array(fc), rnp.array(ac), False, damped, dm, True, True, explicit)
        k.used(*st)
        W = k.S("w") * k.S("dm")
        _, sk, yk, rho, H0, om, mp, md, ex = [v for v in seen if v[0] == "h"][0]
        k.ensure_true("a positive (semi-)definite approximation is asked for, in factors", mp is True and md is True and ex is False)
        k.ensure_eq("steps of the approximated coefficients", sk, np.array([[k.S("s")[q, a] for a in ac] for q in range(corr)]))
        k.ensure_eq("gradient differences of the approximated coefficients", yk, np.array([[k.S("y")[q, a] for a in ac] for q in range(corr)]))
        k.ensure_eq("curvatures are those of the approximated coefficients", rho, np.array([lift(1) / sum((k.S("y")[q, a] * k.S("s")[q, a] for a in ac), z) for q in range(corr)]))
        k.ensure_eq("initial matrix", H0 if k.mode == "sym" else dn(H0), np.array([[W if a == b else z for b in range(nA)] for a in range(nA)]))
        k.ensure_eq("scale", om, W, shape=False)
        for v in seen:
            if v[0] == "w":
                k.ensure_eq("scale from the approximated coefficients", v[1], np.array([[k.S("y")[q, a] for a in ac] for q in range(corr)]))
                k.ensure_true("scale of recorded updates", v[3] == "NoWr")

        def full(a, b):
            r = fd(a, b)
            a, b = pos[a] - nF, pos[b] - nF
            if a >= 0 and b >= 0:
                r = r + (W if a == b else z) + k.S("t1")[a, 0] * k.S("t2")[0, 0] * k.S("t3")[0, b]
                if not damped:
                    for u in range(nF):
                        for v in range(nF):
                            r = r + b_[u, a] * Iv[u, v] * b_[v, b]
            return r

        f = (lambda M: M) if k.mode == "sym" else dn
        want = np.array([[full(a, b) for b in range(nT)] for a in range(nT)])
        if explicit:
            k.ensure_eq("negative Hessian in the order of the coefficients", f(out), want)
        else:
            n1, a1, a2, a3, b1, b3, c1, c2, c3 = out
            tot = n1 + a1 @ a2 @ a3 + c1 @ c2 @ c3
            if b1 is not None:
                tot = tot + b1 @ b3
            k.ensure_true("off-diagonal correction only without full damping", (b1 is None) == damped and (b3 is None) == damped)
            k.ensure_eq("the parts sum to the negative Hessian", f(tot), want)

    return c


for fc, ac in (([0], [1]), ([2, 0], [1]), ([1], [2, 0])):
    for ex in (True, False):
        for dp in (False, True):
            R.add(f"structured:{fc}+{ac},{'explicit' if ex else 'factors'}{',damped' if dp else ''}", functions=[CR + "computeSH"], nsamp=5, nstand=40, timeout=150)(structured(fc, ac, ex, dp, 1 if len(ac) == 1 else 2))


# ---------------------------------------------------------------- traces
def trace(p, start, size, reps, parts):
    def c(k):
        gs, ct = k.mod("gamm_solvers"), k.mod("custom_types")
        V0 = k.arr("V0", (p, p), sp=True)
        t = [k.arr(f"t{q}", {0: (p, 2), 1: (2, 2), 2: (2, p)}[q % 3]) if q < 3 * parts else None for q in range(9)]
        lt = lterm(k, ct, 0, p, size, start, reps, None, 1.0)
        if k.mode != "sym":
            import scipy.sparse as sp

            V0 = sp.csr_matrix(dn(V0))
        out = gs.computetrVS3(*t, lt, V0)
        S = spec(k, 0, p, size, start, reps)[0]
        V = [[k.S("V0")[a, b] for b in range(p)] for a in range(p)]
        for g in range(parts):
            A, B, C = (k.S(f"t{3 * g + q}") for q in range(3))
            for a in range(p):
                for b in range(p):
                    for u in range(2):
                        for v in range(2):
                            V[a][b] = V[a][b] - A[a, u] * B[u, v] * C[v, b]
        k.ensure_eq("trace of inverse and penalty", out, sum((V[a][b] * S[b, a] for a in range(p) for b in range(p)), lift(0)), shape=False)

    return c


for parts in (0, 1, 2, 3):
    R.add(f"trace:{parts} corrections", functions=[GS + "computetrVS3"], nsamp=6, nstand=40, symbolic=parts > 0, why_bounded="without corrections the code indexes the matrix class of the compiled factorisation")(trace(4, 1, 1 if parts else 2, 2 if parts else 1, parts))


# ---------------------------------------------------------------- collecting update vectors
def collect(prev, maxcor, given, fails, zero):
    def c(k):
        gs = k.mod("gamm_solvers")
        p = 2
        sks, yks = (k.arr("sks", (prev, p), frame=False), k.arr("yks", (prev, p), frame=False)) if prev else (rnp.array([]), rnp.array([]))
        rhos = k.arr("rhos", (prev,), frame=False) if prev else rnp.array([])
        g0, g1, st_ = k.arr("g0", (p, 1)), k.arr("g1", (p, 1)), k.arr("step", (p, 1))
        al = k.scalar("al", "pos")
        if given:
            ny, ns = [k.S("g0")[a, 0] for a in range(p)], [k.S("step")[a, 0] for a in range(p)]
        else:
            ny = [k.S("g0")[a, 0] - k.S("g1")[a, 0] for a in range(p)]
            ns = [k.S("al") * k.S("step")[a, 0] for a in range(p)]
        k.assume(dot(ny, ns) != 0)
        rk = lift(1) / dot(ny, ns)
        seen = []

        def s_t(*a):
            seen.append(a)
            return fails

        def s_o(y_, s_, method="NoWr"):
            seen.append((y_, s_, method))
            return "omega"

        stubs = k.stub(gs, "test_SR1", s_t), k.stub(gs, "compute_omega", s_o)
        if given:
            rr = np.array([[rk]]) if k.mode == "sym" else rnp.array([[float(evalT(rk, k.env))]])
            out = gs.update_ys_qefs(g0, st_, rr, yks, sks, rhos, None, None, None, None, False, maxcor)
        else:
            out = gs.update_ys_qefs(None, None, None, yks, sks, rhos, g0, g1, st_, al, False, maxcor)
        k.used(*stubs[:1])
        y2, s2, r2, om, skip = out
        k.ensure_true("rejected exactly if the update is not defined", skip is fails)
        wy = [[k.S("yks")[a, b] for b in range(p)] for a in range(prev)]
        ws = [[k.S("sks")[a, b] for b in range(p)] for a in range(prev)]
        wr = [k.S("rhos")[a] for a in range(prev)]
        if not fails:
            wy, ws, wr = (wy + [ny])[-maxcor:], (ws + [ns])[-maxcor:], (wr + [rk])[-maxcor:]
        if wy:
            k.ensure_eq("gradient differences, oldest discarded", y2, np.array(wy))
            k.ensure_eq("steps, oldest discarded", s2, np.array(ws))
            k.ensure_eq("curvatures, oldest discarded", r2, np.array(wr))
            k.ensure_true("scale of the collected updates", om == "omega" and seen[-1][0] is y2 and seen[-1][1] is s2)
        else:
            k.ensure_true("nothing collected", len(y2) == 0 and len(s2) == 0 and om == 1)

    return c


for prev, mc, given, fails in ((0, 3, False, False), (0, 3, False, True), (2, 3, False, False), (2, 2, False, False), (2, 2, True, False), (1, 3, True, True), (3, 1, True, False) if False else (1, 1, False, False)):
    R.add(f"collect:{prev} of {mc}{',given' if given else ''}{',undefined' if fails else ''}", functions=[GS + "update_ys_qefs"], nsamp=6, nstand=40)(collect(prev, mc, given, fails, False))


# ---------------------------------------------------------------- bounded: decompositions
def pairs(rng, p, m, how):
    """update vectors of a quadratic with Hessian A (how='exact') or arbitrary ones"""
    while True:
        A = rng.normal(size=(p, p))
        A = (A + A.T) / 2 if rng.random() < 0.5 else A @ A.T + 0.1 * rnp.eye(p)
        s = rng.normal(size=(m, p))
        y = s @ A if how == "exact" else s @ A + 0.3 * rng.normal(size=(m, p))
        if rnp.abs(rnp.einsum("ij,ij->i", s, y)).min() > 1e-2:
            return A, s, y, 1 / rnp.einsum("ij,ij->i", s, y)


def sr1f(B, S, Y):
    for s, y in zip(S, Y):
        u = y - B @ s
        if abs(u @ s) <= 1e-3 * rnp.linalg.norm(u) * rnp.linalg.norm(s) or rnp.linalg.norm(u) < 1e-3:
            return None
        B = B + rnp.outer(u, u) / (u @ s)
    return B


def psd(B, make_pd=False):
    ev, U = rnp.linalg.eigh(B)
    return U, ev


BW = "eigenvalue, singular value and Cholesky decompositions"


@R.add("rank-one-updates:projection", symbolic=False, nstand=200, functions=[CR + "computeHSR1", CR + "computeVSR1"], why_bounded=BW, cbound="up to 7 coefficients and 5 updates, exact and inexact secants, with and without negative curvature")
def proj(k):
    rng, cr = k.rng, k.mod("compact_rep")
    import scipy.sparse as sp

    p, m = int(rng.integers(2, 8)), int(rng.integers(1, 6))
    m = min(m, p)
    A, s, y, rho = pairs(rng, p, m, rng.choice(["exact", "no"]))
    which = rng.choice(["H", "V"])
    w = float(rng.uniform(0.2, 3))
    k.note("which", which), k.note("s", s), k.note("y", y), k.note("omega", w)
    B = sr1f(w * rnp.eye(p), *((s, y) if which == "H" else (y, s)))
    if B is None or rnp.abs(B).max() > 1e4:
        return k.skip() if hasattr(k, "skip") else None
    H0 = sp.identity(p, format="csc") * w
    fn = cr.computeHSR1 if which == "H" else cr.computeVSR1
    s0, y0 = s.copy(), y.copy()
    k.close("updates", fn(s, y, rho, H0, w), B, rtol=1e-5, atol=1e-5 * max(1, rnp.abs(B).max()))
    ev, U = rnp.linalg.eigh(B)
    if rnp.abs(ev).min() < 1e-5 * rnp.abs(ev).max():
        return
    fixed = U @ rnp.diag(rnp.maximum(ev, 0)) @ U.T
    sc = max(1, rnp.abs(B).max())
    got = fn(s, y, rho, H0, w, make_psd=True)
    k.close("nearest positive semi-definite matrix", got, fixed, rtol=1e-5, atol=1e-5 * sc)
    t1, t2, t3 = fn(s, y, rho, H0, w, make_psd=True, explicit=False)
    k.close("factors of the same matrix", dn(H0) + t1 @ t2 @ t3, fixed, rtol=1e-5, atol=1e-5 * sc)
    if which == "H":
        got = fn(s, y, rho, H0, w, make_psd=True, make_pd=True)
        k.close("positive definite matrix", got, fixed, rtol=1e-5, atol=2e-5 * sc)
        k.check("no eigenvalue is negative", rnp.linalg.eigvalsh((got + got.T) / 2).min() > -1e-10 * sc)
        k.check("positive definite", rnp.linalg.eigvalsh((got + got.T) / 2).min() > 1e-9 * w)
    k.close("inputs are left alone", rnp.vstack([s, y]), rnp.vstack([s0, y0]))


def mkop(rng, p, fc, sampled, psd_, opts, m=None, PD=True, gs=None):
    """an operator with the attributes the package stores, plus the negative Hessian it stands for"""
    import scipy as scp

    ac = [c for c in range(p) if c not in fc] if fc is not None else None
    q = p if fc is None else len(ac)
    m = int(rng.integers(1, min(q, 4) + 1)) if m is None else m
    A = rng.normal(size=(p, p))
    A = A @ A.T + 0.2 * rnp.eye(p)
    if not psd_:
        ev, U = rnp.linalg.eigh(A)
        ev[int(rng.integers(p))] *= -0.7
        A = U @ rnp.diag(ev) @ U.T
    s = rng.normal(size=(m, p))
    y = s @ A
    if fc is not None:
        y = y * 1.0
    op = scp.optimize.LbfgsInvHessProduct(s, y)
    op.method, op.init, op.sample_hessian, op.fcols, op.acols = "qEFS", True, sampled, fc, ac
    op.sqEFS_options, op.bfgs_options = opts, {"maxcor": 5}
    op.sample_hessian_method, op.sample_hessian_options = 0, {}
    op.nHfd = op.IonHBB = op.P1 = op.P2 = None
    return op, A, ac


def omeg(y, s, sampled):
    if sampled:
        w = rnp.mean(rnp.einsum("ij,ij->i", s, y) / rnp.einsum("ij,ij->i", s, s))
    else:
        w = y[-1] @ y[-1] / (y[-1] @ s[-1])
    return 1.0 if w < 0 else float(w)


def operator(k):
    """(operator, dense negative Hessian it represents, penalty) or None when an update is undefined"""
    import scipy.sparse as sp

    rng, gs = k.rng, k.mod("gamm_solvers")
    p = int(rng.integers(2, 8))
    fc = None if rng.random() < 0.5 else rnp.sort(rng.permutation(p)[: int(rng.integers(1, p))])
    sampled = bool(rng.random() < 0.5)
    opts = {}
    if fc is not None:
        if rng.random() < 0.4:
            opts["dampen_HBb"] = float(rng.choice([0.0, 0.5, 1.0]))
        if rng.random() < 0.3:
            opts["dampen_HBB"] = float(rng.uniform(0.5, 2))
        if rng.random() < 0.3:
            opts["pre_cond"] = bool(rng.random() < 0.5)
    op, A, ac = mkop(rng, p, fc, sampled, bool(rng.random() < 0.7), opts)
    s, y = op.sk, op.yk
    k.note("fcols", fc), k.note("options", opts), k.note("sampled", sampled), k.note("A", A), k.note("s", s)
    if fc is None:
        w = omeg(y, s, sampled)
        B = sr1f(w * rnp.eye(p), s, y)
        if B is None:
            return None
        ev, U = rnp.linalg.eigh(B)
        nH = U @ rnp.diag(rnp.maximum(ev, 0)) @ U.T
        bad = rnp.abs(ev).min() < 1e-4 * rnp.abs(ev).max()
    else:
        fd = A.copy()
        fd[rnp.ix_(ac, ac)] = 0
        n2, BB, IBB, Bb = gs.makepdd_fd2llk(sp.csc_array(fd), fc, ac, opts.get("dampen_HBb", 1), True, True)
        op.nHfd, op.IonHBB = n2, IBB
        nT = p
        P2 = rnp.zeros((nT, len(ac)))
        P2[ac, rnp.arange(len(ac))] = 1
        y2 = y - s @ dn(n2)
        y2 = y2 - (P2 @ dn(Bb).T @ IBB @ dn(Bb) @ P2.T @ s.T).T
        op.yk[:] = y2
        op.rho = 1 / rnp.einsum("ij,ij->i", s, y2)
        ya, sa = y2[:, ac], s[:, ac]
        if rnp.abs(rnp.einsum("ij,ij->i", sa, ya)).min() < 1e-2:
            return None
        w = omeg(ya, sa, sampled) * opts.get("dampen_HBB", 1)
        B = sr1f(w * rnp.eye(len(ac)), sa, ya)
        if B is None:
            return None
        ev, U = rnp.linalg.eigh(B)
        Q = U @ rnp.diag(rnp.maximum(ev, 0)) @ U.T
        bad = rnp.abs(ev).min() < 1e-4 * rnp.abs(ev).max()
        nH = dn(n2).copy()
        nH[rnp.ix_(ac, ac)] += Q + dn(Bb).T @ IBB @ dn(Bb)
    if bad or rnp.abs(nH).max() > 1e3:
        return None
    M, S = spd(k, rng, p)
    S = sp.csc_array(M)
    return op, nH, S, M, w


@R.add("finite-difference-block", symbolic=False, nstand=150, functions=[GS + "makepdd_fd2llk", GS + "init_qEFS_storage"], why_bounded=BW, cbound="up to 7 coefficients, any subset of differenced columns, definite and indefinite blocks")
def fdblock(k):
    import scipy.sparse as sp

    rng, gs = k.rng, k.mod("gamm_solvers")
    p = int(rng.integers(2, 8))
    fc = rng.permutation(p)[: int(rng.integers(1, p))]
    st = gs.init_qEFS_storage(rnp.zeros((p, 1)), {"maxcor": 3}, False, 0, {}, fc, {})
    ac = st.acols
    k.check("remaining columns in order", list(ac) == [c for c in range(p) if c not in set(fc)])
    P1 = rnp.zeros((p, p))
    P1[[*fc, *ac], rnp.arange(p)] = 1
    P2 = rnp.zeros((p, len(ac)))
    P2[ac, rnp.arange(len(ac))] = 1
    k.close("ordering matrix", dn(st.P1), P1)
    k.close("embedding matrix", dn(st.P2), P2)
    A = rng.normal(size=(p, p))
    A = A @ A.T + 0.3 * rnp.eye(p) if rng.random() < 0.5 else (A + A.T) / 2
    A[rnp.ix_(ac, ac)] = 0
    k.note("A", A), k.note("fcols", fc)
    d = float(rng.choice([0, 0.5, 1.0]))
    PSD, PD = [(True, True), (True, False), (False, False)][int(rng.integers(3))]
    n2, BB, IBB, Bb = gs.makepdd_fd2llk(sp.csc_array(A), fc, ac, d, PSD, PD)
    ev, U = rnp.linalg.eigh(A[rnp.ix_(fc, fc)])
    if rnp.abs(ev).min() < 1e-4:
        return
    if PSD and PD:
        ev = rnp.maximum(ev, rnp.sqrt(rnp.finfo(float).eps) * rnp.abs(ev).max())
        iv = 1 / ev
    elif PSD:
        ev = rnp.maximum(ev, 0)
        iv = rnp.where(ev > 0, 1 / rnp.where(ev > 0, ev, 1), 0)
    else:
        iv = 1 / ev
    WB, WI = U @ rnp.diag(ev) @ U.T, U @ rnp.diag(iv) @ U.T
    Wb = d * A[rnp.ix_(fc, ac)]
    if PSD and not PD:
        Wb = WB @ WI @ Wb
    k.close("block", dn(BB), WB, atol=1e-7)
    k.close("inverse block", dn(IBB), WI, rtol=1e-4, atol=1e-6)
    k.close("mixed block", dn(Bb), Wb, atol=1e-7)
    W = A.copy()
    W[rnp.ix_(fc, fc)] = WB
    W[rnp.ix_(fc, ac)] = Wb
    W[rnp.ix_(ac, fc)] = Wb.T
    k.close("whole matrix in the original order", dn(n2), W, atol=1e-7)


@R.add("inverse-and-root", symbolic=False, nstand=200, functions=[GS + "getImplicitV", GS + "getExplicitnH", GS + "getCholnH", GS + "calculate_edf", CR + "computeSVPS", CR + "computeSH", "dChol.uChol"], why_bounded=BW, cbound="up to 7 coefficients and 4 updates, full and structured approximations, damping, preconditioning")
def invroot(k):
    import scipy.sparse as sp

    gs = k.mod("gamm_solvers")
    r = operator(k)
    if r is None:
        return
    op, nH, S, M, w = r
    p = len(nH)
    if rnp.linalg.eigvalsh(nH + M).min() < 1e-3:
        return
    sc = max(1, rnp.abs(nH).max())
    k.close("explicit negative Hessian", dn(gs.getExplicitnH(op, p, True, False)), nH, rtol=1e-4, atol=1e-5 * sc)
    V = gs.getImplicitV(op, p, S, 1)
    tot = dn(V[0]).copy()
    for q in range(3):
        if V[1 + 3 * q] is not None:
            tot -= dn(V[1 + 3 * q]) @ dn(V[2 + 3 * q]) @ dn(V[3 + 3 * q])
    want = rnp.linalg.inv(nH + M)
    k.close("implicit inverse of the penalized negative Hessian", tot, want, rtol=1e-4, atol=1e-5 * rnp.abs(want).max())
    L0 = rnp.linalg.cholesky(M)
    L, P = gs.getCholnH(op, p, sp.csc_array(L0), make_pd=False)
    L, P = dn(L), dn(P)
    k.close("root of the penalized negative Hessian", P @ L @ L.T @ P.T, nH + M, rtol=1e-4, atol=2e-5 * sc)
    k.close("root is triangular", rnp.triu(L, 1), rnp.zeros((p, p)))
    # degrees of freedom from the operator
    ct = k.mod("custom_types")
    S1 = rnp.zeros((p, p))
    S1[0, 0] = 1.0
    S2 = rnp.eye(p) - S1
    pens = [ct.LambdaTerm(S_J=sp.csc_array(S1[:1, :1]), S_J_emb=sp.csc_array(S1), D_J_emb=sp.csc_array(S1), start_index=0, rep_sj=1, lam=0.7, rank=1),
            ct.LambdaTerm(S_J=sp.csc_array(rnp.eye(1)), S_J_emb=sp.csc_array(S2), D_J_emb=sp.csc_array(S2), start_index=1, rep_sj=p - 1, lam=2.5, rank=p - 1)]
    Se = 0.7 * S1 + 2.5 * S2
    W = rnp.linalg.inv(nH + Se)
    te, tr_, B = gs.calculate_edf(None, None, op, pens, None, p, 1, None, sp.csc_array(Se))
    k.close("traces", rnp.array([float(rnp.squeeze(b)) for b in B]), rnp.array([rnp.trace(W @ S1), rnp.trace(W @ S2)]), rtol=1e-4, atol=1e-5)
    k.close("degrees of freedom", float(rnp.squeeze(te)), p - rnp.trace(W @ Se), rtol=1e-4, atol=1e-4)


class Quad:
    """a quadratic log-likelihood b'c - b'Ab/2"""

    extra_coef = None

    def __init__(self, A, c):
        self.A, self.c = A, c

    def llk(self, coef, *a, **k):
        return float((self.c.T @ coef - 0.5 * coef.T @ self.A @ coef)[0, 0])

    def gradient(self, coef, *a, **k):
        return self.c - self.A @ coef

    def hessian(self, coef, *a, **k):
        import scipy.sparse as sp

        return sp.csc_array(-self.A)

    def jhessian(self, cols, coef, *a, **k):
        import scipy.sparse as sp

        H = rnp.zeros_like(self.A)
        H[:, cols] = -self.A[:, cols]
        H[cols, :] = -self.A[cols, :]
        return sp.csc_array(H)


@R.add("sampled-updates", symbolic=False, nstand=60, functions=[GS + "sample_ys_qefs", GS + "update_ys_qefs", GS + "test_SR1", GS + "sampleHcoef"], why_bounded="random perturbations", cbound="quadratic log-likelihoods of up to 6 coefficients, both sampling methods")
def sampled(k):
    import scipy.sparse as sp

    rng, gs = k.rng, k.mod("gamm_solvers")
    p = int(rng.integers(2, 7))
    A = spd(k, rng, p)[0]
    q = Quad(A, rng.normal(size=(p, 1)))
    M, _ = spd(k, rng, p)
    S = sp.csc_array(M)
    coef = rnp.linalg.solve(A + M, q.c)
    meth = int(rng.integers(2))
    mc = int(rng.integers(1, 6))
    sd = int(rng.integers(100))
    k.note("A", A), k.note("method", meth), k.note("maxcor", mc), k.note("seed", sd)
    H0 = sp.identity(p, format="csc") * 1.3
    kw = {} if meth else dict(adapt_r=bool(rng.random() < 0.3), add_pen=bool(rng.random() < 0.5), init_r=0.5, Madapt=15)
    args = (q, None, None, coef, [], S, mc, meth, sd, H0, kw)
    y, s, r, om, up = gs.sample_ys_qefs(*args, n_c=1)
    k.check("number of updates", s.shape == y.shape and len(s) == min(up, mc) and len(r) == len(s))
    if len(s):
        k.close("gradient differences are Hessian times step", y, s @ A, rtol=1e-4, atol=1e-5)
        k.close("curvatures", r, 1 / rnp.einsum("ij,ij->i", s, y), rtol=1e-6)
        k.close("scale", om, omeg(y, s, False), rtol=1e-6)
    y2, s2, r2, om2, up2 = gs.sample_ys_qefs(*args, n_c=1)
    k.check("the seed determines the sample", rnp.array_equal(y, y2) and rnp.array_equal(s, s2))


@R.add("coefficients", symbolic=False, nstand=60, functions=[GS + "update_coef_gen_smooth", GS + "sampleHcoef", GS + "getImplicitV", GS + "getExplicitnH"], why_bounded="iterates L-BFGS to convergence", cbound="quadratic log-likelihoods of up to 6 coefficients, full and structured approximations, recorded or sampled updates")
def coefs(k):
    import scipy.sparse as sp

    rng, gs = k.rng, k.mod("gamm_solvers")
    p = int(rng.integers(2, 7))
    A = spd(k, rng, p)[0]
    q = Quad(A, rng.normal(size=(p, 1)))
    M, _ = spd(k, rng, p)
    S = sp.csc_array(M)
    fc = None if rng.random() < 0.5 else rnp.sort(rng.permutation(p)[: int(rng.integers(1, p))])
    samp = bool(rng.random() < 0.5)
    mc = int(rng.integers(p, p + 4))
    k.note("A", A), k.note("c", q.c), k.note("S", M), k.note("fcols", fc), k.note("sampled", samp), k.note("maxcor", mc)
    st = gs.init_qEFS_storage(rnp.zeros((p, 1)), {"maxcor": mc, "gtol": 1e-10, "ftol": 1e-14}, samp, 0, {"adapt_r": False, "init_r": 0.5}, fc, {})
    with __import__("warnings").catch_warnings():
        __import__("warnings").simplefilter("ignore")
        for outer in range(int(rng.integers(1, 3))):
            out = gs.update_coef_gen_smooth(q, None, None, rng.normal(size=(p, 1)), [], S, S, None, None, [], 0.0, outer, 200, 1, 1e-9, "qEFS", 1, None, st, False)
            st = out[3]
    coef, H, L, LV, ll, pl, eps, keep, drop = out
    want = rnp.linalg.solve(A + M, q.c)
    k.close("coefficients maximise the penalized log-likelihood", coef, want, rtol=1e-3, atol=1e-4)
    k.close("log-likelihood of the returned coefficients", ll, q.llk(coef), atol=1e-9)
    k.close("penalized log-likelihood", float(rnp.squeeze(pl)), q.llk(coef) - 0.5 * float((coef.T @ M @ coef)[0, 0]), atol=1e-9)
    s, y = LV.sk, LV.yk
    k.check("at most the requested number of updates", len(s) <= mc and len(s) == len(y))
    if fc is None:
        k.close("updates approximate the unpenalized negative Hessian", y, s @ A, rtol=1e-4, atol=1e-5 * max(1, rnp.abs(A).max()))
    else:
        ac = LV.acols
        Bb = A[rnp.ix_(fc, ac)]
        Sch = A[rnp.ix_(ac, ac)] - Bb.T @ rnp.linalg.inv(A[rnp.ix_(fc, fc)]) @ Bb
        k.close("updates approximate the Schur complement", y[:, ac], s[:, ac] @ Sch, rtol=1e-3, atol=1e-4 * max(1, rnp.abs(A).max()))
        fd = A.copy()
        fd[rnp.ix_(ac, ac)] = 0
        k.close("differenced columns", dn(LV.nHfd), fd, atol=1e-5)
