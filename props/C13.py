"""C13: linear solves, factorisations and coefficient updates."""
from .common import *
import warnings as rwarn

R = Registry("C13")
R.exts = ("eigen_solvers",)
MS = "matrix_solvers."
GS = "gamm_solvers."


def perm(Pr):
    """the permutation matrix Eigen describes by its index vector"""
    M = rnp.zeros((len(Pr), len(Pr)))
    for c, r in enumerate(Pr):
        M[int(r), c] = 1
    return M


def dn(M):
    return M.toarray() if hasattr(M, "toarray") else rnp.asarray(M)


def spm(k, rng, n, p, dens=None):
    import scipy.sparse as sp

    A = rng.normal(size=(n, p)) * (rng.random((n, p)) < (rng.uniform(0.15, 1.0) if dens is None else dens))
    return A, sp.csc_array(A)


def spd(k, rng, p):
    """a random sparse symmetric positive definite matrix"""
    import scipy.sparse as sp

    A, _ = spm(k, rng, p, p)
    M = A @ A.T + rnp.diag(rng.uniform(0.3, 2, size=p))
    return M, sp.csc_array(M)


def fr(v):
    return T((), lambda: const(Fraction(v)))


BWHY = "compiled code over Eigen's sparse factorisations (outside the verifier's reach)"


# ---------------------------------------------------------------- compiled factorisations and solves
@R.add("cholesky", symbolic=False, nstand=150, functions=["eigen_solvers.chol", "eigen_solvers.cholP", "eigen_solvers.solve_LXX", MS + "cpp_chol", MS + "cpp_cholP", MS + "cpp_solve_LXX", MS + "map_csc_to_eigen"], why_bounded=BWHY, cbound="random sparse matrices up to 12x12 of any density, positive definite or not")
def chols(k):
    rng, ms = k.rng, k.mod("matrix_solvers")
    p = int(rng.integers(1, 13))
    M, A = spd(k, rng, p)
    k.note("A", M)
    c0 = A.copy()
    L, code = ms.cpp_chol(A)
    L = dn(L)
    k.check("chol: success is reported for a positive definite matrix", code == 0)
    k.close("chol: L L' = A", L @ L.T, M)
    k.close("chol: L is lower triangular", rnp.triu(L, 1), rnp.zeros((p, p)))
    L, Pr, code = ms.cpp_cholP(A)
    L, P = dn(L), perm(Pr)
    k.check("cholP: success and a permutation", code == 0 and sorted(int(v) for v in Pr) == list(range(p)))
    k.close("cholP: L L' = P A P'", L @ L.T, P @ M @ P.T)
    k.close("cholP: L is lower triangular", rnp.triu(L, 1), rnp.zeros((p, p)))
    Li, Pr, code = ms.cpp_solve_LXX(A)
    Li, P = dn(Li), perm(Pr)
    k.check("solve_LXX: success", code == 0)
    k.close("solve_LXX: inverse factor", (Li @ P).T @ (Li @ P) @ M, rnp.eye(p), atol=1e-6)
    k.close("inputs are left alone", dn(A), dn(c0))
    import scipy.sparse as sp

    V = rnp.linalg.qr(rng.normal(size=(p, p)))[0]
    ev = rng.uniform(0.5, 2, size=p)
    ev[int(rng.integers(p))] *= -1
    B = sp.csc_array(V @ rnp.diag(ev) @ V.T)
    k.note("indefinite", dn(B))
    L, code = ms.cpp_chol(B)
    k.check("chol: failure is reported for an indefinite matrix", code != 0 and rnp.isfinite(dn(L)).all())
    L, Pr, code = ms.cpp_cholP(B)
    k.check("cholP: failure is reported for an indefinite matrix", code != 0 and sorted(int(v) for v in Pr) == list(range(p)))
    Li, Pr, code = ms.cpp_solve_LXX(B)
    k.check("solve_LXX: failure is reported for an indefinite matrix", code != 0)
    for f in (ms.cpp_chol, ms.cpp_cholP, ms.cpp_qr, ms.cpp_qrr, ms.cpp_solve_qr, ms.cpp_solve_LXX):
        k.raises("row-major matrices are refused", Exception, lambda: f(sp.csr_array(M)))
    if p > 1:
        r = rnp.array([1, 0]), rnp.array([0, 2])
        U = sp.csc_array((rnp.array([1.0, 2.0]), rnp.array([1, 0]), rnp.array([0, 2] + [2] * (p - 1))), shape=(p, p))
        k.raises("unsorted matrices are refused", Exception, lambda: ms.cpp_chol(U))


@R.add("qr", symbolic=False, nstand=150, functions=["eigen_solvers.pqr", "eigen_solvers.pqrr", "eigen_solvers.dpqrr", "eigen_solvers.spqr", "eigen_solvers.solve_pqr", MS + "cpp_qr", MS + "cpp_qrr", MS + "cpp_dqrr", MS + "cpp_symqr", MS + "cpp_solve_qr"], why_bounded=BWHY, cbound="random matrices up to 14x10, full rank or with up to three exactly dependent columns")
def qrs(k):
    import scipy.sparse as sp

    rng, ms = k.rng, k.mod("matrix_solvers")
    p = int(rng.integers(1, 11))
    n = p + int(rng.integers(0, 5))
    X, _ = spm(k, rng, n, p, 0.8)
    X[:p] += rnp.diag(rng.uniform(1, 2, size=p))
    k.assume(rnp.linalg.cond(X) < 1e4)
    defi = int(rng.integers(0, 4)) if p > 3 else 0
    for j in range(defi):
        c = rng.choice(p - defi, size=2, replace=False) if p - defi > 1 else rnp.array([0, 0])
        X[:, p - 1 - j] = X[:, c] @ rng.uniform(0.5, 1.5, size=2)
    pi = rng.permutation(p)
    X = X[:, pi]
    k.note("X", X)
    rk = p - defi
    A = sp.csc_array(X)
    Q, R_, Pr, code = ms.cpp_qr(A)
    k.check("pqr: success", code == 0)
    Q, R_, P = dn(Q), dn(R_), perm(Pr)
    k.close("pqr: Q R = A P", (Q[:, : len(R_)] @ R_[: Q.shape[1]]), X @ P, atol=1e-6)
    k.close("pqr: Q orthogonal", Q.T @ Q, rnp.eye(Q.shape[1]), atol=1e-7)
    R_, Pr, r, code = ms.cpp_qrr(A)
    k.check("pqrr: success and rank", code == 0 and r == rk, (code, r, rk))
    if r == rk:
        R_, XP = dn(R_), (X @ perm(Pr))[:, :rk]
        k.close("pqrr: R'R is the cross product of the kept columns", R_.T @ R_, XP.T @ XP, atol=1e-6)
        k.close("pqrr: R upper triangular", rnp.tril(R_, -1), rnp.zeros((rk, rk)))
    Pr, r = ms.cpp_dqrr(rnp.asfortranarray(X) if rng.random() < 0.5 else rnp.ascontiguousarray(X))
    k.check("dpqrr: rank and independent pivots", r == rk and rnp.linalg.matrix_rank(X[:, rnp.asarray(Pr)[:rk]], tol=1e-7) == rk and sorted(int(v) for v in Pr) == list(range(p)), (r, rk))
    # symmetric, possibly semi-definite
    S = X.T @ X
    R_, P1, P2, r, code = ms.cpp_symqr(sp.csc_array(S), float(rnp.finfo(float).eps ** 0.6))
    k.check("spqr: success and rank", code == 0 and r == rk, (code, r, rk))
    if r == rk:
        R_, SP = dn(R_), (S @ perm(P1) @ perm(P2))[:, :rk]
        k.close("spqr: R'R is the cross product of the kept columns", R_.T @ R_, SP.T @ SP, atol=1e-5 * max(1, abs(SP.T @ SP).max()))
    if not defi:
        V, r, code = ms.cpp_solve_qr(sp.csc_array(S))
        k.check("solve_pqr: success and rank", code == 0 and r == p)
        k.close("solve_pqr: inverse", dn(V) @ S, rnp.eye(p), atol=1e-5)


@R.add("solve", symbolic=False, nstand=150, functions=["eigen_solvers.solve_am", "eigen_solvers.solve_coef", "eigen_solvers.solve_coefXX", "eigen_solvers.solve_L", MS + "cpp_solve_am", MS + "cpp_solve_coef", MS + "cpp_solve_coefXX", MS + "cpp_solve_L"], why_bounded=BWHY, cbound="random penalized least-squares problems up to 20 rows and 10 columns, any sparsity")
def solves(k):
    import scipy.sparse as sp

    rng, ms = k.rng, k.mod("matrix_solvers")
    p = int(rng.integers(1, 11))
    n = int(rng.integers(1, 21))
    X, A = spm(k, rng, n, p)
    if rng.random() < 0.3:
        X = rng.normal(size=(n, p))
        A = sp.csc_array(X)
    D_, _ = spm(k, rng, p, p)
    S = D_ @ D_.T + 0.2 * rnp.eye(p)
    Ss = sp.csc_array(S)
    y = rng.normal(size=n)
    k.note("X", X), k.note("S", S), k.note("y", y)
    M = X.T @ X + S
    b = rnp.linalg.solve(M, X.T @ y)
    for nm, f in (("solve_coef", lambda: ms.cpp_solve_coef(y, A, Ss)), ("solve_coefXX", lambda: ms.cpp_solve_coefXX(X.T @ y, sp.csc_array(M)))):
        L, Pr, c, code = f()
        L, P = dn(L), perm(Pr)
        k.check(f"{nm}: success", code == 0)
        k.close(f"{nm}: coefficients", c, b)
        k.close(f"{nm}: factor", L @ L.T, P @ M @ P.T)
        k.close(f"{nm}: lower triangular", rnp.triu(L, 1), rnp.zeros((p, p)))
    Li, Pr, c, code = ms.cpp_solve_am(y, A, Ss)
    Li = dn(Li) @ perm(Pr)
    k.check("solve_am: success", code == 0)
    k.close("solve_am: coefficients", c, b)
    k.close("solve_am: inverse factor", Li.T @ Li @ M, rnp.eye(p), atol=1e-6)
    Li, Pr, code = ms.cpp_solve_L(A, Ss)
    Li = dn(Li) @ perm(Pr)
    k.check("solve_L: success", code == 0)
    k.close("solve_L: inverse factor", Li.T @ Li @ M, rnp.eye(p), atol=1e-6)
    bad = sp.csc_array(-M - rnp.eye(p))
    k.check("failures are reported", ms.cpp_solve_coefXX(X.T @ y, bad)[-1] != 0 and ms.cpp_solve_coef(y, A, sp.csc_array(-2 * M))[-1] != 0 and ms.cpp_solve_am(y, A, sp.csc_array(-2 * M))[-1] != 0 and ms.cpp_solve_L(A, sp.csc_array(-2 * M))[-1] != 0)


@R.add("triangular", symbolic=False, nstand=100, functions=["eigen_solvers.solve_tr", "eigen_solvers.backsolve_tr", MS + "cpp_solve_tr", MS + "cpp_backsolve_tr", MS + "compute_Linv", MS + "compute_eigen_perm", MS + "apply_eigen_perm", MS + "translate_sparse", MS + "est_condition"], why_bounded=BWHY, cbound="random sparse triangular matrices up to 12x12")
def tri(k):
    import scipy.sparse as sp

    rng, ms = k.rng, k.mod("matrix_solvers")
    p, m = int(rng.integers(1, 13)), int(rng.integers(1, 6))
    A, _ = spm(k, rng, p, p)
    L = rnp.tril(A, -1) + rnp.diag(rng.uniform(0.5, 2, size=p))
    C, Cs = spm(k, rng, p, m)
    k.note("L", L), k.note("C", C)
    keep = Cs.copy()
    sc = max(1, rnp.linalg.cond(L))
    k.close("solve_tr", L @ dn(ms.cpp_solve_tr(sp.csc_array(L), Cs)), C, atol=1e-10 * sc)
    k.close("backsolve_tr", L.T @ dn(ms.cpp_backsolve_tr(sp.csc_array(L.T), Cs)), C, atol=1e-10 * sc)
    k.close("right-hand side is left alone", dn(Cs), dn(keep))
    Li = ms.compute_Linv(sp.csc_array(L), int(rng.integers(1, 11)))
    k.close("compute_Linv", dn(Li) @ L, rnp.eye(p), atol=1e-9 * sc**2)
    Pr = [int(v) for v in rng.permutation(p)]
    P = perm(Pr)
    k.close("compute_eigen_perm", dn(ms.compute_eigen_perm(Pr)), P)
    k.close("apply_eigen_perm", dn(ms.apply_eigen_perm(Pr, sp.csc_array(L))), L @ P)
    d, r, c = ms.translate_sparse(Cs)
    k.close("translate_sparse", sp.csc_array((d, (r, c)), shape=C.shape).toarray(), C)
    k.raises("translate_sparse refuses other formats", Exception, lambda: ms.translate_sparse(sp.csr_array(C)))
    if p > 2:
        scale = 10.0 ** rng.uniform(-9, 0)
        L2 = L @ rnp.diag(rnp.where(rnp.arange(p) == 0, scale, 1.0))
        with rwarn.catch_warnings():
            rwarn.simplefilter("ignore")
            sv = rnp.linalg.svd(L2, compute_uv=False)
            K, mx, mn, code = ms.est_condition(sp.csc_array(L2), sp.csc_array(rnp.linalg.inv(L2)), seed=int(rng.integers(5)), verbose=bool(rng.integers(2)))
        kk = sv[0] / sv[-1]
        k.close("est_condition: largest singular value", mx / sv[0], 1.0, rtol=1e-4)
        k.close("est_condition: smallest singular value", mn / sv[-1], 1.0, rtol=1e-4)
        k.close("est_condition: condition number", K / kk, 1.0, rtol=1e-4)
        u = 0.5 * rnp.finfo(float).eps
        k.assume(not 0.99 < kk * rnp.sqrt(u) < 1.01)
        k.check("est_condition: code", code == (0 if kk <= 1 / rnp.sqrt(u) else 1 if kk <= 1 / u else 2), (code, kk))


@R.add("parallel-inverse", symbolic=False, nstand=2, timeout=300, functions=[MS + "compute_Linv", MS + "compute_B", MS + "compute_block_linv_shared", MS + "compute_block_B_shared"], why_bounded="worker processes over shared memory", cbound="two matrices with more than 4000 columns (the size from which work is distributed)")
def par(k):
    import scipy.sparse as sp

    rng, ms, ct = k.rng, k.mod("matrix_solvers"), k.mod("custom_types")
    p = int(rng.integers(4001, 4200))
    off = rng.normal(size=p - 1) * 0.3
    L = sp.diags([rng.uniform(0.5, 2, size=p), off], [0, -1], format="csc")
    L = sp.csc_array(L)
    Li = ms.compute_Linv(L, 3)
    v = rng.normal(size=(p, 2))
    k.close("distributed inverse", L @ (Li @ v), v, atol=1e-6)
    Pr = [int(x) for x in rng.permutation(p)]
    D_ = sp.csc_array(sp.diags([rng.uniform(0.5, 1, size=p)], [0], format="csc"))
    t = ct.LambdaTerm(S_J=D_ @ D_, S_J_emb=D_ @ D_, D_J_emb=D_, rep_sj=1, lam=1.0, start_index=0, type=ct.PenType.IDENTITY, rank=p, term=0)
    P = ms.compute_eigen_perm(Pr)
    want = (ms.cpp_solve_tr(L, sp.csc_array(P @ D_))).power(2).sum()
    k.close("distributed trace", ms.compute_B(L, P, t, 3) / want, 1.0)


@R.add("trace-terms", symbolic=False, nstand=150, functions=[MS + "compute_B", GS + "calculate_edf"], why_bounded="sparse triangular solves in compiled code", cbound="random penalties of every layout (repeated blocks, null penalties, dropped coefficients, clustered series) for models of up to 16 coefficients")
def bterm(k):
    import scipy.sparse as sp

    rng, ms, ct = k.rng, k.mod("matrix_solvers"), k.mod("custom_types")
    N = int(rng.integers(4, 17))
    M, A = spd(k, rng, N)
    L, Pr, code = ms.cpp_cholP(A)
    size = int(rng.integers(1, 4))
    rep = int(rng.integers(1, max(1, N // size) + 1))
    start = int(rng.integers(0, N - size * rep + 1))
    kind = rng.choice(["full", "null", "null2", "clust"])
    drop = None
    if kind == "null":
        D1 = rnp.zeros((size, size))
        j = int(rng.integers(size))
        D1[j, j] = 1.0
        typ, rank = ct.PenType.NULL, rep
    elif kind == "null2":
        V = rng.normal(size=(size, 1))
        V /= rnp.linalg.norm(V)
        D1 = V @ V.T
        typ, rank = ct.PenType.NULL, rep
    else:
        rk = int(rng.integers(1, size + 1))
        D1 = rnp.zeros((size, size))
        D1[:rk, :rk] = rng.normal(size=(rk, rk))
        typ, rank = ct.PenType.DIFFERENCE, rk * rep
    D_ = rnp.zeros((N, N))
    for r in range(rep):
        s = start + r * size
        D_[s : s + size, s : s + size] = D1
    S = D_ @ D_.T
    Ds = sp.csc_array(D_)
    t = ct.LambdaTerm(S_J=sp.csc_array(D1 @ D1.T), S_J_emb=sp.csc_array(S), D_J_emb=Ds, rep_sj=rep, lam=float(rng.uniform(0.1, 9)), start_index=start, type=typ, rank=rank, term=0)
    k.note("kind", kind), k.note("start", start), k.note("rep", rep), k.note("S_J", D1 @ D1.T), k.note("A", M)
    P = ms.compute_eigen_perm(Pr)
    n_c = int(rng.integers(1, 11))
    if kind == "clust":
        nc = int(rng.integers(1, rep + 1))
        t.clust_series = sorted(int(v) for v in rng.choice(rep, size=nc, replace=False))
        t.clust_weights = [rng.uniform(0.2, 1, size=int(rng.integers(1, 4))) for _ in range(nc)]
        lw, up = ms.compute_B(L, P, t, n_c)
        V = rnp.linalg.inv(M)
        bl = [float(rnp.trace(D1.T @ V[start + s * size : start + (s + 1) * size, start + s * size : start + (s + 1) * size] @ D1)) for s in t.clust_series]
        k.close("clustered: lower estimate", lw, sum(b * w.sum() for b, w in zip(bl, t.clust_weights)))
        k.close("clustered: upper estimate", up, sum(b * len(w) for b, w in zip(bl, t.clust_weights)))
        return
    if rng.random() < 0.3 and N > 4 and kind == "full":
        drop = rnp.sort(rng.choice(N, size=int(rng.integers(1, 3)), replace=False))
        kp = rnp.setdiff1d(rnp.arange(N), drop)
        # dropping removes rows (coefficients) and the penalty's columns of the same number
        L, Pr, code = ms.cpp_cholP(sp.csc_array(M[rnp.ix_(kp, kp)]))
        P = ms.compute_eigen_perm(Pr)
        own = rnp.setdiff1d(rnp.arange(start, start + rep * size), drop)
        Dd = D_[rnp.ix_(kp, own)]
        k.note("drop", drop)
        k.close("trace without dropped coefficients", ms.compute_B(L, P, t, n_c, drop), rnp.trace(Dd.T @ rnp.linalg.inv(M[rnp.ix_(kp, kp)]) @ Dd))
        return
    k.close("trace of V S", ms.compute_B(L, P, t, n_c), rnp.trace(rnp.linalg.inv(M) @ S))


@R.add("dependencies", symbolic=False, nstand=80, functions=["eigen_solvers.id_dependencies"], why_bounded=BWHY, cbound="random pairs of matrices with up to three exact dependencies")
def deps(k):
    rng = k.rng
    es = k.mod("matrix_solvers").eigen_solvers
    n, p1, p2 = int(rng.integers(12, 25)), int(rng.integers(1, 5)), int(rng.integers(1, 6))
    X1, X2 = rng.normal(size=(n, p1)), rng.normal(size=(n, p2))
    nd = int(rng.integers(0, min(3, p2) + 1))
    for j in rng.choice(p2, size=nd, replace=False):
        X2[:, j] = X1 @ rng.uniform(0.5, 2, size=p1)
    k.note("X1", X1), k.note("X2", X2)
    piv, r = es.id_dependencies(X1, X2, float(rnp.finfo(float).eps ** 0.5))
    k.check("number of independent columns", r == p2 - nd, (r, p2 - nd))
    k.check("pivot is a permutation", sorted(int(v) for v in piv) == list(range(p2)))
    if r == p2 - nd:
        B = rnp.hstack([X1, X2[:, rnp.asarray(piv)[:r]]])
        k.check("kept columns are independent", rnp.linalg.matrix_rank(B, tol=1e-7) == B.shape[1])


# ---------------------------------------------------------------- proved: Newton and gradient steps
def fwd(L, C):
    """forward substitution, lists of terms"""
    p, m = len(L), len(C[0])
    B = [[None] * m for _ in range(p)]
    for c in range(m):
        for i in range(p):
            s = C[i][c]
            for j in range(i):
                if not zero(L[i][j]) and not zero(B[j][c]):
                    s = s - L[i][j] * B[j][c]
            B[i][c] = s / L[i][i]
    return B


def zero(t):
    e = lift(t).scalarE()
    return e is ZERO


def rows(t, p, m=None):
    return [[t[i, j] for j in range(p if m is None else m)] for i in range(p)]


def mm(A, B):
    out = []
    for i in range(len(A)):
        r = []
        for j in range(len(B[0])):
            s = lift(0)
            for q in range(len(B)):
                if not zero(A[i][q]) and not zero(B[q][j]):
                    s = s + A[i][q] * B[q][j]
            r.append(s)
        out.append(r)
    return out


def tr(A):
    return [list(c) for c in zip(*A)]


def sparseT(rows_):
    t = np.array(rows_)
    t.sp = True
    return t


EYE = lambda p: [[lift(1 if i == j else 0) for j in range(p)] for i in range(p)]


def sphere(ts):
    """a point of the unit sphere with positive last coordinate, rational in its parameters (|ts| < 1)"""
    s = sum((t * t for t in ts), lift(0))
    return [2 * t / (1 + s) for t in ts] + [(1 - s) / (1 + s)]


def newton(p, Pr, nfail):
    """negative penalized Hessian = D^-1 P' F F' P D^-1 - ridge with F lower triangular of unit row norm: every
    positive definite matrix has this form. The factorisation is replaced by its contract (P B P' = F F', F lower
    triangular), failing nfail times before it succeeds"""

    def c(k):
        gs = k.mod("gamm_solvers")
        P = perm(Pr)
        PT = [[lift(int(v)) for v in r] for r in P]
        coef, g = k.arr("coef", (p, 1)), k.arr("grad", (p, 1))
        S = k.arr("S", (p, p), sp=True, sample=lambda rg, s: (lambda a: a @ a.T)(rg.normal(size=s)))
        k.arr("d", (p,), "pos", frame=False)
        d = [k.S("d")[i] for i in range(p)]
        epsv = 1e-14 * 2.0 ** (nfail - 1) if nfail else 0.0
        e = T((), lambda: const(Fraction(repr(1e-14)) * 2 ** (nfail - 1) if nfail else Fraction(0)))
        cc = np.sqrt(1 + e) if nfail else lift(1)
        F = []
        for i in range(p):
            bd = 1.0 / max(1, i) ** 0.5
            ts = [k.scalar(f"t{i}{j}", facts=lambda x, bd=bd: [lt(const(Fraction(-bd * 0.999)), x), lt(x, const(Fraction(bd * 0.999)))], sample=lambda rg, s: rg.uniform(-0.9, 0.9) * bd) for j in range(i)]
            F.append([cc * v for v in sphere([k.S(f"t{i}{j}") for j in range(i)])] + [lift(0)] * (p - 1 - i))
        B = mm(tr(PT), mm(mm(F, tr(F)), PT))
        nH = [[(1 if i == j else B[i][j]) / (d[i] * d[j]) for j in range(p)] for i in range(p)]
        calls = {"n": 0}
        if k.mode == "sym":
            H = sparseT([[k.S("S")[i, j] - nH[i][j] for j in range(p)] for i in range(p)])

            def cholP(A):
                calls["n"] += 1
                if calls["n"] <= nfail:
                    return A, [int(v) for v in Pr], 1
                k.ensure_eq("the matrix that is factorised is the scaled negative penalized Hessian", A, np.array([[(1 + e) if i == j else B[i][j] for j in range(p)] for i in range(p)]))
                return sparseT(F), [int(v) for v in Pr], 0

            gs.cpp_cholP = cholP
            gs.compute_Linv = lambda A, n_c=10: sparseT(fwd(rows(lift(A), p), EYE(p)))
        else:
            import scipy.sparse as sp

            H = sp.csc_array(S.toarray() - evalT(np.array(nH), k.env))
            real = gs.cpp_cholP

            def cholP(A):
                calls["n"] += 1
                L, Q, code = real(A)
                return L, Q, (1 if calls["n"] <= nfail else code)

            gs.cpp_cholP = cholP
        try:
            n, L, LV, eps = gs.newton_coef_smooth(coef, g, H, S)
        finally:
            if k.mode != "sym":
                gs.cpp_cholP = real
        # specification: V = inverse of (nH + eps D^-2) = D P' F^-T F^-1 P D
        A = [[B[i][j] / (d[i] * d[j]) if i != j else (1 + e) / (d[i] * d[i]) for j in range(p)] for i in range(p)]
        Li = mm(fwd(F, EYE(p)), PT)
        V = [[v * d[i] * d[j] for j, v in enumerate(r)] for i, r in enumerate(mm(tr(Li), Li))]
        k.ensure_eq("lemma: the specification's V inverts the negative penalized Hessian", np.array(mm(V, A)) if k.mode == "sym" else evalT(np.array(mm(V, A)), k.env), rnp.eye(p))
        cs, gsp, Ss = k.S("coef"), k.S("grad"), k.S("S")
        pg = [[gsp[i, 0] - sum((Ss[i, j] * cs[j, 0] for j in range(1, p)), Ss[i, 0] * cs[0, 0])] for i in range(p)]
        st = mm(V, pg)
        k.ensure_eq("Newton step", n, np.array([[cs[i, 0] + st[i][0]] for i in range(p)]))
        full = lambda M: M if k.mode == "sym" else dn(M)
        k.ensure_eq("returned factor reproduces the negative penalized Hessian", full(L @ L.T), np.array(A))
        k.ensure_eq("returned inverse factor reproduces its inverse", full(LV.T @ LV), np.array(V))
        k.ensure_true("ridge", float(eps) == epsv)

    return c


for p, Pr, nf in ((1, (0,), 0), (2, (0, 1), 0), (2, (1, 0), 0), (3, (0, 1, 2), 0), (3, (2, 0, 1), 0), (2, (0, 1), 1), (2, (1, 0), 2)):
    R.add(f"newton:p={p},perm={''.join(map(str, Pr))},failures={nf}", functions=[GS + "newton_coef_smooth", MS + "compute_eigen_perm", MS + "apply_eigen_perm"], nsamp=8)(newton(p, Pr, nf))


@R.add("gradient-step", functions=[GS + "gd_coef_smooth"], nsamp=8)
def gd(k):
    p = 3
    gs = k.mod("gamm_solvers")
    coef, g, a = k.arr("coef", (p, 1)), k.arr("grad", (p, 1)), k.scalar("a", "pos")
    S = k.arr("S", (p, p), sp=True)
    n = gs.gd_coef_smooth(coef, g, S, a)
    k.ensure_eq("gradient step", n, k.S("coef") + k.S("a") * (k.S("grad") - matmul(k.S("S"), k.S("coef"))))


# ---------------------------------------------------------------- proved: step control
class StepFam:
    """any family: its log-likelihood is an arbitrary number at every point"""

    def __init__(self, k, links, vals):
        self.k, self.links, self.n_par, self.vals, self.calls = k, links, len(links), vals, []

    def llk(self, y, *mus):
        self.calls.append((y, mus))
        return self.vals(len(self.calls) - 1)


def halving(nh, lk):
    """nh: number of halvings after which the penalized log-likelihood first does not decrease (32: never)"""

    def c(k):
        gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
        n, ps = 2, (2, 1)
        p = sum(ps)
        Xs = [k.arr(f"X{i}", (n, q), sp=True) for i, q in enumerate(ps)]
        coef, nxt = k.arr("coef", (p, 1)), k.arr("next", (p, 1))
        S = k.arr("S", (p, p), sp=True)
        y = k.arr("y", (n, 1))
        llk0, a = k.scalar("llk0"), k.scalar("a", "pos")
        cs, ns, Ss = k.S("coef"), k.S("next"), k.S("S")
        quad = lambda v: sum((v[i, 0] * Ss[i, j] * v[j, 0] for i in range(p) for j in range(p)), lift(0))
        at = lambda j: cs + (ns - cs) / fr(2.0**j) if j < 32 else cs
        prev = k.S("llk0") - quad(cs) / 2
        gap = [k.scalar(f"gap{j}", "pos") for j in range(min(nh, 2))]
        up = k.scalar("up", "pos")

        # log-likelihood at the j-th trial: below the previous penalized value while j < nh, at least equal afterwards
        def val(j):
            base = prev + quad(at(j)) / 2
            return base - k.S(f"gap{j % 2 if nh > 1 else 0}") if j < nh else base + (k.S("up") if nh < 32 else lift(0))

        vals = val if k.mode == "sym" else (lambda j: float(evalT(lift(val(j)), k.env)))
        fam = StepFam(k, [getattr(ef, l)() for l in lk], vals)
        c_, sp_, mus, etas, ll, pen, a2 = gs.correct_coef_step_gammlss(fam, y, Xs, coef, nxt, [ps[0]], llk0, S, a)
        want = at(nh)
        tol = dict(rtol=1e-6, atol=1e-7)
        k.ensure_eq("accepted coefficients lie on the proposed step, halved until the criterion does not decrease", c_, want, **tol)
        k.ensure_eq("split coefficients", sp_[0], want[:2, :], **tol)
        k.ensure_eq("split coefficients, second predictor", sp_[1], want[2:, :], **tol)
        fi = {"Identity": lambda e: e, "LOG": exp, "Logit": lambda e: 1 / (1 + exp(lift(0) - e))}
        for i, (lo, hi) in enumerate(((0, 2), (2, 3))):
            et = matmul(k.S(f"X{i}"), want[lo:hi, :])
            k.ensure_eq(f"predictor {i}", etas[i], et, **tol)
            k.ensure_eq(f"mean {i}", mus[i], fi[lk[i]](et), **tol)
        k.ensure_eq("log-likelihood of the accepted coefficients", ll, val(nh), **tol)
        k.ensure_eq("penalized log-likelihood of the accepted coefficients", pen, lift(val(nh)) - quad(want) / 2, shape=False, **tol)
        k.ensure_true("number of evaluations", len(fam.calls) == nh + 1)
        sa = k.S("a")
        if nh:
            k.ensure_eq("step length shrinks after a rejected step", a2, np.where(sa > 1e-9, sa / 2, sa))
        else:
            k.ensure_eq("step length grows after an accepted step", a2, np.where(sa < 1, sa * 2, sa))

    return c


for nh, lk in ((0, ("Identity", "LOG")), (1, ("Logit", "LOG")), (2, ("Identity", "Identity")), (5, ("LOG", "Identity")), (32, ("Identity", "LOG"))):
    R.add(f"step-control:halvings={nh}", functions=[GS + "correct_coef_step_gammlss"], nsamp=6)(halving(nh, lk))


# ---------------------------------------------------------------- proved: penalized least squares update, given the contracts of the solvers
def lsq(way, fam, link):
    def c(k):
        gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
        n, p = 3, 2
        X = k.arr("X", (n, p), sp=True, frame=False)
        Xb = k.arr("Xb", (n, p), sp=True, frame=False)
        yb = k.arr("yb", (n,), frame=False)
        off = k.arr("off", (n, 1), frame=False)
        S = k.arr("S", (p, p), sp=True, frame=False, sample=lambda rg, s: (lambda a: a @ a.T + rnp.eye(2))(rg.normal(size=s)))
        k.arr("c", (p,), "small", frame=False)  # the solver's solution, in the solver's order
        Rf = k.arr("R", (p, p), frame=False)
        F = getattr(ef, fam)(getattr(ef, link)())
        Rt = k.arr("root", (p, p), sp=True, frame=False)
        b = [k.S("c")[0], k.S("c")[1]]
        if way == "chol":
            if k.mode == "sym":

                def solve(y_, X_, S_):
                    k.ensure_eq("solver gets the working response", y_, k.S("yb"))
                    k.ensure_eq("solver gets the working design", X_, k.S("Xb"))
                    k.ensure_eq("solver gets the penalty", S_, k.S("S"))
                    return sparseT(rows(Rf, p)), [1, 0], k.S("c").copy(), 0

                gs.cpp_solve_coef = solve
            else:
                k.env["c"] = rnp.linalg.solve(Xb.toarray().T @ Xb.toarray() + S.toarray(), Xb.toarray().T @ yb)
            eta, mu, coef, Pr, P, LP, keep, drop = gs.update_coef(yb, X, Xb, F, S, None, 1, None, off)
            k.ensure_true("nothing is dropped", keep is None and drop is None)
        else:
            pr1, pr2 = ([1, 0], [0, 1]) if way == "qr" else ([0, 1], [1, 0])
            if k.mode == "sym":

                def solve(y_, X_, E_):
                    k.ensure_eq("solver gets the working response", y_, k.S("yb"))
                    k.ensure_eq("solver gets the working design", X_, k.S("Xb"))
                    k.ensure_eq("solver gets a root of the penalty", matmul(lift(E_).T, lift(E_)), matmul(k.S("root"), k.S("root").T))
                    return sparseT([[Rf[0, 0], Rf[0, 1]], [lift(0), Rf[1, 1]]]), pr1, pr2, k.S("c").copy(), p, 0

                gs.cpp_solve_coef_pqr = solve
                b = [b[1], b[0]]
            else:
                A = Xb.toarray().T @ Xb.toarray() + Rt.toarray() @ Rt.toarray().T
                k.assume(bool(rnp.linalg.cond(A) < 1e6))
                k.env["c"] = rnp.linalg.solve(A, Xb.toarray().T @ yb)
            eta, mu, coef, Pr, P, LP, keep, drop = gs.update_coef(yb, X, Xb, F, S, Rt, 1, None, off)
            k.ensure_true("nothing is dropped", [int(v) for v in keep] == [0, 1] and len(drop) == 0)
            if k.mode == "sym":
                k.ensure_eq("triangular factor", LP, np.array([[k.S("R")[0, 0], lift(0)], [k.S("R")[0, 1], k.S("R")[1, 1]]]))
        if k.mode != "sym":
            L, Q = dn(LP), perm(Pr)
            M = Xb.toarray().T @ Xb.toarray() + (S.toarray() if way == "chol" else Rt.toarray() @ Rt.toarray().T)
            k.close("factor and permutation", Q.T @ L @ L.T @ Q, M, atol=1e-7)
        k.ensure_eq("permutation matrix", P if k.mode == "sym" else dn(P), perm([int(v) for v in Pr]))
        k.ensure_eq("coefficients", coef, np.array(b))
        et = np.array([[k.S("X")[i, 0] * b[0] + k.S("X")[i, 1] * b[1] + k.S("off")[i, 0]] for i in range(n)])
        k.ensure_eq("linear predictor", eta, et)
        k.ensure_eq("mean", mu, link_spec(link)[1](et))

    return c


for way, fam, link in (("chol", "Gaussian", "Identity"), ("chol", "Gamma", "LOG"), ("chol", "Gaussian", "LOG"), ("qr", "Gaussian", "Identity"), ("qr2", "Binomial", "Logit")):
    R.add(f"least-squares:{way},{fam},{link}", functions=[GS + "update_coef", MS + "compute_eigen_perm", MS + "translate_sparse"], nsamp=8)(lsq(way, fam, link))


def lsq_def(pr1, pr2, rank):
    """the QR solver reports a rank below the number of coefficients"""

    def c(k):
        gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
        n, p = 2, 3
        X = k.arr("X", (n, p), sp=True)
        Xb, yb, S = k.arr("Xb", (n, p), sp=True), k.arr("yb", (n,)), k.arr("S", (p, p), sp=True)
        Rt, Rf = k.arr("root", (p, p), sp=True), k.arr("R", (p, p))
        cv = k.arr("c", (rank,))
        import scipy.sparse as sp

        up = sparseT([[Rf[i, j] if j >= i else lift(0) for j in range(rank)] for i in range(rank)]) if k.mode == "sym" else sp.csc_array(rnp.triu(Rf[:rank, :rank]))
        calls = []
        real = gs.cpp_solve_coef_pqr
        gs.cpp_solve_coef_pqr = lambda *a: calls.append(1) or (up, pr1, pr2, cv.copy(), rank, 0)
        try:
            eta, mu, coef, Pr, P, LP, keep, drop = gs.update_coef(yb, X, Xb, ef.Gaussian(), S, Rt, 1, None, 0)
        finally:
            if k.mode != "sym":
                gs.cpp_solve_coef_pqr = real
        k.assume(len(calls) > 0 or k.mode == "sym")
        if k.mode != "sym":
            P, LP = P.toarray(), LP.toarray()
        P12 = perm(pr1) @ perm(pr2)  # columns of X in the order of the factorisation
        order = [int(rnp.argmax(P12[:, q])) for q in range(p)]
        b = [lift(0)] * p
        for q in range(rank):
            b[order[q]] = k.S("c")[q]
        k.ensure_eq("coefficients", coef, np.array(b))
        k.ensure_true("dropped", sorted(int(v) for v in drop) == sorted(order[rank:]) and [int(v) for v in keep] == sorted(order[:rank]))
        k.ensure_eq("predictor", eta, np.array([[sum((k.S("X")[i, q] * b[q] for q in range(1, p)), k.S("X")[i, 0] * b[0])] for i in range(n)]))
        # P' L L' P is the penalized cross product of the kept coefficients, in their original order
        L = [[k.S("R")[i, j] if j >= i else lift(0) for j in range(rank)] for i in range(rank)]
        RtR = mm(tr(L), L)
        pos = {order[q]: q for q in range(rank)}
        ks = sorted(order[:rank])
        k.ensure_eq("factor and permutation describe the kept coefficients", matmul(matmul(lift(P).T, matmul(lift(LP), lift(LP).T)), lift(P)) if k.mode == "sym" else P.T @ (LP @ LP.T) @ P, np.array([[RtR[pos[a]][pos[b_]] for b_ in ks] for a in ks]))

    return c


for pr1, pr2, rk in (([1, 2, 0], [0, 1, 2], 2), ([0, 1, 2], [2, 0, 1], 2), ([1, 0, 2], [0, 2, 1], 1)):
    R.add(f"least-squares:rank={rk},perm={''.join(map(str, pr1))}/{''.join(map(str, pr2))}", functions=[GS + "update_coef"], nsamp=6)(lsq_def(pr1, pr2, rk))


@R.add("least-squares:rank-deficient", symbolic=False, nstand=120, functions=["eigen_solvers.solve_coef_pqr2", MS + "cpp_solve_coef_pqr", GS + "update_coef", GS + "update_coef_and_scale", GS + "update_scale_edf"], why_bounded=BWHY, cbound="random penalized least-squares problems with zero to three exactly unidentifiable coefficients, up to 9 coefficients")
def rankdef(k):
    import scipy.sparse as sp

    rng, gs, ef, ct = k.rng, k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
    p = int(rng.integers(2, 10))
    n = p + int(rng.integers(3, 10))
    X = rng.normal(size=(n, p)) * (rng.random((n, p)) < 0.8) + 0.01
    defi = int(rng.integers(0, 4)) if p > 4 else 0
    m = p - defi
    for j in range(defi):
        X[:, m + j] = X[:, rng.choice(m, size=2, replace=False)] @ rng.uniform(0.5, 1.5, size=2)
    # penalty on some of the first m coefficients only (the deficiency is not removed by it)
    start, size = int(rng.integers(0, m)), 1
    size = int(rng.integers(1, m - start + 1))
    D1 = rng.normal(size=(size, size))
    D_ = rnp.zeros((p, p))
    D_[start : start + size, start : start + size] = D1
    if defi:
        # the dependent columns must not involve penalized ones, else the penalty identifies them
        un = [i for i in range(m) if not start <= i < start + size]
        k.assume(len(un) > 0)
        for j in range(defi):
            X[:, m + j] = X[:, un] @ rng.uniform(0.5, 1.5, size=len(un))
    lam = float(10 ** rng.uniform(-1, 1))
    S = lam * D_ @ D_.T
    y = rng.normal(size=(n, 1))
    k.note("X", X), k.note("S", S), k.note("y", y), k.note("deficiency", defi)
    k.assume(rnp.linalg.cond(X[:, :m]) < 1e4)
    Xs, Ss, root = sp.csc_array(X), sp.csc_array(S), sp.csc_array(rnp.sqrt(lam) * D_)
    t = ct.LambdaTerm(S_J=sp.csc_array(D1 @ D1.T), S_J_emb=sp.csc_array(D_ @ D_.T), D_J_emb=sp.csc_array(D_), rep_sj=1, lam=lam, start_index=start, type=ct.PenType.IDENTITY, rank=size, term=0)
    F = ef.Gaussian()
    lin = bool(rng.integers(2))
    eta, mu, coef, L, Li, lgd, bsb, edf, tedf, Bs, scale, wres, keep, drop = gs.update_coef_and_scale(y, y.flatten(), None, None, n, p, Xs, Xs, None, F, Ss, root, Ss, [True], [t], 1, None, lin, 0)
    A = X.T @ X + S
    k.check("dropped coefficients", len(drop) == defi and sorted([*map(int, keep), *map(int, drop)]) == list(range(p)), (drop, defi))
    if len(drop) != defi:
        return
    kp = rnp.asarray(keep, dtype=int)
    Ak = A[rnp.ix_(kp, kp)]
    b = rnp.zeros(p)
    b[kp] = rnp.linalg.solve(Ak, X[:, kp].T @ y[:, 0])
    sc = max(1.0, rnp.linalg.cond(Ak) * 1e-9)
    k.close("coefficients", coef, b, atol=1e-6 * sc)
    k.close("linear predictor", eta, (X @ b).reshape(-1, 1), atol=1e-6 * sc)
    LL = rnp.zeros((p, p))
    LL[rnp.ix_(kp, kp)] = Ak
    k.close("factor reproduces the penalized cross product of the kept coefficients", dn(L) @ dn(L).T, LL, atol=1e-7 * max(1, abs(A).max()))
    V = rnp.zeros((p, p))
    V[rnp.ix_(kp, kp)] = rnp.linalg.inv(Ak)
    if lin:
        k.close("inverse factor", dn(Li).T @ dn(Li), V, atol=1e-6 * max(1, abs(V).max()))
    k.close("log-determinant derivative", lgd[0], size / lam)
    k.close("coefficient norm", bsb[0], b @ D_ @ D_.T @ b, atol=1e-6 * sc)
    k.close("trace", Bs[0], rnp.trace(V @ D_ @ D_.T), atol=1e-6)
    k.close("total edf", edf, rnp.trace(V @ X.T @ X), atol=1e-6)
    k.close("scale", scale, ((y[:, 0] - X @ b) ** 2).sum() / (n - edf), atol=1e-6)
    k.close("residuals", wres, y - (X @ b).reshape(-1, 1), atol=1e-6 * sc)


@R.add("dropped-terms", functions=[GS + "drop_terms_X"], nsamp=6)
def dropX(k):
    gs = k.mod("gamm_solvers")
    n = 2
    Xs = [k.arr(f"X{i}", (n, q), sp=True) for i, q in enumerate((3, 2, 4))]
    keep = rnp.array([0, 2, 4, 5, 8])
    out, split = gs.drop_terms_X(Xs, keep)
    want = ([0, 2], [1], [0, 3])
    for i, w in enumerate(want):
        k.ensure_eq(f"columns of predictor {i}", out[i] if k.mode == "sym" else dn(out[i]), np.array([[k.S(f"X{i}")[r, q] for q in w] for r in range(n)]))
    k.ensure_true("split points", [int(v) for v in split] == [2, 3])


@R.add("identify-dependent", symbolic=False, nstand=60, timeout=400, functions=[GS + "identify_drop"], why_bounded="rank decisions by pivoted QR and singular vectors", cbound="random Hessians with zero to two exactly unidentifiable coefficients")
def iddrop(k):
    import scipy.sparse as sp

    rng, gs = k.rng, k.mod("gamm_solvers")
    p = int(rng.integers(5, 12))
    defi = int(rng.integers(0, 3))
    m = p - defi
    X = rng.normal(size=(3 * p, m))
    X = rnp.hstack([X, X @ rng.normal(size=(m, defi))])[:, rng.permutation(p)]
    H = -X.T @ X
    meth = rng.choice(["QR", "LU", "Direct"])
    k.note("H", H), k.note("method", str(meth))
    S = sp.csc_array(rnp.zeros((p, p)))
    with rwarn.catch_warnings():
        rwarn.simplefilter("ignore")
        try:
            keep, drop = gs.identify_drop(sp.csc_array(H), S, method=str(meth))
        except RuntimeError:
            k.assume(meth != "LU")  # SuperLU refuses exactly singular matrices
            raise
    keep, drop = [int(v) for v in keep], [int(v) for v in drop]
    k.check("kept and dropped coefficients partition all of them", sorted(keep + drop) == list(range(p)) and keep == sorted(keep) and drop == sorted(drop))
    if meth == "QR" or defi == 0:
        k.check("number dropped", len(drop) == defi, (drop, defi))
    if len(drop) == defi:
        k.check("kept part is positive definite", rnp.linalg.matrix_rank(X[:, keep], tol=1e-7) == m)


# ---------------------------------------------------------------- proved: step control of general models
class GenFam:
    """any family of general smooth models: its log-likelihood is an arbitrary number at every point"""

    def __init__(self, vals, extra=None):
        self.vals, self.calls, self.extra_coef = vals, [], extra

    def llk(self, coef, split, ys, Xs):
        self.calls.append((coef, list(split), ys, Xs))
        return self.vals(len(self.calls) - 1)


def halving_gen(nh):
    def c(k):
        gs = k.mod("gamm_solvers")
        p = 3
        coef, nxt = k.arr("coef", (p, 1)), k.arr("next", (p, 1))
        S = k.arr("S", (p, p), sp=True)
        llk0, a = k.scalar("llk0"), k.scalar("a", "pos")
        cs, ns, Ss = k.S("coef"), k.S("next"), k.S("S")
        quad = lambda v: sum((v[i, 0] * Ss[i, j] * v[j, 0] for i in range(p) for j in range(p)), lift(0))
        at = lambda j: cs + (ns - cs) / fr(2.0**j) if j < 32 else cs
        prev = k.S("llk0") - quad(cs) / 2
        [k.scalar(f"gap{j}", "pos") for j in range(min(nh, 2))]
        k.scalar("up", "pos")

        def val(j):
            base = prev + quad(at(j)) / 2
            return base - k.S(f"gap{j % 2 if nh > 1 else 0}") if j < nh else base + (k.S("up") if nh < 32 else lift(0))

        fam = GenFam(val if k.mode == "sym" else (lambda j: float(evalT(lift(val(j)), k.env))))
        c_, ll, pen, a2 = gs.correct_coef_step_gen_smooth(fam, "ys", "Xs", coef, nxt, [2], llk0, S, a)
        want = at(nh)
        tol = dict(rtol=1e-6, atol=1e-7)
        k.ensure_eq("accepted coefficients lie on the proposed step, halved until the criterion does not decrease", c_, want, **tol)
        k.ensure_eq("log-likelihood of the accepted coefficients", ll, val(nh), **tol)
        k.ensure_eq("penalized log-likelihood of the accepted coefficients", pen, lift(val(nh)) - quad(want) / 2, shape=False, **tol)
        k.ensure_true("likelihood of the same data", all(q[1] == [2] and q[2] == "ys" and q[3] == "Xs" for q in fam.calls))
        k.ensure_eq("likelihood of the accepted coefficients is evaluated", fam.calls[-1][0], want, **tol)
        sa = k.S("a")
        k.ensure_eq("step length", a2, np.where(sa > 1e-9, sa / 2, sa) if nh else np.where(sa < 1, sa * 2, sa))

    return c


for nh in (0, 1, 2, 32):
    R.add(f"step-control:general,halvings={nh}", functions=[GS + "correct_coef_step_gen_smooth"], nsamp=6)(halving_gen(nh))


def armijo(nh):
    """back-tracking of a minimiser: nh halvings are rejected"""

    def c(k):
        gs = k.mod("gamm_solvers")
        p = 2
        coef, step = k.arr("coef", (p, 1)), k.arr("step", (p, 1))
        g = k.arr("g", (p,))
        amax = k.scalar("amax", "pos")
        f0 = k.arr("f0", (1, 1))
        [k.scalar(f"gap{j}", "pos") for j in range(max(nh, 1))]
        k.scalar("down", "nonneg")
        slope = sum((k.S("g")[i] * k.S("step")[i, 0] for i in range(p)), lift(0))
        al = lambda j: k.S("amax") / fr(2.0**j)
        c1 = lift(1) / 10000
        bound = lambda j: k.S("f0")[0, 0] + al(j) * c1 * slope
        ev = (lambda t: np.array([[t]])) if k.mode == "sym" else (lambda t: rnp.array([[float(evalT(lift(t), k.env))]]))
        seen = []

        def fun(x, tok):
            seen.append((x, tok))
            j = len(seen) - 2
            if j < 0:
                return f0
            return ev(bound(j) + k.S(f"gap{j}") if j < nh else bound(j) - k.S("down"))

        out = gs.back_track_alpha(coef, step, fun, lambda x, tok: g, "tok", alpha_max=amax, max_iter=4)
        if nh >= 4:
            k.ensure_true("no step is accepted", out is None)
            return
        k.ensure_eq("first step length that decreases the objective sufficiently", out, al(nh))
        for j, (x, tok) in enumerate(seen):
            k.ensure_eq(f"evaluation {j}", x, np.array([k.S("coef")[i, 0] + (al(j - 1) * k.S("step")[i, 0] if j else lift(0)) for i in range(p)]))
            k.ensure_true("arguments are passed on", tok == "tok")

    return c


for nh in (0, 1, 3, 4):
    R.add(f"step-control:back-tracking,halvings={nh}", functions=[GS + "back_track_alpha"], nsamp=6)(armijo(nh))


# ---------------------------------------------------------------- proved: dropping coefficients of models with several predictors
def dropped(gen, check, extra=0, npar=2):
    def c(k):
        gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
        n, ps = 2, (3, 2)[:npar]
        P = sum(ps) + extra
        keep = rnp.array(([0, 2, 3] if npar == 2 else [0, 2]) + [sum(ps) + q for q in range(extra)])
        Xs = [k.arr(f"X{i}", (n, q), sp=True) for i, q in enumerate(ps)]
        coef, S = k.arr("coef", (P, 1)), k.arr("S", (P, P), sp=True)
        y = k.arr("y", (n, 1))
        k.scalar("llk")
        lk = lambda j: k.S("llk") if k.mode == "sym" else rnp.float64(k.env["llk"])
        kp = [int(q) for q in keep]
        want = np.array([[k.S("coef")[q, 0]] for q in kp])
        Sk = np.array([[k.S("S")[a, b] for b in kp] for a in kp])
        cols = [[0, 2], [0]][:npar]
        m = len(kp)
        pen = k.S("llk") - sum((k.S("coef")[a, 0] * k.S("S")[a, b] * k.S("coef")[b, 0] for a in kp for b in kp), lift(0)) / 2
        val = (lambda x: x) if k.mode == "sym" else dn
        if gen:
            fam = GenFam(lk, extra or None)
            split = [2] if npar == 1 else ([2, 3] if extra else [2])
            if check:
                ok, pl = gs.check_drop_valid_gensmooth("ys", coef, Xs, S, keep, fam)
            else:
                c2, sp2, X2, S2, ll, pl = gs.handle_drop_gsmm(fam, "ys", coef, keep, Xs, S)
                k.ensure_true("split points", [int(q) for q in sp2] == split)
            fc, fsp, fy, fX = fam.calls[-1]
            k.ensure_true("data", fy == "ys" and [int(q) for q in fsp] == split)
            k.ensure_eq("likelihood of the kept coefficients", fc, want)
            for i, w in enumerate(cols):
                k.ensure_eq(f"likelihood uses the kept columns of predictor {i}", val(fX[i]), np.array([[k.S(f"X{i}")[r, q] for q in w] for r in range(n)]))
        else:
            fam = StepFam(k, [ef.Identity(), ef.LOG()], lk)
            if check:
                ok, pl = gs.check_drop_valid_gammlss(y, coef, [3], Xs, S, keep, fam)
            else:
                c2, spl, sp2, X2, S2, etas, mus, ll, pl = gs.handle_drop_gammlss(fam, y, coef, keep, Xs, S)
                k.ensure_true("split points", [int(q) for q in sp2] == [2])
            et = [sum_cols(k, i, cols[i], [0, 3][i], n) for i in (0, 1)]
            mu = [et[0], exp(et[1])]
            fy, fm = fam.calls[-1]
            k.ensure_eq("likelihood of the same responses", fy, k.S("y"))
            for i in (0, 1):
                k.ensure_eq(f"likelihood uses mean {i} of the kept coefficients", fm[i], mu[i])
                if not check:
                    k.ensure_eq(f"predictor {i}", etas[i], et[i])
                    k.ensure_eq(f"mean {i}", mus[i], mu[i])
                    k.ensure_eq(f"coefficients of predictor {i}", spl[i], want[: 2, :] if i == 0 else want[2:, :])
        k.ensure_eq("penalized log-likelihood", pl, pen, shape=False)
        if check:
            k.ensure_true("a finite likelihood is valid", ok is True or ok == True)  # noqa: E712
        else:
            k.ensure_eq("kept coefficients", c2, want)
            k.ensure_eq("kept part of the penalty", val(S2), Sk)
            k.ensure_eq("log-likelihood", ll, k.S("llk"))
            for i, w in enumerate(cols):
                k.ensure_eq(f"columns of predictor {i}", val(X2[i]), np.array([[k.S(f"X{i}")[r, q] for q in w] for r in range(n)]))

    return c


def sum_cols(k, i, cols, off, n):
    return np.array([[sum((k.S(f"X{i}")[r, q] * k.S("coef")[off + q, 0] for q in cols), lift(0))] for r in range(n)])


for gen_, chk_, ex_, np_ in ((False, False, 0, 2), (False, True, 0, 2), (True, False, 0, 2), (True, True, 0, 2), (True, False, 2, 2), (True, True, 2, 2), (True, False, 1, 1), (True, True, 1, 1)):
    R.add(f"drop:{'general' if gen_ else 'gammlss'},{'validity' if chk_ else 'reduced'},extra={ex_},predictors={np_}", functions=[GS + ("check_drop_valid_gensmooth" if gen_ else "check_drop_valid_gammlss") if chk_ else GS + ("handle_drop_gsmm" if gen_ else "handle_drop_gammlss"), GS + "drop_terms_X"], nsamp=6)(dropped(gen_, chk_, ex_, np_))


# ---------------------------------------------------------------- proved: restarts
def restart(gen):
    def c(k):
        gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
        n, ps = 2, (2, 1)
        P = sum(ps)
        Xs = [k.arr(f"X{i}", (n, q), sp=True) for i, q in enumerate(ps)]
        coef, S = k.arr("coef", (P, 1)), k.arr("S", (P, P), sp=True)
        y = k.arr("y", (n, 1))
        k.scalar("llk")
        k.arr("z", (P,))
        lk = lambda j: k.S("llk") if k.mode == "sym" else rnp.float64(k.env["llk"])
        rv = lambda size=None, random_state=None, **kw: (k.S("z") if k.mode == "sym" else k.env["z"].copy()) if size == P else k.nostub("other draws")
        st = k.patch(gs, "scp.stats.norm.rvs", rv)
        want = (k.S("coef") + np.array([[k.S("z")[i]] for i in range(P)])) / 2
        pen = k.S("llk") - sum((want[a, 0] * k.S("S")[a, b] * want[b, 0] for a in range(P) for b in range(P)), lift(0)) / 2
        if gen:
            fam = GenFam(lk)
            c2, ll, pl = gs.restart_coef(coef, 0.0, 0.0, P, [2], "ys", "Xs", S, fam, 3, 0)
            fc, fsp, fy, fX = fam.calls[-1]
            k.ensure_true("likelihood of the same data", fy == "ys" and fX == "Xs" and list(fsp) == [2])
            k.ensure_eq("likelihood of the returned coefficients", fc, want)
        else:
            fam = StepFam(k, [ef.Identity(), ef.LOG()], lk)
            c2, spl, ll, pl, etas, mus = gs.restart_coef_gammlss(coef, None, 0.0, 0.0, None, None, P, [2], y, Xs, S, fam, 3, 0)
            for i, (lo, hi) in enumerate(((0, 2), (2, 3))):
                et = matmul(k.S(f"X{i}"), want[lo:hi, :])
                k.ensure_eq(f"predictor {i}", etas[i], et)
                k.ensure_eq(f"mean {i}", mus[i], exp(et) if i else et)
                k.ensure_eq(f"coefficients {i}", spl[i], want[lo:hi, :])
                k.ensure_eq(f"likelihood of mean {i}", fam.calls[-1][1][i], exp(et) if i else et)
        k.used(st)
        k.ensure_eq("coefficients half way to a random point", c2, want)
        k.ensure_eq("log-likelihood", ll, k.S("llk"))
        k.ensure_eq("penalized log-likelihood", pl, pen, shape=False)

    return c


for gen_ in (False, True):
    R.add(f"restart:{'general' if gen_ else 'gammlss'}", functions=[GS + ("restart_coef" if gen_ else "restart_coef_gammlss")], nsamp=6)(restart(gen_))


# ---------------------------------------------------------------- bounded: the whole coefficient update
@R.add("coefficient-update:gammlss", symbolic=False, nstand=25, timeout=300, functions=[GS + "update_coef_gammlss", GS + "handle_drop_gammlss", GS + "newton_coef_smooth", GS + "correct_coef_step_gammlss"], why_bounded="iterates to convergence", cbound="Gaussian and Gamma location-scale models with up to 8 coefficients, zero to two unidentifiable ones, known or to be found")
def ucg(k):
    import scipy.sparse as sp

    rng, gs, ef, ct = k.rng, k.mod("gamm_solvers"), k.mod("exp_fam"), k.mod("custom_types")
    n = int(rng.integers(60, 120))
    fam = ef.GAUMLSS([ef.Identity(), ef.LOG()]) if rng.integers(2) else ef.GAMMALS([ef.LOG(), ef.LOGb(-0.01)])
    ps = [int(rng.integers(2, 5)), int(rng.integers(1, 4))]
    Xs = [rnp.hstack([rnp.ones((n, 1)), 0.7 * rng.uniform(-1, 1, size=(n, q - 1))]) for q in ps]
    defi = int(rng.integers(0, 3))
    dp = [i for i in range(2) if defi > i]
    for i in dp:
        Xs[i] = rnp.hstack([Xs[i], Xs[i][:, [0]] * rng.uniform(0.5, 2) - Xs[i][:, [-1]]])[:, rng.permutation(Xs[i].shape[1] + 1)]
    qs = [X.shape[1] for X in Xs]
    P = sum(qs)
    b0 = [0.3 * rng.normal(size=(q, 1)) for q in qs]
    e0, e1 = (X @ b for X, b in zip(Xs, b0))
    y = e0 + rnp.exp(e1) * rng.normal(size=(n, 1)) if isinstance(fam, ef.GAUMLSS) else rng.gamma(2, rnp.exp(e0) / 2)
    # penalize one coefficient when all are identifiable
    S = rnp.zeros((P, P))
    pens = None
    if defi == 0:
        j = int(rng.integers(P))
        S[j, j] = 10 ** rng.uniform(-1, 1)
    known = defi > 0 and bool(rng.integers(2))
    keep = None
    if known:
        keep, off = [], 0
        for i, X in enumerate(Xs):
            cols, cur = [], []
            for q in range(X.shape[1]):
                if rnp.linalg.matrix_rank(X[:, cur + [q]]) == len(cur) + 1:
                    cur.append(q)
            keep += [off + q for q in cur]
            off += X.shape[1]
    drop = None if keep is None else rnp.array([q for q in range(P) if q not in keep])
    init = [rnp.zeros((q, 1)) for q in qs]
    if isinstance(fam, ef.GAMMALS):
        k.note("family", "GAMMALS")
    coef = rnp.concatenate(init)
    etas = [rnp.zeros((n, 1))] * 2
    mus = [fam.links[i].fi(etas[i]) for i in range(2)]
    ll0 = fam.llk(y, *mus)
    meth = "QR/Chol" if defi and not known else str(rng.choice(["QR/Chol", "Chol"]))
    k.note("known", known), k.note("defi", defi), k.note("method", meth), k.note("X", [X.tolist() for X in Xs]), k.note("y", y.tolist())
    sX = [sp.csc_array(X) for X in Xs]
    Ss = sp.csc_array(S)
    fc, spl, mus, etas, H, L, LV, ll, pl, eps, kp, dr = gs.update_coef_gammlss(fam, mus, y, sX, coef, [qs[0]], Ss, Ss, None, None, None, ll0, 0, 500, 500, 1e-9, meth, 0.2, 1, None if keep is None else (rnp.array(keep), drop))
    k.assume(rnp.isfinite(fc).all() and float(rnp.asarray(pl).ravel()[0]) > -1e6)
    if known:
        k.check("known dropped coefficients are reported", sorted(map(int, kp)) == keep)
    nd = 0 if dr is None else len(dr)
    k.check("unidentifiable coefficients are dropped", nd == defi, (nd, defi))
    if nd != defi:
        return
    kk = rnp.arange(P) if kp is None else rnp.asarray(kp)
    dd_ = [q for q in range(P) if q not in kk]
    k.check("dropped coefficients are zero", rnp.all(fc[dd_] == 0))
    bs = rnp.split(fc, [qs[0]])
    for i in range(2):
        k.close("split coefficients", spl[i], bs[i])
        k.close("predictor", etas[i], Xs[i] @ bs[i], atol=1e-8)
        k.close("mean", mus[i], fam.links[i].fi(Xs[i] @ bs[i]), atol=1e-8)
    m_ = [fam.links[i].fi(Xs[i] @ bs[i]) for i in range(2)]
    k.close("log-likelihood", ll, fam.llk(y, *m_), atol=1e-8)
    k.close("penalized log-likelihood", rnp.asarray(pl).ravel()[0], fam.llk(y, *m_) - 0.5 * (fc.T @ S @ fc)[0, 0], atol=1e-8)
    fun = lambda b: fam.llk(y, *[fam.links[i].fi(Xs[i] @ q) for i, q in enumerate(rnp.split(b.reshape(-1, 1), [qs[0]]))]) - 0.5 * b @ S @ b
    x = fc.flatten()
    g = rnp.array([(fun(x + 1e-5 * e) - fun(x - 1e-5 * e)) / 2e-5 for e in rnp.eye(P)])
    sc = rnp.sqrt(abs(float(ll)) + 1)
    k.check("gradient of the penalized likelihood vanishes", rnp.abs(g[kk]).max() < 0.02 * sc, g)
    A = -dn(H) + S
    for q in dd_:
        k.check("no curvature of dropped coefficients", rnp.all(dn(H)[q] == 0) and rnp.all(dn(LV)[:, q] == 0))
    if eps == 0:
        Ak = A[rnp.ix_(kk, kk)]
        k.close("inverse of the penalized Hessian", dn(LV.T @ LV)[rnp.ix_(kk, kk)] @ Ak, rnp.eye(len(kk)), atol=1e-5)
        k.close("factor of the penalized Hessian", dn(L)[rnp.ix_(kk, kk)] @ dn(L)[rnp.ix_(kk, kk)].T, Ak, atol=1e-6 * max(1, abs(Ak).max()))
