"""C10: penalties."""
from .common import *
from . import fkit
import scipy as rscp

R = Registry("C10")
R.exts = ("eigen_solvers",)


def mk(k, na=False, **kw):
    rng = k.rng
    df, n_per = fkit.data(rng)
    descr = fkit.rand_formula(rng, **kw)
    return df, n_per, descr


@R.add("formula-penalties", symbolic=False, nstand=120, timeout=600, functions=["formula.build_penalties", "terms.f.build_penalty", "terms.fs.build_penalty", "terms.irf.build_penalty", "terms.ri.build_penalty", "terms.rs.build_penalty", "penalties.TP_pen", "penalties.adjust_pen_drop", "penalties.embed_in_S_sparse", "penalties.embed_in_Sj_sparse"], why_bounded="eigen-decompositions and compiled rank detection", cbound="random formulas over the whole term grammar, 60-90 rows")
def formula_penalties(k):
    df, n_per, descr = mk(k)
    c = fkit.Case(k, descr, df, n_per)
    check_pens(k, c)


def check_pens(k, c):
    exp = c.expected_penalties()
    P = c.pens
    k.assume(all(M.size > 0 for _, _, M, _ in exp))  # a term nested in others completely is not supported
    k.check("number of coefficients", c.F.n_coef == c.ncoef, (c.F.n_coef, c.ncoef))
    k.check("number of penalties", len(P) == len(exp), (len(P), [e[:2] + (e[3],) for e in exp]))
    if k.fails:
        return
    for q, (p, (ti, s, M, tn)) in enumerate(zip(P, exp)):
        lab = f"penalty {q} (term {ti}, {tn})"
        full = rnp.zeros((c.ncoef, c.ncoef))
        full[s : s + len(M), s : s + len(M)] = M
        sc = max(1.0, abs(M).max())
        k.check(lab + ": term", p.term == ti, p.term)
        k.check(lab + ": type", p.type.name == tn, p.type)
        k.check(lab + ": first coefficient", int(p.start_index) == s, (p.start_index, s))
        k.close(lab + ": embedded matrix", p.S_J_emb.toarray() / sc, full / sc, atol=2e-5)
        k.close(lab + ": root reproduces the matrix", (p.D_J_emb @ p.D_J_emb.T).toarray() / sc, full / sc, atol=2e-5)
        own = sl_block(p.S_J.toarray(), p.rep_sj)
        k.check(lab + ": block size", own.shape == M.shape, (own.shape, M.shape))
        if own.shape == M.shape:
            k.close(lab + ": own block", own / sc, M / sc, atol=2e-5)
        ev = rnp.linalg.eigvalsh(M) / sc
        lo, hi = int((ev > 1e-6).sum()), int((ev > 1e-13).sum())  # eigenvalues in between are numerically undecided
        k.check(lab + ": rank", lo <= int(p.rank) <= hi, (p.rank, ev))


def sl_block(S, rep):
    return rnp.kron(rnp.eye(int(rep)), S)


# ---------------------------------------------------------------- proved: marginal penalties for every basis size
class Trip:
    """result of the callee contract of translate_sparse: triplets denoting the matrix M"""

    def __init__(self, M):
        self.M = M


def trip_mod(k):
    pen = k.mod("penalties")
    if k.mode == "sym":
        pen.translate_sparse = lambda M: (Trip(M), None, None)
    return pen


def dense(k, tr, shape):
    if isinstance(tr[0], Trip):
        return tr[0].M
    return rscp.sparse.csc_array((rnp.array(tr[0]), (rnp.array(tr[1]), rnp.array(tr[2]))), shape=shape).toarray()


def bin_diff(nE, m):
    """m-th order difference operator: entry (i,j) is (-1)^(m-q) C(m,q) where i = j+q"""
    from math import comb

    def f(i, j):
        r = ZERO
        for q in range(m + 1):
            r = X.add(r, ite(X.eq(i, X.add(j, const(q))), const((-1) ** (m - q) * comb(m, q)), ZERO))
        return r

    return T((nE, X.sub(nE, const(m))), f)


def diffpen(m, con):
    def c(k):
        pen, ct = trip_mod(k), k.mod("custom_types")
        n = k.dim("n", lo=m + 2, choices=(m + 2, m + 3, 7, 9))
        nE = dimE(k.S("n"))
        D = bin_diff(nE, m)
        C, W = None, None
        if con == "QR":
            Z = k.arr("Z", ("n", X.sub(nE, ONE)))
            C = ct.Constraint(Z, ct.ConstType.QR)
            SS = matmul(matmul(k.S("Z").T, matmul(D, D.T)), k.S("Z"))
            D = matmul(k.S("Z").T, D)
        elif con in ("DROP", "DIFF"):
            z = k.index("z", "n")
            C = ct.Constraint(z, getattr(ct.ConstType, con))
            zE = k.S("z").scalarE()
            f = D.fn_frozen()
            if con == "DROP":
                D = T((X.sub(nE, ONE), D.shape_[1]), lambda i, j: f(ite(lt(i, zE), i, X.add(i, ONE)), j))
            else:
                # recoded column i is x_i - x_{i-1} (cyclically) before the cut and x_{i+1} - x_i from it on
                D = T((X.sub(nE, ONE), D.shape_[1]), lambda i, j: ite(lt(i, zE), X.sub(f(i, j), f(ite(X.eq(i, ZERO), X.sub(nE, ONE), X.sub(i, ONE)), j)), X.sub(f(X.add(i, ONE), j), f(i, j))))
        r = pen.DifferencePenalty().constructor(n, C, m=m)
        cols = n if con is None else n - 1
        S_ = dense(k, r[:3], (cols, cols))
        k.ensure_eq("root", dense(k, r[3:6], (cols, n - m)), D)
        k.ensure_eq("matrix is root times its transpose", S_, matmul(D, D.T) if con != "QR" else SS)
        k.ensure_eq("rank", r[6], k.S("n") - m)

    return c


for m in (1, 2, 3):
    for con in (None, "QR", "DROP"):
        R.add(f"DifferencePenalty:m={m},{con}", functions=["penalties.DifferencePenalty.constructor"], nsamp=8)(diffpen(m, con))


@R.add("DifferencePenalty:DIFF", symbolic=False, nstand=60, functions=["penalties.DifferencePenalty.constructor"], why_bounded="the symbolic cut position splits the sums", cbound="bases of 4..14 functions, every order and cut, drawn at random")
def diffpen_diff(k):
    pen, ct = k.mod("penalties"), k.mod("custom_types")
    n = int(k.rng.integers(4, 15))
    m = int(k.rng.integers(1, min(4, n - 1)))
    z = int(k.rng.integers(0, n))
    k.note("n,m,z", (n, m, z))
    r = pen.DifferencePenalty().constructor(n, ct.Constraint(z, ct.ConstType.DIFF), m=m)
    W = fkit.diffmat(n, z)
    D = rnp.diff(rnp.eye(n), m)
    k.close("matrix", dense(k, r[:3], (n - 1, n - 1)), W.T @ D @ D.T @ W)
    L = dense(k, r[3:6], (n - 1, n - m))
    k.close("root", L @ L.T, W.T @ D @ D.T @ W)
    k.check("rank", r[6] == rnp.linalg.matrix_rank(W.T @ D), r[6])


def identpen(n, con):
    def c(k):
        pen, ct = k.mod("penalties"), k.mod("custom_types")
        w = k.arr("w", (n,), "pos")
        C = ct.Constraint(0, ct.ConstType.DROP) if con else None
        p = n - 1 if con else n
        ws = [k.S("w")[q] for q in range(p)]
        for f in (None, lambda q: w[q - 1]):
            for ty in ("IDENTITY", "DISTANCE"):
                o = pen.IdentityPenalty(getattr(ct.PenType, ty))
                d, r_, c_, ld, lr, lc, rank = o.constructor(n, C, f=f)
                lab = f"{ty}, weights {'given' if f else 'one'}: "
                k.ensure_true(lab + "diagonal positions", [int(v) for v in r_] == list(range(p)) and [int(v) for v in c_] == list(range(p)) and [int(v) for v in lr] == list(range(p)) and [int(v) for v in lc] == list(range(p)))
                for q in range(p):
                    e = ws[q] if f else lift(1)
                    k.ensure_eq(lab + f"element {q}", d[q], e)
                    k.ensure_eq(lab + f"root {q}", ld[q] * ld[q], e)
                k.ensure_true(lab + "rank", rank == p)
                k.ensure_true(lab + "type", o.type == getattr(ct.PenType, ty))

    return c


for n, con in ((2, False), (4, False), (4, True)):
    R.add(f"IdentityPenalty:n={n}{',constrained' if con else ''}", functions=["penalties.IdentityPenalty.constructor"], nsamp=6)(identpen(n, con))


def triplets(M):
    """callee contract of translate_sparse: the entries of M with their positions"""
    r, c = M.shape_[0].args[0], M.shape_[1].args[0]
    ij = [(i, j) for j in range(int(c)) for i in range(int(r))]
    return [M[i, j] for i, j in ij], [i for i, _ in ij], [j for _, j in ij]


def from_triplets(tr, shape):
    if anysym(tr[0]):
        out = [[lift(0) for _ in range(shape[1])] for _ in range(shape[0])]
        for d, i, j in zip(*tr):
            out[int(i)][int(j)] = out[int(i)][int(j)] + d
        return np.array(out)
    return rscp.sparse.csc_array((rnp.array(tr[0]), (rnp.array(tr[1]), rnp.array(tr[2]))), shape=shape).toarray()


def anysym(xs):
    return any(isinstance(v, T) for v in xs)


def tppen(ks, j, con, scale):
    nt = int(rnp.prod(ks))

    def c(k):
        pen, ct = k.mod("penalties"), k.mod("custom_types")
        kj = ks[j]
        L = k.arr("L", (kj, kj - 1), sp=True, frame=False)
        Ls = k.S("L")
        lam = lift(1)
        if k.mode == "sym":
            pen.translate_sparse = triplets
            S = matmul(Ls, Ls.T)
            S.sp = True
            if scale:
                lam = k.scalar("lam", "pos")  # contract of eigh: the last eigenvalue is the largest
                pen.scp = EighWorld(lambda A: ([None] * (kj - 1) + [lam], None))
        else:
            S = L @ L.T
            if scale:
                lam = lift(float(rnp.linalg.eigvalsh(S.toarray())[-1]))
                k.env["lam"] = 0
        C, p = None, nt
        W = np.eye(nt)
        if con == "QR":
            Z = k.arr("Z", (nt, nt - 1))
            C, p, W = ct.Constraint(Z, ct.ConstType.QR), nt - 1, k.S("Z")
        elif con is not None:
            z = nt // 2
            C, p = ct.Constraint(z, getattr(ct.ConstType, con)), nt - 1
            W = lift(rnp.delete(rnp.eye(nt), z, axis=1) if con == "DROP" else fkit.diffmat(nt, z))
        Sm, Lm = lift(rnp.eye(1)), lift(rnp.eye(1))
        for q, kq in enumerate(ks):
            Sm = np.kron(lift(Sm), matmul(Ls, Ls.T) / lam if q == j else lift(rnp.eye(kq)))
            Lm = np.kron(lift(Lm), Ls / np.sqrt(lam) if q == j else lift(rnp.eye(kq)))
        r = pen.TP_pen(S, L, j, list(ks), C, scale)
        k.ensure_eq("matrix", from_triplets(r[:3], (p, p)), matmul(matmul(W.T, Sm), W) if con else Sm, rtol=1e-5)
        ncol = (nt // kj) * (kj - 1)
        k.ensure_eq("root", from_triplets(r[3:6], (p, ncol)), matmul(W.T, Lm) if con else Lm, rtol=1e-5)

    return c


class EighWorld:
    """scipy with a contract in place of scipy.linalg.eigh"""

    def __init__(self, eigh):
        self.linalg = self
        self.eigh = eigh
        self.sparse = scp.sparse


for ks, j, con, scale in (((2, 3), 0, None, False), ((2, 3), 1, None, False), ((3, 2), 0, None, True), ((3, 3), 1, None, True), ((2, 2, 2), 1, None, True), ((2, 2, 3), 2, None, False), ((2, 2), 0, "QR", False), ((2, 2), 1, "QR", True), ((2, 3), 1, "DROP", True), ((3, 2), 0, "DROP", False), ((3, 2), 0, "DIFF", True), ((2, 3), 1, "DIFF", False)):
    R.add(f"TP_pen:{'x'.join(map(str, ks))},marginal={j},{con},scale={scale}", functions=["penalties.TP_pen"], nsamp=6)(tppen(ks, j, con, scale))


def blocks(k, n, name):
    """all entries of a symbolic n x n matrix as triplets in column order"""
    A = k.arr(name, (n, n), frame=False)
    ij = [(i, j) for j in range(n) for i in range(n)]
    return [A[i, j] for i, j in ij], [i for i, _ in ij], [j for _, j in ij], k.S(name)


@R.add("embedding", functions=["penalties.embed_in_S_sparse", "penalties.embed_in_Sj_sparse"], nsamp=6)
def embedding(k):
    pen = k.mod("penalties")
    d1, r1, c1, A = blocks(k, 2, "A")
    d2, r2, c2, B = blocks(k, 3, "B")
    N_ = 8
    td = lambda M: M if isinstance(M, T) else M.toarray()
    for s0 in (0, 1, 3):
        S1, ci = pen.embed_in_S_sparse(list(d1), list(r1), list(c1), None, N_, 2, s0)
        k.ensure_true(f"start {s0}: next free index", int(ci) == s0 + 2)
        M1 = place(N_, [(A, s0, 2)])
        k.ensure_eq(f"start {s0}: one block", td(S1), M1)
        S2, ci = pen.embed_in_S_sparse(list(d2), list(r2), list(c2), S1, N_, 3, ci)
        k.ensure_true(f"start {s0}: index after second block", int(ci) == s0 + 5)
        k.ensure_eq(f"start {s0}: second block behind the first", td(S2), place(N_, [(A, s0, 2), (B, s0 + 2, 3)]))
    J = pen.embed_in_Sj_sparse(list(d2), list(r2), list(c2), None, 3)
    k.ensure_eq("own block", td(J), B)
    J = pen.embed_in_Sj_sparse(list(d1), list(r1), list(c1), J, 3)
    k.ensure_eq("own block, accumulated", td(J), B + place(3, [(A, 0, 2)]))


def place(n, bl):
    out = [[lift(0) for _ in range(n)] for _ in range(n)]
    for M, s, m in bl:
        for i in range(m):
            for j in range(m):
                out[s + i][s + j] = out[s + i][s + j] + M[i, j]
    return np.array(out)


@R.add("dropped coefficients", functions=["penalties.adjust_pen_drop"], nsamp=6)
def dropping(k):
    pen = k.mod("penalties")
    n = 4
    d, r, c, A = blocks(k, n, "A")
    for off in (0, 4):
        for drop in ([], [0], [3], [1, 2], [0, 1, 3], [2, 9], [9], [6, 1], [5], [4, 7], [3, 4, 5, 8]):
            own = sorted(v - off for v in drop if off <= v < off + n)
            dd, rr, cc, nd = pen.adjust_pen_drop(list(d), list(r), list(c), list(drop), offset=off)
            lab = f"drop {drop}, offset {off}: "
            k.ensure_true(lab + "number dropped", int(nd) == len(own))
            keep = [q for q in range(n) if q not in own]
            k.ensure_eq(lab + "remaining rows and columns", from_triplets((dd, rr, cc), (len(keep),) * 2), np.array([[A[i, j] for j in keep] for i in keep]))
