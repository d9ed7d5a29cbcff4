"""C19: restricted likelihood and stabilising re-parameterisations."""
from .common import *
from .C11 import placeN
import copy as rcopy
import math as rmath

R = Registry("C19")
R.exts = ("eigen_solvers",)
RP, UT = "repara.", "utils."


def dn(M):
    return M.toarray() if hasattr(M, "toarray") else rnp.asarray(M)


# ---------------------------------------------------------------- random systems of penalties
def rpsd(rng, m, r, basis=None):
    """positive semi-definite of rank r; eigenvalues well away from zero"""
    B = rnp.linalg.qr(rng.normal(size=(m, m)))[0] if basis is None else basis
    pick = rng.permutation(m)[:r]
    return (B[:, pick] * rng.uniform(0.5, 2, r)) @ B[:, pick].T


def root(S):
    w, U = rnp.linalg.eigh(S)
    w[w < 1e-10 * w.max()] = 0
    return U * rnp.sqrt(w)


class Sys:
    """groups of penalties of one term each, with gaps of unpenalized coefficients, several predictors and shared parameters"""

    def __init__(s, k, gaps=True, npar=None):
        import scipy.sparse as sp

        rng, ct, pen = k.rng, k.mod("custom_types"), k.mod("penalties")
        s.npar = int(rng.integers(1, 4)) if npar is None else npar
        s.groups, s.dist, s.up = [], [], []
        pos = 0
        for d in range(s.npar):
            lead = int(rng.integers(0, 3))
            s.up.append(lead)
            p0 = pos
            pos += lead
            for _ in range(int(rng.integers(0 if d else 1, 3))):
                if gaps and rng.random() < 0.3:
                    g = int(rng.integers(1, 3))
                    pos += g
                    s.up[-1] += g
                m, rep = int(rng.integers(2, 5)), int(rng.choice([1, 1, 2, 3]))
                basis = rnp.linalg.qr(rng.normal(size=(m, m)))[0] if rng.random() < 0.5 else None
                nS = int(rng.choice([1, 1, 2, 2, 3]))
                mats = [rpsd(rng, m, int(rng.integers(1, m + 1)), basis) for _ in range(nS)]
                s.groups.append(dict(d=d, start=pos, m=m, rep=rep, mats=mats, rank=rnp.linalg.matrix_rank(sum(mats), tol=1e-8)))
                pos += m * rep
            if pos == p0:
                pos += 1
                s.up[-1] += 1
            s.dist.append(pos - p0)
        s.N = pos
        s.lams, P, s.mats = [], [], []
        for gi, g in enumerate(s.groups):
            for S in g["mats"]:
                lam = float(rnp.exp(rng.uniform(-4, 4)))
                D = root(S)
                E_, DE = placeN(S, s.N, g["start"], g["rep"]), placeN(D, s.N, g["start"], g["rep"])
                P.append(ct.LambdaTerm(S_J=sp.csc_array(S), S_J_emb=sp.csc_array(E_), D_J_emb=sp.csc_array(DE), rep_sj=g["rep"], lam=lam, start_index=g["start"], type=ct.PenType.CUSTOM, rank=int(rnp.linalg.matrix_rank(S, tol=1e-8)) * g["rep"], term=gi, dist_param=g["d"]))
                s.lams.append(lam)
                s.mats.append(E_)
        # a shared smoothing parameter of two single-penalty terms
        single = [q for q, p in enumerate(P) if len(s.groups[p.term]["mats"]) == 1]
        if len(single) > 1 and rng.random() < 0.4:
            for q in single[:2]:
                P[q].id = 7
                P[q].lam = P[single[0]].lam
                s.lams[q] = P[single[0]].lam
        s.P = P
        s.pens = pen.combine_shared_penalties(rcopy.deepcopy(P))
        s.S = sum(l * M for l, M in zip(s.lams, s.mats))
        s.rank = sum(g["rank"] * g["rep"] for g in s.groups)
        k.note("groups", [(g["start"], g["m"], g["rep"], [int(rnp.linalg.matrix_rank(S, tol=1e-8)) for S in g["mats"]]) for g in s.groups])
        k.note("lambda", s.lams)

    def lgdet(s):
        """log of the product of the positive eigenvalues, block by block"""
        q, out = 0, 0.0
        for g in s.groups:
            B = sum(s.lams[q + j] * g["mats"][j] for j in range(len(g["mats"])))
            q += len(g["mats"])
            U = rnp.linalg.svd(sum(g["mats"]))[0][:, : g["rank"]]
            out += g["rep"] * rnp.linalg.slogdet(U.T @ B @ U)[1]
        return out


@R.add("reparameterisation:random", symbolic=False, nstand=150, timeout=300, functions=[RP + "reparam"], why_bounded="eigen-decompositions of sums of penalties", cbound="1-3 predictors, 0-2 terms each of 2-4 coefficients, 1-3 penalties of every rank per term, repetitions 1-3, gaps, log smoothing parameters in [-4,4]")
def rp4(k):
    s = Sys(k, gaps=False)
    rp = k.mod("repara")
    for fi, fr_ in ((0, False), (1, True), (2, False)):
        Sj, S_rp, S_inv, S_root, reps, tidx, sidx, sco, Qs, Mp = rp.reparam(None, rcopy.deepcopy(s.pens), None, option=4, form_inverse=fi, form_root=fr_, n_c=1)
        Q = rnp.eye(s.N)
        for g, Qr in zip(s.groups, Qs):
            Qr = dn(Qr)
            k.close("transformations are orthogonal", Qr.T @ Qr, rnp.eye(g["m"]), atol=1e-8)
            for r in range(g["rep"]):
                a = g["start"] + r * g["m"]
                Q[a : a + g["m"], a : a + g["m"]] = Qr
        sc = abs(s.S).max()
        want = Q.T @ s.S @ Q
        k.close("total penalty is the transformed one", dn(S_rp) / sc, want / sc, atol=1e-8)
        k.check("one transformed penalty per penalty", len(Sj) == len(s.P))
        q = 0
        ok = rnp.zeros((s.N, s.N))
        for gi, g in enumerate(s.groups):
            B = sum(s.lams[q + j] * g["mats"][j] for j in range(len(g["mats"])))
            Qr = dn(Qs[gi])
            full = rnp.zeros((g["m"], g["m"]))
            Sr = dn(reps[gi])
            k.check("range of a term", len(Sr) == g["rank"], (len(Sr), g["rank"]))
            full[: len(Sr), : len(Sr)] = Sr
            k.close("a term's penalty in its range", full / abs(B).max(), Qr.T @ B @ Qr / abs(B).max(), atol=1e-8)
            k.check("position of a term", int(sidx[gi]) == g["start"] and int(sco[gi]) == g["m"])
            for r in range(g["rep"]):
                a = g["start"] + r * g["m"]
                ok[a : a + len(Sr), a : a + len(Sr)] = rnp.eye(len(Sr))
            q += len(g["mats"])
        for j, p in enumerate(Sj):
            t = Q.T @ s.mats[j] @ Q
            k.close("transformed penalty", dn(p.S_J_emb), t, atol=1e-7)
            k.close("transformed root", dn(p.D_J_emb @ p.D_J_emb.T), t, atol=1e-7)
            k.check("penalty keeps its parameter and place", abs(p.lam - s.lams[j]) == 0 and int(p.start_index) == s.groups[s.P[j].term]["start"] and p.rep_sj == s.P[j].rep_sj and p.dist_param == s.P[j].dist_param)
        k.check("number of unpenalized directions", int(Mp) == s.N - s.rank, (int(Mp), s.N - s.rank))
        if fi == 2:
            k.close("inverse on the range", dn(S_inv) @ dn(S_rp), ok, atol=1e-6)
        if fr_:
            k.close("root of the total penalty", dn(S_root) @ dn(S_root).T / sc, want / sc, atol=1e-8)
        if fi == 1 and S_inv is not None:
            q = 0
            for g in s.groups:
                for r in range(g["rep"]):
                    a = slice(g["start"] + r * g["m"], g["start"] + (r + 1) * g["m"])
                    if len(g["mats"]) > 1:
                        k.close("inverse on the range", dn(S_inv)[a, a] @ dn(S_rp)[a, a], ok[a, a], atol=1e-6)


@R.add("reparameterisation:model", symbolic=False, nstand=150, timeout=300, functions=[RP + "reparam_model"], why_bounded="eigen-decompositions of sums of penalties", cbound="as for reparameterisation:random, with model matrices of every predictor")
def rpm(k):
    import scipy.sparse as sp

    s = Sys(k, gaps=False)
    rng, rp = k.rng, k.mod("repara")
    n = int(rng.integers(3, 7))
    Xs = [sp.csc_array(rng.normal(size=(n, d))) for d in s.dist]
    b = rng.normal(size=(s.N, 1))
    split = list(rnp.cumsum(s.dist)[:-1])
    out = rp.reparam_model(s.dist, s.up, b, split, Xs, rcopy.deepcopy(s.pens), form_inverse=True, form_root=True, form_balanced=True, n_c=1)
    b2, X2, pens, S_rp, S_norm, S_root, S_inv, Q, Qs = out
    Q = dn(Q)
    k.close("transformation is orthogonal", Q.T @ Q, rnp.eye(s.N), atol=1e-8)
    sc = abs(s.S).max()
    k.close("total penalty", dn(S_rp) / sc, Q.T @ s.S @ Q / sc, atol=1e-8)
    k.close("coefficients", b2, Q.T @ b, atol=1e-8)
    k.check("number of parameters", len(X2) == s.npar and b2.shape == (s.N, 1))
    for d, (X, Xr, bb, br) in enumerate(zip(Xs, X2, rnp.split(b, split), rnp.split(b2, split))):
        k.close(f"predictor {d} is unchanged", dn(Xr) @ br, dn(X) @ bb, atol=1e-8)
        a = slice(([0] + split)[d], ([0] + split)[d] + s.dist[d])
        k.close(f"model matrix {d}", dn(Xr), dn(X) @ Q[a, a], atol=1e-8)
        if d < len(Qs):
            k.close(f"transformation of predictor {d}", dn(Qs[d]), Q[a, a], atol=1e-9)
    k.check("smoothing parameters", len(pens) == len(s.pens) and all(p.lam == q.lam for p, q in zip(pens, s.pens)))
    for p, q in zip(pens, s.pens):
        k.close("penalties", dn(p.S_J_emb), Q.T @ dn(q.S_J_emb) @ Q, atol=1e-7)
    k.close("root", dn(S_root) @ dn(S_root).T / sc, Q.T @ s.S @ Q / sc, atol=1e-8)
    bal = sum(M / rnp.linalg.norm(M) for M in s.mats)
    bal = Q.T @ bal @ Q
    k.close("balanced penalty has the range of the total penalty", rnp.linalg.matrix_rank(dn(S_norm), tol=1e-9), s.rank)
    k.close("balanced penalty", dn(S_norm), bal / rnp.linalg.norm(bal), atol=1e-8)


@R.add("restricted-likelihood:random", symbolic=False, nstand=200, timeout=300, functions=[UT + "REML", RP + "reparam"], why_bounded="eigen-decompositions of sums of penalties", cbound="as for reparameterisation:random, scale in [0.2,5], with and without dropped coefficients")
def reml(k):
    import scipy.sparse as sp

    s = Sys(k, gaps=False)
    rng, ut = k.rng, k.mod("utils")
    A = rng.normal(size=(s.N + 3, s.N))
    H = A.T @ A
    b = rng.normal(size=(s.N, 1))
    scale = float(rnp.exp(rng.uniform(-1.5, 1.5))) if rng.random() < 0.7 else 1
    llk = float(rng.normal())
    keep = None
    hb = H
    if rng.random() < 0.3:
        # an unpenalized coefficient that cannot be identified
        free = [i for i in range(s.N) if not s.S[i].any()]
        if free:
            dr = int(rng.choice(free))
            keep = rnp.array([i for i in range(s.N) if i != dr])
            b[dr] = 0
            H[dr] = 0
            H[:, dr] = 0
    nH = sp.csc_array(H)
    if rng.random() < 0.2:  # the factorisation of a term's penalty is allowed to fail
        k.note("factorisation", "fails")
        k.stub(ut, "cpp_chol", lambda A: (A, 1))
    got = ut.REML(llk, nH, b, scale, rcopy.deepcopy(s.pens), keep)
    ix = rnp.arange(s.N) if keep is None else keep
    Hp = (H + s.S / scale)[rnp.ix_(ix, ix)]
    want = llk - float(b.T @ s.S @ b) / scale / 2 + (s.lgdet() - s.rank * rmath.log(scale)) / 2 - rnp.linalg.slogdet(Hp)[1] / 2 + (s.N - s.rank) * rmath.log(2 * rmath.pi) / 2
    k.note("scale", scale)
    k.note("dropped", keep)
    k.close("restricted likelihood", rnp.asarray(got, float).reshape(-1), [want], atol=1e-6, rtol=1e-8)


# ---------------------------------------------------------------- proved: the score, against the contracts of its parts
from .C13 import sphere, sparseT, rows, mm, tr, fwd, perm, EYE


def det(A):
    if len(A) == 1:
        return A[0][0]
    out = lift(0)
    for j in range(len(A)):
        out = out + (-1) ** j * A[0][j] * det([r[:j] + r[j + 1 :] for r in A[1:]])
    return out


def unit(k, nm, p):
    """lower triangular with rows of unit length and positive diagonal; every matrix with unit diagonal and a Cholesky factor has this one"""
    F = []
    for i in range(p):
        bd = 1.0 / max(1, i) ** 0.5
        for j in range(i):
            k.scalar(f"{nm}{i}{j}", facts=lambda x, bd=bd: [lt(const(Fraction(-bd * 0.999)), x), lt(x, const(Fraction(bd * 0.999)))], sample=lambda rg, s: rg.uniform(-0.9, 0.9) * bd)
        F.append(sphere([k.S(f"{nm}{i}{j}") for j in range(i)]) + [lift(0)] * (p - 1 - i))
    return F


class Pen:
    def __init__(s, rep, lam=1):
        s.rep_sj, s.lam = rep, lam


def score(p, Pr, terms, keep, flat):
    """terms: (coefficients in the range, repetitions) of each term"""

    def c(k):
        ut = k.mod("utils")
        phi, llk = k.scalar("phi", "pos"), k.scalar("llk")
        sph = k.S("phi")
        m = len(Pr)
        kp = keep if keep is not None else list(range(p))
        coef = k.arr("coef", (p,) if flat else (p, 1))
        S = k.arr("S", (p, p), sp=True)
        nH = k.arr("nH", (p, p), sp=True, frame=False)
        Mp = k.scalar("Mp", "pos")
        k.arr("d", (m,), "pos", frame=False)
        F, d = unit(k, "t", m), [k.S("d")[i] for i in range(m)]
        PT = [[lift(int(v)) for v in r] for r in perm(Pr)]
        B = mm(tr(PT), mm(mm(F, tr(F)), PT))
        Hp = [[(1 if i == j else B[i][j]) / (d[i] * d[j]) for j in range(m)] for i in range(m)]
        Gs, es, reps = [], [], []
        for q, (r, rep) in enumerate(terms):
            k.arr(f"e{q}", (r,), "pos", frame=False)
            G, e = unit(k, f"u{q}_", r), [k.S(f"e{q}")[i] for i in range(r)]
            GG = mm(G, tr(G))
            Gs.append((G, [[lift(1) if i == j else GG[i][j] for j in range(r)] for i in range(r)]))
            es.append(e)
            reps.append([[sph * Gs[-1][1][i][j] / (e[i] * e[j]) for j in range(r)] for i in range(r)])
        conv = sparseT if k.mode == "sym" else (lambda M: __import__("scipy.sparse").sparse.csc_array(evalT(np.array(M), k.env)))
        full = [[k.S("nH")[i, j] for j in range(p)] for i in range(p)]
        for a, i in enumerate(kp):
            for b, j in enumerate(kp):
                full[i][j] = Hp[a][b] - k.S("S")[i, j] / sph
        nHm = conv(full)
        pens = [Pen(rep) for _, rep in terms]
        st = [k.stub(ut, "compute_S_emb_pinv_det", lambda n, pe, pinv, *a: (S, None, None, None))]
        # penalties of the terms; the last one has two
        tidx = [[q] for q in range(len(terms))]
        tidx[-1] = [len(terms) - 1, len(terms)]
        st.append(k.stub(ut, "reparam", lambda X_, S_, cov, option=1: (pens + [Pen(99)], None, None, None, [conv(M) for M in reps], tidx, None, None, None, Mp)))
        if k.mode == "sym":
            seen = {"n": 0}

            def chol(A):
                q = seen["n"]
                seen["n"] += 1
                k.ensure_eq(f"term {q}: the matrix that is factorised is the scaled penalty of the term", A, np.array(Gs[q][1]))
                return sparseT(Gs[q][0]), 0

            def cholP(A):
                k.ensure_eq("the matrix that is factorised is the scaled negative penalized Hessian of the kept coefficients", A, np.array([[lift(1) if i == j else B[i][j] for j in range(m)] for i in range(m)]))
                return sparseT(F), [int(v) for v in Pr], 0

            st += [k.stub(ut, "cpp_chol", chol), k.stub(ut, "cpp_cholP", cholP)]
        got = ut.REML(llk, nHm, coef, phi, pens, None if keep is None else rnp.array(keep))
        k.used(*st[:2])
        # specification
        LD = lambda G, e: 2 * sum((np.log(G[i][i]) - np.log(e[i]) for i in range(len(e))), lift(0))
        for q, (r, rep) in enumerate(terms):
            D = det([[reps[q][i][j] / sph for j in range(r)] for i in range(r)])
            pr = lift(1)
            for i in range(r):
                pr = pr * Gs[q][0][i][i] * Gs[q][0][i][i] / (es[q][i] * es[q][i])
            k.ensure_eq(f"lemma: determinant of term {q}", D if k.mode == "sym" else evalT(D, k.env), pr)
        D, pr = det(Hp), lift(1)
        for i in range(m):
            pr = pr * F[i][i] * F[i][i] / (d[i] * d[i])
        k.ensure_eq("lemma: determinant of the negative penalized Hessian", D if k.mode == "sym" else evalT(D, k.env), pr)
        b = [k.S("coef")[i] if flat else k.S("coef")[i, 0] for i in range(p)]
        bSb = sum((b[i] * k.S("S")[i, j] * b[j] for i in range(p) for j in range(p)), lift(0))
        want = k.S("llk") - bSb / sph / 2 + sum((rep * LD(Gs[q][0], es[q]) for q, (r, rep) in enumerate(terms)), lift(0)) / 2 - LD(F, d) / 2 + k.S("Mp") * np.log(2 * lift(PI)) / 2
        if k.mode != "sym":
            got = float(rnp.asarray(got).reshape(-1)[0])
        k.ensure_eq("restricted likelihood", got, want, shape=False)

    return c


for a in ((2, (0, 1), ((1, 1), (2, 3)), None, False), (2, (1, 0), ((2, 2),), None, False), (3, (2, 0, 1), ((1, 1),), None, True), (3, (1, 0), ((2, 1), (1, 2)), (0, 2), False)):
    R.add(f"restricted-likelihood:p={a[0]},perm={''.join(map(str, a[1]))},terms={'+'.join(f'{r}x{n}' for r, n in a[2])}" + ("" if a[3] is None else ",dropped"), functions=[UT + "REML"], nsamp=8)(score(*a))


# ---------------------------------------------------------------- proved: natural parameterisation of a smooth
def rotation(k, p):
    """rational rotation matrices: products of plane rotations"""
    U = EYE(p)
    for a in range(p):
        for b in range(a + 1, p):
            k.scalar(f"r{a}{b}", sample=lambda rg, s: rg.uniform(-2, 2))
            t = k.S(f"r{a}{b}")
            c_, s_ = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            G = EYE(p)
            G[a][a], G[b][b], G[a][b], G[b][a] = c_, c_, lift(0) - s_, s_
            U = mm(U, G)
    return U


def natural(p, rank, identity, scale, QR):
    def c(k):
        rp = k.mod("repara")
        if k.mode == "sym":
            rp.math = shim.np
        # X = Q R; the penalty is R' U diag(s) U' R, which every penalty is
        for i in range(p):
            for j in range(i, p):
                k.scalar(f"R{i}{j}", "pos" if i == j else "real")
        Rm = [[k.S(f"R{i}{j}") if j >= i else lift(0) for j in range(p)] for i in range(p)]
        U = rotation(k, p)
        for i in range(rank):
            k.scalar(f"s{i}", facts=lambda x: [lt(const(Fraction(1, 100)), x)], sample=lambda rg, s: rg.uniform(0.5, 3) * 3 ** (rank - i))
        s_ = [k.S(f"s{i}") if i < rank else lift(0) for i in range(p)]
        for i in range(rank - 1):
            k.assume(k.S(f"s{i + 1}") < k.S(f"s{i}")) if k.mode == "sym" else k.assume(k.env[f"s{i + 1}"] < k.env[f"s{i}"])
        BB = mm(mm(U, [[s_[i] if i == j else lift(0) for j in range(p)] for i in range(p)]), tr(U))
        S = mm(mm(tr(Rm), BB), Rm)
        XX = mm(tr(Rm), Rm)
        if k.mode == "sym":
            Xm = sparseT(Rm + [[lift(0)] * p])

            def qr(A, mode=None):
                k.ensure_eq("the model matrix is decomposed", A, np.array(Rm + [[lift(0)] * p]))
                return None, np.array(Rm)

            k.patch(rp, "scp.linalg.qr", qr)

            class ES:
                pass

            es = ES()

            def chol(A):
                k.ensure_eq("the cross product is factorised", A, np.array(XX))
                return sparseT(tr(Rm)), 0

            es.chol = chol
            es.solve_tr = lambda L, C: sparseT(fwd(rows(lift(L), p), rows(lift(C), p)))
            es.backsolve_tr = lambda M, C: sparseT(fwd([r[::-1] for r in rows(lift(M), p)][::-1], rows(lift(C), p)[::-1])[::-1])
            rp.eigen_solvers = es
            rp.map_csc_to_eigen = lambda A: (A,)
            Sm = sparseT(S)

            def eigh(A):
                k.ensure_eq("the matrix that is decomposed is the penalty in the orthogonal basis", A, np.array(BB))
                return np.array(s_[::-1]), np.array([r[::-1] for r in U])

            k.patch(rp, "scp.linalg.eigh", eigh)
        else:
            import scipy.sparse as sp

            Xm = sp.csc_array(rnp.linalg.qr(k.rng.normal(size=(p + 1, p)))[0] @ evalT(np.array(Rm), k.env))
            Sm = sp.csc_array(evalT(np.array(S), k.env))
        C, Srp, Drp, IR, r1, r2, rk = rp.reparam(Xm, Sm, None, option=1, QR=QR, identity=identity, scale=scale)
        dd = (lambda M: M) if k.mode == "sym" else dn
        k.ensure_true("rank", rk == rank)
        Cm = rows(lift(dd(C)), p) if k.mode == "sym" else None
        spec_ = lambda M: [[M[i, j] for j in range(p)] for i in range(p)]
        if k.mode == "sym":
            CSC = np.array(mm(mm(tr(Cm), S), Cm))
            CXC = np.array(mm(mm(tr(Cm), XX), Cm))
            SS, DD = lift(Srp), np.array(mm(rows(lift(Drp), p), tr(rows(lift(Drp), p))))
        else:
            Cd = dn(C)
            CSC, CXC = Cd.T @ dn(Sm) @ Cd, Cd.T @ evalT(np.array(XX), k.env) @ Cd
            SS, DD = dn(Srp), dn(Drp) @ dn(Drp).T
        w = [s_[i] for i in range(p)]
        g = [lift(1)] * p
        if identity:
            w = [lift(1 if i < rank else 0) for i in range(p)]
            g = [1 / s_[i] if i < rank else lift(1) for i in range(p)]
        q1 = q2 = lift(1)
        if scale:
            q1 = q1 * lift(r1) * lift(r1) if k.mode == "sym" else lift(float(r1) ** 2)
            if rank < p:
                q2 = lift(r2) * lift(r2) if k.mode == "sym" else lift(float(r2) ** 2)
        diag = lambda v: np.array([[v[i] if i == j else lift(0) for j in range(p)] for i in range(p)])
        if scale:
            ms = [sum((g[i] for i in range(*b)), start=lift(0)) / ((p + 1) * (b[1] - b[0])) for b in ((0, rank), (rank, p)) if b[0] < b[1]]
            k.ensure_eq("scale is the mean square of the penalized columns", q1, ms[0])
            if rank < p:
                k.ensure_eq("scale is the mean square of the unpenalized columns", q2, ms[1])
        if scale and k.mode == "sym":
            # X C D = Q U G, from which both identities below follow
            RC = mm(Rm, [[Cm[i][j] * lift(r1 if j < rank else r2) for j in range(p)] for i in range(p)])
            k.ensure_eq("columns of the new basis, scaled back", np.array(RC), np.array([[U[i][j] * np.sqrt(g[j]) for j in range(p)] for i in range(p)]))
        else:
            k.ensure_eq("penalty of the new basis is diagonal, largest first", CSC, diag([w[i] / q1 if i < rank else lift(0) for i in range(p)]))
            k.ensure_eq("columns of the new basis are orthogonal", CXC, diag([g[i] / (q1 if i < rank else q2) for i in range(p)]))
        k.ensure_eq("returned penalty is that of the new basis", SS, diag([w[i] / q1 if i < rank else lift(0) for i in range(p)]))
        k.ensure_eq("returned root is that of the new penalty", DD, diag([w[i] / q1 if i < rank else lift(0) for i in range(p)]))

    return c


for a in ((2, 1, False, False, False), (2, 2, False, False, False), (2, 1, True, False, True), (3, 2, False, False, True), (2, 1, False, True, False), (2, 2, True, True, False)):
    R.add(f"natural:p={a[0]},rank={a[1]}" + (",identity" if a[2] else "") + (",scaled" if a[3] else "") + (",QR" if a[4] else ""), functions=[RP + "reparam"], nsamp=8)(natural(*a))


# ---------------------------------------------------------------- candidates for the smoothing parameters
def closed(s, H, b, llk, scale):
    return llk - float(b.T @ s.S @ b) / scale / 2 + (s.lgdet() - s.rank * rmath.log(scale)) / 2 - rnp.linalg.slogdet(H + s.S / scale)[1] / 2 + (s.N - s.rank) * rmath.log(2 * rmath.pi) / 2


def candidate(kind):
    def c(k):
        import scipy.sparse as sp
        import warnings

        warnings.simplefilter("ignore")
        rng, ut, ef = k.rng, k.mod("utils"), k.mod("exp_fam")
        s = Sys(k, gaps=False, npar=1)
        n = s.N + int(rng.integers(10, 30))
        X = rng.normal(size=(n, s.N)) / rmath.sqrt(s.N)
        b = rng.normal(size=(s.N, 1))
        how = int(rng.integers(0, 3))
        off = 0 if how == 0 else (float(rng.normal()) if how == 1 else rng.normal(size=(n, 1)) * 0.5)
        eta = X @ b + off
        fam = {"Gaussian": lambda: ef.Gaussian(), "Gaussian-log": lambda: ef.Gaussian(ef.LOG()), "Gamma": lambda: ef.Gamma(ef.LOG()), "Poisson": lambda: ef.Poisson(), "Binomial": lambda: ef.Binomial()}[kind]()
        mu = fam.link.fi(eta)
        y = {"Gaussian": lambda: mu + rng.normal(size=(n, 1)) * 0.5, "Gaussian-log": lambda: mu + rng.uniform(0.2, 0.5, size=(n, 1)) * mu, "Gamma": lambda: rng.gamma(4, mu / 4), "Poisson": lambda: rng.poisson(mu).astype(float), "Binomial": lambda: rng.binomial(1, mu).astype(float)}[kind]()
        meth = "Chol" if rng.random() < 0.6 else "QR"
        k.note("offset", how)
        k.note("method", meth)
        out = ut.compute_reml_candidate_GAMM(fam, y, sp.csc_array(X), rcopy.deepcopy(s.pens), 1, off, None, meth, True, None)
        reml, Linv, LP, Pr, cf, scale, edf, llk = out
        k.check("a finite score", rnp.isfinite(float(rnp.asarray(reml).reshape(-1)[0])))
        et = X @ cf + off
        m = fam.link.fi(et)
        V = {"Gaussian": lambda m: 1 + 0 * m, "Gaussian-log": lambda m: 1 + 0 * m, "Gamma": lambda m: m**2, "Poisson": lambda m: m, "Binomial": lambda m: m * (1 - m)}[kind](m)
        g1 = {"Gaussian": lambda m: 1 + 0 * m, "Gaussian-log": lambda m: 1 / m, "Gamma": lambda m: 1 / m, "Poisson": lambda m: 1 / m, "Binomial": lambda m: 1 / (m * (1 - m))}[kind](m)
        W = 1 / (V * g1**2)
        sc = X.T @ (W * g1 * (y - m)) - s.S @ cf
        ref = abs(X.T) @ abs(W * g1 * (y - m)) + abs(s.S @ cf) + 1e-3
        k.check("coefficients maximise the penalized likelihood", float((abs(sc) / ref).max()) < (1e-6 if kind == "Gaussian" else 2e-2), float((abs(sc) / ref).max()))
        XWX = X.T @ (W * X)
        A = XWX + s.S
        ed = rnp.trace(rnp.linalg.solve(A, XWX))
        tol = dict(rtol=1e-6) if kind == "Gaussian" else dict(rtol=2e-2)
        k.close("degrees of freedom", float(edf), ed, **tol)
        known = kind in ("Poisson", "Binomial")
        ph = 1.0 if known else float((W * (g1 * (y - m)) ** 2).sum() / (n - ed))
        k.close("scale", float(scale), ph, **tol)
        ll = fam.llk(y, m, scale=scale) if not known else fam.llk(y, m)
        k.close("log-likelihood", float(llk), float(ll), rtol=1e-6, atol=1e-6)
        k.close("restricted likelihood", float(rnp.asarray(reml).reshape(-1)[0]), closed(s, XWX / scale, cf, float(ll), float(scale)), rtol=1e-6 if kind == "Gaussian" else 1e-3, atol=1e-5 if kind == "Gaussian" else 5e-2)
        k.close("inverse", dn(Linv.T @ Linv) / abs(rnp.linalg.inv(A)).max(), rnp.linalg.inv(A) / abs(rnp.linalg.inv(A)).max(), atol=1e-6 if kind == "Gaussian" else 2e-2)
        # the second-order correction: trace with the Hessian of another fit
        B = rng.normal(size=(s.N, s.N))
        orig = 0.7 if kind == "Gaussian" else sp.csc_array(B @ B.T)
        ed2 = ut.compute_reml_candidate_GAMM(fam, y, sp.csc_array(X), rcopy.deepcopy(s.pens), 1, off, None, meth, False, orig)[6]
        want = float(edf) * float(scale) / 0.7 if kind == "Gaussian" else rnp.trace(dn(Linv.T @ Linv) @ B @ B.T) * float(scale)
        k.close("trace with another Hessian", float(ed2), want, rtol=1e-6)

    return c


for kd in ("Gaussian", "Gaussian-log", "Gamma", "Poisson", "Binomial"):
    R.add(f"candidate:{kd}", symbolic=False, nstand=25, timeout=200, functions=[UT + "compute_reml_candidate_GAMM", UT + "REML"], why_bounded="iterated fits", cbound="random penalties as for reparameterisation:random (one predictor), 10-30 more rows than coefficients, no, constant or random offset, both methods")(candidate(kd))


def pseudo(pens, N):
    """log of the pseudo-determinant and rank of a model's total penalty"""
    S = sum(p.lam * dn(p.S_J_emb) for p in pens)
    U = sum(dn(p.S_J_emb) / rnp.linalg.norm(dn(p.S_J_emb)) for p in pens)
    w, V = rnp.linalg.eigh(U)
    V = V[:, w > 1e-9 * w.max()]
    return S, rnp.linalg.slogdet(V.T @ S @ V)[1], V.shape[1]


def fitted(kind):
    def c(k):
        import warnings

        import pandas as pd

        warnings.simplefilter("ignore")
        md, ut = k.mod("models"), k.mod("utils")
        rng = k.rng
        n = int(rng.integers(60, 120))
        x, w = rng.uniform(0, 1, n), rng.uniform(0, 1, n)
        g = rnp.array(["a", "b", "c"])[rng.integers(0, 3, n)]
        g[:3] = ["a", "b", "c"]
        y = 1 + rnp.sin(4 * x) + w + (g == "b") * x + 0.5 * rng.normal(size=n)
        if "Gamma" in kind:
            y = rnp.exp(y / 2)
        df = pd.DataFrame(dict(x=x, w=w, g=g, y=y))
        T = [lambda: [md.i(), md.f(["x"], nk=6), md.f(["w"], nk=5)], lambda: [md.i(), md.l(["g"]), md.f(["x"], by="g", nk=5)], lambda: [md.i(), md.f(["x", "w"], nk=4, te=True)], lambda: [md.i(), md.f(["x"], nk=5, id=1), md.f(["w"], nk=5, id=1), md.ri("g")]][int(rng.integers(0, 4))]
        F = lambda t: md.Formula(md.lhs("y"), t(), data=df)
        T2 = [lambda: [md.i()], lambda: [md.i(), md.f(["w"], nk=5)]][int(rng.integers(0, 2))]
        if kind in ("Gaussian", "Gamma"):
            off = None if rng.random() < 0.5 else rng.normal(size=(n, 1)) * 0.3
            m = md.GAMM(F(T), md.Gaussian() if kind == "Gaussian" else md.Gamma(md.LOG()))
            m.fit(progress_bar=False, offset=off)
        elif kind == "GAMMLSS":
            m = md.GAMMLSS([F(T), F(T2)], md.GAUMLSS([md.Identity(), md.LOG()]))
            m.fit(progress_bar=False)
        else:
            fam = md.GAMLSSGSMMFamily(2, md.GAUMLSS([md.Identity(), md.LOG()])) if hasattr(md, "GAMLSSGSMMFamily") else ut.GAMLSSGSMMFamily(2, md.GAUMLSS([md.Identity(), md.LOG()]))
            m = md.GSMM([F(T), F(T2)], fam)
            m.fit(progress_bar=False, method="Chol")
        H = -dn(m.hessian)
        N = len(H)
        S, ld, r = pseudo(m.overall_penalties, N)
        phi = m.scale if kind in ("Gaussian", "Gamma") else 1.0
        b = m.coef.reshape(-1, 1)
        want = m.get_llk(False) - float(b.T @ S @ b) / phi / 2 + (ld - r * rmath.log(phi)) / 2 - rnp.linalg.slogdet(H + S / phi)[1] / 2 + (N - r) * rmath.log(2 * rmath.pi) / 2
        got = m.get_reml()
        k.close("restricted likelihood of the fit", got, want, rtol=1e-7, atol=1e-5)
        k.close("penalized log-likelihood", m.get_llk(True), m.get_llk(False) - float(b.T @ S @ b) / phi / 2, rtol=1e-8, atol=1e-7)
        if kind == "Gaussian":
            # exact: log of the integral of likelihood times prior over the coefficients, the smoothing parameters and scale given
            X = dn(m.get_mmat())
            yy = m.get_ys().reshape(-1, 1) - (m.offset if off is not None else 0)
            A = X.T @ X + S
            q = float(yy.T @ yy - yy.T @ X @ rnp.linalg.solve(A, X.T @ yy)) / phi
            exact = -q / 2 - n / 2 * rmath.log(2 * rmath.pi * phi) - r / 2 * rmath.log(2 * rmath.pi) + (ld - r * rmath.log(phi)) / 2 + N / 2 * rmath.log(2 * rmath.pi) - rnp.linalg.slogdet(A / phi)[1] / 2
            k.close("restricted likelihood is the marginal likelihood", got, exact, rtol=1e-6, atol=1e-3)
        if kind in ("GAMMLSS", "GSMM"):
            Xs = m.get_mmat()
            ys = m.get_ys()
            start = b + 0.01 * rng.normal(size=b.shape)
            o = ut.compute_REML_candidate_GSMM(m.family, ys, Xs, rcopy.deepcopy(m.overall_penalties), start, N, m.coef_split_idx, n_c=1)
            k.close("candidate at the fitted smoothing parameters", float(o[0]), got, rtol=1e-4, atol=1e-2)
            Vw = rnp.linalg.inv(H + S)
            k.close("candidate's covariance", dn(o[1]) / abs(Vw).max(), Vw / abs(Vw).max(), atol=2e-2)
            k.close("candidate's factor", dn(o[2].T @ o[2]), dn(o[1]), atol=1e-8)
            k.close("candidate's degrees of freedom", float(o[4]), rnp.trace(Vw @ H), rtol=1e-2)
            k.close("candidate's log-likelihood", float(o[5]), m.get_llk(False), rtol=1e-4, atol=1e-2)

    return c


for kd in ("Gaussian", "Gamma", "GAMMLSS", "GSMM"):
    R.add(f"fitted:{kd}", symbolic=False, nstand=4, timeout=200, functions=["models.GAMM.get_reml", "models.GAMMLSS.get_reml", "models.GSMM.get_reml", UT + "REML", UT + "compute_REML_candidate_GSMM"], why_bounded="whole fitted models", cbound="60-120 rows, smooths, by-factors, tensor products, shared smoothing parameters, random intercepts, offsets")(fitted(kd))
