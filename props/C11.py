"""C11: assembling a model's total penalty."""
from .common import *
from . import fkit
import copy as rcopy
import math as rmath

R = Registry("C11")
R.exts = ("eigen_solvers",)


def td(M):
    return M if isinstance(M, T) else (M.toarray() if hasattr(M, "toarray") else M)


def lterm(k, ct, q, N, size, start, rep, ident, lam, term=None):
    """a penalty whose own block is an arbitrary size x size matrix L L' placed rep times from start on"""
    A = k.arr(f"L{q}", (size, size), sp=True, frame=False)
    if k.mode == "sym":
        S = matmul(A, A.T)
        S.sp = True
        emb, root = [placeT(M, N, start, rep, size) for M in (S, A)]
    else:
        import scipy.sparse as sp

        S = sp.csc_array(A @ A.T)
        emb, root = [sp.csc_array(placeN(M.toarray(), N, start, rep)) for M in (S, A)]
    return ct.LambdaTerm(S_J=S, S_J_emb=emb, D_J_emb=root, rep_sj=rep, lam=lam, start_index=start, type=ct.PenType.IDENTITY, rank=size, term=q if term is None else term, id=ident)


def placeN(M, N, start, rep):
    out = rnp.zeros((N, N))
    for r in range(rep):
        s = start + r * len(M)
        out[s : s + len(M), s : s + len(M)] = M
    return out


def placeT(M, N, start, rep, size):
    out = [[lift(0) for _ in range(N)] for _ in range(N)]
    for r in range(rep):
        s = start + r * size
        for i in range(size):
            for j in range(size):
                out[s + i][s + j] = M[i, j]
    t = np.array(out)
    t.sp = True
    return t


def spec(k, q, N, size, start, rep):
    A = k.S(f"L{q}")
    return placeT(matmul(A, A.T), N, start, rep, size), placeT(A, N, start, rep, size)


# layouts: per penalty (size, start, repetitions, id)
LAYOUTS = {
    "no-ids": (6, [(2, 0, 1, None), (2, 2, 2, None)]),
    "one-shared": (7, [(2, 0, 1, 4), (1, 2, 2, None), (2, 4, 1, 4)]),
    "two-shared-interleaved": (8, [(2, 0, 1, 1), (2, 2, 1, 2), (1, 4, 2, 1), (2, 6, 1, 2)]),
    "three-sharing-one": (7, [(2, 1, 1, 9), (2, 3, 1, 9), (1, 5, 2, 9)]),
    "unused-id": (5, [(2, 0, 1, 3), (2, 2, 1, None)]),
    "single-id-next-to-shared": (7, [(1, 0, 1, 5), (2, 1, 1, 7), (2, 3, 1, 5), (1, 5, 1, None)]),
}


def groups(lay):
    ids = [l[3] for l in lay]
    single = [q for q, i in enumerate(ids) if i is None or ids.count(i) == 1]
    shared = []
    for q, i in enumerate(ids):
        if i is not None and ids.count(i) > 1 and i not in [ids[g[0]] for g in shared]:
            shared.append([p for p, j in enumerate(ids) if j == i])
    return single, shared


def comb(name):
    N, lay = LAYOUTS[name]

    def c(k):
        pen, ct = k.mod("penalties"), k.mod("custom_types")
        ids = [l[3] for l in lay]
        lam_of = {i: k.scalar(f"lam_id{i}", "pos") for i in dict.fromkeys(ids) if i is not None}
        lams = [lam_of[i] if i is not None else k.scalar(f"lam{q}", "pos") for q, i in enumerate(ids)]
        slam = [k.S(f"lam_id{i}") if i is not None else k.S(f"lam{q}") for q, i in enumerate(ids)]
        P = [lterm(k, ct, q, N, *l[:3], l[3], lams[q]) for q, l in enumerate(lay)]
        for q, p in enumerate(P):
            p.dist_param = q % 2
        single, shared = groups(lay)
        S_, D_ = zip(*[spec(k, q, N, *l[:3]) for q, l in enumerate(lay)])
        M = pen.combine_shared_penalties(list(P))
        k.ensure_true("one entry per smoothing parameter", len(M) == len(single) + len(shared))
        tot = sum((slam[q] * S_[q] for q in range(len(lay))), lift(rnp.zeros((N, N))))
        k.ensure_eq("total penalty is unchanged by sharing", sum((m.lam * td(m.S_J_emb) for m in M), lift(0) if k.mode == "sym" else 0), tot)
        for m in M:
            own = [q for q in range(len(lay)) if (ids[q] == m.id and m.id is not None)]
            if len(own) < 2:
                continue
            k.ensure_eq(f"id {m.id}: matrix", td(m.S_J_emb), sum((S_[q] for q in own[1:]), S_[own[0]]))
            k.ensure_eq(f"id {m.id}: root", td(m.D_J_emb), sum((D_[q] for q in own[1:]), D_[own[0]]))
            k.ensure_true(f"id {m.id}: first coefficient and rank", int(m.start_index) == lay[own[0]][1] and int(m.rank) == sum(lay[q][0] for q in own))
            a, b = lay[own[0]][1], lay[own[-1]][1] + lay[own[-1]][0] * lay[own[-1]][2]
            k.ensure_eq(f"id {m.id}: own block", td(m.S_J), sum((S_[q] for q in own[1:]), S_[own[0]])[a:b, a:b])
            k.ensure_true(f"id {m.id}: terms and predictors", list(m.term) == own and list(m.dist_param) == [q % 2 for q in own])
        for m in M:
            if m.id in lam_of:
                m.lam = m.lam * 2  # an update of a shared parameter reaches all its penalties
        Q = pen.split_shared_penalties(M)
        k.ensure_true("splitting restores the number of penalties", len(Q) == len(lay))
        for q, p in enumerate(Q):
            k.ensure_true(f"penalty {q}: restored description", int(p.start_index) == lay[q][1] and p.term == q and p.dist_param == q % 2 and p.id == ids[q] and p.rep_sj == lay[q][2] and int(p.rank) == lay[q][0] and p.type == ct.PenType.IDENTITY)
            k.ensure_eq(f"penalty {q}: matrix", td(p.S_J_emb), S_[q])
            k.ensure_eq(f"penalty {q}: root", td(p.D_J_emb), D_[q])
            A = k.S(f"L{q}")
            k.ensure_eq(f"penalty {q}: own block", td(p.S_J), matmul(A, A.T))
            k.ensure_eq(f"penalty {q}: smoothing parameter", p.lam, slam[q] * (2 if ids[q] is not None else 1))

    return c


for nm in LAYOUTS:
    R.add(f"shared:{nm}", functions=["penalties.combine_shared_penalties", "penalties.split_shared_penalties", "penalties.sort_penalties", "penalties.create_id_dict"], nsamp=6)(comb(nm))


# ---------------------------------------------------------------- several formulas
class Form:
    def __init__(self, n):
        self.n_coef = n


def embed(ncs, where, extra):
    """ncs: coefficients per formula; where: per formula list of (size, start)"""

    def c(k):
        pen, ct = k.mod("penalties"), k.mod("custom_types")
        PP, q, desc = [], 0, []
        for f, (nc, ws) in enumerate(zip(ncs, where)):
            PP.append([])
            for size, st in ws:
                PP[-1].append(lterm(k, ct, q, nc, size, st, 1, None, 1.1, term=10 + q))
                desc.append((f, size, st))
                q += 1
        tot = sum(ncs) + (extra or 0)
        out = pen.embed_shared_penalties(PP, [Form(n) for n in ncs], extra)
        k.ensure_true("one list per formula", len(out) == len(ncs) and [len(o) for o in out] == [len(w) for w in where])
        q = 0
        for f in range(len(ncs)):
            for p in out[f]:
                _, size, st = desc[q]
                off = sum(ncs[:f])
                S_, D_ = spec(k, q, tot, size, off + st, 1)
                k.ensure_eq(f"penalty {q}: matrix", td(p.S_J_emb), S_)
                k.ensure_eq(f"penalty {q}: root", td(p.D_J_emb), D_)
                k.ensure_true(f"penalty {q}: first coefficient, predictor and term", int(p.start_index) == off + st and p.dist_param == f and p.term == 10 + q)
                q += 1

    return c


for ncs, where, extra in (((4,), (((2, 1), (1, 3)),), None), ((3, 2), (((2, 1),), ((2, 0),)), None), ((2, 4), ((), ((2, 0), (2, 2))), 0), ((2, 3, 2), (((1, 1),), ((2, 1), (1, 0)), ((2, 0),)), 2), ((3,), (((2, 1),),), 1)):
    R.add(f"embed:{'+'.join(map(str, ncs))},extra={extra}", functions=["penalties.embed_shared_penalties"], nsamp=6)(embed(ncs, where, extra))


# ---------------------------------------------------------------- total penalty
def total(name):
    N, lay = LAYOUTS[name]

    def c(k):
        pen, ct, gs = k.mod("penalties"), k.mod("custom_types"), k.mod("gamm_solvers")
        if k.mode == "sym":
            gs.math = shim.np
        ids = [l[3] for l in lay]
        lam_of = {i: k.scalar(f"lam_id{i}", "pos") for i in dict.fromkeys(ids) if i is not None}
        lams = [lam_of[i] if i is not None else k.scalar(f"lam{q}", "pos") for q, i in enumerate(ids)]
        slam = [k.S(f"lam_id{i}") if i is not None else k.S(f"lam{q}") for q, i in enumerate(ids)]
        P = [lterm(k, ct, q, N, *l[:3], l[3], lams[q]) for q, l in enumerate(lay)]
        S_, D_ = zip(*[spec(k, q, N, *l[:3]) for q, l in enumerate(lay)])
        M = pen.combine_shared_penalties(P)
        for root in (False, True):
            S_emb, S_pinv, S_root, ranks = gs.compute_S_emb_pinv_det(N, M, "svd", root)
            k.ensure_eq(f"root={root}: total penalty", td(S_emb), sum((slam[q] * S_[q] for q in range(len(lay))), lift(rnp.zeros((N, N)))))
            k.ensure_true(f"root={root}: rank can be used for every smoothing parameter", list(ranks) == [True] * len(M))
            if root:
                k.ensure_eq("root", td(S_root), sum((np.sqrt(slam[q]) * D_[q] for q in range(len(lay))), lift(rnp.zeros((N, N)))))

    return c


for nm in LAYOUTS:
    R.add(f"total:{nm}", functions=["gamm_solvers.compute_S_emb_pinv_det"], nsamp=6)(total(nm))


@R.add("total:formulas", symbolic=False, nstand=120, timeout=600, functions=["gamm_solvers.compute_S_emb_pinv_det", "penalties.embed_shared_penalties", "penalties.combine_shared_penalties", "penalties.split_shared_penalties"], why_bounded="pseudo-inverses and roots of overlapping penalties by singular value decomposition", cbound="random pairs of formulas over the whole term grammar with random smoothing parameters")
def formulas(k):
    rng = k.rng
    pen, gs = k.mod("penalties"), k.mod("gamm_solvers")
    df, n_per = fkit.data(rng)
    cases = [fkit.Case(k, fkit.rand_formula(rng), df, n_per) for _ in range(int(rng.integers(1, 3)))]
    exps = [c.expected_penalties() for c in cases]
    k.assume(all(M.size > 0 for e in exps for _, _, M, _ in e))
    extra = None if rng.random() < 0.5 else int(rng.integers(1, 3))
    N = sum(c.ncoef for c in cases) + (extra or 0)
    ids = [[p.id for p in c.pens] for c in cases]
    P = pen.embed_shared_penalties([c.pens for c in cases], [c.F for c in cases], extra)
    P = [p for q in P for p in q]
    flat_ids = [i for q in ids for i in q]
    k.assume(len(P) > 0)
    # tensor terms contribute several ids: avoid accidental sharing between penalties of the same coefficients
    for i in set(flat_ids) - {None}:
        own = [p for p, j in zip(P, flat_ids) if j == i]
        k.assume(len({int(p.start_index) for p in own}) == len(own))
    exp = []
    off = 0
    for c, e in zip(cases, exps):
        for ti, s, M, tn in e:
            exp.append((off + s, M))
        off += c.ncoef
    count = [sum(1 for s2, _ in exp if s2 == s) for s, _ in exp]
    by_id = {}
    for q, i in enumerate(flat_ids):
        by_id.setdefault((i,) if i is not None else (None, q), []).append(q)
    for i, qs in by_id.items():
        k.assume(len({count[q] > 1 for q in qs}) == 1)
    M_ = pen.combine_shared_penalties(P)
    k.check("one entry per smoothing parameter", len(M_) == len(by_id), (len(M_), len(by_id)))
    lams = rnp.exp(rng.normal(size=len(M_)))
    lam_id = {}
    for m, l in zip(M_, lams):
        m.lam = float(l)
    single = [qs[0] for i, qs in by_id.items() if len(qs) == 1]
    lam_q = {}
    si = iter(sorted(single))
    for m in M_:
        key = (m.id,) if m.id is not None and len(by_id.get((m.id,), [])) > 1 else None
        if key is None:
            lam_q[next(si)] = m.lam
        else:
            for q in by_id[key]:
                lam_q[q] = m.lam
    k.note("lambda", lams)
    k.note("extra", extra)
    full = lambda q: emb(exp[q][1], N, exp[q][0])
    tot = sum(lam_q[q] * full(q) for q in range(len(exp)))
    S_emb, S_pinv, S_root, ranks = gs.compute_S_emb_pinv_det(N, M_, "svd", True)
    sc = max(1.0, abs(tot).max())
    k.close("total penalty", S_emb.toarray() / sc, tot / sc, atol=2e-5)
    k.close("root", (S_root @ S_root.T).toarray() / sc, tot / sc, atol=2e-5)
    pi = rnp.zeros((N, N))
    for s in sorted({s for s, _ in exp}):
        qs = [q for q in range(len(exp)) if exp[q][0] == s]
        if len(qs) > 1:
            m = len(exp[qs[0]][1])
            B = sum(lam_q[q] * exp[q][1] for q in qs)
            ev = rnp.linalg.eigvalsh(B)
            k.assume(not ((ev > 1e-11) & (ev < 1e-4)).any())
            pi[s : s + m, s : s + m] = rnp.linalg.pinv(B, rcond=1e-7 / ev[-1], hermitian=True)
    ps = max(1.0, abs(pi).max())
    k.close("pseudo-inverse of overlapping penalties", S_pinv.toarray() / ps, pi / ps, atol=1e-4)
    want = []
    for m in M_:
        key = (m.id,) if m.id is not None and len(by_id.get((m.id,), [])) > 1 else None
        if key is not None:
            want.append(count[by_id[key][0]] == 1)
    want = [count[q] == 1 for q in sorted(single)] + want
    k.check("rank decisions", list(ranks) == want, (list(ranks), want))


def emb(M, N, s):
    out = rnp.zeros((N, N))
    out[s : s + len(M), s : s + len(M)] = M
    return out
