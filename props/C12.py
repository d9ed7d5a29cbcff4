"""C12: design matrices and coefficient bookkeeping."""
from .common import *
from . import fkit
import warnings

R = Registry("C12")
R.exts = ("eigen_solvers",)

FN = ["formula.Formula", "formula.Formula.encode_data", "formula.build_sparse_matrix_from_formula", "formula.build_model_matrix", "terms.i", "terms.l", "terms.f", "terms.fs", "terms.irf", "terms.ri", "terms.rs", "terms.build_linear_term", "terms.get_linear_coef_info", "terms.li"]


def matrix(c, cov_flat, cov, use_only=None):
    F = c.F
    return c.fm.build_sparse_matrix_from_formula(F.terms, F.has_intercept, F.get_linear_term_idx(), F.get_ir_smooth_term_idx(), F.get_smooth_term_idx(), F.get_random_term_idx(), F.get_var_types(), F.get_var_map(), F.get_var_mins(), F.get_var_maxs(), F.get_factor_levels(), cov_flat, cov, use_only=use_only).toarray()


def rcase(k, **kw):
    rng = k.rng
    df, n_per = fkit.data(rng)
    if rng.random() < 0.5:
        df = fkit.add_na(rng, df, list(rng.choice(["y", "x", "z", "w", "g", "h"], size=2, replace=False)))
    cb = None
    if rng.random() < 0.35:
        cb = {"g": dict(zip(["a", "b", "cc"], [int(v) for v in rng.permutation(3)]))}
        if rng.random() < 0.5:
            cb["h"] = {"u": 1, "v": 0}
    descr = fkit.rand_formula(rng, **kw)
    if not any(t["kind"] == "irf" for t in descr):  # unpenalized smooths have to come before penalized terms
        for t in descr:
            if t["kind"] == "f" and rng.random() < 0.15:
                t["is_penalized"] = False
            elif t["kind"] in ("f", "fs"):
                break
    return fkit.Case(k, descr, df, n_per, codebook=cb)


@R.add("design-matrix", symbolic=False, nstand=150, timeout=700, functions=FN, why_bounded="string-keyed bookkeeping over whole data frames", cbound="random formulas over the whole term grammar, 60-90 rows, missing values, custom codebooks")
def design(k):
    rng = k.rng
    c = rcase(k)
    F = c.F
    D = c.df if c.irf else c.df[c.notna]
    des = c.design(D)
    order = c.order()
    k.assume(all(des[t][0].shape[1] > 0 for t in order))
    Xs = rnp.hstack([des[t][0] for t in order])
    if c.irf:
        Xs = Xs[c.notna]
    names = [n for t in order for n in des[t][1]]
    k.check("rows kept", rnp.array_equal(F.get_notNA(), c.notna), "observations with missing values")
    M = c.fm.build_model_matrix(F).toarray()
    k.close("model matrix", M, Xs, atol=2e-6)
    k.check("coefficient names", list(F.coef_names) == names, [(a, b) for a, b in zip(F.coef_names, names) if a != b][:4])
    k.check("number of coefficients", F.n_coef == Xs.shape[1], (F.n_coef, Xs.shape))
    s = 0
    for t in order:
        m = des[t][0].shape[1]
        k.check(f"term {t}: coefficient indices", list(F.coef_idx_per_term[t]) == list(range(s, s + m)) and F.coef_per_term[t] == m, (F.coef_idx_per_term[t], s, m))
        s += m
    un = sum(des[t][0].shape[1] for t in order if c.descr[t]["kind"] in ("i", "l") or c.descr[t].get("is_penalized", True) is False)
    k.check("unpenalized coefficients", F.unpenalized_coef == un, (F.unpenalized_coef, un))
    k.close("response", F.y_flat[F.NOT_NA_flat].flatten(), c.df["y"].values[c.notna])
    # only some terms
    use = [int(t) for t in order if rng.random() < 0.5]
    part = rnp.hstack([des[t][0] if t in use else 0 * des[t][0] for t in order])
    if c.irf:
        part = part[c.notna]
    k.note("use_only", use)
    k.close("selected terms", c.fm.build_model_matrix(F, use_only=use).toarray(), part, atol=2e-6)
    # new data
    nd = c.df[c.notna].copy() if not c.irf else c.df.copy()
    if not c.irf:
        nd = nd.iloc[rng.permutation(len(nd))[: int(rng.integers(3, len(nd)))]].copy()
        for v in ("x", "z", "w"):
            lo, hi = c.rng_of(v)
            nd[v] = rng.uniform(lo, hi, len(nd))
        if c.series:
            nd = nd.sort_values("ser", kind="stable")
    else:
        k.assume(bool(c.notna.all()))
    before = nd.copy()
    _, cf, na, _, cov, _, _ = F.encode_data(nd, prediction=True)
    k.check("encoding leaves new data alone", nd.equals(before))
    k.note("new data", {v: nd[v].tolist() for v in nd.columns})
    pd_ = c.design(nd)
    k.close("prediction matrix", matrix(c, cf, cov), rnp.hstack([pd_[t][0] for t in order]), atol=2e-6)


@R.add("nested-terms", symbolic=False, nstand=60, timeout=600, functions=["formula.Formula.__fix_nested", "formula.build_penalties"], why_bounded="pivoted QR decompositions of data-dependent matrices", cbound="random pairs and triples of nested smooth terms, 150-240 rows")
def nested(k):
    rng = k.rng
    df, n_per = fkit.data(rng, n_ser=16)
    by = None if rng.random() < 0.6 else str(rng.choice(["g", "h"]))
    mk = lambda vs, te: dict(fkit.rand_smooth(rng, "uni" if len(vs) == 1 else ("te" if te else "ti")), variables=vs, by=by, binary=None, by_cont=None, identifiable=True, penalize_null=False)
    te = rng.random() < 0.6
    ds = [dict(kind="i")]
    if by:
        ds.append(dict(kind="l", variables=[by]))
    for v in ("x", "z"):
        if rng.random() < 0.75:
            t = mk([v], False)
            if t["constraint"] == "DROP" or by:
                t["constraint"] = "QR"  # other constraints leave differences of constants (per level) in the space
            ds.append(t)
    t = mk(["x", "z"], te)
    t["constraint"] = "QR"
    ds.append(t)
    if rng.random() < 0.4:
        ds = [ds[0]] + [ds[int(q)] for q in 1 + rng.permutation(len(ds) - 1)]
    c = fkit.Case(k, ds, df, n_per, series=False)
    D = c.df
    full, red = [], []
    des = c.design(D)
    for ti in c.order():
        if c.descr[ti]["kind"] == "f":
            U = c.smooth(ti, D)[1]
            full.append(U)
        else:
            full.append(des[ti][0])
        red.append(des[ti][0])
    A, B = rnp.hstack(full), rnp.hstack(red)
    nrm = lambda M: M / rnp.maximum(1e-300, rnp.sqrt((M**2).sum(axis=0)))
    sva, svb = [rnp.linalg.svd(nrm(M), compute_uv=False) for M in (A, B)]
    k.assume(not ((sva > 1e-13) & (sva < 1e-9)).any())  # numerically undecided
    ra, rb = int((sva > 1e-11).sum()), int((svb > 1e-11).sum())
    k.check("dropping redundant coefficients keeps the column space", ra == rb, (ra, rb, A.shape, B.shape))
    k.check("the remaining coefficients are identifiable", rb == B.shape[1], (rb, B.shape, svb[-3:]))
    drops = [c.terms[ti].drop_coef for ti in c.order() if c.descr[ti]["kind"] == "f" and len(c.descr[ti]["variables"]) == 1]
    k.check("nothing is dropped from the lower-order terms", all(d is None or len(d) == 0 for d in drops), drops)


# ---------------------------------------------------------------- proved: matrices of single terms for every covariate / basis value
def mixed(k, cols):
    """covariate table: columns are lists of codes, or arrays of arbitrary values"""
    n = len(cols[0])
    if k.mode == "sym":
        return np.array([[lift(c[r]) for c in cols] for r in range(n)])
    return rnp.array([[float(c[r]) for c in cols] for r in range(n)])


def collect(k, el, rows, cols, n, m, c0):
    if k.mode == "sym":
        out = [[lift(0) for _ in range(m)] for _ in range(n)]
        for e, i, j in zip(el, rows, cols):
            out[intv(i)][intv(j) - c0] = out[intv(i)][intv(j) - c0] + e
        return np.array(out)
    out = rnp.zeros((n, m))
    for e, i, j in zip(el, rows, cols):
        out[int(i), int(j) - c0] += e
    return out


def intv(x):
    return int(X.int_value(x.scalarE())) if isinstance(x, T) else int(x)


A_, B_ = [1, 0, 2, 1, 0], [0, 1, 1, 0, 0]  # codes of a three-level and a two-level factor, five rows


def lin(vs, dummy, kind="l", by=None):
    def c(k):
        te, ct = k.mod("terms"), k.mod("custom_types")
        n = 5
        u, v = k.arr("u", (n,)), k.arr("v", (n,))
        us, vs_ = k.S("u"), k.S("v")
        cov = mixed(k, [A_, B_, u, v])
        vm = {"a": 0, "b": 1, "u": 2, "v": 3}
        vt = {q: ct.VarType.FACTOR if q in "ab" else ct.VarType.NUMERIC for q in vm}
        fl = {"a": rnp.array(["p", "q", "r"]), "b": rnp.array(["s", "t"])}
        cf = {q: dict(enumerate(fl[q])) for q in fl}
        col = {"a": lambda r, l: lift(int(A_[r] == l)), "b": lambda r, l: lift(int(B_[r] == l)), "u": lambda r, l: us[r], "v": lambda r, l: vs_[r]}
        cs = [([], "")]
        for w in vs:
            opts = range(1 if dummy and kind == "l" else 0, len(fl[w])) if w in fl else [None]
            cs = [(q + [(w, l)], (nm + "_" if nm else "") + (f"{w}_{fl[w][l]}" if w in fl else w)) for q, nm in cs for l in opts]
        if by:
            cs = [(q + [(by, l)], f"{nm}_{fl[by][l]}") for l in range(len(fl[by])) for q, nm in cs]
        spec = [[prodl([col[w](r, l) for w, l in q]) for q, _ in cs] for r in range(n)]
        c0 = 4
        ridx = rnp.arange(n)
        if kind == "l":
            t = te.l(list(vs))
            run = lambda use: t.build_matrix(dummy, c0, 7, vm, vt, fl, ridx, cov, use)
            info = t.get_coef_info(dummy, vt, fl, cf)
            names = [nm for _, nm in cs]
        else:
            t = te.rs(list(vs), by=by)
            run = lambda use: t.build_matrix(c0, 7, vm, vt, fl, ridx, cov, use)
            info = t.get_coef_info(vt, fl, cf)
            names = [f"rs({nm})" for _, nm in cs]
        m = len(cs)
        for use in (None, [7, 1], [2]):
            el, rows, cols, nc = run(use)
            k.ensure_true(f"use {use}: number of columns", int(nc) == m)
            k.ensure_eq(f"use {use}: columns", collect(k, el, rows, cols, n, m, c0), np.array(spec) if use is None or 7 in use else lift(rnp.zeros((n, m))))
        k.ensure_true("coefficient count", int(info[0]) == m and int(info[1]) == (m if kind == "l" else 0))
        k.ensure_true("coefficient names", list(info[2]) == names)

    return c


def prodl(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


for vs in (["u"], ["a"], ["b"], ["a", "b"], ["u", "v"], ["a", "u"], ["u", "b"], ["a", "u", "b"], ["u", "a", "v"]):
    for dummy in (True, False):
        R.add(f"linear:{':'.join(vs)},dummy={dummy}", functions=["terms.l.build_matrix", "terms.build_linear_term", "terms.get_linear_coef_info"], nsamp=6)(lin(vs, dummy))
for vs, by in ((["u"], None), (["u"], "a"), (["b"], "a"), (["u", "b"], "a"), (["a", "u"], None), (["u", "v"], "b")):
    R.add(f"random-slope:{':'.join(vs)},by={by}", functions=["terms.rs.build_matrix", "terms.rs.get_coef_info", "terms.build_linear_term"], nsamp=6)(lin(vs, False, "rs", by))


@R.add("random-intercept", functions=["terms.ri.build_matrix", "terms.ri.get_coef_info", "terms.i.build_matrix"], nsamp=3)
def rint(k):
    te = k.mod("terms")
    n = 5
    u = k.arr("u", (n,))
    cov = mixed(k, [u, A_])
    fl = {"a": rnp.array(["p", "q", "r"])}
    t = te.ri("a")
    for use in (None, [3], [1]):
        el, rows, cols, nc = t.build_matrix(2, 3, {"u": 0, "a": 1}, fl, rnp.arange(n), cov, use)
        k.ensure_true("columns", int(nc) == 3)
        k.ensure_eq(f"use {use}: indicators", collect(k, el, rows, cols, n, 3, 2), lift(rnp.array([[float(A_[r] == l and use != [1]) for l in range(3)] for r in range(n)])))
        el, rows, cols, nc = te.i().build_matrix(2, 3, rnp.arange(n), use)
        k.ensure_eq(f"use {use}: intercept", collect(k, el, rows, cols, n, 1, 2), lift(rnp.ones((n, 1)) * (use != [1])))
    tot, unp, nm = t.get_coef_info(fl, {"a": {0: "p", 1: "q", 2: "r"}})
    k.ensure_true("names", int(tot) == 3 and int(unp) == 0 and list(nm) == ["ri(a_p)", "ri(a_q)", "ri(a_r)"])


def smooth(nk, te_, con, by, binary, by_cont, rp, drop):
    nv = len(nk)

    def c(k):
        te, ct = k.mod("terms"), k.mod("custom_types")
        n = 5
        w = k.arr("w", (n,))
        ident = con is not None
        Ks = [q + (1 if ident and not te_ else 0) for q in nk]
        Bs = [k.arr(f"B{v}", (n, Ks[v]), frame=False) for v in range(nv)]
        calls = []

        def basis(cov, onset, K, min_c=None, max_c=None, **kw):
            calls.append((K, min_c, max_c))
            v = int(min_c)
            assert K == Ks[v] and max_c == min_c + 10
            return Bs[v].copy()

        vn = ["u", "v"][:nv]
        t = te.f(vn, nk=list(nk) if nv > 1 else nk[0], te=te_, by=by, binary=binary, by_cont=by_cont, identifiable=ident, basis=basis, rp=rp, constraint=getattr(ct.ConstType, con or "QR"))
        if binary:
            t.binary_level = 1
        Ms = []
        pre = 1
        Zs = []
        if ident and not te_:
            for v in range(nv):
                Z, ZS = cmat(k, ct, con, Ks[v], f"Z{v}")
                Zs.append(Z)
                Ms.append(matmul(k.S(f"B{v}"), ZS))
        else:
            Ms = [k.S(f"B{v}") for v in range(nv)]
        if rp:
            for v in range(nv):
                C = k.arr(f"C{v}", (nk[v], nk[v]), frame=False)
                t.RP[v].C = C
                Ms[v] = matmul(Ms[v], k.S(f"C{v}"))
        M = Ms[0]
        for q in Ms[1:]:
            a, b = [int(x.shape_[1].args[0]) for x in (M, q)]
            M = np.array([[M[r, i] * q[r, j] for i in range(a) for j in range(b)] for r in range(n)])
        if ident and te_:
            Z, ZS = cmat(k, ct, con, int(rnp.prod(nk)), "Z0")
            Zs.append(Z)
            M = matmul(M, ZS)
        t.Z = Zs
        m = int(M.shape_[1].args[0])
        if by_cont:
            M = np.array([[M[r, j] * k.S("w")[r] for j in range(m)] for r in range(n)])
        lv = 3 if by else 1
        sel = lambda r, l: A_[r] == l if by else (B_[r] == 1 if binary else True)
        keep = [(l, j) for l in range(lv) for j in range(m) if l * m + j not in (drop or [])]
        if drop:
            t.drop_coef = rnp.array(drop)
        spec = np.array([[M[r, j] if sel(r, l) else lift(0) for l, j in keep] for r in range(n)])
        cov = mixed(k, [[0.5] * n, [0.25] * n, w, A_, B_])
        vm = {"u": 0, "v": 1, "w": 2, "a": 3, "b": 4}
        fl = {"a": rnp.array(["p", "q", "r"]), "b": rnp.array(["s", "t"])}
        mins, maxs = {"u": 0, "v": 1}, {"u": 10, "v": 11}
        for use in (None, [0]):
            el, rows, cols, nc = t.build_matrix(6, 2, vm, mins, maxs, fl, rnp.arange(n), cov, use, -1)
            k.ensure_true(f"use {use}: number of columns", int(nc) == len(keep))
            k.ensure_eq(f"use {use}: columns", collect(k, el, rows, cols, n, len(keep), 6), spec if use is None else lift(rnp.zeros((n, len(keep)))))
        tot, unp, nm = t.get_coef_info(fl)
        lab = "_".join(vn) + (binary[0] if binary else "")
        k.ensure_true("coefficient names", int(tot) == len(keep) and int(unp) == 0 and list(nm) == [f"f_{lab}_{j}" + (f"_{fl['a'][l]}" if by else "") for l, j in keep])

    return c


def cmat(k, ct, con, K, name):
    """constraint object and the matrix it stands for"""
    if con == "QR":
        Z = k.arr(name, (K, K - 1))
        return ct.Constraint(Z, ct.ConstType.QR), k.S(name)
    z = K // 2
    M = rnp.delete(rnp.eye(K), z, axis=1) if con == "DROP" else fkit.diffmat(K, z)
    return ct.Constraint(z, getattr(ct.ConstType, con)), lift(M)


for cfg in (((3,), False, "QR", None, None, None, 0, None), ((3,), False, "DROP", "a", None, "w", 0, None), ((3,), False, "DIFF", None, None, "w", 1, None), ((3,), False, "QR", "a", None, None, 1, [1, 5, 6]), ((3,), False, None, None, ("b", "t"), None, 0, None), ((3,), False, None, None, ("b", "t"), "w", 0, [0, 2]), ((2, 3), True, "QR", None, None, None, 0, [2]), ((2, 2), True, "DROP", "a", None, None, 0, [0, 4]), ((2, 2), True, "DIFF", None, ("b", "t"), None, 0, None), ((2, 2), False, "QR", None, None, "w", 0, None), ((2, 3), False, "DROP", "a", None, None, 0, [3, 17]), ((2, 2), False, "QR", None, None, None, 2, [1]), ((2, 2), True, None, "a", None, None, 2, None), ((3,), False, "DIFF", None, None, None, 0, [1])):
    nk, te_, con, by, binary, by_cont, rp, drop = cfg
    if binary and con is not None:
        con = None
    nm = f"smooth:{'x'.join(map(str, nk))}{',te' if te_ else ''},{con},by={by},binary={bool(binary)},by_cont={by_cont},rp={rp},drop={drop}"
    R.add(nm, functions=["terms.f.build_matrix", "terms.f.get_coef_info", "smooths.TP_basis_calc"], nsamp=6)(smooth(nk, te_, con, by, binary, by_cont, rp, drop))
