"""C14: AR(1) whitening of working models; cross products and predictors accumulated piecewise or from files."""
from .common import *
from . import fkit
import contextlib, os, tempfile, shutil
import warnings as rwarn

R = Registry("C14")
R.exts = ("eigen_solvers",)
GS = "gamm_solvers."


class Form:
    """what computeAr1Chol reads of a formula"""

    def __init__(self, lay, series, na):
        n = len(lay)
        self.y_flat = rnp.arange(n, dtype=float).reshape(-1, 1)
        self.NOT_NA_flat = rnp.array([not a for a in na])
        self.series_id = "ser" if series else None
        lay = rnp.asarray(lay)
        self.sid = rnp.array([0] + [i for i in range(1, n) if lay[i] != lay[i - 1]]) if series else None


LAY = {
    "one-series": ([0, 0, 0, 0], False, [0, 0, 0, 0]),
    "one-series-id": ([0, 0, 0], True, [0, 0, 0]),
    "two-series": ([0, 0, 1, 1], True, [0, 0, 0, 0]),
    "singleton": ([0, 1, 1, 2], True, [0, 0, 0, 0]),
    "na-inside": ([0, 0, 0, 1, 1], True, [0, 1, 0, 0, 0]),
    "na-at-start": ([0, 0, 1, 1, 1], True, [0, 0, 1, 0, 0]),
    "na-first": ([0, 0, 0, 1, 1], True, [1, 0, 0, 1, 0]),
    "na-whole-series": ([0, 0, 1, 1, 2], True, [0, 0, 1, 1, 0]),
    "na-no-series": ([0, 0, 0, 0], False, [1, 0, 1, 0]),
}


def ar1(name):
    lay, series, na = LAY[name]

    def c(k):
        ut = k.mod("utils")
        rho = k.scalar("rho", facts=lambda e: [lt(const(-1), e), lt(e, const(1))], sample=lambda rg, s: rg.uniform(-0.95, 0.95))
        F = Form(lay, series, na)
        L, llc = ut.computeAr1Chol(F, rho)
        r = k.S("rho")
        kept = [s for s, a in zip(lay, na) if not a]
        n = len(kept)
        # covariance of a stationary AR(1) process of the kept observations, independent between series
        V = [[r ** abs(i - j) if kept[i] == kept[j] else lift(0) for j in range(n)] for i in range(n)]
        L = L if k.mode == "sym" else L.toarray()
        # V^-1 = L L' with L' whitening: entry by entry (L' V L = I)
        if k.mode == "sym":
            W = matmul(matmul(lift(L).T, np.array(V)), lift(L))
        else:
            W = L.T @ evalT(np.array(V), k.env) @ L
        k.ensure_eq("whitening turns the AR(1) covariance into the identity", W, rnp.eye(n), atol=1e-7)
        D_ = rnp.eye(n)
        low = [(i, j) for i in range(n) for j in range(i)]
        for i, j in low:
            k.ensure_eq(f"entry {i},{j} below the diagonal", L[i, j], 0.0)
        first = sum(1 for i in range(n) if i == 0 or kept[i] != kept[i - 1])
        k.ensure_eq("log-determinant correction", llc, lift(0) - (n - first) * log(1 - r * r) / 2, atol=1e-7)

    return c


for nm in LAY:
    R.add(f"ar1:{nm}", functions=["utils.computeAr1Chol"], nsamp=8)(ar1(nm))


def whit(fam, link):
    """working response and design of a weighted model are whitened with the rows that remain"""

    def c(k):
        gs, ef = k.mod("gamm_solvers"), k.mod("exp_fam")
        n, p = 3, 2
        F = getattr(ef, fam)(getattr(ef, link)())
        y, mu = k.arr("y", (n, 1), "pos"), k.arr("mu", (n, 1), "pos" if link != "Logit" else "prob")
        eta = k.arr("eta", (n, 1), "small")
        X = k.arr("X", (n, p), sp=True)
        Lr = k.arr("Lr", (n, n), sp=True)
        yb, Xb, z, Wr = gs.update_PIRLS(y, y, mu, eta, X, X, F, Lr)
        z0, w0, _ = gs.PIRLS_pdat_weights(y, mu, eta, F)
        M = k.S("mu")
        if k.mode == "sym":
            zz, ww = lift(z0), lift(w0)
            rw = np.sqrt(ww)
            lt_ = k.S("Lr").T
            k.ensure_eq("whitened response", yb, matmul(lt_, rw * zz))
            k.ensure_eq("whitened design", Xb, matmul(lt_, rw * k.S("X")))
            k.ensure_eq("pseudo-data are returned", z, zz)
        else:
            z0, rw = rnp.asarray(z0), rnp.sqrt(rnp.asarray(w0))
            k.close("whitened response", yb, Lr.toarray().T @ (rw * z0))
            k.close("whitened design", Xb.toarray(), Lr.toarray().T @ (rw * X.toarray()))
            k.close("pseudo-data are returned", z, z0)
            k.close("root weights", Wr.toarray(), rnp.diag(rw.flatten()))

    return c


for fam, link in (("Gamma", "LOG"), ("Poisson", "LOG")):
    R.add(f"whitened-working-model:{fam}", functions=[GS + "update_PIRLS", GS + "PIRLS_pdat_weights"], nsamp=8)(whit(fam, link))


@R.add("whitened-with-missing", symbolic=False, nstand=80, functions=[GS + "update_PIRLS", GS + "update_scale_edf"], why_bounded="rows without a usable weight", cbound="random Gamma/Binomial/Poisson working models with up to three unusable rows")
def whm(k):
    import scipy.sparse as sp

    rng, gs, ef = k.rng, k.mod("gamm_solvers"), k.mod("exp_fam")
    n, p = int(rng.integers(5, 12)), 2
    kind = str(rng.choice(["Gamma", "Poisson"]))
    F = getattr(ef, kind)()
    mu = rng.uniform(0.5, 3, size=(n, 1))
    y = rng.uniform(0.5, 3, size=(n, 1))
    bad = rng.choice(n, size=int(rng.integers(0, 4)), replace=False)
    mu[bad] = rnp.nan
    eta = rng.normal(size=(n, 1))
    X = rng.normal(size=(n, p))
    L = rnp.triu(rng.normal(size=(n, n)), 0)
    L = rnp.diag(rnp.diag(L)) + rnp.diag(rnp.diag(L, 1), 1)
    k.note("mu", mu), k.note("y", y), k.note("eta", eta), k.note("L", L)
    ok = rnp.ones(n, dtype=bool)
    ok[bad] = False
    with rwarn.catch_warnings():
        rwarn.simplefilter("ignore")
        yb, Xb, z, Wr = gs.update_PIRLS(y, y, mu, eta, sp.csc_array(X), sp.csc_array(X), F, sp.csr_array(L))
        z0, w0, inv = gs.PIRLS_pdat_weights(y, mu, eta, F)
    rw = rnp.sqrt(w0[ok])
    Lk = L[rnp.ix_(ok, ok)]
    k.close("response", yb, Lk.T @ (rw * z0[ok]))
    k.close("design", Xb.toarray(), Lk.T @ (rw * X[ok]))
    eta2 = rng.normal(size=(n, 1))
    F.scale = None if kind == "Gamma" else 1.0
    wres, Li, edf, te, Bs, sc = gs.update_scale_edf(y, z, eta2, Wr, n, p, None, None, None, None, sp.csr_array(L), F, [], None, None, 1)
    want = Lk.T @ (rw * (z0[ok] - eta2[ok]))
    k.close("whitened residuals", wres, want)
    k.close("edf without penalties", edf, p)
    k.close("scale", sc, (want**2).sum() / (ok.sum() - p) if kind == "Gamma" else 1.0)


# ---------------------------------------------------------------- accumulation
@contextlib.contextmanager
def quiet():
    with rwarn.catch_warnings():
        rwarn.simplefilter("ignore")
        yield


def csvs(df, rng, d, kw):
    n = len(df)
    m = int(rng.integers(1, 4))
    cuts = sorted(rng.choice(rnp.arange(8, n - 8), size=m - 1, replace=False)) if m > 1 else []
    files = []
    for q, (a, b) in enumerate(zip([0, *cuts], [*cuts, n])):
        files.append(f"{d}/part{q}.csv")
        df.iloc[a:b].to_csv(files[-1], index=False, sep=kw.get("sep", ","))
    return files


def plain_formula(rng):
    while True:
        ds = fkit.rand_formula(rng, irf_ok=False)
        if all((t["kind"] != "fs" or not t.get("by_subgroup")) and not t.get("rp") and (not t.get("identifiable") or t["constraint"] == "QR") for t in ds):
            return ds


@R.add("accumulated", symbolic=False, nstand=24, timeout=700, functions=[GS + "keep_XTX", GS + "read_XTX", GS + "keep_eta", GS + "read_eta", GS + "form_cross_prod_mp", GS + "form_eta_mp", GS + "read_mmat", "file_loading.read_unique", "file_loading.read_cov_no_cor", "file_loading.read_dtype", "formula.Formula"], why_bounded="worker processes and files", cbound="random formulas over the term grammar, random splits of random data into one to three files, one to three workers, cached and uncached model matrices, missing responses, separators")
def accum(k):
    import pandas as pd

    rng, gs, fm = k.rng, k.mod("gamm_solvers"), k.mod("formula")
    df, n_per = fkit.data(rng, n_ser=4)
    if rng.random() < 0.5:
        df = df.copy()
        df.loc[rng.choice(len(df), size=3, replace=False), "y"] = rnp.nan
    ds = plain_formula(rng)
    with quiet():
        case = fkit.Case(k, ds, df, n_per, series=False, find_nested=False)
    keep = bool(rng.integers(2))
    cache = bool(rng.integers(2))
    nc = int(rng.integers(1, 4))
    kw = {"header": 0, "index_col": False}
    if rng.random() < 0.3:
        kw["sep"] = ";"
    k.note("keep_cov", keep), k.note("cached", cache), k.note("workers", nc), k.note("kwargs", kw)
    d = tempfile.mkdtemp(prefix="vtc14")
    old = gs.CACHE_DIR, gs.SHOULD_CACHE
    try:
        files = csvs(df, rng, d, kw)
        with quiet():
            terms = [q for t in ds for q in fkit.build(case.mods, t)]
            F = fm.Formula(fm.lhs("y"), terms, data=None, file_paths=files, print_warn=False, keep_cov=keep, find_nested=False, file_loading_nc=nc, file_loading_kwargs=kw)
            P2 = fm.build_penalties(F)
        k.check("coefficients", F.n_coef == case.F.n_coef and list(F.coef_names) == list(case.F.coef_names), (F.n_coef, case.F.n_coef))
        if F.n_coef != case.F.n_coef:
            return
        for a, b in zip(case.pens, P2):
            k.close("penalties do not depend on where the data come from", b.S_J_emb.toarray(), a.S_J_emb.toarray(), atol=1e-6)
        des = case.design(df)
        X = rnp.hstack([des[ti][0] for ti in case.order()])[case.notna]
        y = df["y"].values[case.notna]
        X = X.toarray() if hasattr(X, "toarray") else rnp.asarray(X)
        gs.CACHE_DIR, gs.SHOULD_CACHE = d + "/cache", cache
        if cache:
            os.makedirs(d + "/cache")
        b = rng.normal(size=F.n_coef)
        with quiet():
            for rnd in range(2 if cache else 1):
                if keep:
                    yy = F.y_flat[F.NOT_NA_flat].reshape(-1, 1)
                    k.close("response", yy[:, 0], y)
                    XX, Xy = gs.keep_XTX(F.cov_flat[F.NOT_NA_flat, :], yy, F, nc, False)
                    eta = gs.keep_eta(F, b, nc)
                else:
                    XX, Xy, rows = 0, 0, 0
                    eta = []
                    for f_ in files:
                        a1, a2, a3 = gs.read_XTX(f_, F, nc)
                        XX, Xy, rows = XX + a1, Xy + a2, rows + a3
                        eta.extend(gs.read_eta(f_, F, b, nc))
                    k.check("rows", rows == len(y), (rows, len(y)))
                lab = " (cached)" if rnd else ""
                sc = max(1.0, abs(X.T @ X).max())
                k.close("cross product" + lab, XX.toarray() / sc, X.T @ X / sc, atol=1e-7)
                k.close("X'y" + lab, rnp.asarray(Xy).flatten() / sc, X.T @ y / sc, atol=1e-7)
                k.close("predictor" + lab, rnp.array(eta).flatten(), X @ b, atol=1e-6)
    finally:
        gs.CACHE_DIR, gs.SHOULD_CACHE = old
        shutil.rmtree(d, ignore_errors=True)


@R.add("file-reading", symbolic=False, nstand=20, timeout=300, functions=["file_loading.read_unique", "file_loading.read_cov", "file_loading.read_cov_no_cor", "file_loading.read_dtype", "file_loading.setup_cache", "file_loading.clear_cache"], why_bounded="files and worker processes", cbound="random data in one to three files")
def fl(k):
    rng, fl = k.rng, k.mod("file_loading")
    df, _ = fkit.data(rng, n_ser=4)
    df = df.copy()
    df.loc[rng.choice(len(df), size=4, replace=False), "y"] = rnp.nan
    d = tempfile.mkdtemp(prefix="vtc14")
    try:
        kw = {"header": 0, "index_col": False}
        files = csvs(df, rng, d, kw)
        nc = int(rng.integers(1, 4))
        for c in ("g", "sub", "k", "x"):
            u = fl.read_unique(c, files, nc, kw)
            k.check(f"levels of {c}, in order", len(u) == len(set(df[c])) and all(a == b or abs(float(a) - float(b)) < 1e-9 for a, b in zip(u, sorted(set(df[c])))), list(u)[:5])
            k.check(f"type of {c}", fl.read_dtype(c, files[0], kw) == (df[c].dtype if c in ("k", "x") else object) or c in ("g", "sub"))
        k.close("all rows in file order", fl.read_cov_no_cor("x", files, nc, kw), df["x"].values)
        k.close("rows with a response in file order", fl.read_cov("y", "x", files, nc, kw), df["x"].values[~rnp.isnan(df["y"].values)])
        with quiet():
            cd = d + "/cc"
            fl.setup_cache(cd, True)
            k.check("cache directory", os.path.isdir(cd))
            k.raises("an existing cache directory is refused", ValueError, lambda: fl.setup_cache(cd, True))
            open(cd + "/f", "w").close()
            keepf = d + "/other"
            open(keepf, "w").close()
            fl.clear_cache(cd, True)
            k.check("cache is removed, nothing else", not os.path.exists(cd) and os.path.exists(keepf) and all(os.path.exists(f) for f in files))
    finally:
        shutil.rmtree(d, ignore_errors=True)
