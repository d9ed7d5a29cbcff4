"""Random model formulas with an independent account of the design matrix columns and penalties they denote."""
import numpy as np
import scipy.linalg as sl
from scipy.interpolate import BSpline
import warnings


def bspl(x, nk, lo, hi, deg=3):
    dx = (hi - lo) / (nk - deg)
    t = lo + dx * np.arange(-deg, nk + 1)
    x = np.asarray(x, float)
    out = np.zeros((len(x), nk))
    for q in range(nk):
        out[:, q] = np.nan_to_num(BSpline.basis_element(t[q : q + deg + 2], extrapolate=False)(x))
    return out


def bspl_irf(n, dt, onset, nk, lo, hi, deg=3):
    t = np.linspace(lo, hi, nk + deg + 1)
    x = np.arange(n) * dt
    D = np.column_stack([np.nan_to_num(BSpline.basis_element(t[q : q + deg + 2], extrapolate=False)(x)) for q in range(nk)])
    W = np.zeros_like(D)
    W[onset:] = D[: n - onset]
    return W


def rowkron(A, B):
    return (A[:, :, None] * B[:, None, :]).reshape(A.shape[0], -1)


def diffmat(K, z):
    """columns of the difference recoding with cut z: c -> x_{next} - x_{this}, in the order of the remaining columns"""
    order = list(range(z, K)) + list(range(z))
    d = []
    for t in range(K - 1):
        e = np.zeros(K)
        e[order[t + 1]] += 1
        e[order[t]] -= 1
        d.append(e)
    d = d[K - 1 - z :] + d[: K - 1 - z]
    return np.array(d).T


# ------------------------------------------------------------------------------------------ data
def data(rng, n_ser=6, codebook=False):
    import pandas as pd

    n_per = rng.integers(9, 16, size=n_ser)
    n = int(n_per.sum())
    d = {}
    d["y"] = rng.normal(size=n)
    d["x"] = rng.uniform(-1, 2, n)
    d["z"] = rng.uniform(0, 1, n)
    d["w"] = rng.normal(size=n)
    d["k"] = rng.integers(-3, 4, n).astype(np.int64)
    g = np.array(["a", "b", "cc"])
    d["g"] = g[np.concatenate([[2, 0, 1], rng.integers(0, 3, n - 3)])]
    d["h"] = np.array(["u", "v"])[np.concatenate([[1, 0], rng.integers(0, 2, n - 2)])]
    ser = np.repeat(np.array(["s%d" % ((7 * q + 3) % 31) for q in range(n_ser)]), n_per)
    d["ser"] = ser
    d["sg"] = np.repeat(g[np.concatenate([[1, 2, 0], rng.integers(0, 3, n_ser - 3)])], n_per)  # constant within series
    d["sub"] = np.repeat(np.array(["p3", "p1", "p2", "p4"])[np.arange(n_ser) % 4], n_per)
    d["time"] = np.concatenate([np.arange(m) * 0.5 for m in n_per])
    df = pd.DataFrame(d)
    # subjects p1,p3 in group u, others in v (nesting for factor smooths of a sub-group)
    df["grp"] = np.where(df["sub"].isin(["p1", "p3"]), "u", "v")
    for c in ("g", "h", "ser", "sg", "sub", "grp"):
        df[c] = df[c].astype(object)
    return df, n_per


def add_na(rng, df, cols):
    df = df.copy()
    for c in cols:
        i = rng.integers(0, len(df), size=int(rng.integers(1, 4)))
        df.loc[df.index[i], c] = np.nan if df[c].dtype != object else None
    return df


# ------------------------------------------------------------------------------------------ descriptions
def rand_smooth(rng, fam=None):
    """description of a univariate or tensor f()"""
    t = dict(kind="f")
    fam = fam or rng.choice(["uni", "uni", "te", "ti"])
    t["variables"] = [str(rng.choice(["x", "z", "k"]))] if fam == "uni" else [["x", "z"], ["z", "x"], ["x", "w"]][int(rng.integers(0, 3))]
    t["te"] = fam == "te"
    t["nk"] = int(rng.integers(5, 9)) if fam == "uni" else ([int(rng.integers(4, 6)) for _ in range(2)] if fam == "te" else [int(rng.integers(3, 5)) for _ in range(2)])
    r = rng.random()
    t["by"] = t["binary"] = t["by_cont"] = None
    if r < 0.3:
        t["by"] = str(rng.choice(["g", "h"]))
    elif r < 0.45:
        t["binary"] = ("h", "v") if rng.random() < 0.5 else ("g", "b")
    if rng.random() < 0.25:
        t["by_cont"] = "w" if "w" not in t["variables"] else "k"
    t["id"] = int(rng.integers(1, 90)) if rng.random() < 0.4 else None
    t["constraint"] = str(rng.choice(["QR", "QR", "DROP", "DIFF"]))
    t["identifiable"] = bool(rng.random() < 0.8)
    t["rp"] = 0 if rng.random() < 0.5 else (1 if fam == "uni" else 2)
    if t["rp"] == 2 and fam == "ti":
        t["constraint"] = "QR"
    if t["variables"] == ["k"]:
        t["rp"] = 0  # few distinct values: the natural parameterisation needs a full-rank basis
    if fam == "te" and t["constraint"] == "DIFF" and t["rp"]:
        t["constraint"] = "QR"
    if fam == "ti" and not t["identifiable"]:
        t["nk"] = [int(q) + 1 for q in t["nk"]]
    t["scale_te"] = bool(rng.random() < 0.7)
    t["penalize_null"] = bool(rng.random() < 0.35)
    r = rng.random()
    if r < 0.6:
        t["pens"] = None
    elif r < 0.8:
        t["pens"] = [("diff", int(rng.choice([1, 2])))]
    elif r < 0.9 or t["rp"]:
        t["pens"] = [("ident", None)] if fam == "uni" and not t["penalize_null"] else [("diff", 1)]
    else:
        t["pens"] = [("diff", 2), ("diff", 1)] if fam == "uni" and not t["penalize_null"] else [("diff", 2)]
    if t["binary"] is not None and not t["te"]:
        t["nk"] = t["nk"] if fam == "uni" else int(rng.integers(3, 5)) + (not t["identifiable"])
    return t


def effective(t):
    """documented defaults: a binary smooth carries no constraint and one extra coefficient instead"""
    t = dict(t)
    if t["binary"] is not None and t["identifiable"]:
        t["identifiable"] = False
        if not t["te"]:
            t["nk"] = t["nk"] + 1
    nv = len(t["variables"])
    if nv > 1 and not isinstance(t["nk"], list):
        t["nk"] = [t["nk"]] * nv
    t["nks"] = t["nk"] if nv > 1 else [t["nk"]]
    t["pens"] = t["pens"] or [("diff", 2)]
    return t


def build(mods, t):
    terms, pen, ct = mods
    k = t["kind"]
    if k == "i":
        return [terms.i()]
    if k == "l":
        return [terms.l(list(t["variables"]))]
    if k == "li":
        return list(terms.li(list(t["variables"])))
    if k == "f":
        kw = {}
        if t["pens"] is not None:
            kw["penalty"] = [pen.DifferencePenalty() if p[0] == "diff" else pen.IdentityPenalty(ct.PenType.IDENTITY) for p in t["pens"]]
            kw["pen_kwargs"] = [{"m": p[1]} if p[0] == "diff" else ({} if p[1] is None else {"f": p[1]}) for p in t["pens"]]
        return [terms.f(list(t["variables"]), by=t["by"], by_cont=t["by_cont"], binary=t["binary"], id=t["id"], nk=t["nk"] if not isinstance(t["nk"], list) else list(t["nk"]), te=t["te"], rp=t["rp"], constraint=getattr(ct.ConstType, t["constraint"]), identifiable=t["identifiable"], scale_te=t["scale_te"], is_penalized=t.get("is_penalized", True), penalize_null=t["penalize_null"], **kw)]
    if k == "fs":
        return [terms.fs(list(t["variables"]), rf=t["rf"], nk=t["nk"], m=t["m"], rp=t["rp"], by_cont=t.get("by_cont"), by_subgroup=t.get("by_subgroup"))]
    if k == "irf":
        return [terms.irf(list(t["variables"]), list(t["onset"]), [dict(b) for b in t["bk"]], by=t["by"], id=t["id"], nk=t["nk"], is_penalized=t.get("is_penalized", True))]
    if k == "ri":
        return [terms.ri(t["variable"], id=t.get("id"))]
    if k == "rs":
        return [terms.rs(list(t["variables"]), by=t["by"], id=t.get("id"))]
    raise ValueError(k)


def expand(descr):
    """one description per term (li() gives one per main effect and interaction)"""
    from itertools import combinations

    out = []
    for t in descr:
        if t["kind"] == "li":
            for o in range(1, len(t["variables"]) + 1):
                out += [dict(kind="l", variables=list(c)) for c in combinations(t["variables"], o)]
        else:
            out.append(t)
    return out


def rand_formula(rng, rich=True, irf_ok=True):
    """list of descriptions"""
    ds = []
    if rng.random() < 0.85:
        ds.append(dict(kind="i"))
    r = rng.random()
    if r < 0.2:
        ds.append(dict(kind="li", variables=list(rng.choice(["g", "h", "w", "k"], size=int(rng.integers(2, 4)), replace=False))))
    elif r < 0.7:
        for _ in range(int(rng.integers(1, 3))):
            ds.append(dict(kind="l", variables=list(rng.choice(["g", "h", "w", "k", "x"], size=int(rng.choice([1, 1, 2])), replace=False))))
    if irf_ok and rng.random() < 0.3:
        ds.append(dict(kind="irf"))
    for _ in range(int(rng.integers(0, 3))):
        t = rand_smooth(rng)
        if len(t["variables"]) > 1 and any(set(q.get("variables", [])) == set(t["variables"]) for q in ds if q["kind"] == "f"):
            continue  # the same tensor twice: one is redundant as a whole
        ds.append(t)
    if rng.random() < 0.2:
        ds.append(dict(kind="fs", variables=[str(rng.choice(["x", "z"]))], rf="sub", nk=int(rng.integers(4, 7)), m=int(rng.choice([1, 2])), rp=int(rng.choice([1, 1, 0])), by_cont=None if rng.random() < 0.8 else "w", by_subgroup=("grp", str(rng.choice(["u", "v"]))) if rng.random() < 0.4 else None))
    if rng.random() < 0.3:
        ds.append(dict(kind="ri", variable=str(rng.choice(["sub", "g"])), id=int(rng.integers(200, 300)) if rng.random() < 0.3 else None))
    if rng.random() < 0.3:
        ds.append(dict(kind="rs", variables=list(rng.choice(["x", "w", "h"], size=int(rng.choice([1, 1, 2])), replace=False)), by="sub" if rng.random() < 0.6 else None, id=int(rng.integers(300, 400)) if rng.random() < 0.3 else None))
    if not any(d["kind"] not in ("i",) for d in ds):
        ds.append(rand_smooth(rng))
    order = rng.permutation(len(ds)) if rng.random() < 0.3 else np.arange(len(ds))
    return [ds[q] for q in order]


class Case:
    """a formula of the repository together with its independent description"""

    def __init__(self, k, descr, df, n_per, codebook=None, na=None, **kw):
        self.k, self.df, self.n_per = k, df, n_per
        self.mods = (k.mod("terms"), k.mod("penalties"), k.mod("custom_types"))
        fm = k.mod("formula")
        self.fm = fm
        rng = k.rng
        for t in descr:
            if t["kind"] == "irf" and "nk" not in t:
                t.update(variables=["time"], onset=[int(rng.integers(0, m)) for m in n_per], by="sg" if rng.random() < 0.4 else None, id=int(rng.integers(100, 180)) if rng.random() < 0.3 else None, nk=int(rng.integers(5, 8)))
                t["hi"] = float(rng.choice([3.0, 4.5]))
                t["bk"] = [{"min_c": 0.0, "max_c": t["hi"], "convolve": True}]
        self.irf = any(t["kind"] == "irf" for t in descr)
        self.series = kw.pop("series", self.irf or rng.random() < 0.3)
        self.descr = expand(descr)
        terms = [q for t in descr for q in build(self.mods, t)]
        self.terms = terms
        self.codebook = codebook
        k.note("terms", repr(descr))
        k.note("data", {c: [None if v is None or v != v else v for v in df[c].tolist()] for c in df.columns})
        k.note("codebook", repr(codebook))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.F = fm.Formula(fm.lhs("y"), terms, data=df, series_id="ser" if self.series else None, codebook=codebook, print_warn=False, **kw)
            self.pens = fm.build_penalties(self.F)
        used = {"y"}
        for t in self.descr:
            used |= set(t.get("variables", [])) | ({t["variable"]} if "variable" in t else set())
            for a in ("by", "by_cont", "rf"):
                if t.get(a):
                    used.add(t[a])
            if t.get("binary"):
                used.add(t["binary"][0])
            if t.get("by_subgroup"):
                used.add(t["by_subgroup"][0])
        self.used = used
        self.notna = ~df[sorted(used)].isna().any(axis=1).values

    # ---- factor levels in the order of their codes
    def levels(self, var, sub=None):
        s = self.df[var]
        if sub is not None:
            s = self.df.loc[self.df[sub[0]] == sub[1], var]
        lv = sorted(v for v in set(s) if v is not None and v == v)
        if self.codebook and var in self.codebook:
            lv = sorted(lv, key=lambda v: self.codebook[var][v])
        return lv

    def isfac(self, v):
        return self.df[v].dtype == object

    def rng_of(self, v):
        a = self.df[v].values.astype(float)
        return np.nanmin(a), np.nanmax(a)

    # ---- linear columns
    def lincols(self, vs, dummy, D):
        cols = [(None, np.ones(len(D)))]
        names = [""]
        for v in vs:
            new, nn = [], []
            for (_, c), nm in zip(cols, names):
                if self.isfac(v):
                    for lv in self.levels(v)[1 if dummy else 0 :]:
                        new.append((None, c * (D[v] == lv).values.astype(float)))
                        nn.append((nm + "_" if nm else "") + f"{v}_{lv}")
                else:
                    new.append((None, c * D[v].values.astype(float)))
                    nn.append((nm + "_" if nm else "") + v)
            cols, names = new, nn
        return np.column_stack([c for _, c in cols]), names

    # ---- smooth terms
    def smooth(self, ti, D, label=None):
        """expected columns on D (before dropping), the pre-constraint pieces and penalties"""
        k = self.k
        t = effective(self.descr[ti]) if self.descr[ti]["kind"] == "f" else self.fs_as_f(self.descr[ti])
        term = self.terms[ti]
        nv = len(t["variables"])
        tr = self.df[self.notna]
        Ws, Bs, Btr, Pv = [], [], [], []
        for v, (var, nk) in enumerate(zip(t["variables"], t["nks"])):
            K = nk + 1 if (t["identifiable"] and not t["te"]) else nk
            lo, hi = self.rng_of(var)
            B = bspl(D[var].values, K, lo, hi)
            Bt = bspl(tr[var].values, K, lo, hi)
            W = np.eye(K)
            if t["identifiable"] and not t["te"]:
                W = self.constraint(term, v, t["constraint"], Bt, f"term {ti} variable {v}")
            pv = []
            for kind, m in t["pens"]:
                if kind == "diff":
                    Dm = np.diff(np.eye(K), m)
                    P = W.T @ Dm @ Dm.T @ W
                else:
                    P = np.diag([1.0 if m is None else m(q + 1) for q in range(W.shape[1])])
                pv.append(P)
            if t["rp"] == 1:
                C = np.asarray(term.RP[v].C.toarray() if hasattr(term.RP[v].C, "toarray") else term.RP[v].C)
                G = (Bt @ W @ C).T @ (Bt @ W @ C)
                dg = np.sqrt(np.diag(G))
                k.close(f"term {ti}: natural parameterisation has orthogonal columns", G / np.outer(dg, dg), np.eye(len(G)), atol=1e-4)
                S0 = C.T @ pv[0] @ C
                e = np.diag(S0)
                r = np.linalg.matrix_rank(pv[0], tol=1e-8 * max(1, abs(pv[0]).max()))
                k.close(f"term {ti}: natural parameterisation makes the penalty a multiple of a partial identity", S0 / max(e[0], 1e-12), np.diag([1.0] * r + [0.0] * (len(e) - r)), atol=1e-4)
                W = W @ C
                pv = [C.T @ P @ C for P in pv]
            elif t["rp"] == 2:
                lo, hi = self.rng_of(var)
                A = bspl(np.linspace(lo, hi, W.shape[1]), K, lo, hi) @ W
                C = np.linalg.inv(A)
                W = W @ C
                pv = [C.T @ P @ C for P in pv]
            Ws.append(W)
            Bs.append(B @ W)
            Btr.append(Bt @ W)
            Pv.append(pv)
        U, Ut = Bs[0], Btr[0]
        for q in range(1, nv):
            U, Ut = rowkron(U, Bs[q]), rowkron(Ut, Btr[q])
        Zc = np.eye(U.shape[1])
        if t["te"] and t["identifiable"]:
            Zc = self.constraint(term, 0, t["constraint"], Ut, f"term {ti}")
        base = []
        for pi in range(len(t["pens"])):
            for v in range(nv):
                P = Pv[v][pi]
                if nv > 1:
                    if t["scale_te"]:
                        P = P / np.linalg.eigvalsh(P)[-1]
                    M = np.eye(1)
                    for q in range(nv):
                        M = np.kron(M, P if q == v else np.eye(Bs[q].shape[1]))
                    P = Zc.T @ M @ Zc
                base.append(P)
        U = U @ Zc
        if t["by_cont"]:
            U = U * D[t["by_cont"]].values.astype(float)[:, None]
        lv = None
        if t["by"]:
            lv = self.levels(t["by"], t.get("by_subgroup"))
            U = np.hstack([U * (D[t["by"]] == q).values[:, None] for q in lv])
        elif t["binary"]:
            U = U * (D[t["binary"][0]] == t["binary"][1]).values[:, None]
        nl = len(lv) if lv is not None else 1
        p = Zc.shape[1]
        lab = "_".join(t["variables"]) + (t["binary"][0] if t["binary"] else "")
        names = [f"f_{lab}_{q}" + (f"_{l}" if lv is not None else "") for l in (lv or [""]) for q in range(p)]
        return t, U, names, base, p, nl

    def fs_as_f(self, d):
        return dict(kind="f", variables=d["variables"], by=d["rf"], by_subgroup=d.get("by_subgroup"), binary=None, by_cont=d.get("by_cont"), id=99, nk=d["nk"] + 1, nks=[d["nk"] + 1], te=False, identifiable=False, rp=d["rp"], constraint="QR", scale_te=False, penalize_null=True, pens=[("diff", d["m"])])

    def constraint(self, term, v, ct, Bt, lab):
        K = Bt.shape[1]
        if ct == "DROP":
            return np.delete(np.eye(K), int(K / 2), axis=1)
        if ct == "DIFF":
            return diffmat(K, int(K / 2))
        Z = np.asarray(term.Z[v].Z)
        self.k.check(f"{lab}: constraint removes exactly one dimension", Z.shape == (K, K - 1), Z.shape)
        self.k.close(f"{lab}: constraint basis is orthonormal", Z.T @ Z, np.eye(K - 1), atol=1e-8)
        self.k.close(f"{lab}: constrained functions sum to zero over the data", Bt.sum(axis=0) @ Z / len(Bt), np.zeros(K - 1), atol=1e-8)
        return Z

    # ---- whole design
    def order(self):
        ks = [t["kind"] for t in self.descr]
        grp = lambda *q: [ti for ti, kk in enumerate(ks) if kk in q]
        return grp("i", "l") + grp("irf") + grp("f", "fs") + grp("ri", "rs")

    def design(self, D, D_series=None):
        """-> {ti: (columns, names)}; the expected design of data frame D (rows as given)"""
        out = {}
        dummy = any(t["kind"] == "i" for t in self.descr)
        for ti in self.order():
            t = self.descr[ti]
            kk = t["kind"]
            if kk == "i":
                out[ti] = (np.ones((len(D), 1)), ["Intercept"])
            elif kk == "l":
                out[ti] = self.lincols(t["variables"], dummy, D)
                if any(self.isfac(v) for v in t["variables"]):
                    dummy = True
            elif kk == "irf":
                lv = self.levels(t["by"]) if t["by"] else None
                s0, blocks = 0, []
                for q, m in enumerate(self.n_per):
                    B = bspl_irf(m, 0.5, t["onset"][q], t["nk"], 0.0, t["hi"])
                    if lv is not None:
                        cur = D[t["by"]].values[s0]
                        B = np.hstack([B if l == cur else 0 * B for l in lv])
                    blocks.append(B)
                    s0 += m
                nm = [f"irf_{ti}_time_{q}" + (f"_{l}" if lv else "") for l in (lv or [""]) for q in range(t["nk"])]
                out[ti] = (np.vstack(blocks), nm)
            elif kk in ("f", "fs"):
                tt, U, names, base, p, nl = self.smooth(ti, D)
                drop = self.terms[ti].drop_coef
                keep = [q for q in range(U.shape[1]) if drop is None or q not in set(int(v) for v in drop)]
                out[ti] = (U[:, keep], [names[q] for q in keep])
            elif kk == "ri":
                lv = self.levels(t["variable"])
                out[ti] = (np.column_stack([(D[t["variable"]] == l).values.astype(float) for l in lv]), [f"ri({t['variable']}_{l})" for l in lv])
            elif kk == "rs":
                C, nm = self.lincols(t["variables"], False, D)
                if t["by"]:
                    lv = self.levels(t["by"])
                    C = np.hstack([C * (D[t["by"]] == l).values[:, None] for l in lv])
                    nm = [f"rs({q}_{l})" for l in lv for q in nm]
                else:
                    nm = [f"rs({q})" for q in nm]
                out[ti] = (C, nm)
        return out

    # ---- penalties
    def expected_penalties(self):
        """list of (term, first column, matrix over the term's block, rank, level-shared)"""
        des = self.design(self.df[self.notna] if not self.irf else self.df)
        out = []
        pos = 0
        start = {}
        for ti in self.order():
            start[ti] = pos
            pos += des[ti][0].shape[1]
        self.start, self.ncoef = start, pos
        for ti in self.order():
            t = self.descr[ti]
            kk = t["kind"]
            s = start[ti]
            if kk == "irf" and t.get("is_penalized", True):
                K = t["nk"]
                Dm = np.diff(np.eye(K), 2)
                P = Dm @ Dm.T
                nl = len(self.levels(t["by"])) if t["by"] else 1
                if t["by"] and t["id"] is None:
                    out += [(ti, s + q * K, P, "DIFFERENCE") for q in range(nl)]
                else:
                    out.append((ti, s, np.kron(np.eye(nl), P), "DIFFERENCE"))
            elif kk in ("f", "fs") and t.get("is_penalized", True):
                out += self.smooth_pens(ti, s)
            elif kk == "ri":
                out.append((ti, s, np.eye(des[ti][0].shape[1]), "IDENTITY"))
            elif kk == "rs":
                nc = des[ti][0].shape[1]
                if t["by"]:
                    nl = len(self.levels(t["by"]))
                    out += [(ti, s + q * (nc // nl), np.eye(nc // nl), "IDENTITY") for q in range(nl)]
                else:
                    out.append((ti, s, np.eye(nc), "IDENTITY"))
        return out

    def smooth_pens(self, ti, s):
        tr = self.df[self.notna]
        t, U, names, base, p, nl = self.smooth(ti, tr)
        drop = self.terms[ti].drop_coef
        dropset = set(int(v) for v in drop) if drop is not None else set()
        keeps = [[q for q in range(p) if l * p + q not in dropset] for l in range(nl)]
        offs = np.concatenate([[0], np.cumsum([len(q) for q in keeps])])
        shared = t["by"] is not None and t["id"] is not None
        ty = {0: None, 1: "REPARAM1", 2: "REPARAM2"}[t["rp"]]
        nv = len(t["variables"])
        out = []
        acc = None

        def null(Ss):
            """null-space penalties for the per-level matrices"""
            res = []
            if t["rp"] == 1:
                r = np.linalg.matrix_rank(Ss[0], tol=1e-9 * max(1.0, abs(Ss[0]).max()))
                cols = range(r, Ss[0].shape[0])
                for c in cols:
                    M = np.zeros_like(Ss[0])
                    M[c, c] = 1
                    if shared:
                        res.append((ti, s, np.kron(np.eye(nl), M), "NULL"))
                    else:
                        res += [(ti, s + int(offs[l]), M, "NULL") for l in range(nl)]
                return res
            Ns = []
            for S in Ss:
                ev, V = np.linalg.eigh(S)
                V = V[:, ev <= 1e-7]
                Ns.append(V @ V.T)
            if shared:
                return [(ti, s, sl.block_diag(*Ns), "NULL")]
            return [(ti, s + int(offs[l]), Ns[l], "NULL") for l in range(nl)]

        for bi, P in enumerate(base):
            kind = t["pens"][bi // nv][0]
            tn = ty or ("DIFFERENCE" if kind == "diff" else "IDENTITY")
            Ss = [P[np.ix_(q, q)] for q in keeps]
            if shared:
                out.append((ti, s, sl.block_diag(*Ss), tn))
            else:
                out += [(ti, s + int(offs[l]), Ss[l], tn) for l in range(nl)]
            acc = Ss if acc is None else [a + b for a, b in zip(acc, Ss)]
            if t["penalize_null"]:
                if nv == 1:
                    out += null(Ss)
                elif bi == len(base) - 1:
                    out += null(acc)
        return out
