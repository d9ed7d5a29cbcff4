"""C21: tests, degrees of freedom and summaries derived from a fit, and comparisons of fits."""
from .common import *
from .C13 import sparseT, rows, mm, tr, dn
from .C20 import symm, plus, scaled, trc, num
from vt import cxx
import copy as rcopy
import warnings as rwarnings

R = Registry("C21")
R.exts = ("eigen_solvers", "davies")
UT = "utils."
CP = "compare."


class Opaque:
    """only what is listed is known of the object"""

    def __init__(s, k, **kw):
        s.__dict__.update(kw, _k=k)

    def __getattr__(s, n):
        if n.startswith("__"):
            raise AttributeError(n)
        s._k.nostub(f"attribute {n} of an opaque object")


# ---------------------------------------------------------------- comparison of two fits
def cmpc(fam, correct, t1, glrt, only=False, theta=(None, None)):
    def c(k):
        cm, ef = k.mod("compare"), k.mod("exp_fam")
        mk = {"Gaussian": lambda: ef.Gaussian(), "Gamma": lambda: ef.Gamma(), "Poisson": lambda: ef.Poisson(), "GAUMLSS": lambda: ef.GAUMLSS([ef.Identity(), ef.LOG()]), "ScaledT": lambda: ef.ScaledT(ef.Identity())}[fam]
        fams = [mk(), mk()]
        two = fam in ("Gaussian", "Gamma")
        extra = [0, 0]
        if fam == "ScaledT":
            for q in (0, 1):
                fams[q].est_theta = theta[q]
                fams[q].theta = [0.0, 0.0]
                extra[q] = 2 if theta[q] else 0
            two = bool(fams[0].twopar)
        ps = [1, 1] if glrt and t1 and not correct else [2, 1]
        ms, F_ = [], []
        for q in (0, 1):
            p = ps[q]
            B = k.arr(f"B{q}", (p, p), sp=True)
            H = symm(k, p, f"H{q}")
            Hs = sparseT(scaled(lift(-1), H)) if k.mode == "sym" else dn_sp(evalT(np.array(scaled(lift(-1), H)), k.env))
            ms.append(Opaque(k, family=fams[q], coef=[0] * p, edf=k.scalar(f"edf{q}", "pos"), lvi=B, hessian=Hs, scale=k.scalar(f"phi{q}", "pos"), get_llk=lambda penalized=True, q=q, **kw: k.scalar_(f"llk{q}") if not penalized else k.nostub("penalized likelihood"), get_mmat=lambda *a, **kw: rnp.zeros((50, 2))))
            Bm = [[k.S(f"B{q}")[i, j] for j in range(p)] for i in range(p)]
            F_.append(scaled(k.S(f"phi{q}") if two else lift(1), mm(mm(tr(Bm), Bm), H)))
        for q in (0, 1):
            k.scalar(f"llk{q}", "small")
            for nm in ("t", "tt", "ee"):
                k.scalar(f"{nm}{q}", "pos")
        val = (lambda nm: k.S(nm)) if k.mode == "sym" else (lambda nm: k.env[nm])
        k.scalar_ = val
        tok = dict(grid="JJJ2" if only else "JJJ1", a=3, b=4, df=7, n_c=1, method="QR", seed=9, prior="prior", drop_NA=False, Vp_fidiff=True, use_importance_weights=True, recompute_H=False, compute_Vcc=False, nR=11)
        bf = {"ftol": 1e-3}
        seen = []

        def cvb(model, **kw):
            q = 0 if model is ms[0] else (1 if model is ms[1] else k.nostub("another model"))
            kw = dict(kw)
            g = kw.pop("grid_type", None)
            k.ensure_true("options are passed on", g == tok["grid"] and all(kw.get(n) == v for n, v in tok.items() if n != "grid") and kw.get("bfgs_options") == bf and bool(kw.get("form_t1")) == bool(t1) and bool(kw.get("only_expected_edf")) == only)
            seen.append(q)
            v = [val(f"{nm}{q}") for nm in ("t", "tt", "ee")]
            if only:
                return (None,) * 8 + (v[2], None)
            return (None, None, None, None, None, v[0], None, v[1], None, None)

        sts = [k.stub(cm, "correct_VB", cvb)] if correct else []
        cd = {}

        def cdf(nm):
            def f(x, *a):
                cd["dist"], cd["x"], cd["a"] = nm, x, a
                return val("cdf")

            return f

        k.scalar("cdf", "unit")
        if k.mode == "sym":
            k.patch(cm, "scp.stats.f.cdf", cdf("f"))
            k.patch(cm, "scp.stats.chi2.cdf", cdf("chi2"))
        # degrees of freedom
        aic, test = [], []
        for q in (0, 1):
            if correct:
                d = k.S(f"ee{q}") if only else k.S(f"t{q}")
                dt_ = k.S(f"tt{q}") if t1 else d
            else:
                d = k.S(f"edf{q}")
                dt_ = 2 * d - trc(mm(F_[q], F_[q])) if t1 else d
            ad = (1 if two else 0) + extra[q]
            aic.append(d + ad)
            test.append(dt_ + ad)
        if glrt:
            # the reference distribution needs a difference in degrees of freedom
            k.assume(not_(eq((test[0] - test[1]).scalarE(), ZERO))) if k.mode == "sym" else k.assume(abs(float(evalT(lift(test[0] - test[1]), k.env))) > 1e-6)
        kw = dict(tok)
        out = cm.compare_CDL(ms[0], ms[1], correct_V=correct, correct_t1=t1, perform_GLRT=glrt, alpha=0.05, only_expected_edf=only, bfgs_options=bf, **kw)
        k.used(*sts)
        l = [k.S("llk0"), k.S("llk1")]
        for q in (0, 1):
            k.ensure_eq(f"AIC of model {q+1}", out[f"aic{q+1}"], 2 * aic[q] - 2 * l[q])
            k.ensure_eq(f"degrees of freedom of model {q+1}", out[f"DOF{q+1}"], test[q])
        k.ensure_eq("difference of AICs", out["aic_diff"], 2 * aic[0] - 2 * l[0] - 2 * aic[1] + 2 * l[1])
        k.ensure_eq("test statistic", out["test_stat"], 2 * (l[0] - l[1]))
        k.ensure_eq("difference in degrees of freedom", out["Res. DOF"], test[0] - test[1])
        yes = (lambda a, b: bool(a < b)) if k.mode == "sym" else (lambda a, b: float(evalT(lift(a), k.env)) < float(evalT(lift(b), k.env)))
        nan = out["p"] is None or (not isinstance(out["p"], T) and out["p"] != out["p"])
        if not glrt:
            k.ensure_true("no test unless asked for", nan)
            return
        less, dl = yes(l[0], l[1]), yes(test[0], test[1])
        if less and not dl:
            k.ensure_true("no p-value for a complex model that fits worse", nan)
            return
        k.ensure_true("a p-value is computed", not nan)
        ts = 2 * (l[1] - l[0]) if less else 2 * (l[0] - l[1])
        dd = test[1] - test[0] if dl else test[0] - test[1]
        if k.mode == "sym":
            k.ensure_true("distribution under the simpler model", cd["dist"] == ("f" if two else "chi2"))
            k.ensure_eq("statistic that is tested", cd["x"] * dd if two else cd["x"], ts)
            k.ensure_eq("degrees of freedom of the test", cd["a"][0], dd)
            if two:
                k.ensure_eq("residual degrees of freedom", cd["a"][1], 50 - (test[1] if dl else test[0]))
            k.ensure_eq("p-value", out["p"], 1 - k.S("cdf"))
        else:
            import scipy.stats as st

            t_, d_, r_ = (float(evalT(lift(x), k.env)) for x in (ts, dd, 50 - (test[1] if dl else test[0])))
            if d_ > 1e-6 and r_ > 1:
                k.close("p-value", out["p"], st.f.sf(t_ / d_, d_, r_) if two else st.chi2.sf(t_, d_), atol=1e-9)
                k.check("decision", bool(out["H1"]) == bool(out["p"] <= 0.05))

    return c


def dn_sp(A):
    import scipy.sparse as sp

    return sp.csc_array(A)


for a_, kw_ in ((("Gaussian", True, True, True), {}), (("Gaussian", False, True, True), {}), (("Gamma", True, False, False), {}), (("Gaussian", True, False, False), dict(only=True)), (("Poisson", True, True, True), {}), (("Poisson", False, False, True), {}), (("GAUMLSS", True, False, True), {}), (("GAUMLSS", False, True, False), {}), (("ScaledT", True, True, True), dict(theta=(True, True))), (("ScaledT", True, False, False), dict(theta=(False, True))), (("ScaledT", False, True, False), dict(theta=(True, False)))):
    R.add(f"comparison:{a_[0]}" + (",corrected" if a_[1] else "") + (",bias-corrected" if a_[2] else "") + (",test" if a_[3] else "") + "".join(f",{q}={v}" for q, v in kw_.items()), functions=[CP + "compare_CDL"], nsamp=20)(cmpc(*a_, **kw_))


# ---------------------------------------------------------------- bias corrected degrees of freedom
class PForm(Opaque):
    """a formula: blocks of coefficients of its terms"""

    def __init__(s, k, terms, sizes, linear=(), smooth=(), random=(), levels=None, unpen=None, irf=()):
        off, idx = 0, [None] * len(terms)
        for t in [*linear, *irf, *smooth, *random]:
            idx[t] = rnp.arange(off, off + sizes[t])
            off += sizes[t]
        Opaque.__init__(s, k, terms=terms, coef_per_term=rnp.array(sizes), coef_idx_per_term=idx, n_coef=off, unpenalized_coef=sum(sizes[t] for t in linear) if unpen is None else unpen, get_terms=lambda: terms, get_linear_term_idx=lambda: list(linear), get_smooth_term_idx=lambda: list(smooth), get_random_term_idx=lambda: list(random), get_ir_smooth_term_idx=lambda: list(irf), get_factor_levels=lambda: levels or {}, get_var_map=lambda: {}, file_paths=[])


class Blk:
    """a penalty: where its block starts and how long it is"""

    def __init__(s, start, size, rep=1, par=0):
        s.start_index, s.rep_sj, s.dist_param = start, rep, par
        s.S_J = rnp.zeros((size // rep, size // rep))
        s.term = 0


def bed(fam, p, blocks, n_unpen):
    """blocks: (start, size, repetitions, number of penalties)"""

    def c(k):
        ut, ef = k.mod("utils"), k.mod("exp_fam")
        B = k.arr("B", (p, p), sp=True)
        H = symm(k, p, "H")
        Hs = sparseT(scaled(lift(-1), H)) if k.mode == "sym" else dn_sp(evalT(np.array(scaled(lift(-1), H)), k.env))
        gamm = fam != "GAUMLSS"
        F = ef.Gaussian() if gamm else ef.GAUMLSS([ef.Identity(), ef.LOG()])
        phi = k.scalar("phi", "pos")
        pens = [Blk(a, n, r) for a, n, r, q in blocks for _ in range(q)]
        forms = [Opaque(k, unpenalized_coef=n_unpen)] if gamm else [Opaque(k, unpenalized_coef=u) for u in (n_unpen - n_unpen // 2, n_unpen // 2)]
        m = Opaque(k, family=F, lvi=B, hessian=Hs, scale=phi, formulas=forms, overall_penalties=pens, edf1=None, term_edf1=None)
        sts = [k.stub(ut, "split_shared_penalties", lambda P: P if P is pens else k.nostub("other penalties"))]
        ut.compute_bias_corrected_edf(m)
        k.used(*sts)
        Bm = [[k.S("B")[i, j] for j in range(p)] for i in range(p)]
        Fm = scaled(k.S("phi") if gamm else lift(1), mm(mm(tr(Bm), Bm), H))
        FF = mm(Fm, Fm)
        tot = lift(n_unpen)
        k.ensure_true("one value per block", len(m.term_edf1) == len(blocks))
        for q, (a, n, r, _) in enumerate(blocks):
            t = sum((2 * Fm[i][i] - FF[i][i] for i in range(a, a + n)), start=lift(0))
            k.ensure_eq(f"block {q}", m.term_edf1[q], t)
            tot = tot + t
        k.ensure_eq("total", m.edf1, tot)
        old = m.edf1
        m.edf1 = "kept"
        ut.compute_bias_corrected_edf(m)
        k.ensure_true("computed once", m.edf1 == "kept")

    return c


for nm_, a_ in (("gamm,one-term", ("Gaussian", 2, [(1, 1, 1, 2)], 1)), ("gamm,repeated", ("Gaussian", 2, [(0, 2, 2, 1)], 0)), ("gamm,two-terms", ("Gaussian", 3, [(1, 1, 1, 1), (2, 1, 1, 2)], 1)), ("gammlss", ("GAUMLSS", 3, [(0, 1, 1, 2), (2, 1, 1, 1)], 1))):
    R.add(f"bias-corrected:{nm_}", functions=[UT + "compute_bias_corrected_edf"], nsamp=8)(bed(*a_))


# ---------------------------------------------------------------- p-values of smooth terms
def pval(fam, ns, kk, approx=False, par=0, edf1=True, unpen_smooth=False, irf=False):
    """A formula with an intercept, optional time-course and un-penalized smooths, a smooth with less than one
    degree of freedom and a smooth of ns coefficients with kk to kk+1 degrees of freedom."""

    def c(k):
        rwarnings.simplefilter("ignore")
        ut, ef, tm = k.mod("utils"), k.mod("exp_fam"), k.mod("terms")
        F = {"Gaussian": lambda: ef.Gaussian(), "Poisson": lambda: ef.Poisson(), "GAUMLSS": lambda: ef.GAUMLSS([ef.Identity(), ef.LOG()])}[fam]()
        two, gamm = fam == "Gaussian", fam != "GAUMLSS"
        terms, sizes, li, ii, si = [tm.i()], [1], [0], [], []
        if irf:
            terms.append(tm.f(["q"]))  # stands in for a time-course term, which is not listed among the smooths
            sizes.append(2)
            ii.append(1)
        for n in ([1] if unpen_smooth else []) + [2, ns]:
            si.append(len(terms))
            terms.append(tm.f(["x"]))
            sizes.append(n)
        if unpen_smooth:
            terms[si[0]].is_penalized = False
        un = 1 + (1 if unpen_smooth else 0)
        form = PForm(k, terms, sizes, linear=li, smooth=si, irf=ii, unpen=un)
        P = form.n_coef
        off = 0 if par == 0 else 2
        tot = P + off if gamm or par else P + 1
        first, last = form.coef_idx_per_term[si[-2]][0], form.coef_idx_per_term[si[-1]][0]
        # columns of the smooths that are tested are arbitrary, the others do not matter
        tested = [si[-1]] + ([si[0]] if unpen_smooth else [])
        nL = 2
        Lv = [[lift(0)] * tot for _ in range(nL)]
        Xm = [[lift(0)] * P for _ in range(ns + 1)]
        k.arr("L", (nL, ns))
        k.arr("b", (ns, 1))
        k.arr("X", (ns + 1, ns))
        for j in range(ns):
            for i in range(nL):
                Lv[i][off + last + j] = k.S("L")[i, j]
            for i in range(ns + 1):
                Xm[i][last + j] = k.S("X")[i, j]
        cf = [[lift(0)] for _ in range(tot)]
        for j in range(ns):
            cf[off + last + j] = [k.S("b")[j, 0]]
        spm = (lambda M: sparseT(M)) if k.mode == "sym" else (lambda M: dn_sp(evalT(np.array(M), k.env)))
        arr = (lambda M: np.array(M)) if k.mode == "sym" else (lambda M: evalT(np.array(M), k.env))
        phi = k.scalar("phi", "pos")
        r = k.scalar("r", facts=lambda x: [not_(lt(x, const(kk))), lt(x, const(kk + 1))], sample=lambda rg, s: kk + (0 if rg.random() < 0.3 else rg.uniform(0.02, 0.98)))
        small = k.scalar("small_", facts=lambda x: [lt(ZERO, x), lt(x, ONE)], sample=lambda rg, s: rg.uniform(0.1, 0.9))
        edf = k.scalar("edf", "pos", sample=lambda rg, s: rg.uniform(2, 9))
        pens = ([] if par == 0 else [Blk(1, 1, 1, 0)]) + ([Blk(off + form.coef_idx_per_term[1][0], 2, 1, par)] if irf else []) + [Blk(off + first, 2, 1, par), Blk(off + last, ns, 1, par), Blk(off + last, ns, 1, par)]
        if not gamm and par == 0:
            pens.append(Blk(P, 1, 1, 1))
        te = ([] if par == 0 else [0.3]) + ([1.7] if irf else []) + [small, r] + ([] if gamm or par else [0.7])
        mats = spm(Xm)
        forms = [form] if gamm else ([form, Opaque(k)] if par == 0 else [Opaque(k), form])
        m = Opaque(k, family=F, formulas=forms, coef=arr(cf), lvi=spm(Lv), scale=phi, edf=edf, coef_split_idx=[P if par == 0 else off], overall_penalties=pens, get_mmat=(lambda *a, **kw: mats) if gamm else (lambda *a, **kw: [mats if q == par else None for q in (0, 1)]), term_edf=te if not edf1 else [9.9] * len(te), term_edf1=te if edf1 else [9.9] * len(te))
        sts = [k.stub(ut, "split_shared_penalties", lambda Q: Q if Q is pens else k.nostub("other penalties"))]
        if edf1:
            sts.append(k.stub(ut, "compute_bias_corrected_edf", lambda mo, *a: None if mo is m else k.nostub("another model")))
        k.arr("R", (ns, ns))
        Rr = k.S("R") if k.mode == "sym" else k.env["R"]
        log_ = []

        def qr(A, mode="reduced", **kw):
            if mode != "r" or tuple(A.shape) != (ns + 1, ns):
                # blocks of the other terms
                n = int(A.shape[1])
                log_.append(("other", A))
                return np.zeros((n, n)) if k.mode == "sym" else rnp.zeros((n, n))
            if all(is_z(A[i, j]) if k.mode == "sym" else A[i, j] == 0 for i in range(ns + 1) for j in range(ns)):
                log_.append(("other", A))
                return np.zeros((ns, ns)) if k.mode == "sym" else rnp.zeros((ns, ns))
            log_.append(("qr", A))
            return Rr

        sts.append(k.patch(ut, "np.linalg.qr", qr))
        for j in range(ns):
            k.scalar(f"s{j}", "pos")
        k.arr("U", (ns, ns))

        def eigh(A, **kw):
            if log_[-1][0] == "other":
                n = int(A.shape[0])
                return (np.array([1] * n), np.array(EYE_(n))) if k.mode == "sym" else (rnp.ones(n), rnp.eye(n))
            log_.append(("eigh", A))
            # increasing order
            return (np.array([k.S(f"s{j}") for j in range(ns)]), np.array([[k.S("U")[i, j] for j in range(ns)] for i in range(ns)])) if k.mode == "sym" else (rnp.array([k.env[f"s{j}"] for j in range(ns)]), k.env["U"].copy())

        sts.append(k.patch(ut, "scp.linalg.eigh", eigh))
        calls = []
        for q in (0, 1):
            k.scalar(f"q{q}", "unit")

        def ev(q):
            return k.S(f"q{q}") if k.mode == "sym" else k.env[f"q{q}"]

        def qf(lb, nc, n, cc, sigma, acc, rr, lim):
            if len(calls) > 1 or sigma != 0 or int(rr) != int(lb.shape[0]):
                k.nostub("another use of the mixture distribution")
            calls.append((lb, n, cc))
            k.ensure_true("accuracy of the mixture distribution", acc <= 1e-3 and lim >= 1000 and int(nc.shape[0]) == int(rr) and all(float(nc[i]) == 0 for i in range(int(rr))))
            return ev(len(calls) - 1), 0, None

        k.patch(ut, "davies.daviesQF", qf)
        st_calls = []

        def cdf(nm):
            def f(x, *a, **kw):
                st_calls.append((nm, x, a, kw))
                if len(st_calls) > 2:
                    k.nostub("another reference distribution")
                return ev(len(st_calls) - 1)

            return f

        for nm in ("f", "chi2", "beta", "gamma"):
            k.patch(ut, f"scp.stats.{nm}.cdf", cdf(nm))
        if unpen_smooth:
            pass
        ps, Trs = ut.approx_smooth_p_values(m, par=par, edf1=edf1, force_approx=approx)
        k.used(*sts)
        nt = len(si)
        k.ensure_true("one p-value per smooth", len(ps) == nt and len(Trs) == nt)
        if not (len(ps) == nt and len(Trs) == nt):
            return
        k.ensure_true("a smooth with less than one degree of freedom", ps[-2] == 1 and Trs[-2] == -1)
        Ag = [x for x in log_ if x[0] == "qr"]
        Eg = [x for x in log_ if x[0] == "eigh"]
        k.ensure_true("each smooth is decomposed once", len(Ag) == 1 and len(Eg) == 1)
        if not (len(Ag) == 1 and len(Eg) == 1):
            return
        dd = (lambda x: x) if k.mode == "sym" else (lambda x: x.toarray() if hasattr(x, "toarray") else x)
        k.ensure_eq("columns of the smooth", dd(Ag[0][1]), np.array([[k.S("X")[i, j] for j in range(ns)] for i in range(ns + 1)]))
        Lm = [[k.S("L")[i, j] for j in range(ns)] for i in range(nL)]
        Rm = [[k.S("R")[i, j] for j in range(ns)] for i in range(ns)]
        ph = k.S("phi") if gamm else lift(1)
        k.ensure_eq("covariance of the function at the data", dd(Eg[0][1]), np.array(mm(mm(Rm, scaled(ph, mm(tr(Lm), Lm))), tr(Rm))))
        # statistic in the basis of eigenvectors, largest eigenvalue first
        Um = [[k.S("U")[i, ns - 1 - j] for j in range(ns)] for i in range(ns)]
        ss = [k.S(f"s{ns-1-j}") for j in range(ns)]
        zb = mm(mm(tr(Um), Rm), [[k.S("b")[j, 0]] for j in range(ns)])
        neg = (lambda x: bool(x < 0)) if k.mode == "sym" else (lambda x: float(evalT(lift(x), k.env)) < 0)
        z = [(lift(-1) if neg(Um[0][j]) else lift(1)) * zb[j][0] for j in range(ns)]
        v = k.S("r") - kk
        whole = bool(eq_(v)) if k.mode == "sym" else abs(k.env["r"] - kk) < 1e-12
        rs = ns + 1 - k.S("edf")
        if whole:
            Tr_ = [sum((z[j] * z[j] / ss[j] for j in range(kk)), start=lift(0))] * 2
        else:
            base = sum((z[j] * z[j] / ss[j] for j in range(kk)), start=lift(0)) + v * z[kk] * z[kk] / ss[kk]
            cr = 2 * X_sqrt(v * (1 - v) / 2) * z[kk - 1] * z[kk] / X_sqrt(ss[kk - 1]) / X_sqrt(ss[kk])
            Tr_ = [base + cr, base - cr]
        if whole and not (approx and False):
            for q, (nm, x, a, kw) in enumerate(st_calls):
                k.ensure_true("reference distribution", nm == ("f" if two else "chi2"))
                k.ensure_eq("statistic", x, Tr_[0] / kk if two else Tr_[0])
                k.ensure_eq("degrees of freedom", a[0], kk)
                if two:
                    k.ensure_eq("residual degrees of freedom", a[1], rs)
            k.ensure_true("both alternatives are tested", len(st_calls) == 2)
            den = lift(kk) if two else lift(1)
        else:
            v1 = (v + 1 + X_sqrt(1 - v * v)) / 2
            w = ([lift(1)] if kk > 1 else []) + [v1, v + 1 - v1]
            dfs = ([lift(kk - 1)] if kk > 1 else []) + [lift(1), lift(1)] + ([rs] if two else [])
            k.ensure_true("both alternatives are tested", len(calls) == 2)
            for q, (lb, n, cc) in enumerate(calls):
                k.ensure_eq("weights", lb, np.array(w + ([lift(0) - Tr_[q] / rs] if two else [])))
                k.ensure_eq("degrees of freedom of the weighted variables", n, np.array(dfs))
                k.ensure_eq("quantile", cc, lift(0) if two else Tr_[q])
            den = k.S("r") if two else lift(1)
            if approx:
                for q, (nm, x, a, kw) in enumerate(st_calls):
                    k.ensure_true("approximating distribution", nm == ("beta" if two else "gamma"))
                    if two:
                        t_ = lift(0) - lift(calls[q][0][len(w)]) if k.mode == "sym" else Tr_[q] / rs
                        k.ensure_eq("approximated statistic", x, t_ / (1 + t_))
                        k.ensure_eq("parameters of the approximation", np.array([kw["a"], kw["b"]]), np.array([k.S("r") / 2, rs / 2]))
                    else:
                        k.ensure_eq("approximated statistic", x, Tr_[q])
                        k.ensure_eq("parameters of the approximation", np.array([kw["a"], kw["scale"]]), np.array([k.S("r") / 2, lift(2)]))
        k.ensure_eq("p-value averages both alternatives", ps[-1], 1 - (k.S("q0") + k.S("q1")) / 2)
        if whole:
            k.ensure_eq("reported statistic", Trs[-1], Tr_[0] / den)
        else:
            # the larger of the two statistics, which are those that were tested
            if k.mode == "sym":
                tt = [lift(0) - lift(lb[len(w)]) * rs if two else lift(cc) for lb, n, cc in calls]
                k.ensure_eq("reported statistic", Trs[-1], np.maximum(tt[0] / den, tt[1] / den))
            else:
                lo = neg(Tr_[0] - Tr_[1])
                k.ensure_eq("reported statistic", Trs[-1], (Tr_[1] if lo else Tr_[0]) / den)

    return c


def EYE_(n):
    return [[lift(1 if i == j else 0) for j in range(n)] for i in range(n)]


def is_z(t):
    e = lift(t).scalarE()
    return e.op == "c" and e.args[0] == 0


def eq_(t):
    return lift(t) == 0


def X_sqrt(t):
    return np.sqrt(lift(t))


for a_, kw_ in ((("Gaussian", 2, 1), {}), (("Poisson", 2, 1), {}), (("Gaussian", 3, 2), {}), (("Poisson", 3, 2), dict(edf1=False)), (("GAUMLSS", 2, 1), {}), (("GAUMLSS", 2, 1), dict(par=1)), (("Gaussian", 2, 1), dict(approx=True)), (("Poisson", 2, 1), dict(approx=True)), (("Gaussian", 2, 1), dict(irf=True))):
    R.add(f"p-value:{a_[0]},coef={a_[1]},edf={a_[2]}" + "".join(f",{q}={v}" for q, v in kw_.items()), functions=[UT + "approx_smooth_p_values"], nsamp=20)(pval(*a_, **kw_))


# ---------------------------------------------------------------- distribution of weighted sums (compiled, bounded)
def imhof(w, df, x):
    """P(sum_j w_j chi2(df_j) < x) by numerical inversion of the characteristic function"""
    from scipy.integrate import quad

    w, df = rnp.asarray(w, float), rnp.asarray(df, float)
    s = rnp.abs(w).max()
    w, x = w / s, x / s

    def g(u):
        if u == 0:
            return 0.5 * ((w * df).sum() - x)
        return rnp.sin(0.5 * ((df * rnp.arctan(w * u)).sum() - x * u)) / (u * rnp.prod((1 + (w * u) ** 2) ** (df / 4)))

    tot, a, b = 0.0, 0.0, 1.0
    for _ in range(60):
        v = quad(g, a, b, limit=400, epsabs=1e-9)[0]
        tot += v
        if rnp.prod((1 + (w * b) ** 2) ** (df / 4)) > 1e9:
            break
        a, b = b, b + min(b, 40.0)
    return 0.5 - tot / rnp.pi


@R.add("mixture distribution", functions=["davies.daviesQF"], symbolic=False, nsamp=40, nstand=150, why_bounded="compiled numerical integration: compared with an independent inversion of the characteristic function", cbound="1 to 5 variables, degrees of freedom up to 300")
def _mix(k):
    import sys as _s
    from scipy import stats as st

    dv, rng = _s.modules["davies"], k.rng
    kind = rng.choice(["one", "sum", "F", "mixed"])
    k.note("kind", kind)
    if kind == "one":
        w, df = [rng.uniform(0.1, 5)], [int(rng.integers(1, 9))]
        x = w[0] * st.chi2.ppf(rng.uniform(0.01, 0.99), df[0])
        ref = st.chi2.cdf(x / w[0], df[0])
    else:
        m = int(rng.integers(2, 5))
        w = rng.uniform(0.05, 2, m) * (1 if kind == "sum" else rng.choice([-1, 1], m))
        df = rng.integers(1, 5, m)
        x = 0.0
        if kind == "F":
            v = rng.uniform(0.05, 0.95)
            v1 = (v + 1 + rnp.sqrt(1 - v * v)) / 2
            q, kk = int(rng.integers(20, 300)), int(rng.integers(1, 5))
            w = [1.0] * (kk > 1) + [v1, v + 1 - v1, -rng.uniform(0.5, 3) * (kk + v) / q]
            df = [kk - 1] * (kk > 1) + [1, 1, q]
        else:
            # a point in the bulk of the distribution
            z = sum(a * rng.chisquare(d, 200) for a, d in zip(w, df))
            x = float(rnp.quantile(z, rng.uniform(0.05, 0.95)))
        if sum(df) < 4:
            df = list(df)
            df[0] += 3  # the reference integral converges slowly otherwise
        ref = imhof(w, df, x)
    o = rng.permutation(len(w))
    w, df = rnp.array(w, float)[o], rnp.array(df, int)[o]
    k.note("weights", w.tolist())
    k.note("df", df.tolist())
    k.note("x", x)
    p, code, _ = dv.daviesQF(w, rnp.zeros(len(w)), df, x, 0, 2e-5, len(w), 20000)
    k.check("no error is reported", code == 0)
    k.close("probability", p, ref, atol=6e-5)
    s = float(rng.uniform(0.2, 4))
    p2, code2, _ = dv.daviesQF(s * w, rnp.zeros(len(w)), df, s * x, 0, 2e-5, len(w), 20000)
    k.close("scaling all weights and the point changes nothing", p2, p, atol=6e-5)
    p3, _, _ = dv.daviesQF(-w, rnp.zeros(len(w)), df, -x, 0, 2e-5, len(w), 20000)
    k.close("complement", p3, 1 - p, atol=6e-5)


# ---------------------------------------------------------------- summaries of real fits (bounded)
def refp(X, idx, coef, V, r, rs):
    """p-value and statistic of the smooth with columns idx"""
    from scipy import stats as st

    kk = int(r)
    if kk == 0:
        return 1.0, -1.0
    Rm = rnp.linalg.qr(X[:, idx], mode="r")
    s, U = rnp.linalg.eigh(Rm @ V[rnp.ix_(idx, idx)] @ Rm.T)
    s, U = s[::-1], U[:, ::-1]
    z = (U * rnp.where(U[0] < 0, -1, 1)).T @ Rm @ coef[idx]
    v = r - kk
    if v == 0:
        t = float((z[:kk] ** 2 / s[:kk]).sum())
        return (st.f.sf(t / kk, kk, rs), t / kk) if rs else (st.chi2.sf(t, kk), t)
    b = (z[:kk] ** 2 / s[:kk]).sum() + v * z[kk] ** 2 / s[kk]
    c = 2 * rnp.sqrt(v * (1 - v) / 2) * z[kk - 1] * z[kk] / rnp.sqrt(s[kk - 1] * s[kk])
    v1 = (v + 1 + rnp.sqrt(1 - v * v)) / 2
    w, df = [1.0] * (kk > 1) + [v1, v + 1 - v1], [kk - 1] * (kk > 1) + [1, 1]
    ps = []
    for t in (b + c, b - c):
        if rs:
            # the number of degrees of freedom of the last variable is cast to an integer
            ps.append(1 - imhof(w + [-t / rs], df + [int(rs)], 0.0))
        else:
            ps.append(1 - imhof(w, df, t) if sum(df) > 3 else None)
    t = max(b + c, b - c)
    return (None if None in ps else sum(ps) / 2), (t / r if rs else t)


def summ(kind):
    def c(k):
        import pandas as pd, io, contextlib, re
        from scipy import stats as st

        rwarnings.simplefilter("ignore")
        md, ut, rng = k.mod("models"), k.mod("utils"), k.rng
        ns, ln = 6, int(rng.integers(24, 36))
        n = ns * ln
        d = pd.DataFrame(dict(x=rng.uniform(size=n), w=rng.uniform(size=n), v=rng.uniform(size=n), s=rnp.repeat([f"s{q}" for q in range(ns)], ln), time=rnp.tile(rnp.linspace(0, 1, ln), ns), g=rnp.tile(rnp.repeat(["a", "b"], 2), n)[:n]))
        amp = rng.uniform(0, 0.4)
        d["y"] = amp * rnp.sin(6 * d.x) + rng.uniform(0, 0.3) * d.w + (d.g == "a") * 0.3 + 0.7 * rng.normal(size=n) + rnp.repeat(rng.normal(size=ns), ln) * rng.uniform(0, 0.6)
        d["c"] = rng.poisson(rnp.exp(0.5 + amp * rnp.sin(6 * d.x) + 0.2 * d.w))
        F = md.f
        lists = {
            "plain": [md.i(), F(["x"], nk=8), F(["w"], nk=6)],
            "fixed": [md.i(), F(["v"], nk=4, is_penalized=False), F(["x"], nk=8)],
            "by": [md.i(), md.l(["g"]), F(["x"], by="g", nk=8), F(["w"], nk=6), md.ri("s"), md.rs(["v", "s"])],
            "id": [md.i(), F(["x"], by="g", id=1, nk=7), md.fs(["time"], rf="s", nk=5), F(["w"], nk=6)],
            "random": [md.i(), md.l(["v"]), md.rs(["v", "s"], by="g"), F(["w"], nk=6), md.ri("s")],
        }
        t = lists[kind.split(":")[0]]
        fam = kind.split(":")[1]
        f2 = [md.i(), F(["w"], nk=6), F(["x"], nk=6)]
        if fam == "GAMMLSS":
            m = md.GAMMLSS([md.Formula(md.lhs("y"), t, data=d, print_warn=False), md.Formula(md.lhs("y"), f2, data=d, print_warn=False)], md.GAUMLSS([md.Identity(), md.LOGb(-0.001)]))
        else:
            m = md.GAMM(md.Formula(md.lhs("y" if fam == "Gaussian" else "c"), t, data=d, print_warn=False), {"Gaussian": md.Gaussian, "Poisson": md.Poisson}[fam]())
        m.fit(progress_bar=False)
        k.note("kind", kind)
        two, gamm = fam == "Gaussian", fam != "GAMMLSS"
        phi = m.scale if gamm else 1
        V = dn(m.lvi.T @ m.lvi) * phi
        nH = -1 * dn(m.hessian)
        Fm = V @ nH
        FF = Fm @ Fm
        coef = m.coef.flatten()
        for par in range(1 if gamm else 2):
            k.note("par", par)
            form = m.formulas[par]
            off = 0 if par == 0 else int(m.coef_split_idx[par - 1])
            X = dn(m.get_mmat() if gamm else m.get_mmat()[par])
            names = form.get_term_names()
            exp = []
            for ti in form.get_smooth_term_idx() + form.get_random_term_idx():
                te = form.terms[ti]
                idx = rnp.array(form.coef_idx_per_term[ti])
                lv = ["b", "a"]
                by = getattr(te, "by", None)
                sp_ = by is not None and (isinstance(te, md.rs) or te.id is None)
                for q, b in enumerate(rnp.split(idx, 2) if sp_ else [idx]):
                    exp.append((names[ti] + (f": {form.get_coding_factors()[by][q]}" if sp_ else ""), b, isinstance(te, (md.ri, md.rs, md.fs))))
            ps, Trs = ut.approx_smooth_p_values(m, par=par)
            tested = [e for e in exp if not e[2]]
            k.check("one p-value per smooth", len(ps) == len(tested) and len(Trs) == len(tested))
            rs = X.shape[0] - m.edf if two else None
            for (nm, b, _), p, T_ in zip(tested, ps, Trs):
                k.note("term", nm)
                B = b + off
                r = min(2 * rnp.diag(Fm)[B].sum() - rnp.diag(FF)[B].sum(), len(b))
                if len(b) - r < 1e-6:
                    r = float(len(b))
                if abs(r - round(r)) < 1e-4 and r != len(b):
                    continue
                rp, rT = refp(X, b, coef[off : off + X.shape[1]], V[off : off + X.shape[1], off : off + X.shape[1]], float(r), rs)
                k.close("statistic", T_, rT, atol=2e-3 * max(1, abs(rT)))
                if rp is not None:
                    k.close("p-value", p, rp, atol=2e-3)
                k.check("a probability", 0 <= p <= 1)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                ut.print_smooth_terms(m, par=par, ps=ps, Trs=Trs, pen_cutoff=-1)
            lines = [q for q in buf.getvalue().split("\n") if "edf:" in q]
            k.check("one line per term", len(lines) == len(exp))
            pi = 0
            for line, (nm, b, rnd) in zip(lines, exp):
                k.note("line", line)
                k.check("name of the term", line.replace(": ", ":").startswith(nm.replace(": ", ":")))
                got = float(re.search(r"edf: ([-+0-9.e]+)", line).group(1))
                k.close("printed degrees of freedom", got, rnp.diag(Fm)[b + off].sum(), atol=1.5e-3)
                pm = re.search(r"(?:f|chi\^2): ([-+0-9.e]+) P\(.*\) = ([-+0-9.e]+)", line)
                k.check("only smooths are tested", (pm is None) == rnd)
                if pm is not None:
                    k.close("printed statistic", float(pm.group(1)), Trs[pi], atol=6e-4 * max(1, abs(Trs[pi])))
                    k.close("printed p-value", float(pm.group(2)), ps[pi], atol=1e-5)
                    pi += 1
            # parametric terms
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                ut.print_parametric_terms(m, par=par)
            lines = [q for q in buf.getvalue().split("\n") if "P(|" in q]
            npar = sum(int(form.coef_per_term[q]) for q in form.get_linear_term_idx())
            k.check("one line per parameter", len(lines) == npar)
            for j, line in enumerate(lines):
                k.note("line", line)
                g_ = re.search(r": ([-+0-9.e]+), [tz]: ([-+0-9.e]+),", line)
                p_ = float(re.search(r"P\(.*\): ([-+0-9.e]+)", line).group(1))
                b_, se = coef[off + j], rnp.sqrt(V[off + j, off + j])
                k.close("printed coefficient", float(g_.group(1)), b_, atol=6e-4)
                k.close("printed statistic", float(g_.group(2)), b_ / se, atol=6e-4 * max(1, abs(b_ / se)))
                k.close("printed p-value", p_, 2 * (st.t.sf(abs(b_ / se), n - X.shape[1]) if two else st.norm.sf(abs(b_ / se))), atol=1e-5)
            if gamm and par == 0 and kind == "plain:Gaussian":
                # a random subset of the rows is used for many observations
                p1 = ut.approx_smooth_p_values(m, n_sel=n - 20)
                k.check("subset of observations", len(p1[0]) == 2 and all(0 <= q <= 1 for q in p1[0]))
                import scipy.sparse as sp

                Xl = sp.csc_array(rnp.tile(X, (100020 // n, 1))[:, :])
                Xl = sp.csc_array(rnp.concatenate([dn(Xl), X], axis=0))
                m.get_mmat = lambda *a, **kw: Xl
                p1 = ut.approx_smooth_p_values(m)
                k.check("many observations", len(p1[0]) == 2 and all(0 <= q <= 1 for q in p1[0]))

    return c


for kd_ in ("plain:Gaussian", "plain:Poisson", "plain:GAMMLSS", "fixed:Gaussian", "fixed:GAMMLSS", "by:Gaussian", "id:Gaussian", "random:Poisson", "by:GAMMLSS"):
    R.add(f"summary:{kd_}", functions=[UT + "approx_smooth_p_values", UT + "print_smooth_terms", UT + "print_parametric_terms", UT + "compute_bias_corrected_edf"], symbolic=False, nsamp=3, nstand=3, why_bounded="text printed for real fits; decompositions and distributions are compiled", cbound="random data sets of 144 to 216 observations, formulas with up to 5 terms")(summ(kd_))
