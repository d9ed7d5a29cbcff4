"""C17: hidden semi-Markov models: likelihood, gradient, decoding and residuals (hsmm.cpp, hsmm.py)."""
from .common import *
from vt import cxx

R = Registry("C17")
R.exts = ("hsmm",)

Z, O = lift(0), lift(1)


def xp(k, v):
    """exp of a value returned by the code"""
    return exp(v) if k.mode == "sym" else rnp.exp(v)


def tot(ts):
    ts = list(ts)
    return sum(ts[1:], ts[0]) if ts else Z


class Model:
    """definition of the process: a path is a sequence of (state, remaining duration) pairs; a new state is entered when
    the remaining duration of the previous one is 0 and its duration is drawn on entry"""

    def __init__(self, k, nT, D, nS, swf=True, ewl=False, eil=False, hmp=0, ew=1, tv=False, dom="pos"):
        cxx.ghosts(k)
        self.k, self.nT, self.D, self.nS, self.swf, self.ewl, self.eil, self.hmp, self.ew, self.tv = k, nT, D, nS, swf, ewl, eil, hmp, ew, tv
        nc = nS if swf else 2 * nS
        self.nc = nc
        self.bsh = (nT, max(ew, 2), nS) if hmp else (nT, nS)
        self.Tsh = (nS, nS, nT) if tv else (nS, nS)
        self.dsh = (D - 1, nc, nT) if tv else (D - 1, nc)

    def inputs(self, pre="", dom="pos"):
        k = self.k
        self.bs = k.arr(pre + "bs", self.bsh, dom)
        self.T = k.arr(pre + "T", self.Tsh, dom)
        self.pi = k.arr(pre + "pi", (self.nS,), dom)
        self.ds = k.arr(pre + "ds", self.dsh, dom)
        self.w = k.arr("w", (max(self.ew, 1),), "real")
        S = k.S
        self.sbs, self.sT, self.spi, self.sds = S(pre + "bs"), S(pre + "T"), S(pre + "pi"), S(pre + "ds")
        if self.hmp:
            # bump states have a fixed duration: the caller passes 1 for it and 0 for every other one
            self.ds = self._bump(self.ds)
        return self

    def _bump(self, ds):
        k = self.k
        if k.mode == "sym":
            out = [[[None] * (self.nT if self.tv else 1) for _ in range(self.nc)] for _ in range(self.D - 1)]
            for d in range(self.D - 1):
                for j in range(self.nc):
                    for t in range(self.nT if self.tv else 1):
                        out[d][j][t] = (O if d == self.ew - 1 else Z) if self.bump(j % self.nS) else (ds[d, j, t] if self.tv else ds[d, j])
            return np.array(out) if self.tv else np.array([[c[0] for c in r] for r in out])
        ds = ds.copy()
        for j in range(self.nc):
            if self.bump(j % self.nS):
                ds[:, j] = 0
                ds[self.ew - 1, j] = 1
        return ds

    def bump(self, j):
        return bool(self.hmp) and j % 2 == 1

    # ------------------------------------------------ pieces of a path weight
    def d_(self, d, j, t, first):
        if self.bump(j):
            return O if d == self.ew - 1 else None
        c = j if first or self.swf else j + self.nS
        return self.sds[d, c, t] if self.tv else self.sds[d, c]

    def T_(self, i, j, t):
        return self.sT[i, j, t - 1] if self.tv else self.sT[i, j]

    def b_(self, t, j, d, entry, first):
        if not self.hmp:
            return self.sbs[t, j]
        return self.sbs[t, self.bi(j, d, entry, first), j]

    def bi(self, j, d, entry, first):
        if self.bump(j):
            return 0 if entry else (self.ew - 1) - d
        return 1 if entry and not first else 0

    def paths(self, upto=None, constrained=True):
        """(path, [factors]) for every path with non-zero probability"""
        nT = upto or self.nT
        cur = []
        for j in range(self.nS):
            for d in range(self.D - 1):
                w = self.d_(d, j, 0, True)
                if w is not None:
                    cur.append((((j, d),), [self.spi[j], w, self.b_(0, j, d, True, True)]))
        for t in range(1, nT):
            nxt = []
            for p, f in cur:
                j, d = p[-1]
                if d > 0:
                    nxt.append((p + ((j, d - 1),), f + [self.b_(t, j, d - 1, False, False)]))
                else:
                    for i in range(self.nS):
                        if i == j:
                            continue
                        for e in range(self.D - 1):
                            w = self.d_(e, i, t, False)
                            if w is not None:
                                nxt.append((p + ((i, e),), f + [self.T_(j, i, t), w, self.b_(t, i, e, True, False)]))
            cur = nxt
        if constrained:
            cur = [c for c in cur if (not self.ewl or c[0][-1][1] == 0) and (not self.eil or c[0][-1][0] == self.nS - 1)]
        return cur

    @staticmethod
    def prod(fs):
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def like(self, **kw):
        return tot(self.prod(f) for _, f in self.paths(**kw))

    def tail(self):
        return self.nT, self.D, self.nS, self.ew

    def flags(self):
        return self.swf, self.ewl, self.eil, self.hmp

    def ext(self):
        return cxx.ext(self.k, "hsmm")


CASES = {
    "free-ends": dict(nT=3, D=3, nS=2),
    "three-states": dict(nT=3, D=3, nS=3),
    "own-start-durations": dict(nT=3, D=3, nS=2, swf=False),
    "longer": dict(nT=4, D=4, nS=2),
    "ends-with-last": dict(nT=3, D=4, nS=2, swf=False, ewl=True),
    "ends-in-last": dict(nT=3, D=3, nS=2, eil=True),
    "ends-with-and-in-last": dict(nT=3, D=3, nS=3, ewl=True, eil=True),
    "time-varying": dict(nT=3, D=3, nS=2, tv=True, swf=False),
    "bumps": dict(nT=4, D=4, nS=3, hmp=1, ew=2),
    "bumps-short": dict(nT=3, D=4, nS=3, hmp=1, ew=2),
    "bumps-time-varying-ends": dict(nT=4, D=3, nS=3, hmp=2, ew=2, tv=True, ewl=True, eil=True),
}


def llkc(kw):
    def c(k):
        m = Model(k, **kw).inputs()
        out = m.ext().llk(m.bs, m.ds, m.T, m.pi, m.w, 1.0, *m.tail(), *m.flags(), m.tv)
        k.ensure_eq("probability of the series = sum over all segmentations", xp(k, out), m.like())

    return c


for nm, kw in CASES.items():
    R.add("likelihood:" + nm, functions=["hsmm.llk"], nsamp=8, cbound="the stated number of time points, durations and states; all probabilities symbolic")(llkc(kw))


# ---------------------------------------------------------------- gradients
def path_dlog(m, path, ci_kind, ci, G):
    """derivative of the log weight of a path with respect to one coefficient; G: dict of input terms"""
    out = Z
    for t, (j, d) in enumerate(path):
        first = t == 0
        entry = first or path[t - 1][1] == 0
        if ci_kind == "b":
            jc, mc = G["bidx"][ci]
            if not m.hmp:
                if j == jc:
                    out = out + G["b_grad"][t, ci]
                continue
            kk = m.bi(j, d, entry, first)
            rho = G.get("rho")
            w, mu, y, sc = G["w"], G["mu"], G["y"], G["scale"]
            if rho is not None:
                d0 = O / np.sqrt(O - rho * rho)
                d1 = (Z - rho) / np.sqrt(O - rho * rho)
            if m.bump(j) and j == jc:
                e, de = w[kk] * mu[t, mc, j], w[kk] * G["b_grad"][t, ci]
                if rho is not None:
                    e, de = e * d0, de * d0
                    if kk > 0:
                        e, de = e + d1 * w[kk - 1] * mu[t - 1, mc, j], de + d1 * w[kk - 1] * G["b_grad"][t - 1, ci]
            elif rho is not None and not m.bump(j) and entry and not first and j - 1 == jc:
                e, de = d1 * w[m.ew - 1] * mu[t - 1, mc, j - 1], d1 * w[m.ew - 1] * G["b_grad"][t - 1, ci]
            else:
                continue
            out = out + (2 if m.hmp == 1 else 1) * (y[t, mc] - e) / sc * de
        elif ci_kind == "d":
            if entry:
                c = j if first or m.swf else j + m.nS
                if c == G["didx"][ci]:
                    g = G["d_grad"]
                    out = out + (g[d, ci, t] if m.tv else g[d, ci]) / m.d_(d, j, t, first)
        elif ci_kind == "T":
            if entry and not first and path[t - 1][0] == G["tidx"][ci]:
                i = path[t - 1][0]
                q = [s_ for s_ in range(m.nS) if s_ != i].index(j)
                g = G["T_grad"]
                out = out + (g[q, ci, t - 1] if m.tv else g[q, ci])
        elif first:
            out = out + G["pi_grad"][j, ci]
    return out


def gradc(kw, full=False, rho=False, only=None):
    def c(k):
        m = Model(k, **kw).inputs()
        G = {}
        nT, nS = m.nT, m.nS
        M = 2 if m.hmp else 1
        bst = [j for j in range(nS) if not m.hmp or m.bump(j)]
        G["bidx"] = [(j, q) for j in bst for q in range(M)]
        G["didx"] = [j for j in range(m.nc) if not m.bump(j % nS)]
        bg = k.arr("b_grad", (nT, len(G["bidx"])), "real")
        dg = k.arr("d_grad", (m.D - 1, len(G["didx"]), nT) if m.tv else (m.D - 1, len(G["didx"])), "real")
        G["b_grad"], G["d_grad"], G["w"] = k.S("b_grad"), k.S("d_grad"), k.S("w")
        jdx = [j for j, _ in G["bidx"]] + G["didx"]
        kinds = [("b", i) for i in range(len(G["bidx"]))] + [("d", i) for i in range(len(G["didx"]))]
        ps = m.paths()
        L = tot(m.prod(f) for _, f in ps)
        if full:
            mT = nS > 2
            G["tidx"] = [j for j in range(nS)] if mT else []
            Tg = k.arr("T_grad", (nS - 1, nS, nT) if m.tv else (nS - 1, nS), "real") if mT else rnp.ones((1, 1))
            pg = k.arr("pi_grad", (nS, nS - 1), "real")
            if mT:
                G["T_grad"] = k.S("T_grad")
            G["pi_grad"] = k.S("pi_grad")
            jdx += G["tidx"]
            kinds += [("T", i) for i in range(len(G["tidx"]))] + [("p", i) for i in range(nS - 1)]
            jdx += [0] * (nS - 1)
            out = m.ext().llkgrad(m.bs, m.ds, m.T, m.pi, bg, dg, Tg, pg, rnp.array(jdx, dtype=float), 1, nT, m.D, nS, len(kinds), m.swf, m.ewl, m.eil, mT, m.tv)
        else:
            y, mu = k.arr("y", (nT, M), "real"), k.arr("mu", (nT, M, nS), "real")
            sc = k.scalar("scale", "pos")
            rv = k.scalar("rho", "unit") if rho else 1000.0
            G["y"], G["mu"], G["scale"] = k.S("y"), k.S("mu"), k.S("scale")
            if rho:
                G["rho"] = k.S("rho")
            midx = rnp.array([q for _, q in G["bidx"]], dtype=float)
            out = m.ext().llkFTPgrad(m.bs, y, mu, m.ds, m.T, m.pi, bg, dg, midx, rnp.array(jdx, dtype=float), m.w, sc, nT, m.D, nS, len(kinds), M, m.ew, *m.flags(), rv, m.tv)
        for q, (kd, ci) in enumerate(kinds):
            g = tot(m.prod(f) * path_dlog(m, p, kd, ci, G) for p, f in ps)
            if k.mode == "sym":
                k.ensure_eq(f"gradient of coefficient {q} ({kd})", out[q] * L, g)
            else:
                k.ensure_eq(f"gradient of coefficient {q} ({kd})", out[q], g / L)

    return c


for nm, kw in CASES.items():
    if nm != "bumps":
        R.add("gradient-fixed:" + nm, functions=["hsmm.llkFTPgrad"], nsamp=8, cbound="the stated sizes; all probabilities and derivatives symbolic")(gradc(kw))
    if not kw.get("hmp"):
        R.add("gradient:" + nm, functions=["hsmm.llkgrad"], nsamp=8, cbound="the stated sizes; all probabilities and derivatives symbolic")(gradc(kw, full=True))
for nm in ("bumps-short",):
    R.add("gradient-lagged:" + nm, functions=["hsmm.llkFTPgrad"], nsamp=8, cbound="the stated sizes; all probabilities and derivatives symbolic")(gradc(CASES[nm], rho=True))


# ---------------------------------------------------------------- decoding
def viterbic(kw):
    def c(k):
        m = Model(k, **kw)
        m.inputs(dom="real") if not m.hmp else m.inputs(dom="real")
        # the algorithm works with logarithms: all inputs are log probabilities here
        if m.hmp and k.mode == "sym":
            raise Unsupported("log of zero durations")
        ed, st, _, _ = m.ext().viterbi(m.bs, m.ds, m.T, m.pi, m.w, 1.0, *m.tail(), *m.flags(), m.tv)
        st = [int(st[t]) for t in range(m.nT)]
        ed = int(ed)
        ps = m.paths()
        lw = {p: tot(f) for p, f in ps}
        # remaining durations from the run lengths
        d, path = ed, []
        for t in reversed(range(m.nT)):
            path.append((st[t], d))
            d = d + 1 if t > 0 and st[t - 1] == st[t] else 0
        path = tuple(reversed(path))
        k.ensure_true(f"the decoded path {path} is possible", path in lw)
        if path in lw:
            for p in lw:
                if p != path:
                    k.ensure(f"no path is more probable than the decoded one: {p}", lw[path] - lw[p], lambda e: le(ZERO, e)) if k.mode == "sym" else k.ensure_true(
                        "no path is more probable than the decoded one", float(evalT(lw[path] - lw[p], k.env)) >= -1e-9)

    return c


VIT = {
    "free-ends": dict(nT=2, D=3, nS=2, swf=False),
    "ends-with-last": dict(nT=3, D=3, nS=2, ewl=True),
    "ends-with-and-in-last": dict(nT=3, D=3, nS=2, ewl=True, eil=True, tv=True, swf=False),
    "ends-in-last": dict(nT=2, D=4, nS=2, eil=True, tv=True),
}
for nm, kw in VIT.items():
    R.add("decode:" + nm, functions=["hsmm.viterbi"], nsamp=30, cbound="the stated sizes; all log probabilities symbolic")(viterbic(kw))


def samplec(kw):
    def c(k):
        m = Model(k, **kw).inputs()
        cxx.ghosts(k, num=True)
        ps = m.paths()
        L = tot(m.prod(f) for _, f in ps)
        got = {}
        args = lambda n, seed: (m.bs, m.ds, m.T, m.pi, m.w, 1.0, *m.tail(), n, *m.flags(), seed, m.tv)

        def pathof(st, ed):
            d, path = ed, []
            for t in reversed(range(m.nT)):
                path.append((st[t], d))
                d = d + 1 if t > 0 and st[t - 1] == st[t] else 0
            return tuple(reversed(path))

        if k.mode == "sym":
            ext = m.ext()
            todo = [[]]
            while todo:
                pre = todo.pop()
                log_ = []

                def choose(ws):
                    q = len(log_)
                    es = [cxx.toR(w).e for w in ws]
                    ok = [i for i, e in enumerate(es) if e is not ZERO]
                    pick = pre[q] if q < len(pre) else ok[0]
                    if q >= len(pre):
                        for i in ok[1:]:
                            todo.append([x[0] for x in log_] + [i])
                    log_.append((pick, es))
                    return pick

                ext.choices = choose
                try:
                    eds, st = ext.sample_backwards(*args(1, 1))
                finally:
                    ext.choices = None
                p = O
                for i, es in log_:
                    s_ = lift(0)
                    for e in es:
                        s_ = s_ + T((), (lambda e=e: e), "R")
                    s_ = T((), (lambda e=cxx.gname(s_.scalarE()): e), "R")
                    p = p * T((), (lambda e=es[i]: e), "R") / s_
                key = pathof([int(st[t, 0]) for t in range(m.nT)], int(eds[0]))
                got[key] = got[key] + p if key in got else p
            lw = dict(ps)
            for key, p in got.items():
                k.ensure_true(f"the sampled path {key} is possible", key in lw)
                if key in lw:
                    k.ensure_eq(f"probability of sampling {key} = its posterior probability", p * L, m.prod(lw[key]))
            k.ensure_true("every possible path can be sampled", set(lw) == set(got))
        else:
            N_ = 6000
            eds, st = m.ext().sample_backwards(*args(N_, int(k.rng.integers(1, 10**6))))
            cnt = {}
            for s_ in range(N_):
                key = pathof([int(v) for v in st[:, s_]], int(eds[s_]))
                cnt[key] = cnt.get(key, 0) + 1
            Lv = float(evalT(L, k.env))
            lw = {p: float(evalT(m.prod(f), k.env)) / Lv for p, f in ps}
            for key in cnt:
                k.ensure_true(f"the sampled path {key} is possible", key in lw)
            for key, pr in lw.items():
                f = cnt.get(key, 0) / N_
                k.ensure_true(f"frequency {f} of path {key} with posterior probability {pr}", abs(f - pr) <= 6 * (max(pr * (1 - pr), 1e-9) / N_) ** 0.5 + 2 / N_)

    return c


SMP = {
    "free-ends": dict(nT=3, D=3, nS=2, swf=False),
    "three-states": dict(nT=3, D=3, nS=3),
    "ends-with-and-in-last": dict(nT=4, D=3, nS=2, ewl=True, eil=True),
    "ends-in-last": dict(nT=2, D=4, nS=2, eil=True),
    "ends-with-last": dict(nT=3, D=3, nS=3, ewl=True),
    "time-varying": dict(nT=3, D=3, nS=2, swf=False, tv=True),
    "bumps": dict(nT=3, D=4, nS=3, hmp=1, ew=2),
}
for nm, kw in SMP.items():
    R.add("sample:" + nm, functions=["hsmm.sample_backwards"], nsamp=6, cbound="the stated sizes; all probabilities symbolic, every outcome of the draws")(samplec(kw))
LONG = {
    "longer": dict(nT=4, D=4, nS=3, swf=False),
    "longer-time-varying": dict(nT=4, D=3, nS=2, swf=False, tv=True, ewl=True),
    "longer-bumps": dict(nT=4, D=4, nS=3, hmp=1, ew=2),
}
for nm, kw in LONG.items():
    R.add("sample:" + nm, functions=["hsmm.sample_backwards"], symbolic=False, nstand=25, why_bounded="the products of rational functions are too large for the simplifier beyond two time points",
          cbound="sampled probabilities, 6000 draws each, 6 standard errors")(samplec(kw))


# ---------------------------------------------------------------- residuals
def forwardc(kw, M=2):
    def c(k):
        m = Model(k, **kw).inputs()
        sh = (m.nT, M, m.bsh[1], m.nS) if m.hmp else (m.nT, m.nS, M)
        cbs = k.arr("cbs", sh, "pos")
        C = k.S("cbs")
        out = m.ext().forward_resid(cbs, m.bs, m.ds, m.T, m.pi, m.w, 1.0, m.nT, m.D, m.nS, M, m.ew, *m.flags(), m.tv)
        for t in range(m.nT):
            ps = m.paths(upto=t + 1, constrained=t == m.nT - 1)
            for q in range(M):
                num = Z
                for p, f in ps:
                    j, d = p[-1]
                    first, entry = t == 0, t == 0 or p[-2][1] == 0
                    num = num + m.prod(f[:-1] + [C[t, q, m.bi(j, d, entry, first), j] if m.hmp else C[t, j, q]])
                L = m.like(upto=t, constrained=False) if t else O
                if k.mode == "sym":
                    k.ensure_eq(f"P(Y <= y | past) at time {t}, signal {q}", out[t, q] * L, num)
                else:
                    k.ensure_eq(f"P(Y <= y | past) at time {t}, signal {q}", out[t, q], num / L)

    return c


def predictivec(kw, M=2, rho=False):
    def c(k):
        m = Model(k, **kw).inputs()
        y, mus = k.arr("y", (m.nT, M), "real"), k.arr("mus", (m.nT, M, m.nS), "real")
        rv = k.scalar("rho", "unit") if rho else 1000.0
        out = m.ext().predictive_resid(y, m.bs, mus, m.ds, m.T, m.pi, m.w, 1.0, m.nT, m.D, m.nS, M, m.ew, *m.flags(), rv, m.tv)
        mu, w, ys = k.S("mus"), k.S("w"), k.S("y")
        if rho:
            r = k.S("rho")
            d0, d1 = O / np.sqrt(O - r * r), (Z - r) / np.sqrt(O - r * r)
        for q in range(M):
            cum, sq = Z, Z
            for t in range(m.nT):
                num = Z
                for p, f in m.paths(upto=t + 1, constrained=t == m.nT - 1):
                    j, d = p[-1]
                    first, entry = t == 0, t == 0 or p[-2][1] == 0
                    e = mu[t, q, j]
                    if m.hmp:
                        kk = m.bi(j, d, entry, first)
                        if m.bump(j):
                            e = w[kk] * mu[t, q, j]
                            if rho:
                                e = e * d0
                                if kk > 0:
                                    e = e + d1 * w[kk - 1] * mu[t - 1, q, j]
                        elif rho and entry and not first and j > 0:
                            e = d1 * w[m.ew - 1] * mu[t - 1, q, j - 1]
                        else:
                            continue
                    num = num + m.prod(f[:-1] + [e])
                L = m.like(upto=t, constrained=False) if t else O
                u = ys[t, q] - num / L
                cum, sq = cum + u, sq + u * u
                k.ensure_eq(f"predictive residual at time {t}, signal {q}", out[t, q], cum / np.sqrt(sq) if t else cum)

    return c


RES = {
    "free-ends": dict(nT=3, D=3, nS=2, swf=False),
    "three-states": dict(nT=2, D=3, nS=3),
    "time-varying": dict(nT=3, D=3, nS=2, swf=False, tv=True),
    "bumps": dict(nT=3, D=4, nS=3, hmp=1, ew=2),
    # at the last time point the end condition is part of the event
    "ends-with-last": dict(nT=2, D=3, nS=2, ewl=True),
    "ends-in-last": dict(nT=2, D=3, nS=2, eil=True),
    "ends-with-and-in-last": dict(nT=3, D=3, nS=2, ewl=True, eil=True),
}
for nm, kw in RES.items():
    R.add("forward-residuals:" + nm, functions=["hsmm.forward_resid"], nsamp=8, cbound="the stated sizes; all probabilities symbolic")(forwardc(kw))
    kw2 = dict(kw, nT=2, D=3)
    R.add("predictive-residuals:" + nm, functions=["hsmm.predictive_resid"], nsamp=8, cbound="the stated sizes; all values symbolic")(predictivec(kw2, M=2))
    R.add("predictive-residuals-longer:" + nm, functions=["hsmm.predictive_resid"], symbolic=False, nstand=60, why_bounded="square roots of large rational functions are outside the simplifier's reach beyond two time points",
          cbound="4 time points, sampled values")(predictivec(dict(kw, nT=4)))
for nm, kw in {"bumps": dict(nT=2, D=4, nS=3, hmp=1, ew=2), "short-bumps": dict(nT=2, D=3, nS=3, hmp=1, ew=1)}.items():
    R.add("predictive-residuals-lagged:" + nm, functions=["hsmm.predictive_resid"], nsamp=8, cbound="the stated sizes; all values symbolic")(predictivec(kw, M=2, rho=True))
R.add("predictive-residuals-lagged:longer", functions=["hsmm.predictive_resid"], symbolic=False, nstand=60, why_bounded="as for the residuals without lag", cbound="4 time points, sampled values")(predictivec(dict(RES["bumps"], nT=4), rho=True))


# ---------------------------------------------------------------- probabilities of one series (hsmm.py)
class Fam:
    """a family as the model sees it: links, log-density, log-cumulative probability (arbitrary functions of all arguments)"""

    d_eta = False

    def __init__(self, ef, a, n_par=2):
        self.n_par, self.a = n_par, a
        self.links = [ef.Identity(), ef.LOG()][:n_par]

    @staticmethod
    def f(np_, a, y, m, s):
        return -(y - m) * (y - m) / (a * s) - a * np_.log(s)

    @staticmethod
    def g(np_, a, y, m, s):
        return -a * np_.exp(m - s * y)

    def lp(self, y, m, s=1.0):
        return self.f(self._np(y, m), self.a, y, m, s)

    def lcp(self, y, m, s=1.0):
        return self.g(self._np(y, m), self.a, y, m, s)

    @staticmethod
    def _np(*v):
        return np if any(isinstance(x, T) for x in v) else rnp


def probsc(nS=2, M=1, nT=2, D=3, swf=True, shared=(), shared_m=False, tv=False, lg=False, none=(), trial=1, npar=2):
    def c(k):
        ef, hs = k.mod("exp_fam"), k.mod("hsmm")
        obs = [[Fam(ef, 2 + j + 3 * m, npar) for m in range(M)] for j in range(nS)]
        nd = nS if swf else 2 * nS
        dur = [Fam(ef, 3 + j) for j in range(nd)]
        nsh = len(shared) * (1 if shared_m else M)
        nobs, ndur = nS * M * npar, 2 * nd
        nt, npi = (nS * (nS - 2) if nS > 2 else 0), nS - 1
        ntot = nsh + nobs + ndur + nt + npi
        dr = nT if tv else trial
        X_, sx, ys, sy = [], [], [], []
        C, bmi = [], []
        for i in range(ntot):
            rows = nT if i < nsh + nobs else (1 if i >= ntot - npi else dr)
            bmi.append(i)
            if i in none:
                X_.append(None)
                sx.append(sx[i - 1])
                bmi[-1] = bmi[i - 1]
            else:
                X_.append(k.arr(f"X{i}", (rows, 2), "small", sp=True))
                sx.append(k.S(f"X{i}"))
        cf = k.arr("coef", (2 * ntot, 1), "small")
        sc = k.S("coef")
        yv = k.arr("y", (nT, M), "small")
        S_y = k.S("y")
        for i in range(ntot):
            if i < nsh:
                ys.append(yv[:, 0:1] if i == 0 else None)
            elif i < nsh + nobs:
                q = i - nsh
                ys.append(yv[:, (q // npar) % M : (q // npar) % M + 1] if q % npar == 0 else None)
            else:
                ys.append(None)

        def eta(i, t):
            return sx[i][t, 0] * sc[2 * i, 0] + sx[i][t, 1] * sc[2 * i + 1, 0]

        out = hs._compute_series_probs(cf, [2 * i for i in range(1, ntot)], list(shared), shared_m, ys, X_, nS, obs, dur, D, M, None, None, None, lg, True, True, swf, bmi, tvdtpi=tv)
        y_mat, mus, mus_d, jbs, cbs, bs, ds, T_, pi = out
        fx = (lambda v: v) if lg else exp
        fl = log if lg else (lambda v: v)

        def mu_obs(j, m, t):
            r = []
            for par in range(npar):
                e = eta(nsh + (j * M + m) * npar + par, t)
                if par in shared:
                    p = list(shared).index(par)
                    e = e + eta(p if shared_m else p * M + m, t)
                r.append(exp(e) if par == 1 else e)
            return r

        for t in range(nT):
            for m in range(M):
                k.ensure_eq(f"observation {t},{m}", y_mat[t, m], S_y[t, m])
            for j in range(nS):
                tot_ = Z
                for m in range(M):
                    mm = mu_obs(j, m, t)
                    mm2 = mm if npar == 2 else mm + [1.0]
                    l_ = Fam.f(np, obs[j][m].a, S_y[t, m], *mm2)
                    tot_ = tot_ + l_
                    k.ensure_eq(f"mean {t},{m},{j}", mus[t, m, j], mm[0])
                    k.ensure_eq(f"density of signal {t},{j},{m}", jbs[t, j, m], fx(l_))
                    k.ensure_eq(f"cumulative probability {t},{j},{m}", cbs[t, j, m], fx(Fam.g(np, obs[j][m].a, S_y[t, m], *mm2)))
                k.ensure_eq(f"density of all signals {t},{j}", bs[t, j], fx(tot_))
        for j in range(nd):
            for t in range(nT if tv else 1):
                i = nsh + nobs + 2 * j
                raw = [exp(Fam.f(np, dur[j].a, d + 1, eta(i, t), exp(eta(i + 1, t)))) for d in range(D - 1)]
                for d in range(D - 1):
                    k.ensure_eq(f"probability of duration {d + 1} in {j} at {t}", ds[d, j, t] if tv else ds[d, j], fl(raw[d] / tot(raw)))
                k.ensure_eq(f"mean duration parameter of {j}", mus_d[j][0][t, 0], eta(i, t))
        for j in range(nS):
            for t in range(nT if tv else 1):
                def at(a, b):
                    return T_[a, b, t] if tv else T_[a, b]
                others = [i for i in range(nS) if i != j]
                ws = [O] + [exp(eta(nsh + nobs + ndur + j * (nS - 2) + q, t)) for q in range(nS - 2)]
                for q, i in enumerate(others):
                    k.ensure_eq(f"transition {j}->{i} at {t}", at(j, i), fl(ws[q] / tot(ws)))
                if not lg:
                    k.ensure_eq(f"no self-transition of {j} at {t}", at(j, j), 0.0)
        ws = [O] + [exp(eta(ntot - npi + q, 0)) for q in range(nS - 1)]
        for q in range(nS):
            k.ensure_eq(f"initial probability of {q}", pi[q], fl(ws[q] / tot(ws)))

    return c


PROBS = {
    "two-states": dict(),
    "three-states": dict(nS=3),
    "two-signals": dict(M=2),
    "log": dict(nS=2, M=2, lg=True),
    "own-start-durations": dict(swf=False),
    "shared": dict(shared=(0,), M=2),
    "shared-signals": dict(shared=(0,), M=2, shared_m=True),
    "shared-all": dict(shared=(0, 1)),
    "shared-scale": dict(shared=(1,)),
    "shared-scale-signals": dict(shared=(1,), M=2),
    "time-varying": dict(nS=3, tv=True, swf=False),
    "time-varying-two": dict(nS=2, tv=True),
    "reused-matrices": dict(none=(1, 3), M=1),
    "one-parameter": dict(npar=1, shared=(0,)),
}
for nm, kw in PROBS.items():
    R.add("probabilities:" + nm, functions=["hsmm._compute_series_probs"], nsamp=8, cbound="the stated sizes; all values symbolic")(probsc(**kw))


def hmpc(nS=3, M=1, nT=3, D=4, ew=2, rho=False, fam="Gaussian", lg=False, tv=False, shared=False, shared_m=False, given=False):
    """bump models: densities by position inside the bump, lag of the whitened means"""

    def c(k):
        ef, hs = k.mod("exp_fam"), k.mod("hsmm")
        nsh = (1 if shared_m else M) if shared else 0
        nb = (nS // 2) * M
        durs = [j for j in range(nS) if j % 2 == 0]
        dur = [Fam(ef, 3 + j) if j % 2 == 0 else None for j in range(nS)]
        ntot = nsh + nb + 2 * len(durs)
        X_, sx = [], []
        for i in range(ntot):
            X_.append(k.arr(f"X{i}", ((nT if i < nsh + nb else (nT if tv else 1)), 1), "small", sp=True))
            sx.append(k.S(f"X{i}"))
        cf, yv, w = k.arr("coef", (ntot, 1), "small"), k.arr("y", (nT, M), "small"), k.arr("w", (ew,), "real")
        sc, sy, sw = k.S("coef"), k.S("y"), k.S("w")
        scale = k.scalar("scale", "pos")
        ss = k.S("scale")
        rv = k.scalar("rho", facts=lambda e: [lt(const(-1), e), lt(e, const(1))], sample=lambda rg, s: rg.uniform(-0.9, 0.9)) if rho else None
        ys = []
        for i in range(ntot):
            q = i - nsh
            ys.append(yv[:, 0:1] if i == 0 and nsh else (yv[:, q % M : q % M + 1] if 0 <= q < nb else None))
        out = hs._compute_series_probs(cf, list(range(1, ntot)), [0] if shared else [], shared_m, ys, X_, nS, [[None] * M for _ in range(nS)], dur, D, M, ew, w, scale, lg, False, False, True,
                                       list(range(ntot)), is_hmp=True, hmp_fam=fam, rho=rv, tvdtpi=tv)
        y_mat, mus, mus_d, jbs, cbs, bs, ds, _, _ = out
        if given == "obs":
            for t in range(nT):
                for m in range(M):
                    k.ensure_eq(f"observation {t} of signal {m}", y_mat[t, m], sy[t, m])
            return
        if given:
            sy = lift(y_mat)
        eta = lambda i, t: sx[i][t, 0] * sc[i, 0]
        fx = (lambda v: v) if lg else exp
        fl = log if lg else (lambda v: v)

        def mu(t, m, j):
            e = eta(nsh + (j // 2) * M + m, t)
            return e + eta(0 if shared_m else m, t) if shared else e

        if rho:
            r = k.S("rho")
            d0, d1 = O / np.sqrt(O - r * r), (Z - r) / np.sqrt(O - r * r)

        def dens(y, e):
            u = y - e
            if fam == "Gaussian":
                return -u * u / (2 * ss) - log(2 * lift(PI) * ss) / 2
            return -u * u / ss - log(ss)

        def cum(y, e):
            u = y - e
            if fam == "Gaussian":
                return scp.stats.norm.logcdf(u, scale=np.sqrt(lift(ss)))
            return log(1 - exp(-u * u / ss))

        for t in range(nT):
            for j in range(nS):
                for d in range(ew if j % 2 else 2):
                    tot_ = Z
                    for m in range(M):
                        if j % 2:
                            e = sw[d] * mu(t, m, j)
                            if rho:
                                e = e * d0
                                if d > 0 and t > 0:
                                    e = e + d1 * sw[d - 1] * mu(t - 1, m, j)
                        else:
                            e = d1 * sw[ew - 1] * mu(t - 1, m, j - 1) if rho and j > 0 and d == 1 and t > 0 else Z
                        l_ = dens(sy[t, m], e)
                        tot_ = tot_ + l_
                        k.ensure_eq(f"density at {t} of signal {m} in state {j}, position {d}", jbs[t, m, d, j], fx(l_))
                        k.ensure_eq(f"cumulative probability at {t} of signal {m} in state {j}, position {d}", cbs[t, m, d, j], fx(cum(sy[t, m], e)))
                    k.ensure_eq(f"density at {t} in state {j}, position {d}", bs[t, d, j], fx(tot_))
                if not lg and j % 2 == 0:
                    for d in range(2, ew):
                        k.ensure_eq(f"a flat {j} has no position {d} at {t}", bs[t, d, j], 0.0)
        for j in durs:
            for t in range(nT if tv else 1):
                i = nsh + nb + j
                raw = [exp(Fam.f(np, dur[j].a, d + 1, eta(i, t), exp(eta(i + 1, t)))) for d in range(D - 1)]
                for d in range(D - 1):
                    k.ensure_eq(f"probability of duration {d + 1} in {j} at {t}", ds[d, j, t] if tv else ds[d, j], fl(raw[d] / tot(raw)))
        if not lg:
            for j in range(1, nS, 2):
                for t in range(nT if tv else 1):
                    for d in range(D - 1):
                        k.ensure_eq(f"bump {j} lasts as long as its template, duration {d + 1} at {t}", ds[d, j, t] if tv else ds[d, j], 1.0 if d == ew - 1 else 0.0)

    return c


HMP = {
    "gaussian": dict(M=2),
    "wide": dict(ew=3, D=5, nT=2),
    "lagged": dict(rho=True),
    "lagged-signals": dict(rho=True, M=2, nT=2),
    "five-states": dict(nS=5, rho=True, nT=2),
    "exponential": dict(fam="Exponential", rho=True),
    "log": dict(lg=True, rho=True),
    "time-varying": dict(tv=True),
    "shared": dict(shared=True),
    "shared-signals": dict(shared=True, M=2, nT=2, given=True),
    "shared-all-signals": dict(shared=True, shared_m=True, M=2, nT=2, given=True),
    "observations": dict(M=3, nT=2, given="obs"),
    "shared-observations": dict(shared=True, M=2, nT=2, given="obs"),
    "shared-all-observations": dict(shared=True, shared_m=True, M=2, nT=2, given="obs"),
}
for nm, kw in HMP.items():
    R.add("bump-probabilities:" + nm, functions=["hsmm._compute_series_probs"], nsamp=8, cbound="the stated sizes; all values symbolic")(hmpc(**kw))


def multic(nS=2, nT=2, nP=2, shared=(), shared_m=False, lg=False, others=False):
    """multivariate Gaussian emissions: every state has its own means and precision root"""

    def c(k):
        ef, hs = k.mod("exp_fam"), k.mod("hsmm")
        obs = [[ef.MultiGauss(nP, [ef.Identity() for _ in range(nP)])] for _ in range(nS)]
        dur = [Fam(ef, 3 + j) for j in range(nS)]
        nsh = (1 if shared_m else nP) if shared else 0
        nobs = nS * nP
        ntot = nsh + nobs + 2 * nS
        ne = nP * (nP + 1) // 2
        X_, sx = [], []
        for i in range(ntot):
            X_.append(k.arr(f"X{i}", ((nT if i < nsh + nobs else 1), 1), "small", sp=True))
            sx.append(k.S(f"X{i}"))
        cf, yv = k.arr("coef", (ntot + nS * ne, 1), "small"), k.arr("y", (nT, nP), "small")
        sc, sy = k.S("coef"), k.S("y")
        ys = [None] * ntot
        if nsh:
            ys[0] = yv[:, 0:1]
        for j in range(nS):
            for p in range(nP):
                ys[nsh + j * nP + p] = yv[:, p : p + 1]
        out = hs._compute_series_probs(cf, list(range(1, ntot + 1)), list(shared), shared_m, ys, X_, nS, obs, dur, 3, nP, None, None, None, lg, False, False, True, list(range(ntot)))
        y_mat, mus, mus_d, jbs, cbs, bs, ds, _, _ = out
        fx = (lambda v: v) if lg else exp
        for j in range(nS):
            th = [sc[ntot + j * ne + q, 0] for q in range(ne)]
            Rm, q = [[Z] * nP for _ in range(nP)], 0
            ld = Z
            for a in range(nP):
                for b in range(a, nP):
                    Rm[a][b] = exp(th[q]) if a == b else th[q]
                    if a == b:
                        ld = ld + th[q]
                    q += 1
            for t in range(nT):
                mu = []
                for p in range(nP):
                    i = nsh + j * nP + p
                    e = sx[i][t, 0] * sc[i, 0]
                    if nsh:
                        s_ = 0 if shared_m else p
                        e = e + sx[s_][t, 0] * sc[s_, 0]
                    mu.append(e)
                    k.ensure_eq(f"mean {t},{p},{j}", mus[t, p, j], e)
                    k.ensure_eq(f"observation {t},{p}", y_mat[t, p], sy[t, p])
                z = [tot(Rm[a][b] * (sy[t, b] - mu[b]) for b in range(nP)) for a in range(nP)]
                k.ensure_eq(f"density {t},{j}", bs[t, j], fx(ld - tot(v * v for v in z) / 2))

    return c


for nm, kw in {"plain": dict(), "three-signals": dict(nP=3, nT=1), "log": dict(lg=True), "shared": dict(shared=(0,)), "shared-signals": dict(shared=(0,), shared_m=True)}.items():
    R.add("multivariate:" + nm, functions=["hsmm._compute_series_probs", "exp_fam.MultiGauss.getR"], nsamp=8, cbound="the stated sizes; all values symbolic")(multic(**kw))


# ---------------------------------------------------------------- the family as a whole (HSMMFamily), against enumeration
class Whole:
    """a random model with several series; `prob(coef, s)` gives the path model of series s, computed here from the definition"""

    def __init__(self, k, nS=2, M=1, D=3, lens=(3, 4), swf=True, ewl=False, eil=False, hmp=False, ew=2, rho=None, fixed=None, tv=False, shared=(), shared_m=False, multi=False, tids=True, fam="Gaussian", reuse=False):
        import scipy.sparse as sps

        rg = k.rng
        self.k, self.__dict__ = k, dict(self.__dict__, k=k, nS=nS, M=M, D=D, lens=lens, swf=swf, ewl=ewl, eil=eil, hmp=hmp, ew=ew, rho=rho, fixed=fixed, tv=tv, shared=list(shared), shared_m=shared_m, multi=multi, famname=fam)
        ef, hs = k.mod("exp_fam"), k.mod("hsmm")
        n, ns = sum(lens), len(lens)
        self.sid = rnp.array([0] + list(rnp.cumsum(lens)[:-1]))
        tid = None if (tv or not tids) else rnp.arange(ns)
        self.drows = n if tid is None else ns
        self.own_tid = tid is not None
        if hmp:
            obs = [[None] * M for _ in range(nS)]
        elif multi:
            obs = [[ef.MultiGauss(M, [ef.Identity() for _ in range(M)])] for _ in range(nS)]
        else:
            obs = [[ef.GAUMLSS([ef.Identity(), ef.LOG()]) for _ in range(M)] for _ in range(nS)]
        nd = nS if swf else 2 * nS
        dur = [None if hmp and j % 2 else ef.GAMMALS([ef.LOG(), ef.LOG()]) for j in range(nd)]
        nsh = len(shared) * (1 if shared_m else M)
        nobs = (nS // 2) * M if hmp else (nS * M if multi else nS * M * 2)
        durs = [j for j in range(nd) if dur[j] is not None]
        nt, npi = (0, 0) if fixed else ((nS * (nS - 2) if nS > 2 else 0), nS - 1)
        self.nsh, self.nobs, self.nd, self.durs, self.nt, self.npi = nsh, nobs, nd, durs, nt, npi
        ntot = nsh + nobs + 2 * len(durs) + nt + npi
        self.ntot = ntot
        self.Xd, self.w, Xs, ys, bmi = [], [], [], [], []
        self.Y = rg.normal(0, 1, (n, M))
        pend = []
        for i in range(ntot):
            rows = n if i < nsh + nobs else self.drows
            p = int(rg.integers(1, 3))
            A = rg.normal(0, 0.7, (rows, p))
            A[:, 0] = 1
            skip = False
            if reuse and i > 0 and self.Xd[-1].shape[0] == rows and rg.uniform() < 0.6:
                A, skip = self.Xd[-1], True
            self.Xd.append(A)
            Xs.append(None if skip else sps.csc_array(A))
            bmi.append(bmi[-1] if skip else i)
            self.w.append(A.shape[1])
            y = None
            if i < nsh:
                y = self.Y[:, :1] if i == 0 else None
            elif i < nsh + nobs:
                q = i - nsh
                m = q % M if hmp or multi else (q // 2) % M
                if hmp or multi or q % 2 == 0:
                    y = self.Y[:, m : m + 1]
            else:
                y = rnp.arange(rows, dtype=float).reshape(-1, 1)
                y = None if rg.uniform() < 0.5 else y
            ys.append(y)
        self.ne = M * (M + 1) // 2 if multi else 0
        self.split = list(rnp.cumsum(self.w))
        coef = rg.normal(0, 0.5, (sum(self.w) + (nS * self.ne), 1))
        if not multi:
            self.split = self.split[:-1]
        self.coef, self.ys, self.Xs = coef, ys, Xs
        self.wt = rg.uniform(0.3, 1.0, ew)
        self.scale = float(rg.uniform(0.5, 2))
        L = None
        if rho is not None:
            d0, d1 = rnp.ones(n) / (1 - rho**2) ** 0.5, -rho * rnp.ones(n) / (1 - rho**2) ** 0.5
            d0[self.sid] = 1
            up = d1[1:].copy()
            up[self.sid[1:] - 1] = 0
            # L' y: y_t scaled minus the scaled previous value of the same series
            L = sps.diags_array([d0, up], offsets=[0, 1], format="csc")
            self.logdet = float(rnp.log(d0).sum())
        else:
            self.logdet = 0.0
        self.L = L
        Tm = pim = None
        if fixed:
            def one(s):
                if hmp:
                    T_ = rnp.diag(rnp.ones(nS - 1), 1)
                    p_ = rnp.zeros(nS)
                    p_[0] = 1
                    if fixed == "list":
                        T_ = T_ + 0.0
                    return T_, p_
                T_ = rg.uniform(0.1, 1, (nS, nS))
                T_[rnp.arange(nS), rnp.arange(nS)] = 0
                T_ /= T_.sum(1, keepdims=True)
                p_ = rg.uniform(0.1, 1, nS)
                return T_, p_ / p_.sum()
            mats = [one(s) for s in range(ns)] if fixed == "list" else [one(0)] * ns
            self.TP = mats
            Tm, pim = ([m_[0] for m_ in mats], [m_[1] for m_ in mats]) if fixed == "list" else mats[0]
        self.fam = hs.HSMMFamily(ntot, [ef.Identity() for _ in range(ntot)], nS, obs, dur, self.sid, tid, D, M, swf, ewl, eil, n_cores=1, build_mat_idx=bmi, shared_pars=list(shared), shared_m=shared_m,
                                 T=Tm, pi=pim, Lrhoi=L, scale=self.scale if hmp else None, event_template=self.wt if hmp else None, hmp_fam=fam, tvdtpi=tv)
        self.ldnorm, self.ldgam = rnp_norm, rnp_gam

    def args(self, coef=None):
        return (self.coef if coef is None else coef), list(self.split), [None if y is None else y.copy() for y in self.ys], list(self.Xs)

    def prob(self, s, coef=None):
        c = (self.coef if coef is None else coef)[:, 0]
        cs, o = [], 0
        for w in self.w:
            cs.append(c[o : o + w])
            o += w
        th = c[o:]
        a, nT = int(self.sid[s]), self.lens[s]
        nS, M, D = self.nS, self.M, self.D
        r = range(a, a + nT)
        obs_eta = lambda i: self.Xd[i][a : a + nT] @ cs[i]
        Yw = self.Y if self.L is None else self.L.toarray().T @ self.Y
        Y = Yw[a : a + nT]

        def shr(par, m):
            if par not in self.shared:
                return 0.0
            p = self.shared.index(par)
            return obs_eta(p if self.shared_m else p * M + m)

        mo = Num(self, nT)
        if self.hmp:
            mu = rnp.zeros((nT, M, nS))
            for j in range(1, nS, 2):
                for m in range(M):
                    mu[:, m, j] = obs_eta(self.nsh + (j // 2) * M + m) + shr(0, m)
            mo.mu = mu
            bs = rnp.zeros((nT, max(self.ew, 2), nS))
            g = self.ldnorm if self.famname == "Gaussian" else None
            d0, d1 = (1.0, 0.0) if self.rho is None else (1 / (1 - self.rho**2) ** 0.5, -self.rho / (1 - self.rho**2) ** 0.5)
            mo.E = rnp.zeros((nT, max(self.ew, 2), nS, M))
            for j in range(nS):
                for t in range(nT):
                    for d in range(self.ew if j % 2 else 2):
                        v = 0.0
                        for m in range(M):
                            if j % 2:
                                e = d0 * self.wt[d] * mu[t, m, j] + (d1 * self.wt[d - 1] * mu[t - 1, m, j] if d > 0 and t > 0 else 0)
                            else:
                                e = d1 * self.wt[-1] * mu[t - 1, m, j - 1] if d == 1 and t > 0 and j > 0 else 0.0
                            mo.E[t, d, j, m] = e
                            u = Y[t, m] - e
                            v += -u * u / (2 * self.scale) - 0.5 * rnp.log(2 * rnp.pi * self.scale) if self.famname == "Gaussian" else -u * u / self.scale - rnp.log(self.scale)
                        bs[t, d, j] = rnp.exp(v)
        elif self.multi:
            bs = rnp.zeros((nT, nS))
            mo.mu = rnp.zeros((nT, M, nS))
            for j in range(nS):
                Rm, q = rnp.zeros((M, M)), j * self.ne
                ld = 0.0
                for x in range(M):
                    for y in range(x, M):
                        Rm[x, y] = rnp.exp(th[q]) if x == y else th[q]
                        ld += th[q] if x == y else 0
                        q += 1
                for m in range(M):
                    mo.mu[:, m, j] = obs_eta(self.nsh + j * M + m) + shr(0, m)
                z = (Y - mo.mu[:, :, j]) @ Rm.T
                bs[:, j] = rnp.exp(ld - 0.5 * (z**2).sum(1))
        else:
            bs = rnp.zeros((nT, nS))
            mo.mu, mo.sd = rnp.zeros((nT, M, nS)), rnp.zeros((nT, M, nS))
            for j in range(nS):
                for m in range(M):
                    i = self.nsh + (j * M + m) * 2
                    mu, sd = obs_eta(i) + shr(0, m), rnp.exp(obs_eta(i + 1) + shr(1, m))
                    bs[:, j] += self.ldnorm(Y[:, m], mu, sd)
                    mo.mu[:, m, j], mo.sd[:, m, j] = mu, sd
            bs = rnp.exp(bs)
        mo.sbs = bs
        ro = [s] if self.own_tid else (list(r) if self.tv else [a])
        i = self.nsh + self.nobs
        ds = rnp.zeros((D - 1, self.nd, len(ro)))
        mo.dpar = {}
        for j in range(self.nd):
            if j in self.durs:
                mu, ph = rnp.exp(self.Xd[i][ro] @ cs[i]), rnp.exp(self.Xd[i + 1][ro] @ cs[i + 1])
                i += 2
                mo.dpar[j] = (mu, ph)
                for d in range(1, D):
                    ds[d - 1, j] = rnp.exp(self.ldgam(d, 1 / ph, mu * ph))
            else:
                ds[self.ew - 1, j] = 1
        ds /= ds.sum(0, keepdims=True)
        if self.fixed:
            Tm, pim = self.TP[s]
            Tm = rnp.repeat(Tm[:, :, None], len(ro), 2)
        else:
            Tm = rnp.zeros((nS, nS, len(ro)))
            for j in range(nS):
                ws = [rnp.ones(len(ro))]
                for q in range(nS - 2):
                    ws.append(rnp.exp(self.Xd[i][ro] @ cs[i]))
                    i += 1
                ws = rnp.array(ws)
                Tm[j, [x for x in range(nS) if x != j]] = ws / ws.sum(0)
            ws = [1.0]
            for q in range(nS - 1):
                ws.append(float(rnp.exp(self.Xd[i][ro[0]] @ cs[i])))
                i += 1
            pim = rnp.array(ws) / sum(ws)
        mo.sds, mo.sT, mo.spi = (ds, Tm, pim) if self.tv else (ds[:, :, 0], Tm[:, :, 0], pim)
        mo.Y = Y
        return mo

    def llk(self, coef=None):
        return sum(rnp.log(self.prob(s, coef).total()) for s in range(len(self.lens))) + self.M * self.logdet


class Num(Model):
    """a path model on numbers"""

    def __init__(self, W, nT):
        self.k, self.nT, self.D, self.nS, self.swf, self.ewl, self.eil, self.hmp, self.ew, self.tv = W.k, nT, W.D, W.nS, W.swf, W.ewl, W.eil, int(W.hmp), W.ew, W.tv

    def d_(self, d, j, t, first):
        if self.bump(j):
            return 1.0 if d == self.ew - 1 else None
        return Model.d_(self, d, j, t, first)

    def total(self, **kw):
        return float(sum(rnp.prod(f) for _, f in self.paths(**kw)))


def rnp_norm(y, m, s):
    return -0.5 * ((y - m) / s) ** 2 - rnp.log(s) - 0.5 * rnp.log(2 * rnp.pi)


def rnp_gam(y, a, s):
    from scipy.special import gammaln

    return (a - 1) * rnp.log(y) - y / s - a * rnp.log(s) - gammaln(a)


WHOLE = {
    "two-states": dict(),
    "three-states": dict(nS=3, lens=(3, 2)),
    "two-signals": dict(M=2),
    "own-start-durations": dict(swf=False, D=3),
    "ends-with-last": dict(ewl=True, swf=False),
    "ends-in-last": dict(eil=True, ewl=True, nS=3, lens=(4, 3)),
    "reused": dict(reuse=True, M=2),
    "fixed": dict(fixed="one", nS=3, lens=(3, 4)),
    "fixed-by-series": dict(fixed="list"),
    "one-series": dict(lens=(5,)),
    "time-varying": dict(tv=True, nS=3, lens=(4, 2)),
    "time-varying-two": dict(tv=True, swf=False),
    "shared": dict(shared=(0,), M=2),
    "shared-scale": dict(shared=(1,), M=2),
    "shared-all": dict(shared=(0, 1), M=2, shared_m=True),
    "multivariate": dict(multi=True, M=2),
    "multivariate-shared": dict(multi=True, M=2, shared=(0,), nS=3, lens=(3, 3)),
    "bumps": dict(hmp=True, nS=3, lens=(5, 6), D=4, fixed="one", ewl=True, eil=True, M=2),
    "bumps-exponential": dict(hmp=True, nS=3, lens=(5,), D=4, fixed="one", fam="Exponential", eil=True),
    "bumps-lagged": dict(hmp=True, nS=3, lens=(5, 6), D=4, fixed="one", rho=0.4, M=2, eil=True),
    "bumps-negative-lag": dict(hmp=True, nS=3, lens=(1, 5, 4), D=4, fixed="one", rho=-0.5),
    "bumps-shared": dict(hmp=True, nS=3, lens=(5, 4), D=4, fixed="one", shared=(0,)),
}
BUMP5 = dict(hmp=True, nS=5, lens=(8,), D=4, fixed="one", rho=0.3, eil=True)


def wholellk(kw):
    def c(k):
        W = Whole(k, **kw)
        k.note("model", {"config": kw, "coef": W.coef.ravel().tolist(), "Y": W.Y.tolist()})
        k.close("log-likelihood is that of all state sequences", W.fam.llk(*W.args()), W.llk(), rtol=1e-8, atol=1e-8)
        c2 = W.coef + k.rng.normal(0, 0.1, W.coef.shape)
        k.close("log-likelihood at other coefficients", W.fam.llk(*W.args(c2)), W.llk(c2), rtol=1e-8, atol=1e-8)

    return c


def wholegrad(kw):
    def c(k):
        W = Whole(k, **kw)
        k.note("model", {"config": kw, "coef": W.coef.ravel().tolist(), "Y": W.Y.tolist()})
        g = rnp.asarray(W.fam.gradient(*W.args())).ravel()
        k.check("gradient has one entry per coefficient", g.shape[0] == W.coef.shape[0], g.shape)
        h, num = 1e-5, []
        for q in range(W.coef.shape[0]):
            e = rnp.zeros_like(W.coef)
            e[q] = h
            num.append((W.llk(W.coef + e) - W.llk(W.coef - e)) / (2 * h))
        k.close("gradient of the log-likelihood", g, rnp.array(num), rtol=2e-5, atol=2e-5)

    return c


def wholedecode(kw):
    def c(k):
        W = Whole(k, **kw)
        k.note("model", {"config": kw, "coef": W.coef.ravel().tolist(), "Y": W.Y.tolist()})
        out = W.fam.decode_viterbi(*W.args())
        k.check("one decoded sequence per series", len(out) == len(W.lens), len(out))
        for s in range(len(W.lens)):
            mo = W.prob(s)
            best = {}
            for p, f in mo.paths():
                v = float(rnp.prod(f))
                key = tuple(x[0] for x in p)
                if v > best.get(key, (0.0,))[0]:
                    best[key] = (v, p[-1][1])
            top = max(v for v, _ in best.values())
            got = tuple(int(x) for x in rnp.asarray(out[s][1]).ravel())
            k.check(f"decoded states of series {s} are possible", got in best, got)
            k.close(f"decoded states of series {s} have the largest probability", best[got][0] / top, 1.0, rtol=1e-7)
            ods = W.fam.compute_od_probs(*W.args(), log=False)[s]
            k.close(f"emission densities of series {s}", ods[0], mo.sbs, rtol=1e-8, atol=1e-12)
            k.close(f"duration probabilities of series {s}", ods[1], mo.sds, rtol=1e-8, atol=1e-12)
            if not W.hmp:
                Tp = W.fam.compute_Tpi(*W.args())[s]
                k.close(f"transition probabilities of series {s}", Tp[0], mo.sT if W.tv or rnp.ndim(Tp[0]) == rnp.ndim(mo.sT) else mo.sT, rtol=1e-8, atol=1e-12)
                k.close(f"initial probabilities of series {s}", rnp.asarray(Tp[1]).ravel(), mo.spi, rtol=1e-8)

    return c


def wholesample(kw):
    def c(k):
        W = Whole(k, **kw)
        k.note("model", {"config": kw, "coef": W.coef.ravel().tolist(), "Y": W.Y.tolist()})
        N_ = 3000
        out = W.fam.sample_posterior_states(*W.args(), n_samples=N_, seed=int(k.rng.integers(1, 10**6)))
        for s in range(len(W.lens)):
            mo = W.prob(s)
            pr, Z_ = {}, 0.0
            for p, f in mo.paths():
                v = float(rnp.prod(f))
                key = tuple(x[0] for x in p)
                pr[key] = pr.get(key, 0) + v
                Z_ += v
            st = rnp.asarray(out[s][1])
            cnt = {}
            for q in range(N_):
                key = tuple(int(v) for v in st[:, q])
                cnt[key] = cnt.get(key, 0) + 1
            k.check(f"sampled states of series {s} are possible", all(x in pr for x in cnt), [x for x in cnt if x not in pr][:3])
            for key, v in pr.items():
                f, v = cnt.get(key, 0) / N_, v / Z_
                k.check(f"frequency {f} of states {key} in series {s} with posterior probability {v}", abs(f - v) <= 6 * (max(v * (1 - v), 1e-9) / N_) ** 0.5 + 2 / N_, (f, v))

    return c


def durres(W, mo, states):
    """mean residual of the durations in each state, of the distribution in force when the state was entered"""
    nS, out, j, d, entered = W.nS, [[] for _ in range(W.nS)], states[0], 0, 0
    runs, t0 = [], 0
    for t in range(1, len(states) + 1):
        if t == len(states) or states[t] != states[t0]:
            runs.append((states[t0], t - t0, t0))
            t0 = t
    for q, (j, d, t) in enumerate(runs):
        col = j if q == 0 or W.swf else j + nS
        if col not in mo.dpar:
            out[j] = None
        else:
            mu, ph = mo.dpar[col]
            x = t if W.tv else 0
            f = W.fam.llkargs[2][col]
            out[j].append(float(rnp.asarray(f.get_resid(rnp.array([[float(d)]]), rnp.array([[mu[x]]]), rnp.array([[ph[x]]]))).ravel()[0]))
    return rnp.array([rnp.nan if o is None or not o else rnp.mean(o) for o in out])


def wholeres(kw):
    def c(k):
        W = Whole(k, **kw)
        k.note("model", {"config": kw, "coef": W.coef.ravel().tolist(), "Y": W.Y.tolist()})
        res = rnp.asarray(W.fam.get_resid(*W.args(), resid_type="predictive"))
        fw = rnp.asarray(W.fam.get_resid(*W.args(), resid_type="forward", transform_to_normal=False))
        fn_ = rnp.asarray(W.fam.get_resid(*W.args(), resid_type="forward"))
        from scipy.stats import norm as _norm

        ok = (fw > 1e-12) & (fw < 1 - 1e-12)
        k.close("normal forward residuals", fn_[ok], _norm.ppf(fw[ok]), rtol=1e-7)
        k.check("one residual per observation and signal", res.shape == (sum(W.lens), W.M), res.shape)
        vit = W.fam.decode_viterbi(*W.args())
        rv = rnp.asarray(W.fam.get_resid(*W.args(), resid_type="viterbi_dur"))
        N_ = 4
        seed = int(k.rng.integers(1, 1000))
        smp = W.fam.sample_posterior_states(*W.args(), n_samples=N_, seed=seed)
        rp = rnp.asarray(W.fam.get_resid(*W.args(), resid_type="posterior_dur", n_samples=N_, seed=seed))
        for s in range(len(W.lens)):
            mo = W.prob(s)
            st = [int(x) for x in rnp.asarray(vit[s][1]).ravel()]
            k.close(f"duration residuals of the decoded states of series {s}", rv[s], durres(W, mo, st), rtol=1e-7, atol=1e-9, equal_nan=True)
            for q in range(N_):
                st = [int(x) for x in rnp.asarray(smp[s][1])[:, q]]
                k.close(f"duration residuals of sample {q} of series {s}", rp[s, :, q], durres(W, mo, st), rtol=1e-7, atol=1e-9, equal_nan=True)
            a = int(W.sid[s])
            for m in range(W.M):
                cum = sq = 0.0
                for t in range(W.lens[s]):
                    num = cdf = 0.0
                    for p, f in mo.paths(upto=t + 1, constrained=t == mo.nT - 1):
                        j, d = p[-1]
                        first, entry = t == 0, t == 0 or p[-2][1] == 0
                        e = mo.E[t, mo.bi(j, d, entry, first), j, m] if W.hmp else mo.mu[t, m, j]
                        num += float(rnp.prod(f[:-1])) * e
                        if not W.multi:
                            sd = W.scale**0.5 if W.hmp else mo.sd[t, m, j]
                            cdf += float(rnp.prod(f[:-1])) * _norm.cdf((mo.Y[t, m] - e) / sd)
                    L_ = mo.total(upto=t, constrained=False) if t else 1.0
                    if not W.multi and W.famname == "Gaussian":
                        k.close(f"forward residual {t} of signal {m}, series {s}", fw[a + t, m], cdf / L_, rtol=1e-6, atol=1e-9)
                    u = mo.Y[t, m] - num / L_
                    cum, sq = cum + u, sq + u * u
                    if t == 0 or sq > 1e-12:
                        k.close(f"predictive residual {t} of signal {m}, series {s}", res[a + t, m], cum / sq**0.5 if t else cum, rtol=1e-6, atol=1e-8)

    return c


FN = ["hsmm._split_matrices", "hsmm._compute_series_probs", "hsmm._extract_rho"]
for nm, kw in dict(WHOLE, **{"more-bumps": BUMP5}).items():
    why = dict(symbolic=False, why_bounded="composition of the functions proved above; decided on sampled models by enumerating every state sequence")
    R.add("model-likelihood:" + nm, functions=FN + ["hsmm.HSMMFamily.llk"], nstand=12, cbound="sampled models, series of at most 8 samples", **why)(wholellk(kw))
    if nm != "more-bumps":
        R.add("model-gradient:" + nm, functions=FN + ["hsmm.HSMMFamily.gradient"], nstand=4, cbound="sampled models, central differences of the enumerated likelihood", **why)(wholegrad(kw))
        R.add("model-decode:" + nm, functions=FN + ["hsmm.HSMMFamily.decode_viterbi", "hsmm.HSMMFamily.compute_od_probs", "hsmm.HSMMFamily.compute_Tpi"], nstand=8, cbound="sampled models", **why)(wholedecode(kw))
for nm in ("two-states", "own-start-durations", "fixed-by-series", "time-varying", "shared", "bumps-lagged", "bumps-negative-lag", "multivariate"):
    why = dict(symbolic=False, why_bounded="composition of the functions proved above; decided on sampled models by enumerating every state sequence")
    R.add("model-sample:" + nm, functions=FN + ["hsmm.HSMMFamily.sample_posterior_states"], nstand=3, cbound="3000 draws, 6 standard errors", **why)(wholesample(WHOLE[nm]))
for nm in ("two-states", "own-start-durations", "fixed-by-series", "one-series", "time-varying", "time-varying-two", "two-signals", "bumps", "bumps-lagged", "bumps-negative-lag"):
    R.add("model-residuals:" + nm, functions=FN + ["hsmm.HSMMFamily.get_resid", "hsmm._compute_dur_res_series"], nstand=5, cbound="sampled models", **why)(wholeres(dict(WHOLE[nm], ewl=False)))


def runs(st):
    out, t0 = [], 0
    for t in range(1, len(st) + 1):
        if t == len(st) or st[t] != st[t0]:
            out.append((int(st[t0]), t - t0, t0))
            t0 = t
    return out


@R.add("predict:bump-duration", functions=["hsmm.HSMMFamily.predict"], symbolic=False, nstand=3, why_bounded="random draws", cbound="sampled models")
def predict_bumps(k):
    W = Whole(k, **dict(WHOLE["bumps"], lens=(9,)))
    pr = W.fam.predict(*W.args(), n_samples=40, seed=1)
    st = rnp.asarray(pr[0][1])
    for q in range(40):
        for j, d, t in runs(st[:, q])[:-1]:
            if j % 2 and d != W.ew:
                k.check(f"a predicted bump lasts {d - W.ew:+d} samples longer than its template", False, (j, d, t))
                return


def predictc(kw, N_=1500):
    """predicted states and emissions follow the model (up to the constant shift of the durations, decided by predict:bump-duration)"""

    def c(k):
        W = Whole(k, **kw)
        k.note("model", {"config": kw, "coef": W.coef.ravel().tolist()})
        seed = int(k.rng.integers(1, 10**6))
        pr = W.fam.predict(*W.args(), n_samples=N_, seed=seed)
        k.check("one prediction per series", len(pr) == len(W.lens), len(pr))
        lim = lambda v, n: 6 * (max(v * (1 - v), 1e-9) / n) ** 0.5 + 2 / n
        for s in range(len(W.lens)):
            mo = W.prob(s)
            em, st = rnp.asarray(pr[s][0]), rnp.asarray(pr[s][1]).astype(int)
            k.check(f"shapes of series {s}", em.shape == (W.lens[s], W.M, N_) and st.shape == (W.lens[s], N_), (em.shape, st.shape))
            for j in range(W.nS):
                v = float(mo.spi[j])
                f = float((st[0] == j).mean())
                k.check(f"initial state {j} of series {s}: frequency {f}, probability {v}", abs(f - v) <= lim(v, N_), (f, v))
            tr, du, fd = {}, {}, {}
            for q in range(N_):
                rs = runs(st[:, q])
                for a_, (j, d, t) in enumerate(rs):
                    if a_ + 1 < len(rs):
                        tr.setdefault((j, t + d - 1), []).append(rs[a_ + 1][0])
                    left = W.lens[s] - t
                    if left > W.D:  # long enough to see the whole run
                        (fd if a_ == 0 else du).setdefault((j, t), []).append(d)
            for (j, t), nx in tr.items():
                n_ = len(nx)
                for i in range(W.nS):
                    v = float(mo.sT[j, i, t] if W.tv else mo.sT[j, i])
                    f = sum(x == i for x in nx) / n_
                    k.check(f"transition {j}->{i} after time {t} of series {s}: frequency {f}, probability {v}", abs(f - v) <= lim(v, n_), (f, v))
            shift = min((d for x in list(du.values()) + list(fd.values()) for d in x), default=1) - 1
            k.check("durations start at one sample (shift of the recorded finding: 1)", shift in (0, 1), shift)
            for first, tab in ((True, fd), (False, du)):
                for (j, t), ds_ in tab.items():
                    col = j if first or W.swf else j + W.nS
                    n_ = len(ds_)
                    for d in range(1, W.D):
                        v = float(mo.sds[d - 1, col, t] if W.tv else mo.sds[d - 1, col])
                        f = sum(x == d + shift for x in ds_) / n_
                        k.check(f"duration {d} of state {j} entered at {t} in series {s}: frequency {f}, probability {v}", abs(f - v) <= lim(v, n_), (f, v))
            if not W.multi:
                for t in range(W.lens[s]):
                    for j in range(W.nS):
                        sel = st[t] == j
                        if sel.sum() < 50:
                            continue
                        for m in range(W.M):
                            z = (em[t, m, sel] - mo.mu[t, m, j]) / mo.sd[t, m, j]
                            n_ = int(sel.sum())
                            k.check(f"mean of the emissions of state {j} at {t}, signal {m}, series {s}", abs(z.mean()) <= 6 / n_**0.5, float(z.mean()))
                            k.check(f"spread of the emissions of state {j} at {t}, signal {m}, series {s}", abs((z**2).mean() - 1) <= 6 * (2 / n_) ** 0.5 + 0.02, float((z**2).mean()))

    return c


for nm, kw in {"two-states": dict(lens=(7, 5)), "three-states": dict(nS=3, lens=(6,), M=2), "own-start-durations": dict(swf=False, lens=(7,)), "time-varying": dict(nS=3, tv=True, swf=False, lens=(6,)),
               "fixed-by-series": dict(fixed="list", lens=(5, 6)), "shared": dict(shared=(1,), M=2, lens=(5,)), "multivariate": dict(multi=True, M=2, lens=(5,))}.items():
    R.add("predict:" + nm, functions=["hsmm.HSMMFamily.predict", "hsmm._sample_series_emissions"] + FN, symbolic=False, nstand=3, why_bounded="random draws", cbound="1500 draws, 6 standard errors")(predictc(kw))
