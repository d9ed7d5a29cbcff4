"""C09: spline bases: B-splines on evenly spaced knots, impulse-response convolution, tensor-product rows."""
from .common import *

R = Registry("C09")


def card(nk, deg, m, u):
    """values at s = m + u (in knot intervals from the lower limit, 0 < u < 1) of the nk B-splines of degree deg on knots -deg..nk (Cox-de Boor)"""
    s = m + u
    knots = list(range(-deg, nk + 1))
    N = [lift(1) if knots[j] == m else lift(0) for j in range(len(knots) - 1)]
    for d in range(1, deg + 1):
        N = [N[j] * (s - knots[j]) * const(Fraction(1, d)) + N[j + 1] * (knots[j + d + 1] - s) * const(Fraction(1, d)) for j in range(len(N) - 1)]
    return N


def basis(nk, deg, m, given):
    """all covariate values lie in the m-th knot interval"""

    def c(k):
        k.dim("n")
        sm = k.mod("smooths")
        lo = k.scalar("lo")
        w = k.scalar("w", "pos")  # width of one knot interval
        u = k.arr("u", ("n",), "unit")
        x = lo + (u + m) * w
        hi = lo + w * (nk - deg)
        kw = {}
        if given:
            kw = dict(min_c=lo, max_c=hi)
            if k.mode == "sym":
                sm.min = sm.max = lambda a: k.scalar("observed")  # extremes of the data: must not matter
        else:
            # limits taken from the data
            if k.mode == "sym":
                sm.min, sm.max = (lambda a: lo), (lambda a: hi)
            else:
                x = rnp.concatenate([x, [lo, hi]])
        B = sm.B_spline_basis(x, None, nk, deg=deg, **kw)
        if k.mode == "conc" and not given:
            B = B[:-2]
        U = k.S("u")
        spec = np.concatenate([v.reshape(-1, 1) if v.ndim else (U * 0 + v).reshape(-1, 1) for v in card(nk, deg, lift(m), U)], axis=1)
        k.ensure_eq("B-spline values", B, spec, atol=1e-7)
        k.ensure_eq("partition of unity", np.sum(B, axis=1) if k.mode == "sym" else B.sum(axis=1), U * 0 + 1, atol=1e-7)

    return c


for nk, deg in ((4, 1), (5, 2), (5, 3), (7, 3), (10, 3), (8, 4)):
    for m in range(nk - deg):
        R.add(f"B-spline:nk={nk},deg={deg},interval={m}", functions=["smooths.B_spline_basis", "smooths.bbase", "smooths.tpower"], nsamp=6)(basis(nk, deg, m, True))
R.add("B-spline:limits-from-data", functions=["smooths.B_spline_basis"], nsamp=6)(basis(5, 3, 1, False))


@R.add("B-spline:sampled", symbolic=False, nstand=80, functions=["smooths.B_spline_basis", "smooths.bbase"], why_bounded="number of basis functions and degree are sampled", cbound="2..15 basis functions, degree 1..4, up to 30 covariate values incl. knots and limits")
def sampled(k):
    from scipy.interpolate import BSpline

    sm = k.mod("smooths")
    deg = int(k.rng.integers(1, 5))
    nk = deg + int(k.rng.integers(1, 11))
    lo = float(k.rng.normal())
    hi = lo + float(rnp.exp(k.rng.normal()))
    x = lo + (hi - lo) * k.rng.random(int(k.rng.integers(1, 30)))
    j = k.rng.integers(0, nk - deg + 1, size=3)
    x = rnp.concatenate([x, lo + j * (hi - lo) / (nk - deg)])[k.rng.permutation(len(x) + 3)]
    x = rnp.clip(x, lo, hi)
    given = k.rng.random() < 0.5
    if not given:
        x = rnp.concatenate([[hi], x, [lo]])
    for a, v in (("x", x), ("nk", nk), ("deg", deg), ("lo", lo), ("hi", hi), ("given", given)):
        k.note(a, v)
    B = sm.B_spline_basis(x, None, nk, min_c=lo if given else None, max_c=hi if given else None, deg=deg)
    dx = (hi - lo) / (nk - deg)
    t = lo + dx * rnp.arange(-deg, nk + 1)
    D = rnp.column_stack([rnp.nan_to_num(BSpline.basis_element(t[q : q + deg + 2], extrapolate=False)(x)) for q in range(nk)])
    ok = rnp.ones(len(x), bool)
    if deg == 1:  # value at the knots themselves is the limit from either side
        pass
    k.check("shape", B.shape == (len(x), nk), B.shape)
    k.close("B-spline values", B[ok], D[ok], atol=1e-6)
    k.close("partition of unity", B.sum(axis=1), rnp.ones(len(x)), atol=1e-6)
    k.check("non-negative", (B > -1e-8).all(), B.min())
    k.check("at most degree+1 basis functions are active", ((B > 1e-9).sum(axis=1) <= deg + 1).all(), B)
    # the basis of one value does not depend on the other values when limits are given
    if given:
        i = int(k.rng.integers(0, len(x)))
        k.close("row-wise", sm.B_spline_basis(x[i : i + 1], None, nk, min_c=lo, max_c=hi, deg=deg)[0], B[i], atol=1e-9)


@R.add("impulse-response-basis", symbolic=False, nstand=60, functions=["smooths.B_spline_basis", "smooths.convolve_event"], why_bounded="convolution by fast Fourier transform", cbound="up to 60 samples, any onset inside the series, 4..10 basis functions")
def irf(k):
    from scipy.interpolate import BSpline

    sm = k.mod("smooths")
    deg = int(k.rng.integers(1, 4))
    nk = deg + int(k.rng.integers(1, 8))
    N_ = int(k.rng.integers(5, 60))
    on = int(k.rng.integers(0, N_))
    x = rnp.arange(N_) * float(rnp.exp(0.5 * k.rng.normal()))
    lo, hi = 0.0, float(x[-1] * (0.3 + 0.7 * k.rng.random()))
    for a, v in (("x", x), ("nk", nk), ("deg", deg), ("max_c", hi), ("onset", on)):
        k.note(a, v)
    B = sm.B_spline_basis(x, on, nk, min_c=lo, max_c=hi, convolve=True, deg=deg)
    t = rnp.linspace(lo, hi, nk + deg + 1)
    D = rnp.column_stack([rnp.nan_to_num(BSpline.basis_element(t[q : q + deg + 2], extrapolate=False)(x)) for q in range(nk)])
    W = rnp.zeros_like(D)
    W[on:] = D[: N_ - on]
    k.close("basis delayed by the onset, zero before it", B, W, atol=1e-6)
    f = k.rng.normal(size=N_)
    k.close("convolution with an event is a delay", sm.convolve_event(f, on)[: N_], rnp.concatenate([rnp.zeros(on), f])[:N_], atol=1e-7)


@R.add("tensor-product-rows", functions=["smooths.TP_basis_calc"])
def tp(k):
    k.dim("n")
    sm = k.mod("smooths")
    A = k.arr("A", ("n", 2))
    B = k.arr("B", ("n", 3))
    spec = np.concatenate([(k.S("A")[:, i] * k.S("B")[:, j]).reshape(-1, 1) for i in range(2) for j in range(3)], axis=1)
    k.ensure_eq("row-wise Kronecker product", sm.TP_basis_calc(A, B), spec)
