"""C14: resampling and scaling of uncertainties."""

import numpy as np

from lib import extractions, gen

TECHNIQUE = "numerical oracles (direct sinc sums and analytic band-limited signals) on real resampling calls, and spacing monitors on real extractions"
NOTE = "Seeded exploration of grids, ranges, spacings, cut-offs, flags and extractions with too many parameters."
RULE = """Cases draw data, range, qmax, flags and a spacing. Non-trivial: the new grid has more than one point; distinguished by
the new values."""
REQUIRED = {"resampled": 200, "signals": 100, "scaled": 30, "not scaled": 100, "spacing at Nyquist": 5, "spacing finer than Nyquist": 3, "oversampled": 5, "raw": 3, "just fine enough": 3}
CHUNK = {"extraction": 1, "shrinking": 1}


def make(rng, n=None):
    e = gen.cls("PDFPeakExtraction")()
    n = int(rng.integers(5, 200)) if n is None else n
    dr = float(10 ** rng.uniform(-2.2, -0.7))
    x = float(rng.uniform(0.0, 5.0)) + dr * np.arange(n)
    y = rng.normal(size=n)
    dx = None if rng.random() < 0.5 else np.abs(rng.normal(size=n))
    dy = None if rng.random() < 0.5 else rng.uniform(0.1, 2, n)
    e.setdata(x, y, dx, dy)
    kw = {}
    if rng.random() < 0.8:
        kw["qmax"] = float([0.0, rng.uniform(0.2, 3.0) * np.pi / dr][int(rng.random() < 0.8)])
    else:
        kw["qmax"] = float(rng.uniform(1, 40))
    if rng.random() < 0.7:
        kw["nyquist"] = bool(rng.random() < 0.7)
    if rng.random() < 0.7:
        kw["scale"] = bool(rng.random() < 0.7)
    if rng.random() < 0.7:
        w = x[-1] - x[0]
        a, b = sorted(rng.uniform(x[0] - 0.2 * w, x[-1] + 0.2 * w, 2))
        a, b = min(a, x[0] + 0.5 * w), max(b, x[0] + 0.6 * w)
        kw["rng"] = [[a, b], [None, b], [a, None], [x[n // 5], x[-1 - n // 5]]][rng.integers(4)]
    if rng.random() < 0.5:
        kw["supersample"] = float([1.0, rng.uniform(1, 6)][rng.integers(2)])
    if rng.random() < 0.5:
        kw["effective_dy"] = rng.uniform(0.1, 2, n) if rng.random() < 0.5 else float(rng.uniform(0.1, 2))
    e.setvars(quiet=True, **kw)
    return e, kw, dr


def factor(e, dr):
    if e.qmax > 0 and e.nyquist and e.scale:
        return max(1.0, np.sqrt(np.pi / e.qmax / dr))
    return 1.0


def resampling(case):
    rng = case.rng
    e, kw, dr0 = make(rng)
    x, y = e.x, e.y
    lo = max(x[0], x[0] if not kw.get("rng") or kw["rng"][0] is None else kw["rng"][0])
    hi = min(x[-1], x[-1] if not kw.get("rng") or kw["rng"][1] is None else kw["rng"][1])
    dr = float([dr0 * rng.uniform(0.15, 3), np.pi / e.qmax if e.qmax > 0 else dr0, dr0][rng.integers(3)])
    dr = min(max(dr, (hi - lo) / 600), (hi - lo) * 0.9)
    keep = [(k, getattr(e, k).copy()) for k in ("x", "y", "dx", "dy", "effective_dy")]
    f = e.errorscale(dr)
    case.close(f, factor(e, dr), "errorscale", rtol=1e-12)
    case.count("scaled" if f > 1 else "not scaled")
    r, v, rerr, verr = e.resampledata(dr)
    n = int(np.floor((hi - lo) / dr - 1e-7)) + 1
    case.check(len(r) in (n, n + 1) and (len(r) == n or abs(lo + n * dr - hi) < 1e-6 * dr), "grid-size", "%d points from %s by %s to %s" % (len(r), lo, dr, hi))
    case.close(r, lo + dr * np.arange(len(r)), "grid", rtol=1e-12, atol=1e-12)
    mean = (x[-1] - x[0]) / (len(x) - 1)
    ref = np.sinc((r[:, None] - x[None, :]) / mean) @ y
    case.close(v, ref, "sinc", rtol=1e-7, atol=1e-7 * np.max(np.abs(y)))
    case.close(verr, f * np.interp(r, x, e.effective_dy), "errors", rtol=1e-12)
    if rerr is not None:
        case.close(rerr, np.interp(r, x, e.dx), "position-errors", rtol=1e-12)
    case.check(all(np.array_equal(getattr(e, k), a) for k, a in keep), "untouched")
    case.count("resampled")
    if len(r) > 1:
        case.sig(v.tolist())
    case.note(n=len(x), new=len(r), factor=f, qmax=e.qmax, dr=dr)
    # exactly the points of the data where the grids meet
    if dr == dr0 and lo == x[0]:
        case.close(v, y[: len(v)], "identity", rtol=1e-6, atol=1e-6 * np.max(np.abs(y)))
        case.count("identity")


def signals(case):
    """A signal without frequencies above the sampling limit is reproduced."""
    from diffpy.srmise.pdfpeakextraction import resample

    rng = case.rng
    dr = float(10 ** rng.uniform(-2, -0.5))
    qlim = np.pi / dr
    n = int(rng.integers(150, 300))
    x0 = float(rng.uniform(0, 3))
    x = x0 + dr * np.arange(n)
    peaks = []
    for _ in range(rng.integers(1, 4)):
        sigma = rng.uniform(6.5, 12.0) / qlim
        peaks.append((x0 + dr * rng.uniform(0.4, 0.6) * n, sigma, rng.normal(), rng.uniform(0, max(0.0, qlim - 6.5 / sigma)), rng.uniform(0, 6.3)))

    def f(r):
        return sum(a * np.exp(-((r - p) ** 2) / (2 * s * s)) * np.cos(q * (r - p) + ph) for p, s, a, q, ph in peaks)

    new = np.sort(rng.uniform(x[0], x[-1], 80))
    if rng.random() < 0.5:
        new = np.linspace(x[int(rng.integers(0, 50))], x[-1 - int(rng.integers(0, 50))], int(rng.integers(20, 400)))
    keep = (x.copy(), f(x))
    y = f(x)
    v = resample(x, y, new)
    case.close(v, f(new), "band-limited", rtol=0, atol=1e-7 * sum(abs(p[2]) for p in peaks))
    case.check(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "untouched")
    # linear, and the grid points themselves are kept
    a, b = rng.normal(size=n), rng.normal(size=n)
    case.close(resample(x, 2 * a - b, new), 2 * resample(x, a, new) - resample(x, b, new), "linear", rtol=1e-7, atol=1e-7)
    case.close(resample(x, a, x), a, "interpolates", rtol=1e-6, atol=1e-6)
    case.count("signals")
    case.sig(v.tolist())


def extraction(case):
    """The spacing on which extractions work."""
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", qmax=float(rng.uniform(12, 25)), noise=0.01, initial=0, npeaks=int(rng.integers(1, 3)), rngp=0.4)
    s.vars["nyquist"] = bool(rng.random() < 0.7)
    s.vars["scale"] = bool(rng.random() < 0.6)
    s.vars["supersample"] = float(rng.uniform(1.0, 6))
    if rng.random() < 0.5:  # many peaks that may not be removed
        for _ in range(rng.integers(3, 9)):
            s.initial.append((0, [float(rng.uniform(s.x[0], s.x[-1])), s.pf[0][1] * 0.5, s.true[0][2] * 0.1], [True] * 3, False, False))
        s.initial.sort(key=lambda t: t[1][0])
        s.vars["nyquist"] = True
    working(case, s, 6)


def shrinking(case):
    """Superfluous peaks of oversampled noise, which go when the data are resampled."""
    rng = case.rng
    noise = float(10 ** rng.uniform(-2.2, -1.2))
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", qmax=float(rng.uniform(12, 20)), noise=noise, initial=0, npeaks=int(rng.integers(1, 3)), rngp=0.2, bl=["none", "line"][rng.integers(2)], twopf=0)
    s.dy = None
    s.vars.update(nyquist=True, scale=False, supersample=float(rng.uniform(4, 8)), effective_dy=s.noise * float(rng.uniform(0.2, 0.8)), cres=0.1)
    working(case, s, 3.5)


def working(case, s, margin):
    # at least so many points
    e = s.build()
    spacings = []
    before = gen.cls("PeakExtraction").extract_single

    def watch(self, *a, **k):
        spacings.append((self.x.copy(), self.effective_dy.copy()))
        return before(self, *a, **k)

    fits = {}
    MC = gen.cls("ModelCluster")
    fit = MC.fit

    def watchfit(self, *a, **k):
        n = len(self.model)
        out = fit(self, *a, **k)
        fits[id(self)] = n - len(self.model)
        return out

    PE = gen.cls("PeakExtraction")
    PE.extract_single = watch
    MC.fit = watchfit
    try:
        e.extract()
    finally:
        PE.extract_single = before
        MC.fit = fit
    if not spacings:  # the first stage is done in another way
        return
    first, firsterr = spacings[0]
    lo, hi = s.limits()
    lo, hi = max(lo, s.x[0]), min(hi, s.x[-1])
    dn = np.pi / s.qmax
    draw = (s.x[-1] - s.x[0]) / (len(s.x) - 1)
    step = (first[-1] - first[0]) / (len(first) - 1)
    err = s.errors()
    idx = s.inrange()
    if dn / draw < s.vars["supersample"]:
        case.close(step, dn / s.vars["supersample"], "oversampling", rtol=1e-9)
        case.count("oversampled")
        f = factor(e, step)
        case.close(firsterr, f * np.interp(first, s.x, err), "first-errors", rtol=1e-9)
    else:
        case.check(np.array_equal(first, s.x[idx]), "raw", "%s points, expected %s" % (len(first), np.sum(idx)))
        case.count("raw")
        case.close(firsterr, factor(e, draw) * err[idx], "first-errors", rtol=1e-9)
    case.check(step <= dn / s.vars["supersample"] * (1 + 1e-9), "fine-enough", "%s" % step)
    mc = e.extracted
    r = mc.r_cluster
    step = (r[-1] - r[0]) / (len(r) - 1)
    nfree = sum(int(np.sum(p.free)) for p in mc.model) + int(np.sum(mc.baseline.free))
    if s.vars["nyquist"]:
        if abs(step / dn - 1) < 1e-9:
            case.count("spacing at Nyquist")
            step = dn
        else:
            case.check(step < dn, "not-coarser", "%s > %s" % (step, dn))
            # the last fit may have dropped peaks
            case.check((nfree + 6) * dn >= (first[-1] - first[0]) * (1 - 1e-9) and (nfree + margin) * step >= (first[-1] - first[0]) * (1 - 1e-3), "finer-only-if-needed", "%d free parameters on %s with spacing %s, at Nyquist %s" % (nfree, first[-1] - first[0], step, dn))
            case.check(step * nfree <= (first[-1] - first[0]) * (1 + 1e-9), "fine-for-model", "%s for %d" % (step, nfree))
            if fits.get(id(mc), 1) == 0:  # the last fit dropped no peak
                case.check(abs(step * nfree / (first[-1] - first[0]) - 1) < 5e-3, "just-fine-enough", "%s for %d on %s" % (step, nfree, first[-1] - first[0]))
                case.count("just fine enough")
            case.count("spacing finer than Nyquist")
        case.close(mc.error_cluster, factor(e, step) * np.interp(r, s.x, err), "last-errors", rtol=1e-9)
        ref = np.sinc((r[:, None] - s.x[None, :]) / draw) @ s.y
        case.close(mc.y_cluster, ref, "last-values", rtol=1e-6, atol=1e-6 * s.height)
    else:
        case.check(np.array_equal(r, first), "same-grid")
    case.check(len(r) > 0 and nfree <= len(r) + 1, "enough-points", "%d points for %d parameters" % (len(r), nfree))
    case.sig(r.tolist(), nfree)
    case.note(step=step, nyquist=dn, raw=draw, free=nfree)


GROUPS = {
    "resampling": (1600, 10000, resampling),
    "signals": (800, 4000, signals),
    "extraction": (96, 1000, extraction),
    "shrinking": (72, 600, shrinking),
}
