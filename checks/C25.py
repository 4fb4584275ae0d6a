"""C25: estimates from data."""

import warnings

import numpy as np

from lib import clusters, gen

TECHNIQUE = "oracle of known truth (data made of known peaks, baselines and termination) and metamorphic relations on real estimates, with by-value snapshots"
NOTE = "Seeded exploration of peaks, windows, noise, negative points, baselines, extractions with known peaks, and terminated signals."
RULE = """Cases draw data with known content and compare the estimates made from it with that content. Non-trivial: an estimate was made
or refused; distinguished by the estimate."""
REQUIRED = {"estimated": 400, "wide": 30, "flat": 20, "negative points": 150, "refused": 60, "clean": 150, "lines": 100, "constants": 20, "not implemented": 20, "in extractions": 30, "found": 60, "found overlapping": 15,
            "added": 30, "explained": 20, "outside": 40, "qmax": 60, "ratios": 60}


def errors():
    from diffpy.srmise import srmiseerrors

    return srmiseerrors


def estimate(f, r, y):
    with np.errstate(all="ignore"):
        return f.estimate_parameters(r, y)


def function(rng):
    f, kind, mw = gen.peakfunc(rng, maxwidth=float(rng.uniform(0.3, 3.0)))
    if rng.random() < 0.2:
        return gen.cls("TerminationRipples")(f, float(rng.uniform(10, 40))), kind, mw
    return f, kind, mw


def valid(case, f, mw, r, y, e, key):
    use = r[y > 0]
    case.check(np.shape(e) == (3,) and np.all(np.isfinite(e)), key + "-finite", "%s" % (e,))
    case.check(use[0] * (1 - 1e-12) <= e[0] <= use[-1] * (1 + 1e-12), key + "-inside", "%s in %s to %s" % (e[0], use[0], use[-1]))
    case.check(e[2] > 0, key + "-area", "%s" % (e,))
    case.check(-np.pi / 2 <= e[1] <= np.pi / 2, key + "-width", "%s" % (e,))
    p = f.actualize(e, "internal")
    w = p.owner().transform_parameters(p.pars, "internal", "pwa")
    case.check(0 < w[1] <= mw * (1 + 1e-9) and w[2] > 0, key + "-pwa", "%s" % (w,))
    with np.errstate(all="ignore"):
        v = p.value(r)
    case.check(np.all(np.isfinite(v)), key + "-value")
    return w


def anydata(case):
    """Whatever the data: a valid peak, or the package's error."""
    rng = case.rng
    f, kind, mw = function(rng)
    n = int(rng.integers(1, 40))
    r = gen.grid(rng, nmin=n, nmax=n, lo=0.5)
    k = rng.integers(6)
    y = [rng.normal(size=n), np.abs(rng.normal(size=n)), np.full(n, float(rng.uniform(0.1, 5))), np.exp(-((np.arange(n) - rng.uniform(-3, n + 3)) ** 2) / rng.uniform(1, 50)), rng.normal(size=n) - 1.2,
         rng.integers(-2, 4, n).astype(float)][k]
    y = np.where(np.abs(y) < 1e-100, 0.0, y) * 10 ** rng.uniform(-6, 6)
    pos = y > 0
    given = clusters.frozen(r, y)
    if rng.random() < 0.05:
        case.raises(errors().SrMiseEstimationError, lambda: estimate(f, r, y[:-1] if n > 1 else np.append(y, 1.0)), "lengths")
    if pos.sum() < 3:
        case.raises(errors().SrMiseEstimationError, lambda: estimate(f, r, y), "too-few", "%s positive points" % pos.sum())
        case.count("refused")
        case.sig("refused", r.tolist())
        return
    e = np.array(estimate(f, r, y))
    clusters.untouched(case, given, "data-untouched")
    w = valid(case, f, mw, r, y, e, "any")
    case.count("estimated")
    case.sig(e.tolist())
    if abs(w[1] - mw) < 1e-9:
        case.count("wide")
    if len(set(y[pos])) == 1:
        case.count("flat")
        case.close(e[0], 0.5 * (r[pos][0] + r[pos][-1]), "flat-centre", rtol=1e-12)
    # negative points say nothing
    case.check(np.array_equal(e, estimate(f, r[pos], y[pos])), "only-positive")
    if not np.all(pos):
        y2 = np.where(pos, y, -np.abs(rng.normal(size=n)) * rng.uniform(0, 10) * np.max(y))
        case.check(np.array_equal(e, estimate(f, r, y2)), "whatever-negative")
        case.count("negative points")
    # heights only scale the area
    c = float(2.0 ** rng.integers(-8, 9))
    s = estimate(f, r, y * c)
    case.close([s[0], s[1], s[2] / c], e, "scaled", rtol=1e-9)
    # the highest value is that of the peak
    if kind == "Gaussian" and not hasattr(f, "base") or kind == "Gaussian":
        base = getattr(f, "base", None) or f
        h = base.actualize(e, "internal").value(np.array([e[0]]))[0]
        case.close(h, np.max(y), "height", rtol=1e-6)


def clean(case):
    """A cleanly sampled peak."""
    rng = case.rng
    f, kind, mw = function(rng)
    fwhm = mw * float(rng.uniform(0.1, 0.6))
    pos = float(rng.uniform(3 + 3 * fwhm, 20))
    area = float(10 ** rng.uniform(-3, 3))
    lo, hi = rng.uniform(0.7, 1.6, 2)
    n = int(rng.integers(12, 80))
    r = np.linspace(pos - lo * fwhm, pos + hi * fwhm, n)
    y = gen.ref_peak(kind, pos, fwhm, area, r)
    if rng.random() < 0.3:  # a window with negative points around it
        step = r[1] - r[0]
        k = int(rng.integers(1, 10))
        r = np.concatenate([r[0] - step * np.arange(k, 0, -1), r, r[-1] + step * np.arange(1, k + 1)])
        y = np.concatenate([-np.abs(rng.normal(size=k)), y, -np.abs(rng.normal(size=k))])
    e = estimate(f, r, y)
    w = valid(case, f, mw, r, y, e, "clean")
    case.check(abs(w[0] - pos) < 0.06 * fwhm, "clean-position", "%s instead of %s, width %s, window %s, %s" % (w[0], pos, fwhm, lo, hi))
    case.check(0.95 < w[1] / fwhm < 1.05, "clean-width", "%s instead of %s, window %s, %s" % (w[1], fwhm, lo, hi))
    case.check(0.93 < w[2] / area < 1.05, "clean-area", "%s instead of %s, window %s, %s" % (w[2], area, lo, hi))
    case.count("clean")
    case.sig(w)


def lines(case):
    """Baselines from data."""
    rng = case.rng
    n = int(rng.integers(1, 150))
    r = gen.grid(rng, nmin=n, nmax=n)
    y = rng.normal(size=n) * 10 ** rng.uniform(-3, 3) + r * rng.normal()
    P = gen.cls("Polynomial")
    d = int(rng.integers(-2, 5))
    given = clusters.frozen(r, y)
    k = rng.random()
    if k < 0.1:
        x, v = r, y
        f = gen.cls("FromSequence")(np.linspace(0, 50, 9), rng.normal(size=9))
        case.check(len(f.estimate_parameters(r, y)) == 0, "sequence")
    elif k < 0.25:
        f = gen.cls("Arbitrary")(2, gen.arb_value, gen.arb_jacobian)
        case.raises(NotImplementedError, lambda: f.estimate_parameters(r, y), "no-routine")
        f = gen.cls("Arbitrary")(2, gen.arb_value, gen.arb_jacobian, lambda r, y: [np.max(y), 1.5])
        case.check(list(f.estimate_parameters(r, y)) == [np.max(y), 1.5], "routine")
        f = gen.cls("Arbitrary")(2, gen.arb_value, gen.arb_jacobian, lambda r, y: 1 / int(0 * len(y)))
        case.raises(errors().SrMiseEstimationError, lambda: f.estimate_parameters(r, y), "routine-fails")
        case.count("not implemented")
    elif k < 0.3:
        case.raises((NotImplementedError, AttributeError), lambda: gen.cls("NanoSpherical")().estimate_parameters(r, y), "spherical")
    elif d > 1:
        case.raises(NotImplementedError, lambda: P(d).estimate_parameters(r, y), "high-degree", d)
        case.count("not implemented")
    else:
        got = P(d).estimate_parameters(r, y)
        case.check(len(got) == max(d, -1) + 1, "parameters", "%s for %s" % (got, d))
        if d == 0:
            case.check(got[0] == 0, "constant", got)
            case.count("constants")
        if d == 1:
            low = np.argsort(y)[: max(n // 10, 1)]
            slope = np.sum(r[low] * y[low]) / np.sum(r[low] ** 2)
            case.close(got, [slope, 0.0], "line", rtol=1e-9)
            case.count("lines")
            case.sig(got.tolist())
        case.raises(ValueError, lambda: P(d).estimate_parameters(r, y[:-1]), "lengths")
    clusters.untouched(case, given, "data-untouched")


def extraction(case):
    """A baseline without parameters is estimated from the data in the range."""
    rng = case.rng
    n = int(rng.integers(20, 150))
    x = gen.grid(rng, nmin=n, nmax=n)
    y = rng.normal(size=n) + x * rng.normal()
    e = gen.cls(["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)])()
    e.setdata(x, y, np.zeros(n), np.ones(n))
    i, j = sorted(int(v) for v in rng.choice(n, 2, replace=False))
    d = int(rng.integers(-1, 4))
    kw = {"baseline": gen.cls("Polynomial")(d)}
    whole = rng.random() < 0.3
    if whole:
        i, j = 0, n - 1
    else:
        kw["rng"] = [float(x[i]), float(x[j])]
    e.setvars(quiet=True, **kw)
    e.defaultvars()
    m = slice(i, j + 1)
    want = []
    if d == 0:
        want = [0.0]
    if d == 1:
        low = np.argsort(y[m])[: max(len(x[m]) // 10, 1)]
        want = [np.sum(x[m][low] * y[m][low]) / np.sum(x[m][low] ** 2), 0.0]
    case.close(e.baseline.pars, want, "extraction-baseline", rtol=1e-9)
    case.check(e.baseline.owner().degree == (d if d <= 1 else -1), "extraction-degree", "%s for %s" % (e.baseline.owner().degree, d))
    case.count("in extractions")
    case.sig(d, i, j, list(want))


def atposition(case):
    """A peak where one is missing."""
    off = []
    for _ in range(3):
        missing(case, off)
    # Fits may end in a minimum which is not the best one, rarely.
    case.check(len(off) < 2, "found-peak", "; ".join(off))


def missing(case, off):
    rng = case.rng
    s = None
    while s is None or np.ptp(np.diff(s.x)) > 1e-9:
        s = clusters.scene(rng, npeaks=int(rng.integers(1, 4)), n=int(rng.integers(80, 200)), noise=1e-4, ripples=0.15, baseline=["none", "poly", "nano"][rng.integers(3)], sep=(0.6, 2.5))
    n = len(s.x)
    k = int(rng.integers(len(s.true)))
    known = [i for i in range(len(s.true)) if i != k]
    step = (s.x[-1] - s.x[0]) / (n - 1)
    t = s.true[k]
    P = gen.cls("Peaks")
    nothing = rng.random() < 0.25
    if nothing:
        known = list(range(len(s.true)))
    initial = P([s.pf.actualize(s.true[i], "pwa", gen.mask(rng, 3, 0.2), bool(rng.random() < 0.7)) for i in known])
    e = gen.cls(["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)])()
    dy = np.full(n, 1e-2 * s.height)
    e.setdata(s.x, s.y, np.zeros(n), dy)
    kw = {"pf": [s.pf], "baseline": s.bl, "cres": float(step * rng.uniform(3, 8)), "effective_dy": dy, "error_method": s.method}
    lo, hi = s.x[0], s.x[-1]
    i0, i1 = 0, n
    extracted = rng.random() < 0.5
    if rng.random() < 0.3 and not (s.qmax and (nothing or not extracted)):  # ripples of peaks given beforehand are those on the range alone
        i0 = int(np.searchsorted(s.x, max(s.x[0], t[0] - 1.2 * t[1])))
        i1 = int(np.searchsorted(s.x, min(s.x[-1], t[0] + 1.2 * t[1])))
        kw["rng"] = [float(s.x[i0]), float(s.x[i1 - 1])]
        lo, hi = s.x[i0], s.x[i1 - 1]
        if rng.random() < 0.5:  # nothing outside of the range matters
            dy[:i0] = dy[i1:] = 1e4 * s.height
    e.setvars(quiet=True, **kw)
    if extracted:
        e.extracted = gen.cls("ModelCluster")(initial, s.bl.copy(), s.x, s.y, e.effective_dy, slice(i0, i1), s.method, [s.pf])
        if rng.random() < 0.3:
            e.initial_peaks = P([s.pf.actualize(t, "pwa")])  # superseded by what was extracted
    else:
        e.initial_peaks = initial
    e.defaultvars()
    snap = clusters.frozen(e.x, e.y, e.effective_dy, s.x, s.y)

    def state():
        return ([gen.snapmodel(e.initial_peaks), None if e.extracted is None else gen.snapmodel(e.extracted.model), e.baseline.pars.tolist(), list(e.rng)])

    before = state()
    for x in (lo - 10 ** rng.uniform(-6, 1), hi + 10 ** rng.uniform(-6, 1)):
        case.raises(ValueError, lambda: e.estimate_peak(x), "outside", x)
        case.check(state() == before, "outside-unchanged")
        case.count("outside")
    add = bool(rng.random() < 0.5)
    x = float(t[0] + t[1] * rng.uniform(-0.3, 0.3))
    x = min(max(x, lo), hi)
    edge = rng.random() < 0.1
    if edge:
        x = float([lo, hi][rng.integers(2)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = e.estimate_peak(x, add=add) if rng.random() < 0.5 or not add else e.estimate_peak(x)
    clusters.untouched(case, snap, "data-untouched")
    after = state()
    case.note(known=[s.true[i] for i in known], true=t, at=x, got=None if got is None else got.pars.tolist(), extracted=extracted, add=add)
    if nothing:
        case.check(got is None and after == before, "explained", "found %s" % got)
        case.count("explained")
        case.sig("explained", s.x.tolist())
        return
    if got is None:
        case.check(after == before, "none-unchanged")
        case.check(edge, "found", "nothing at %s, where %s is missing" % (x, t))
        return
    which = 1 if extracted else 0
    if add:
        case.check(len(after[which]) == len(before[which]) + 1, "added", "%s after %s" % (after, before))
        rest = list(after[which])
        now = gen.snapshot(got)
        case.check(now in rest, "added-peak")
        rest.remove(now)
        case.check(rest == before[which] or sorted(map(repr, rest)) == sorted(map(repr, before[which])), "added-others", "%s after %s" % (rest, before[which]))
        case.check(clusters.sorted_by_position(e.extracted.model if extracted else e.initial_peaks), "added-sorted")
        after[which] = before[which]
        case.check(after == before, "added-elsewhere")
        case.count("added")
    else:
        case.check(after == before, "not-added", "%s after %s" % (after, before))
    if not edge:
        w = got.owner().transform_parameters(got.pars, "internal", "pwa")
        case.check(got.owner() is s.pf, "found-function")
        case.count("monitor:found-peak")
        if not (abs(w[0] - t[0]) < 0.2 * t[1] and 0.6 < w[1] / t[1] < 1.6 and 0.6 < w[2] / t[2] < 1.6):
            off.append("%s instead of %s" % (w, t))
        case.count("found")
        if any(abs(s.true[i][0] - t[0]) < 0.5 * (s.true[i][1] + t[1]) for i in known):
            case.count("found overlapping")
        case.sig(gen.snapshot(got)[1:])


def ending(rng):
    """A signal with everything up to its qmax in reciprocal space, and nothing beyond."""
    n = int(rng.integers(60, 400))
    dr = float(10 ** rng.uniform(-2, 0))
    r = dr * (np.arange(n) + int(rng.integers(2)))
    length = (r[-1] - r[0]) * 2 * n / (2 * n - 1)
    m = int(n / 2 / rng.uniform(1.1, 2))
    k = np.arange(1, m + 1)
    a = rng.normal(size=m) * np.exp(-0.5 * rng.uniform(0, 1.5) * (k / m) ** 2)
    c = 0.4 * np.sqrt(np.mean(a**2))
    a[-6:] = np.where(np.abs(a[-6:]) < c, np.where(a[-6:] < 0, -c, c), a[-6:])
    y = np.sin(2 * np.pi * np.outer(r - r[0], k) / length) @ a
    y += 10 ** rng.uniform(-5, -3) * np.std(y) * rng.normal(size=n)
    return r, y, 2 * np.pi * m / length


def qmaxes(case):
    """Where the signal ends in reciprocal space."""
    from diffpy.srmise.pdfpeakextraction import find_qmax

    rng = case.rng
    off = []
    for i in range(9):
        r, y, qmax = ending(rng)
        given = clusters.frozen(r, y)
        got, step = find_qmax(r, y)
        clusters.untouched(case, given, "data-untouched")
        case.close(step, 2 * np.pi / (r[-1] - r[0]), "resolution", rtol=1e-9)
        off.append((got - qmax) / step)
        case.count("qmax")
    # A statistical method, which is mistaken now and then.
    case.check(sum(abs(v) < 3 for v in off) >= 7, "qmax", "off by %s times the resolution" % off)
    case.check(abs(np.median(off)) < 0.75, "qmax-on-average", "off by %s times the resolution" % off)
    case.note(off=off)
    case.sig(got, len(r))
    c = float(2.0 ** rng.integers(-10, 11)) * (-1) ** int(rng.integers(2))
    case.close(find_qmax(r, y * c)[0], got, "any-scale", rtol=1e-9)
    u = float(2.0 ** rng.integers(-4, 5))
    case.close(u * find_qmax(r * u, y)[0], got, "any-unit", rtol=1e-6)
    case.raises(ValueError, lambda: find_qmax(r, y[:-1]), "lengths")
    e = gen.cls("PDFPeakExtraction")()
    e.setdata(r, y)
    case.check(e.qmax_fromdata == got, "from-data")
    e.defaultvars()
    case.check(e.qmax == got, "by-default")


def ratios(case):
    """Running ratio of standard deviations."""
    from diffpy.srmise.pdfpeakextraction import stdratio

    rng = case.rng
    n = int(rng.integers(8, 200))
    d = rng.normal(size=n) * 10 ** rng.uniform(-3, 3) + rng.normal()
    if rng.random() < 0.5:
        d[int(rng.integers(n)) :] *= 0.05
    got = stdratio(d)
    want = [np.std(d[: i + 2]) / np.std(d[i + 2 : 2 * i + 4]) for i in range(n // 2 - 1)]
    case.close(got, want, "ratio", rtol=1e-6)
    case.count("ratios")
    case.sig(d[:3].tolist())


GROUPS = {
    "anydata": (12000, 36000, anydata),
    "clean": (3600, 10800, clean),
    "lines": (4500, 13500, lines),
    "extraction": (900, 2700, extraction),
    "atposition": (900, 2700, atposition),
    "qmaxes": (450, 1350, qmaxes),
    "ratios": (1200, 3600, ratios),
}
