"""C02: values agree with the definitions, on grids, ranges and points; sums are sums."""

import numpy as np

from lib import gen

TECHNIQUE = "reference-model oracle written from the formulas, plus slice/point/grid and additivity relations"
NOTE = "Seeded exploration; the references are independent code in lib/gen.py and scipy's interpolation."
RULE = """Cases draw a function, parameters, a grid and an index range from a seeded generator; the reference value is
computed from the closed formula. A case is non-trivial when the reference is not zero everywhere on the evaluated
range; cases are distinguished by function, parameters and range."""
ASSUMPTIONS = ["Gaussian-over-r is not evaluated at r=0, where it is not defined."]
TOL = dict(rtol=1e-9, atol=1e-280)


def _exercise(case, part, ref, x, what, rtol=1e-9, atol=1e-280):
    """Whole grid, omitted range, ranges, points and lists of one part against its reference."""
    rng = case.rng
    n = len(x)
    keep = x.copy()
    full = ref(x)
    scale = np.max(np.abs(full)) if n else 0.0
    tol = dict(rtol=rtol, atol=atol + 1e-11 * scale)
    v = part.value(x)
    case.close(v, full, "grid", what, **tol)
    case.check(isinstance(v, np.ndarray) and v is not x, "grid-new-array", what)
    for _ in range(3):
        s = gen.slices(rng, n)
        got = part.value(x, s)
        want = np.zeros(n)
        want[s if s is not None else slice(None)] = full[s if s is not None else slice(None)]
        case.close(got, want, "range", "%s over %s" % (what, s), **tol)
        case.count("ranges")
        if np.any(want):
            case.sig(what, x[0], n, s)
    got = part.value(x, None)
    case.close(got, full, "range-none", what, **tol)
    for i in rng.integers(0, n, 4):
        p = [float(x[i]), np.float64(x[i])][rng.integers(2)] if x.dtype.kind == "f" else [int(x[i]), x[i]][rng.integers(2)]
        got = part.value(p)
        case.check(np.ndim(got) == 0, "point-scalar", "%s at %r gives %r" % (what, p, got))
        case.close(got, full[i], "point", "%s at %r" % (what, p), **tol)
        case.count("points")
    one = x[[int(rng.integers(n))]]
    case.close(part.value(one), ref(one), "one-point-grid", what, **tol)
    case.check(np.array_equal(x, keep), "grid-untouched", what)


def peaks(case):
    rng = case.rng
    sp = gen.peak(rng, free=gen.mask(rng, 3))
    m = rng.integers(3)
    if m == 0:  # around the peak
        x = sp.pos + sp.fwhm * np.linspace(-3, 3, int(rng.integers(5, 200)))
        x = x[x > 1e-3]
    else:
        x = gen.whole(rng, gen.grid(rng))
    part = sp.part
    if rng.random() < 0.5:  # any internal parameters, canonical or not
        ang = float(rng.uniform(-8, 8))
        if abs(np.sin(ang) + 1) < 1e-3:
            ang = 0.3
        area = sp.area * [1, -1][rng.integers(2)]
        part = sp.part.owner().actualize([sp.pos, ang, area], "internal")
        part.pars[:] = [sp.pos, ang, area]
        sp.fwhm = float(gen.ref_width(sp.maxwidth, ang))
    case.note(kind=sp.kind, pwa=(sp.pos, sp.fwhm, sp.area), n=len(x))
    _exercise(case, part, sp.ref, x, (sp.kind, sp.pos, sp.fwhm, sp.area))
    # the definition of the parameters, measured on the curve
    if sp.kind == "Gaussian":
        half = part.value(sp.pos) / 2
        case.close(part.value(sp.pos + sp.fwhm / 2), half, "half-maximum", rtol=1e-7)
        case.close(part.value(sp.pos - sp.fwhm / 2), half, "half-maximum", rtol=1e-7)
        xx = sp.pos + sp.fwhm * np.linspace(-6, 6, 601)
        case.close(np.sum(part.value(xx)) * (xx[1] - xx[0]), sp.area, "area", rtol=1e-6)
    else:
        xx = sp.pos + sp.fwhm * np.linspace(-6, 6, 602)
        xx = xx[np.abs(xx) > 1e-9]
        if sp.pos > 6 * sp.fwhm:
            case.close(np.sum(xx * part.value(xx)) * (xx[1] - xx[0]), sp.area, "area", rtol=1e-6)


def baselines(case):
    rng = case.rng
    part, ref, which = gen.baseline(rng, free=lambda n: gen.mask(rng, n))
    x = gen.whole(rng, gen.grid(rng, lo=0.0))
    if which == "nano":
        k = rng.integers(3)
        R = abs(part.pars[1])
        if k == 0:  # around both ends of the domain, which include zero and twice the radius exactly
            x = np.concatenate([np.linspace(-1, 0, 5), np.linspace(0, 2 * R, 23)[1:], 2 * R + np.linspace(0, 3, 7)[1:]])
        if k == 1:
            part.pars[:] = part.pars * rng.choice([-1, 1], 2)
    if which == "poly" and rng.random() < 0.3:
        x = x - rng.uniform(0, 2) * x[-1]
    if which == "seq":
        x = np.sort(rng.uniform(0, 40, int(rng.integers(2, 200))))
    case.note(which=which, pars=part.pars.tolist(), n=len(x))
    rtol = 1e-7 if which == "seq" else 1e-9
    _exercise(case, part, ref, x, (which, part.pars.tolist()), rtol=rtol)


def sequence(case):
    """Tabulated baselines pass through their points, and read the points of a file."""
    rng = case.rng
    n = int(rng.integers(4, 40))
    x = np.cumsum(rng.uniform(0.1, 2, n))
    y = rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
    F = gen.cls("FromSequence")
    k = rng.integers(5)
    if k == 0:
        f = F(x, y)
    elif k == 1:
        f = F(x=list(x), y=list(y))
    else:
        path = "seq-%d.dat" % case.index
        head = ["", "# comment\n", "# a\n#b 1 2\n\n"][rng.integers(3)]
        sep = [" ", "\t", "  "][rng.integers(3)]
        rows = "".join("%r%s%r%s\n" % (float(a), sep, float(b), ["", " 0.1"][rng.integers(2)]) for a, b in zip(x, y))
        open(path, "w").write(head + rows)
        f = F(path) if k < 4 else F(file=path)
    part = f.actualize([], "internal")
    case.check(part.npars() == 0 and len(part.pars) == 0, "no-parameters")
    scale = np.max(np.abs(y))
    case.close(part.value(x), y, "through-points", rtol=1e-9, atol=1e-9 * scale)
    ref = gen.ref_spline(x, y)
    mid = np.sort(rng.uniform(x[0], x[-1], 50))
    v = part.value(mid)
    case.close(v, ref(mid), "cubic", rtol=1e-7, atol=1e-7 * np.max(np.abs(ref(mid)) + scale))
    if n >= 6:  # exact for cubic polynomials
        c = rng.normal(size=4)
        g = F(x, np.polyval(c, x)).actualize([], "internal")
        w = np.polyval(c, mid)
        case.close(g.value(mid), w, "cubic-exact", rtol=1e-6, atol=1e-7 * np.max(np.abs(np.polyval(c, x))))
    case.raises((ValueError,), lambda: F(x, y[:-1]), "unequal-lengths")
    case.raises((TypeError,), lambda: F(x, y, x), "signature")
    case.raises((TypeError,), lambda: F(), "signature")
    case.sig("seq", n, k, x[0])
    case.note(n=n, k=int(k))


def sums(case):
    """Collections of peaks, models with a baseline, and clusters evaluate to sums of parts."""
    rng = case.rng
    func = gen.peakfunc(rng, maxwidth=float(rng.uniform(0.3, 2)))
    specs = [gen.peak(rng, func if rng.random() < 0.7 else None, free=gen.mask(rng, 3)) for _ in range(rng.integers(0, 6))]
    bl, blref, which = gen.baseline(rng)
    x = gen.grid(rng, lo=0.5, hi=20, nmin=5)
    if rng.random() < 0.1:
        x = np.arange(1, int(rng.integers(7, 30)))
    Peaks, ModelParts = gen.cls("Peaks"), gen.cls("ModelParts")
    model = Peaks([s.part for s in specs])
    n = len(x)
    want = sum([s.ref(x) for s in specs], np.zeros(n))
    total = want + blref(x)
    tol = dict(rtol=1e-8, atol=1e-9 * (np.max(np.abs(want)) + np.max(np.abs(blref(x))) + 1e-290))
    case.close(model.value(x), want, "sum-of-peaks", **tol)
    parts = ModelParts(list(model))
    parts.append(bl)
    case.close(parts.value(x), total, "sum-of-parts", **tol)
    s = gen.slices(rng, n)
    w = np.zeros(n)
    w[s if s is not None else slice(None)] = total[s if s is not None else slice(None)]
    case.close(parts.value(x, s), w, "sum-of-parts-range", **tol)
    i = int(rng.integers(n))
    case.close(parts.value(float(x[i])), total[i], "sum-at-point", **tol)
    # cluster
    y = rng.normal(size=n)
    err = np.full(n, 0.5)
    MC, AIC = gen.cls("ModelCluster"), gen.cls("AIC")
    usebl = rng.random() < 0.8
    a, b = sorted(rng.choice(n + 1, 2, replace=False))
    cs = slice(int(a), int(b))
    mc = MC(model, bl if usebl else None, x, y, err, cs, AIC, [func[0]])
    t = total if usebl else want
    case.close(mc.value(), t[cs], "cluster-value", **tol)
    case.close(mc.value(x), t, "cluster-value-grid", **tol)
    other = gen.grid(rng, lo=0.5, hi=20, nmin=3)
    wo = sum([q.ref(other) for q in specs], np.zeros(len(other)))
    case.close(mc.value(other), wo + (blref(other) if usebl else 0.0), "cluster-value-other-grid",
               rtol=1e-8, atol=1e-8 * (np.max(np.abs(wo)) + np.max(np.abs(blref(other))) + 1e-290))
    case.close(mc.valuebl(), (blref(x) if usebl else np.zeros(n))[cs], "cluster-baseline", **tol)
    case.close(mc.residual(), (y - t)[cs], "cluster-residual", **tol)
    if len(specs):
        case.sig(len(specs), which, usebl, n, x[0])
    case.note(peaks=len(specs), baseline=which, n=n)


GROUPS = {
    "peaks": (6000, 30000, peaks),
    "baselines": (6000, 30000, baselines),
    "sequence": (1200, 6000, sequence),
    "sums": (3200, 16000, sums),
}
REQUIRED = {"ranges": 2000, "points": 4000}
