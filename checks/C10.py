"""C10: extraction finds the peaks that are there."""

import numpy as np

from lib import clusters, extractions, gen

TECHNIQUE = "recovery oracle on synthetic signals computed from the definitions: extracted peaks are matched with the planted ones within their Fisher uncertainties"
NOTE = "Seeded exploration of signals of one to five separated peaks with and without noise, ripples, baselines, outliers beyond the range, and initial peaks."
RULE = """Cases draw one to five separated peaks far above the uncertainty with a baseline and settings. Non-trivial: every case;
distinguished by kind of run and parameters."""
REQUIRED = {"peaks recovered": 100, "baselines refined": 15, "spurious peaks": 15}
CHUNK = {"recover": 1, "lifted": 1, "initial": 1, "outside": 1, "ripples": 1}


def signal(rng, ext, ripples, npeaks=None, noise=None, cut=(3.0, 4.5)):
    s = extractions.Spec()
    s.ext = ext
    pdf = ext == "PDFPeakExtraction"
    s.run = "extract" if pdf else "extract_single"
    s.kind = ["GaussianOverR", "Gaussian"][rng.integers(2)]
    mw = float(rng.uniform(0.4, 1.0))
    k = int(rng.integers(1, 6)) if npeaks is None else npeaks
    base = mw * rng.uniform(0.3, 0.55)
    fwhms = [float(base * rng.uniform(0.75, 1.35)) for _ in range(k)]
    pos = float(rng.uniform(2.0, 5.0))
    for i, w in enumerate(fwhms):
        if i:
            pos += (w + fwhms[i - 1]) * rng.uniform(1.25, 2.5)
        s.true.append([pos, w, w * float(rng.uniform(0.5, 2.0)) * (pos if s.kind == "GaussianOverR" else 1.0)])
    lo = s.true[0][0] - fwhms[0] * rng.uniform(1.8, 3)
    hi = s.true[-1][0] + fwhms[-1] * rng.uniform(1.8, 3)
    step = min(fwhms) / rng.uniform(8, 16)
    if ripples:
        s.qmax = float(rng.uniform(*cut) * gen.S2F / min(fwhms))
        step = min(step, np.pi / s.qmax / rng.uniform(1.5, 5))
    s.x = np.arange(lo, hi, step)
    n = len(s.x)
    y = extractions.signal(s, s.x)
    s.height = h = float(np.max(y))
    low = min(np.max(gen.ref_peak(s.kind, *p, s.x)) for p in s.true)
    s.blname = ["None", "line", "const", "nano", "seq"][rng.integers(5)]
    fixed = bool(rng.random() < 0.5)
    s.blfree = 0
    if s.blname == "line":
        pars = [-float(rng.uniform(0.02, 0.15)) * h / hi, float(rng.normal() * 0.03 * h)]
        s.bl = ("part", "Polynomial", (1,), pars, [not fixed] * 2)
        y = y + gen.ref_poly(pars, s.x)
    elif s.blname == "const":
        s.bl = ("part", "Polynomial", (0,), [float(rng.normal() * 0.05 * h)], [not fixed])
        y = y + s.bl[3][0]
    elif s.blname == "nano":
        pars = [float(rng.uniform(0.02, 0.15)) * h / hi, float(rng.uniform(0.8, 1.5) * hi)]
        s.bl = ("part", "NanoSpherical", (), pars, [not fixed] * 2)
        y = y + gen.ref_nano(*pars, s.x)
    elif s.blname == "seq":
        bx = np.linspace(lo - 0.1, hi + 0.1, 8)
        by = 0.05 * h * rng.normal(size=8)
        s.bl = ("part", "FromSequence", (bx, by), [], [])
        y = y + gen.ref_spline(bx, by)(s.x)
    s.clean = y
    s.err = low * float(10 ** rng.uniform(-2.5, -1.5))
    s.noise = 0.0 if rng.random() < 0.4 else s.err * float(rng.uniform(0.1, 0.6))
    if noise is not None:
        s.noise = noise * s.err
    s.y = y + s.noise * rng.normal(size=n)
    s.vars["effective_dy"] = s.err if rng.random() < 0.5 else s.err * np.ones(n)
    s.pf = [(s.kind, mw, None)]
    if s.qmax and not pdf:
        s.pf = [(s.kind, mw, s.qmax)]
    if rng.random() < 0.6:
        s.vars["cres"] = float(min(fwhms) * rng.uniform(0.2, 0.6))
    s.vars["error_method"] = ["AIC", "AICc"][rng.integers(2)]
    if pdf:
        s.vars["qmax"] = s.qmax
        if rng.random() < 0.6:
            s.vars["nyquist"] = bool(s.qmax > 0 and rng.random() < 0.5)
        if rng.random() < 0.3:
            s.vars["supersample"] = float(rng.uniform(2.0, 6.0))
        if not s.qmax and "cres" not in s.vars:
            s.vars["cres"] = float(min(fwhms) * 0.4)
    return s


def fisher(s, x, err):
    """Standard deviations of position, width and area of each peak, from the definition, with those of a line as nuisance."""
    cols = []
    for p in s.true:
        for i in range(3):
            d = 1e-5 * (p[1] if i < 2 else p[2])
            up, dn = list(p), list(p)
            up[i] += d
            dn[i] -= d
            f = (lambda q: extractions.ref_rippled(s.kind, *q, s.qmax, x)) if s.qmax else (lambda q: gen.ref_peak(s.kind, *q, x))
            cols.append((f(up) - f(dn)) / (2 * d) / err)
    if s.blname in ("line", "const", "nano"):
        cols += [np.ones(len(x)) / err, x / err]
    j = np.array(cols).T
    return np.sqrt(np.diag(np.linalg.pinv(j.T @ j, rcond=1e-14)))[: 3 * len(s.true)].reshape(-1, 3)


def recovered(case, s, e, idx=None):
    mc = e.extracted
    x = mc.r_cluster
    sd = fisher(s, x, s.err)
    left = list(mc.model)
    got = []
    for t, sig in zip(s.true, sd):
        near = sorted(left, key=lambda p: abs(p["position"] - t[0]))
        near = [p for p in near if abs(p["position"] - t[0]) < 0.5 * t[1]]
        if not case.check(bool(near), "found", "no peak near %s among %s" % (t, show(mc.model))):
            continue
        p = max(near, key=lambda p: p.owner().transform_parameters(p.pars, "internal", "pwa")[2])
        left = [q for q in left if q is not p]
        q = p.owner().transform_parameters(p.pars, "internal", "pwa")
        got.append(q)
        dev = np.abs(np.array(q) - t) / (sig * max(s.noise / s.err, 0.5 if s.qmax else 0.05))
        case.note(dev=max(dev))
        case.check(np.all(dev < 6), "accurate", "%s instead of %s: %s standard deviations, %s" % (list(map(float, q)), t, dev, show(mc.model)))
        case.count("peaks recovered")
    h = [float(np.max(np.abs(p.value(x)))) for p in left]
    case.check(all(v < (10 if s.qmax else 3) * s.err for v in h), "no-others", "%s of heights %s over %s, true %s" % (show(left), h, s.err, s.true))
    if left:
        case.count("cases with further peaks")
    case.sig(s.run, s.true[0])
    case.note(true=s.true, noise=s.noise / s.err, n=len(s.x), baseline=s.blname, ext=s.ext, ripples=s.qmax)


def show(model):
    return [tuple(float("%.4g" % v) for v in p.owner().transform_parameters(p.pars, "internal", "pwa")) for p in model]


def recover(case):
    rng = case.rng
    s = signal(rng, ["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)], False)
    e = s.build()
    s.do(e)
    recovered(case, s, e)


def ripples(case):
    rng = case.rng
    s = signal(rng, ["PeakExtraction", "PDFPeakExtraction", "PDFPeakExtraction"][rng.integers(3)], True, npeaks=int(rng.integers(1, 4)))
    e = s.build()
    s.do(e)
    recovered(case, s, e)


def near(rng, s, away, share=1.0, fix=0.0, keep=0.5):
    """Initial peaks at the planted ones or near them."""
    for p in s.true:
        if rng.random() < share:
            free = gen.mask(rng, 3, fix)
            q = [p[0] + away * p[1] * float(rng.normal()), min(p[1] * float(np.exp(away * rng.normal())), s.pf[0][1] * 0.98), p[2] * float(np.exp(away * rng.normal()))]
            q = [a if f else b for a, b, f in zip(q, p, free)]
            s.initial.append((0, q, free, bool(rng.random() > keep), False))


def initial(case):
    """Peaks that are known already."""
    rng = case.rng
    s = signal(rng, ["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)], bool(rng.random() < 0.3), npeaks=int(rng.integers(1, 5)))
    away = float(rng.choice([0, 0.03]))
    near(rng, s, away, 0.6, 0.3)
    e = s.build()
    s.do(e)
    if away == 0:
        recovered(case, s, e)
    else:  # what the first guess misses may be made up for by further peaks
        mc = e.extracted
        clean = np.interp(mc.r_cluster, s.x, s.clean) if s.qmax else s.clean
        free = all(all(f) for _, _, f, _, _ in s.initial)
        if free and not s.qmax:
            case.check(np.max(np.abs(mc.value() - clean)) < 5 * s.err, "explained", "%s over %s" % (np.max(np.abs(mc.value() - clean)), s.err))
            case.count("explained")
        for t in s.true:
            case.check(any(abs(p["position"] - t[0]) < 0.2 * t[1] for p in mc.model), "found", "no peak near %s among %s" % (t, show(mc.model)))
        case.sig("initial", s.true[0])
    case.count("initial peaks", len(s.initial))


def lifted(case):
    """All peaks are known, and the baseline only nearly."""
    rng = case.rng
    s = signal(rng, ["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)], False, npeaks=int(rng.integers(1, 4)))
    near(rng, s, 0.0, 1.0, 0.0)
    d = float(rng.choice([-1, 1]) * rng.uniform(3.2, 4.2)) * s.err
    if s.bl is None or s.bl[1] != "Polynomial":
        s.blname = "const"
        s.y, s.clean, was = s.y + d, s.clean + d, s.blname
        if s.bl is not None and s.bl[0] == "part":
            b = extractions.signal  # the baseline there was belongs to the data no more
            s.y = s.y - (s.clean - d - b(s, s.x))
            s.clean = b(s, s.x) + d
        s.bl = ("part", "Polynomial", (0,), [0.0], [True])
    else:
        s.bl = s.bl[:3] + (list(s.bl[3][:-1]) + [s.bl[3][-1] + d], [True] * len(s.bl[3]))
    e = s.build()
    s.do(e)
    mc = e.extracted
    off = np.max(np.abs(mc.value() - s.clean)) if len(mc.r_data) == len(s.x) else np.max(np.abs(mc.value() - np.interp(mc.r_cluster, s.x, s.clean)))
    case.check(off < 3 * s.err, "explained", "%s over %s; baseline %s, %s" % (off, s.err, mc.baseline.pars, show(mc.model)))
    case.note(off=off / s.err, d=d / s.err)
    case.sig("lifted", s.true[0])
    case.count("baselines refined")


def spurious(case):
    """Peaks are given that are not there."""
    rng = case.rng
    s = signal(rng, ["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)], False, npeaks=int(rng.integers(1, 5)))
    near(rng, s, 0.0, 1.0, 0.0)
    extra = []
    for _ in range(int(rng.integers(1, 3))):
        w = float(rng.uniform(0.7, 1.3)) * s.true[0][1]
        pos = float(rng.uniform(s.x[0], s.x[-1]))
        top = np.max(gen.ref_peak(s.kind, pos, w, 1.0, s.x))
        q = [pos, min(w, 0.95 * s.pf[0][1]), float(rng.uniform(0.02, 0.3)) * s.err / top]
        s.initial.append((0, q, [True] * 3, bool(rng.random() < 0.8), False))
        if s.initial[-1][3]:
            extra.append(q)
    e = s.build()
    s.do(e)
    mc = e.extracted
    left = [p for p in mc.model if p.removable and np.max(np.abs(p.value(mc.r_cluster))) < 0.5 * s.err]
    case.check(not left, "dropped", "%s of %s, error %s" % (show(left), show(mc.model), s.err))
    for t in s.true:
        case.check(any(abs(p["position"] - t[0]) < 0.2 * t[1] for p in mc.model), "found", "no peak near %s among %s" % (t, show(mc.model)))
    case.count("spurious peaks", len(extra))
    case.sig("spurious", s.true[0])


def refine(case):
    """A fit of all peaks at once, also with strong ripples."""
    rng = case.rng
    s = signal(rng, ["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)], bool(rng.random() < 0.5), cut=(2.3, 4.0))
    if s.qmax:
        s.pf = [(s.kind, s.pf[0][1], s.qmax)]
    near(rng, s, 0.05, 1.0, 0.2)
    s.initial.sort(key=lambda t: t[1][0])
    s.run = "fit" if s.ext == "PDFPeakExtraction" else "fit_single"
    e = s.build()
    s.do(e)
    recovered(case, s, e)
    case.check(len(e.extracted.model) == len(s.true), "same-number")
    case.count("refined")


def outside(case):
    """What lies outside the range does not matter."""
    rng = case.rng
    s = signal(rng, ["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)], False, npeaks=int(rng.integers(1, 4)))
    s.vars.setdefault("cres", 0.4 * min(p[1] for p in s.true))
    if rng.random() < 0.3:
        near(rng, s, 0.0, 0.6, 0.3)
    lo, hi = float(s.x[0]), float(s.x[-1])
    n = len(s.x)
    e0 = s.build()
    s.do(e0)
    recovered(case, s, e0)
    # the same with more data around it
    step = s.x[1] - s.x[0]
    a, b = int(rng.integers(1, 60)), int(rng.integers(1, 60))
    a = min(a, int((lo - 0.1) / step))
    left = lo - step * np.arange(a, 0, -1)
    right = hi + step * np.arange(1, b + 1)
    wild = lambda m: s.height * float(10 ** rng.uniform(-2, 1)) * rng.normal(size=m)
    s.x = np.concatenate([left, s.x, right])
    s.y = np.concatenate([wild(a), s.y, wild(b)])
    if not np.isscalar(s.vars["effective_dy"]):
        s.vars["effective_dy"] = np.concatenate([s.err * rng.uniform(0.1, 10, a), s.vars["effective_dy"], s.err * rng.uniform(0.1, 10, b)])
    s.vars["rng"] = [lo - 0.3 * step if rng.random() < 0.5 else lo, hi + 0.3 * step if rng.random() < 0.5 else hi]
    e1 = s.build()
    s.do(e1)
    case.check(extractions.result(e0) == extractions.result(e1), "outside-ignored", "%s\n%s" % (extractions.result(e0)[:3], extractions.result(e1)[:3]))
    case.count("outside compared")


GROUPS = {
    "recover": (100, 1500, recover),
    "ripples": (48, 1000, ripples),
    "initial": (48, 1000, initial),
    "lifted": (48, 600, lifted),
    "spurious": (32, 600, spurious),
    "refine": (48, 1000, refine),
    "outside": (32, 500, outside),
}
