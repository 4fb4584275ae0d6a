"""C09: what extraction leaves alone, and what its result is."""

import numpy as np

from lib import clusters, extractions, gen

TECHNIQUE = "before/after monitors of everything given to real extractions and fits, invariants of their results, and comparison of repeated runs on equal inputs"
NOTE = "Seeded exploration of extractions and fits of plain and PDF data with all kinds of settings, and of degenerate data."
RULE = """Cases draw data of one to three peaks with baseline, noise and termination ripples, and settings (range, uncertainties,
resolution, evaluator, peak functions, initial peaks, Nyquist, oversampling, scaling). Non-trivial: the result has a peak;
distinguished by kind of run and result."""
TERMINATES = ("run", "hostile", "repeat")
CPU_BUDGET = {"run": 300, "repeat": 500, "hostile": 300}
REQUIRED = {"starts from rippled peaks": 15, "largest at an end": 8, "peaks in results": 100, "initial peaks kept": 20, "fixed parameters kept": 20, "baseline fixed kept": 3, "repeats with two functions": 5, "ranges": 20,
            "nyquist": 5, "oversampled": 5}
CHUNK = {"run": 1, "repeat": 1, "hostile": 1}


def state(e, given):
    """Everything that was given, by value, with the identity of what is held."""
    out = {}
    for k, v in given.items():
        if k == "pf":
            out[k] = [(id(f), extractions.describe(f)) for f in v]
        elif k == "initial_peaks":
            out[k] = (id(v), [(id(p), extractions.plain([p])) for p in v])
        elif k == "baseline":
            out[k] = extractions.plain([v]) if hasattr(v, "owner") else extractions.describe(v)
        elif isinstance(v, np.ndarray):
            out[k] = v.tolist()
        else:
            out[k] = repr(v)
    return out


def held(case, s, e, given, arrays):
    """The settings that were made are still those of the extraction."""
    for k, v in given.items():
        now = getattr(e, k)
        if k == "rng":
            lo, hi = s.limits()
            ok = len(now) == 2 and now[0] == lo and now[1] == hi
        elif k == "effective_dy":
            ok = np.array_equal(now, s.errors())
        elif k == "pf":
            ok = len(now) == len(v) and all(a is b for a, b in zip(now, v))
        elif k == "baseline":
            if hasattr(v, "owner"):
                ok = extractions.plain([now]) == extractions.plain([v]) and now.owner() is v.owner()
            elif s.blname == "nanofunc":
                ok = now.npars() == 0
            else:
                ok = now.owner() is v
        elif k == "initial_peaks":
            ok = len(now) == len(v) and all(extractions.plain([a]) == extractions.plain([b]) and a.owner() is b.owner() for a, b in zip(now, v))
        else:
            ok = now is v or now == v
        case.check(ok, "setting-kept:" + k, "%s was %r, is %r" % (k, v, now))
    for name, a in arrays.items():
        case.check(np.array_equal(getattr(e, name), a), "data-kept:" + name)


def audit(case, s, e, given, what):
    """The result is complete and consistent."""
    mc = e.extracted
    pdf = s.ext == "PDFPeakExtraction"
    r = mc.r_cluster
    idx = s.inrange()
    raw = s.x[idx]
    err = s.errors()
    case.check(e.extraction_type == what, "type", e.extraction_type)
    if not np.all(idx):
        case.count("ranges")
    # range
    resampled = None
    if pdf and s.qmax:
        dn = np.pi / s.qmax
        draw = (s.x[-1] - s.x[0]) / (len(s.x) - 1)
        if e.nyquist:
            resampled = "nyquist"
        elif what == "extract" and dn / draw < e.supersample:
            resampled = "oversampled"
    if resampled is None:
        case.check(np.array_equal(r, raw) and np.allclose(mc.y_cluster, s.y[idx], rtol=1e-9, atol=1e-9 * s.height), "range", "%s points from %s to %s, expected %d from %s to %s" % (len(r), r[0], r[-1], len(raw), raw[0], raw[-1]))
        factor = 1.0
        if pdf and s.qmax and what == "extract":
            factor = max(1.0, np.sqrt(dn / draw)) if e.scale and e.nyquist else 1.0
        case.close(mc.error_cluster, factor * err[idx], "uncertainty", rtol=1e-12)
    else:
        case.count(resampled)
        lo, hi = s.limits()
        lo, hi = max(lo, s.x[0]), min(hi, s.x[-1])
        d = np.diff(r)
        case.check(len(r) > 1 and np.ptp(d) < 1e-9 * d[0] + 1e-12, "uniform", d)
        dr = (r[-1] - r[0]) / (len(r) - 1)
        case.check(abs(r[0] - lo) < 1e-9 and r[-1] < hi + 1e-9 and r[-1] >= hi - dr * (1 + 1e-9), "covers", "%s..%s by %s of %s..%s" % (r[0], r[-1], dr, lo, hi))
        if resampled == "oversampled":
            case.close(dr, dn / e.supersample, "spacing", rtol=1e-9)
        elif what == "fit":
            case.close(dr, dn, "spacing", rtol=1e-9)
        else:
            case.check(dr <= dn * (1 + 1e-9), "spacing-nyquist", "%s > %s" % (dr, dn))
    case.check(mc.slice.indices(len(mc.r_data))[:2] == (0, len(mc.r_data)), "whole", mc.slice)
    # model
    case.check(np.all(np.isfinite(mc.value())) and np.all(np.isfinite(mc.y_cluster)), "finite-values")
    for p in mc.model:
        pwa = p.owner().transform_parameters(p.pars, "internal", "pwa")
        f = p.owner()
        while f.base is not None:
            f = f.base
        width = next(m for k, m, _ in s.pf if any(f is g or f is g.base for g in given["pf"]) and gen.cls(k) is type(f) and m == f.maxwidth)
        case.check(np.all(np.isfinite(p.pars)) and np.all(np.isfinite(pwa)), "finite", p)
        case.check(pwa[2] >= 0 and 0 <= pwa[1] <= width * (1 + 1e-9), "valid", "%s of at most %s" % (pwa, width))
        case.count("peaks in results")
    case.check(clusters.sorted_by_position(mc.model), "sorted", [float(p["position"]) for p in mc.model])
    case.check(mc.error_method is e.error_method, "evaluator")
    q = mc.quality()
    case.check(isinstance(q, e.error_method), "evaluator")
    case.close(q.stat, clusters.refquality(mc), "quality", rtol=1e-9, atol=1e-9)
    # initial peaks
    promised(case, s, e, given, what)
    # baseline
    b0, b1 = e.baseline, mc.baseline
    case.check(b1.owner() is b0.owner() and b1.free.tolist() == b0.free.tolist(), "baseline-owner")
    for u, v, f in zip(b0.pars, b1.pars, b0.free):
        if not f:
            case.check(u == v, "baseline-fixed", "%r -> %r" % (u, v))
            case.count("baseline fixed kept")
    case.check(np.all(np.isfinite(b1.pars)), "baseline-finite")
    case.note(what=what, peaks=len(mc.model), points=len(r), baseline=s.blname)
    if len(mc.model):
        case.sig(what, [p.pars.tolist() for p in mc.model])


def promised(case, s, e, given, what):
    mc = e.extracted
    TR = gen.cls("TerminationRipples")
    filtered = what == "extract" and s.qmax > 0
    left = list(mc.model)
    init = sorted(given.get("initial_peaks", []), key=lambda p: int(np.sum(p.free)))
    for p in init:
        found = None
        for q in left:
            o, o0 = q.owner(), p.owner()
            if filtered and not isinstance(o0, TR) and not p.static_owner:
                same = isinstance(o, TR) and o.base is o0 and o.qmax == s.qmax
            else:
                same = o is o0
            if same and q.free.tolist() == p.free.tolist() and bool(q.removable) == bool(p.removable) and bool(q.static_owner) == bool(p.static_owner):
                if all(f or abs(u - v) <= 1e-9 * max(1, abs(u)) for u, v, f in zip(p.pars, q.pars, p.free)):
                    found = q
                    break
        if found is None:
            case.check(p.removable, "initial-kept", "%s is not in %s" % (p, mc.model))
            continue
        left = [q for q in left if q is not found]
        case.check(True, "initial-kept")
        case.count("initial peaks kept")
        if not np.all(p.free):
            case.count("fixed parameters kept")
    if what.startswith("fit"):
        case.check(not left, "fit-same-peaks", "%s became %s" % (init, mc.model))
    else:
        bad = [q for q in left if not np.all(q.free) or not q.removable or q.static_owner]
        case.check(not bad, "new-peaks-free", bad)
    for q in mc.model:
        o = q.owner()
        if filtered and not q.static_owner and len(mc.model) > 1:  # a single one may be an estimate made after the ripples were added
            case.check(isinstance(o, TR) and (o.qmax == s.qmax), "rippled", q)


def perform(case, s, e, given, arrays, what):
    before = state(e, given)
    cov = s.do(e, what)
    after = state(e, given)
    for k in before:
        case.check(before[k] == after[k], "given-untouched:" + k, "%s -> %s" % (before[k], after[k]))
    held(case, s, e, given, arrays)
    audit(case, s, e, given, what)
    return cov


def start(s, given, rng=None):
    x, y = s.x.copy(), s.y.copy()
    arrays = {"x": x, "y": y}
    e = gen.cls(s.ext)()
    dx = None if s.dx is None else s.dx.copy()
    dy = None if s.dy is None else s.dy.copy()
    e.setdata(x, y, dx, dy)
    for k, a in (("dx", dx), ("dy", dy)):
        arrays[k] = np.zeros(len(x)) if a is None else a
    arrays = {k: a.copy() for k, a in arrays.items()}
    if rng is not None and s.ext == "PDFPeakExtraction" and "qmax" in given:  # what the file says is not what is asked for
        e.qmax_reportedbypdf = [None, 0.0, float(rng.uniform(8, 40))][rng.integers(3)]
        e.qmax_fromdata = [e.qmax_fromdata, float(rng.uniform(8, 40))][rng.integers(2)]
    e.setvars(quiet=True, **given)
    return e, arrays


def run(case):
    s = extractions.spec(case.rng)
    given = s.settings()
    e, arrays = start(s, given, case.rng)
    perform(case, s, e, given, arrays, s.run)


def repeat(case):
    """The same again, on the same object and on fresh ones."""
    rng = case.rng
    s = extractions.spec(rng, twopf=0.6)
    given = s.settings()
    e, arrays = start(s, given)
    perform(case, s, e, given, arrays, s.run)
    first = extractions.result(e)
    if len(s.pf) > 1:
        case.count("repeats with two functions")
    s.do(e)
    case.check(extractions.result(e) == first, "repeat-same-object", "\n%s\n%s" % (first, extractions.result(e)))
    alive = []
    for _ in range(2):
        alive.append([object() for _ in range(int(rng.integers(1, 2000)))])
        funcs = s.functions()
        if rng.random() < 0.5:  # the order in which they were made does not matter
            alive.append(funcs)
            funcs = s.functions(backwards=True)
        e2 = s.build(s.settings(funcs))
        s.do(e2)
        case.check(extractions.result(e2) == first, "repeat-fresh", "\n%s\n%s" % (first, extractions.result(e2)))
        alive.append(e2)


def hostile(case):
    """Degenerate data: the run ends, with a result of the same standard."""
    rng = case.rng
    s = extractions.spec(rng, npeaks=1, n=int(rng.integers(5, 60)), rngp=0.1)
    n = len(s.x)
    how = int(rng.integers(8))
    h = s.height
    if how == 0:
        s.y = np.full(n, float(rng.normal()) * h)
    elif how == 1:
        s.y = h * (float(rng.normal()) * (s.x - s.x.mean()))
    elif how == 2:
        s.y = np.zeros(n)
        s.y[rng.integers(n)] = h
    elif how == 3:
        s.y = -np.abs(s.y)
    elif how == 4:
        s.y = np.minimum(s.y, 0.4 * h)
    elif how == 5:
        s.y = h * rng.normal(size=n)
    elif how == 6:
        s.y = h * np.where(np.arange(n) % 2, 1.0, -1.0)
    else:
        s.y = np.round(s.y / h * 3) * h / 3
    s.dy = None
    s.vars["effective_dy"] = h * float(10 ** rng.uniform(-2, 1))
    case.note(how=how)
    given = s.settings()
    e, arrays = start(s, given)
    perform(case, s, e, given, arrays, s.run)


def edge(case):
    """The largest value is at one end of the range."""
    rng = case.rng
    s = extractions.spec(rng, ext="PeakExtraction", run="extract_single", npeaks=int(rng.integers(1, 3)), bl=["line", "const", "nano", "line"][rng.integers(4)], initial=0.1, rngp=0.0)
    left = rng.random() < 0.6
    k = 0 if left else -1
    tall = max(p[2] / p[1] for p in s.true)
    scale = 1.5 * tall / (s.true[k][2] / s.true[k][1])
    s.y = s.y + extractions.gen.ref_peak(s.kind, s.true[k][0], s.true[k][1], s.true[k][2] * scale, s.x)
    near = s.true[k][0] + (0.1 if left else -0.1) * s.true[k][1]
    s.vars["rng"] = [near, None] if left else [None, near]
    given = s.settings()
    e, arrays = start(s, given)
    perform(case, s, e, given, arrays, s.run)
    m = s.inrange()
    top = np.argmax(s.y[m] - given["baseline"].value(s.x[m]))
    if top in (0, m.sum() - 1):
        case.count("largest at an end")


def further(case):
    """Runs that start from the result of an earlier one."""
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", npeaks=int(rng.integers(1, 3)), qmax=float(rng.uniform(12, 25)), static=0.0)
    s.vars["nyquist"] = bool(rng.random() < 0.7)
    given = s.settings()
    e, arrays = start(s, given)
    e.extract()
    mc = e.extracted
    if not len(mc.model):
        return
    peaks = mc.model.copy()
    for p in peaks:
        p.free[:] = gen.mask(rng, 3, float(rng.choice([0, 0.3])))
        p.removable = bool(rng.random() < 0.6)
    given["initial_peaks"] = peaks
    given["baseline"] = mc.baseline.copy()
    if rng.random() < 0.5:
        e, arrays = start(s, given)
    else:
        e.setvars(quiet=True, **given)
    what = ["extract", "extract", "fit"][rng.integers(3)]
    TR = gen.cls("TerminationRipples")
    case.count("starts from rippled peaks", any(isinstance(p.owner(), TR) for p in peaks))
    s.run = what
    perform(case, s, e, given, arrays, what)


GROUPS = {
    "further": (96, 800, further),
    "edge": (64, 500, edge),
    "run": (320, 2400, run),
    "repeat": (96, 600, repeat),
    "hostile": (160, 1500, hostile),
}
