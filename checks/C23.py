"""C23: series of extractions over uncertainties."""

import os

import numpy as np

from lib import extractions, gen
from lib.extractions import describe, plain

TECHNIQUE = "differential oracle (each stored result against an independent extraction) and by-value snapshot monitors around selections, displays, edits and files"
NOTE = "Seeded exploration of settings, lists of uncertainties and sequences of operations on a series."
RULE = """Cases draw data, settings and a list of uncertainties, run the series, and apply a random sequence of selections,
displays, edits, saves and loads. Non-trivial: the series has results; distinguished by them."""
REQUIRED = {"results": 60, "selected": 60, "edited": 20, "displayed": 20, "loaded": 15, "different models": 5, "arrays": 3, "covariances": 3,
            "made results": 150, "loaded selected": 50, "written": 50, "empty": 3, "without baseline": 20}
CHUNK = {"series": 1}
SETTINGS = ("x", "y", "dx", "dy", "rng", "cres", "qmax", "nyquist", "supersample", "scale", "qmax_fromdata", "qmax_reportedbypdf", "filename")


def settings(e):
    out = [(k, np.asarray(getattr(e, k)).tolist()) for k in SETTINGS]
    out.append([describe(f) for f in e.pf or []])
    out.append(None if e.baseline is None else plain([e.baseline]) if hasattr(e.baseline, "pars") else describe(e.baseline))
    out.append(getattr(e.error_method, "__name__", None))
    out.append(None if e.initial_peaks is None else plain(e.initial_peaks))
    return out


def value(result):
    e, peaks, bl, dr = result
    return (np.asarray(e).tolist(), plain(peaks), None if bl is None else plain([bl]), float(dr))


def values(ps):
    return [value(r) for r in ps.results]


def selected(case, ps, i, pre=""):
    """What is shown is result i."""
    e, ppe = ps.results[i][0], ps.ppe
    want = value(ps.results[i])
    x = ppe.extracted
    case.check(ps.current == i, pre + "current", "%s" % ps.current)
    case.check(plain(x.model) == want[1], pre + "shown-model", "%s instead of %s" % (plain(x.model), want[1]))
    got = None if x.baseline is None else plain([x.baseline])
    if want[2] is None:  # no baseline is shown as an empty one
        case.check(got is None or got[0][1] == [], pre + "shown-baseline", "%s" % got)
    else:
        case.check(got == want[2], pre + "shown-baseline", "%s instead of %s" % (got, want[2]))
    case.check(np.array_equal(ppe.effective_dy, np.asarray(e) * np.ones(len(ppe.x))), pre + "shown-uncertainty", "%s" % ppe.effective_dy)
    lo, hi = max(ppe.x[0], ppe.rng[0]), min(ppe.x[-1], ppe.rng[1])
    dr = want[3]
    r = x.r_cluster
    n = (hi - lo) / dr
    case.check(abs(len(r) - n) < 1 + 1e-6 * n, pre + "shown-size", "%d points, %s" % (len(r), n))
    case.close(r, lo + dr * np.arange(len(r)), pre + "shown-grid", rtol=1e-9, atol=1e-12)
    mean = (ppe.x[-1] - ppe.x[0]) / (len(ppe.x) - 1)
    case.close(x.y_cluster, np.sinc((r[:, None] - ppe.x[None, :]) / mean) @ ppe.y, pre + "shown-values", rtol=1e-6, atol=1e-6 * np.max(np.abs(ppe.y)))
    f = max(1.0, np.sqrt(np.pi / ppe.qmax / dr)) if ppe.qmax > 0 and ppe.nyquist and ppe.scale else 1.0
    case.close(x.error_cluster, f * np.interp(r, ppe.x, np.asarray(e) * np.ones(len(ppe.x))), pre + "shown-errors", rtol=1e-9)
    case.check(x.error_method is ppe.error_method and x.size == len(r), pre + "shown-rest")
    case.check(all(p is not q for p in x.model for q in ps.results[i][1]), pre + "shown-copies")
    if case.rng.random() < 0.2:  # what is shown can be written as any other extraction
        other = gen.cls("PDFPeakExtraction")()
        other.readstr(ppe.writestr())
        case.check(plain(other.extracted.model) == want[1], pre + "written-model", "%s instead of %s" % (plain(other.extracted.model), want[1]))
        case.check(ppe.writepwastr("").count("\n") > 20, pre + "summary")
        case.count("written")
    case.count(pre.replace("-", " ") + "selected")


def display(case, ps, rng):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    k = int(rng.integers(3))
    n = len(ps.results)
    try:
        if k == 0:
            ps.plotseries()
            lines = plt.gcf().gca().lines
            case.check(len(lines) == n, "series-lines", "%d for %d results" % (len(lines), n))
            for ln, (e, peaks, bl, dr) in zip(lines, ps.results):
                case.check([float(v) for v in ln.get_xdata()] == [float(p.owner().transform_parameters(p.pars.copy(), "internal", "pwa")[0]) for p in peaks], "series-positions")
                case.check(list(ln.get_ydata()) == [e] * len(peaks), "series-uncertainties")
        elif k == 1:
            if ps.current is None:
                ps.setcurrent(int(rng.integers(n)))
            ps.plot()
            t = plt.gcf()._suptitle.get_text()
            q = ps.ppe.extracted.quality()
            case.check(t.startswith("[%d/%d]\n" % (ps.current + 1, n)), "title", t)
            case.check("Uncertainty: %6.3f." % np.asarray(ps.ppe.effective_dy)[0] in t and "Peaks: %d." % len(ps.ppe.extracted.model) in t and "Quality: %6.3f." % q.stat in t, "title", t)
        else:
            before = ps.current
            idx = None if rng.random() < 0.4 else [int(i) for i in rng.integers(0, n, int(rng.integers(0, 4)))]
            ps.animate(idx)
            case.check(ps.current == before, "animate-current", "%s became %s" % (before, ps.current))
            if before is None:
                case.check(ps.ppe.extracted is None, "animate-none")
    finally:
        plt.close("all")
    case.count("displayed")


def edit(rng, ps, data=True):
    x = ps.ppe.extracted
    k = int(rng.integers(6))
    if k == 4 and not data:  # a run works on the arrays of the extraction
        k = 1
    if k == 0:
        x.fit(fitbaseline=bool(rng.random() < 0.5))
    elif k == 1 and len(x.model):
        p = x.model[int(rng.integers(len(x.model)))]
        p.pars *= 1.5
        p.free[:] = ~p.free
    elif k == 2 and x.baseline is not None and len(x.baseline.pars):
        x.baseline.pars += 1.0
    elif k == 3 and len(x.model):
        del x.model[int(rng.integers(len(x.model)))]
    elif k == 4:
        x.r_data[:] += 0.1
        x.y_data[:] *= 2
    else:
        x.prune()


def sequence(case, ps, cheap=False):
    rng = case.rng
    n = len(ps.results)
    keep = values(ps)
    base = settings(ps.ppe)
    edited = False
    for _ in range(int(rng.integers(2, 7))):
        k = int(rng.integers(5))
        if k <= 1:
            i = int(rng.integers(n))
            ps.setcurrent(i)
            selected(case, ps, i)
            edited = False
        elif k == 2:
            if rng.random() < 0.1:
                ps.setcurrent(None)
                case.check(ps.current is None and ps.ppe.extracted is None, "none-selected")
            display(case, ps, rng)
            if ps.current is not None and not edited:
                selected(case, ps, ps.current)
        elif k == 3:
            i = int(rng.integers(n))
            ps.setcurrent(i)
            edit(rng, ps)
            edited = True
            case.count("edited")
        else:
            name = os.path.join(os.environ["VERIF_SCRATCH"], "series-%s-%s-%d" % (case.group, case.index, os.getpid()))
            ps.save(name)
            try:
                other = gen.cls("PeakStability")()
                other.load(name)
            finally:
                os.unlink(name)
            case.check(values(other) == keep, "loaded", "%s instead of %s" % (values(other), keep))
            case.check(settings(other.ppe) == base, "loaded-settings", "%s instead of %s" % (settings(other.ppe), base))
            selected(case, other, 0, "loaded-")
            case.check(values(ps) == keep, "saved", "%s" % values(ps))
            if rng.random() < 0.5:  # go on with the loaded one
                ps = other
                edited = False
            else:
                j = int(rng.integers(n))
                other.setcurrent(j)
                edit(rng, other)
            case.count("loaded")
        case.check(values(ps) == keep, "kept", "%s became %s (%d)" % (keep, values(ps), k))
        case.check(settings(ps.ppe) == base, "settings-kept", "%s became %s (%d)" % (base, settings(ps.ppe), k))
    return ps


def series(case):
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", npeaks=int(rng.integers(1, 4)), n=int(rng.integers(30, 70)) if rng.random() < 0.7 else None)
    s.vars.pop("effective_dy", None)
    errs = [max(s.noise, 1e-3 * s.height) * float(10 ** rng.uniform(-0.3, 1.3)) for _ in range(int(rng.integers(2, 5)))]
    if rng.random() < 0.2:
        errs[int(rng.integers(len(errs)))] *= 30
    if rng.random() < 0.15:
        errs = [v * rng.uniform(0.8, 1.2, len(s.x)) for v in errs]
        case.count("arrays")
    ppe = s.build()
    ps = gen.cls("PeakStability")()
    ps.setppe(ppe)
    covs = bool(rng.random() < 0.4)
    out = ps.run(errs if rng.random() < 0.5 or not np.ndim(errs[0]) == 0 else np.array(errs), covs)
    case.check(ps.ppe is ppe and len(ps.results) == len(errs), "one-each", "%d results for %d" % (len(ps.results), len(errs)))
    got = values(ps)
    for i, v in enumerate(errs):
        s.vars["effective_dy"] = v
        e = s.build()
        cov = s.do(e)
        x = e.extracted
        want = (np.asarray(v).tolist(), plain(x.model), None if x.baseline is None else plain([x.baseline]), float((x.r_cluster[-1] - x.r_cluster[0]) / (len(x.r_cluster) - 1)))
        case.check(got[i] == want, "same-result", "result %d of %s is %s, alone %s" % (i, errs, got[i], want))
        if covs:
            case.check(np.array_equal(getattr(out[i], "cov", None), getattr(cov, "cov", None), equal_nan=True) if getattr(cov, "cov", None) is not None else getattr(out[i], "cov", None) is None, "same-covariance")
        case.count("results")
    case.check(len(out) == (len(errs) if covs else 0), "covariances", "%d" % len(out))
    if covs:
        case.count("covariances")
    objs = [id(p) for r in ps.results for p in r[1]]
    case.check(len(set(objs)) == len(objs), "independent")
    if len({repr(g[1]) for g in got}) > 1:
        case.count("different models")
    if rng.random() < 0.5:
        edit(rng, ps, False)
        case.check(values(ps) == got, "kept-after-run", "%s became %s" % (got, values(ps)))
    if np.ndim(errs[0]) == 0:
        ps = sequence(case, ps)
    case.sig(got)
    case.note(errors=errs, peaks=[len(g[1]) for g in got])
    # again, in another order: the same results, and none of the old ones
    if rng.random() < 0.3:
        order = [int(i) for i in rng.permutation(len(errs))][: int(rng.integers(1, len(errs) + 1))]
        ps.run([errs[i] for i in order])
        case.check(values(ps) == [got[i] for i in order], "again", "%s instead of %s" % (values(ps), [got[i] for i in order]))


def made(case):
    """A series put together from models."""
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", npeaks=int(rng.integers(1, 4)), n=int(rng.integers(20, 60)))
    s.vars.pop("effective_dy", None)
    ppe = s.build()
    ppe.defaultvars()
    ps = gen.cls("PeakStability")()
    ps.setppe(ppe)
    n = int(rng.integers(0, 6)) if rng.random() < 0.3 else int(rng.integers(2, 7))
    errs = [float(v) for v in s.height * 10 ** rng.uniform(-3, 0, n)]
    lo, hi = max(ppe.x[0], ppe.rng[0]), min(ppe.x[-1], ppe.rng[1])
    own = ppe.baseline if hasattr(ppe.baseline, "estimate_parameters") else ppe.baseline.owner()
    m = own.npars
    for e in errs:
        peaks = gen.cls("Peaks")()
        for _ in range(int(rng.integers(0, 5))):
            f = ppe.pf[int(rng.integers(len(ppe.pf)))]
            if s.qmax and rng.random() < 0.5:
                f = gen.cls("TerminationRipples")(f, s.qmax)
            q = [float(rng.uniform(lo, hi)), 0.3 * float(rng.uniform(0.2, 0.9)), float(rng.uniform(0.1, 3))]
            peaks.append(f.actualize(q, "pwa", gen.mask(rng, 3, 0.4), bool(rng.random() < 0.6), bool(rng.random() < 0.2)))
        bl = None
        if rng.random() < 0.8:
            bl = own.actualize(list(rng.normal(size=m)), "internal", gen.mask(rng, m, 0.4), bool(rng.random() < 0.5), bool(rng.random() < 0.2))
        else:
            case.count("without baseline")
        ps.results.append([e, peaks, bl, float((hi - lo) / rng.uniform(8, 60))])
        case.count("made results")
    if n:
        ps.setcurrent(0)
        selected(case, ps, 0)
        sequence(case, ps)
        case.sig(values(ps))
    else:
        base = settings(ppe)
        name = os.path.join(os.environ["VERIF_SCRATCH"], "empty-%s-%d" % (case.index, os.getpid()))
        ps.save(name)
        other = gen.cls("PeakStability")()
        other.load(name)
        os.unlink(name)
        case.check(other.results == [] and other.current is None, "empty", "%s, %s" % (other.results, other.current))
        case.check(settings(other.ppe) == base, "loaded-settings", "%s instead of %s" % (settings(other.ppe), base))
        case.count("empty")


GROUPS = {
    "made": (360, 3000, made),
    "series": (96, 700, series),
}
