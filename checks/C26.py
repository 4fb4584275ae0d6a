"""C26: plots."""

import os
import sys

import numpy as np

from lib import extractions, gen
from lib.extractions import plain

TECHNIQUE = "independent evaluation of the model against the data of the real figure's artists, and by-value snapshots around every plot"
NOTE = "Seeded exploration of extractions run, made and only set up, series, options, comparison files, formats."
RULE = """Cases draw an extraction or a series, plot it with random options, and compare the artists of the figure with values computed
from the parameters. Non-trivial: something was drawn; distinguished by the plotted values."""
REQUIRED = {"figures": 150, "observed": 100, "fits": 100, "peaks drawn": 150, "residuals": 100, "comparisons": 60, "series": 30, "not run": 20, "scaled": 30, "commands": 30, "files": 20,
            "refused": 4, "simple plots": 60, "compare files": 40, "run after plot": 5, "clusters": 40, "styles": 60, "panels": 40}
CHUNK = {"run": 1}


def pyplot():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    return plt


class Line(tuple):
    """Points of a line, with its transparency."""


def lines(ax):
    out = []
    for a in ax.lines:
        out.append(Line((np.asarray(a.get_xdata(), float), np.ma.asarray(a.get_ydata()).astype(float))))
        out[-1].alpha = a.get_alpha()
    return out


SETTINGS = ("x", "y", "dx", "dy", "effective_dy", "rng", "cres", "qmax", "nyquist", "supersample", "scale", "qmax_fromdata", "qmax_reportedbypdf", "filename", "extraction_type")


def settings(e):
    out = [(k, np.asarray(getattr(e, k)).tolist()) for k in SETTINGS if hasattr(e, k)]
    out.append([extractions.describe(f) for f in e.pf or []])
    out.append(None if e.baseline is None else plain([e.baseline]) if hasattr(e.baseline, "pars") else extractions.describe(e.baseline))
    out.append(getattr(e.error_method, "__name__", None))
    out.append(None if e.initial_peaks is None else plain(e.initial_peaks))
    return out


def shown(e):
    """Everything that a plot must not change."""
    x = e.extracted
    return (settings(e), None if x is None else extractions.result(e), None if x is None else id(x))


def position(p):
    return float(p.owner().transform_parameters(p.pars.copy(), "internal", "pwa")[0])


def total(model, bl, r):
    out = np.zeros(len(r))
    if bl is not None:
        out = out + bl.value(r)
    for p in model:
        out = out + p.value(r)
    return out


def made(rng, s=None, ripples=0.3):
    """An extraction with a model that did not come from a run, and a plain description of it."""
    s = s or extractions.spec(rng, ext="PDFPeakExtraction" if rng.random() < 0.8 else None, npeaks=int(rng.integers(1, 4)), n=int(rng.integers(20, 90)))
    e = s.build()
    e.defaultvars()
    Mc = gen.cls("ModelCluster")
    lo, hi = s.limits()
    peaks = gen.cls("Peaks")()
    for _ in range(int(rng.choice([0, 1, 2, 3, 5]))):
        f = e.pf[int(rng.integers(len(e.pf)))]
        if s.qmax and f.base is None and rng.random() < ripples:
            f = gen.cls("TerminationRipples")(f, s.qmax)
        q = [float(rng.uniform(lo, hi)), 0.3 * float(rng.uniform(0.2, 0.9)), float(rng.uniform(0.1, 3))]
        peaks.append(f.actualize(q, "pwa", gen.mask(rng, 3, 0.4), bool(rng.random() < 0.6), False))
    peaks.sort(key="position")
    x, y, err = e.x, e.y, e.effective_dy
    if s.ext == "PDFPeakExtraction" and rng.random() < 0.6:
        x, y, _, err = e.resampledata((hi - lo) / int(rng.integers(15, 80)))
        sl = slice(0, len(x))
    else:
        sl = e.getrangeslice()
    e.extracted = Mc(peaks, e.baseline, np.array(x), np.array(y), np.array(err), sl, e.error_method, e.pf)
    e.extraction_type = "extract"
    return s, e


def near(a, b, size):
    return len(a) == len(b) and bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-7 * size + 1e-9 * np.abs(b)))


def comparison(case, ls, model, ip, base=0.0, yideal=-1.0, yext=1.0, pmin=-np.inf, pmax=np.inf):
    """One line for each position: from the base to the height of its kind."""
    got = {"found": [], "ideal": []}
    for x, y in ls:
        ok = np.isfinite(x) & np.isfinite(np.ma.filled(y, np.nan))
        # pieces
        i = 0
        while i < len(x):
            if not ok[i]:
                i += 1
                continue
            j = i
            while j < len(x) and ok[j]:
                j += 1
            if j - i == 2 and x[i] == x[i + 1]:
                a, b = sorted(float(v) - base for v in y[i:j])
                for kind, h in (("found", yext), ("ideal", yideal)):
                    u, v = sorted((0.0, h))
                    if abs(a - u) < 1e-9 and abs(b - v) < 1e-9:
                        got[kind].append(float(x[i]))
            i = j
    want = sorted(v for v in (position(p) for p in model) if pmin <= v <= pmax)
    case.check(sorted(got["found"]) == want, "compared-found", "%s instead of %s" % (got["found"], want))
    case.check(sorted(got["ideal"]) == sorted(ip or []), "compared-ideal", "%s instead of %s" % (got["ideal"], ip))
    case.count("comparisons")


def figure(case, fd, e, ext, ps, ip, kw):
    """The figure shows this model of this extraction."""
    rng = case.rng
    scale = kw.get("scale", 1.0)
    model, bl = list(ext.model), ext.baseline
    r = np.asarray(ext.r_data[ext.slice])
    y = np.asarray(ext.y_data[ext.slice])
    err = np.asarray(ext.y_error[ext.slice])
    res = scale * (y - total(model, bl, r) if not any(p.owner().base is not None for p in model) else ext.residual())
    size = scale * max(np.max(np.abs(y)), np.max(np.abs(total(model, bl, r))), 1e-6)
    xlo, xhi = kw.get("xlo", r[0]), kw.get("xhi", r[-1])
    ax = fd["data"]
    ls = lines(ax)
    case.check(tuple(np.allclose(a, b, rtol=1e-12, atol=1e-12) for a, b in zip(ax.get_xlim(), (xlo, xhi))) == (True, True), "xlim", "%s instead of %s" % (ax.get_xlim(), (xlo, xhi)))
    ylo, yhi = ax.get_ylim()
    # data
    mean = (e.x[-1] - e.x[0]) / (len(e.x) - 1)
    dr = (r[-1] - r[0]) / (len(r) - 1)
    def isobs(x, v):
        if len(x) < len(r) or x[0] > r[0] + 1e-9 or x[-1] < r[-1] - 1e-9:
            return False
        if x[0] - 1.01 * dr > min(xlo, r[0]) or x[-1] + 1.01 * dr < max(xhi, r[-1]):
            return False
        return near(np.ma.filled(v, np.nan), scale * (np.sinc((x[:, None] - e.x[None, :]) / mean) @ e.y), scale * np.max(np.abs(e.y)))
    n = sum(isobs(*l) for l in ls)
    if kw.get("show_observed", True):
        case.check(n >= 1, "observed", "no line shows the data")
        case.count("observed")
    # model
    inner = r[0], r[-1]
    def isfit(x, v):
        if len(x) < 2 * len(r) or abs(x[0] - inner[0]) > dr or abs(x[-1] - inner[1]) > dr:
            return False
        if any(p.owner().base is not None for p in model):
            return near(np.ma.filled(v, np.nan), scale * np.asarray(ext.value(x)), size)
        return near(np.ma.filled(v, np.nan), scale * total(model, bl, x), size)
    n = sum(isfit(*l) for l in ls)
    case.check((n >= 1) == bool(kw.get("show_fit", True)), "fit", "%d lines show the model" % n)
    if n:
        case.count("fits")
    # residual
    def isres(x, v):
        if len(x) != len(r) or not np.array_equal(x, r):
            return False
        m = kw.get("mask_residual", False)
        keep = np.ones(len(r), bool) if not m else np.abs(res) <= m
        got = np.ma.getmaskarray(v)
        if m and not np.array_equal(~got, keep) and not np.any(np.abs(np.abs(res) - m) < 1e-7 * size):
            return False
        both = keep & ~got
        d = np.ma.filled(v, np.nan)[both] - res[both]
        if len(d) == 0:
            return True
        if kw.get("resbase") is not None and abs(d[0] - kw["resbase"]) > 1e-7 * size + 1e-9 * abs(kw["resbase"]):
            return False
        return bool(np.all(np.abs(d - d[0]) <= 1e-7 * size + 1e-9 * abs(d[0])))
    found = [l for l in ls if isres(*l)]
    if kw.get("show_residual", True):
        case.check(len(found) >= 1, "residual", "no line shows the residual")
        case.count("residuals")
    # peaks
    polys = [p.vertices for c in ax.collections for p in c.get_paths() if len(p.vertices) > 3]
    case.check(len(polys) == (len(model) if kw.get("fill_individual", True) else 0), "filled", "%d for %d peaks" % (len(polys), len(model)))
    blv = lambda x: np.zeros(len(x)) if bl is None else bl.value(x)
    left = list(model)
    for v in polys:
        x = np.unique(v[:, 0])
        for p in left:
            a, b = scale * blv(x), scale * (blv(x) + p.value(x))
            ok = abs(x[0] - r[0]) <= dr and abs(x[-1] - r[-1]) <= dr
            at = np.searchsorted(x, v[:, 0])
            # each vertex on one of the two curves, and both covered
            ona = np.abs(v[:, 1] - a[at]) <= 1e-7 * size
            onb = np.abs(v[:, 1] - b[at]) <= 1e-7 * size
            if ok and np.all(ona | onb) and set(at[ona]) == set(range(len(x))) == set(at[onb]):
                left.remove(p)
                case.count("peaks drawn")
                break
        else:
            case.check(False, "filled-peak", "a filled area belongs to no peak")
    # styles, each with its own transparency
    for k, f, on in (("gobs_style", isobs, "show_observed"), ("gfit_style", isfit, "show_fit"), ("gres_style", isres, "show_residual")):
        if k in kw and kw.get(on, True):
            case.check(any(l.alpha == kw[k]["alpha"] for l in ls if f(*l)), "style-" + k, "%s" % [l.alpha for l in ls])
            case.count("styles")
    if "gind_style" in kw and polys:
        case.check([c.get_alpha() for c in ax.collections if len(c.get_paths()) and len(c.get_paths()[0].vertices) > 3] == len(polys) * [kw["gind_style"]["alpha"]], "style-gind_style")
    for k, panel, on in (("dg_style", "dg", True), ("ep_style", "cmp", True), ("ip_style", "cmp", ip is not None)):
        if k in kw and panel in fd and on:
            case.check(any(l.alpha == kw[k]["alpha"] for l in lines(fd[panel])), "style-" + k, "%s" % [l.alpha for l in lines(fd[panel])])
            case.count("styles")
    # layout: with the defaults everything is within the panel, the residual below the rest
    if not set(kw) & {"xlo", "xhi", "ylo", "yhi", "min_gr", "max_gr", "resbase", "mask_residual", "show_fit", "show_individual", "show_observed"} and size > 0:
        tol = 1e-6 * (yhi - ylo)
        upper = []
        for l in ls:
            if isobs(*l) or isfit(*l):
                upper.append(l[1])
        top = 1 - 0.01 * (kw.get("top_offset", 0.0) + kw.get("dg_height", 15.0 if ps is not None else 0.0) + kw.get("cmp_height", 15.0 if ip is not None else 7.5))
        if upper:
            case.check(max(np.max(v) for v in upper) <= ylo + top * (yhi - ylo) + tol, "above-panel", "%s above %s" % (max(np.max(v) for v in upper), ylo + top * (yhi - ylo)))
            if kw.get("show_residual", True):
                one = min(found, key=lambda l: np.max(l[1]))  # without a model the data are the residual, too
                low = np.min(one[1])
                case.check(low >= ylo - tol, "below-panel", "%s below %s" % (low, ylo))
                if not np.allclose(res, 0):
                    case.check(np.max(one[1]) <= min(np.min(v) for v in upper) + tol, "overlap", "the residual reaches %s, above %s" % (np.max(one[1]), [np.min(v) for v in upper]))
        case.count("layouts")
    # comparison
    h = kw.get("cmp_height", 15.0 if ip is not None else 7.5)
    case.check(("cmp" in fd) == (h > 0), "comparison-panel")
    if h > 0:
        comparison(case, lines(fd["cmp"]), model, ip)
        case.check(np.allclose(fd["cmp"].get_xlim(), (xlo, xhi)), "comparison-limits", "%s" % (fd["cmp"].get_xlim(),))
        labels = [t.get_text() for t in fd["cmp"].get_yticklabels()]
        want = ([kw.get("yideal_label", "ideal")] if ip is not None else []) + [kw.get("yext_label", "found")]
        case.check(labels == want, "comparison-labels", "%s instead of %s" % (labels, want))
    # series
    h = kw.get("dg_height", 15.0 if ps is not None else 0.0)
    case.check(("dg" in fd) == (h > 0), "series-panel")
    if h > 0:
        got = sorted((float(a), float(b)) for x, v in lines(fd["dg"]) for a, b in zip(x, v))
        want = []
        lim = kw.get("dgmin", ps.results[0][0]), kw.get("dgmax", ps.results[-1][0])
        for dg, peaks, _, _ in ps.results:
            if lim[0] <= dg <= lim[1]:
                want += [(position(p), dg * scale) for p in peaks if r[0] <= position(p) <= r[-1]]
        want.sort()
        case.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-9), "series-points", "%s instead of %s" % (got, want))
        case.count("series")
    # texts
    texts = [t.get_text() for a in fd["fig"].axes for t in a.texts]
    if kw.get("show_annotation", True) and ("cmp" in fd):
        want = kw.get("dgformatstr", r"$\delta$g=%f") % (scale * np.mean(err))
        if "dgformatpost" in kw:
            want = kw["dgformatpost"](want)
        case.check(want in texts, "annotation", "%r in %s" % (want, texts))
    elif not kw.get("show_annotation", True):
        case.check(not any("delta" in t and "=" in t for t in texts), "no-annotation", "%s" % texts)
    if kw.get("datalabel") is not None:
        case.check(kw["datalabel"] in texts and fd["datalabel"].get_text() == kw["datalabel"], "label")
    else:
        case.check(fd["datalabel"] is None, "no-label")
    for k, d in (("xlabel", r"r ($\mathrm{\AA}$)"), ("ylabel", r"G ($\mathrm{\AA^{-2}}$)")):
        case.check(kw.get(k, d) in [ax.get_xlabel(), ax.get_ylabel()] + texts, k)
    if scale != 1.0:
        case.count("scaled")
    case.count("figures")


def options(rng, e, ext, ps, ip):
    kw = {}
    r = ext.r_cluster
    w = r[-1] - r[0]
    def some(p):
        return rng.random() < p
    if some(0.25):
        kw["scale"] = float(10 ** rng.uniform(-1, 1))
    if some(0.15):
        kw["xlo"] = float(max(e.x[0], r[0] + w * rng.uniform(-0.2, 0.2)))
    if some(0.15):
        kw["xhi"] = float(min(e.x[-1], r[-1] + w * rng.uniform(-0.2, 0.2)))
    for k in ("show_fit", "show_individual", "fill_individual", "show_observed", "show_residual", "show_annotation"):
        if some(0.12):
            kw[k] = bool(some(0.3))
    if not any(kw.get(k, True) for k in ("show_fit", "show_individual", "show_observed")):
        kw["show_observed"] = True
    for k in ("top_offset", "datatop_offset", "databottom_offset", "bottom_offset", "cmp_height"):
        if some(0.12):
            kw[k] = float(rng.uniform(0, 12))
    if some(0.1):
        kw["cmp_height"] = 0.0
    if ps is not None and some(0.15):
        kw["dg_height"] = float(rng.choice([0.0, rng.uniform(5, 25)]))
    if ps is not None and some(0.3):
        kw[["dgmin", "dgmax"][rng.integers(2)]] = float(ps.results[int(rng.integers(len(ps.results)))][0] * rng.choice([1.0, 0.9, 1.1]))
    if some(0.1):
        kw["mask_residual"] = float(10 ** rng.uniform(-2, 1) * (np.max(e.y) - np.min(e.y)))
    if some(0.1):
        kw["resbase"] = float(rng.normal() * np.max(np.abs(e.y)))
    for k in ("gobs_style", "gfit_style", "gres_style", "gind_style", "dg_style", "ep_style", "ip_style"):
        if some(0.15):
            kw[k] = {"alpha": float(rng.uniform(0.1, 1))}
    if some(0.1):
        kw["datalabel"] = "data of case"
    if some(0.1):
        kw["xlabel"] = "distance"
    if some(0.1):
        kw["ylabel"] = "signal"
    if some(0.15):
        kw["yext_label"] = "extracted"
    if some(0.15):
        kw["yideal_label"] = "known"
    if some(0.15):
        kw["dgformatstr"] = "$\\delta$ is = %.3f!"
    if some(0.15):
        kw["dgformatpost"] = lambda t: t.replace("=", " = ")
    return kw


def subject(case, what):
    """(extraction, series or None)"""
    rng = case.rng
    if what == "notrun":
        s = extractions.spec(rng, ext="PDFPeakExtraction", npeaks=int(rng.integers(1, 4)), n=int(rng.integers(20, 60)), initial=0.7)
        return s, s.build(), None
    if what == "run":
        s = extractions.spec(rng, ext="PDFPeakExtraction", npeaks=int(rng.integers(1, 3)), n=int(rng.integers(25, 50)))
        e = s.build()
        s.do(e)
        return s, e, None
    s, e = made(rng)
    while what == "made" and np.ptp(np.diff(s.x)) > 1e-9:  # resampling is for evenly spaced data
        s, e = made(rng)
    if what == "series":
        while s.ext != "PDFPeakExtraction":
            s, e = made(rng)
        ps = gen.cls("PeakStability")()
        ps.setppe(e)
        lo, hi = s.limits()
        for v in np.sort(s.height * 10 ** rng.uniform(-3, 0, int(rng.integers(1, 6)))):
            peaks = gen.cls("Peaks")()
            for _ in range(int(rng.integers(0, 4))):
                f = e.pf[int(rng.integers(len(e.pf)))]
                w = hi - lo
                q = [float(rng.uniform(lo - 0.2 * w, hi + 0.2 * w)), 0.3 * float(rng.uniform(0.2, 0.9)), float(rng.uniform(0.1, 3))]
                q[0] = max(q[0], 0.1)
                peaks.append(f.actualize(q, "pwa", gen.mask(rng, 3, 0.4), True, False))
            peaks.sort(key="position")
            ps.results.append([float(v), peaks, e.baseline.copy() if rng.random() < 0.8 else None, float(w_step(rng, lo, hi))])
        e.clearcalc()
        if rng.random() < 0.9:
            ps.setcurrent(int(rng.integers(len(ps.results))))
        return s, e, ps
    return s, e, None


def w_step(rng, lo, hi):
    return (hi - lo) / rng.uniform(10, 60)


def ideal(rng, e):
    if rng.random() < 0.5:
        return None
    return [float(v) for v in np.sort(rng.uniform(e.x[0], e.x[-1], int(rng.integers(1, 6))))]


def cluster_of(e):
    """The model that a plot shows: the extracted one, or the initial peaks."""
    if e.extracted is not None:
        return e.extracted
    lo, hi = e.rng
    i = np.flatnonzero((e.x >= lo) & (e.x <= hi))
    s = slice(int(i[0]), int(i[-1]) + 1)
    return gen.cls("ModelCluster")(e.initial_peaks.copy(), e.baseline.copy(), e.x[s].copy(), e.y[s].copy(), e.effective_dy[s].copy(), None, e.error_method, e.pf)


def draw(case, what):
    rng = case.rng
    plt = pyplot()
    from diffpy.srmise.applications import plot as P

    s, e, ps = subject(case, what)
    ip = ideal(rng, e)
    fresh = None
    if e.extracted is None and ps is None:
        fresh = s.build()
        fresh.defaultvars()
        case.count("not run")
    try:
        ref = cluster_of(e if e.extracted is not None else (fresh or e))
        kw = options(rng, e, ref, ps, ip)
        given = None if ip is None else list(ip)
        before = shown(e)
        results = None if ps is None else [(r[0], plain(r[1]), None if r[2] is None else plain([r[2]]), r[3]) for r in ps.results]
        fd = P.makeplot(e if ps is None else ps, given, **kw)
        fd["fig"].canvas.draw()
        figure(case, fd, e, ref, ps, ip, kw)
        case.check(given == ip, "ideal-kept")
        if fresh is None:
            case.check(shown(e) == before, "kept", "%s became %s" % (before, shown(e)))
        else:
            case.check(e.extracted is None, "not-extracted")
            case.check(settings(e) == settings(fresh), "defaults", "%s instead of %s" % (settings(e), settings(fresh)))
        if ps is not None:
            case.check(results == [(r[0], plain(r[1]), None if r[2] is None else plain([r[2]]), r[3]) for r in ps.results], "series-kept")
        if rng.random() < 0.3:  # the same again, whatever has been drawn before
            fe = P.makeplot(e if ps is None else ps, given, **kw)
            figure(case, fe, e, ref, ps, ip, kw)
        if fresh is not None:
            case.check(settings(e) == settings(fresh), "defaults-again")
            if rng.random() < 0.3:  # a run after the plot does what it does without
                a, b = s.build(), e
                s.do(a)
                s.do(b)
                case.check(extractions.result(a) == extractions.result(b), "run-after", "%s instead of %s" % (extractions.result(b), extractions.result(a)))
                case.count("run after plot")
        case.sig([[x.tolist(), np.ma.filled(y, np.nan).tolist()] for x, y in lines(fd["data"])])
        case.note(options={k: v for k, v in kw.items() if not callable(v)}, peaks=len(ref.model), ideal=ip)
    finally:
        plt.close("all")
        P.labeldict.clear()
        P._lastxpos.clear()


def mademodel(case):
    draw(case, "made")


def notrun(case):
    draw(case, "notrun")


def ran(case):
    draw(case, "run")


def series(case):
    draw(case, "series")


def panels(case):
    """Positions and series on axes of one's own."""
    rng = case.rng
    plt = pyplot()
    from diffpy.srmise.applications import plot as P

    s, e, ps = subject(case, "series")
    try:
        fig, axs = plt.subplots(1, 3)
        plt.sca(axs[2])
        ax = axs[int(rng.integers(3))]
        kw = {"ax": ax} if ax is not axs[2] or rng.random() < 0.5 else {}
        lo, hi = s.limits()
        if rng.random() < 0.5:
            kw["pmin"] = float(lo + (hi - lo) * rng.uniform(0, 0.5))
        if rng.random() < 0.5:
            kw["pmax"] = float(lo + (hi - lo) * rng.uniform(0.5, 1))
        at = [position(p) for r in ps.results for p in r[1]]
        if at and rng.random() < 0.3:  # limits belong to the range
            kw[["pmin", "pmax"][rng.integers(2)]] = at[int(rng.integers(len(at)))]
        if ps.current is not None and rng.random() < 0.5:
            for k in ("base", "yideal", "yext"):
                if rng.random() < 0.5:
                    kw[k] = float({"base": rng.normal(), "yideal": -rng.uniform(0.1, 3), "yext": rng.uniform(0.1, 3)}[k])
            ip = ideal(rng, e)
            P.comparepositions(e.extracted, ip, **kw)
            comparison(case, lines(ax), e.extracted.model, ip, **{k: v for k, v in kw.items() if k != "ax"})
            b = kw.get("base", 0.0)
            want = (b + kw.get("yideal", -1.0) if ip is not None else b, b + kw.get("yext", 1.0))
            case.check(np.allclose(ax.get_ylim(), want), "compared-limits", "%s instead of %s" % (ax.get_ylim(), want))
        else:
            scale = float(10 ** rng.uniform(-1, 1)) if rng.random() < 0.5 else 1.0
            if scale != 1.0:
                kw["scale"] = scale
            P.dgseries(ps, **kw)
            got = sorted((float(a), float(b)) for x, v in lines(ax) for a, b in zip(x, v))
            want = sorted((position(p), r[0] * scale) for r in ps.results for p in r[1] if kw.get("pmin", 0.0) <= position(p) <= kw.get("pmax", np.inf))
            case.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-9), "series-points", "%s instead of %s" % (got, want))
        case.check(all(len(a.lines) == 0 for a in axs if a is not ax), "other-axes", "%s" % [len(a.lines) for a in axs])
        case.check(plt.gca() is axs[2], "current-axes")
        case.count("panels")
        case.sig([[x.tolist(), np.ma.filled(y, np.nan).tolist()] for x, y in lines(ax)])
    finally:
        plt.close("all")


def simple(case):
    """The convenience plots of the classes."""
    rng = case.rng
    plt = pyplot()
    s, e = made(rng)
    if rng.random() < 0.4:
        e = s.build()
    try:
        joined = bool(rng.random() < 0.5)
        fresh = None
        if e.extracted is None:
            fresh = s.build()
            fresh.defaultvars()
        ref = cluster_of(fresh or e)
        before = shown(e)
        e.plot(**({"joined": joined} if joined or rng.random() < 0.5 else {}))
        ls = lines(plt.gca())
        r, y = np.asarray(ref.r_data[ref.slice]), np.asarray(ref.y_data[ref.slice])
        bl = np.zeros(len(r)) if ref.baseline is None else ref.baseline.value(ref.r_data)[ref.slice]
        own = [p.value(ref.r_data, ref.slice)[ref.slice] for p in ref.model]
        want = [y, bl + np.sum(own, axis=0)] if joined else [y] + [bl + v for v in own]
        size = max(np.max(np.abs(v)) for v in want) + 1e-9
        case.check(len(ls) == len(want), "lines", "%d instead of %d" % (len(ls), len(want)))
        for (gx, gy), w in zip(ls, want):
            case.check(np.array_equal(gx, r) and near(np.ma.filled(gy, np.nan), w, size), "line", "%s instead of %s" % (gy, w))
        if fresh is None:
            case.check(shown(e) == before, "kept", "%s became %s" % (before, shown(e)))
            gr, gres = e.extracted.plottable_residual()
            case.check(np.array_equal(gr, r) and near(gres, y - bl - np.sum(own, axis=0), size), "plottable-residual")
        else:
            case.check(e.extracted is None and settings(e) == settings(fresh), "defaults", "%s instead of %s" % (settings(e), settings(fresh)))
        case.count("simple plots")
        case.sig([v.tolist() for v in want])
    finally:
        plt.close("all")


def clusters(case):
    """Plots and animations of a clustering."""
    rng = case.rng
    plt = pyplot()
    n = int(rng.integers(4, 40))
    x = np.sort(rng.uniform(0, 10, n)) + 1e-6 * np.arange(n)
    y = np.abs(rng.normal(size=n)) + 0.01
    d = gen.cls("DataClusters")(x, y, float(rng.uniform(0.2, 3)))
    steps = int(rng.integers(0, n + 1))
    for _ in range(steps):
        try:
            next(d)
        except StopIteration:
            break
    try:
        def state():
            return (np.asarray(d.clusters).tolist(), d.current_idx, d.lastcluster_idx, d.lastpoint_idx, d.status, d.x.tolist(), d.y.tolist())
        before = state()
        if len(d.clusters) and rng.random() < 0.7:
            d.plot("b-")
            ls = lines(plt.gca())
            case.check(any(np.array_equal(a, x) and np.array_equal(b, y) for a, b in ls), "cluster-data")
            at = sorted({float(a[0]) for a, b in ls if len(a) == 2 and a[0] == a[1]})
            want = sorted({float(b[0]) for b in d.cluster_boundaries()})
            case.check(np.allclose(at, want) if len(at) == len(want) else False, "cluster-boundaries", "%s instead of %s" % (at, want))
        else:
            d.animate()
        case.check(state() == before, "cluster-state", "%s became %s" % (before, state()))
        case.count("clusters")
        case.sig(before)
        rest, other = [], gen.cls("DataClusters")(x, y, d.res)
        for _ in other:
            pass
        for _ in d:
            pass
        case.check(np.array_equal(d.clusters, other.clusters), "cluster-goes-on", "%s instead of %s" % (d.clusters, other.clusters))
    finally:
        plt.close("all")


def command(case):
    """The plotting program."""
    rng = case.rng
    plt = pyplot()
    from diffpy.srmise.applications import plot as P

    kind = ["extraction", "extraction", "series", "series", "bad"][rng.integers(5)]
    s, e, ps = subject(case, "series" if kind == "series" else "made")
    while kind == "extraction" and s.ext != "PDFPeakExtraction":
        s, e, ps = subject(case, "made")
    d = os.environ["VERIF_SCRATCH"]
    tag = os.path.join(d, "plot-%s-%d" % (case.index, os.getpid()))
    name, out, cmpf = tag + ".in", tag + ".out", tag + ".cmp"
    argv = ["srmise-plot", name]
    sel, ip = 0, None
    try:
        if kind == "extraction":
            e.write(name)
        elif kind == "series":
            ps.save(name)
        else:
            with open(name, "w") as f:
                f.write(["hello\nworld\n", "", "1 2 3\n4 5 x\n"][rng.integers(3)])
        if rng.random() < 0.5:
            ip = [float(v) for v in np.sort(rng.uniform(e.x[0], e.x[-1], int(rng.integers(1, 6))))]
            with open(cmpf, "w") as f:
                f.write("# distances\n" * int(rng.integers(0, 3)) + "".join("%r\n" % v for v in ip))
            argv += [["--compare", cmpf], ["--compare=" + cmpf]][rng.integers(2)]
        if rng.random() < 0.5:
            sel = int(rng.integers(len(ps.results))) if ps is not None else int(rng.integers(3))
            argv += ["--model", str(sel)]
        fmt = None
        if rng.random() < 0.5:
            fmt = ["eps", "png", "pdf", "svg"][rng.integers(4)]
            argv += [["-o", out], ["--output", out]][rng.integers(2)] + (["--format", fmt] if fmt != "eps" or rng.random() < 0.5 else [])
        argv = argv[:1] + argv[2:] + [name] if rng.random() < 0.3 else argv
        old = sys.argv
        made_figs = []
        keep = P.makeplot

        def watch(*a, **k):
            made_figs.append((a, keep(*a, **k)))
            return made_figs[-1][1]

        P.makeplot = watch
        dpi = plt.savefig
        plt.savefig = lambda *a, **k: dpi(*a, **dict(k, dpi=60))  # the resolution is of no interest, the time it takes is
        sys.argv = argv
        try:
            P.main()
        finally:
            sys.argv = old
            P.makeplot = keep
            plt.savefig = dpi
        if kind == "bad":
            case.check(made_figs == [] and not os.path.exists(out), "bad-file")
            case.count("refused")
            return
        (subj, *_), fd = made_figs[0][0], made_figs[0][1]
        shown_e = subj if ps is None else subj.ppe
        ref = shown_e.extracted
        if ps is not None:
            ps.setcurrent(sel)
            ref2 = ps.ppe.extracted
            case.check(subj.current == sel, "model", "%s instead of %s" % (subj.current, sel))
        else:
            ref2 = e.extracted
        case.check(plain(ref.model) == plain(ref2.model), "model-peaks", "%s instead of %s" % (plain(ref.model), plain(ref2.model)))
        figure(case, fd, e, ref2, ps, ip, {})
        case.count("commands")
        if fmt is not None:
            with open(out, "rb") as f:
                head = f.read(400)
            mark = {"eps": b"%!PS-Adobe", "png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<svg"}[fmt]
            case.check(head.startswith(mark) if fmt != "svg" else b"<?xml" in head, "format", "%r" % head[:20])
            case.count("files")
        case.sig([argv[2:], plain(ref.model)])
    finally:
        plt.close("all")
        P.labeldict.clear()
        P._lastxpos.clear()
        for f in (name, out, cmpf):
            if os.path.exists(f):
                os.unlink(f)


def compare(case):
    """Files of distances."""
    rng = case.rng
    from diffpy.srmise.applications import plot as P

    name = os.path.join(os.environ["VERIF_SCRATCH"], "compare-%s-%d" % (case.index, os.getpid()))
    vals = [float(v) for v in 10 ** rng.uniform(-2, 2, int(rng.integers(1, 8)))]
    form = ["%r", "%.4f", "%e", "  %r  ", "%g"][rng.integers(5)]
    body = [form % v for v in vals]
    bad = rng.random() < 0.25
    if bad:
        body.insert(int(rng.integers(len(body) + 1)), ["abc", "1.0 2.0", "1,5"][rng.integers(3)])
    text = "# a comment\n" * int(rng.integers(0, 3)) + "\n".join(body) + "\n" * int(rng.integers(0, 3))
    try:
        with open(name, "w") as f:
            f.write(text)
        got = P.readcompare(name)
        if bad:
            case.check(got is None, "bad-distances", "%s from %r" % (got, text))
        else:
            case.check(got == [float(b) for b in body], "distances", "%s from %r" % (got, text))
            with open(name) as f:
                case.check(f.read() == text, "file-kept")
        case.count("compare files")
        case.sig(text)
        os.unlink(name)
        case.raises(OSError, lambda: P.readcompare(name), "missing-file")
    finally:
        if os.path.exists(name):
            os.unlink(name)


GROUPS = {
    "made": (300, 3000, mademodel),
    "notrun": (150, 1200, notrun),
    "run": (48, 400, ran),
    "series": (200, 2000, series),
    "panels": (240, 2000, panels),
    "simple": (360, 4000, simple),
    "clusters": (200, 2000, clusters),
    "command": (200, 1600, command),
    "compare": (240, 1000, compare),
}
