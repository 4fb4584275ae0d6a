"""C18: settings, defaults and range of extractions."""

import numpy as np

from lib import extractions, gen

TECHNIQUE = "reference model of settings and defaults beside random histories of real set and default calls, and monitors of the data real extractions used"
NOTE = "Seeded exploration of data, histories of settings (given, unset and restored, in both classes), ranges and small extractions."
RULE = """Cases draw data and a history of settings applied to a real extraction object and to a reference model. Non-trivial:
at least one setting was given and one defaulted; distinguished by the final settings."""
REQUIRED = {"histories": 100, "defaults restored": 100, "ranges": 200, "scalar uncertainty": 30, "estimated baselines": 30, "baselines not estimated": 10, "rejected": 200, "automatic qmax": 10,
            "used": 10, "reported qmax": 10, "recursions": 8, "judges and estimators seen": 8, "resolutions seen": 8}
CHUNK = {"used": 1}
NAMES = ("effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method")
PDFNAMES = ("qmax", "supersample", "nyquist", "scale")


def data(rng, n=None, rippled=None):
    n = int(rng.integers(2, 150)) if n is None else n
    x = float(rng.uniform(0.1, 3)) + float(10 ** rng.uniform(-2, -0.5)) * np.arange(n)
    if rng.random() < 0.3:
        x = x[0] + np.cumsum(np.diff(x, prepend=x[0]) * rng.uniform(0.3, 1.7, n))
    y = rng.normal(size=n) * 10 ** rng.uniform(-1, 2)
    dy = [None, rng.uniform(0.1, 1, n), np.where(rng.random(n) < 0.1, 0.0, rng.uniform(0.1, 1, n)), np.zeros(n), list(rng.uniform(0.1, 1, n))][rng.integers(5)]
    return x, y, dy


class Model:
    """What the settings should be, by the rules."""

    def __init__(self, e, pdf, reported=None):
        self.e, self.pdf = e, pdf
        self.v = dict.fromkeys(NAMES + (PDFNAMES if pdf else ()))
        self.x, self.y, self.dy = e.x, e.y, e.dy
        self.reported = reported

    def none(self):
        return ("part", "Polynomial", -1, [])

    def apply(self, kw):
        kw = dict(kw)
        if "dg" in kw:
            kw["effective_dy"] = kw.pop("dg")
        if isinstance(kw.get("qmax"), str):
            kw["qmax"] = self.e.qmax_fromdata
        for k, v in kw.items():
            self.v[k] = v
        self.default(())

    def default(self, names):
        v = self.v
        names = ["effective_dy" if n == "dg" else n for n in names]
        unset = lambda k: v[k] is None or k in names
        if self.pdf:
            if unset("qmax"):
                v["qmax"] = self.reported if self.reported is not None else self.e.qmax_fromdata if self.e.qmax_fromdata is not None else 0.0
            if unset("nyquist"):
                v["nyquist"] = bool(v["qmax"] > 0)
            if unset("scale"):
                v["scale"] = False
            if unset("supersample"):
                v["supersample"] = 4.0
        if unset("cres"):
            v["cres"] = np.pi / v["qmax"] if self.pdf and v["qmax"] > 0 else 4 * (self.x[-1] - self.x[0]) / len(self.x)
        if unset("effective_dy"):
            v["effective_dy"] = self.dy if np.all(self.dy > 0) else 0.05 * (self.y.max() - self.y.min()) * np.ones(len(self.x))
        elif np.ndim(v["effective_dy"]) == 0:
            v["effective_dy"] = float(v["effective_dy"]) * np.ones(len(self.x))
        if unset("pf"):
            v["pf"] = ("default", 0.7 if self.pdf else self.x[-1] - self.x[0])
        if unset("rng"):
            v["rng"] = [None, None]
        v["rng"] = [w if w is not None else self.x[i] for w, i in zip(v["rng"], (0, -1))]
        b = v["baseline"]
        if unset("baseline"):
            v["baseline"] = self.none()
        elif hasattr(b, "estimate_parameters"):
            m = self.mask()
            try:
                v["baseline"] = ("part", type(b).__name__, getattr(b, "degree", None), list(b.estimate_parameters(self.x[m], self.y[m])))
            except Exception:
                v["baseline"] = self.none()
        if unset("error_method"):
            v["error_method"] = gen.cls("AIC")
        if unset("initial_peaks"):
            v["initial_peaks"] = []

    def mask(self):
        lo, hi = self.v["rng"]
        return (self.x >= lo) & (self.x <= hi)

    def audit(self, case, key, detail):
        e, v = self.e, self.v
        for k in v:
            got, want = getattr(e, k), v[k]
            if k == "effective_dy":
                ok = isinstance(got, np.ndarray) and np.allclose(got, want, rtol=1e-12, atol=0)
            elif k == "pf":
                ok = (len(got) == 1 and type(got[0]).__name__ == "GaussianOverR" and np.isclose(got[0].maxwidth, want[1], rtol=1e-12)) if isinstance(want, tuple) else got is want or (
                    len(got) == len(want) and all(a is b for a, b in zip(got, want)))
            elif k == "baseline":
                if isinstance(want, tuple):
                    o = got.owner()
                    ok = type(o).__name__ == want[1] and getattr(o, "degree", None) == want[2] and np.allclose(got.pars, want[3], rtol=1e-9) and len(got.pars) == len(want[3])
                else:
                    ok = got is want
            elif k == "initial_peaks":
                ok = len(got) == len(want) and all(a is b for a, b in zip(got, want)) and hasattr(got, "copy") and type(got).__name__ == "Peaks"
            elif k == "rng":
                ok = len(got) == 2 and got[0] == want[0] and got[1] == want[1]
            elif k == "error_method":
                ok = got is want
            elif k == "cres":
                ok = np.isclose(got, want, rtol=1e-12) or (np.isclose(want, 4 * (self.x[-1] - self.x[0]) / len(self.x)) and want <= got <= 4 * (self.x[-1] - self.x[0]) / (len(self.x) - 1))
            else:
                ok = got == want and isinstance(got, (bool, np.bool_)) == isinstance(want, (bool, np.bool_))
            case.check(bool(ok), "%s:%s" % (key, k), "%s: %s is %r, expected %r" % (detail, k, got, want))


def value(rng, k, e):
    n = len(e.x)
    w = e.x[-1] - e.x[0]
    if k == "effective_dy":
        return [float(rng.uniform(0.01, 2)), rng.uniform(0.01, 2, n), int(rng.integers(1, 4)), np.float64(rng.uniform(0.1, 1))][rng.integers(4)]
    if k == "rng":
        a, b = sorted(rng.uniform(e.x[0] - 0.3 * w, e.x[-1] + 0.3 * w, 2))
        a, b = min(a, e.x[0] + 0.6 * w), max(b, e.x[0] + 0.61 * w)
        if rng.random() < 0.3:
            a, b = e.x[n // 4], e.x[-1 - n // 5]
        return [[a, b], [None, b], [a, None], [None, None], (a, b), np.array([a, b])][rng.integers(6)]
    if k == "pf":
        return [gen.cls("GaussianOverR")(0.5), gen.cls("Gaussian")(1.0)][: int(rng.integers(1, 3))]
    if k == "initial_peaks":
        f = gen.cls("Gaussian")(1.0)
        return gen.cls("Peaks")([f.actualize([2.0, 0.5, 1.0], "pwa") for _ in range(rng.integers(0, 3))])
    if k == "baseline":
        return [gen.cls("Polynomial")(int(rng.integers(0, 4))), gen.cls("Polynomial")(1).actualize([1.0, 2.0], "internal"), gen.cls("NanoSpherical")(),
                gen.cls("Polynomial")(-1), gen.cls("Polynomial")(1), gen.cls("FromSequence")([0.0, 1, 2, 3, 4, 60], [0.0, 1, 0, 2, 1, 3])][rng.integers(6)]
    if k == "cres":
        return float(rng.uniform(0.01, 2))
    if k == "error_method":
        return gen.cls(["AIC", "AICc"][rng.integers(2)])
    if k == "qmax":
        return [float(rng.uniform(1, 40)), 0.0][int(rng.random() < 0.2)]
    if k == "supersample":
        return float(rng.uniform(1, 8)) if rng.random() < 0.9 else 1.0
    return bool(rng.random() < 0.5)


def histories(case):
    rng = case.rng
    pdf = bool(rng.random() < 0.7)
    x, y, dy = data(rng)
    e = gen.cls("PDFPeakExtraction" if pdf else "PeakExtraction")()
    reported = None
    if pdf and rng.random() < 0.3 and len(x) > 2:
        # data from a PDF, with the cut-off it reports
        pd = gen.cls("PDFDataSet")("test")
        reported = [float(np.round(rng.uniform(5, 40), 2)), 0.0][int(rng.random() < 0.3)]
        head = "qmax=%.2f\n" % reported if reported else ""
        pd.readStr(head + "#### start data\n" + "".join("%.10g %.10g\n" % t for t in zip(x, y)))
        e.loadpdf(pd)
        case.count("reported qmax")
    else:
        dx = [None, rng.uniform(0.1, 1, len(x))][rng.integers(2)]
        given = [None if a is None else (list if rng.random() < 0.2 else np.array)(a) for a in (x, y, dx, dy)]
        e.setdata(*given)
        want = [np.zeros(len(x)) if a is None else np.array(a) for a in (x, y, dx, dy)]
        for a in given:  # what is done to the sequences afterwards does not matter
            if a is not None:
                a[int(rng.integers(len(a)))] += 1.0
        for k, w in zip(("x", "y", "dx", "dy"), want):
            case.check(isinstance(getattr(e, k), np.ndarray) and np.array_equal(getattr(e, k), w), "own-data", "%s: %s instead of %s" % (k, getattr(e, k), w))
    case.check(all(getattr(e, k) is None for k in NAMES + (PDFNAMES if pdf else ())), "unset")
    m = Model(e, pdf, reported)
    names = list(NAMES + (PDFNAMES if pdf else ()))
    log = []
    for _ in range(int(rng.integers(1, 6))):
        if log and rng.random() < 0.4:
            some = tuple(str(k) for k in rng.permutation(names)[: [0, 1, 1, 2, 3][rng.integers(5)]])
            if pdf and "effective_dy" in some and rng.random() < 0.5:
                some = tuple("dg" if k == "effective_dy" else k for k in some)
            e.defaultvars(*some)
            m.default(some)
            log.append(("default", some))
            case.count("defaults restored", len(some))
        else:
            some = [str(k) for k in rng.permutation(names)[: int(rng.integers(0, 5)) if rng.random() < 0.7 else len(names)]]
            kw = {k: None if rng.random() < 0.1 and k != "supersample" else value(rng, k, e) for k in some}
            if pdf and "effective_dy" in kw and rng.random() < 0.5:
                kw["dg"] = kw.pop("effective_dy")
            if pdf and e.qmax_fromdata is not None and rng.random() < 0.1:
                kw["qmax"] = "automatic"
                case.count("automatic qmax")
            if np.ndim(kw.get("effective_dy", kw.get("dg", []))) == 0:
                case.count("scalar uncertainty")
            b = kw.get("baseline")
            log.append(kw)
            quiet = bool(rng.random() < 0.5)
            e.setvars(quiet=quiet, **kw)
            m.apply(kw)
            if hasattr(b, "estimate_parameters"):
                case.count("baselines not estimated" if m.v["baseline"] == m.none() and getattr(b, "degree", None) != -1 else "estimated baselines")
        m.audit(case, "setting", "%s of %s" % (log[-1], "PDF" if pdf else "data"))
        case.check(e.x is m.x and e.y is m.y and e.dy is m.dy, "data-kept")
        case.check(e.extracted is None, "no-extraction")
    case.count("histories")
    case.sig(repr(log)[:3000])
    case.note(log=log, final=m.v)
    # settings are those of this object only, and clearing forgets them
    other = type(e)()
    case.check(all(getattr(other, k) is None for k in names), "own-settings")
    e.clear()
    case.check(all(getattr(e, k) is None for k in names + ["x", "y", "dx", "dy", "extracted"]), "cleared")


def ranges(case):
    rng = case.rng
    for _ in range(6):
        x, y, dy = data(rng, n=int(rng.integers(2, 60)))
        if rng.random() < 0.3:  # positions about zero
            x = x - x[rng.integers(len(x))]
        e = gen.cls(["PDFPeakExtraction", "PeakExtraction"][rng.integers(2)])()
        e.setdata(x, y, None, dy)
        w = x[-1] - x[0]
        lo = [float(rng.uniform(x[0] - w, x[-1])), float(x[rng.integers(len(x))]), None, -np.inf, float(np.nextafter(x[rng.integers(len(x))], [np.inf, -np.inf][rng.integers(2)]))][rng.integers(5)]
        lo = [0.0, 0][rng.integers(2)] if x[0] <= 0 and rng.random() < 0.4 else lo
        hi = [float(rng.uniform(x[0], x[-1] + w)), float(x[rng.integers(len(x))]), None, np.inf, float(np.nextafter(x[rng.integers(len(x))], [np.inf, -np.inf][rng.integers(2)]))][rng.integers(5)]
        hi = [0.0, 0][rng.integers(2)] if x[0] <= 0 and rng.random() < 0.3 else hi
        a, b = x[0] if lo is None else lo, x[-1] if hi is None else hi
        if a > x[-1] or b < x[0] or a > b:
            continue
        limits = [lo, hi]
        e.setvars(quiet=True, rng=limits)
        case.check(limits[0] is lo and limits[1] is hi and len(limits) == 2, "limits-as-given", "%s instead of %s" % (limits, [lo, hi]))
        m = (x >= a) & (x <= b)
        s = e.getrangeslice()
        case.check(np.array_equal(x[s], x[m]), "points-in-range", "[%r, %r] of %s..%s takes %s, expected %s" % (lo, hi, x[0], x[-1], x[s], x[m]))
        case.count("ranges")


def rejected(case):
    from diffpy.srmise.srmiseerrors import SrMiseQmaxError

    rng = case.rng
    x, y, dy = data(rng, n=int(rng.integers(3, 40)))
    n = len(x)
    for name in ("PDFPeakExtraction", "PeakExtraction"):
        e = gen.cls(name)()
        e.setdata(x, y, None, dy)
        pdf = name[:3] == "PDF"
        bad = ["", "Rng", "range", "qmin", "x", "extracted", "effective_dY", "quality"] + ([] if pdf else ["qmax", "nyquist", "dg", "supersample", "scale"])
        k = bad[rng.integers(len(bad))]
        case.raises(ValueError, lambda: e.setvars(quiet=True, **{k: 1.0}), "unknown", k)
        case.count("rejected")
        if pdf:
            case.raises(ValueError, lambda: e.setvars(quiet=True, dg=1.0, effective_dy=1.0), "two-names")
            v = float([0.999999, 0.5, 0.0, -2.0, rng.uniform(0, 1)][rng.integers(5)])
            case.raises(ValueError, lambda: e.setvars(quiet=True, supersample=v), "supersample", v)
            case.check(e.supersample is None or e.supersample >= 1, "supersample-kept", e.supersample)
            e2 = gen.cls(name)()
            e2.setdata(x[:2], y[:2])
            if e2.qmax_fromdata is None:
                case.raises(SrMiseQmaxError, lambda: e2.setvars(quiet=True, qmax="automatic"), "no-automatic-qmax")
            case.count("rejected", 2)
        k = int([1, -1, 2][rng.integers(3)])
        short = np.ones(max(n + k, 0))
        args = [(x, short), (short, y), (x, y, short), (x, y, None, short), (x, y, x, short)][rng.integers(5)]
        case.raises(ValueError, lambda: gen.cls(name)().setdata(*args), "unequal-length", "%s" % [None if a is None else len(a) for a in args])
        case.count("rejected")
    # what was given is copied
    e.setdata(x, y, None, dy)
    keep = e.x.copy(), e.y.copy()
    x2, y2 = np.array(x), np.array(y)
    e.setdata(x2, y2)
    x2 += 1
    y2 *= 3
    case.check(np.array_equal(e.x, keep[0]) and np.array_equal(e.y, keep[1]), "data-copied")
    case.raises(ValueError, lambda: gen.cls("PeakExtraction")(["rng"]), "conflicting-variable")


class Watch:
    """Records what judged, estimated and clustered while it is in force."""

    def __init__(self):
        self.judges, self.estimators, self.resolutions, self.depth, self.deepest = set(), {}, set(), 0, 0

    def __enter__(self):
        from unittest import mock

        self.patches = []
        for name in ("AIC", "AICc"):
            self.wrap(mock, gen.cls(name), "evaluate", lambda o, a: self.judges.add(type(o).__name__))
        for name in ("Gaussian", "GaussianOverR"):
            self.wrap(mock, gen.cls(name), "estimate_parameters", lambda o, a: self.estimators.__setitem__(id(o), o))
        self.wrap(mock, gen.cls("DataClusters"), "__init__", lambda o, a: self.resolutions.add(float(a[2])) if len(a) > 2 else None)
        self.wrap(mock, gen.cls("PeakExtraction"), "extract_single", None)
        return self

    def wrap(self, mock, c, name, note):
        orig = getattr(c, name)

        def call(obj, *args, **kwds):
            if note is not None:
                note(obj, args)
                return orig(obj, *args, **kwds)
            self.depth += 1
            self.deepest = max(self.deepest, self.depth)
            try:
                return orig(obj, *args, **kwds)
            finally:
                self.depth -= 1

        q = mock.patch.object(c, name, call)
        q.start()
        self.patches.append(q)

    def __exit__(self, *a):
        for q in self.patches:
            q.stop()


def used(case):
    """What an extraction worked on."""
    rng = case.rng
    s = extractions.spec(rng, ext=["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)], qmax=0.0)
    if rng.random() < 0.5:
        s.vars["error_method"] = "AICc"
    if rng.random() < 0.5:
        s.run = "extract" if s.ext == "PDFPeakExtraction" else "extract_single"

    if s.ext == "PDFPeakExtraction":
        s.vars["qmax"] = 0.0
    if rng.random() < 0.3:
        s.vars["effective_dy"] = float(np.mean(s.errors()))
    e = s.build()
    if e.extractvars.get("qmax", 1) is None:
        case.check(e.qmax == s.vars.get("qmax", e.qmax), "qmax")
    with Watch() as w:
        s.do(e)
    m = s.inrange()
    x = e.extracted
    if x is None:
        case.fail("result", "no result")
        return
    sl = x.slice
    case.check(np.array_equal(x.r_data[sl], s.x[m]), "used-range", "%s of %s" % (s.limits(), (s.x[0], s.x[-1])))
    case.close(x.y_data[sl], s.y[m], "used-data", rtol=1e-9, atol=1e-9 * np.max(np.abs(s.y)))
    case.close(x.y_error[sl], s.errors()[m], "used-uncertainties", rtol=1e-12)
    want = gen.cls(s.vars.get("error_method") or "AIC")
    case.check(x.error_method is want, "used-evaluator")
    # the same settings for all it tried on the way, at every level of recursion
    case.check(w.judges <= {want.__name__}, "used-judges", "%s with %s" % (sorted(w.judges), want.__name__))
    case.check(all(any(f is g for g in e.pf) for f in w.estimators.values()), "used-functions", "%s with %s" % ([extractions.describe(f) for f in w.estimators.values()], [extractions.describe(f) for f in e.pf]))
    case.check(all(r == float(e.cres) for r in w.resolutions), "used-resolution", "%s with %s" % (sorted(w.resolutions), e.cres))
    if w.deepest > 1:
        case.count("recursions")
    if w.resolutions:
        case.count("resolutions seen")
    if w.judges and w.estimators:
        case.count("judges and estimators seen")
    case.count("used")
    case.sig("used", s.limits(), len(s.x), float(s.y[0]))


GROUPS = {"histories": (900, 8000, histories), "ranges": (450, 4000, ranges), "rejected": (450, 3000, rejected), "used": (120, 600, used)}
