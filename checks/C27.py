"""C27: equivalent inputs give equivalent extractions."""

import copy
import os

import numpy as np

from lib import extractions, gen

TECHNIQUE = "metamorphic oracle: pairs of real extractions of equivalent inputs, with the results compared peak by peak"
NOTE = """Seeded exploration of extractions and fits in pairs: other units, other spellings of the settings, known baselines and peaks, order of
initial peaks, saved and loaded states, data cut to the range, plain and PDF extraction."""
RULE = """Cases draw an extraction and an equivalent of it, and compare the types, parameters and flags of all peaks and the parameters
of the baseline. Where rounding differs between the two, a difference counts only if neither result changes when the data are
changed by amounts comparable to rounding. Non-trivial: the result has a peak; distinguished by the result."""
ASSUMPTIONS = """An extraction that changes with the data's last digits (a few in a hundred of the generated ones) decides nothing."""
REQUIRED = {"units": 60, "known": 60, "explained": 30, "order": 20, "spellings": 60, "saved": 20, "cut": 20, "plain": 20, "peaks": 600}
CHUNK = {g: 1 for g in ("units", "spellings", "known", "saved", "cut", "plain", "explained", "order")}
CPU_BUDGET = {g: 900 for g in CHUNK}


def run(s, after=None):
    e = s.build()
    do(e, s.run)
    if after is not None:
        after(e)
    return e


def do(e, *what):
    """Run, and note how often residuals were searched for further peaks."""
    P = gen.cls("PeakExtraction")
    single = P.extract_single
    e.searches = []

    def search(self, recursion_depth=1):
        e.searches.append(recursion_depth)
        return single(self, recursion_depth)

    P.extract_single = search
    try:
        for w in what:
            getattr(e, w)()
    finally:
        P.extract_single = single


def outcome(e):
    """The result by value: of each peak its function, parameters and flags, and those of the baseline."""
    out = []
    for p in e.extracted.model:
        names = []
        f = p.owner()
        while f is not None:
            names.append((type(f).__name__, float(getattr(f, "qmax", 0.0))))
            f = f.base
        pwa = [float(v) for v in p.owner().transform_parameters(p.pars, "internal", "pwa")]
        out.append((names, pwa, p.free.tolist(), bool(p.removable), bool(p.static_owner)))
    b = e.extracted.baseline
    return sorted(out, key=lambda t: (t[1], t[2])), [float(v) for v in b.pars], type(b.owner()).__name__, [e.searches.count(i) for i in (1, 2, 3)]


def difference(a, b, kx=1.0, ky=1.0, rtol=1e-3, baseline=True):
    """What differs in b from a in units that make x, y larger by kx, ky."""
    pa, ba, na, sa = a
    pb, bb, nb, sb = b
    if len(pa) != len(pb):
        return "number"
    for u, v in zip(pa, pb):
        kind = u[0][-1][0]
        k = [kx, kx, kx * ky * (kx if kind == "GaussianOverR" else 1.0)]
        if len(u[0]) != len(v[0]) or any(n != m or abs(q / kx - r) > 1e-9 * r for (n, q), (m, r) in zip(u[0], v[0])):
            return "function"
        if u[2:] != v[2:]:
            return "flags"
        w = max(u[1][1], 1e-3)
        for i, tol in enumerate((rtol * w, rtol * w, rtol * max(u[1][2], 1e-6))):
            if not abs(u[1][i] - v[1][i] / k[i]) <= tol:
                return ("position", "width", "area")[i]
    if sa != sb:
        return "searches"
    if baseline:
        if na != nb:
            return "baseline"
        ref = blpars(na, ba, kx, ky)
        if not np.allclose(bb, ref, rtol=1e-3, atol=1e-6 * ky):
            return "baseline"
    return None


def shaken(rng, s, a, after=None, times=12):
    """Whether the result changes with the last digits of the data."""
    for i in range(times):
        t = copy.copy(s)
        t.y = s.y + 10.0 ** (-13 + 0.5 * i) * s.height * rng.normal(size=len(s.y))
        if difference(a, outcome(run(t, after)), rtol=1e-4) is not None:
            return True
    return False


def nudged(s, a):
    """Whether the result changes when peaks that just reach the data between them are taken to be a little above or below."""
    M = gen.cls("ModelCluster")
    reduce_to = getattr(M, "reduce_to", None)
    if reduce_to is None:
        return False
    for sign in (-1, 1):
        M.reduce_to = lambda self, x, y: reduce_to(self, x, y + sign * 1e-9 * s.height)
        try:
            b = outcome(run(s))
        finally:
            M.reduce_to = reduce_to
        if difference(a, b, rtol=1e-4) is not None:
            return True
    return False


def compare(case, s, t, key, kx=1.0, ky=1.0, baseline=True, after=None, controls=None):
    """s and t have equal results but for rounding; controls differ from s as t does, but by next to nothing."""
    a = outcome(run(s))
    b = outcome(run(t, after))
    case.count(key)
    d = difference(a, b, kx, ky, baseline=baseline)
    if d is not None:
        t.height = s.height * ky
        faint = [] if controls is None else [controls(10.0 ** (-9 + 0.5 * i)) for i in range(8)]
        if nudged(s, a) or shaken(case.rng, s, a) or shaken(case.rng, t, b, after) or any(difference(a, outcome(run(f, after)), rtol=1e-4, baseline=baseline) for f in faint):
            case.count("undecided")
            return
    case.check(d is None, "%s:%s" % (key, d), "%s\n%s" % (a, b))
    case.count("peaks", len(a[0]))
    if a[0]:
        case.sig(a[0])


def exactly(case, a, b, key, what):
    """Two results that nothing distinguishes."""
    d = difference(a, b, rtol=1e-9)
    case.count(key)
    case.check(d is None, "%s:%s:%s" % (key, what, d), "%s\n%s" % (a, b))
    case.count("peaks", len(a[0]))
    if a[0]:
        case.sig(a[0])


# ------------------------------------------------------------------- units
def blpars(name, pars, kx, ky):
    if name == "Polynomial":
        n = len(pars)
        return [p * ky / kx ** (n - 1 - i) for i, p in enumerate(pars)]
    if name == "NanoSpherical":
        return [pars[0] * ky / kx, pars[1] * kx]
    return list(pars)


def rescaled(s, kx, ky):
    t = copy.copy(s)
    t.x, t.y = s.x * kx, s.y * ky
    t.dx = None if s.dx is None else s.dx * kx
    t.dy = None if s.dy is None else s.dy * ky
    v = t.vars = dict(s.vars)
    v["cres"] = v["cres"] * kx
    if "effective_dy" in v:
        v["effective_dy"] = v["effective_dy"] * ky
    if v.get("rng") is not None:
        v["rng"] = [None if a is None else a * kx for a in v["rng"]]
    if v.get("qmax"):
        v["qmax"] = v["qmax"] / kx
    t.pf = [(k, m * kx, q / kx if q else q) for k, m, q in s.pf]
    t.initial = [(i, [p[0] * kx, p[1] * kx, p[2] * kx * ky * (kx if s.pf[i][0] == "GaussianOverR" else 1.0)], *rest) for i, p, *rest in s.initial]
    if s.bl is not None and s.bl[0] == "part":
        _, name, args, pars, free = s.bl
        if name == "FromSequence":
            args = (args[0] * kx, args[1] * ky)
        t.bl = ("part", name, args, blpars(name, pars, kx, ky), free)
    return t


def units(case):
    """Everything in other units."""
    rng = case.rng
    s = extractions.spec(rng)
    kx, ky = [
        (1.0, 4.0), (4.0, 1.0), (0.25, 16.0), (0.0625, 4.0), (1.0, 4.0**10), (4.0, 4.0**-8), (4.0**4, 1.0), (4.0**-4, 4.0**6),
        (1.0, 4.0**-15), (4.0**-3, 4.0**15), (4.0**9, 4.0**-12), (4.0**-9, 4.0**12),
    ][rng.integers(12)]  # fmt: skip
    case.note(kx=kx, ky=ky, run=s.run, ext=s.ext, bl=s.blname)
    compare(case, s, rescaled(s, kx, ky), "units", kx, ky)


# --------------------------------------------------------- known components
def unsampled(rng, **kw):
    """An extraction of the points of the data themselves."""
    if rng.random() < 0.7:  # peaks apart from each other, of which the number is clear
        kw.update(sep=(1.7, 4.0), npeaks=int(rng.integers(2, 4)), noise=float(10 ** rng.uniform(-2.7, -1.5)))
    s = extractions.spec(rng, qmax=0.0 if rng.random() < 0.7 else None, **kw)
    if "noise" in kw:
        if "effective_dy" in s.vars:
            s.vars["effective_dy"] = s.vars["effective_dy"] * 2.5
        elif s.dy is not None:
            s.dy = s.dy * 2.5
    if s.ext == "PDFPeakExtraction":
        s.vars["nyquist"] = False
        s.vars["supersample"] = 1.0
    return s


def known(case):
    """A known straight baseline in the data and among the settings."""
    rng = case.rng
    s = unsampled(rng, bl="None")
    if "effective_dy" not in s.vars and s.dy is None:
        s.vars["effective_dy"] = max(s.noise, 0.01 * s.height)
    h, hi = s.height, s.x[-1]
    size = h * 10.0 ** rng.uniform(-2.5, 1.3) * (1 if rng.random() < 0.5 else -1)
    how = ["line", "constant", "degree", "points"][rng.integers(4)]
    slope = 0.0 if how == "constant" else size / hi * float(rng.normal())

    def based(factor):
        t = copy.copy(s)
        line = [slope * factor, size * factor]
        if how == "points":
            bx = np.linspace(s.x[0] - 0.1, hi + 0.1, 9)
            t.bl = ("part", "FromSequence", (bx, np.polyval(line, bx)), [], [])
        else:
            pars = line[1:] if how == "constant" else [0.0] + line if how == "degree" else line
            t.bl = ("part", "Polynomial", (len(pars) - 1,), pars, [False] * len(pars))
        t.y = s.y + np.polyval(line, s.x)
        return t

    case.note(how=how, size=size / h, run=s.run, ext=s.ext)
    compare(case, s, based(1.0), "known", baseline=False, controls=based)


def explained(case):
    """A known peak in the data and among the initial peaks."""
    rng = case.rng
    s = unsampled(rng)
    if s.bl is not None and s.bl[0] == "function":
        s.bl = None
    if s.qmax:
        s.vars["qmax"] = s.qmax = 0.0
    if "fit" in s.run and not s.initial:
        return
    if "effective_dy" not in s.vars and s.dy is None:
        s.vars["effective_dy"] = max(s.noise, 0.01 * s.height)
    s.pf = [(k, m, None) for k, m, _ in s.pf]
    i = int(rng.integers(len(s.pf)))
    kind, maxwidth, _ = s.pf[i]
    fwhm = maxwidth * float(rng.uniform(0.2, 0.9))
    # outside of the others: the neighbours that are fitted together are the same then
    lo, hi = s.limits()
    pos = max(lo, s.x[0]) - fwhm * float(rng.uniform(0, 1)) if rng.random() < 0.5 else min(hi, s.x[-1]) + fwhm * float(rng.uniform(0, 1))
    area = s.true[0][2] * float(10 ** rng.uniform(-1, 1))

    def beside(factor):
        t = copy.copy(s)
        p = [max(pos, 0.1), fwhm, area * factor]
        t.initial = sorted(s.initial + [(i, p, [False] * 3, False, False)], key=lambda q: q[1][0])
        t.y = s.y + gen.ref_peak(kind, *p, s.x)
        return t

    def without(e):
        m = e.extracted.model
        mine = [j for j, q in enumerate(m) if not q.free.any() and not q.removable and abs(q["position"] - max(pos, 0.1)) < 1e-9]
        case.check(len(mine) == 1, "explained:kept", "%s among %s" % (pos, m))
        for j in mine:
            del m[j]

    case.note(run=s.run, ext=s.ext, peak=[pos, fwhm, area])
    compare(case, s, beside(1.0), "explained", after=without, controls=beside)


def order(case):
    """Initial peaks in any order, given at once or one after the other."""
    rng = case.rng
    s = extractions.spec(rng, npeaks=int(rng.integers(2, 4)), initial=1.0)
    if len(s.initial) < 2:
        return
    t = copy.copy(s)
    t.initial = [s.initial[i] for i in rng.permutation(len(s.initial))]
    case.note(run=s.run, ext=s.ext, initial=[p[1][0] for p in t.initial])
    if rng.random() < 0.5:
        build = t.build

        def added(settings=None):
            kw = t.settings()
            peaks = kw.pop("initial_peaks")
            e = gen.cls(t.ext)()
            e.setdata(t.x.copy(), t.y.copy(), t.dx, t.dy)
            e.setvars(quiet=True, **kw)
            for p in peaks:
                e.add_peaks(gen.cls("Peaks")([p]))
            return e

        t.build = added
    compare(case, s, t, "order")


# --------------------------------------------------------------- spellings
def spellings(case):
    """The same settings said in another way."""
    rng = case.rng
    s = extractions.spec(rng, bl=["None", "none", "line", "linefunc", "const", "nonefunc", "seq"][rng.integers(7)])
    pdf = s.ext == "PDFPeakExtraction"
    n = len(s.x)
    span = s.x[-1] - s.x[0]
    drop = {"error_method": 0.5, "supersample": 0.5, "scale": 0.5, "nyquist": 0.3}
    for k, p in drop.items():
        if rng.random() < p:
            s.vars.pop(k, None)
    if rng.random() < 0.3:
        s.vars.pop("cres")
    if rng.random() < 0.3 and not s.initial:
        s.pf = []
    a = outcome(run(s))
    t = copy.copy(s)
    v = t.vars = dict(s.vars)
    kw = {}
    said = []

    def maybe(p=0.6):
        return rng.random() < p

    # uncertainties
    if "effective_dy" not in v:
        if s.dy is None:
            if maybe():
                v["effective_dy"] = 0.05 * (s.y.max() - s.y.min()) * (np.ones(n) if maybe() else 1.0)
                said.append("default dy")
        elif maybe():
            v["effective_dy"] = s.dy.copy()
            said.append("dy")
            if maybe():
                t.dy = None
    elif np.isscalar(v["effective_dy"]) and maybe():
        v["effective_dy"] = np.full(n, v["effective_dy"])
        said.append("array dy")
    # range
    r = v.get("rng")
    if r is None and maybe():
        v["rng"] = [[None, None], (s.x[0], s.x[-1]), [s.x[0] - 1, s.x[-1] + 2], [None, s.x[-1] * 2], [-np.inf, np.inf]][rng.integers(5)]
        said.append("rng %s" % (v["rng"],))
    elif r is not None and maybe():
        v["rng"] = [tuple, list, np.array][rng.integers(3)]([s.x[0] if r[0] is None else r[0], s.x[-1] if r[1] is None else r[1]])
        said.append("rng %s" % (v["rng"],))
    # other settings
    qmax = s.vars.get("qmax", 0.0)
    if "cres" not in v and maybe():
        v["cres"] = np.pi / qmax if pdf and qmax > 0 else 4 * span / n
        said.append("cres")
    if "error_method" not in v and maybe():
        v["error_method"] = "AIC"
        said.append("error_method")
    if pdf:
        for k, d in (("supersample", 4.0), ("scale", False), ("nyquist", qmax > 0)):
            if k not in v and maybe():
                v[k] = d
                said.append(k)
    if not s.pf and maybe():
        t.pf = [("GaussianOverR", 0.7 if pdf else span, None)]
        said.append("pf")
    if s.blname in ("None", "none", "nonefunc") and maybe():
        t.bl = [None, ("part", "Polynomial", (-1,), [], []), ("function", "Polynomial", (-1,)), ("part", "Polynomial", (0,), [0.0], [False])][rng.integers(4)]
        said.append("baseline %s" % (t.bl,))
        if t.bl is not None and t.bl[2] == (0,):
            a = a[0], [0.0], *a[2:]
        else:
            a = a[0], [], *a[2:]
    elif s.blname == "linefunc" and maybe():
        i = s.inrange()
        t.bl = ("part", "Polynomial", (1,), list(s.makebaseline().estimate_parameters(s.x[i], s.y[i])), [True, True])
        said.append("estimated baseline")
    kw = t.settings()
    for k in ("error_method", "supersample", "scale", "nyquist", "baseline", "initial_peaks", "rng", "effective_dy", "pf", "cres"):
        if k not in kw and maybe(0.2) and (pdf or k not in ("supersample", "scale", "nyquist")) and k != "supersample":
            kw[k] = None
            said.append(k + "=None")
    if pdf and "effective_dy" in kw and maybe(0.3):
        kw["dg"] = kw.pop("effective_dy")
        said.append("dg")
    e = gen.cls(t.ext)()
    form = [np.array, list, tuple][rng.integers(3)]
    e.setdata(form(t.x), form(t.y), None if t.dx is None else form(t.dx), None if t.dy is None else form(t.dy))
    keys = list(kw)
    if maybe(0.4) and "baseline" in kw and t.bl is not None and t.bl[0] == "part":  # in several steps
        first = [k for k in keys if k in ("qmax", "baseline", "pf")]
        keys = [k for k in keys if k not in first]
        keys = [keys[i] for i in rng.permutation(len(keys))]
        e.setvars(quiet=True, **{k: kw[k] for k in first})
        for k in keys:
            if kw[k] is not None:
                e.setvars(quiet=True, **{k: kw[k]})
        said.append("in steps")
    else:
        keys = [keys[i] for i in rng.permutation(len(keys))]
        e.setvars(quiet=bool(maybe()), **{k: kw[k] for k in keys})
    do(e, s.run)
    case.note(said=said, run=s.run, ext=s.ext)
    exactly(case, a, outcome(e), "spellings", " ".join(x.split()[0] for x in said))


# ------------------------------------------------------------------- others
def saved(case):
    """Saved before it is run, loaded, run."""
    rng = case.rng
    s = extractions.spec(rng, twopf=0.4)
    a = outcome(run(s))
    e = s.build()
    name = os.path.join(os.environ["VERIF_SCRATCH"], "before-%s-%d.srmise" % (case.index, os.getpid()))
    if rng.random() < 0.3:  # the saved one may have a result already
        s.do(e)
    e.write(name)
    f = gen.cls(s.ext)()
    f.read(name)
    os.unlink(name)
    do(f, s.run)
    case.note(run=s.run, ext=s.ext)
    exactly(case, a, outcome(f), "saved", s.run)


def cut(case):
    """Only the data in the range."""
    rng = case.rng
    s = unsampled(rng, rngp=1.0)
    if s.vars.get("rng") is None:
        return
    n = len(s.x)
    if "effective_dy" not in s.vars and s.dy is None:
        s.vars["effective_dy"] = max(s.noise, 0.01 * s.height)
    i = s.inrange()
    t = copy.copy(s)
    t.x, t.y = s.x[i], s.y[i]
    t.dx = None if s.dx is None else s.dx[i]
    t.dy = None if s.dy is None else s.dy[i]
    v = t.vars = dict(s.vars)
    if np.ndim(v.get("effective_dy")):
        v["effective_dy"] = v["effective_dy"][i]
    if rng.random() < 0.5:
        del v["rng"]
    case.note(run=s.run, ext=s.ext, points=(n, len(t.x)))
    compare(case, s, t, "cut")


def plain(case):
    """Without a qmax an extraction from a PDF is a plain one, and so is a fit without resampling."""
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", qmax=0.0)
    fit = s.run == "fit"
    if fit:
        s.vars["nyquist"] = False
        if rng.random() < 0.5:
            s.vars["qmax"] = float(rng.uniform(10, 30))
    a = outcome(run(s))
    t = copy.copy(s)
    t.ext = "PeakExtraction"
    t.vars = {k: v for k, v in s.vars.items() if k not in ("qmax", "nyquist", "supersample", "scale")}
    e = t.build()
    do(e, "fit_single" if fit else "extract_single")
    if not fit:
        e.extracted.fit(fitbaseline=True)
    case.note(run=s.run)
    exactly(case, a, outcome(e), "plain", s.run)


GROUPS = {
    "units": (160, 1200, units),
    "known": (96, 1200, known),
    "explained": (64, 900, explained),
    "order": (48, 600, order),
    "spellings": (96, 1500, spellings),
    "saved": (32, 400, saved),
    "cut": (32, 500, cut),
    "plain": (32, 400, plain),
}
