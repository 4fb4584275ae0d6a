"""Generated extractions: plain descriptions from which equal, independent objects can be built again and again."""

import numpy as np

from lib import gen


def ref_rippled(kind, pos, fwhm, area, qmax, r):
    """A peak with all frequencies above qmax removed, by convolution with the ideal filter.

    The peak decays within a few sigma, so that the trapezoidal rule is exact to rounding.
    """
    r = np.asarray(r, float)
    sigma = fwhm / gen.S2F
    lo, hi = pos - 9 * sigma, pos + 9 * sigma
    if kind == "GaussianOverR":
        lo = max(lo, 1e-3 * pos)
    step = min(sigma / 12, 0.4 / qmax)
    t = np.linspace(lo, hi, int(np.ceil((hi - lo) / step)) + 1)
    v = gen.ref_peak(kind, pos, fwhm, area, t) * (t[1] - t[0])
    return (qmax / np.pi * np.sinc(qmax / np.pi * (r[:, None] - t[None, :]))) @ v


class Spec:
    """What an extraction is made of, as plain values."""

    ext = "PDFPeakExtraction"
    run = "extract"
    kind = "GaussianOverR"
    qmax = 0.0  # frequency at which the signal is cut, 0 if it is not

    def __init__(self):
        self.true = []
        self.initial = []  # (index of function, pwa, free, removable, static_owner)
        self.pf = []  # (kind, maxwidth, qmax or None)
        self.bl = None  # None, ("part", name, args, pars, free), ("function", name, args)
        self.vars = {}  # plain settings
        self.dx = self.dy = None

    def functions(self, backwards=False):
        """New peak functions, also made in the opposite order."""
        out = []
        for kind, maxwidth, qmax in reversed(self.pf) if backwards else self.pf:
            f = gen.cls(kind)(maxwidth)
            if qmax:
                f = gen.cls("TerminationRipples")(f, qmax)
            out.append(f)
        return out[::-1] if backwards else out

    def makebaseline(self):
        if self.bl is None:
            return None
        f = gen.cls(self.bl[1])(*self.bl[2])
        if self.bl[0] == "function":
            return f
        return f.actualize(list(self.bl[3]), "internal", list(self.bl[4]))

    def makeinitial(self, funcs):
        return gen.cls("Peaks")([funcs[i].actualize(list(p), "pwa", list(free), rem, static) for i, p, free, rem, static in self.initial])

    def settings(self, funcs=None):
        """Fresh keyword arguments of setvars."""
        funcs = self.functions() if funcs is None else funcs
        kw = {k: (list(v) if isinstance(v, (list, tuple)) else v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.vars.items()}
        if "error_method" in kw:
            kw["error_method"] = gen.cls(kw["error_method"])
        if self.pf:
            kw["pf"] = list(funcs)
        if self.bl is not None:
            kw["baseline"] = self.makebaseline()
        if self.initial:
            kw["initial_peaks"] = self.makeinitial(funcs)
        return kw

    def build(self, settings=None):
        e = gen.cls(self.ext)()
        e.setdata(self.x.copy(), self.y.copy(), None if self.dx is None else self.dx.copy(), None if self.dy is None else self.dy.copy())
        kw = self.settings() if settings is None else settings
        e.setvars(quiet=True, **kw)
        return e

    def do(self, e, what=None):
        return getattr(e, what or self.run)()

    def errors(self):
        """The uncertainties that are in effect, from the rules."""
        e = self.vars.get("effective_dy")
        if e is None:
            if self.dy is not None and np.all(self.dy > 0):
                return self.dy
            return 0.05 * (self.y.max() - self.y.min()) * np.ones(len(self.x))
        return np.asarray(e) * np.ones(len(self.x))

    def limits(self):
        """The range in effect."""
        lo, hi = self.vars.get("rng") or (None, None)
        return (self.x[0] if lo is None else lo), (self.x[-1] if hi is None else hi)

    def inrange(self):
        lo, hi = self.limits()
        return (self.x >= lo) & (self.x <= hi)


def signal(s, x):
    y = np.zeros(len(x))
    for p in s.true:
        y = y + (ref_rippled(s.kind, *p, s.qmax, x) if s.qmax else gen.ref_peak(s.kind, *p, x))
    return y


def spec(rng, ext=None, run=None, npeaks=None, n=None, noise=None, qmax=None, sep=(1.0, 3.0), bl=None, initial=0.4, twopf=0.25, rngp=0.5, static=0.1):
    s = Spec()
    s.ext = ext or ["PeakExtraction", "PDFPeakExtraction"][rng.integers(2)]
    pdf = s.ext == "PDFPeakExtraction"
    s.run = run or (["extract", "extract", "fit"] if pdf else ["extract_single", "extract_single", "fit_single"])[rng.integers(3)]
    s.kind = ["GaussianOverR", "Gaussian"][int(rng.random() < 0.4)]
    mw = float(rng.uniform(0.4, 1.0))
    k = int(rng.integers(1, 4)) if npeaks is None else npeaks
    if qmax is None:
        qmax = float(rng.uniform(18, 32)) if pdf and rng.random() < 0.6 else 0.0
    s.qmax = qmax
    pos = float(rng.uniform(1.5, 5.0))
    for _ in range(k):
        fwhm = mw * rng.uniform(0.25, 0.7)
        s.true.append([float(pos), float(fwhm), float(rng.uniform(0.5, 4.0) * (pos if s.kind == "GaussianOverR" else 1.0))])
        pos += fwhm * rng.uniform(*sep)
    lo = max(0.3, s.true[0][0] - s.true[0][1] * rng.uniform(1.2, 2.5))
    hi = s.true[-1][0] + s.true[-1][1] * rng.uniform(1.2, 2.5)
    if n is None:
        step = min(p[1] for p in s.true) / rng.uniform(7, 14)
        if s.qmax:
            step = min(step, np.pi / s.qmax / rng.uniform(1.2, 5.0)) if rng.random() < 0.5 else np.pi / s.qmax / rng.uniform(1.5, 3.0)
        n = int(np.clip((hi - lo) / step, 20, 220)) + 1
    s.x = np.linspace(lo, hi, n)
    if not pdf and rng.random() < 0.15:
        s.x = np.sort(np.concatenate([[lo, hi], lo + (hi - lo) * (np.arange(1, n - 1) + rng.uniform(-0.4, 0.4, n - 2)) / (n - 1)]))
    y = signal(s, s.x)
    h = max(np.max(gen.ref_peak(s.kind, *p, s.x)) for p in s.true)
    s.height = h
    # baseline
    name = bl or ["None", "none", "line", "linefunc", "const", "nano", "seq", "nanofunc", "nonefunc"][rng.integers(9)]
    s.blname = name
    slope = -float(rng.uniform(0.02, 0.15)) * h / hi
    if name == "none":
        s.bl = ("part", "Polynomial", (-1,), [], [])
    elif name == "line":
        pars = [slope, float(rng.normal() * 0.03 * h)]
        s.bl = ("part", "Polynomial", (1,), pars, gen.mask(rng, 2, 0.5))
        y = y + gen.ref_poly(pars, s.x)
    elif name == "linefunc":
        s.bl = ("function", "Polynomial", (1,))
        y = y + gen.ref_poly([slope, 0.0], s.x)
    elif name == "const":
        s.bl = ("part", "Polynomial", (0,), [float(rng.normal() * 0.05 * h)], gen.mask(rng, 1, 0.5))
        y = y + s.bl[3][0]
    elif name == "nano":
        pars = [-slope, float(rng.uniform(0.5, 1.5) * hi)]
        s.bl = ("part", "NanoSpherical", (), pars, gen.mask(rng, 2, 0.5))
        y = y + gen.ref_nano(*pars, s.x)
    elif name == "seq":
        bx = np.linspace(lo - 0.1, hi + 0.1, 8)
        by = 0.05 * h * rng.normal(size=8)
        s.bl = ("part", "FromSequence", (bx, by), [], [])
        y = y + gen.ref_spline(bx, by)(s.x)
    elif name == "nanofunc":
        s.bl = ("function", "NanoSpherical", ())
    elif name == "nonefunc":
        s.bl = ("function", "Polynomial", (-1,))
    s.clean = y
    s.noise = float(10 ** rng.uniform(-2.7, -1.2) if noise is None else noise) * h
    s.y = y + s.noise * rng.normal(size=n)
    base = max(s.noise, 1e-3 * h)
    # uncertainties
    how = rng.integers(4)
    if how == 0:
        s.vars["effective_dy"] = base * float(rng.uniform(0.8, 2.0))
    elif how == 1:
        s.vars["effective_dy"] = base * rng.uniform(0.8, 2.0, n)
    elif how == 2:
        s.dy = base * rng.uniform(0.8, 2.0, n)
    # settings
    if rng.random() < rngp:
        w = hi - lo
        a, b = lo + w * rng.uniform(-0.1, 0.2), hi - w * rng.uniform(-0.1, 0.2)
        s.vars["rng"] = [[float(a), float(b)], [None, float(b)], [float(a), None], [float(s.x[n // 8]), float(s.x[-n // 8])]][rng.integers(4)]
    s.pf = [(s.kind, mw, None)]
    if rng.random() < twopf:
        s.pf.append((["GaussianOverR", "Gaussian"][rng.integers(2)], float(rng.uniform(0.3, 1.0)), None))
        if rng.random() < 0.5:
            s.pf.reverse()
    if s.qmax and not pdf:
        s.pf = [(a, b, s.qmax) for a, b, _ in s.pf]
    s.vars["cres"] = float(np.median([p[1] for p in s.true]) * rng.uniform(0.2, 0.6))
    if rng.random() < 0.8:
        s.vars["error_method"] = ["AIC", "AICc"][rng.integers(2)]
    if pdf:
        s.vars["qmax"] = s.qmax
        if rng.random() < 0.6:
            s.vars["nyquist"] = bool(s.qmax > 0 and rng.random() < 0.4)
        if rng.random() < 0.5:
            s.vars["supersample"] = float(rng.uniform(1.0, 8.0))
        if rng.random() < 0.5:
            s.vars["scale"] = bool(rng.random() < 0.5)
    # initial peaks
    if "fit" in s.run or rng.random() < initial:
        for p in s.true:
            if rng.random() < (0.9 if "fit" in s.run else 0.5):
                i = int(rng.integers(len(s.pf)))
                w = min(p[1] * float(rng.uniform(0.8, 1.25)), s.pf[i][1] * 0.98)
                q = [p[0] + 0.1 * p[1] * float(rng.normal()), w, p[2] * float(rng.uniform(0.7, 1.4))]
                s.initial.append((i, q, gen.mask(rng, 3, float(rng.choice([0, 0.3, 0.6]))), bool(rng.random() < 0.6), bool(rng.random() < static)))
        if rng.random() < 0.2:
            i = int(rng.integers(len(s.pf)))
            q = [float(rng.uniform(lo, hi)), s.pf[i][1] * float(rng.uniform(0.1, 0.8)), 0.05 * s.true[0][2]]
            s.initial.append((i, q, gen.mask(rng, 3, 0.4), bool(rng.random() < 0.6), False))
        s.initial.sort(key=lambda t: t[1][0])
    return s


def text(e):
    """State of an extraction as text, without its date."""
    return e.writestr().split("\n", 1)[1]


def plain(model):
    """Everything about a model, by value."""
    return [(describe(p.owner()), p.pars.tolist(), p.free.tolist(), bool(p.removable), bool(p.static_owner)) for p in model]


def describe(f):
    """A function by value."""
    chain = []
    while f is not None:
        chain.insert(0, f)
        f = f.base
    return repr([g.writestr(chain) for g in chain])


def result(e):
    """The result of an extraction, by value."""
    x = e.extracted
    return (e.extraction_type, plain(x.model), None if x.baseline is None else plain([x.baseline]), x.r_data.tolist(), x.y_data.tolist(), x.y_error.tolist(), repr(x.slice))
