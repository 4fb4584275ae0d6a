"""C17: termination ripples."""

import numpy as np

from lib import extractions, gen

TECHNIQUE = "analytic oracle of the band-limited peak (convolution with the ideal filter) with an a-priori bound on the error of the finite extension, on real evaluations"
NOTE = """Seeded exploration of peaks, cut-offs, uniform grids of all spacings, offsets and lengths, index ranges and points. The
bound is sharp (a few percent of the ripples) on long grids and coarse on short ones."""
RULE = """Cases draw a peak, a cut-off and a grid. Non-trivial: the bound was less than half of the ripples, so that missing or
wrong ripples are told apart; distinguished by the values."""
REQUIRED = {"sharp": 100, "coarse": 50, "coarser than ripples": 20, "ranges": 100, "points": 100, "derivatives": 100, "pass band": 50, "delegates": 50, "estimates": 30, "filtered": 100}


class Peak:
    def __init__(self, rng, sq=(0.8, 3.8)):
        self.kind = ["Gaussian", "GaussianOverR"][rng.integers(2)]
        self.qmax = float(rng.uniform(8, 40))
        self.wave = 2 * np.pi / self.qmax
        self.sigma = float(rng.uniform(*sq)) / self.qmax
        self.fwhm = self.sigma * gen.S2F
        self.maxwidth = self.fwhm / float(rng.uniform(0.1, 0.95))
        self.area = float(10 ** rng.uniform(-1, 2))
        self.base = gen.cls(self.kind)(self.maxwidth)
        self.f = gen.cls("TerminationRipples")(self.base, self.qmax)

    def place(self, rng, r, margin=0.0):
        self.pos = float(rng.uniform(r[0] - margin, r[-1] + margin))
        self.pos = max(self.pos, 7.5 * self.sigma)
        self.part = self.f.actualize([self.pos, self.fwhm, self.area], "pwa")

    def ideal(self, r, d=(0, 0, 0)):
        return extractions.ref_rippled(self.kind, self.pos + d[0], self.fwhm + d[1], self.area + d[2], self.qmax, np.atleast_1d(np.asarray(r, float)))

    def plain(self, r):
        return gen.ref_peak(self.kind, self.pos, self.fwhm, self.area, np.atleast_1d(np.asarray(r, float)))

    def bound(self, r, lo, hi):
        """How far the finite extension of the grid from lo to hi may move the values at r."""
        ext = 4 * self.wave
        total = (hi - lo) + min(ext, lo) + ext
        dq = 2 * np.pi / total
        a = self.area / (self.pos - 4 * self.sigma if self.kind == "GaussianOverR" else 1.0)
        edge = np.exp(-((max(self.qmax - dq, 0) * self.sigma) ** 2) / 2)
        image = np.maximum(total - np.abs(r - self.pos), self.wave)
        # and what the cut end of the peak itself leaves, if it is close to an end
        reach = min(hi + ext - self.pos, max(self.pos - max(lo - ext, 0), 6 * self.sigma if lo < ext else 0))
        cut = self.plain_height() * np.exp(-0.5 * (reach / self.sigma) ** 2)
        return a / np.pi * edge * (dq + 2 / image) + 2 * cut + 1e-9 * self.plain_height() + self.alias(0)

    def alias(self, power):
        """What the sampling at five points per wave may fold back, with this power of the frequency."""
        a = self.area / (self.pos - 4 * self.sigma if self.kind == "GaussianOverR" else 1.0)
        q = np.linspace(4 * self.qmax, 4 * self.qmax + 12 / self.sigma, 400)
        return 2 * a / np.pi * float(np.sum(q**power * np.exp(-((q * self.sigma) ** 2) / 2)) * (q[1] - q[0]))

    def plain_height(self):
        return self.area / self.sigma / np.sqrt(2 * np.pi) / (self.pos - 4 * self.sigma if self.kind == "GaussianOverR" else 1.0)

    def ripples(self, r):
        return float(np.max(np.abs(self.plain(r) - self.ideal(r))))


def grid(rng, p, waves, nmax=2500):
    length = p.wave * float(10 ** rng.uniform(*np.log10(waves)))
    dr = p.wave * float(10 ** rng.uniform(-1.3, 0.6))
    n = int(min(max(length / dr + 1, 2), nmax))
    return float(rng.uniform(0.05, 10)) + dr * np.arange(n), dr


def within(case, p, got, r, lo, hi, key):
    want = p.ideal(r)
    bound = p.bound(np.atleast_1d(r), lo, hi)
    err = np.abs(np.atleast_1d(got) - want)
    worst = int(np.argmax(err / bound))
    case.check(got.shape == np.shape(r) and np.all(err <= bound), key, "%s at %s with width %s, area %s and qmax %s, grid %s..%s: value %r at %r, ideal %r, allowed %r" % (
        p.kind, p.pos, p.fwhm, p.area, p.qmax, lo, hi, float(np.atleast_1d(got)[worst]), float(np.atleast_1d(r)[worst]), float(want[worst]), float(bound[worst])))
    return float(np.max(bound))


def evaluate(case, p, r, dr, sharp):
    rng = case.rng
    keep = r.copy()
    v = p.part.value(r)
    b = within(case, p, v, r, r[0], r[-1], "values")
    rip = p.ripples(r)
    if b < 0.5 * rip:
        case.count("sharp")
        case.sig(v[:50].tolist())
    else:
        case.count("coarse")
    if dr > p.wave / 2:
        case.count("coarser than ripples")
    # within an index range the range alone is extended
    n = len(r)
    i, j = sorted(int(k) for k in rng.integers(0, n + 1, 2))
    if j - i >= 1:
        sl = [slice(i, j), slice(i, j, 1), slice(i - n if i else None, j)][rng.integers(3)]
        w = p.part.value(r, sl)
        out = np.ones(n, bool)
        out[i:j] = False
        case.check(w.shape == r.shape and np.all(w[out] == 0), "zero-outside-range")
        if r[i] - p.wave < p.pos < r[j - 1] + p.wave:
            within(case, p, w[i:j], r[i:j], r[i], r[j - 1], "values-in-range")
        case.count("ranges")
    w = p.part.value(r, slice(None))
    case.check(np.array_equal(w, v), "whole-range")
    # single points
    for _ in range(3):
        k = int(rng.integers(n))
        x = [float(r[k]), r[k], p.pos + 0.3 * p.sigma * rng.normal()][rng.integers(3)]
        got = p.part.value(x)
        if abs(x - p.pos) < p.wave:
            within(case, p, np.asarray(got), np.asarray(x), x, x, "point")
        one = p.part.value(np.array([x]))
        case.close(one[0], got, "array-of-one", rtol=1e-9, atol=1e-12 * p.plain_height())
        case.count("points")
    case.check(np.array_equal(r, keep), "grid-untouched")
    case.note(kind=p.kind, qmax=p.qmax, sigma_qmax=p.sigma * p.qmax, waves=(r[-1] - r[0]) / p.wave, spacing=dr / p.wave, allowed=b, ripples=rip)
    derivatives(case, p, r)


def derivatives(case, p, r):
    jac = p.part.jacobian(r)
    dangle = np.sqrt(0.5) * p.maxwidth * 0.5 * np.cos(p.part.pars[1]) / np.sqrt(np.sin(p.part.pars[1]) + 1)
    h = (1e-3 * p.sigma, 1e-3 * p.fwhm, 1e-3 * p.area)
    ideal = []
    for k in range(3):
        d = [0, 0, 0]
        vals = []
        for s in (-2, -1, 1, 2):
            d[k] = s * h[k]
            vals.append(p.ideal(r, d))
        ideal.append((vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h[k]))
    ideal[1] = ideal[1] * dangle
    b = p.bound(r, r[0], r[-1])
    q = 1.2 * p.qmax
    # the filtered spectrum of a derivative ends at qmax with this factor more than that of the peak
    factor = [q + 1.0 / p.pos, (q**2 * p.sigma + 1.0 / p.sigma) * dangle / gen.S2F, 1.0 / p.area]
    alias = [p.alias(1), p.alias(2) * p.sigma * dangle / gen.S2F, 0.0]
    for k in range(3):
        err = np.abs(jac[k] - ideal[k])
        lim = 1.5 * b * factor[k] + 1e-7 * np.max(np.abs(ideal[k])) + alias[k]
        i = int(np.argmax(err / lim))
        case.check(np.all(err <= lim), "derivative-%d" % k, "%s at %s with width %s and qmax %s: %r at %r, ideal %r, allowed %r" % (
            p.kind, p.pos, p.fwhm, p.qmax, float(jac[k][i]), float(r[i]), float(ideal[k][i]), float(lim[i])))
    case.count("derivatives")


def long(case):
    rng = case.rng
    p = Peak(rng)
    r, dr = grid(rng, p, (30, 300))
    p.place(rng, r)
    evaluate(case, p, r, dr, True)


def short(case):
    rng = case.rng
    p = Peak(rng, (0.8, 3.0))
    r, dr = grid(rng, p, (0.5, 40))
    p.place(rng, r, p.wave)
    evaluate(case, p, r, dr, False)


def passband(case):
    """Frequencies below the cut-off are unchanged."""
    rng = case.rng
    p = Peak(rng, (6.5, 40.0))
    r0 = float(rng.uniform(0.05, 10))
    dr = min(p.wave * float(10 ** rng.uniform(-1.3, 0.6)), 2 * p.sigma)
    n = int(rng.integers(2, 200)) + int(18 * p.sigma / dr)
    r = r0 + dr * np.arange(n)
    p.place(rng, r[n // 2 - 1: n // 2 + 1])
    if p.pos - 8.5 * p.sigma < r[0] - 4 * p.wave or p.pos + 8.5 * p.sigma > r[-1] + 4 * p.wave:
        return
    case.close(p.part.value(r), p.plain(r), "pass-band", rtol=0, atol=1e-6 * p.plain_height())
    case.count("pass band")
    case.note(kind=p.kind, qmax=p.qmax, sigma_qmax=p.sigma * p.qmax)


def delegates(case):
    """Everything else is that of the base function."""
    from diffpy.srmise.srmiseerrors import SrMiseError

    rng = case.rng
    p = Peak(rng)
    p.pos = float(rng.uniform(2, 8))
    f, b = p.f, p.base
    case.check(f.parameterdict == b.parameterdict and f.parformats == b.parformats and f.default_formats == b.default_formats and f.npars == b.npars, "formats")
    given = {"pwa": [p.pos, p.fwhm, p.area], "mu_sigma_area": [p.pos, p.sigma, p.area], "internal": b.transform_parameters([p.pos, p.fwhm, p.area], "pwa", "internal")}
    for i in given:
        for o in given:
            case.check(np.array_equal(f.transform_parameters(given[i], i, o), b.transform_parameters(given[i], i, o)), "conversion", "%s to %s" % (i, o))
            case.check(np.array_equal(f.transform_derivatives(given[i], i, o), b.transform_derivatives(given[i], i, o)), "conversion-derivatives", "%s to %s" % (i, o))
        x, y = f.actualize(given[i], i), b.actualize(given[i], i)
        case.check(np.array_equal(x.pars, y.pars) and x["position"] == y["position"] and x["width"] == y["width"] and x["area"] == y["area"], "actualize")
    r = np.linspace(max(0.3, p.pos - 3 * p.fwhm), p.pos + 3 * p.fwhm, int(rng.integers(10, 60)))
    y = p.plain(r) + 0.05 * p.plain_height() * rng.normal(size=len(r))
    case.check(np.array_equal(f.estimate_parameters(r, y), b.estimate_parameters(r, y)), "estimate")
    case.count("estimates")
    x = float(p.pos + p.sigma * rng.normal())
    scale = float(np.exp(0.3 * rng.normal()))
    try:
        want = b.scale_at(given["internal"], x, scale)
    except SrMiseError as e:
        case.raises(type(e), lambda: f.scale_at(given["internal"], x, scale), "scaling-refused")
    else:
        case.check(np.array_equal(f.scale_at(given["internal"], x, scale), want), "scaling")
    other = f.actualize(given["pwa"], "pwa")
    case.raises(ValueError, lambda: f.value(b.actualize(given["pwa"], "pwa"), r), "other-owner")
    case.raises(ValueError, lambda: f.jacobian(b.actualize(given["pwa"], "pwa"), r), "other-owner")
    g = gen.cls("TerminationRipples")(b, p.qmax)
    case.check(np.array_equal(g.actualize(other.pars, "internal").value(r), other.value(r)), "reproducible")
    case.count("delegates")


def filtered(case):
    """The filter keeps a frequency or removes it, and keeps all below the cut-off."""
    rng = case.rng
    n = int(2 ** rng.integers(3, 10))
    delta = float(10 ** rng.uniform(-2, 0))
    qmax = float(rng.uniform(0.05, 0.95)) * np.pi / delta
    f = gen.cls("TerminationRipples")(gen.cls("Gaussian")(1.0), qmax)
    y = rng.normal(size=n) * float(10 ** rng.uniform(-3, 3))
    keep = y.copy()
    out = np.asarray(f.cut_freq(y, delta))
    case.check(np.array_equal(y, keep) and out.shape == y.shape and np.isrealobj(out), "filter-shape", "%s" % (out.shape,))
    a, b = np.fft.rfft(y), np.fft.rfft(out)
    q = 2 * np.pi * np.arange(len(a)) / (n * delta)
    step = q[1]
    eps = 1e-9 * np.max(np.abs(a))
    same, gone = np.abs(a - b) <= eps, np.abs(b) <= eps
    case.check(np.all(same | gone), "filter-partial", "qmax %s, frequencies %s" % (qmax, q[~(same | gone)]))
    case.check(np.all(same[q < qmax - 1.01 * step]), "filter-kept", "qmax %s, frequencies %s" % (qmax, q[~same]))
    case.check(np.all(gone[q > qmax + 1.01 * step]), "filter-removed", "qmax %s, frequencies %s" % (qmax, q[~gone]))
    case.count("filtered")
    case.sig(out[:20].tolist())


GROUPS = {"filtered": (600, 5000, filtered), "long": (1200, 6000, long), "short": (900, 8000, short), "passband": (450, 4000, passband), "delegates": (360, 3000, delegates)}
