"""Generators of inputs, and reference models written from the definitions.

Nothing here calls the code under test except to construct its objects.
"""

import numpy as np

LN2 = np.log(2.0)
S2F = 2.0 * np.sqrt(2.0 * LN2)


# ---------------------------------------------------------------- functions
def cls(name):
    import importlib

    where = {
        "Gaussian": "peaks.gaussian",
        "GaussianOverR": "peaks.gaussianoverr",
        "TerminationRipples": "peaks.terminationripples",
        "Polynomial": "baselines.polynomial",
        "NanoSpherical": "baselines.nanospherical",
        "FromSequence": "baselines.fromsequence",
        "Arbitrary": "baselines.arbitrary",
        "Peak": "peaks.base",
        "Peaks": "peaks.base",
        "Baseline": "baselines.base",
        "BaseFunction": "basefunction",
        "ModelParts": "modelparts",
        "ModelPart": "modelparts",
        "ModelCluster": "modelcluster",
        "ModelCovariance": "modelcluster",
        "AIC": "modelevaluators.aic",
        "AICc": "modelevaluators.aicc",
        "DataClusters": "dataclusters",
        "PDFDataSet": "pdfdataset",
        "PeakExtraction": "peakextraction",
        "PDFPeakExtraction": "pdfpeakextraction",
        "PeakStability": "peakstability",
        "MultimodelSelection": "multimodelselection",
    }[name]
    return getattr(importlib.import_module("diffpy.srmise." + where), name)


def ref_width(maxwidth, angle):
    """Full width at half maximum of the internal width parameter."""
    return maxwidth * np.sqrt(0.5 * (np.sin(angle) + 1.0))


def ref_angle(maxwidth, fwhm):
    return np.arcsin(2.0 * (fwhm / maxwidth) ** 2 - 1.0)


def ref_peak(kind, pos, fwhm, area, r):
    """Peak with position, full width at half maximum and area, from the definition."""
    r = np.asarray(r, float)
    sigma = fwhm / S2F
    v = abs(area) / (sigma * np.sqrt(2 * np.pi)) * np.exp(-((r - pos) ** 2) / (2 * sigma**2))
    if kind == "GaussianOverR":
        v = v / np.abs(r)
    return v


def ref_nano(scale, radius, r):
    r = np.asarray(r, float)
    R = abs(radius)
    x = r / R if R > 0 else r * 0
    inside = (r > 0) & (r < 2 * R)
    return np.where(inside, -abs(scale) * r * (1 - 0.75 * x + x**3 / 16.0), 0.0)


def ref_poly(pars, r):
    r = np.asarray(r, float)
    out = np.zeros_like(r)
    for i, c in enumerate(pars):
        out = out + c * r ** (len(pars) - 1 - i)
    return out


# ---------------------------------------------------------------- grids
def grid(rng, lo=0.2, hi=30.0, nmin=2, nmax=400, uniform=None):
    """A strictly increasing grid of positive positions."""
    n = int(rng.integers(nmin, nmax + 1))
    a = rng.uniform(lo, hi * 0.7)
    step = 10 ** rng.uniform(-2.3, -0.7)
    if uniform is None:
        uniform = rng.random() < 0.7
    if uniform:
        return a + step * np.arange(n)
    return a + np.cumsum(step * rng.uniform(0.2, 1.8, n))


def whole(rng, x, p=0.1):
    """Now and then a grid of whole numbers (as integers) of about the same extent instead."""
    if rng.random() >= p:
        return x
    a = max(int(x[0]), 1)
    return np.arange(a, max(int(x[-1]), a + 2) + 1)


def slices(rng, n):
    """An index range, in one of the ways users write them."""
    k = rng.integers(0, 7)
    i, j = sorted(rng.integers(0, n + 1, 2))
    i, j = int(i), int(j)
    if j == i:
        i, j = max(0, i - 1), min(n, max(0, i - 1) + 1)
    return [
        None,
        slice(None),
        slice(i, None),
        slice(None, j),
        slice(i, j),
        slice(0, n),
        slice(i - n if i < n else i, j),
    ][k]


# ---------------------------------------------------------------- peaks
class PeakSpec:
    """A peak with everything the oracle knows about it."""

    def __init__(self, part, kind, maxwidth, pos, fwhm, area, tr=None):
        self.part, self.kind, self.maxwidth = part, kind, maxwidth
        self.pos, self.fwhm, self.area, self.tr = pos, fwhm, area, tr

    def ref(self, r):
        return ref_peak(self.kind, self.pos, self.fwhm, self.area, r)


def peakfunc(rng, kind=None, maxwidth=None):
    kind = kind or ["Gaussian", "GaussianOverR"][rng.integers(2)]
    maxwidth = maxwidth or float(10 ** rng.uniform(-1.0, 0.6))
    return cls(kind)(maxwidth), kind, maxwidth


def mask(rng, n, p=0.3):
    return [bool(x) for x in rng.random(n) > p]


def peakpars(rng, maxwidth, lo=1.0, hi=20.0):
    pos = float(rng.uniform(lo, hi))
    fwhm = float(maxwidth * rng.uniform(0.05, 0.999))
    area = float(10 ** rng.uniform(-2, 3))
    return pos, fwhm, area


def peak(rng, func=None, free=None, lo=1.0, hi=20.0, removable=True, static_owner=False):
    if func is None:
        func = peakfunc(rng)
    f, kind, mw = func
    pos, fwhm, area = peakpars(rng, mw, lo, hi)
    part = f.actualize([pos, fwhm, area], "pwa", free, removable, static_owner)
    return PeakSpec(part, kind, mw, pos, fwhm, area)


# ---------------------------------------------------------------- baselines
def baseline(rng, which=None, free=None):
    """(part, reference function, name); values of order one on 0..30."""
    which = which or ["poly", "nano", "seq", "arb", "none"][rng.integers(5)]
    if which == "none":
        b = cls("Polynomial")(-1)
        return b.actualize([], "internal"), lambda r: np.zeros_like(np.asarray(r, float)), which
    if which == "poly":
        deg = int(rng.integers(0, 4))
        pars = [float(rng.normal() * 5.0 / 10.0 ** (deg - i)) for i in range(deg + 1)]
        part = cls("Polynomial")(deg).actualize(pars, "internal", free=free if free is None else free(deg + 1))
        return part, lambda r: ref_poly(pars, r), which
    if which == "nano":
        pars = [float(rng.uniform(0.05, 3)), float(rng.uniform(1, 20))]
        part = cls("NanoSpherical")().actualize(pars, "internal", free=free if free is None else free(2))
        return part, lambda r: ref_nano(pars[0], pars[1], r), which
    if which == "seq":
        n = int(rng.integers(6, 30))
        x = np.linspace(0.0, 40.0, n)
        y = rng.normal(size=n) * 2.0
        part = cls("FromSequence")(x, y).actualize([], "internal")
        return part, ref_spline(x, y), which
    if which == "arb":
        p = [float(rng.normal()), float(rng.uniform(0.2, 2.0))]
        part = cls("Arbitrary")(2, arb_value, arb_jacobian).actualize(p, "internal", free=free if free is None else free(2))
        return part, lambda r: arb_value(p, np.asarray(r, float)), which
    raise ValueError(which)


def arb_value(pars, r):
    return pars[0] * np.sin(pars[1] * r)


def arb_jacobian(pars, r, free):
    j = [None, None]
    if free[0]:
        j[0] = np.sin(pars[1] * r)
    if free[1]:
        j[1] = pars[0] * r * np.cos(pars[1] * r)
    return j


def ref_spline(x, y):
    """Interpolating cubic spline through the points (not-a-knot ends)."""
    from scipy.interpolate import make_interp_spline

    s = make_interp_spline(x, y, k=3)
    return lambda r: s(np.asarray(r, float))


def snapshot(part):
    """Everything observable of a part."""
    return (id(part.owner()), part.pars.tolist(), part.free.tolist(), part.removable, part.static_owner)


def snapmodel(model):
    return [snapshot(p) for p in model]


def same_part(a, b):
    return (
        a.pars.tolist() == b.pars.tolist()
        and a.free.tolist() == b.free.tolist()
        and a.removable == b.removable
        and a.static_owner == b.static_owner
    )
