"""Generated clusters of data with models, and reference qualities."""

import numpy as np

from lib import gen


class Scene:
    """Data made of peaks and a baseline, with everything known about it."""


def scene(rng, npeaks=None, kind=None, ripples=0.2, noise=None, baseline=None, n=None, grid=None, freep=0.2, sep=(0.9, 2.5)):
    s = Scene()
    s.kind = kind or ["Gaussian", "GaussianOverR"][rng.integers(2)]
    s.maxwidth = float(rng.uniform(0.4, 1.2))
    base = gen.cls(s.kind)(s.maxwidth)
    s.base = base
    s.pf = base
    s.qmax = 0.0
    if rng.random() < ripples:
        s.qmax = float(rng.uniform(15, 40))
        s.pf = gen.cls("TerminationRipples")(base, s.qmax)
    k = int(rng.integers(1, 4)) if npeaks is None else npeaks
    n = int(rng.integers(30, 160)) if n is None else n
    pos = rng.uniform(1.5, 8.0)
    s.true = []
    for _ in range(k):
        fwhm = s.maxwidth * rng.uniform(0.25, 0.8)
        s.true.append([float(pos), float(fwhm), float(rng.uniform(0.5, 4.0) * (pos if s.kind == "GaussianOverR" else 1.0))])
        pos += fwhm * rng.uniform(*sep)
    lo = s.true[0][0] - s.true[0][1] * rng.uniform(0.8, 2.5)
    hi = s.true[-1][0] + s.true[-1][1] * rng.uniform(0.8, 2.5)
    lo = max(lo, 0.2)
    s.x = np.linspace(lo, hi, n)
    if rng.random() < 0.15 and not s.qmax:
        s.x = np.sort(np.concatenate([[lo, hi], rng.uniform(lo, hi, n - 2)]))
        while np.min(np.diff(s.x)) <= 1e-6:
            s.x = np.sort(np.concatenate([[lo, hi], rng.uniform(lo, hi, n - 2)]))
    s.peaks = [s.pf.actualize(p, "pwa") for p in s.true]
    s.blname = baseline or ["none", "none", "poly", "nano", "seq", "None"][rng.integers(6)]
    if s.blname == "None":
        s.bl = None
        bly = s.x * 0
    else:
        s.bl, f, _ = gen.baseline(rng, s.blname, free=lambda m: gen.mask(rng, m, freep))
        bly = f(s.x)
    s.clean = sum(p.value(s.x) for p in s.peaks) + bly
    h = max(np.max(p.value(s.x)) for p in s.peaks)
    s.height = h
    s.noise = float(10 ** rng.uniform(-3, -0.7) if noise is None else noise) * h
    s.y = s.clean + s.noise * rng.normal(size=n)
    s.err = np.full(n, max(s.noise, 1e-3 * h)) * (rng.uniform(0.5, 2.0, n) if rng.random() < 0.5 else 1.0)
    s.method = gen.cls(["AIC", "AICc"][rng.integers(2)])
    return s


def start(rng, s, away=0.1, freep=0.2, fixed_true=True, removep=0.8, drop=0.0, extra=0.0):
    """A starting model: the true peaks moved, some parameters fixed."""
    parts = []
    for p in s.true:
        if rng.random() < drop:
            continue
        q = [p[0] + away * p[1] * rng.normal(), min(p[1] * np.exp(away * rng.normal()), s.maxwidth * 0.999), p[2] * np.exp(2 * away * rng.normal())]
        parts.append(s.pf.actualize(q, "pwa", gen.mask(rng, 3, freep), bool(rng.random() < removep)))
    while rng.random() < extra:
        q = [float(rng.uniform(s.x[0], s.x[-1])), float(s.maxwidth * rng.uniform(0.05, 0.9)), float(rng.uniform(0.01, 2))]
        parts.append(s.pf.actualize(q, "pwa", gen.mask(rng, 3, freep), bool(rng.random() < removep)))
    parts.sort(key=lambda p: p["position"])
    return gen.cls("Peaks")(parts)


def cluster(model, s, sl=None, bl="own", x=None, y=None, err=None):
    b = s.bl if isinstance(bl, str) else bl
    return gen.cls("ModelCluster")(
        model, b, s.x if x is None else x, s.y if y is None else y, s.err if err is None else err, sl, s.method, [s.pf])


def refvalue(mc):
    """Model of a cluster on its range: baseline plus each of the peaks."""
    x, s = mc.r_data, mc.slice
    v = np.zeros(len(x))[s]
    if mc.baseline is not None:
        v = v + mc.baseline.value(x, s)[s]
    for p in mc.model:
        v = v + p.value(x, s)[s]
    return v


def refchisq(mc):
    s = mc.slice
    return float(np.sum(((mc.y_data[s] - refvalue(mc)) / mc.y_error[s]) ** 2))


def freecount(parts):
    return int(sum(int(np.sum(p.free)) for p in parts))


def refstat(name, chisq, k, n):
    if name == "AIC":
        return chisq + 2.0 * k
    n = max(n, k + 2)
    return chisq + 2.0 * k + 2.0 * k * (k + 1) / (n - k - 1)


def refquality(mc):
    return refstat(mc.error_method.__name__, refchisq(mc), freecount(mc.model), len(mc.r_data[mc.slice]))


class Protected:
    """The promises made about each peak of a model: fixed parameters and removability."""

    def __init__(self, model):
        self.items = [self.describe(p) for p in model]

    @staticmethod
    def describe(p):
        return (id(p.owner()), tuple(p.free.tolist()), bool(p.removable), [None if f else float(v) for v, f in zip(p.pars, p.free)])

    @staticmethod
    def match(a, b):
        if a[:3] != b[:3]:
            return False
        return all((u is None and v is None) or (u is not None and v is not None and abs(u - v) <= 1e-9 * max(1.0, abs(u))) for u, v in zip(a[3], b[3]))

    def audit(self, case, model, key, may_remove=True, may_add=False, extra=(), msg=""):
        """Every peak of the model is one of those promised, and the protected ones are all there."""
        left = list(self.items) + list(extra)
        now = sorted((self.describe(p) for p in model), key=lambda d: sum(d[1]))
        missing = []
        for d in now:
            for k, it in enumerate(left):
                if self.match(it, d):
                    del left[k]
                    break
            else:
                if not may_add:
                    missing.append(d)
        case.check(not missing, key + "-fixed", "%s peaks %s are none of those before %s" % (msg, missing, self.items))
        lost = [it for it in left if not it[2] or not may_remove]
        ext = [e for e in extra]
        lost = [it for it in lost if it not in ext]
        case.check(not lost, key + "-protected", "%s peaks lost: %s" % (msg, lost))


def frozen(*arrays):
    """Snapshot of arrays, to be compared with `untouched`."""
    return [(a, a.copy()) for a in arrays]


def untouched(case, snap, key, msg=""):
    case.check(all(np.array_equal(a, b, equal_nan=True) for a, b in snap), key, msg)


def model_equal(a, b):
    return len(a) == len(b) and all(gen.same_part(p, q) and p.owner() is q.owner() for p, q in zip(a, b))


def sorted_by_position(model):
    pos = [p["position"] for p in model]
    return all(a <= b for a, b in zip(pos, pos[1:]))
