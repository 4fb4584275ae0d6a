"""C01: derivatives of every function and model agree with the values they differentiate."""

import numpy as np

from lib import gen

TECHNIQUE = "differential oracle, analytic derivatives against finite differences of the real functions"
NOTE = "Seeded exploration of functions, parameters, fixed flags, grids, ranges. Trusts numpy and that values are right (C02)."
RULE = """Cases draw a function (or a model of several parts), internal parameters inside the domain, a mask of free
parameters, a grid and an index range; the oracle is the five-point finite difference of the values the code itself
reports. Non-trivial: at least one free parameter whose derivative is not zero on the range; distinguished by
function, parameters, mask and range."""
ASSUMPTIONS = ["Arbitrary functions have the derivatives their author gives them; the check supplies correct ones.",
               "Points within a finite-difference step of the edge of the nanoparticle baseline's domain are left out."]


def steps(part, kind):
    p = part.pars
    if kind in ("Gaussian", "GaussianOverR"):
        f = part.owner()
        base = f.base if getattr(f, "base", None) is not None else f
        w = gen.ref_width(base.maxwidth, p[1])
        s = np.sin(p[1]) + 1.0
        return [w * 2e-3, 2e-3 * min(1.0, np.sqrt(s)), abs(p[2]) * 1e-2]
    return [max(abs(q), 0.1) * 2e-3 for q in p]


def height(part, kind):
    """Height of a peak, below which its far tails do not matter."""
    if kind not in ("Gaussian", "GaussianOverR"):
        return 0.0
    f = part.owner()
    base = f.base if getattr(f, "base", None) is not None else f
    p = part.pars
    return float(gen.ref_peak(kind, p[0], gen.ref_width(base.maxwidth, p[1]), p[2], p[0]))


def fd(f, pars, i, h):
    """Five-point central difference of f(pars) in parameter i, and an error scale."""
    def at(k):
        q = np.array(pars, float)
        q[i] += k * h
        return np.asarray(f(q), float)

    m2, m1, p1, p2 = at(-2), at(-1), at(1), at(2)
    d = (m2 - 8 * m1 + 8 * p1 - p2) / (12 * h)
    d2 = (p1 - m1) / (2 * h)
    mag = np.maximum(np.max(np.abs(m2)) if m2.size else 0, np.max(np.abs(p2)) if p2.size else 0)
    return d, d2, 1e-12 * mag / h


def compare(case, jac, d, d2, noise, key, what, valid=None):
    """Compare with the finite difference; its own error is estimated by the lower-order one."""
    jac = np.asarray(jac, float)
    case.counts["monitor:" + key] += 1
    if jac.shape != np.shape(d):
        case.fail(key, "%s: derivative has shape %s, value has %s" % (what, jac.shape, np.shape(d)))
        return
    big = max(np.max(np.abs(d)) if np.size(d) else 0.0, 1e-290)
    err = np.abs(jac - d)
    tol = 1e-5 * np.abs(d) + 2e-2 * np.abs(d - d2) + 1e-6 * big + noise
    bad = ~(err <= tol)
    if valid is not None:
        bad &= valid
    if np.any(bad):
        i = int(np.argmax(np.where(bad, np.nan_to_num(err, nan=np.inf), -1).ravel()))
        case.fail(key, "%s: derivative %r, rate of change %r" % (what, float(jac.ravel()[i]), float(np.ravel(d)[i])), element=i)


def edges(part, x):
    """Where the value is smooth in the parameters."""
    if type(part.owner()).__name__ == "NanoSpherical":
        R = abs(part.pars[1])
        return np.abs(np.asarray(x) - 2 * R) > 0.01 * max(R, 0.1)
    return np.ones(np.shape(x), bool)


def single(case, part, kind, x, what):
    rng = case.rng
    n = len(x)
    keep, pkeep, fkeep = x.copy(), part.pars.copy(), part.free.copy()
    npars = part.npars()
    hs = steps(part, kind)
    top = height(part, kind)
    trial = part.copy()
    trial.free[:] = True

    def value(rr, s=None):
        def f(q):
            trial.pars[:] = q
            return trial.value(rr, s) if s is not None else trial.value(rr)
        return f

    s = gen.slices(rng, n)
    one = float(x[int(rng.integers(n))])
    if kind in ("Gaussian", "GaussianOverR") and rng.random() < 0.5:
        one = abs(float(pkeep[0] + (x[1] - x[0]) * rng.normal())) + 0.05
    point = [x[[int(rng.integers(n))]]][0]
    for rr, ss, label in ((x, None, "grid"), (x, s, "range"), (one, None, "point"), (point, None, "one-point-grid")):
        jac = part.jacobian(rr) if ss is None else part.jacobian(rr, ss)
        case.check(len(jac) == npars, "one-entry-per-parameter", what)
        for i in range(npars):
            if not part.free[i]:
                case.check(jac[i] is None, "fixed-has-none", "%s parameter %d over %s" % (what, i, label))
                continue
            if jac[i] is None:
                case.fail("free-has-derivative", "%s parameter %d over %s is None" % (what, i, label))
                continue
            d, d2, noise = fd(value(rr, ss), pkeep, i, hs[i])
            noise = noise + 1e-8 * top / hs[i]
            compare(case, jac[i], d, d2, noise, "derivative-" + label, "%s parameter %d over %s %s" % (what, i, label, ss),
                    edges(part, rr))
            case.count("derivatives")
            if np.any(d != 0):
                case.sig(what, i, label, ss, tuple(part.free))
            if ss is not None:
                outside = np.ones(n, bool)
                outside[ss] = False
                case.check(not np.any(np.asarray(jac[i])[outside]), "zero-outside-range", what)
    case.check(np.array_equal(part.pars, pkeep) and np.array_equal(part.free, fkeep), "parameters-untouched", what)
    case.check(np.array_equal(x, keep), "grid-untouched", what)


def peakpart(rng, free, ripples=False):
    f, kind, mw = gen.peakfunc(rng)
    base = f
    if ripples:
        f = gen.cls("TerminationRipples")(base, float(rng.uniform(8, 40)))
    pos, fwhm, area = gen.peakpars(rng, mw)
    ang = gen.ref_angle(mw, fwhm)
    if rng.random() < 0.3:
        area = -area
    if rng.random() < 0.3:
        ang = np.pi - ang
    p = f.actualize([1.0, 0.0, 1.0], "internal", free)
    p.pars[:] = [pos, ang, area]
    return p, kind, (pos, fwhm, area, mw)


def peaks(case):
    rng = case.rng
    part, kind, (pos, fwhm, area, mw) = peakpart(rng, gen.mask(rng, 3))
    if rng.random() < 0.6:
        x = pos + fwhm * np.linspace(-3, 3, int(rng.integers(5, 80)))
        x = x[x > 0.02]
    else:
        x = gen.whole(rng, gen.grid(rng, nmax=80), 0.2)
    case.note(kind=kind, pars=part.pars.tolist(), free=part.free.tolist())
    single(case, part, kind, x, (kind, mw, tuple(part.pars)))


def ripples(case):
    rng = case.rng
    part, kind, (pos, fwhm, area, mw) = peakpart(rng, gen.mask(rng, 3), True)
    q = part.owner().qmax
    k = rng.integers(4)
    dr = [np.pi / q * rng.uniform(0.9, 1.1), np.pi / q * rng.uniform(0.1, 0.9), np.pi / q * rng.uniform(1, 2.5), np.pi / q][k]
    n = int(rng.integers(2, 80))
    x = max(0.1, pos - rng.uniform(0, 1) * n * dr) + dr * np.arange(n)
    case.note(kind=kind, pars=part.pars.tolist(), qmax=q, dr=float(dr), n=n)
    case.count("ripple cases")
    single(case, part, kind, x, ("TR", kind, mw, q, tuple(part.pars)))


def baselines(case):
    rng = case.rng
    part, ref, which = gen.baseline(rng, ["poly", "nano", "seq", "arb", "none"][rng.integers(5)], free=lambda n: gen.mask(rng, n))
    x = gen.whole(rng, gen.grid(rng, nmax=60))
    if which == "nano":
        part.pars[:] = part.pars * rng.choice([-1, 1], 2)
        if rng.random() < 0.5:
            x = np.linspace(-0.5, 2.5, 31) * abs(part.pars[1])
    if which == "seq":
        x = np.linspace(1, 39, 20)
    case.note(which=which, pars=part.pars.tolist(), free=part.free.tolist())
    single(case, part, which, x, (which, tuple(part.pars), x[0]))


def arbitrary(case):
    """Functions without a derivative refuse only if there is something to differentiate."""
    rng = case.rng
    A = gen.cls("Arbitrary")
    a = A(2, gen.arb_value)
    p = a.actualize([1.0, 0.7], "internal", free=gen.mask(rng, 2, 0.5))
    x = gen.grid(rng, nmax=30)
    if np.any(p.free):
        case.raises((NotImplementedError,), lambda: p.jacobian(x), "no-derivative-refused")
    else:
        case.check([j for j in p.jacobian(x)] == [None, None], "nothing-free")
    case.sig(tuple(p.free), x[0])


def models(case):
    """Gradient of the residual of a whole model."""
    rng = case.rng
    parts = []
    kinds = []
    for _ in range(rng.integers(1, 5)):
        p, kind, _ = peakpart(rng, gen.mask(rng, 3, 0.4), rng.random() < 0.25)
        parts.append(p)
        kinds.append(kind)
    if rng.random() < 0.7:
        b, ref, which = gen.baseline(rng, ["poly", "nano", "seq", "arb"][rng.integers(4)], free=lambda n: gen.mask(rng, n))
        parts.insert(int(rng.integers(len(parts) + 1)) if rng.random() < 0.3 else len(parts), b)
        kinds.insert(parts.index(b), which)
    ModelParts = gen.cls("ModelParts")
    m = ModelParts(parts)
    x = gen.grid(rng, lo=1, hi=15, nmin=10, nmax=60, uniform=True)
    if rng.random() < 0.15:
        x = np.arange(1, int(rng.integers(12, 20)))
    n = len(x)
    y = rng.normal(size=n)
    err = rng.uniform(0.2, 3, n)
    free = np.concatenate([p.pars[p.free] for p in parts])
    if len(free) == 0:
        case.raises((ValueError,), lambda: m.residual_jacobian(free, x, y, err, None), "no-free-parameters")
        return
    s = [None, slice(int(rng.integers(0, n // 2)), int(rng.integers(n // 2 + 1, n + 1)))][rng.integers(2)]
    case.close(m.unpack_freepars(), free, "order-of-free-parameters", rtol=0)
    total = sum(p.value(x) if s is None else p.value(x, s) for p in parts)
    sl = slice(None) if s is None else s
    scale = np.max(np.abs(total)) + 10
    case.close(m.residual(free.copy(), x, y, err, s), ((y - total) / err)[sl], "residual", rtol=1e-9, atol=1e-9 * scale)
    jac = m.residual_jacobian(free.copy(), x, y, err, s)
    case.check(np.shape(jac) == (len(free), n if s is None else s.stop - s.start), "gradient-shape", np.shape(jac))
    tops = np.concatenate([np.full(p.npars(), height(p, k))[p.free] for p, k in zip(parts, kinds)]) / np.min(err)
    hs = np.concatenate([np.array(steps(p, k))[p.free] for p, k in zip(parts, kinds)])
    ok = np.all([edges(p, x) for p in parts], axis=0)[sl]
    for i in range(len(free)):
        d, d2, noise = fd(lambda q: m.residual(q, x, y, err, s), free, i, hs[i])
        if np.shape(jac)[0] > i:
            compare(case, jac[i], d, d2, noise + (1e-12 * scale + 1e-8 * tops[i]) / hs[i], "model-gradient", "row %d of %s" % (i, kinds), ok)
            case.count("gradient rows")
    if s is None:  # one uncertainty for all points, and a single point
        e = float(err[0])
        case.close(m.residual(free.copy(), x, y, e), (y - total) / e, "residual-one-error", rtol=1e-9, atol=1e-9 * scale / e)
        case.close(m.residual_jacobian(free.copy(), x, y, e), jac * (err / e), "gradient-one-error", rtol=1e-9, atol=1e-250 + 1e-12 * np.max(np.abs(jac * err)) / e)
        if not any(getattr(p.owner(), "base", None) for p in parts):
            i = int(rng.integers(n))
            case.close(m.residual(free.copy(), float(x[i]), float(y[i]), e), (y[i] - total[i]) / e, "residual-point", rtol=1e-9, atol=1e-9 * scale / e)
            got = m.residual_jacobian(free.copy(), float(x[i]), float(y[i]), e)
            case.close(got, jac[:, i] * (err[i] / e), "gradient-point", rtol=1e-9, atol=1e-250 + 1e-12 * np.max(np.abs(jac * err)) / e)
            case.count("gradients at a point")
    case.sig(tuple(kinds), tuple(free), s)
    case.note(kinds=kinds, nfree=len(free), range=s)


GROUPS = {
    "peaks": (2800, 14000, peaks),
    "ripples": (2000, 10000, ripples),
    "baselines": (2800, 14000, baselines),
    "arbitrary": (80, 240, arbitrary),
    "models": (2000, 10000, models),
}
REQUIRED = {"derivatives": 3000, "gradient rows": 500, "ripple cases": 100, "gradients at a point": 30}
