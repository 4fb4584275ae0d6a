"""C16: scaling a peak at a point, and matching peaks to a value."""

import numpy as np

from lib import gen

TECHNIQUE = "analytic oracle of the scaled peak (closed form from the definition) on real scalings and matchings, with by-value snapshots"
NOTE = "Seeded exploration of peaks, points, factors, fixed parameters, limits and groups."
RULE = """Cases draw a peak, a point and a factor, or a group of peaks and a target. Non-trivial: the peak or group was scaled by a
factor other than one, or refused; distinguished by the parameters that result."""
REQUIRED = {"scaled": 200, "refused": 100, "partly fixed scaled": 20, "partly fixed refused": 50, "matched": 30, "matched around fixed": 10, "nothing scaled": 10, "rescaled none": 2,
            "no maximum": 3, "at maximum": 10, "interrupted": 60}


class Peak:
    """What the definition says about a peak and its scaling."""

    def __init__(self, rng, lo=0.3, hi=12.0):
        self.kind = ["Gaussian", "GaussianOverR"][rng.integers(2)]
        self.maxwidth = float(10 ** rng.uniform(-0.5, 0.8))
        self.fwhm = self.maxwidth * float(rng.uniform(0.05, 0.999))
        self.area = float(10 ** rng.uniform(-1, 2))
        self.pos = float(rng.uniform(lo, hi))
        self.base = gen.cls(self.kind)(self.maxwidth)
        self.owner = gen.cls("TerminationRipples")(self.base, float(rng.uniform(10, 40))) if rng.random() < 0.25 else self.base
        self.free = gen.mask(rng, 3, float(rng.choice([0, 0.3, 0.6])))
        self.sigma = self.fwhm / gen.S2F
        self.codemax = None
        self.known()

    def known(self):
        if self.kind == "Gaussian":
            self.rmax = self.pos
        else:
            d = self.pos**2 - 4 * self.sigma**2
            self.rmax = None if d <= 0 else 0.5 * (self.pos + np.sqrt(d))
        self.height = None if self.rmax is None else float(self.value(self.rmax))

    def part(self):
        return self.owner.actualize([self.pos, self.fwhm, self.area], "pwa", self.free)

    def value(self, x):
        return gen.ref_peak(self.kind, self.pos, self.fwhm, self.area, x)

    def scaled(self, x, scale):
        """(position, fwhm) of the scaled peak, None if there is none, or "unclear" at the very limit."""
        if scale == 1:
            return self.pos, self.fwhm
        if not scale > 0:
            return None
        if self.rmax is None:
            return None
        d = x - self.rmax
        if x == self.codemax or (d == 0 and self.kind == "Gaussian"):
            return None
        if d == 0:
            return "unclear"
        inv = 1 / self.sigma**2 - 2 * np.log(scale) / d**2
        if abs(inv) < 1e-9 * max(1 / self.sigma**2, abs(2 * np.log(scale) / d**2)):
            return "unclear"
        if inv <= 0:
            return None
        sigma = 1 / np.sqrt(inv)
        fwhm = sigma * gen.S2F
        if abs(fwhm / self.maxwidth - 1) < 1e-7 or fwhm < 1e-5 * self.maxwidth or abs(d) < 1e-6 * self.sigma or abs(scale - 1) < 1e-7:
            return "unclear"
        if fwhm > self.maxwidth:
            return None
        if self.kind == "Gaussian":
            return self.pos, fwhm
        if abs(sigma / self.rmax - 1) < 1e-6 or abs(self.pos / (2 * self.sigma) - 1) < 1e-6:
            return "unclear"
        if sigma > self.rmax:
            return None  # its maximum would be elsewhere
        return self.rmax + sigma**2 / self.rmax, fwhm

    def adjustable(self, x, scale):
        if not any(self.free):
            return False
        s = self.scaled(x, scale)
        if s is None or s == "unclear":
            return s if s else False
        if scale == 1:
            return True
        if not (self.free[1] and self.free[2]):
            return False
        return self.kind == "Gaussian" or self.free[0]


def error():
    from diffpy.srmise.srmiseerrors import SrMiseScalingError

    return SrMiseScalingError


def unripple(owner):
    return getattr(owner, "base", None) or owner


def compare(case, p, pars, x, scale, key):
    """The internal parameters are those of the scaled peak."""
    base = p.base
    q = base.actualize(pars, "internal")
    w = gen.ref_width(p.maxwidth, pars[1])
    tol = 1e-9 + 4e-15 * (p.maxwidth / w) ** 2 * (1 + (x - p.rmax) ** 2 / p.sigma**2 + (x - p.rmax) ** 2 / (w / gen.S2F) ** 2)
    if tol > 1e-4:
        return
    case.close(q.value(np.array([x]))[0], scale * p.value(x), key + "-value", rtol=tol, atol=1e-300)
    m = base.max(pars)
    case.close(m[0], p.rmax, key + "-maximum-position", rtol=1e-9 + tol)
    case.close(m[1], p.height, key + "-maximum-height", rtol=1e-9 + tol)
    r = p.rmax + p.sigma * np.array([-1e-3, 1e-3])
    case.check(np.all(q.value(r) <= p.height * (1 + 1e-9 + tol)), key + "-is-maximum")
    case.check(w <= p.maxwidth * (1 + 1e-9) and pars[2] > 0, key + "-valid", pars)


def single(case):
    rng = case.rng
    p = Peak(rng)
    x = float([p.pos + p.fwhm * rng.normal(), rng.uniform(0.2, 14), p.pos + 0.1 * p.fwhm * rng.normal()][rng.integers(3)])
    if x <= 0.05:
        x = 0.05
    if rng.random() < 0.08 and p.rmax:
        x = p.codemax = float(p.base.max(p.part().pars)[0])
        case.count("at maximum")
    scale = float([10 ** rng.normal(), np.exp(0.1 * rng.normal()), 1.0, 0.0, -1.0][rng.choice(5, p=[0.45, 0.45, 0.04, 0.03, 0.03])])
    part = p.part()
    given = part.pars.copy()
    if p.rmax is None:
        case.raises(ValueError, lambda: p.base.max(given), "no-maximum")
        case.count("no maximum")
    else:
        m = p.base.max(given)
        case.close(m, [p.rmax, p.height], "max", rtol=1e-9)
    want = p.scaled(x, scale)
    if isinstance(want, str):
        return
    out = None
    keep = part.pars.copy()
    with np.errstate(all="ignore"):
        if want is None:
            case.raises(error(), lambda: p.owner.scale_at(given, x, scale), "refused", "%s %s at %s by %s" % (p.kind, (p.pos, p.fwhm, p.area, p.maxwidth), x, scale))
            case.count("refused")
            case.sig("refused", keep.tolist())
        else:
            out = np.array(p.owner.scale_at(given, x, scale))
            if scale == 1:
                case.check(np.array_equal(out, keep), "unscaled")
            else:
                compare(case, p, out, x, scale, "scaled")
                case.count("scaled")
                case.sig(out.tolist())
        case.check(np.array_equal(given, keep), "given-untouched")
        # the same for a part, which also has fixed parameters
        free = part.free.copy()
        ok = p.adjustable(x, scale)
        got = part.scale_at(x, scale)
    case.check(bool(got) == ok, "part-scaled", "%s %s free %s at %s by %s: %s" % (p.kind, (p.pos, p.fwhm, p.area, p.maxwidth), p.free, x, scale, got))
    case.check(np.array_equal(part.free, free) and part.owner() is p.owner, "part-flags")
    if not got:
        case.check(np.array_equal(part.pars, keep), "part-unchanged", "%s became %s" % (keep, part.pars))
        if want is not None:
            case.count("partly fixed refused")
    else:
        case.check(np.array_equal(part.pars[~free], keep[~free]), "part-fixed")
        case.check(want is None or np.array_equal(part.pars, out), "part-same", "%s and %s" % (part.pars, out))
        if not all(p.free):
            case.count("partly fixed scaled")
    case.note(kind=p.kind, pars=(p.pos, p.fwhm, p.area, p.maxwidth), x=x, scale=scale, free=p.free, scaled=got)


def snapshot(peaks):
    return [(id(q.owner()), q.pars.tolist(), q.free.tolist(), q.removable, q.static_owner) for q in peaks]


def matching(case):
    rng = case.rng
    n = int(rng.integers(1, 6))
    c = float(rng.uniform(2, 9))
    ps = [Peak(rng, c - 1, c + 1) for _ in range(n)]
    for p in ps:
        p.owner = p.base  # sums of values are those of the definition
        p.area *= p.fwhm
        p.known()
    x = float(c + 1.5 * rng.normal())
    x = max(x, 0.2)
    peaks = gen.cls("Peaks")([p.part() for p in ps])
    peaks.sort()
    ps.sort(key=lambda p: p.pos)
    height = float(sum(p.value(x) for p in ps))
    y = float(height * [np.exp(0.3 * rng.normal()), np.exp(rng.normal()), 0.0, -1.0, rng.uniform(0, 1)][rng.choice(5, p=[0.5, 0.3, 0.05, 0.05, 0.1])])
    if rng.random() < 0.05:
        x, height = c + 1e4, 0.0
        y = 1.0
    before = snapshot(peaks)
    real = peaks.value(np.array([x]))[0]
    case.close(real, height, "height", rtol=1e-6, atol=1e-300)
    with np.errstate(all="ignore"):
        got = peaks.match_at(x, y)
    case.check(len(peaks) == n and [s[0] for s in snapshot(peaks)] == [s[0] for s in before] and [s[2:] for s in snapshot(peaks)] == [s[2:] for s in before], "match-flags")
    for a, b in zip(snapshot(peaks), before):
        case.check(all(f or u == v for u, v, f in zip(a[1], b[1], b[2])), "match-fixed", "%s became %s" % (b, a))
    changed = snapshot(peaks) != before
    case.check(got or not changed, "unreported-change", "%s became %s" % (before, snapshot(peaks)))
    after = float(sum(q.value(np.array([x]))[0] for q in peaks))
    case.note(n=n, height=height, y=y, after=after, got=got)
    if height < 1e-250:
        if real:
            return
        case.check(not got, "nothing-there")
        case.count("nothing scaled")
        return
    scale = y / height
    can = [p.adjustable(x, scale) for p in ps]
    if "unclear" in can or abs(scale - 1) < 1e-6:
        return
    if all(can):
        case.check(got, "match-all")
        case.close(after, y, "matched", rtol=1e-6)
        case.count("matched")
        case.sig("matched", snapshot(peaks)[0][1])
        for p, q in zip(ps, peaks):
            compare(case, p, q.pars, x, scale, "each-scaled")
        return
    if not any(can):
        case.check(not got, "match-none")
        case.count("nothing scaled")
        case.sig("none", before[0][1])
        return
    fixed = sum(float(p.value(x)) for p, c in zip(ps, can) if not c)
    if abs(fixed / height - 1) < 1e-6 or abs(fixed - y) < 1e-6 * abs(y):
        return
    if fixed < y and fixed < height:
        scale2 = (y - fixed) / (height - fixed)
        can2 = [c and p.adjustable(x, scale2) for p, c in zip(ps, can)]
        if "unclear" in can2:
            return
        if can2 == can:
            case.check(got, "match-around")
            case.close(after, y, "matched-around", rtol=1e-6)
            case.count("matched around fixed")
            case.sig("around", snapshot(peaks)[0][1])
        elif not any(can2):
            case.check(not got, "match-around-none")
            case.count("rescaled none")
        else:
            case.check(got, "match-around-some")
            scale = scale2
            can = can2
        for p, q, b, c in zip(ps, peaks, before, can2):
            if c:
                compare(case, p, q.pars, x, scale2, "around-scaled")
            else:
                case.check(q.pars.tolist() == b[1], "around-kept", "%s became %s" % (b, q.pars))
    else:
        case.check(got, "match-some")
        for p, q, b, c in zip(ps, peaks, before, can):
            if c:
                compare(case, p, q.pars, x, scale, "some-scaled")
            else:
                case.check(q.pars.tolist() == b[1], "some-kept", "%s became %s" % (b, q.pars))


def interrupted(case):
    """A peak that cannot say how it is scaled leaves all as they were."""
    rng = case.rng
    n = int(rng.integers(1, 5))
    c = float(rng.uniform(3, 9))
    ps = [Peak(rng, c - 1, c + 1) for _ in range(n)]
    G = gen.cls("Gaussian")
    what = [NotImplementedError, ValueError, ZeroDivisionError, KeyError][rng.integers(4)]

    class Unscalable(G):
        def scale_at(self, pars, x, scale):
            raise what("no scaling here")

    odd = Unscalable(1.0).actualize([c + rng.normal(), 0.5, 5.0], "pwa", gen.mask(rng, 3, 0.2))
    odd.free[0] = True
    every = [p.part() for p in ps]
    every.insert(int(rng.integers(n + 1)), odd)
    peaks = gen.cls("Peaks")(every)
    x = float(c + 0.3 * rng.normal())
    y = float(peaks.value(np.array([x]))[0] * np.exp(0.5 * rng.normal()))
    before, flags, r = snapshot(peaks), [p.free.tolist() for p in every], np.linspace(1, 12, 30)
    v = peaks.value(r)
    with np.errstate(all="ignore"):
        got = peaks.match_at(x, y)
    case.check(got is False or got == 0, "interrupted-reported", "%s" % got)
    case.check(snapshot(peaks) == before and np.array_equal(peaks.value(r), v), "interrupted-unchanged", "%s became %s" % (before, snapshot(peaks)))
    case.check([p.free.tolist() for p in peaks] == flags, "interrupted-flags")
    case.count("interrupted")
    case.sig("interrupted", before[0][1])


GROUPS = {"interrupted": (480, 3000, interrupted), "single": (4800, 30000, single), "matching": (3200, 20000, matching)}
