"""C08: pruning and augmenting."""

import numpy as np

from lib import clusters, gen

TECHNIQUE = "quality-ordering and conservation monitors around real prunes and augments, with planted spurious and missing peaks"
NOTE = "Seeded exploration of noisy data, over- and underfitted models with fixed and protected peaks, ranges and baselines."
RULE = """Cases draw data of one to four peaks, a model with spurious and missing peaks some of which are fixed or protected,
and for augmenting a source model. Non-trivial: the number of peaks changed, or a protected or fixed one was present;
distinguished by outcome and model."""


def prune(case):
    rng = case.rng
    s = clusters.scene(rng, npeaks=int(rng.integers(1, 4)), ripples=0.1, n=int(rng.integers(30, 90)))
    model = clusters.start(rng, s, away=float(rng.choice([0.02, 0.1, 0.4])), freep=float(rng.choice([0, 0.3])), removep=float(rng.choice([1, 0.7, 0.2])),
                           drop=float(rng.choice([0, 0.4])), extra=float(rng.choice([0, 0.4, 0.6])))
    n = len(s.x)
    sl = None
    if rng.random() < 0.3:
        i = int(rng.integers(0, n // 3))
        sl = slice(i, n - int(rng.integers(0, n // 3)))
    mc = clusters.cluster(model, s, sl)
    run(case, s, mc, lambda: mc.prune(), "prune", clusters.Protected(mc.model))


def spurious(case):
    """A model that explains the data, and peaks on top of it that contribute nothing."""
    rng = case.rng
    many = rng.random() < 0.25
    s = clusters.scene(rng, npeaks=int(rng.integers(6, 11) if many else rng.integers(1, 5)), ripples=0.0 if many else 0.1,
                       n=int(rng.integers(100, 200) if many else rng.integers(40, 120)), sep=(1.0, 3), noise=0.0)
    if many:
        case.count("long models")
    s.y = s.clean
    s.err = s.err * rng.uniform(0.5, 10)
    true = [s.pf.actualize(p, "pwa", gen.mask(rng, 3, 0.4), bool(rng.random() < 0.5)) for p in s.true]
    extra = []
    for _ in range(rng.integers(1, 5)):
        free = gen.mask(rng, 3, 0.5)
        free[2] = False  # so that they cannot take over from the others
        if not any(free):
            free[int(rng.integers(2))] = True
        q = [float(rng.uniform(s.x[0], s.x[-1])), s.maxwidth * float(rng.uniform(0.2, 0.6)), 1e-9 * s.height * s.maxwidth]
        extra.append(s.pf.actualize(q, "pwa", free))
    protected = [p for p in extra if rng.random() < 0.15]
    for p in protected:
        p.removable = False
    model = gen.cls("Peaks")(true + extra)
    model.sort(key="position")
    mc = clusters.cluster(model, s)
    if mc.never_fit:
        return
    run(case, s, mc, lambda: mc.prune(), "prune", clusters.Protected(mc.model))
    case.check(len(mc.model) == len(true) + len(protected), "spurious-pruned", "%d peaks and %d protected ones, left are %s" % (len(true), len(protected), mc.model))
    case.check(clusters.refchisq(mc) < 1e-3 * len(s.x) + 2, "explains-data")
    case.count("spurious peaks", len(extra) - len(protected))


def graded(case):
    """Many narrow peaks from strong ones to ones hardly worth their parameters, some in the model without being in the data."""
    rng = case.rng
    k = int(rng.integers(6, 10))
    s = clusters.scene(rng, npeaks=k, kind="Gaussian", ripples=0.0, n=int(rng.integers(90, 160)), sep=(1.0, 1.6), noise=0.0, baseline=["none", "None", "poly"][rng.integers(3)])
    s.err = np.full(len(s.x), 0.05 * s.height)
    dx = (s.x[-1] - s.x[0]) / (len(s.x) - 1)
    s.y = s.clean - sum(p.value(s.x) for p in s.peaks)
    true = []
    for p in s.true:
        # gain in chi-squared of having this peak: (area^2 / (2 sqrt(pi) sigma)) / dx / err^2
        gain = float(10 ** rng.uniform(-1, 2)) if rng.random() < 0.6 else 1e4
        sigma = p[1] / gen.S2F
        area = float(np.sqrt(gain * 2 * np.sqrt(np.pi) * sigma * dx) * s.err[0])
        true.append([p[0], p[1], area])
    s.true = true
    s.y = s.y + sum(gen.ref_peak("Gaussian", *p, s.x) for p in true) + rng.normal(size=len(s.x)) * s.err * float(rng.choice([0.1, 0.7]))
    one = rng.random() < 0.5  # only the areas are free
    parts = []
    for p in true:
        parts.append(s.pf.actualize(p, "pwa", [False, False, True] if one else [False, True, True], bool(rng.random() < 0.9)))
    mc = clusters.cluster(gen.cls("Peaks")(parts), s)
    if mc.never_fit:
        return
    q = mc.fit()
    if q is None or len(mc.model) < k:
        return
    run(case, s, mc, lambda: mc.prune(), "prune", clusters.Protected(mc.model))
    case.count("graded models")


def run(case, s, mc, act, name, promised, extra=(), adds=False):
    keep = clusters.frozen(s.x, s.y, s.err)
    bl = None if mc.baseline is None else gen.snapshot(mc.baseline)
    blobj = mc.baseline
    sl = mc.slice
    nbefore = len(mc.model)
    q0 = clusters.refquality(mc)
    out = act()
    q1 = clusters.refquality(mc)
    case.check(q1 <= q0 + 1e-8 * (1 + abs(q0)), name + "-not-worse", "%r -> %r" % (q0, q1))
    clusters.untouched(case, keep, name + "-data-untouched")
    case.check(mc.r_data is s.x and mc.y_data is s.y and mc.y_error is s.err and mc.slice == sl, name + "-same-data")
    x = s.x[sl]
    case.check(np.array_equal(mc.r_cluster, x) and np.array_equal(mc.y_cluster, s.y[sl]) and np.array_equal(mc.error_cluster, s.err[sl]), name + "-same-range")
    case.check((None if mc.baseline is None else gen.snapshot(mc.baseline)) == bl and (bl is None or mc.baseline.owner() is blobj.owner()), name + "-baseline-untouched")
    promised.audit(case, mc.model, name, extra=extra)
    if adds:
        case.check(clusters.sorted_by_position(mc.model), name + "-sorted", mc.model)
    if not adds:
        case.check(len(mc.model) <= nbefore, name + "-adds-nothing")
    if len(mc.model) < nbefore:
        case.count(name + " removed peaks")
    if len(mc.model) > nbefore:
        case.count(name + " added peaks")
    if any(not it[2] for it in promised.items):
        case.count(name + " with protected peaks")
    if q1 < q0 - 1e-6:
        case.count(name + " improved")
    if len(mc.model) != nbefore or any(not it[2] or not all(it[1]) for it in promised.items):
        case.sig(name, nbefore, len(mc.model), s.true[0])
    case.note(what=name, before=nbefore, after=len(mc.model), quality=(q0, q1))
    return out


def augment(case):
    rng = case.rng
    s = clusters.scene(rng, npeaks=int(rng.integers(1, 5)), ripples=0.1, n=int(rng.integers(40, 120)), sep=(1.2, 3))
    full = clusters.start(rng, s, away=0.05, freep=float(rng.choice([0, 0.3])), removep=float(rng.choice([1, 0.5])), extra=float(rng.choice([0, 0.3])))
    P = gen.cls("Peaks")
    have = [bool(rng.random() < 0.5) for _ in full]
    mine = P([p for p, h in zip(full, have) if h])
    src = P([p.copy() for p, h in zip(full, have) if not h or rng.random() < 0.3])
    mc = clusters.cluster(mine, s)
    sc = clusters.cluster(src, s)
    if rng.random() < 0.2:
        k = int(len(s.x) * rng.uniform(0.3, 0.8))
        sc = clusters.cluster(src, s, slice(k))
    missing = None
    lacking = [p for p, h in zip(full, have) if not h]
    # a clearly separate peak of the data that only the source has
    for p in lacking:
        height = p.value(s.x)
        others = [q for q in full if q is not p]
        gain = clusters.refchisq(mc)
        m2 = clusters.cluster(P([q.copy() for q in list(mine) + [p]]), s)
        gain -= clusters.refchisq(m2)
        if gain > 1e4 and np.max(height / s.err) > 50:
            missing = p
            break
    srcsnap = gen.snapmodel(sc.model)
    srcslice = sc.slice
    n0 = len(mine)
    run(case, s, mc, lambda: mc.augment(sc), "augment", clusters.Protected(mine),
        extra=[clusters.Protected.describe(p)[:2] + (True,) + clusters.Protected.describe(p)[3:] for p in src] +
        [clusters.Protected.describe(p) for p in src if not p.removable], adds=True)
    case.check(gen.snapmodel(sc.model) == srcsnap and sc.slice == srcslice and sc.r_data is s.x, "source-untouched")
    case.check(len(mc.model) <= n0 + len(src), "augment-at-most-source")
    case.check(not any(a is b for a in mc.model for b in sc.model), "augment-independent-of-source")
    if missing is not None:
        case.count("missing peaks")
        near = [p for p in mc.model if abs(p["position"] - missing["position"]) < s.maxwidth]
        case.check(len(mc.model) > n0 or len(near) > 0, "missing-added", "%s not in %s" % (missing, mc.model))


GROUPS = {"spurious": (750, 6000, spurious), "prune": (1200, 8000, prune), "graded": (240, 2000, graded), "augment": (900, 6000, augment)}
REQUIRED = {"prune removed peaks": 80, "prune with protected peaks": 60, "prune improved": 80, "spurious peaks": 100, "long models": 20,
            "augment added peaks": 60, "augment with protected peaks": 20, "missing peaks": 40, "graded models": 30}
