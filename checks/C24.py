"""C24: ranges of clusters, their growth, and joining them."""

import warnings

import numpy as np

from checks.C16 import unripple
from lib import clusters, gen
from lib.clusters import model_equal, sorted_by_position

TECHNIQUE = "reference bookkeeping of ranges, of exemption from fitting and of refits over histories of growth, and an oracle of joined clusters from the two that were joined"
NOTE = "Seeded exploration of data, baselines, models, sequences of ranges, and pairs of clusters which may or may not be joined."
RULE = """Cases draw a cluster and a sequence of operations, or two clusters to join. Non-trivial: a range was set, a cluster was exempt
or no longer so, or a join was made or refused; distinguished by data and ranges."""
REQUIRED = {"fits of a smaller range": 10, "ranges": 800, "exempt": 150, "no longer exempt": 40, "by left": 8, "by right": 8, "by peaks": 8, "touching": 10, "left alone": 60, "joined": 100, "joined both": 60, "joined fixed": 20, "joined on a baseline": 20,
            "joined swapped": 40, "refused": 60, "refits": 20, "no refits": 20}


def scene(rng, **kw):
    kw.setdefault("npeaks", int(rng.integers(0, 4)) or 1)
    kw.setdefault("n", int(rng.integers(4, 90)))
    return clusters.scene(rng, **kw)


def blvalue(mc):
    return np.zeros(len(mc.r_data)) if mc.baseline is None else mc.baseline.value(mc.r_data)


def bookkeeping(case, mc, s, sl, x, y, err, key="range"):
    case.check(np.array_equal(mc.r_cluster, x[sl]) and np.array_equal(mc.y_cluster, y[sl]) and np.array_equal(mc.error_cluster, err[sl]), key + "-points", sl)
    case.check(mc.size == len(x[sl]), key + "-size", "%s for %s" % (mc.size, sl))
    case.check(mc.slice.indices(len(x)) == sl.indices(len(x)), key + "-slice", "%s for %s" % (mc.slice, sl))
    case.check(np.array_equal(mc.r_data, x) and np.array_equal(mc.y_data, y) and np.array_equal(mc.y_error, err), key + "-data")
    want = clusters.refvalue(mc)
    scale = float(np.max(np.abs(y))) + 1e-300
    got = mc.value()
    case.check(np.shape(got) == (mc.size,), key + "-shape", np.shape(got))
    case.close(got, want, key + "-value", rtol=1e-9, atol=1e-10 * scale)
    case.close(mc.residual(), y[sl] - want, key + "-residual", rtol=1e-9, atol=1e-10 * scale)
    bl = blvalue(mc)[sl]
    case.close(mc.valuebl(), bl, key + "-baseline", rtol=1e-9, atol=1e-10 * scale)
    # anywhere else
    r = np.linspace(x[0], x[-1], 7)
    b = r * 0 if mc.baseline is None else mc.baseline.value(r)
    v = b + sum((p.value(r) for p in mc.model), r * 0)
    case.close(mc.value(r), v, key + "-elsewhere", rtol=1e-9, atol=1e-10 * scale)
    case.count("ranges")


def someslice(rng, n):
    s = gen.slices(rng, n)
    while s is None:
        s = gen.slices(rng, n)
    k = rng.integers(4)
    if k == 0:
        a, b, _ = s.indices(n)
        s = slice(np.int64(a), np.int32(b))
    elif k == 1:
        a, b, _ = s.indices(n)
        s = slice(a, b, 1)
    elif k == 2:
        a, b, _ = s.indices(n)
        s = slice(a - n, b if b == n else b - n)
    return s


def ranges(case):
    """Any sequence of ranges."""
    rng = case.rng
    s = scene(rng)
    model = clusters.start(rng, s, drop=0.2, extra=0.2)
    n = len(s.x)
    first = None if rng.random() < 0.3 else someslice(rng, n)
    mc = clusters.cluster(model, s, first)
    snap = clusters.frozen(s.x, s.y, s.err)
    bookkeeping(case, mc, s, first or slice(0, n), s.x, s.y, s.err, "first")
    for _ in range(int(rng.integers(1, 8))):
        k = rng.random()
        if k < 0.75:
            sl = someslice(rng, n)
            before = mc.model.copy()
            mc.change_slice(sl)
            bookkeeping(case, mc, s, sl, s.x, s.y, s.err)
            case.check(model_equal(mc.model, before), "range-model")
            case.sig(sl.indices(n), mc.value().tolist())
        elif k < 0.9:
            before = (mc.slice.indices(n), gen.snapmodel(mc.model))
            other = mc.copy()
            bookkeeping(case, other, s, mc.slice, s.x, s.y, s.err, "copy")
            other.change_slice(someslice(rng, n))
            case.check((mc.slice.indices(n), gen.snapmodel(mc.model)) == before, "copy-range")
            bookkeeping(case, mc, s, mc.slice, s.x, s.y, s.err, "copied")
            if rng.random() < 0.5:
                mc = other
        elif len(mc.model):
            i = int(rng.integers(len(mc.model)))
            if mc.model[i].removable:
                mc.deletepeak(i)
                bookkeeping(case, mc, s, mc.slice, s.x, s.y, s.err, "fewer")
    clusters.untouched(case, snap, "data-untouched")


def reach(y, bl, err, i, j):
    """(whether a point reaches the baseline plus its uncertainty, whether that is sure)."""
    d = (y - bl - err)[i:j]
    m = float(np.max(d))
    scale = float(np.max(np.abs(y)) + np.max(np.abs(bl)) + np.max(err))
    return m >= 0, abs(m) > 1e-12 * scale or not np.any(bl)


def growth(case):
    """Exempt from fitting until something reaches the uncertainty."""
    rng = case.rng
    s = scene(rng, n=int(rng.integers(12, 80)), noise=0.05)
    n = len(s.x)
    bl = np.zeros(n) if s.bl is None else s.bl.value(s.x)
    err = np.full(n, float(rng.uniform(0.2, 2.0))) * rng.uniform(0.5, 1.5, n)
    if s.bl is None and rng.random() < 0.7 or not np.any(bl):
        err = np.round(err * 16) / 16 + 0.125
    # below the uncertainty, but for a few points
    d = err * rng.uniform(-3, 0.95, n)
    spikes = rng.choice(n, int(rng.integers(0, 3)), replace=False)
    touching = bool(rng.random() < 0.4)
    for i in spikes:
        d[i] = err[i] if touching else err[i] * float(rng.choice([1.01, 1.5, 0.99]))
    y = bl + d
    if not np.any(bl):
        y = d.copy()
    i = int(rng.integers(0, n - 1))
    j = int(rng.integers(i + 1, n + 1))
    if rng.random() < 0.7:
        j = min(j, i + 3)
    model = gen.cls("Peaks")([])
    if rng.random() < 0.4:
        model = clusters.start(rng, s)
    mc = clusters.cluster(model, s, slice(i, j), y=y, err=err)
    want, sure = reach(y, bl, err, i, j)
    exempt = not want

    def state():
        if not sure:
            return False
        case.check(bool(mc.never_fit) == exempt, "exempt", "%s for %s to %s: %s" % (mc.never_fit, i, j, (y - bl - err)[i:j].tolist()))
        if exempt:
            case.count("exempt")
            before = (gen.snapmodel(mc.model), mc.slice, None if mc.baseline is None else mc.baseline.pars.tolist())
            case.check(mc.fit(**[{}, {"justify": True}, {"fitbaseline": True}, {"ntrials": 50}][rng.integers(4)]) is None and mc.contingent_fit(1, 1.0) is None, "exempt-fit")
            case.check((gen.snapmodel(mc.model), mc.slice, None if mc.baseline is None else mc.baseline.pars.tolist()) == before, "exempt-left-alone")
            case.count("left alone")
        return True

    if not state():
        return
    case.sig(i, j, exempt, y.tolist())
    for _ in range(int(rng.integers(1, 9))):
        was = exempt
        k = rng.random()
        how = None
        if k < 0.8 and (i > 0 or j < n):
            gi, gj = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            if rng.random() < 0.15:
                gi, gj = n, n
            ni, nj = max(0, i - gi), min(n, j + gj)
            a, sa = reach(y, bl, err, ni, nj)
            exempt = exempt and not a
            sure = sure and sa
            if was and not exempt:
                how = "left" if reach(y, bl, err, ni, j)[0] else "right"
            i, j = ni, nj
            mc.change_slice([slice(i, j), slice(i, j, 1), slice(i - n, j), slice(None if i == 0 else i, None if j == n else j)][rng.integers(4)])
        else:
            r = float(rng.uniform(s.x[max(0, i - 3)], s.x[min(n - 1, j + 2)]))
            fw = s.maxwidth * float(rng.uniform(0.1, 0.8))
            ps = [s.pf.actualize([r + k * fw, fw, float(rng.uniform(0.05, 1)) * fw * float(np.mean(err)) * r ** (s.kind != "Gaussian")], "pwa") for k in range(int(rng.integers(1, 4)))]
            snap = clusters.frozen(y)
            y2 = y + sum(p.value(s.x) for p in ps)
            held = len(mc.model)
            mc.addexternalpeaks(gen.cls("Peaks")(ps))
            clusters.untouched(case, snap, "shared-data")
            case.close(mc.y_data, y2, "added-data", rtol=1e-12, atol=1e-12 * np.max(np.abs(y2)))
            case.check(len(mc.model) == held + len(ps) and sorted_by_position(mc.model), "added-peaks")
            y = mc.y_data
            a, sa = reach(y, bl, err, i, j)
            exempt = exempt and not a
            sure = sure and sa
            if was and not exempt:
                how = "peaks"
        case.check(np.array_equal(mc.y_cluster, y[i:j]) and mc.size == j - i, "grown-points")
        if not state():
            return
        if was and not exempt:
            case.count("no longer exempt")
            case.count("by " + how)
            if touching:
                case.count("touching")
            case.sig(i, j, exempt, y.tolist())
        if rng.random() < 0.2:
            mc2 = mc.copy()
            case.check(bool(mc2.never_fit) == (not reach(y, bl, err, i, j)[0]), "copy-exempt")
    case.note(exempt=exempt, range=(i, j), n=n)


def refits(case):
    """A growing cluster is fit again when it has grown enough."""
    rng = case.rng
    s = scene(rng, npeaks=int(rng.integers(1, 3)), n=int(rng.integers(25, 80)), ripples=0.0, noise=0.02)
    n = len(s.x)
    top = int(np.argmax(s.y))
    i, j = max(0, top - int(rng.integers(0, 4))), min(n, top + int(rng.integers(1, 5)))
    mc = clusters.cluster(gen.cls("Peaks")([]), s, slice(i, j))
    calls = []
    real = mc.fit

    def fit(*args, **kwds):
        calls.append(1)
        return real(*args, **kwds)

    mc.fit = fit
    last = 0
    for _ in range(int(rng.integers(3, 10))):
        k = rng.random()
        if k < 0.15 and not mc.never_fit and len(mc.model):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mc.fit()
            last = mc.size
        minpoints = int(rng.integers(1, 14))
        threshold = float(rng.choice([1.0, 1.2, 1.5, 2.0, 1.25]))
        want = (mc.size >= minpoints if last == 0 else mc.size / last >= threshold) and not mc.never_fit
        empty = len(mc.model) == 0
        del calls[:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = mc.contingent_fit(minpoints, threshold)
        case.check(bool(calls) == want, "refit", "%s points, last %s, at least %s, threshold %s: %s" % (mc.size, last, minpoints, threshold, len(calls)))
        case.count("refits" if calls else "no refits")
        case.check(bool(calls) or got is None, "refit-result")
        if calls:
            case.check(mc.last_fit_size == mc.size or (empty and mc.last_fit_size == last), "refit-size", "%s of %s" % (mc.last_fit_size, mc.size))
            case.sig(i, j, minpoints, threshold)
            last = mc.last_fit_size
        if rng.random() < 0.2 and j - i > 12:  # a smaller range, fit again
            i, j = i + int(rng.integers(0, 4)), j - int(rng.integers(1, 6))
            mc.change_slice(slice(i, j))
            if not mc.never_fit and len(mc.model):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    mc.fit()
                last = mc.size
                case.count("fits of a smaller range")
        i, j = max(0, i - int(rng.integers(0, 4))), min(n, j + int(rng.integers(0, 4)))
        mc.change_slice(slice(i, j))


def maximum(p):
    """Position and height of the maximum, from the definition."""
    f = unripple(p.owner())
    w = gen.ref_width(f.maxwidth, p.pars[1])
    sigma = w / gen.S2F
    if type(f).__name__ == "Gaussian":
        r = p.pars[0]
    else:
        d = p.pars[0] ** 2 - 4 * sigma**2
        if d < 1e-6 * p.pars[0] ** 2:
            return None
        r = 0.5 * (p.pars[0] + np.sqrt(d))
    return float(r), float(gen.ref_peak(type(f).__name__, p.pars[0], w, p.pars[2], r))


def pair(rng, adjacent=True):
    s = scene(rng, npeaks=int(rng.integers(1, 5)), n=int(rng.integers(10, 90)), sep=(0.3, 2.0))
    n = len(s.x)
    a, b, c = sorted(int(v) for v in rng.choice(n + 1, 3, replace=False))
    start = clusters.start(rng, s, freep=0.3, extra=0.3)
    sides = [gen.cls("Peaks")([]), gen.cls("Peaks")([])]
    stray = rng.random() < 0.3
    for p in start:
        k = rng.integers(2) if stray else int(p["position"] > s.x[b - 1])
        sides[k].append(p)
    if rng.random() < 0.15:
        sides[int(rng.integers(2))] = gen.cls("Peaks")([])
    funcs = [s.pf, gen.cls("Gaussian")(2.5), gen.cls("GaussianOverR")(1.5)]
    f1 = [funcs[i] for i in rng.permutation(3)[: int(rng.integers(1, 4))]]
    f2 = [funcs[i] for i in rng.permutation(3)[: int(rng.integers(1, 4))]]
    bl2 = s.bl if s.bl is None or rng.random() < 0.5 else s.bl.copy()
    M = gen.cls("ModelCluster")
    form = [slice(a, b), slice(a, b, 1), slice(a - n, b) if a < n else slice(a, b), slice(None if a == 0 else a, b)][rng.integers(4)]
    left = M(sides[0], s.bl, s.x, s.y, s.err, form, s.method, f1)
    form = [slice(b, c), slice(b, c, 1), slice(b - n, c), slice(b, None if c == n else c)][rng.integers(4)]
    right = M(sides[1], bl2, s.x, s.y, s.err, form, s.method, f2)
    return s, left, right, (a, b, c)


def snapcluster(mc):
    n = len(mc.r_data)
    return (gen.snapmodel(mc.model), None if mc.baseline is None else gen.snapshot(mc.baseline), mc.slice.indices(n), mc.size, mc.y_cluster.tolist(), bool(mc.never_fit),
            [id(f) for f in mc.peak_funcs], mc.last_fit_size)


def join(case):
    rng = case.rng
    s, left, right, (a, b, c) = pair(rng)
    snap = clusters.frozen(s.x, s.y, s.err)
    one, two = (left, right) if rng.random() < 0.5 else (right, left)
    before = snapcluster(left), snapcluster(right)
    M = gen.cls("ModelCluster")
    with np.errstate(all="ignore"):
        new = M.join_adjacent(one, two)
    case.check((snapcluster(left), snapcluster(right)) == before, "join-unchanged")
    clusters.untouched(case, snap, "join-data")
    bookkeeping(case, new, s, slice(a, c), s.x, s.y, s.err, "joined")
    case.check(new.r_data is s.x and new.y_data is s.y and new.y_error is s.err and new.error_method is s.method, "joined-shares")
    case.check(new.baseline == left.baseline, "joined-baseline")
    bl = np.zeros(len(s.x)) if s.bl is None else s.bl.value(s.x)
    want, sure = reach(s.y, bl, s.err, a, c)
    if sure:
        case.check(bool(new.never_fit) == (not want), "joined-exempt")
    case.check([id(f) for f in new.peak_funcs] == [id(f) for f in one.peak_funcs] + [id(f) for f in two.peak_funcs if not any(f is g for g in one.peak_funcs)], "joined-functions")
    # the peaks of both
    old = sorted([p for p in left.model] + [p for p in right.model], key=lambda p: p["position"])
    case.check(len(new.model) == len(old), "joined-peaks", "%d of %d" % (len(new.model), len(old)))
    case.check(sorted_by_position(new.model), "joined-sorted", "%s" % [p["position"] for p in new.model])
    case.check(not any(p is q or p.pars is q.pars or p.free is q.free for p in new.model for q in old), "joined-own")
    fixed = False
    rest = list(new.model)
    for q in old:
        m = maximum(q)

        def match(p):
            if p.owner() is not q.owner() or p.free.tolist() != q.free.tolist() or p.removable != q.removable or p.static_owner != q.static_owner:
                return False
            if not np.array_equal(p.pars[~p.free], q.pars[~q.free]):
                return False
            if np.array_equal(p.pars, q.pars):
                return True
            w = maximum(p)
            return m is not None and w is not None and np.allclose(w, m, rtol=1e-4, atol=0)

        for p in rest:
            if match(p):
                rest.remove(p) if False else rest.pop([k for k, z in enumerate(rest) if z is p][0])
                break
        else:
            case.check(False, "joined-peak", "%s is none of %s" % (gen.snapshot(q), gen.snapmodel(new.model)))
        case.count("monitor:joined-peak")
        fixed = fixed or not np.all(q.free)
    case.count("joined")
    if len(left.model) and len(right.model):
        case.count("joined both")
        if fixed:
            case.count("joined fixed")
    else:
        case.check([x[1:] for x in gen.snapmodel(new.model)] == [x[1:] for x in gen.snapmodel(left.model if len(left.model) else right.model)], "joined-single")
    if one is right:
        case.count("joined swapped")
    # a straight baseline makes no difference to peaks
    f = None if s.bl is None else s.bl.owner()
    if type(f).__name__ == "Polynomial" and len(s.bl.pars) <= 2:
        y = s.y - bl
        flat = [M(m.model.copy(), None, s.x, y, s.err, m.slice, s.method, m.peak_funcs) for m in (one, two)]
        with np.errstate(all="ignore"):
            ref = M.join_adjacent(*flat)
        got = [p.pars for p in new.model]
        case.check(len(ref.model) == len(got) and all(np.allclose(p.pars, g, rtol=1e-6, atol=1e-6) for p, g in zip(ref.model, got)), "joined-baseline-peaks", "%s\n%s" % (ref.model, new.model))
        if len(left.model) and len(right.model):
            case.count("joined on a baseline")
    # what is done to the new one does not reach the others
    for p in new.model:
        p.pars += 0.1
        p.free[:] = ~p.free
    new.change_slice(slice(0, len(s.x)))
    case.check((snapcluster(left), snapcluster(right)) == before, "join-independent")
    case.sig(a, b, c, s.y.tolist())


def refuse(case):
    """Clusters that may not be joined."""
    rng = case.rng
    s, left, right, (a, b, c) = pair(rng)
    M = gen.cls("ModelCluster")
    n = len(s.x)
    why = ["apart", "overlap", "same", "x", "y", "err", "method", "baseline", "inside", "baseline"][rng.integers(10)]
    mk = lambda m, bl=right.baseline, x=s.x, y=s.y, err=s.err, sl=slice(b, c), method=s.method: M(m.model, bl, x, y, err, sl, method, list(m.peak_funcs))
    if why == "apart":
        if c - b < 2:
            return
        right.change_slice(slice(int(rng.integers(b + 1, c)), c))
    elif why == "overlap":
        right.change_slice(slice(int(rng.integers(a, b)), c))
    elif why == "same":
        right.change_slice(slice(a, b))
    elif why == "inside":
        if b - a < 3:
            return
        right.change_slice(slice(a + 1, b - 1))
    elif why == "x":
        right = mk(right, x=s.x.copy() if rng.random() < 0.5 else s.x * 1.01)
    elif why == "y":
        right = mk(right, y=s.y + rng.normal(size=n))
    elif why == "err":
        right = mk(right, err=s.err * 1.5)
    elif why == "method":
        right = mk(right, method=gen.cls("AIC" if s.method is gen.cls("AICc") else "AICc"))
    else:
        B = gen.cls("Polynomial")(1)
        other = B.actualize([float(rng.normal()), float(rng.normal())], "internal")
        if s.bl is None or rng.random() < 0.5 or len(s.bl.pars) == 0:
            right = mk(right, bl=other)
        else:
            other = s.bl.copy()
            k = int(rng.integers(len(other.pars)))
            other.pars[k] = other.pars[k] * 1.1 + 0.1
            right = mk(right, bl=other)
    before = snapcluster(left), snapcluster(right)
    one, two = (left, right) if rng.random() < 0.5 else (right, left)
    case.raises(ValueError, lambda: M.join_adjacent(one, two), "refused", "%s: %s and %s" % (why, one.slice, two.slice))
    case.check((snapcluster(left), snapcluster(right)) == before, "refused-unchanged")
    case.count("refused")
    case.sig(why, a, b, c)


GROUPS = {
    "ranges": (3600, 12000, ranges),
    "growth": (4500, 16000, growth),
    "refits": (450, 1500, refits),
    "join": (3600, 16000, join),
    "refuse": (2400, 8000, refuse),
}
