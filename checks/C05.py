"""C05: fits of clusters."""

import numpy as np

from lib import clusters, gen

TECHNIQUE = "conservation monitors and quality ordering around real fits, recomputed covariance, isolation by garbage outside the range"
NOTE = """Seeded exploration of data, models, flags, baselines and of fits cut short; the covariance is checked where the
problem is well conditioned."""
RULE = """Cases draw data made of peaks and a baseline with noise, a starting model with fixed and protected peaks, a range, and
fit options including budgets too small to finish. Non-trivial: the fit ran the optimiser; distinguished by outcome, model
sizes, flags and options."""


def snap(mc):
    return gen.snapmodel(mc.model), None if mc.baseline is None else gen.snapshot(mc.baseline)


def fit(case):
    rng = case.rng
    s = clusters.scene(rng)
    away = float(10 ** rng.uniform(-2, 0.3))
    model = clusters.start(rng, s, away=away, drop=0.1, extra=0.15)
    n = len(s.x)
    sl = gen.slices(rng, n) if rng.random() < 0.4 else None
    bl = s.bl
    if bl is not None and rng.random() < 0.5:
        bl = bl.copy()
        bl.pars[:] = bl.pars * (1 + 0.1 * rng.normal(size=len(bl.pars)))
    opts = dict(justify=bool(rng.random() < 0.2), fitbaseline=bool(rng.random() < 0.5), estimate=bool(rng.random() < 0.7))
    opts["ntrials"] = int([0, 0, 0, 1, 2, 5, 20][rng.integers(7)])
    run(case, s, model, sl, bl, opts)


def undone(case):
    """Fits that have to be taken back: peaks outside that matter are dropped, or one peak is not enough."""
    rng = case.rng
    s = clusters.scene(rng, npeaks=int(rng.integers(1, 3)) if rng.random() < 0.5 else 3, ripples=0.0, noise=0.0, n=int(rng.integers(200, 600)),
                       baseline=["poly", "nano", "None"][rng.choice(3, p=[0.5, 0.3, 0.2])], freep=0.1)
    s.err = np.full(len(s.x), 0.02 * s.height)
    opts = dict(justify=False, fitbaseline=bool(rng.random() < 0.8), estimate=True, ntrials=0)
    bl = None if s.bl is None else s.bl.copy()
    if bl is not None:
        bl.pars[bl.free] *= 1 + 1e-5 * rng.normal(size=int(bl.free.sum()))
    model = clusters.start(rng, s, away=0.0, freep=0.1)
    if len(s.true) < 3:
        s.pf = s.base = gen.cls(s.kind)(3.0)
        model = gen.cls("Peaks")([s.pf.actualize(p, "pwa", gen.mask(rng, 3, 0.2)) for p in s.true])
        side = rng.random() < 0.5
        edge = s.x[0] if side else s.x[-1]
        w = float(rng.uniform(1.0, 2.0))
        pos = float(edge - 0.7 * w if side else edge + 0.7 * w)
        if pos < 0.1:
            return
        out = s.pf.actualize([pos, w, 1.0], "pwa", [False, False, True])
        area = float(rng.uniform(0.6, 0.95) * s.err[0] / np.max(out.value(s.x)))
        out = s.pf.actualize([pos, w, area], "pwa", [False, False, True])
        model.append(out)
        model.sort()
        s.y = s.y + out.value(s.x)
        case.count("peaks to be dropped")
    else:
        model = model[1:2]
        opts["justify"] = True
        case.count("one peak for three")
    run(case, s, model, None, bl, opts)


def run(case, s, model, sl, bl, opts):
    rng = case.rng
    n = len(s.x)
    mc = clusters.cluster(model, s, sl, bl=bl)
    keep = clusters.frozen(s.x, s.y, s.err)
    withcov = rng.random() < 0.6
    cov = gen.cls("ModelCovariance")() if withcov else None
    if withcov:
        opts.update(cov=cov, cov_format="internal")
    before = snap(mc)
    nbefore = len(mc.model)
    promised = clusters.Protected(mc.model)
    blbefore = None if bl is None else bl.copy()
    qbefore = clusters.refquality(mc)
    never = mc.never_fit
    # the same with garbage outside the range
    y2, e2 = s.y.copy(), s.err.copy()
    out = np.ones(n, bool)
    out[mc.slice] = False
    y2[out] = rng.normal(size=out.sum()) * 10 ** rng.uniform(-1, 3)
    e2[out] = 10 ** rng.uniform(-2, 3, out.sum())
    mc2 = clusters.cluster(model.copy(), s, sl, bl=None if bl is None else bl.copy(), y=y2, err=e2)
    q = mc.fit(**opts)
    opts2 = dict(opts)
    if withcov:
        opts2["cov"] = gen.cls("ModelCovariance")()
    q2 = mc2.fit(**opts2)
    clusters.untouched(case, keep, "data-untouched", opts)
    case.check(mc.r_data is s.x and mc.y_data is s.y and mc.y_error is s.err, "same-data")
    same = (q is None) == (q2 is None) and len(mc.model) == len(mc2.model)
    if same:
        same = all(np.allclose(a.pars, b.pars, rtol=1e-9, atol=1e-12) for a, b in zip(mc.model, mc2.model))
    case.check(same, "only-data-in-range", "%s: %s and %s" % (opts, mc.model, mc2.model))
    if bl is not None:
        case.close(mc2.baseline.pars, mc.baseline.pars, "only-data-in-range-baseline", rtol=1e-9, atol=1e-12)
    if out.any():
        case.count("fits with data outside the range")
    if bl is not None:
        fixed = ~blbefore.free
        case.check(np.array_equal(mc.baseline.pars[fixed], blbefore.pars[fixed]), "baseline-fixed", "%s %s" % (mc.baseline.pars, blbefore.pars))
        case.check(mc.baseline.free.tolist() == blbefore.free.tolist() and mc.baseline.owner() is blbefore.owner(), "baseline-flags")
        if not opts["fitbaseline"]:
            case.check(np.array_equal(mc.baseline.pars, blbefore.pars), "baseline-kept-unless-fit")
    if q is None:
        case.count("fits without result")
        if nbefore:
            case.check(snap(mc) == before, "failed-fit-changes-nothing", "%s: %s became %s" % (opts, before, snap(mc)))
            if opts["fitbaseline"] and bl is not None and bl.free.any():
                case.count("undone fits with baseline")
        elif bl is not None:
            case.check(snap(mc)[1] == before[1], "failed-fit-changes-no-baseline")
        if never:
            case.count("exempt clusters")
        case.sig("none", opts, nbefore, n)
        return
    case.check(not never, "exempt-not-fit")
    case.count("fits with result")
    qafter = clusters.refquality(mc)
    scale = abs(qafter) + 1e-9
    case.close(q.stat, qafter, "reported-quality", rtol=1e-8, atol=1e-8 * scale)
    case.close(mc.quality().stat, qafter, "quality-of-model", rtol=1e-8, atol=1e-8 * scale)
    if nbefore:
        case.check(qafter <= qbefore * (1 + 1e-10) + 1e-10, "not-worse", "%s: %r -> %r" % (opts, qbefore, qafter))
        promised.audit(case, mc.model, "fit")
        if qafter < qbefore - 1e-6:
            case.count("fits that improve")
    else:
        case.count("fits of an estimated peak")
        case.check(opts["estimate"] and len(mc.model) <= 1, "estimated-one-peak")
    case.check(clusters.sorted_by_position(mc.model), "sorted", mc.model)
    case.check(all(np.isfinite(p.pars).all() for p in mc.model), "finite")
    if not promised.items or any(p.free.any() for p in mc.model):
        case.sig(opts, nbefore, len(mc.model), [p.free.tolist() for p in mc.model], n)
    case.note(options={k: v for k, v in opts.items() if k != "cov"}, peaks=nbefore, before=qbefore, after=qafter)
    if withcov:
        aligned(case, mc, cov, opts)
    if len(mc.model) == max(nbefore, 1):
        # the optimiser reports the gradient of its last step but one, so let it start at the solution
        cov = gen.cls("ModelCovariance")()
        before = snap(mc)
        q = mc.fit(fitbaseline=opts["fitbaseline"], cov=cov, cov_format="internal")
        if q is not None and len(mc.model) == len(before[0]):
            covariance(case, mc, cov, before, opts)


def aligned(case, mc, cov, opts):
    """Parameters and their uncertainties are found under the indices of the model as it is now."""
    fitbl = opts["fitbaseline"] and mc.baseline is not None and mc.baseline.free.any()
    parts = list(mc.model) + ([mc.baseline] if fitbl else [])
    if cov.cov is None:
        return None
    if not case.check(len(cov.model) == len(parts), "covariance-of-model", "%d parts, %d in the covariance" % (len(parts), len(cov.model))):
        return None
    for i, p in enumerate(parts):
        case.close([cov.getvalue((i, j)) for j in range(len(p.pars))], p.pars, "covariance-of-part", "part %d of %s" % (i, mc.model), rtol=1e-6, atol=1e-9)
        for j in np.flatnonzero(~p.free):
            case.check(cov.getuncertainty((i, int(j))) == 0, "fixed-certain", "%s of %s: %s" % (j, p, cov.cov))
    case.count("covariances of parts", len(parts))
    return parts


def order(case):
    """Peaks that change places during the fit, or go."""
    rng = case.rng
    s = clusters.scene(rng, npeaks=1, n=int(rng.integers(60, 160)), noise=0.0, ripples=0.1, baseline=["poly", "nano", "None"][rng.integers(3)], freep=0.1)
    pf = s.base
    pos, fwhm, area = s.true[0]
    narrow = [pos + fwhm * float(rng.uniform(0.15, 0.4)), fwhm * float(rng.uniform(0.25, 0.5)), area * float(rng.uniform(0.15, 0.5))]
    start = [pos - fwhm * float(rng.uniform(0.02, 0.15)), narrow[1] * float(rng.uniform(0.8, 1.2)), narrow[2] * float(rng.uniform(0.6, 1.4))]
    if rng.random() < 0.5:  # from the other side
        narrow[0], start[0] = 2 * pos - narrow[0], 2 * pos - start[0]
    true = pf.actualize(narrow, "pwa")
    s.y = s.y + true.value(s.x) + 1e-3 * s.height * rng.normal(size=len(s.x))
    s.err = np.full(len(s.x), 0.005 * s.height)
    masks = [[False, bool(rng.random() < 0.5), True], [True, bool(rng.random() < 0.7), bool(rng.random() < 0.9)]]
    if not masks[1][1]:
        start[1] = narrow[1]
    model = gen.cls("Peaks")([pf.actualize([pos, fwhm, area * float(rng.uniform(0.9, 1.1))], "pwa", masks[0]), pf.actualize(start, "pwa", masks[1])])
    gone = rng.random() < 0.3
    if gone:
        w = float(rng.uniform(0.2, 0.4)) * fwhm
        model.append(pf.actualize([s.x[-1] + 3 * w, w, 0.01 * area], "pwa", [False, False, True]))
    model.sort()
    names = {id(p): i for i, p in enumerate(model)}
    mc = clusters.cluster(model, s)
    bl = mc.baseline
    opts = dict(fitbaseline=bool(rng.random() < 0.7))
    cov = gen.cls("ModelCovariance")()
    q = mc.fit(cov=cov, cov_format="internal", **opts)
    if q is None:
        case.count("no result in another order")
        return
    parts = aligned(case, mc, cov, opts)
    after = [names.get(id(p)) for p in mc.model]
    if len(after) < len(names):
        case.count("peaks gone")
    if None not in after and after != sorted(after):
        case.count("peaks in another order")
    case.sig(after, bl is not None, opts, masks)
    if parts is None or len(after) < len(names) or any(abs(p.pars[1]) > 1.5 for p in mc.model):
        return
    # uncertainties, as far as the fit has settled
    free = [(i, j) for i, p in enumerate(parts) for j in range(len(p.pars)) if p.free[j]]
    jac = gradient(mc, parts, free)
    norm = np.sqrt(np.sum(jac**2, axis=1))
    if not np.isfinite(jac).all() or np.any(norm < 1e-8):
        return
    u = jac / norm[:, None]
    a = u @ u.T
    res = (mc.y_data - clusters.refvalue(mc)) / mc.y_error
    if np.linalg.cond(a) > 1e3 or np.max(np.abs(u @ res)) > 1e-4 * np.sqrt(np.sum(res**2)):
        return
    want = np.linalg.inv(a) / np.outer(norm, norm) * np.sum(res**2) / (len(s.x) - len(free))
    got = np.array([[cov.getcovariance(u1, v1) for v1 in free] for u1 in free])
    sd = np.sqrt(np.diag(want))
    case.close(got / np.outer(sd, sd), want / np.outer(sd, sd), "covariance-in-order", "%d parameters" % len(free), rtol=0, atol=0.1)
    case.count("covariances compared in order")


def gradient(mc, parts, free):
    x, s = mc.r_data, mc.slice
    jac = []
    for i, j in free:
        p = parts[i].copy()
        h = 1e-5 * max(1e-2, abs(p.pars[j]))
        v = []
        for d in (-2, -1, 1, 2):
            q = p.copy()
            q.pars[j] += d * h
            v.append(q.value(x, s)[s])
        jac.append((v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h) / mc.y_error[s])
    return np.array(jac)


def covariance(case, mc, cov, before, opts):
    order = [b[1][0] for b in before[0]]
    pos = [p["position"] for p in mc.model]
    if any(a > b for a, b in zip(order, order[1:])):
        return
    fitbl = opts["fitbaseline"] and mc.baseline is not None and mc.baseline.free.any()
    parts = list(mc.model) + ([mc.baseline] if fitbl else [])
    k = clusters.freecount(parts)
    x, s = mc.r_data, mc.slice
    npts = len(x[s])
    if k == 0 or npts <= k:
        return
    if cov.cov is None:
        case.count("singular covariances")
        return
    where = [(i, j) for i, p in enumerate(parts) for j in range(len(p.pars))]
    if any(abs(p.pars[1]) > 1.5 for p in mc.model):
        return  # at the limit of width
    vals = [cov.getvalue(w) for w in where]
    mine = [parts[i].pars[j] for i, j in where]
    case.close(vals, mine, "covariance-values", rtol=1e-6, atol=1e-9)
    free = [(i, j) for i, j in where if parts[i].free[j]]
    start = [p.copy() for p in parts]
    for p, b in zip(start, list(before[0]) + ([before[1]] if fitbl else [])):
        p.pars = np.array(b[1])
    jac = gradient(mc, start, free)
    jac0 = jac
    jac = gradient(mc, parts, free)
    if not (np.isfinite(jac).all() and np.isfinite(jac0).all()):
        return
    norm = np.sqrt(np.sum(jac**2, axis=1))
    if np.any(norm < 1e-8):
        return
    u = jac / norm[:, None]
    a = u @ u.T
    if np.linalg.cond(a) > 1e6:
        case.count("ill conditioned")
        return
    res = (mc.y_data[s] - clusters.refvalue(mc)) / mc.y_error[s]
    grad = np.abs(u @ res) / (np.sqrt(np.sum(res**2)) + 1e-300)
    if np.max(grad) > 1e-4 and np.sqrt(np.sum(res**2)) > 1e-6:
        case.count("not converged")
        return
    want = np.linalg.inv(a) / np.outer(norm, norm) * np.sum(res**2) / (npts - k)
    got = np.array([[cov.getcovariance(u1, v1) for v1 in free] for u1 in free])
    sd = np.sqrt(np.diag(want))
    u0 = jac0 / norm[:, None]
    if np.linalg.cond(u0 @ u0.T) > 1e8 or np.max(np.abs(np.linalg.inv(u0 @ u0.T) / np.linalg.inv(a) - 1)[np.diag_indices(k)]) > 1e-3:
        case.count("not settled")
        return
    case.close(got / np.outer(sd, sd), want / np.outer(sd, sd), "covariance", "%d parameters" % k, rtol=0, atol=0.01)
    case.count("covariances compared")
    fixed = [w for w in where if w not in free]
    case.check(all(cov.getuncertainty(w) == 0 for w in fixed), "fixed-certain")


def recover(case):
    """Data exactly from the model, from a nearby start."""
    rng = case.rng
    s = clusters.scene(rng, noise=0.0, sep=(1.3, 3.0), n=int(rng.integers(60, 200)), baseline=["none", "None", "poly", "seq", "nano"][rng.integers(5)])
    blfit = s.bl is not None and len(s.bl.pars) > 0 and rng.random() < 0.7
    if s.blname == "poly" and len(s.bl.pars) > 2 or s.blname == "nano":
        blfit = blfit and rng.random() < 0.2
    y = s.clean
    model = clusters.start(rng, s, away=0.03, freep=0.0)
    for p, t in zip(model, s.peaks):  # fixed ones are at their true values
        p.free[:] = gen.mask(rng, 3, 0.2)
        p.pars[~p.free] = t.pars[~p.free]
    bl = None if s.bl is None else s.bl.copy()
    if blfit:
        bl.pars[bl.free] *= 1 + 0.02 * rng.normal(size=int(bl.free.sum()))
    mc = clusters.cluster(model, s, None, bl=bl, y=y)
    if mc.never_fit:
        return
    cov = gen.cls("ModelCovariance")()
    q = mc.fit(fitbaseline=blfit, cov=cov)
    if not any(p.free.any() for p in mc.model) and not (blfit and bl.free.any()):
        return
    case.check(q is not None, "exact-data-fit", "no result for %s" % s.true)
    if q is None:
        return
    case.check(len(mc.model) == len(s.true), "exact-data-peaks")
    chisq = clusters.refchisq(mc)
    if case.check(chisq < 1e-4, "exact-data-chisq", "chi-squared %r, %s -> %s instead of %s" % (chisq, s.true, mc.model, s.kind)):
        if blfit and s.blname in ("poly", "nano") and len(s.bl.pars) > 1:
            return  # peaks and baseline may be hard to tell apart
        for p, t in zip(mc.model, s.peaks):
            case.close(p.pars, t.pars, "exact-data-parameters", rtol=2e-3, atol=2e-3)
        case.count("recovered")
        case.sig(s.true)
    case.note(true=s.true, baseline=s.blname)


def parts(case):
    """ModelParts.fit on its own."""
    from diffpy.srmise.srmiseerrors import SrMiseFitError

    rng = case.rng
    s = clusters.scene(rng, n=int(rng.integers(3, 40)), baseline="None", ripples=0)
    model = clusters.start(rng, s, away=0.05)
    k = clusters.freecount(model)
    n = int(rng.integers(1, len(s.x) + 1))
    i = int(rng.integers(0, len(s.x) - n + 1))
    sl = slice(i, i + n)
    before = gen.snapmodel(model)
    keep = clusters.frozen(s.x, s.y, s.err)
    if k >= n:
        case.raises((SrMiseFitError,), lambda: model.fit(s.x, s.y, s.err, sl), "too-few-points", "%d parameters, %d points" % (k, n))
        case.check(gen.snapmodel(model) == before, "refused-fit-changes-nothing")
        case.count("refused")
    else:
        seen, far = [], [0.0]
        real = model.residual
        one = bool(rng.random() < 0.2)
        err = float(s.err[0]) if one and sl == slice(0, len(s.x)) else s.err

        def chisq():
            return float(np.sum(((s.y - sum(p.value(s.x, sl) for p in model)) / err)[sl] ** 2))

        def watched(freepars, *args, **kw):
            v = real(freepars, *args, **kw)
            seen.append(chisq())
            far.append(float(np.max(np.abs(freepars), initial=0.0)))
            return v

        at = chisq()
        model.residual = watched
        try:
            with np.errstate(all="ignore"):
                model.fit(s.x, s.y, err, None if one and np.ndim(err) == 0 else sl, ntrials=int([0, 0, 5, 8, 12, 30][rng.integers(6)]))
        except SrMiseFitError:
            case.count("failed")
        del model.residual
        left = chisq()
        if max(far) > 1e8:  # angles so large cannot be reduced to the usual ones without loss
            case.count("fits that went far away")
            return
        case.check(left <= at * (1 + 1e-9) + 1e-12, "parts-not-worse", "%r became %r" % (at, left))
        if k and len(seen) > 2 and np.isfinite(seen).all():
            case.check(left <= min(seen) * 1.001 + 1e-9, "parts-best-seen", "%r left, %r seen, the last %r" % (left, min(seen), seen[-1]))
            case.count("trials seen", len(seen))
            if seen[-1] > min(seen) * 1.01:
                case.count("last trial not the best")
        after = gen.snapmodel(model)
        for a, b in zip(after, before):
            case.check(a[0] == b[0] and a[2:] == b[2:], "flags")
            f = np.array(a[2])
            case.close(np.array(a[1])[~f], np.array(b[1])[~f], "fixed", rtol=1e-9, atol=1e-12)
        if k == 0:
            case.check(after == before, "nothing-to-fit")
            case.count("nothing to fit")
        case.sig(k, n, before)
    clusters.untouched(case, keep, "data-untouched-parts")


def numeric(case):
    """Parts that do not know their derivatives are fitted as well as those that do."""
    rng = case.rng
    s = clusters.scene(rng, noise=0.0 if rng.random() < 0.5 else None, sep=(1.3, 3.0), n=int(rng.integers(60, 160)), ripples=0.0, baseline=["None", "poly"][rng.integers(2)])
    y = s.clean if s.noise == 0 else s.y
    model = clusters.start(rng, s, away=0.03, freep=0.15)
    bl = None if s.bl is None else s.bl.copy()
    ran = []

    class Plain(gen.cls(s.kind)):
        def _jacobianraw(self, pars, r, free):
            if not np.any(free):
                return [None] * len(pars)
            ran.append(len(free))
            raise NotImplementedError("no derivatives")

    which = ["peaks", "some", "baseline"][rng.integers(3)]
    if bl is None and which == "baseline":
        which = "peaks"
    plain = Plain(s.maxwidth)
    other, bl2 = model.copy(), None if bl is None else bl.copy()
    if which != "baseline":
        for i in range(len(other)):
            if which == "peaks" or i == 0:
                p = other[i]
                other[i] = gen.cls("Peak")(plain, p.pars, free=p.free, removable=p.removable)
    else:
        f = gen.cls("Arbitrary")(len(bl.pars), lambda pars, r: np.polyval(pars, r))
        bl2 = f.actualize(bl.pars.copy(), free=bl.free.copy())
    fitbl = bl is not None and bool(rng.random() < 0.7)
    free = clusters.freecount(list(model) + ([bl] if fitbl else []))
    mc = clusters.cluster(model, s, None, bl=bl, y=y)
    mc2 = clusters.cluster(other, s, None, bl=bl2, y=y)
    if which != "baseline":
        mc2.peak_funcs = [plain]
    before = clusters.refchisq(mc)
    cov, cov2 = gen.cls("ModelCovariance")(), gen.cls("ModelCovariance")()
    q, q2 = mc.fit(fitbaseline=fitbl, cov=cov, cov_format="internal"), mc2.fit(fitbaseline=fitbl, cov=cov2, cov_format="internal")
    if free == 0 or q is None:
        return
    case.note(which=which, before=before, analytic=q.stat, numeric=None if q2 is None else q2.stat)
    if not case.check(q2 is not None, "numeric-fit", "no result without derivatives for %s" % s.true):
        return
    case.check(len(mc2.model) == len(model), "numeric-peaks")
    a, b = clusters.refchisq(mc), clusters.refchisq(mc2)
    case.check(b <= before * (1 + 1e-9) + 1e-9, "numeric-not-worse", "%r became %r" % (before, b))
    case.check(b <= a * 1.001 + 1e-3, "numeric-as-good", "chi-squared %r with derivatives and %r without" % (a, b))
    if ran:
        case.count("fits without derivatives")
        case.sig(which, s.true)


def reduce(case):
    """Reducing a model at a point: a fit, or nothing."""
    rng = case.rng
    exact = rng.random() < 0.5
    if exact:
        s = clusters.scene(rng, npeaks=2, noise=0.0, sep=(1.3, 2.2), n=int(rng.integers(60, 150)), ripples=0.0, baseline=["none", "None", "poly", "seq"][rng.integers(4)])
        y = s.clean
        model = gen.cls("Peaks")([s.pf.actualize([p[0], p[1], p[2] * rng.uniform(1.02, 1.2)], "pwa", None, True) for p in s.true])
    else:
        s = clusters.scene(rng, npeaks=int(rng.integers(1, 4)))
        y = s.y
        model = clusters.start(rng, s, away=0.1, freep=0.2)
    offset = 0.0
    bl = None if s.bl is None else s.bl.copy()
    if rng.random() < 0.5:  # a baseline far from zero
        offset = float(rng.choice([-1, 1]) * rng.uniform(0.5, 5)) * s.height
        y = y - (0 if bl is None else bl.value(s.x)) + offset
        bl = gen.cls("Polynomial")(0).actualize([offset], "internal")
    mc = clusters.cluster(model, s, None, bl=bl, y=y)
    if mc.never_fit:
        return
    keep = clusters.frozen(s.x, y, s.err)
    x = float(rng.uniform(s.x[0], s.x[-1]))
    if exact:
        x = float(0.5 * (s.true[0][0] + s.true[1][0]))
    now = float(np.ravel(mc.model.value(np.array([x])))[0] + (0 if bl is None else np.ravel(bl.value(np.array([x])))[0]))
    at = now - float(rng.choice([-0.5, -0.05, 0.02, 0.2])) * s.height
    if exact and at < now:
        at = float(np.interp(x, s.x, y))
    before = gen.snapmodel(mc.model)
    promised = clusters.Protected(mc.model)
    blsnap = None if bl is None else gen.snapshot(bl)
    q = mc.reduce_to(x, at)
    clusters.untouched(case, keep, "reduce-data-untouched")
    case.check((None if mc.baseline is None else gen.snapshot(mc.baseline)) == blsnap, "reduce-baseline-untouched")
    detail = "%s at %r is %r, reduce to %r, baseline offset %r" % (before, x, now, at, offset)
    if now < at - 1e-9 * (abs(at) + s.height):
        case.check(q is None, "nothing-to-reduce", detail)
        case.count("nothing to reduce")
    if q is None:
        case.check(gen.snapmodel(mc.model) == before, "not-reduced-unchanged", detail)
    else:
        case.close(q.stat, clusters.refquality(mc), "reduced-quality", detail, rtol=1e-6, atol=1e-6)
        promised.audit(case, mc.model, "reduce")
        case.check(clusters.sorted_by_position(mc.model), "reduced-sorted", mc.model)
        case.count("reduced")
        case.sig(before, x, at)
    if exact and at < now - 1e-3 * s.height:
        case.check(q is not None and clusters.refchisq(mc) < 1e-2, "reduced-to-exact-data", detail)
        case.count("reduced to exact data")


def cleaned(case):
    """The peaks that a fit drops are those beyond the range that do not show in it."""
    rng = case.rng
    s = clusters.scene(rng, npeaks=int(rng.integers(2, 6)), n=int(rng.integers(40, 120)), ripples=0.1)
    s.err = s.err * rng.uniform(0.2, 3.0, len(s.x)) * float(10 ** rng.uniform(-1, 1))
    model = clusters.start(rng, s, away=0.1, removep=0.8)
    n = len(s.x)
    i = int(rng.integers(0, n // 2))
    sl = slice(i, int(rng.integers(i + 5, n + 1)))
    mc = clusters.cluster(model, s, sl)
    x, err = s.x[sl], s.err[sl]
    stay, may = [], []
    for p in mc.model:
        over = float(np.max(p.value(x) - err))
        pos = p["position"]
        if abs(over) < 1e-9 * s.height or min(abs(pos - x[0]), abs(pos - x[-1])) < 1e-9:
            may.append(gen.snapshot(p))
        elif not p.removable or x[0] < pos < x[-1] or over >= 0:
            stay.append(gen.snapshot(p))
    bad = None
    if len(mc.model) > 1 and rng.random() < 0.2:
        bad = mc.model[int(rng.integers(len(mc.model)))]
        if bad.removable and gen.snapshot(bad) in stay:
            stay.remove(gen.snapshot(bad))
            bad.pars[2] = np.nan
        else:
            bad = None
    had = len(mc.model)
    gone = mc.cleanfit()
    left = [gen.snapshot(p) for p in mc.model]
    case.check(gone == had - len(left), "cleaned-count", "%s of %s left, %s said to be removed" % (len(left), had, gone))
    case.check(not any(np.isnan(p.pars).any() for p in mc.model), "cleaned-numbers")
    case.check(all(w in left for w in stay), "cleaned-keeps", "%s -> %s, range %s..%s" % (stay, left, x[0], x[-1]))
    case.check(all(w in stay or w in may for w in left), "cleaned-removes", "%s -> %s, range %s..%s" % (stay, left, x[0], x[-1]))
    if gone:
        case.count("cleaned")
        case.sig(stay, had)
    if any(not x[0] < p["position"] < x[-1] for p in mc.model):
        case.count("kept beyond the range")


GROUPS = {"reduce": (750, 6000, reduce), "cleaned": (900, 8000, cleaned), "fit": (4500, 60000, fit), "undone": (600, 6000, undone), "recover": (900, 15000, recover), "parts": (1200, 15000, parts), "numeric": (450, 5000, numeric), "order": (900, 8000, order)}
REQUIRED = {"covariances of parts": 400, "peaks in another order": 10, "covariances compared in order": 30, "peaks gone": 10, "fits without derivatives": 40, "trials seen": 1000, "reduced": 20, "nothing to reduce": 30, "reduced to exact data": 20, "cleaned": 60, "kept beyond the range": 40, "fits with result": 125, "fits that improve": 150, "fits without result": 60, "covariances compared": 60,
            "fits with data outside the range": 50, "recovered": 60, "refused": 20, "undone fits with baseline": 15}
