"""C06: information criteria, comparisons, justification of growth, probabilities."""

import numpy as np

from lib import clusters, gen

TECHNIQUE = "reference-model oracle of the criteria on real clusters, order axioms monitored over all pairs of evaluated models"
NOTE = "Seeded exploration of clusters, including ones with fewer points than parameters; chi-squared is recomputed."
RULE = """Cases draw clusters with models of 0 to 12 peaks with fixed parameters and ranges down to one point. Non-trivial:
at least one free parameter; distinguished by evaluator, parameters, points and shift."""


def anycluster(rng):
    s = clusters.scene(rng, npeaks=int(rng.integers(1, 5)), ripples=0.1, n=int(rng.integers(5, 80)))
    drop = float(rng.choice([0, 0.3, 1]))
    model = clusters.start(rng, s, away=0.3, freep=float(rng.choice([0, 0.3, 0.9, 1])), drop=drop, extra=float(rng.choice([0, 0.5, 0.8])))
    n = len(s.x)
    k = rng.integers(3)
    if k == 0:
        sl = None
    elif k == 1:
        sl = gen.slices(rng, n)
    else:  # few points
        i = int(rng.integers(0, n))
        sl = slice(i, i + int(rng.integers(1, 20)))
    return s, clusters.cluster(model, s, sl)


def value(case):
    from diffpy.srmise.srmiseerrors import SrMiseModelEvaluatorError

    rng = case.rng
    s, mc = anycluster(rng)
    n = len(s.x[mc.slice])
    k = clusters.freecount(mc.model)
    kall = sum(len(p.pars) for p in mc.model)
    chisq = clusters.refchisq(mc)
    keep = clusters.frozen(s.x, s.y, s.err)
    before = gen.snapmodel(mc.model)
    for name in ("AIC", "AICc"):
        ev = gen.cls(name)
        want = clusters.refstat(name, chisq, k, n)
        q = mc.quality(ev)
        case.close(q.stat, want, "stat", "%s with k=%d n=%d" % (name, k, n), rtol=1e-9)
        case.close(q.chisq, chisq, "chisq", rtol=1e-9)
        e = ev()
        got = e.evaluate(mc)
        case.close([got, e.stat], [want, want], "evaluate", name, rtol=1e-9)
        case.close(ev().evaluate(mc, count_fixed=True), clusters.refstat(name, chisq, kall, n), "count-fixed", name, rtol=1e-9)
        for _ in range(3):
            shift = int(rng.integers(-k - 3, 12))
            if k + shift < 0:
                case.raises((SrMiseModelEvaluatorError,), lambda: mc.quality(ev, kshift=shift), "negative-k", (k, shift))
                case.count("negative")
            else:
                q2 = mc.quality(ev, kshift=shift)
                case.close(q2.stat, clusters.refstat(name, chisq, k + shift, n), "shifted", "%s k=%d%+d n=%d" % (name, k, shift, n), rtol=1e-9)
            case.sig(name, k, n, shift)
        if n < k + 2:
            case.count("too few points")
    q = mc.quality()
    case.check(type(q) is s.method, "default-evaluator")
    case.close(q.stat, clusters.refstat(s.method.__name__, chisq, k, n), "default-quality", rtol=1e-9)
    clusters.untouched(case, keep, "data-untouched")
    case.check(gen.snapmodel(mc.model) == before, "model-untouched")
    # growth
    for name in ("AIC", "AICc"):
        for kp in [1, 3] + [int(v) for v in rng.integers(0, 40, 3)]:
            q = mc.quality(gen.cls(name))
            kt = k + kp
            if name == "AIC":
                enough, pen = n >= 1, 2.0 * kp
            else:
                enough = n >= kt + 2
                pen = clusters.refstat(name, 0.0, kt, n) - clusters.refstat(name, 0.0, k, n)
            if abs(pen - chisq) < 1e-9 * max(abs(pen), chisq):
                continue
            want = bool(enough and pen < chisq)
            got = q.growth_justified(mc, kp)
            case.check(bool(got) == want, "growth", "%s k=%d k'=%d n=%d chi-squared %r: %s" % (name, k, kp, n, chisq, got))
            case.count("growth justified" if want else "growth not justified")
            if not enough:
                case.count("growth without points")
            # without evaluating first
            case.check(bool(gen.cls(name)().growth_justified(mc, kp)) == want, "growth-fresh")
    case.note(k=k, n=n, chisq=chisq)


REFUSED = (AssertionError, TypeError, ValueError)


def order(case):
    """Many models on the same data, all pairs."""
    rng = case.rng
    s = clusters.scene(rng, npeaks=2, n=int(rng.integers(20, 60)), ripples=0)
    name = ["AIC", "AICc"][rng.integers(2)]
    ev = gen.cls(name)
    qs, stats = [], []
    for _ in range(8):
        model = clusters.start(rng, s, away=float(10 ** rng.uniform(-3, 0)), freep=0.3, extra=0.3)
        mc = clusters.cluster(model, s)
        qs.append(mc.quality(ev))
        stats.append(clusters.refquality(mc) if s.method is ev else clusters.refstat(name, clusters.refchisq(mc), clusters.freecount(model), len(s.x)))
    # scale down so that probabilities are not all zero or one
    if rng.random() < 0.7:
        f = 10 ** rng.uniform(0, 1.5) / max(1e-9, np.ptp(stats))
        m = min(stats)
        for q in qs:
            q.stat = m + (q.stat - m) * f
    if rng.random() < 0.5:
        qs[0].stat = qs[-1].stat
    st = [q.stat for q in qs]
    for i, a in enumerate(qs):
        for j, b in enumerate(qs):
            x, y = st[i], st[j]  # lower is better
            got = (a > b, a >= b, a < b, a <= b, a == b, a != b)
            want = (x < y, x <= y, x > y, x >= y, x == y, x != y)
            case.check(tuple(map(bool, got)) == want, "comparison", "%r against %r: %s" % (x, y, got))
    best = max(qs)
    case.check(best.stat == min(st), "best-is-greatest")
    case.check([q.stat for q in sorted(qs)] == sorted(st, reverse=True), "sorting")
    p = ev.akaikeprobs(qs)
    case.close(np.sum(p), 1.0, "probabilities-sum", rtol=1e-12)
    d = np.array(st) - min(st)
    w = np.exp(-d / 2)
    case.close(p, w / w.sum(), "probabilities", rtol=1e-9, atol=1e-300)
    case.close(ev.akaikeweights(qs), w, "weights", rtol=1e-9, atol=1e-300)
    if np.sum(p > 1e-6) > 1:
        case.count("probabilities shared")
        case.sig(p.round(6).tolist())
    # refusals
    other = gen.cls("AICc" if name == "AIC" else "AIC")()
    other.evaluate(mc)
    un = ev()
    for z, label in ((other, "other method"), (un, "unevaluated")):
        for op in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
            case.raises(REFUSED, lambda: getattr(qs[0], op)(z), "refuses-" + label.replace(" ", "-"), op)
            case.raises(REFUSED, lambda: getattr(z, op)(qs[0]), "refuses-" + label.replace(" ", "-"), op)
            case.count("refusals")


def own(case):
    """Kinds of quality of one's own, by their rank among others."""
    from diffpy.srmise.modelevaluators.base import ModelEvaluator

    rng = case.rng
    higher = bool(rng.random() < 0.6)
    qs = []
    for v in rng.choice(rng.normal(size=6) * 10 ** rng.uniform(-3, 3), 9):
        q = ModelEvaluator("own", higher)
        q.stat = float(v) if rng.random() < 0.8 else int(v)
        qs.append(q)
    rank = {v: i for i, v in enumerate(sorted(set(q.stat for q in qs), reverse=not higher))}
    for a in qs:
        for b in qs:
            x, y = rank[a.stat], rank[b.stat]
            got = (a > b, a >= b, a < b, a <= b, a == b, a != b)
            case.check(tuple(map(bool, got)) == (x > y, x >= y, x < y, x <= y, x == y, x != y), "own-comparison", "%r against %r, higher is better: %s: %s" % (a.stat, b.stat, higher, got))
    case.check([rank[q.stat] for q in sorted(qs)] == sorted(rank[q.stat] for q in qs), "own-sorting")
    case.count("higher is better" if higher else "lower is better")
    a, e, o = rng.normal(size=(3, int(rng.integers(1, 30))))
    d = np.abs(a) + 0.1
    case.close(qs[0].chi_squared(e, o, d), sum(((u - v) / w) ** 2 for u, v, w in zip(e, o, d)), "own-chi-squared", rtol=1e-9)
    case.check(qs[0].method == "own" and qs[0].higher_is_better is higher and ModelEvaluator("own", higher).stat is None, "own-kind")
    z = ModelEvaluator("other", higher)
    z.stat = 1.0
    for z in (z, ModelEvaluator("own", higher)):
        for op in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
            case.raises(REFUSED, lambda: getattr(qs[0], op)(z), "own-refuses", op)
            case.raises(REFUSED, lambda: getattr(z, op)(qs[0]), "own-refuses", op)
    case.sig([q.stat for q in qs])


GROUPS = {"own": (240, 2000, own), "value": (4800, 40000, value), "order": (1200, 10000, order)}
REQUIRED = {"negative": 100, "too few points": 100, "growth justified": 500, "growth not justified": 500,
            "growth without points": 100, "probabilities shared": 100, "refusals": 1000, "higher is better": 15, "lower is better": 10}
