"""C19: multimodel selection."""

import os
import pickle

import numpy as np

from checks.C23 import settings, values
from lib import extractions, gen

TECHNIQUE = "reference computation of qualities, probabilities and classes by value, relational monitors on every query, and snapshot monitors of the models"
NOTE = "Seeded exploration of collections of models, uncertainties, tolerances, and sequences of queries, displays and files."
RULE = """Cases draw data, settings and a collection of models near a few exemplars, and compare tables, classes and queries to
their definitions. Non-trivial: at least two models; distinguished by their qualities and classes."""
REQUIRED = {"collections": 60, "models": 300, "qualities": 1000, "several classes": 30, "several in a class": 30, "queries": 500, "loaded": 20, "displayed": 30, "split by a peak": 20,
            "split by the baseline": 10, "best differs": 20, "run": 3}
CHUNK = {"run": 1}
ASSUMPTIONS = """Models whose differences come within rounding of the tolerance are not judged. Ties of quality may be resolved in any
way. The probability reported for a model that is not the best of its class is not judged."""


def scene(rng):
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", npeaks=int(rng.integers(1, 4)), n=int(rng.integers(20, 60)))
    s.vars.pop("effective_dy", None)
    if rng.random() < 0.5:
        s.vars["error_method"] = ["AIC", "AICc"][int(rng.integers(2))]
    ppe = s.build()
    ppe.defaultvars()
    mm = gen.cls("MultimodelSelection")()
    mm.setppe(ppe)
    own = ppe.baseline if hasattr(ppe.baseline, "estimate_parameters") else ppe.baseline.owner()
    m = own.npars
    lo, hi = max(ppe.x[0], ppe.rng[0]), min(ppe.x[-1], ppe.rng[1])

    def newpeak():
        f = ppe.pf[int(rng.integers(len(ppe.pf)))]
        if s.qmax and rng.random() < 0.3:
            f = gen.cls("TerminationRipples")(f, s.qmax)
        limit = 0.98 * (getattr(f, "base", None) or f).maxwidth
        q = [float(rng.uniform(lo, hi)), min(0.35 * float(rng.uniform(0.3, 0.9)), limit), float(rng.uniform(0.1, 3)) * s.true[0][2]]
        return f.actualize(q, "pwa", gen.mask(rng, 3, 0.3), bool(rng.random() < 0.6), False)

    truth = [s.functions()[0].actualize([p[0], min(p[1], 0.98 * s.pf[0][1]), p[2]], "pwa") for p in s.true]
    exemplars = [[p.copy() for p in truth]]
    for _ in range(int(rng.integers(0, 4))):
        k = int(rng.integers(4))
        e = [p.copy() for p in exemplars[int(rng.integers(len(exemplars)))]]
        if k == 0:
            e.append(newpeak())
        elif k == 1 and e:
            e.pop(int(rng.integers(len(e))))
        else:
            e = [newpeak() for _ in range(int(rng.integers(0, 4)))]
        exemplars.append(e)
    bls = [list((0.1 * s.height * rng.normal(size=m))) for _ in range(int(rng.integers(1, 3)))]
    if rng.random() < 0.4:
        bls[0] = [0.0] * m
    n = int(rng.integers(1, 9))
    errs = np.sort(s.height * 10 ** rng.uniform(-2.5, -0.3, n))
    size = float(10 ** rng.uniform(-3, -0.7))
    for e in errs:
        peaks = gen.cls("Peaks")()
        for p in exemplars[int(rng.integers(len(exemplars)))]:
            p = p.copy()
            if rng.random() < 0.7:
                p.pars = p.pars * (1 + size * rng.normal(size=3) * [0.02, 1, 1])
            p.free[:] = gen.mask(rng, 3, 0.3) if rng.random() < 0.3 else p.free
            peaks.append(p)
        if rng.random() < 0.5:
            peaks.sort()
        b = list(bls[int(rng.integers(len(bls)))])
        if rng.random() < 0.5:
            b = [v * (1 + size * rng.normal()) for v in b]
        bl = own.actualize(b, "internal", gen.mask(rng, m, 0.4), bool(rng.random() < 0.5), False)
        mm.results.append([float(e), peaks, bl, float((hi - lo) / rng.uniform(8, 60))])
    if n > 1 and rng.random() < 0.15:
        mm.results[-1][1:3] = [mm.results[0][1].copy(), mm.results[0][2].copy()]
    return s, mm


def refstat(method, chisq, k, n):
    if method == "AIC":
        return chisq + 2 * k
    n = max(n, k + 2)
    return chisq + 2 * k + 2.0 * k * (k + 1) / (n - k - 1)


def refprobs(stats):
    w = np.exp(-(np.array(stats) - min(stats)) / 2)
    return w, w / w.sum()


def qualities(case, mm, dgs, dr):
    """The tables against their definitions."""
    ppe = mm.ppe
    r, y, dr_, dy = ppe.resampledata(dr)
    method = ppe.error_method.__name__
    chis, ks = [], []
    for e, peaks, bl, d in mm.results:
        v = bl.value(r) + sum([p.value(r) for p in peaks], np.zeros(len(r)))
        chis.append(np.sum((y - v) ** 2))
        ks.append(sum(int(np.sum(p.free)) for p in peaks))
    case.check(sorted(mm.dgs.tolist()) == sorted(dgs) and all(set(t) == set(dgs) for t in (mm.aicweights, mm.aicprobs, mm.sortedprobs)), "uncertainties", "%s instead of %s" % (mm.dgs, dgs))
    stats = {}
    for dg in dgs:
        stats[dg] = want = [refstat(method, c / dg**2, k, len(r)) for c, k in zip(chis, ks)]
        got = [q.stat for q in mm.aics[dg]]
        case.close(got, want, "quality", "qualities at %s" % dg, rtol=1e-7)
        w, p = refprobs(got)
        case.close(mm.aicweights[dg], w, "weights", rtol=1e-9, atol=1e-300)
        case.close(mm.aicprobs[dg], p, "probabilities", rtol=1e-9, atol=1e-300)
        case.check(all(type(q) is ppe.error_method for q in mm.aics[dg]), "evaluator")
        order = mm.sortedprobs[dg]
        case.check(sorted(order) == list(range(len(want))) and np.all(np.diff(mm.aicprobs[dg][order]) >= 0), "sorted", "%s for %s" % (order, p))
        case.check(mm.dgs[mm.dgs_idx[dg]] == dg, "index")
        case.count("qualities", len(want))
    return stats


def classes(case, mm, r, tol):
    """The classes against their definition; None if a decision is too close."""
    squares = [([p.value(r) ** 2 for p in res[1]], res[2].value(r) ** 2) for res in mm.results]

    def near(a, b):
        d, m = np.sum(np.abs(a - b)), tol * min(np.sum(a), np.sum(b))
        if abs(d - m) <= 1e-9 * m and (d or m):
            raise ValueError
        return d <= m

    out = []
    for i, (ps, b) in enumerate(squares):
        for c in out:
            qs, bb = squares[c[0]]
            if len(qs) != len(ps):
                continue
            if not all([near(p, q) for p, q in zip(ps, qs)]):
                case.count("split by a peak")
                continue
            if not near(b, bb):
                case.count("split by the baseline")
                continue
            c.append(i)
            break
        else:
            out.append([i])
    return out


def classtables(case, mm, stats):
    n = len(mm.results)
    case.check(sorted(i for c in mm.classes for i in c) == list(range(n)), "partition", "%s" % mm.classes)
    case.check(dict(mm.classes_idx) == {i: k for k, c in enumerate(mm.classes) for i in c}, "class-index", "%s for %s" % (mm.classes_idx, mm.classes))
    for dg in mm.dgs:
        a = [q.stat for q in mm.aics[dg]]
        table = mm.sortedclasses[dg]
        case.check([sorted(t) for t in table] == [sorted(c) for c in mm.classes] and all(a[x] >= a[z] for t in table for x, z in zip(t, t[1:])), "sorted-classes", "%s of %s with %s" % (table, mm.classes, a))
        best = [min(a[i] for i in c) for c in mm.classes]
        w, p = refprobs(best)
        case.close(mm.classweights[dg], w, "class-weights", rtol=1e-9, atol=1e-300)
        case.close(mm.classprobs[dg], p, "class-probabilities", rtol=1e-9, atol=1e-300)
        order = mm.sortedclassprobs[dg]
        case.check(sorted(order) == list(range(len(best))) and np.all(np.diff(mm.classprobs[dg][order]) >= 0), "sorted-class-probabilities", "%s for %s" % (order, p))


def queries(case, mm):
    rng = case.rng
    dgs = [float(v) for v in mm.dgs]
    some = [dgs[int(i)] for i in rng.permutation(len(dgs))[: int(rng.integers(1, len(dgs) + 1))]]
    stat = lambda dg, i: mm.aics[dg][i].stat
    nc, nm = len(mm.classes), len(mm.results)
    for arg in ([], [some]):
        use = arg[0] if arg else dgs
        bc = {dg: mm.sortedclassprobs[dg][-1] for dg in use}
        bm = {dg: mm.sortedclasses[dg][bc[dg]][-1] for dg in use}
        case.check(np.array_equal(mm.bestclasses(*arg), sorted(set(bc.values()))), "best-classes", "%s for %s" % (mm.bestclasses(*arg), bc))
        case.check(np.array_equal(mm.bestmodels(*arg), sorted(set(bm.values()))), "best-models", "%s for %s" % (mm.bestmodels(*arg), bm))
        for c in range(nc):
            case.check([float(d) for d in mm.classbestdgs(c, *arg)] == [d for d in use if bc[d] == c], "class-best", "%s for %s" % (mm.classbestdgs(c, *arg), bc))
        for i in range(nm):
            case.check([float(d) for d in mm.modelbestdgs(i, *arg)] == [d for d in use if bm[d] == i], "model-best", "%s for %s" % (mm.modelbestdgs(i, *arg), bm))
        for d in use:
            case.check(stat(d, bm[d]) == min(stat(d, i) for i in range(nm)), "best-is-best", "%s at %s" % (bm[d], d))
        if len(set(bm.values())) > 1:
            case.count("best differs")
        case.count("queries", 2 * nc)
    for dg in some:
        case.check(mm.dg_key(dg) == dg and mm.dg_key(dg * (1 + 1e-10)) == dg, "key")
        k = int(rng.integers(nc))
        c = mm.get_class(dg, corder=k)
        case.check(c == mm.sortedclassprobs[dg][-1 - k] and mm.get_class(dg) == mm.sortedclassprobs[dg][-1], "class")
        j = int(rng.integers(len(mm.classes[c])))
        m = mm.get_model(dg, corder=k, morder=j)
        better = [i for i in mm.classes[c] if stat(dg, i) < stat(dg, m)]
        worse = [i for i in mm.classes[c] if stat(dg, i) > stat(dg, m)]
        case.check(m in mm.classes[c] and len(better) <= j <= len(mm.classes[c]) - 1 - len(worse), "model", "%s is %s of %s" % (m, j, mm.classes[c]))
        case.check(mm.get_model(dg, cls=c, morder=j) == m, "model-by-class")
        j2 = int(rng.integers(nm))
        m2 = mm.get_model(dg, cls=None, morder=j2)
        better = [i for i in range(nm) if mm.aicprobs[dg][i] > mm.aicprobs[dg][m2]]
        worse = [i for i in range(nm) if mm.aicprobs[dg][i] < mm.aicprobs[dg][m2]]
        case.check(len(better) <= j2 <= nm - 1 - len(worse), "model-of-all")
        for kw, i, pr in ((dict(corder=k), mm.sortedclasses[dg][c][-1], mm.classprobs[dg][c]), (dict(cls=c), mm.sortedclasses[dg][c][-1], mm.classprobs[dg][c]),
                          (dict(cls=None, morder=j2), m2, mm.aicprobs[dg][m2]), ({}, mm.sortedclasses[dg][mm.get_class(dg)][-1], mm.classprobs[dg][mm.get_class(dg)])):
            keep = dict(kw)
            free = sum(int(np.sum(p.free)) for p in mm.results[i][1]) + int(np.sum(mm.results[i][2].free))
            want = {"aic": stat(dg, i), "model": i, "nfree": free, "prob": pr, "dG": dg}
            case.check(mm.get_model(dg, **kw) == i and mm.get_prob(dg, **kw) == pr and mm.get_nfree(dg, **kw) == free and mm.get_aic(dg, **kw) == want["aic"], "values", "%s at %s" % (kw, dg))
            names = [["aic", "model", "nfree", "prob", "dG"][int(x)] for x in rng.integers(0, 5, int(rng.integers(0, 6)))]
            case.check(mm.get(dg, *names, **kw) == tuple(want[x] for x in names), "get", "%s of %s is %s" % (names, kw, mm.get(dg, *names, **kw)))
            if "cls" not in kw:
                case.check(mm.get(dg, "class", **kw) == (mm.sortedclassprobs[dg][-1 - kw.get("corder", 0)],), "get-class")
            case.check(kw == keep, "arguments")
        case.check(mm.maxprobmodel_byclass(dg) == mm.sortedclasses[dg][mm.sortedclassprobs[dg][-1]][-1], "most-probable-by-class")
        case.check(mm.maxprobmodel_bymodel(dg) == mm.sortedprobs[dg][-1], "most-probable")
        case.count("queries", 10)
    for i in range(nm):
        d = mm.maxprobdG_bymodel(i)
        case.check(mm.aicprobs[d][i] == max(mm.aicprobs[x][i] for x in dgs), "best-uncertainty", "%s for %s" % (d, i))
        d = mm.maxprobdG_byclass(i)
        c = mm.classes_idx[i]
        case.check(mm.classprobs[d][c] == max(mm.classprobs[x][c] for x in dgs), "best-uncertainty-by-class", "%s for %s" % (d, i))
    x = float(rng.uniform(0.5 * min(dgs), 1.2 * max(dgs)))
    case.check(abs(mm.dg_key(x) - x) == min(abs(d - x) for d in dgs), "nearest-key")


def display(case, mm):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    rng = case.rng
    k = int(rng.integers(4))
    try:
        if k == 0:
            kw = {}
            if rng.random() < 0.4:
                kw["dGs"] = np.sort(mm.dgs)[: int(rng.integers(2, len(mm.dgs) + 1))] if len(mm.dgs) > 1 else mm.dgs
            if rng.random() < 0.4:
                kw["classes"] = sorted(set(int(i) for i in rng.integers(0, len(mm.classes), 3)))
            if rng.random() < 0.4:
                kw["highlight"] = [mm.dgs[0]]
            if rng.random() < 0.4:
                kw["class_size"] = ["number", "fraction"][int(rng.integers(2))]
            if rng.random() < 0.4:
                kw["norm"] = ["auto", "full"][int(rng.integers(2))]
            if rng.random() < 0.3:
                kw["scale"] = 2.0
            if rng.random() < 0.3:
                kw["title"] = ["text", False][int(rng.integers(2))]
            out = mm.plot3dclassprobs(**kw)
            case.check({"fig", "axis", "cb", "cbaxis"} <= set(out), "plot-parts")
            polys = [c for c in out["axis"].collections]
            case.check(len(polys) == 1, "plot-polygons")
            segs = polys[0]._segslices if hasattr(polys[0], "_segslices") else None
            shown = kw.get("classes", list(range(len(mm.classes))))
            shown = [c for c in shown if max(mm.classprobs[d][c] for d in kw.get("dGs", mm.dgs)) <= 1]
            if segs is not None:
                case.check(len(segs) == len(shown), "plot-classes", "%s for %s" % (len(segs), shown))
                for sl, c in zip(segs, shown):
                    xyz = np.array(polys[0]._vec[:, sl]) if hasattr(polys[0], "_vec") else None
                    if xyz is not None:
                        ds = kw.get("dGs", mm.dgs)
                        case.close(xyz[0][1 : len(ds) + 1], np.asarray(ds) * kw.get("scale", 1.0), "plot-uncertainties")
                        case.close(xyz[2][1 : len(ds) + 1], [mm.classprobs[d][c] for d in ds], "plot-probabilities")
        elif k == 1 and len(mm.dgs) == len(mm.results):
            mm.animate_probs()
        elif k == 2 and len(mm.dgs) == len(mm.results):
            mm.animate_classprobs()
        else:
            mm.setcurrent(int(rng.integers(len(mm.results))))
            mm.plot()
            mm.plotseries()
    finally:
        plt.close("all")
    case.count("displayed")


def tables(mm):
    return repr([mm.dgs.tolist(), sorted(mm.dgs_idx.items()), mm.classes, sorted(mm.classes_idx.items())]
                + [[(float(d), np.asarray([getattr(q, "stat", q) for q in t[d]], dtype=object if t is mm.sortedclasses else None).tolist()) for d in sorted(mm.dgs)]
                   for t in (mm.aics, mm.aicweights, mm.aicprobs, mm.sortedprobs, mm.classweights, mm.classprobs, mm.sortedclassprobs)]
                + [[mm.sortedclasses[d] for d in sorted(mm.dgs)] if mm.sortedclasses else None])


def study(case, s, mm):
    rng = case.rng
    ppe = mm.ppe
    base = min(p[1] for p in s.true)
    n = len(mm.results)
    dgs = [float(v) for v in np.unique(s.height * 10 ** rng.uniform(-2.5, 0, n if rng.random() < 0.5 else int(rng.integers(1, 6))))]
    if rng.random() < 0.3:
        rng.shuffle(dgs)
    dr = float(base * rng.uniform(0.1, 0.5))
    keep, base = values(mm), settings(ppe)
    name = None
    if rng.random() < 0.5:
        name = os.path.join(os.environ["VERIF_SCRATCH"], "aics-%s-%s-%d" % (case.group, case.index, os.getpid()))
    if rng.random() < 0.2:  # not the first time
        mm.makeaics([dgs[-1]], dr * 2)
    mm.makeaics(dgs if rng.random() < 0.5 else np.array(dgs), dr, name)
    case.check(values(mm) == keep and settings(ppe) == base, "untouched")
    case.check(mm.dgs.tolist() == dgs, "order", "%s instead of %s" % (mm.dgs, dgs))
    stats = qualities(case, mm, dgs, dr)
    # classes
    r = np.linspace(ppe.x[0], ppe.x[-1], int(rng.integers(50, 300)))
    for _ in range(int(rng.integers(1, 3))):
        tol = float([0.05, 10 ** rng.uniform(-3, 0)][int(rng.random() < 0.7)])
        try:
            want = classes(case, mm, r, tol)
        except ValueError:
            return
        if tol == 0.05 and rng.random() < 0.5:
            mm.classify(r)
        else:
            mm.classify(r, tol)
        case.check([list(c) for c in mm.classes] == want, "classes", "%s instead of %s with %s" % (mm.classes, want, tol))
        case.check(mm.class_tolerance == tol, "tolerance")
        case.check(values(mm) == keep and settings(ppe) == base, "untouched")
        classtables(case, mm, stats)
        if len(want) > 1:
            case.count("several classes")
        if max(map(len, want)) > 1:
            case.count("several in a class")
        t = tables(mm)
        queries(case, mm)
        case.check(tables(mm) == t, "queries-change-nothing", "%s became %s" % (t, tables(mm)))
        case.check(values(mm) == keep and settings(ppe) == base, "untouched")
        if case.group != "made" or case.index % 3 == 0:
            display(case, mm)
            case.check(tables(mm) == t, "displays-change-nothing", "%s became %s" % (t, tables(mm)))
            case.check(values(mm) == keep, "untouched", "%s became %s" % (keep, values(mm)))
    if name is not None:
        plain = pickle.load(open(name, "rb"))
        case.check({float(d): [float(v) for v in st] for d, st in plain.items()} == {d: [q.stat for q in mm.aics[d]] for d in dgs}, "saved")
        other = gen.cls("MultimodelSelection")()
        other.setppe(ppe)
        other.results = [list(x) for x in mm.results]
        if rng.random() < 0.3:
            other.makeaics([dgs[0]], dr * 3)
        other.loadaics(name)
        os.unlink(name)
        case.check(other.dgs.tolist() == sorted(dgs), "loaded-order")
        qualities(case, other, dgs, dr)
        other.classify(r, mm.class_tolerance)
        for attr in ("aicweights", "aicprobs", "sortedprobs", "classweights", "classprobs", "sortedclassprobs", "sortedclasses"):
            a, b = getattr(mm, attr), getattr(other, attr)
            case.check(all(np.array_equal(np.asarray(a[d], dtype=object), np.asarray(b[d], dtype=object)) if attr != "sortedclasses" else a[d] == b[d] for d in dgs), "loaded-tables", attr)
        queries(case, other)
        case.check(values(mm) == keep and settings(ppe) == base, "untouched")
        case.count("loaded")
    case.count("collections")
    case.count("models", n)
    if n > 1:
        case.sig(mm.classes, [[q.stat for q in mm.aics[d]] for d in dgs])
    case.note(models=n, dgs=dgs, classes=mm.classes)


def made(case):
    s, mm = scene(case.rng)
    study(case, s, mm)


def run(case):
    """Models that extractions gave."""
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", npeaks=int(rng.integers(1, 4)), n=int(rng.integers(25, 50)))
    s.vars.pop("effective_dy", None)
    mm = gen.cls("MultimodelSelection")()
    mm.setppe(s.build())
    mm.run([max(s.noise, 1e-3 * s.height) * float(v) for v in np.geomspace(0.7, 20, int(rng.integers(2, 5)))])
    case.count("run")
    study(case, s, mm)


GROUPS = {
    "made": (1000, 8000, made),
    "run": (24, 150, run),
}
