"""C12: text forms of functions, parts and clusters."""

import os

import numpy as np

from lib import clusters, extractions, gen

TECHNIQUE = "round-trip monitors comparing functions, parts and clusters with what is built from their text, parameter by parameter and value by value, and fault injection into the text"
NOTE = "Seeded exploration of all functions that have a text form, lists of functions with shared bases, parts with all flags, and clusters."
RULE = """Cases draw functions, parts or clusters, write them and build them again from lists of functions in various orders.
Non-trivial: every text; distinguished by it."""
REQUIRED = {"functions": 200, "nested functions": 50, "functions based on based functions": 15, "parts": 200, "clusters": 60, "functions of peaks only": 30, "rejected": 200}


def number(rng, v):
    """The same number in one of the types in which users have it."""
    return [float, np.float64, lambda t: float("%.17g" % t)][rng.integers(3)](v)


def peakfunction(rng, depth=0):
    f = gen.cls(["Gaussian", "GaussianOverR"][rng.integers(2)])(number(rng, 10 ** rng.uniform(-1.3, 0.7)) if rng.random() < 0.9 else int(rng.integers(1, 4)))
    # rarely ripples of a function that has ripples already
    while depth < 3 and rng.random() < (0.45 if depth == 0 else 0.15):
        depth += 1
        args = [number(rng, rng.uniform(8, 40))]
        if rng.random() < 0.5:
            args.append(number(rng, rng.uniform(1, 6)))
            if rng.random() < 0.7:
                args.append(number(rng, rng.uniform(1.5, 8)))
        f = gen.cls("TerminationRipples")(f, *args)
    return f


def baselinefunction(rng):
    k = int(rng.integers(4))
    if k == 0:
        return gen.cls("Polynomial")([int, np.int64, str][rng.integers(3)](rng.integers(-1, 7)))
    if k == 1:
        return gen.cls("NanoSpherical")()
    n = int(rng.integers(4, 30))
    x = np.cumsum(10.0 ** rng.uniform(-2, 0.5, n)) - rng.uniform(0, 3)
    y = rng.normal(size=n) * 10.0 ** rng.uniform(-8, 8)
    if k == 2:
        how = [np.array, list, tuple][rng.integers(3)]
        return gen.cls("FromSequence")(how(x), how(y)) if rng.random() < 0.5 else gen.cls("FromSequence")(x=how(x), y=how(y))
    path = os.path.join(os.environ["VERIF_SCRATCH"], "c12-%d" % os.getpid())
    np.savetxt(path, np.array([x, y]).T, header="points" if rng.random() < 0.5 else "", fmt="%.17g")
    f = gen.cls("FromSequence")(path) if rng.random() < 0.5 else gen.cls("FromSequence")(file=path)
    os.remove(path)
    return f


def randompars(rng, f):
    name = type(f).__name__
    if name in ("Gaussian", "GaussianOverR", "TerminationRipples"):
        g = f
        while g.base is not None:
            g = g.base
        p = gen.peakpars(rng, float(g.maxwidth), 1.0, 10.0)
        return f.actualize(list(p), "pwa").pars
    if name == "NanoSpherical":
        return np.array([10 ** rng.uniform(-3, 3), rng.uniform(0.5, 20)])
    return rng.normal(size=f.npars) * 10.0 ** rng.uniform(-4, 4)


def samefunction(case, f, g):
    rng = case.rng
    case.check(type(f) is type(g), "function-type", "%s became %s" % (type(f), type(g)))
    case.check(f.npars == g.npars and f.parameterdict == g.parameterdict and list(f.parformats) == list(g.parformats), "function-description")
    for name in ("maxwidth", "qmax", "extension", "supersample", "degree"):
        if hasattr(f, name):
            case.check(getattr(f, name) == getattr(g, name), "function-" + name, "%r became %r" % (getattr(f, name), getattr(g, name)))
    case.check((f.base is None) == (g.base is None), "function-base")
    lo, hi = (f.minx, f.maxx) if type(f).__name__ == "FromSequence" else (0.3, 12.0)
    x = np.linspace(float(lo), float(hi), 40)
    pars = randompars(rng, f)
    a, b = f.actualize(pars, "internal"), g.actualize(pars, "internal")
    case.check(np.array_equal(a.value(x), b.value(x), equal_nan=True), "function-values", "%s %s %s %s" % (type(f).__name__, pars, a.value(x), b.value(x)))
    if f.base is not None:
        case.count("nested functions")
    case.count("functions")


def rebuild(texts):
    out = []
    for t in texts:
        out.append(gen.cls("BaseFunction").factory(t, out))
    return out


def functionlist(rng, make, n):
    """Functions some of which share their bases, and the safe list of them."""
    fs = [make(rng) for _ in range(n)]
    for f in list(fs):
        if rng.random() < (0.3 if f.base is None else 0.1) and make is peakfunction:
            fs.append(gen.cls("TerminationRipples")(f, float(rng.uniform(10, 30))))
    order = rng.permutation(len(fs))
    fs = [fs[i] for i in order]
    return fs, gen.cls("BaseFunction").safefunctionlist(fs)


def functions(case):
    rng = case.rng
    make = [peakfunction, baselinefunction][rng.integers(2)]
    fs, safe = functionlist(rng, make, int(rng.integers(1, 5)))
    case.check(len(set(map(id, safe))) == len(safe) and all(any(f is g for g in safe) for f in fs), "safe-list")
    for i, f in enumerate(safe):
        case.check(f.base is None or any(f.base is g for g in safe[:i]), "safe-list-order")
    extra = [f for f in safe if not any(f is g for g in fs)]
    case.check(all(any(f is g.base for g in safe) for f in extra), "safe-list-minimal")
    if any(f.base is not None and f.base.base is not None for f in safe):
        case.count("functions based on based functions")
    texts = [f.writestr(safe) for f in safe]
    new = rebuild(texts)
    for f, g in zip(safe, new):
        samefunction(case, f, g)
        if f.base is not None:
            i = [h is f.base for h in safe].index(True)
            case.check(g.base is new[i], "function-base-shared")
    case.check([g.writestr(new) for g in new] == texts, "text-again")
    case.sig(texts)
    case.note(text=texts[-1])
    # faults
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError

    f = safe[int(rng.integers(len(safe)))]
    t = f.writestr(safe)
    lines = t.splitlines()
    i = int(rng.integers(len(lines)))
    k = lines[i].split("=")[0]
    for v in ("(", "[1, 2", "1 2", "", "nosuchname", "'open"):
        bad = "\n".join(lines[:i] + [k + "=" + v] + lines[i + 1:]) + "\n"
        if v == "" and k in ():
            continue
        case.raises((SrMiseDataFormatError, ValueError), lambda: gen.cls("BaseFunction").factory(bad, safe), "function-unparseable", bad)
        case.count("rejected")
    if f.base is not None:
        case.raises(ValueError, lambda: f.writestr([f]), "function-base-not-listed")
        bad = t.replace("base=%d" % safe.index(f.base), "base=%d" % (len(safe) + int(rng.integers(5))))
        case.raises((SrMiseDataFormatError, ValueError), lambda: gen.cls("BaseFunction").factory(bad, safe), "function-reference", bad)
        case.count("rejected", 2)


def parts(case):
    rng = case.rng
    peaks = bool(rng.random() < 0.6)
    fs, safe = functionlist(rng, peakfunction if peaks else baselinefunction, int(rng.integers(1, 4)))
    new = rebuild([f.writestr(safe) for f in safe])
    C = gen.cls("Peak" if peaks else "Baseline")
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError

    for f in fs:
        pars = randompars(rng, f)
        if not peaks and rng.random() < 0.2 and len(pars):
            pars[0] = [0.0, -0.0, 1e-310, 1e300, 1 / 3][rng.integers(5)]
        free = gen.mask(rng, f.npars, 0.4)
        if rng.random() < 0.3:
            free = np.array(free, dtype=bool)
        kw = {"removable": bool(rng.random() < 0.5), "static_owner": bool(rng.random() < 0.5)} if rng.random() < 0.8 else {}
        p = f.actualize(pars if rng.random() < 0.5 else list(pars), "internal", free, **kw)
        t = p.writestr(safe)
        q = C.factory(t, new)
        case.check(type(q) is type(p), "part-type", type(q))
        i = [f is g for g in safe].index(True)
        case.check(q.owner() is new[i], "part-owner", "%d of %d" % (i, len(safe)))
        case.check(p.pars.tolist() == q.pars.tolist() and str(p.pars.tolist()) == str(q.pars.tolist()), "part-pars", "%s became %s" % (p.pars, q.pars))
        case.check(p.free.tolist() == q.free.tolist() and q.free.dtype == bool, "part-free", "%s became %s" % (p.free, q.free))
        case.check(bool(p.removable) == bool(q.removable) and bool(p.static_owner) == bool(q.static_owner), "part-flags")
        lo, hi = (f.minx, f.maxx) if type(f).__name__ == "FromSequence" else (0.3, 12.0)
        x = np.linspace(float(lo), float(hi), 30)
        case.check(np.array_equal(p.value(x), q.value(x), equal_nan=True), "part-values")
        case.check(C.factory(t, safe) == p, "part-equal")
        case.count("parts")
        case.sig(t)
        case.note(text=t)
        # faults
        others = [g for g in safe if g is not f]
        case.raises(ValueError, lambda: p.writestr(others), "part-owner-not-listed")
        lines = t.splitlines()
        i = int(rng.integers(len(lines)))
        k = lines[i].split("=")[0]
        for v in (k, k + "=(", k + "=1 2", k + "=", k + "=nosuchname", k + ":1"):
            bad = "\n".join(lines[:i] + [v] + lines[i + 1:]) + "\n"
            case.raises((SrMiseDataFormatError, ValueError), lambda: C.factory(bad, new), "part-unparseable", bad)
        bad = t.replace("owner=%d" % safe.index(f), "owner=%d" % (len(safe) + int(rng.integers(5))))
        case.raises((SrMiseDataFormatError, ValueError), lambda: C.factory(bad, new), "part-reference", bad)
        case.count("rejected", 8)


def clustertext(case):
    rng = case.rng
    s = clusters.scene(rng, n=int(rng.integers(8, 60)))
    model = clusters.start(rng, s, freep=0.3, removep=0.6, drop=float(rng.choice([0, 0.5])), extra=0.4)
    for p in model:
        p.static_owner = bool(rng.random() < 0.3)
    n = len(s.x)
    sl = gen.slices(rng, n)
    mc = clusters.cluster(model, s, sl)
    pfs = list(mc.peak_funcs)
    if rng.random() < 0.4:
        pfs = pfs + [peakfunction(rng)]
        if rng.random() < 0.5:
            pfs.reverse()
    if np.ptp(np.diff(s.x)) < 1e-6 and rng.random() < 0.4:  # peaks of functions that are not tried, as after adding termination ripples
        ripples = gen.cls("TerminationRipples")(s.pf, float(rng.uniform(10, 30)))
        for p in model:
            if not p.static_owner and rng.random() < 0.6:
                p.changeowner(ripples)
        if rng.random() < 0.5:
            pfs = [f for f in pfs if f is not s.pf] or [peakfunction(rng)]
        case.count("functions of peaks only", any(p.owner() not in pfs for p in model))
    if pfs != mc.peak_funcs:
        mc = gen.cls("ModelCluster")(model, s.bl, s.x, s.y, s.err, sl, s.method, pfs)
    F = gen.cls("BaseFunction")
    kw, kw2 = {}, {}
    if rng.random() < 0.4:
        kw["pfbaselist"] = F.safefunctionlist([peakfunction(rng)] + pfs + [p.owner() for p in model])
        kw2["pfbaselist"] = rebuild([f.writestr(kw["pfbaselist"]) for f in kw["pfbaselist"]])
    if rng.random() < 0.4:
        kw["blfbaselist"] = F.safefunctionlist([baselinefunction(rng)] + ([] if mc.baseline is None else [mc.baseline.owner()]))
        kw2["blfbaselist"] = rebuild([f.writestr(kw["blfbaselist"]) for f in kw["blfbaselist"]])
    t = mc.writestr(**kw)
    new = gen.cls("ModelCluster").factory(t, **kw2)
    for k in ("r_data", "y_data", "y_error", "r_cluster", "y_cluster", "error_cluster"):
        case.check(np.array_equal(getattr(mc, k), getattr(new, k)), "cluster-" + k)
    case.check(mc.slice.indices(n) == new.slice.indices(n) and new.size == mc.size, "cluster-slice", "%s became %s" % (mc.slice, new.slice))
    case.check(extractions.plain(mc.model) == extractions.plain(new.model), "cluster-model", "%s\n%s" % (extractions.plain(mc.model), extractions.plain(new.model)))
    case.check((mc.baseline is None) == (new.baseline is None), "cluster-baseline")
    if mc.baseline is not None:
        case.check(extractions.plain([mc.baseline]) == extractions.plain([new.baseline]), "cluster-baseline")
    case.check(mc.error_method is new.error_method, "cluster-evaluator")
    case.check([extractions.describe(f) for f in mc.peak_funcs] == [extractions.describe(f) for f in new.peak_funcs], "cluster-functions")
    if "pfbaselist" in kw:
        case.check(all(new.peak_funcs[i] is kw2["pfbaselist"][[f is g for g in kw["pfbaselist"]].index(True)] for i, f in enumerate(mc.peak_funcs)), "cluster-function-identity")
    g = np.linspace(s.x[0], s.x[-1], 40)
    case.check(np.array_equal(mc.value(g), new.value(g)), "cluster-values")
    case.check(np.array_equal(mc.value(), new.value()), "cluster-values")
    case.check(mc.quality().stat == new.quality().stat, "cluster-quality")
    case.count("clusters")
    case.sig(t)
    # faults in the data
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError

    lines = t.splitlines()
    first = [i for i, l in enumerate(lines) if l.startswith("#L")][0] + 1
    i = int(rng.integers(first, len(lines)))
    v = lines[i].split()
    for bad in (v[:2], v + ["1"], [v[0], "x", v[2]], [v[0], "1..2", v[2]]):
        b = "\n".join(lines[:i] + [" ".join(bad)] + lines[i + 1:])
        e = case.raises((SrMiseDataFormatError, ValueError), lambda: gen.cls("ModelCluster").factory(b, **kw2), "cluster-damaged", bad)
        case.check(e is None or isinstance(str(e), str), "message")
        case.count("rejected")


GROUPS = {
    "functions": (3600, 10800, functions),
    "parts": (3200, 9600, parts),
    "clusters": (2000, 6000, clustertext),
}
