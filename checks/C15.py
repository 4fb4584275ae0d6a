"""C15: copies of parts, models and clusters, and edits of them."""

import numpy as np

from lib import clusters, gen

TECHNIQUE = "by-value snapshot monitors around random edits of originals and copies, and a list model of the peaks of a cluster"
NOTE = "Seeded exploration of parts, models, clusters and random sequences of edits on either side of a copy."
RULE = """Cases draw parts of all functions, models and clusters, copy them, and apply random sequences of edits to one side.
Non-trivial: at least one edit changed the edited side; distinguished by both sides."""
REQUIRED = {"edits": 250, "edited part": 100, "edited model": 100, "edited cluster": 100, "packed": 100, "refused nan": 100, "replaced": 100, "refused removal": 30,
            "refused owner": 25, "changed owner": 15, "by name": 100, "sliced": 25, "compared different": 60}


def value(part):
    return (id(part.owner()), part.pars.tolist(), part.free.tolist(), bool(part.removable), bool(part.static_owner))


def values(parts):
    return [value(p) for p in parts]


def part(rng, kind=None):
    free = lambda m: gen.mask(rng, m, 0.3)
    if (kind or ["peak", "ripples", "baseline"][rng.integers(3)]) == "baseline":
        p, f, name = gen.baseline(rng, free=free)
        p.removable = bool(rng.random() < 0.5)
        return p
    f, kind_, mw = gen.peakfunc(rng)
    if rng.random() < 0.4:
        f = gen.cls("TerminationRipples")(f, float(rng.uniform(10, 40)))
    return f.actualize(list(gen.peakpars(rng, mw)), "pwa", free(3), bool(rng.random() < 0.6), bool(rng.random() < 0.3))


def twin(part):
    """Another function of the same kind with as many parameters."""
    o = part.owner()
    n = type(o).__name__
    if n in ("Gaussian", "GaussianOverR"):
        return gen.cls(n)(o.maxwidth * 1.5)
    if n == "TerminationRipples":
        return gen.cls(n)(o.base, o.qmax * 1.1)
    if n == "Polynomial":
        return gen.cls(n)(o.degree)
    if n == "NanoSpherical":
        return gen.cls(n)()
    return None


def edit(rng, p):
    """A random edit of a part, through its interface or its attributes."""
    k = int(rng.integers(7))
    n = len(p.pars)
    if k == 0 and n:
        p.pars[int(rng.integers(n))] += rng.normal()
    elif k == 1 and n:
        i = int(rng.integers(n))
        p.setfree(i, not p.getfree(i))
    elif k == 2:
        p.removable = not p.removable
    elif k == 3:
        p.static_owner = not p.static_owner
    elif k == 4 and n:
        new = rng.normal(size=n)
        p.update(new)
    elif k == 5:
        t = twin(p)
        if t is not None and not p.static_owner:
            p.changeowner(t)
    elif n:
        p.pars = p.pars * 1.5 + 1
        p.free[:] = ~p.free


def sides(case, a, b, get, change, what, steps=None):
    """Edits of one of two equal objects never show in the other."""
    rng = case.rng
    case.check(get(a) == get(b), what + "-copy-equal", "%s and %s" % (get(a), get(b)))
    touched = False
    for _ in range(steps or int(rng.integers(1, 6))):
        x, y = (a, b) if rng.random() < 0.5 else (b, a)
        keep, before = get(y), get(x)
        change(x)
        case.check(get(y) == keep, what + "-independent", "%s became %s after %s became %s" % (keep, get(y), before, get(x)))
        touched = touched or get(x) != before
        case.count("edits")
    if touched:
        case.count("edited " + what)
        case.sig(what, repr(get(a))[:3000], repr(get(b))[:3000])
        case.note(what=what, original=get(a), copy=get(b))


def parts(case):
    rng = case.rng
    p = part(rng)
    q = p.copy()
    case.check(type(q) is type(p) and q is not p and p == q and not (p != q), "part-copy")
    x = np.linspace(0.5, 12, 60)
    case.check(np.array_equal(p.value(x), q.value(x)), "part-copy-value")
    sides(case, p, q, value, lambda z: edit(rng, z), "part")
    case.check((p == q) == (value(p)[:4] == value(q)[:4]), "part-equality", "%s and %s" % (value(p), value(q)))
    # parts that differ in one thing are not equal
    q = p.copy()
    m = len(p.pars)
    k = int(rng.integers(5))
    if k == 0 and m:
        q.pars[int(rng.integers(m))] *= 1 + 1e-9
    elif k == 1 and m:
        i = int(rng.integers(m))
        q.free[i] = not q.free[i]
    elif k == 2 and m > 1:  # as many free parameters, but others
        q.free[:] = np.roll(q.free, 1)
    elif k == 3:
        q.removable = not q.removable
    elif twin(p) is not None and not q.static_owner:
        q.changeowner(twin(p))
    same = value(p)[:4] == value(q)[:4]
    case.check((p == q) == same and (p != q) == (not same) and (q == p) == same, "equality", "%s and %s" % (value(p), value(q)))
    case.count("compared " + ("same" if same else "different"))
    case.check(not (p == None) and p != 1 and p != value(p), "equality-others")  # noqa: E711
    # made by its function, with nothing said about flags
    own = p.owner()
    q = own.actualize(list(p.pars), "internal")
    case.check(type(q) is type(p) and q.free.tolist() == [True] * m and q.removable == ("position" in own.parameterdict) and q.static_owner is False, "actualize-defaults", "%s %s %s" % (q.free, q.removable, q.static_owner))
    # access by name and by index
    d = p.owner().parameterdict
    n = len(p.pars)
    case.check(len(p) == n == p.npars() == p.npars(count_fixed=True) and p.npars(count_fixed=False) == sum(p.free.tolist()), "part-npars")
    for name, i in d.items():
        case.check(p[name] == p[i] == p.pars[i] and p.getfree(name) == p.getfree(i) == p.free[i], "by-name", "%s at %d of %s" % (name, i, p))
        keep = value(p)
        new = not p.free[i]
        p.setfree(name, new)
        case.check(p.getfree(i) == new and p.getfree(name) == new, "setfree")
        want = list(keep[2])
        want[i] = new
        case.check(value(p) == keep[:2] + (want,) + keep[3:], "setfree-only", name)
        p.setfree(i, not new)
        case.check(value(p) == keep, "setfree-back")
        case.count("by name")
    free = p.free.copy()
    case.check(np.array_equal(p.compress(), p.pars[free]), "compress")
    new = rng.normal(size=int(free.sum()) + int(rng.integers(0, 3)))
    want = p.pars.copy()
    want[free] = new[: int(free.sum())]
    used = p.update(new)
    case.check(used == free.sum() and np.array_equal(p.pars, want), "update", "%s from %s" % (p.pars, new))
    # owners
    for _ in range(2):
        p.static_owner = bool(rng.random() < 0.5)
        before = value(p)
        own = p.owner()
        which = int(rng.integers(3))
        if which == 0:
            p.changeowner(own)
            case.check(value(p) == before and p.owner() is own, "same-owner")
        elif which == 1 or twin(p) is None:
            case.raises(static_error(), lambda: p.changeowner(gen.cls("Polynomial")(n + 1)), "other-npars")
            case.check(value(p) == before and p.owner() is own, "owner-kept")
            case.count("refused owner")
        else:
            t = twin(p)
            if p.static_owner:
                case.raises(static_error(), lambda: p.changeowner(t), "static-owner")
                case.check(value(p) == before and p.owner() is own, "owner-kept")
                case.count("refused owner")
            else:
                p.changeowner(t)
                case.check(p.owner() is t and value(p)[1:] == before[1:], "owner-changed")
                case.check(np.array_equal(p.value(x), type(p)(t, p.pars).value(x), equal_nan=True), "owner-value")
                case.count("changed owner")
    # wrong numbers of parameters and flags
    cls, own = type(p), p.owner()
    bad = int([n + 1, n - 1, n + 2][rng.integers(3)])
    if bad >= 0:
        case.raises(ValueError, lambda: cls(own, [1.0] * bad), "wrong-pars")
        case.raises(ValueError, lambda: cls(own, p.pars, [True] * bad), "wrong-free")
    q = cls(own, p.pars)
    case.check(q.free.tolist() == [True] * n and q.removable == ("position" in d) and not q.static_owner, "defaults")
    # what was given is not shared with the part
    given, gfree = np.array(p.pars), np.array(p.free)
    q = cls(own, given, gfree)
    keep = value(q)
    given += 1
    gfree[:] = ~gfree
    case.check(value(q) == keep, "given-not-shared")


def static_error():
    from diffpy.srmise.srmiseerrors import SrMiseStaticOwnerError

    return SrMiseStaticOwnerError


def models(case):
    rng = case.rng
    n = int(rng.integers(1, 6))
    onlypeaks = rng.random() < 0.6
    ps = [part(rng, None if not onlypeaks else ["peak", "ripples"][rng.integers(2)]) for _ in range(n)]
    if onlypeaks:
        ps = [p for p in ps]
    m = gen.cls("Peaks" if onlypeaks else "ModelParts")(ps)
    k = int(rng.integers(3))
    if k == 0:
        c = m.copy()
        orig = m
    else:
        i, j = sorted(rng.integers(0, n + 1, 2))
        i, j = int(i), int(j)
        orig = m[i:j] if k == 1 else m[(i, j)]
        case.check(type(orig) is type(m) and len(orig) == j - i and all(a is b for a, b in zip(orig, ps[i:j])), "slice", "%d:%d of %d gives %d" % (i, j, n, len(orig)))
        c = orig.copy()
        case.count("sliced")
    case.check(type(c) is type(m), "model-copy-type")
    x = np.linspace(0.5, 12, 40)
    case.check(np.array_equal(orig.value(x), c.value(x)), "model-copy-value")

    def change(z):
        if len(z) and rng.random() < 0.7:
            edit(rng, z[int(rng.integers(len(z)))])
        elif len(z) and rng.random() < 0.4:
            del z[int(rng.integers(len(z)))]
        elif onlypeaks and rng.random() < 0.3:
            z.sort()
        else:
            z.append(part(rng, "peak"))

    sides(case, orig, c, values, change, "model")
    m = c
    if len(m) == 0:
        case.check(m.npars() == 0 and m.npars(count_fixed=False) == 0, "empty-npars")
        return
    want = [v for p in m for v, f in zip(p.pars.tolist(), p.free.tolist()) if f]
    got = m.unpack_freepars()
    case.check(got.tolist() == want, "unpack", "%s, expected %s" % (got, want))
    case.check(m.npars() == sum(len(p.pars) for p in m) and m.npars(count_fixed=True) == m.npars() and m.npars(count_fixed=False) == len(want), "model-npars")
    keep = values(m)
    new = rng.normal(size=len(want))
    if len(want):
        bad = new.copy()
        bad[int(rng.integers(len(bad)))] = np.nan
        case.raises(ValueError, lambda: m.pack_freepars(bad), "nan-refused")
        case.check(values(m) == keep, "nan-changes-nothing")
        case.count("refused nan")
    got += 1.0
    case.check(values(m) == keep, "unpacked-not-shared")
    m.pack_freepars(new)
    it = iter(new.tolist())
    want = [k[:1] + ([next(it) if f else v for v, f in zip(k[1], k[2])],) + k[2:] for k in keep]
    case.check(values(m) == want, "pack", "%s, expected %s" % (values(m), want))
    case.check(m.unpack_freepars().tolist() == new.tolist(), "pack-unpack")
    new += 1
    case.check(values(m) == want, "packed-not-shared")
    case.count("packed")


def state(mc):
    return (
        values(mc.model), None if mc.baseline is None else value(mc.baseline), (mc.slice.start, mc.slice.stop, mc.slice.step), mc.size,
        mc.r_cluster.tolist(), mc.y_cluster.tolist(), mc.error_cluster.tolist(), mc.error_method.__name__, [id(f) for f in mc.peak_funcs])


def makecluster(rng):
    s = clusters.scene(rng, npeaks=int(rng.integers(1, 5)), ripples=0.2, n=int(rng.integers(30, 80)))
    model = clusters.start(rng, s, freep=0.3, removep=0.6)
    n = len(s.x)
    sl = [None, slice(n // 4, n - n // 5), slice(0, n // 2), slice(n // 3, None)][rng.integers(4)]
    return s, clusters.cluster(model, s, sl)


def copies(case):
    rng = case.rng
    s, mc = makecluster(rng)
    c = mc.copy()
    full = np.linspace(s.x[0], s.x[-1], 17)
    case.check(type(c) is type(mc) and np.array_equal(c.value(), mc.value()) and np.array_equal(c.value(full), mc.value(full)), "cluster-copy-value")
    case.check(c.quality().stat == mc.quality().stat and c.npars() == mc.npars(), "cluster-copy-quality")
    case.check(c.model is not mc.model and all(a is not b for a, b in zip(c.model, mc.model)), "cluster-copy-parts")

    def change(z):
        k = int(rng.integers(7))
        if k == 0 and len(z.model):
            edit(rng, z.model[int(rng.integers(len(z.model)))])
        elif k == 1 and z.baseline is not None:
            edit(rng, z.baseline)
        elif k == 2:
            i, j = sorted(rng.integers(0, len(s.x) + 1, 2))
            z.change_slice(slice(int(i), int(max(j, i + 1))))
        elif k == 3:
            z.replacepeaks(gen.cls("Peaks")([s.pf.actualize([float(rng.uniform(2, 9)), s.maxwidth * 0.3, 1.0], "pwa")]))
        elif k == 4:
            ok = [i for i, p in enumerate(z.model) if p.removable]
            if ok:
                z.deletepeak(int(ok[int(rng.integers(len(ok)))]))
        elif k == 5:
            z.peak_funcs.append(s.base)
        else:
            z.fit(fitbaseline=bool(rng.random() < 0.5))

    # edits of owners or numbers may leave no valid peaks, which fits may not like
    with np.errstate(all="ignore"):
        sides(case, mc, c, state, change, "cluster")


def edits(case):
    """A list model of the peaks of a cluster."""
    rng = case.rng
    s, mc = makecluster(rng)
    ref = values(mc.model)
    bl = None if mc.baseline is None else value(mc.baseline)
    for _ in range(int(rng.integers(2, 9))):
        nfree = sum(sum(v[2]) for v in ref)
        nbl = 0 if bl is None else len(bl[1])
        nblfree = 0 if bl is None else sum(bl[2])
        got = [mc.npars(), mc.npars(count_fixed=False), mc.npars(count_baseline=False), mc.npars(count_baseline=False, count_fixed=False)]
        case.check(got == [3 * len(ref) + nbl, nfree + nblfree, 3 * len(ref), nfree], "cluster-npars", "%s for %s and %s" % (got, ref, bl))
        n = len(ref)
        lo, hi = sorted(int(v) for v in rng.integers(0, n + 1, 2))
        new = [s.pf.actualize([float(rng.uniform(1.5, 12)), s.maxwidth * float(rng.uniform(0.1, 0.9)), 1.0], "pwa", gen.mask(rng, 3, 0.3), bool(rng.random() < 0.6))
               for _ in range(rng.integers(0, 4))]
        k = int(rng.integers(3))
        if k == 0 and n:
            lo = int(rng.integers(n))
            hi, new = lo + 1, []
            act = lambda: mc.deletepeak(lo)
        elif k == 1:
            lo = hi = 0
            act = lambda: mc.replacepeaks(gen.cls("Peaks")(new))
        else:
            act = lambda: mc.replacepeaks(gen.cls("Peaks")(new) if rng.random() < 0.5 else list(new), slice(lo, hi))
        if any(not v[3] for v in ref[lo:hi]):
            case.raises(ValueError, act, "removal-refused")
            case.check(values(mc.model) == ref, "refused-changes-nothing", "%s became %s" % (ref, values(mc.model)))
            case.count("refused removal")
            continue
        act()
        want = ref[:lo] + values(new) + ref[hi:]
        want.sort(key=lambda v: v[1][0])
        case.check(values(mc.model) == want, "replaced", "%s, expected %s" % (values(mc.model), want))
        case.check(clusters.sorted_by_position(mc.model), "sorted")
        case.check((None if mc.baseline is None else value(mc.baseline)) == bl, "replaced-baseline")
        case.count("replaced")
        case.sig("edits", want)
        ref = values(mc.model)
    # positions that are changed directly are put in order by the next replacement, and sorting follows the key
    if len(mc.model) > 1:
        m = mc.model.copy()
        for p in m:
            p.pars = np.array([rng.uniform(1, 10), rng.uniform(-1.5, 1.5), rng.uniform(0.1, 3)])
        for key in ("position", "width", "area"):
            i = m[0].owner().parameterdict[key]
            order = m.argsort(key=key)
            pars = [p.pars[i] for p in m]
            case.check([pars[j] for j in order] == sorted(pars) and sorted(order) == list(range(len(m))), "argsort", "%s of %s by %s" % (list(order), pars, key))
            keep = values(m)
            m.sort(key=key)
            case.check(sorted(keep) == sorted(values(m)) and [p.pars[i] for p in m] == sorted(pars), "sort", key)


GROUPS = {"parts": (1200, 6000, parts), "models": (1200, 6000, models), "copies": (800, 3000, copies), "edits": (1000, 5000, edits)}
