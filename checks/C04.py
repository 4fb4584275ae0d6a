"""C04: covariance bookkeeping and propagation."""

import numpy as np

from lib import gen

TECHNIQUE = "shadow bookkeeping of (part, parameter) with finite-difference propagation over chains of conversions"
NOTE = "Seeded exploration of models, masks, matrices and conversion chains; singular and zero variances included."
RULE = """Cases draw a model of peaks and baselines with fixed parameters, a random positive semidefinite matrix for all or
for the free parameters, and a chain of conversions over all or selected parts; the oracle keeps its own list of
(part, parameter) and finite differences of the conversion. Non-trivial: at least two free parameters with nonzero
covariance; distinguished by model, flags and chain."""
FORMATS = ["internal", "pwa", "mu_sigma_area"]


def model(rng, minpeaks=1):
    parts = []
    for _ in range(rng.integers(minpeaks, 5)):
        f, kind, mw = gen.peakfunc(rng)
        base = f
        if rng.random() < 0.3:
            f = gen.cls("TerminationRipples")(base, 20.0)
        ang = float(rng.uniform(-1.2, 1.2))
        if rng.random() < 0.2:
            ang = np.pi - ang
        p = f.actualize([1.0, 0.0, 1.0], "internal", gen.mask(rng, 3, 0.3))
        p.pars[:] = [rng.uniform(1, 20), ang, 10 ** rng.uniform(-1, 2) * (-1 if rng.random() < 0.2 else 1)]
        parts.append(p)
    nbl = 0
    if rng.random() < 0.7:
        b, _, which = gen.baseline(rng, free=lambda n: gen.mask(rng, n, 0.3))
        parts.append(b)
        nbl = 1
        if rng.random() < 0.15:
            b, _, which = gen.baseline(rng, free=lambda n: gen.mask(rng, n, 0.3))
            parts.insert(int(rng.integers(len(parts))), b)
            nbl = 2
    for p in parts:
        if type(p.owner()).__name__ == "NanoSpherical" and rng.random() < 0.3:
            p.pars *= [-1, [-1, 1][rng.integers(2)]]
    return gen.cls("ModelParts")(parts), nbl


def matrix(rng, n):
    a = rng.normal(size=(n, max(1, n + int(rng.integers(-1, 3)))))
    c = a @ a.T * 10 ** rng.uniform(-3, 2)
    if n and rng.random() < 0.2:
        k = int(rng.integers(n))
        c[k] = 0
        c[:, k] = 0
    return c


def expected(m, c, nfree):
    """The full matrix, in order of parts and parameters, from the definition."""
    where = [(i, j) for i, p in enumerate(m) for j in range(len(p.pars))]
    free = [bool(m[i].free[j]) for i, j in where]
    n = len(where)
    if c.shape[0] == n:
        return where, free, np.array(c)
    full = np.zeros((n, n))
    idx = [k for k in range(n) if free[k]]
    for a, ka in enumerate(idx):
        for b, kb in enumerate(idx):
            full[ka, kb] = c[a, b]
    return where, free, full


def audit(case, cov, where, full, pars, label, rtol=1e-12):
    rng = case.rng
    n = len(where)
    scale = np.sqrt(np.abs(np.outer(np.diag(full), np.diag(full)))) + 1e-300
    for k in range(n):
        for key in (where[k], k):
            case.close(cov.getvalue(key), pars[k], "value", "%s %s" % (label, key), rtol=1e-9, atol=1e-12)
            case.close(cov.getuncertainty(key), np.sqrt(full[k, k]), "uncertainty", "%s %s" % (label, key), rtol=max(rtol, 1e-12), atol=1e-150)
            v, u = cov.get(key)
            case.close([v, u], [pars[k], np.sqrt(full[k, k])], "value-and-uncertainty", label, rtol=max(rtol, 1e-9), atol=1e-12 * abs(pars[k]) + 1e-150)
    for _ in range(6 if n else 0):
        a, b = (int(z) for z in rng.integers(0, n, 2))
        ka, kb = (where[a], a)[rng.integers(2)], (where[b], b)[rng.integers(2)]
        case.close(cov.getcovariance(ka, kb), full[a, b], "covariance", "%s %s %s" % (label, ka, kb), rtol=rtol, atol=rtol * scale[a, b])
        want = 0.0 if full[a, a] == 0 or full[b, b] == 0 else full[a, b] / np.sqrt(full[a, a] * full[b, b])
        case.close(cov.getcorrelation(ka, kb), want, "correlation", "%s %s %s" % (label, ka, kb), rtol=max(rtol, 1e-10), atol=max(rtol, 1e-10))
    th = float(rng.uniform(0.05, 0.99))
    got = cov.correlationwarning(th) if rng.random() < 0.8 else None
    if got is None:
        th = 0.8
        got = cov.correlationwarning()
    want, maybe = set(), set()
    for a in range(n):
        for b in range(a + 1, n):
            if full[a, a] > 0 and full[b, b] > 0:
                c = full[a, b] / np.sqrt(full[a, a] * full[b, b])
                if abs(abs(c) - th) < 1e-7:
                    maybe.add((where[a], where[b]))
                elif abs(c) > th:
                    want.add((where[a], where[b]))
    pairs = [frozenset((tuple(g[0]), tuple(g[1]))) for g in got]
    case.check(len(set(pairs)) == len(pairs), "warning-once", label)
    fs = lambda s: {frozenset(p) for p in s}  # noqa: E731
    case.check(fs(want) <= set(pairs) <= fs(want) | fs(maybe), "warning-pairs", "%s threshold %r: %s instead of %s" % (label, th, got, want))
    for g in got:
        a, b = where.index(tuple(g[0])), where.index(tuple(g[1]))
        case.close(g[2], full[a, b] / np.sqrt(full[a, a] * full[b, b]), "warning-value", rtol=max(rtol, 1e-10))
    if want:
        case.count("correlation warnings")
    text = str(cov)
    import re

    nums = re.findall(r"([-+.\de]+|nan|inf) \(([-+.\de]+|nan|inf)\)", text)
    case.check(len(nums) == n, "text-one-entry-per-parameter", text)
    if len(nums) == n:
        case.close([float(a) for a, b in nums], pars, "text-values", rtol=1e-5, atol=1e-12)
        case.close([float(b) for a, b in nums], np.sqrt(np.diag(full)), "text-uncertainties", rtol=1e-5, atol=1e-150)


def derivative(f, pars, a, b):
    """Matrix of the derivatives of a conversion, by differences."""
    n = len(pars)
    g = np.zeros((n, n))
    for j in range(n):
        h = 1e-5 * max(abs(pars[j]), 0.1)
        q = []
        for k in (-2, -1, 1, 2):
            t = np.array(pars, float)
            t[j] += k * h
            q.append(np.array(f.transform_parameters(t, a, b), float))
        g[:, j] = (q[0] - 8 * q[1] + 8 * q[2] - q[3]) / (12 * h)
    g[np.abs(g) < 1e-8] = 0.0  # rounding errors of the differences
    return g


def attach(case):
    rng = case.rng
    cov = gen.cls("ModelCovariance")()
    history = []
    for step in range(rng.integers(1, 4)):  # one object, used again
        m, nbl = model(rng)
        ntot = sum(len(p.pars) for p in m)
        nfree = int(sum(np.sum(p.free) for p in m))
        if ntot == 0:
            continue
        c = matrix(rng, ntot if rng.random() < 0.4 or nfree == 0 else nfree)
        given = c.copy()
        keep = gen.snapmodel(m)
        if rng.random() < 0.3 and step:
            cov.clear()
            undefined(case, cov)
        cov.setcovariance(m, c if rng.random() < 0.7 else np.matrix(c))
        where, free, full = expected(m, c, nfree)
        pars = np.concatenate([p.pars for p in m])
        if c.shape[0] == ntot or True:
            audit(case, cov, where, full, pars, "attached %d" % step)
        # conversions
        fmts = ["internal"] * len(m)
        cur = [np.array(p.pars) for p in m]
        chain = []
        for _ in range(rng.integers(0, 4)):
            kind = ["all", "peaks", "baseline", "list"][rng.integers(4)]
            if kind == "all":
                sel = list(range(len(m)))
                kw = {}
            elif kind == "peaks":
                if nbl == 0:
                    continue
                sel = list(range(len(m) - 1))
                kw = {"parts": "peaks"}
            elif kind == "baseline":
                if nbl == 0:
                    continue
                sel = [len(m) - 1]
                kw = {"parts": "baseline"}
            else:
                sel = sorted(int(z) for z in rng.choice(len(m), int(rng.integers(1, len(m) + 1)), replace=False))
                kw = {"parts": sel}
            ispeak = [hasattr(p.owner(), "scale_at") for p in m]
            ins = {fmts[i] for i in sel if ispeak[i]}
            if len(ins) > 1:
                continue
            a = ins.pop() if ins else "internal"
            b = FORMATS[rng.integers(3)]
            out = "default_output" if b == "pwa" and rng.random() < 0.5 else b
            cov.transform(a, out, **kw)
            chain.append((kind, a, b))
            g = np.eye(len(where))
            off = np.cumsum([0] + [len(p.pars) for p in m])
            for i in sel:
                nano = type(m[i].owner()).__name__ == "NanoSpherical" and a == "internal" and out in ("internal", "default_output")
                if ispeak[i] or nano:
                    f = m[i].owner()
                    if nano:
                        g[off[i]:off[i + 1], off[i]:off[i + 1]] = np.diag(np.where(cur[i] < 0, -1.0, 1.0))
                        cur[i] = np.abs(cur[i])
                        case.count("converted baselines")
                        continue
                    if a != b or a == "internal":
                        g[off[i]:off[i + 1], off[i]:off[i + 1]] = derivative(f, cur[i], a, b)
                        case.count("converted parts")
                    cur[i] = np.array(f.transform_parameters(cur[i], a, b))
                    fmts[i] = b
            full = g @ full @ g.T
            audit(case, cov, where, full, np.concatenate(cur), "after %s" % chain, rtol=1e-6)
            case.count("conversions")
        case.check(gen.snapmodel(m) == keep, "model-untouched", chain)
        case.check(np.array_equal(c, given), "matrix-untouched")
        # the covariance describes the model at the time it was attached
        before = [cov.getvalue(k) for k in range(len(where))]
        for p in m:
            p.pars[:] = p.pars + 1
        case.close([cov.getvalue(k) for k in range(len(where))], before, "independent-of-model", rtol=0)
        history.append((tuple(w[0] for w in where), tuple(free), c.shape[0], tuple(chain)))
        if nfree > 1:
            case.sig(history)
    case.note(history=history)


def undefined(case, cov):
    from diffpy.srmise.srmiseerrors import SrMiseUndefinedCovarianceError as U

    for name, f in (
        ("covariance", lambda: cov.getcovariance(0, 0)),
        ("correlation", lambda: cov.getcorrelation(0, 0)),
        ("warning", lambda: cov.correlationwarning()),
        ("transform", lambda: cov.transform("internal", "pwa")),
    ):
        case.raises((U,), f, "undefined-" + name)
    case.check("undefined" in str(cov).lower(), "undefined-text", str(cov))
    case.count("undefined")


def bad(case):
    rng = case.rng
    cov = gen.cls("ModelCovariance")()
    undefined(case, cov)
    m, _ = model(rng)
    ntot = sum(len(p.pars) for p in m)
    nfree = int(sum(np.sum(p.free) for p in m))
    for shape in ((ntot + 1, ntot + 1), (ntot, ntot + 1), (ntot + 2, ntot), (nfree, nfree + 1)):
        case.raises((ValueError,), lambda: cov.setcovariance(m, np.ones(shape)), "bad-shape", shape)
    for k in range(1, ntot):
        if k != nfree:
            case.raises((ValueError,), lambda: cov.setcovariance(m, np.eye(k)), "bad-size", (k, ntot, nfree))
    undefined(case, cov)
    case.sig(ntot, nfree)


def threshold(case):
    """Correlations that are exact fractions, so that "exceeds" can be decided at the threshold itself."""
    rng = case.rng
    cov = gen.cls("ModelCovariance")()
    m, _ = model(rng, 2)
    n = sum(len(p.pars) for p in m)
    sd = 2.0 ** rng.integers(-3, 4, n)
    cor = np.eye(n)
    for a in range(n):
        for b in range(a):
            cor[a, b] = cor[b, a] = rng.integers(-8, 9) / 8
    cov.setcovariance(m, cor * np.outer(sd, sd))
    where = [(i, j) for i, p in enumerate(m) for j in range(len(p.pars))]
    th = int(rng.integers(0, 8)) / 8
    got = {(tuple(g[0]), tuple(g[1])): g[2] for g in cov.correlationwarning(th)}
    got = {frozenset(k): v for k, v in got.items()}
    want = {frozenset((where[a], where[b])): cor[a, b] for a in range(n) for b in range(a) if abs(cor[a, b]) > th}
    case.check(set(got) == set(want), "exact-threshold", "%s: %s instead of %s" % (th, sorted(map(sorted, got)), sorted(map(sorted, want))))
    for k in set(got) & set(want):
        case.close(got[k], want[k], "exact-correlation", rtol=1e-12)
    if np.any(np.abs(cor) == th):
        case.count("correlations at the threshold")
    case.sig(th, n)


GROUPS = {"attach": (4800, 24000, attach), "threshold": (600, 2000, threshold), "bad": (400, 2000, bad)}
REQUIRED = {"conversions": 400, "converted parts": 400, "converted baselines": 10, "correlation warnings": 200, "correlations at the threshold": 40, "undefined": 100}
