"""C07: clustering of data points."""

import numpy as np

from lib import gen

TECHNIQUE = "online checker of every clustering step against the definition, interval-partition invariant, queries against the intervals"
NOTE = "Seeded exploration of grids, heights with ties, resolutions from zero up, steps interleaved with combinations; ties may go either way."
RULE = """Cases draw positions (even or uneven), heights (noise, peaks, ties, sorted), a resolution, and steps of clustering
interleaved with combining of adjacent clusters and with invalid requests. Non-trivial: at least three clusters existed at
some time; distinguished by the final history of intervals."""


def data(rng):
    n = int(rng.integers(1, 90)) if rng.random() < 0.8 else int(rng.integers(1, 6))
    whole = rng.random() < 0.25  # distances that are exact multiples
    if whole:
        x = 0.25 * np.cumsum(rng.integers(1, 6, n))
    elif rng.random() < 0.5:
        x = rng.uniform(0, 5) + np.arange(n) * 10 ** rng.uniform(-2, 0)
    else:
        x = np.cumsum(10 ** rng.uniform(-2, 0, n))
    k = rng.integers(5)
    if k == 0:
        y = rng.normal(size=n)
    elif k == 1:
        y = sum(np.exp(-((x - c) ** 2) / (0.02 + 0.1 * rng.random()) / np.ptp(x) ** 2) if n > 1 else np.ones(1) for c in rng.choice(x, 4))
    elif k == 2:
        y = rng.integers(0, 4, n).astype(float)
    elif k == 3:
        y = np.sin(np.arange(n) * rng.uniform(0.1, 3))
    else:
        y = np.arange(n, dtype=float) * rng.choice([-1, 1])
    span = np.ptp(x) if n > 1 else 1.0
    res = float([0.0, span / 100, span / 20, np.median(np.diff(x)) if n > 1 else 1.0, span * 2, span * rng.random() / 10][rng.integers(6)])
    if whole:
        res = 0.25 * int(rng.integers(0, 5))
    return x, y, res


def intervals(d):
    c = np.asarray(d.clusters)
    return [(int(a), int(b)) for a, b in c]


def valid(case, iv, n, label):
    ok = all(0 <= a <= b < n for a, b in iv) and all(p[1] < q[0] for p, q in zip(iv, iv[1:]))
    return case.check(ok, "disjoint-ordered", "%s: %s" % (label, iv))


def insert(iv, i, item):
    return iv[:i] + [item] + iv[i:]


def permitted(x, res, iv, p):
    """Outcomes that the definition permits for adding point p."""
    out = []
    left = [k for k, (a, b) in enumerate(iv) if b < p]
    right = [k for k, (a, b) in enumerate(iv) if a > p]
    cand = []
    if left:
        cand.append((x[p] - x[iv[left[-1]][1]], left[-1], -1))
    if right:
        cand.append((x[iv[right[0]][0]] - x[p], right[0], 1))
    dmin = min(c[0] for c in cand)
    exact = np.array_equal(4 * x, np.round(4 * x)) and 4 * res == round(4 * res)
    eps = 0.0 if exact else 1e-12 * (1 + abs(x[p]))
    new = insert(iv, len(left), (p, p))
    for dist, k, side in cand:
        if dist > dmin + eps:
            continue
        if dist <= res + eps:
            a, b = iv[k]
            out.append(iv[:k] + [(p, b) if side == 1 else (a, p)] + iv[k + 1:])
        if dist > res - eps:
            out.append(new)
    return out


def groups_of(iv):
    out, run = [], [0]
    for k in range(1, len(iv)):
        if iv[k][0] - iv[k - 1][1] == 1:
            run.append(k)
        else:
            if len(run) > 1:
                out.append(run)
            run = [k]
    if len(run) > 1:
        out.append(run)
    return out


def queries(case, d, x, y):
    rng = case.rng
    iv = intervals(d)
    n = len(x)
    adj = [[int(k) for k in g] for g in d.find_adjacent_clusters()]
    case.check(adj == groups_of(iv), "adjacent", "%s for %s" % (adj, iv))
    case.count("adjacent groups", len(adj))

    def near(got, p, label):
        k, dist = int(got[0]), float(got[1])
        inside = [j for j, (a, b) in enumerate(iv) if a <= p <= b]
        if inside:
            return k == inside[0] and dist == 0.0
        a, b = iv[k]
        sd = x[p] - x[b] if p > b else x[p] - x[a]
        best = min(min(abs(x[p] - x[a]), abs(x[p] - x[b])) for a, b in iv)
        return abs(dist - sd) <= 1e-12 * (1 + abs(x[p])) and abs(dist) <= best * (1 + 1e-12) + 1e-12

    for p in rng.integers(0, n, 6):
        got = d.find_nearest_cluster(int(p))
        case.check(near(got, int(p), ""), "nearest-by-index", "point %d: %s in %s" % (p, got, iv))
    for _ in range(6):
        v = [float(rng.uniform(x[0] - 1, x[-1] + 1)), float(x[rng.integers(n)])][rng.integers(2)]
        got = d.find_nearest_cluster2(v)
        dd = np.abs(x - v)
        pts = np.flatnonzero(dd <= dd.min() * (1 + 1e-9) + 1e-12)
        case.check(any(near(got, int(p), "") for p in pts), "nearest-by-position", "at %r: %s in %s" % (v, got, iv))
    for k, (a, b) in enumerate(iv):
        c = d.cut(k)
        case.check(isinstance(c, slice) and range(n)[c] == range(a, b + 1), "cut", "%s of %s" % (c, iv[k]))
        lo = iv[k - 1][1] + 1 if k else 0
        hi = iv[k + 1][0] - 1 if k < len(iv) - 1 else n - 1
        case.check(bool(d.cluster_is_full(k)) == (a == lo and b == hi), "full", "%d of %s" % (k, iv))
    ks = sorted(rng.choice(len(iv), int(rng.integers(1, len(iv) + 1)), replace=False).tolist())
    if len(ks) > 1:
        got = d.cut(ks)
        case.check([range(n)[c] for c in got] == [range(iv[k][0], iv[k][1] + 1) for k in ks], "cut-several", ks)
    want = set()
    for a, b in iv:
        lo, hi = max(a - 1, 0), min(b + 1, n - 1)
        want.add((np.mean(x[lo:a + 1]), np.mean(y[lo:a + 1])))
        want.add((np.mean(x[b:hi + 1]), np.mean(y[b:hi + 1])))
    got = np.asarray(d.cluster_boundaries())
    want = np.array(sorted(want))
    case.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-12), "boundaries", "%s instead of %s" % (got.tolist(), want.tolist()))


def state(d):
    return intervals(d), d.status, d.current_idx, d.lastcluster_idx, d.lastpoint_idx


def combine(case, d, x):
    """Valid and invalid requests to combine."""
    rng = case.rng
    iv = intervals(d)
    groups = groups_of(iv)
    m = len(iv)
    bad = []
    nonadj = [k for k in range(m - 1) if iv[k + 1][0] - iv[k][1] != 1]
    if nonadj:
        k = nonadj[rng.integers(len(nonadj))]
        bad.append(groups[:1] + [[k, k + 1]] if not (groups and set(groups[0]) & {k, k + 1}) else [[k, k + 1]])
    if m > 2:
        bad.append([[0, 2]])
        bad.append([[1, 0]])
    bad.append([[m - 1, m]])
    bad.append([[m]])
    bad.append([[-1, 0]])
    bad.append([[-1]])
    if m > 1:
        bad.append([[-2, -1]])
        bad.append([[k - m for k in (groups[-1] if groups else (m - 2, m - 1))]])
    if groups:
        bad.append([groups[0], groups[0]])
        bad.append([groups[-1], [m + 3]])
        bad.append([groups[0][::-1]])
        bad.append([groups[0][:1] + groups[0]])
    req = bad[rng.integers(len(bad))]
    before = state(d)
    case.raises((ValueError,), lambda: d.combine_clusters(req), "bad-combination", "%s of %s" % (req, iv))
    case.check(state(d) == before, "bad-combination-changes-nothing", "%s: %s became %s" % (req, before, state(d)))
    case.count("bad combinations")
    use = [g for g in groups if rng.random() < 0.7]
    if rng.random() < 0.3:  # parts of groups
        use = [g[: int(rng.integers(1, len(g) + 1))] for g in use]
    if rng.random() < 0.3:
        rng.shuffle(use)
    req = use
    if use and rng.random() < 0.4:
        full = d.find_adjacent_clusters()
        req, use = full, groups
    d.combine_clusters(req)
    gone, want = set(), list(iv)
    for g in use:
        want[g[0]] = (iv[g[0]][0], iv[g[-1]][1])
        gone |= set(g[1:])
    want = [w for k, w in enumerate(want) if k not in gone]
    case.check(intervals(d) == want, "combination", "%s of %s gives %s" % (use, iv, intervals(d)))
    if gone:
        case.count("combinations")


def steps(case):
    rng = case.rng
    x, y, res = data(rng)
    n = len(x)
    kx, ky = x.copy(), y.copy()
    d = gen.cls("DataClusters")(x, y, res)
    iv = intervals(d)
    case.check(len(iv) == 1 and iv[0][0] == iv[0][1] and y[iv[0][0]] == y.max(), "first-point", iv)
    visited = {iv[0][0]}
    mixing = rng.random() < 0.4
    nsteps, most = 0, 1
    last = y.max()
    while True:
        before = intervals(d)
        try:
            r = next(d)
        except StopIteration:
            break
        nsteps += 1
        if not case.check(nsteps <= n - 1, "number-of-steps", "%d steps for %d points" % (nsteps, n)):
            break
        case.check(r is d, "step-returns-itself")
        iv = intervals(d)
        if not valid(case, iv, n, "step %d" % nsteps):
            return
        p = int(d.lastpoint_idx)
        inside = lambda q: any(a <= q <= b for a, b in before)  # noqa: E731
        free = [q for q in range(n) if not inside(q)]
        ok = case.check(p in free, "visits-unclustered", "%d in %s" % (p, before))
        case.check(y[p] == max(y[q] for q in free), "visits-highest", "point %d of height %r" % (p, y[p]))
        case.check(y[p] <= last, "heights-descend")
        last = y[p]
        if ok:
            case.check(iv in permitted(x, res, before, p), "step", "%d added to %s with %r gives %s" % (p, before, res, iv))
        k = int(d.lastcluster_idx)
        case.check(iv[k][0] <= p <= iv[k][1], "last-cluster", "%d in %s of %s" % (p, k, iv))
        visited.add(p)
        most = max(most, len(iv))
        case.count("steps")
        if mixing and rng.random() < 0.2:
            combine(case, d, x)
        if rng.random() < 0.1:
            queries(case, d, x, y)
        if not mixing and rng.random() < 0.02:  # from the beginning, half way
            d.reset_clusters()
            case.check(intervals(d) == [(int(np.argmax(y)),) * 2] or y[intervals(d)[0][0]] == y.max(), "reset", intervals(d))
            for _ in range(nsteps):
                next(d)
            case.check(intervals(d) == iv, "repeatable-half-way", "%s and %s" % (intervals(d), iv))
            case.count("repeated half way")
    iv = intervals(d)
    case.check(sorted(q for a, b in iv for q in range(a, b + 1)) == list(range(n)), "partition", iv)
    case.check(d.status == d.DONE or n == 1, "done")
    for _ in range(2):
        case.raises((StopIteration,), lambda: next(d), "stays-done")
    case.check(intervals(d) == iv, "done-stays")
    queries(case, d, x, y)
    case.check(np.array_equal(x, kx) and np.array_equal(y, ky), "data-untouched")
    if most >= 3:
        case.sig(iv, nsteps, n, x[0])
    # again
    d.reset_clusters()
    case.check(len(intervals(d)) == 1, "reset")
    got = []
    for c in d:
        got.append(intervals(c))
    e = gen.cls("DataClusters")(x, y, res)
    e.makeclusters()
    case.check(intervals(d) == intervals(e), "repeatable", "%s and %s" % (intervals(d), intervals(e)))
    if not mixing:
        case.check(intervals(e) == iv, "all-at-once")
        case.check(len(got) == nsteps, "same-steps")
    if n > 1:  # one gap less than the resolution: one cluster
        f = gen.cls("DataClusters")(x, y, float(np.ptp(x)) + 1)
        f.makeclusters()
        case.check(intervals(f) == [(0, n - 1)], "one-cluster", intervals(f))
        f = gen.cls("DataClusters")(x, y, 0.0)
        f.makeclusters()
        case.check(len(intervals(f)) == n, "all-clusters", intervals(f))
    combine(case, d, x)
    case.note(n=n, res=res, clusters=iv[:12], steps=nsteps)


def bad(case):
    rng = case.rng
    x, y, res = data(rng)
    C = gen.cls("DataClusters")
    case.raises((ValueError,), lambda: C(x, y[:-1], res), "lengths")
    case.raises((ValueError,), lambda: C(x, y, -1e-9 - res), "negative-resolution")
    e = C(np.array([]), np.array([]), res)
    for f in (lambda: next(e), lambda: e.find_nearest_cluster(0), lambda: e.find_nearest_cluster2(0.0), lambda: e.find_adjacent_clusters()):
        case.raises((Exception,), f, "empty")
    case.sig(len(x), res)
    case.count("refused")


GROUPS = {"steps": (3600, 60000, steps), "bad": (150, 500, bad)}
REQUIRED = {"steps": 8000, "adjacent groups": 500, "bad combinations": 500, "combinations": 150, "refused": 40, "repeated half way": 100}
