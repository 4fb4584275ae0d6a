"""C28: what was published can be read and comes out again."""

import os
import re

import numpy as np

from lib import gen, harness
from lib.extractions import plain

TECHNIQUE = "oracle of published results: an own reader of the summaries, ranks and probabilities shipped with the documentation, and the known lattice of silver, against real loads, fits and extractions of the experimental data"
NOTE = "All shipped files; seeded exploration of settings and starts near those of the examples."
RULE = """Cases are the shipped files, models of the shipped series, the examples, and extractions of the silver data and fits of
the published models from starts and settings drawn near those of the examples. Non-trivial: a result was compared with a
published one; distinguished by file, model, settings and start."""
ASSUMPTIONS = ["The shipped files and the experimental data are as at the pinned commit.", "Qualities may be better than those published: some repairs of derivatives improve fits."]
REQUIRED = {"files": 4, "series models": 4, "ranks": 1, "examples": 4, "shells": 40, "refits": 15, "areas": 20}
CHUNK = {"again": 1, "refit": 1, "silver": 1, "series": 1}
CPU_BUDGET = {"again": 300, "silver": 300, "refit": 300}

DOCS = os.path.join(harness.REPO, "docs", "examples")
OUT = os.path.join(DOCS, "output")
DATA = os.path.join(DOCS, "data")
NAMES = ["extract-single-peak", "fit-initial", "query-results", "parameter-summary"]


def summary(text):
    """What a summary says, by an independent reading of it."""
    s = {"peaks": [], "functions": {}, "comments": []}
    part = None
    for line in text.split("\n"):
        line = line.strip()
        if line.startswith("##"):
            part = line.strip("# ")
        elif line.startswith("#L"):
            part = "peaks"
        elif line.startswith("#"):
            m = re.match(r"# (Quality|Free parameters in extracted peaks|Free parameters in baseline|Length)[^:]*: (\S+)", line)
            if m:
                s[m.group(1)] = float(m.group(2))
            if part == "User comments":
                s["comments"].append(line.strip("# "))
        elif part == "peaks" and line:
            v, k = line.split("#")
            s["peaks"].append([float(x) for x in v.split()] + [int(k)])
        elif part == "Peak Functions" and line:
            k, f = line.split(None, 1)
            s["functions"][int(k)] = f.split(".")[-1].replace(" ", "")
        elif part == "Baseline" and "#" in line:
            pars = line.split("#")[0]
            s["baseline"] = [] if "(" in pars else [float(x) for x in pars.split()]
        elif part == "Baseline Functions" and line:
            s["baseline function"] = line.split()[1].split(".")[-1]
        elif "=" in line:
            k, v = line.split("=", 1)
            s[k.strip()] = v.strip()
    return s


def kind(s, k):
    """The function of a peak, with those it is made of."""
    f = s["functions"][k]
    m = re.match(r"(\w+)\(base=(\d+)\)", f)
    return m.group(1) + "/" + s["functions"][int(m.group(2))] if m else f


def number(v):
    return float(re.sub(r"np\.float64\((.*)\)", r"\1", v).split()[0])


def own(part):
    f = part.owner()
    name = type(f).__name__.lower()
    return name + "/" + type(f.base).__name__.lower() if getattr(f, "base", None) else name


def pwa(p):
    f = p.owner()
    return np.asarray(f.transform_parameters(p.pars, "internal", "pwa"), float)


def model(case, x, s, pre):
    """The peaks and baseline are those of the summary."""
    case.check(len(x.model) == len(s["peaks"]), pre + "number", "%d peaks, %d published" % (len(x.model), len(s["peaks"])))
    for p, q in zip(x.model, s["peaks"]):
        case.close(pwa(p), q[:3], pre + "peak", "%s" % q, rtol=1e-7)
        case.check(own(p) == kind(s, q[3]), pre + "function", "%s instead of %s" % (own(p), kind(s, q[3])))
    case.close(x.baseline.pars, s.get("baseline", []), pre + "baseline", rtol=1e-7, atol=1e-10)
    case.check(own(x.baseline) == s["baseline function"], pre + "baseline-function", own(x.baseline))
    case.check(x.model.npars(count_fixed=False) == s["Free parameters in extracted peaks"], pre + "free")


def settings(case, e, s, pre):
    case.close(e.rng, [float(v) for v in s["Range"].strip("[]").split(",")], pre + "range")
    case.close(e.cres, number(s["cres"]), pre + "cres", rtol=1e-4)
    for k in ("qmax", "qmax_reportedbypdf", "qmax_fromdata", "supersample"):
        case.close(getattr(e, k), number(s[k]), pre + k, rtol=1e-7)
    case.check(e.nyquist is (s["nyquist"] == "True") and e.scale is (s["scale"] == "True"), pre + "flags")
    case.check(e.error_method.__name__ == s["ModelEvaluator"], pre + "evaluator")
    case.check(os.path.basename(e.filename) == os.path.basename(s["filename"]), pre + "filename")


def read(name):
    e = gen.cls("PDFPeakExtraction")()
    e.read(os.path.join(OUT, name + ".srmise"))
    with open(os.path.join(OUT, name + ".pwa")) as f:
        return e, summary(f.read())


def files(case):
    """Extractions saved by an earlier version."""
    name = NAMES[case.index % 4]
    e, s = read(name)
    x = e.extracted
    model(case, x, s, "loaded-")
    settings(case, e, s, "loaded-")
    case.check(len(x.r_cluster) == s["Length"], "points", "%d points" % len(x.r_cluster))
    case.close(np.mean(e.effective_dy), number(s["effective_dy"]), "uncertainty", rtol=1e-5)
    # the data have been saved with six digits
    case.close(e.extracted.quality().stat, s["Quality"], "quality", name, rtol=1e-4)
    # the summary written now says the same
    t = summary(e.writepwastr("said before"))
    model(case, x, t, "written-")
    settings(case, e, t, "written-")
    case.check(t["comments"] == ["said before"], "comments", "%s" % t["comments"])
    case.close([t[k] for k in ("Quality", "Length", "Free parameters in extracted peaks", "Free parameters in baseline")],
               [s[k] for k in ("Quality", "Length", "Free parameters in extracted peaks", "Free parameters in baseline")], "same-summary", rtol=1e-4)
    # and so does the extraction saved again
    f = gen.cls("PDFPeakExtraction")()
    f.readstr(e.writestr())
    model(case, f.extracted, s, "again-")
    settings(case, f, s, "again-")
    case.check(plain(f.extracted.model) == plain(x.model) and np.array_equal(f.x, e.x) and np.array_equal(f.y, e.y) and np.array_equal(f.dy, e.dy), "again-same")
    # the data are those of the PDF it came from
    d = gen.cls("PDFPeakExtraction")()
    d.loadpdf(os.path.join(DATA, os.path.basename(s["filename"]).replace("_", "-")))
    case.close(d.x, e.x, "data-x", rtol=1e-5)
    case.close(d.y, e.y, "data-y", rtol=1e-5)
    case.count("files")
    case.sig(name)
    case.note(name=name, peaks=len(x.model), quality=s["Quality"])


def series(case):
    """Series saved by an earlier version, with what was said about some of their models."""
    which = ["known", "unknown"][case.index % 2]
    ms = gen.cls("MultimodelSelection")()
    ms.load(os.path.join(OUT, which + "-dG-models.dat"))
    ms.loadaics(os.path.join(OUT, which + "-dG-aics.dat"))
    published = {}
    for f in sorted(os.listdir(OUT)):
        m = re.match(which + r"-dG-m(\d+)\.pwa$", f)
        if m:
            with open(os.path.join(OUT, f)) as g:
                published[int(m.group(1))] = summary(g.read())
    n = len(ms.results)
    case.check(n == len(ms.dgs) and np.all(np.diff(ms.dgs) > 0), "uncertainties")
    case.close([r[0] for r in ms.results], ms.dgs, "in-order", rtol=1e-7)
    r, y, dr, dy = ms.ppe.resampledata(np.pi / ms.ppe.qmax)
    ms.classify(r, 0.2)
    before = [plain(q[1]) for q in ms.results]
    for i, s in sorted(published.items()):
        says = dict(c.split(": ", 1) for c in s["comments"] if ": " in c)
        case.check(says["Model"] == "%d (of %d)" % (i, n), "of-models", says["Model"])
        ms.setcurrent(i)
        model(case, ms.ppe.extracted, s, "series-")
        settings(case, ms.ppe, s, "series-")
        case.close(ms.results[i][0], number(s["effective_dy"]), "series-uncertainty", rtol=1e-7)
        case.check(len(ms.ppe.extracted.r_cluster) == s["Length"], "series-points")
        case.close(ms.ppe.extracted.quality().stat, s["Quality"], "series-quality", rtol=1e-4)
        dg = ms.dg_key(float(says["Evaluated at dG"]))
        case.close(dg, float(says["Evaluated at dG"]), "key", rtol=1e-7)
        if "Rank" in says:
            k = int(says["Rank"]) - 1
            cls = says["Class"].split()
            case.check("(of %d, tol=0.2)" % len(ms.classes) == " ".join(cls[1:]), "classes", "%d classes, %s" % (len(ms.classes), says["Class"]))
            got = ms.get(dg, "model", "class", "nfree", "prob", corder=k)
            case.check(list(got[:2]) == [i, int(cls[0])], "ranks", "rank %d: %s" % (k, got))
            case.check(got[2] == s["Free parameters in extracted peaks"] + s["Free parameters in baseline"], "ranked-parameters", "%s" % got[2])
            case.close(got[3], float(says["Akaike probability"]), "probability", rtol=1e-4)
            case.count("ranks")
        case.check(i == ms.classes[ms.get_class(dg, corder=0)][0] or i in [ms.get_model(dg, corder=k) for k in range(len(ms.classes))], "best-of-class", "%d" % i)
        case.count("series models")
    case.check([plain(q[1]) for q in ms.results] == before, "series-untouched")
    # the qualities published are those of the models, up to the digits of the data saved
    table = {dg: [a.stat for a in v] for dg, v in ms.aics.items()}
    dgs = [float(d) for d in ms.dgs]
    ms.makeaics(dgs, np.pi / ms.ppe.qmax)
    case.check(sorted(ms.aics) == sorted(table), "table-uncertainties")
    for dg in table:
        case.close([a.stat for a in ms.aics[dg]], table[dg], "table", "at %s" % dg, rtol=1e-3)
        case.count("qualities", n)
    case.sig(which)
    case.note(which=which, models=n, published=sorted(published))


def lo(f):
    return os.path.join(DATA, f)


def again(case):
    """The examples, as documented."""
    name = NAMES[case.index % 4]
    P, Q, F = gen.cls("PDFPeakExtraction"), gen.cls("Polynomial"), gen.cls("FromSequence")
    e = P()
    if name == "extract-single-peak":
        e.loadpdf(lo("Ag-nyquist-qmax30.gr"))
        e.setvars(rng=[2.0, 3.5], baseline=Q(degree=1))
        e.extract()
    elif name == "query-results":
        e.loadpdf(lo("Ag-nyquist-qmax30.gr"))
        e.setvars(rng=[2.0, 10.0], baseline=read("extract-single-peak")[0].extracted.baseline)
        e.extract()
    elif name == "parameter-summary":
        e.loadpdf(lo("TiO2-fine-qmax26.gr"))
        f = gen.cls("GaussianOverR")(0.7)
        e.setvars(rng=[1.5, 10.0], dg=0.35, baseline=Q(degree=1).actualize([-0.65, 0.0], free=[True, False]), pf=[f], qmax=26.0, nyquist=True, supersample=4.0, cres=0.05)
        for g in [2.0, 4.5]:
            e.estimate_peak(g)
        kept = [[6.2, 0.25, 2.6], [6.45, 0.25, 2.7], [7.15, 0.25, 5]]
        e.add_peaks([f.actualize(g, free=[True, False, True], in_format="pwa") for g in kept])
        for p in e.initial_peaks:
            p.removable = False
        e.extract()
    else:
        e.loadpdf(lo("C60-fine-qmax21.gr"))
        e.setvars(rng=[1.0, 7.25], baseline=F(lo("C60baseline.dat")).actualize([]), cres=0.05, dg=5000)
        f = gen.cls("TerminationRipples")(e.pf[0], e.qmax)
        e.setvars(pf=[f])
        for g in [1.4, 2.4, 2.8, 3.6, 4.1, 4.5, 4.8, 5.2, 5.4, 5.7, 6.1]:
            e.estimate_peak(g)
        case.check(len(e.initial_peaks) == 11, "estimated", "%d initial peaks" % len(e.initial_peaks))
        e.add_peaks(gen.cls("Peaks")([f.actualize(g, in_format="pwa") for g in [[6.7, 0.3, 100000], [7.0, 0.15, 50000]]]))
        e.fit()
    _, s = read(name)
    x, q = e.extracted, s["Quality"]
    case.check(x.quality().stat <= q + 0.05, "as-good", "%s: %r, published %r" % (name, x.quality().stat, q))
    case.check(len(x.r_cluster) == s["Length"], "same-points", "%d, published %d" % (len(x.r_cluster), s["Length"]))
    settings(case, e, dict(s, filename=os.path.basename(e.filename)), "run-")
    case.close(np.mean(e.effective_dy), number(s["effective_dy"]), "run-uncertainty", rtol=1e-5)
    if name == "parameter-summary":  # widths said to be fixed are
        got = np.array([pwa(p) for p in x.model])
        for g in kept:
            i = int(np.argmin(np.abs(got[:, 0] - g[0])))
            case.close(got[i, 1], g[1], "fixed-width", "%s" % got[i], rtol=1e-7)
            case.check(list(x.model[i].free) == [True, False, True] and not x.model[i].removable, "kept", "%s" % x.model[i].free)
    # the strong peaks of silver and of the molecule are where they were published
    if name != "parameter-summary":
        pos = np.array([pwa(p)[0] for p in x.model])
        for p in s["peaks"][:4]:
            case.check(np.min(np.abs(pos - p[0])) < 0.03, "published-position", "%s: no peak at %s" % (name, p[0]))
    case.count("examples")
    case.sig(name)
    case.note(name=name, quality=x.quality().stat, published=q)


NUMBERS = {1: 12, 2: 6, 3: 24, 4: 12, 5: 24, 7: 48, 9: 36, 10: 24}


def silver(case):
    """The shells of silver, by extractions with all kinds of settings."""
    rng = case.rng
    e = gen.cls("PDFPeakExtraction")()
    e.loadpdf(lo("Ag-nyquist-qmax30.gr"))
    a, b = float(rng.uniform(1.6, 2.4)), float(rng.uniform(3.5, 9.8))
    kw = dict(rng=[a, b], cres=float(rng.uniform(0.08, 0.14)), effective_dy=e.dy * rng.uniform(0.8, 1.3))
    Q = gen.cls("Polynomial")
    which = int(rng.integers(3))
    kw["baseline"] = [Q(1), Q(1).actualize([-0.51, 0.0], free=[True, False]), Q(1).actualize([-0.51, 0.0])][which]
    if rng.random() < 0.2:
        kw["qmax"] = float(rng.uniform(29, 30))
    if rng.random() < 0.2:
        kw["supersample"] = float(rng.uniform(3, 6))
    e.setvars(**kw)
    e.extract()
    x = e.extracted
    got = np.array([pwa(p) for p in x.model])
    cell = 2.9010 * np.sqrt(2)
    per = []
    for n, number_ in NUMBERS.items():
        d = cell * np.sqrt(n / 2)
        if not a + 0.3 < d < b - 0.45:
            continue
        i = int(np.argmin(np.abs(got[:, 0] - d))) if len(got) else None
        if case.check(i is not None and abs(got[i, 0] - d) < 0.06, "shell", "shell %d at %.3f not among %s" % (n, d, got[:, 0] if len(got) else [])):
            case.count("shells")
            if n <= 4:
                per.append(got[i, 2] / number_)
    if len(per) > 1:
        case.check(max(per) / min(per) < 2, "areas", "areas over numbers of neighbours: %s" % per)
        case.count("areas")
    case.check(len(got) <= 2 * (b - a) + 2, "not-too-many", "%d peaks in %s..%s" % (len(got), a, b))
    case.sig(a, b, which)
    case.note(range=(a, b), baseline=which, peaks=len(got), per=per)


def refit(case):
    """Published models, fitted again from nearby."""
    rng = case.rng
    name = NAMES[[0, 1, 2, 1, 2][case.index % 5]]
    e, s = read(name)
    q = e.extracted.quality().stat
    m, bl = e.extracted.model.copy(), e.extracted.baseline.copy()
    f = gen.cls("PDFPeakExtraction")()
    f.readstr(e.writestr())
    f.clearcalc()
    amp = float(10 ** rng.uniform(-4, -1.6))
    for p in m:
        p.pars[:] = p.pars * (1 + amp * rng.normal(size=3) * [0.02, 1, 1])
    f.setvars(initial_peaks=m, baseline=bl)
    cov = f.fit()
    x = f.extracted
    case.check(x.quality().stat <= q + 0.02, "refit-as-good", "%s: %r, published %r" % (name, x.quality().stat, q))
    case.check(len(x.model) == len(s["peaks"]), "refit-peaks")
    got = np.array([pwa(p) for p in x.model])
    if name != "fit-initial":  # where the peaks are determined by the data, near the published ones
        sd = np.array([[cov.getuncertainty((i, j)) for j in range(3)] for i in range(len(got))])
        case.check(np.all(np.abs(got[:, 0] - [p[0] for p in s["peaks"]]) < 0.06), "refit-positions", "%s" % got)
        case.check(np.all(np.isfinite(sd)) and np.all(sd[:, 0] < 0.2), "refit-uncertainties", "%s" % sd)
    case.count("refits")
    case.sig(name, amp)
    case.note(name=name, quality=x.quality().stat, published=q)


GROUPS = {
    "again": (4, 4, again),
    "series": (2, 2, series),
    "silver": (30, 600, silver),
    "refit": (30, 600, refit),
    "files": (4, 4, files),
}
