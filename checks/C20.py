"""C20: the summary of an extraction."""

import os

import numpy as np

from lib import extractions, gen
from lib.extractions import plain

TECHNIQUE = "independent parser of the real summary, with each entry compared by value to the observed extraction"
NOTE = "Seeded exploration of settings, runs, models with several functions, comments and files."
RULE = """Cases draw an extraction (run, or put together from models), write its summary, and compare every entry.
Non-trivial: the summary lists at least one peak; distinguished by the summary without its date."""
REQUIRED = {"summaries": 150, "entries": 3000, "peaks": 300, "functions": 300, "several functions": 30, "baseline parameters": 60, "files": 30, "refused": 20, "comments": 30, "run": 7}
CHUNK = {"run": 1}


class Bad(Exception):
    pass


def parse(text):
    """The summary as a dictionary, from its documented layout."""
    lines = text.split("\n")
    if lines[-1] != "" or not lines[0].startswith("Summary written: ") or not lines[1].startswith("produced by ") or not lines[2].startswith("diffpy.srmise version ") or lines[3] != "##### User comments":
        raise Bad("beginning or end")
    i = lines.index("##### PDF Peak Extraction Summary", 3)
    while "##### PDF Peak Extraction Summary" in lines[i + 1 :]:  # also in a comment
        i = lines.index("##### PDF Peak Extraction Summary", i + 1)
    out = {"comments": lines[4:i], "date": lines[0]}
    section = None
    for ln in lines[i + 1 : -1]:
        if ln.startswith("## "):
            section = ln[3:]
            out[section] = []
        elif section is not None and ln != "":
            out[section].append(ln)
    return out


def fields(lines):
    out = {}
    for ln in lines:
        if ln.startswith("# ") and ": " in ln:
            k, _, v = ln[2:].partition(": ")
        else:
            k, _, v = ln.partition("=")
        if k in out:
            raise Bad("twice " + k)
        out[k] = v
    return out


def number(text):
    return eval(text, {"np": np, "inf": np.inf, "nan": np.nan, "array": np.array, "__builtins__": {}}, {"None": None, "True": True, "False": False})


def functions(lines):
    if lines[:1] != ["# Index Type"]:
        raise Bad("functions %s" % lines)
    out = []
    for i, ln in enumerate(lines[1:]):
        w = ln.split()
        if int(w[0]) != i:
            raise Bad("index of " + ln)
        base = None
        if len(w) == 3:
            if not (w[2].startswith("(base=") and w[2].endswith(")")):
                raise Bad("base of " + ln)
            base = int(w[2][6:-1])
        out.append((w[1], base))
    return out


def names(f):
    """A function's module and those of its bases."""
    out = []
    while f is not None:
        out.append(type(f).__module__)
        f = f.base
    return out


def listed(fs, i):
    out, seen = [], set()
    while i is not None:
        if i in seen:
            raise Bad("base of itself")
        seen.add(i)
        out.append(fs[i][0])
        i = fs[i][1]
    return out


def pwa(p):
    """Position, width at half maximum and area, from the definitions."""
    o = p.owner()
    while o.base is not None:
        o = o.base
    return float(p.pars[0]), float(gen.ref_width(o.maxwidth, p.pars[1])), float(p.pars[2])


def summary(case, e, comments):
    before = extractions.text(e)
    text = e.writepwastr(comments)
    case.check(extractions.text(e) == before, "changes-nothing")
    d = parse(text)
    x = e.extracted
    # comments
    case.check(d["comments"] == ["# " + c for c in comments.splitlines()], "comments", "%s for %r" % (d["comments"], comments))
    if comments:
        case.count("comments")
    # settings
    f = fields(d["PDF metadata"])
    case.check(set(f) == {"filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample"}, "metadata", "%s" % f)
    case.check(f.pop("filename") == str(e.filename), "filename")
    for k, v in f.items():
        case.check(number(v) == getattr(e, k), "setting", "%s is %s, not %s" % (k, v, getattr(e, k)))
        case.count("entries")
    f = fields(d["Peak extraction metadata"])
    rng = number(f["Range"])
    case.check([float(v) for v in rng] == [float(v) for v in e.rng], "range", "%s for %s" % (f["Range"], e.rng))
    case.check(f["cres"] == "%g" % e.cres, "cres", "%s for %s" % (f["cres"], e.cres))
    w = f["effective_dy"].split()
    case.check(w[1:] == ["(mean)"], "uncertainty", f["effective_dy"])
    case.close(float(w[0]), float(np.sum(e.effective_dy) / len(e.x)), "uncertainty", rtol=1e-9)
    # quality
    f = fields(d["Model Quality"])
    got = float(f["Quality reported by ModelEvaluator"])
    v = x.y_cluster * 0.0
    for p in list(x.model) + ([] if x.baseline is None else [x.baseline]):
        v = v + p.value(x.r_cluster)
    chisq = np.sum((v - x.y_cluster) ** 2 / x.error_cluster**2)
    k = sum(int(np.sum(p.free)) for p in x.model)
    n = len(x.r_cluster)
    method = e.error_method.__name__
    want = chisq + 2 * k + (2.0 * k * (k + 1) / (max(n, k + 2) - k - 1) if method == "AICc" else 0.0)
    case.close(got, want, "quality", rtol=1e-7)
    case.check(int(f["Free parameters in extracted peaks"]) == k, "free", "%s for %s" % (f["Free parameters in extracted peaks"], k))
    kb = 0 if x.baseline is None else int(np.sum(x.baseline.free))
    case.check(int(f["Free parameters in baseline"]) == kb, "free-baseline", "%s for %s" % (f["Free parameters in baseline"], kb))
    case.check(int(f["Length of data in final fit"]) == len(x.r_data), "points", "%s for %s" % (f["Length of data in final fit"], len(x.r_data)))
    case.check(f["ModelEvaluator"] == method, "evaluator", f["ModelEvaluator"])
    case.count("entries", 9)
    # baseline
    bfs = functions(d["Baseline Functions"])
    b = [ln for ln in d["Baseline"] if not ln.startswith("# ")]
    if x.baseline is None:
        case.check(b == ["None"], "baseline", "%s" % b)
    else:
        own = x.baseline.owner()
        case.check(len(b) == 1, "baseline", "%s" % b)
        pars, _, idx = b[0].rpartition(" # ")
        case.check(listed(bfs, int(idx)) == names(own), "baseline-function", "%s of %s for %s" % (idx, bfs, names(own)))
        if len(x.baseline.pars):
            case.check([float(p) for p in pars.split()] == x.baseline.pars.tolist(), "baseline-parameters", "%s for %s" % (pars, x.baseline.pars))
            head = [ln for ln in d["Baseline"] if ln.startswith("# ")][-1][2:].split()
            case.check(head == sorted(own.parameterdict, key=own.parameterdict.get), "baseline-names", "%s" % head)
            case.count("baseline parameters")
        else:
            case.check(pars == "(no parameters)", "baseline-parameters", pars)
    # peaks
    pfs = functions(d["Peak Functions"])
    rows = [ln for ln in d["Extracted Peaks"] if not ln.startswith("#")]
    case.check(d["Extracted Peaks"].count("#L position fwhm area") == 1, "peak-header")
    case.check(len(rows) == len(x.model), "peak-count", "%d for %d" % (len(rows), len(x.model)))
    which = {}
    for row, p in zip(rows, x.model):
        vals, _, idx = row.partition(" # ")
        case.close([float(v) for v in vals.split()], pwa(p), "peak", "%s for %s" % (row, p), rtol=1e-9)
        case.check(listed(pfs, int(idx)) == names(p.owner()), "peak-function", "%s of %s for %s" % (idx, pfs, names(p.owner())))
        case.check(which.setdefault(int(idx), p.owner()) is p.owner(), "one-function", "%s of %s" % (idx, pfs))
        case.count("peaks")
    own = {id(p.owner()) for p in x.model}
    case.check(len(set(map(id, which.values()))) == len(own) == len(which), "as-many-functions")
    for f in e.pf:
        case.check(names(f) in [listed(pfs, i) for i in range(len(pfs))], "known-functions", "%s of %s" % (names(f), pfs))
    for i in range(len(pfs)):
        listed(pfs, i)
    case.count("functions", len(pfs))
    if len(own) > 1:
        case.count("several functions")
    case.count("summaries")
    if rows:
        case.sig(text.split("\n")[3:])
    # the file
    if case.rng.random() < 0.3:
        name = os.path.join(os.environ["VERIF_SCRATCH"], "pwa-%s-%s-%d" % (case.group, case.index, os.getpid()))
        e.writepwa(name, comments)
        got = open(name, newline="").read()
        os.unlink(name)
        case.check(got.split("\n", 1)[1] == text.split("\n", 1)[1], "file", "%s" % got[:500])
        if case.rng.random() < 0.5:
            e.writepwa(name)
            case.check(parse(open(name).read())["comments"] == ["# n/a"], "default-comment")
            os.unlink(name)
        case.count("files")


def refused(case, e):
    from diffpy.srmise.srmiseerrors import SrMiseError as E
    name = os.path.join(os.environ["VERIF_SCRATCH"], "refused-%s-%s-%d" % (case.group, case.index, os.getpid()))
    case.raises(E, lambda: e.writepwastr("x"), "refused")
    case.raises(E, lambda: e.writepwa(name), "refused")
    case.check(not os.path.exists(name), "no-file")
    case.count("refused")


def remarks(rng):
    words = ["peak", "#", "##### x", "a=b", "", "  indented", "## PDF metadata", "%s %d", "qmax=3", "end"]
    lines = [" ".join(words[int(i)] for i in rng.integers(0, len(words), int(rng.integers(0, 4)))) for _ in range(int(rng.integers(0, 5)))]
    return "\n".join(lines) + ("\n" if rng.random() < 0.3 else "")


def prepared(rng, **kw):
    s = extractions.spec(rng, ext="PDFPeakExtraction", npeaks=int(rng.integers(1, 4)), n=int(rng.integers(20, 60)), **kw)
    e = s.build()
    if rng.random() < 0.3:
        e.filename = "/some/where/data %d.gr" % rng.integers(100)
    if rng.random() < 0.3:
        e.qmax_reportedbypdf = float(rng.uniform(5, 40))
    return s, e


def run(case):
    s, e = prepared(case.rng)
    if case.rng.random() < 0.5:
        refused(case, e)
    s.do(e)
    case.count("run")
    summary(case, e, remarks(case.rng))
    if case.rng.random() < 0.5:
        # a summary of an extraction that was read again
        other = gen.cls("PDFPeakExtraction")()
        other.readstr(e.writestr())
        summary(case, other, remarks(case.rng))
        a, b = e.writepwastr(""), other.writepwastr("")
        case.check(parse(a)["Extracted Peaks"][:5] == parse(b)["Extracted Peaks"][:5] and len(parse(a)["Extracted Peaks"]) == len(parse(b)["Extracted Peaks"]), "read-again")
    if case.rng.random() < 0.5:
        e.clearcalc()
        refused(case, e)


def made(case):
    rng = case.rng
    s, e = prepared(rng, run="extract")
    if rng.random() < 0.2:
        refused(case, e)
    if rng.random() < 0.2:
        e.setvars(quiet=True, cres=float(10 ** rng.uniform(-6, 3)), qmax=float(10 ** rng.uniform(-3, 7)))
    e.defaultvars()
    funcs = list(e.pf)
    for _ in range(int(rng.integers(0, 3))):
        f, kind, mw = gen.peakfunc(rng)
        funcs.append(f)
    for f in list(funcs):
        if rng.random() < 0.4 and f.base is None:
            funcs.append(gen.cls("TerminationRipples")(f, float(rng.uniform(10, 30))))
    peaks = gen.cls("Peaks")()
    for _ in range(int(rng.integers(0, 7))):
        f = funcs[int(rng.integers(len(funcs)))]
        g = f
        while g.base is not None:
            g = g.base
        q = [float(rng.uniform(e.x[0], e.x[-1])), g.maxwidth * float(rng.uniform(0.1, 0.99)), float(10 ** rng.uniform(-6, 6))]
        peaks.append(f.actualize(q, "pwa", gen.mask(rng, 3, 0.4), bool(rng.random() < 0.6), bool(rng.random() < 0.2)))
    bl, _, name = gen.baseline(rng, free=lambda m: gen.mask(rng, m, 0.4))
    e.setvars(quiet=True, baseline=bl.copy())
    e.defaultvars()
    if rng.random() < 0.2:
        e.initial_peaks = peaks.copy()
    r, y, dr, dy = e.resampledata(float((e.x[-1] - e.x[0]) / rng.uniform(8, 60)))
    e.extracted = gen.cls("ModelCluster")(peaks, bl, r, y, dy, None, e.error_method, e.pf)
    summary(case, e, remarks(rng))


GROUPS = {
    "made": (720, 6000, made),
    "run": (96, 500, run),
}
