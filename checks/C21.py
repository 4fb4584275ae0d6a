"""C21: the extraction command."""

import contextlib
import io
import os
import subprocess
import sys

import numpy as np

from checks import C20
from checks.C23 import settings
from lib import extractions, gen, harness
from lib.extractions import plain

TECHNIQUE = "differential oracle: files written by the real command against the same settings, computed from the meaning of the options, through the interface"
NOTE = "Seeded exploration of option combinations, inputs and runs, in process and as a command."
RULE = """Cases draw an input file and a combination of options, run the command on it, and read what it saved. Non-trivial: at
least two options that change settings; distinguished by the saved settings and result."""
REQUIRED = {"commands": 125, "options": 600, "saved": 100, "extracted": 100, "not extracted": 60, "from saved": 60, "refused": 20, "summaries": 12, "subprocess": 4, "runs": 12,
            "kept extraction": 10, "baseline option": 75, "mode": 60}
CHUNK = {"run": 1}
ASSUMPTIONS = """The uncertainty of a saved extraction is replaced by the default of the command unless one is given, as the command documents."""


def num(rng, v):
    v = float(v)
    return [repr(v), "%.6g" % v, "%.3e" % v][int(rng.integers(3))]


def scratch(case, name):
    return os.path.join(os.environ["VERIF_SCRATCH"], "c21-%s-%s-%d-%s" % (case.group, case.index, os.getpid(), name))


def inputfile(case, files):
    """An input file, and a function that loads it through the interface."""
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", npeaks=int(rng.integers(1, 4)), n=int(rng.integers(25, 60)), bl=["None", "line", "const"][rng.integers(3)])
    if case.group != "run" and rng.random() < 0.3:
        s.y = s.y - s.height * rng.uniform(0.6, 1.5) * (s.x < np.median(s.x))
    E = gen.cls("PDFPeakExtraction")
    saved = rng.random() < 0.35
    name = scratch(case, "in.srmise" if saved else "in.gr")
    files.append(name)
    if saved:
        if rng.random() < 0.4:
            s.dy = np.where(rng.random(len(s.x)) < 0.1, 0.0, rng.uniform(0.5, 2, len(s.x)) * max(s.noise, 1e-3 * s.height))
        e = s.build()
        e.defaultvars()
        if rng.random() < 0.6:  # with an extraction
            made(rng, e)
        e.write(name)

        def load():
            o = E()
            o.read(name)
            return o
    else:
        cols = [s.x, s.y]
        which = rng.integers(4)
        dy = rng.uniform(0.5, 2, len(s.x)) * max(s.noise, 1e-3 * s.height)
        if which == 1:
            cols.append(np.full(len(s.x), 0.01))
        elif which == 2:
            cols += [np.full(len(s.x), 0.01), dy]
        elif which == 3:
            cols += [np.zeros(len(s.x)), dy if rng.random() < 0.5 else np.where(np.arange(len(s.x)) % 5 == 2, 0.0, dy)]
        head = "# a PDF\n" + ("#   qmax = %s\n" % s.qmax if s.qmax and rng.random() < 0.6 else "") + ("##### start data\n#L r G dr dG\n" if rng.random() < 0.5 else "")
        with open(name, "w") as f:
            f.write(head + "".join(" ".join(repr(float(v)) for v in row) + "\n" for row in zip(*cols)))

        def load():
            o = E()
            o.loadpdf(name)
            return o
    return s, name, load, saved


def made(rng, e):
    """Give e a result without running an extraction."""
    peaks = gen.cls("Peaks")([e.pf[0].actualize([float(rng.uniform(e.x[0], e.x[-1])), 0.2, float(rng.uniform(1, 5))], "pwa", gen.mask(rng, 3, 0.3)) for _ in range(int(rng.integers(0, 4)))])
    bl = e.baseline.copy() if hasattr(e.baseline, "pars") else gen.cls("Polynomial")(0).actualize([0.1], "internal")
    bl.pars = bl.pars * 1.5 + 0.01 * (np.arange(len(bl.pars)) + 1)
    e.extracted = gen.cls("ModelCluster")(peaks, bl, e.x, e.y, e.effective_dy, None, e.error_method, e.pf)
    e.extraction_type = "extract"


def const(rng, v):
    """A parameter, free or not, as written."""
    free = bool(rng.random() < 0.5)
    t = num(rng, v)
    return t + ("" if free else "c"), float(t), free


def baseline(case, s, files):
    rng = case.rng
    h = s.height
    k = ["bpoly0", "bpoly1", "bpoly2", "bcrystal", "bspherical", "bseq", "bsrmise", "line", "none", "const"][rng.integers(10)]
    P = gen.cls("Polynomial")
    case.count("baseline option")
    if k.startswith("bpoly"):
        d = int(k[-1])
        pars = [const(rng, rng.normal() * 0.05 * h) for _ in range(d + 1)]
        return ["--" + k] + [p[0] for p in pars], lambda o: P(d).actualize([p[1] for p in pars], "internal", [p[2] for p in pars])
    if k == "bcrystal":
        t, v, free = const(rng, rng.uniform(0.0, 0.1) * h)
        return ["--bcrystal", t], lambda o: P(1).actualize([-4 * np.pi * v, 0.0], "internal", [free, False])
    if k == "bspherical":
        pars = [const(rng, rng.uniform(0.01, 0.2) * h), const(rng, rng.uniform(0.5, 2) * s.x[-1])]
        return ["--bspherical"] + [p[0] for p in pars], lambda o: gen.cls("NanoSpherical")().actualize([p[1] for p in pars], "internal", [p[2] for p in pars])
    if k == "bseq":
        name = scratch(case, "seq.dat")
        files.append(name)
        x = np.linspace(s.x[0] - 0.1, s.x[-1] + 0.1, int(rng.integers(5, 30)))
        y = 0.05 * h * rng.normal(size=len(x))
        with open(name, "w") as f:
            f.write("".join("%r %r\n" % (float(a), float(b)) for a, b in zip(x, y)))
        return ["--bseq", name], lambda o: gen.cls("FromSequence")(x, y).actualize([], "internal")
    if k == "bsrmise":
        name = scratch(case, "bl.srmise")
        files.append(name)
        other = extractions.spec(rng, ext="PDFPeakExtraction", run="extract", npeaks=1, n=25).build()
        other.defaultvars()
        made(rng, other)
        other.write(name)
        want = other.extracted.baseline.copy()
        return ["--bsrmise", name], lambda o: want.copy()
    if k == "line":
        return ["--baseline", ["Polynomial(degree=1)", "Polynomial(1)"][rng.integers(2)]], lambda o: P(1)
    if k == "const":
        return ["--baseline", "Polynomial(degree=0)"], lambda o: P(0)
    return ["--baseline", "Polynomial(degree=-1)"], lambda o: P(-1)


def uncertainty(case, s):
    """Options for the uncertainty, and its value for loaded data."""
    rng = case.rng
    argv, dg, mode = [], None, None
    if rng.random() < 0.5:
        mode = ["absolute", "data", "max-fraction", "ptp-fraction", "dG-fraction"][rng.integers(5)]
    if rng.random() < 0.6 or mode == "absolute":
        t = num(rng, rng.uniform(0.01, 0.2) * (s.height if mode in (None, "absolute") else 10 if mode == "dG-fraction" else 1))
        dg = float(t)
        argv.append(["--dg", t])
    if mode is not None:
        argv.append(["--dg-mode", mode] if rng.random() < 0.5 else ["--dg-mode=" + mode])
        case.count("mode")

    def value(o):
        one = np.ones(len(o.x))
        m = mode or ("absolute" if dg is not None else "dG-fraction" if np.all(o.dy > 0) else "max-fraction")
        d = dg if dg is not None else {"max-fraction": 0.05, "ptp-fraction": 0.05, "dG-fraction": 1.0}.get(m)
        if m == "absolute":
            return d * one
        if m == "max-fraction":
            return d * np.max(o.y) * one
        if m == "ptp-fraction":
            return d * (np.max(o.y) - np.min(o.y)) * one
        if m == "dG-fraction":
            return d * o.dy
        return None

    return argv, value, mode


def options(case, s, files):
    """Options in random order, and what they mean for a loaded extraction."""
    rng = case.rng
    argv, means = [], {}
    few = rng.random() < 0.3
    take = lambda p: rng.random() < (0.15 if few else p)

    def add(opts, name, value):
        argv.append(opts)
        means[name] = value
        case.count("options")

    if take(0.5):
        w = s.x[-1] - s.x[0]
        a, b = num(rng, s.x[0] + w * rng.uniform(-0.1, 0.3)), num(rng, s.x[-1] - w * rng.uniform(-0.1, 0.3))
        add(["--range", a, b], "rng", lambda o: [float(a), float(b)])
    if take(0.5):
        q = "0" if rng.random() < 0.25 else num(rng, rng.uniform(15, 30))
        add(["--qmax", q], "qmax", lambda o: float(q))
    if take(0.4):
        ny = bool(rng.random() < 0.5)
        add(["--nyquist" if ny else "--no-nyquist"], "nyquist", lambda o: ny)
    if take(0.4):
        sc = bool(rng.random() < 0.5)
        add(["--scale" if sc else "--no-scale"], "scale", lambda o: sc)
    if take(0.4):
        ss = "1" if rng.random() < 0.15 else num(rng, rng.uniform(1.01, 6))
        add(["--supersample", ss], "supersample", lambda o: float(ss))
    if take(0.4):
        c = "0" if rng.random() < 0.15 else num(rng, rng.uniform(0.02, 0.2))
        add(["--cres", c], "cres", lambda o: float(c))
    if take(0.4):
        mw = num(rng, rng.uniform(0.3, 1.2))
        kind = ["GaussianOverR", "Gaussian"][rng.integers(2)]
        which = rng.integers(3)
        if which == 2:
            q2 = num(rng, rng.uniform(15, 30))
            add(["--pf", "TerminationRipples(%s(%s), %s)" % (kind, mw, q2)], "pf", lambda o: [gen.cls("TerminationRipples")(gen.cls(kind)(float(mw)), float(q2))])
        else:
            add(["--pf", "%s(%s%s)" % (kind, ["", "maxwidth="][which], mw)], "pf", lambda o: [gen.cls(kind)(float(mw))])
    if take(0.4):
        me = ["AIC", "AICc"][rng.integers(2)]
        add([["--me", me], ["-m", me], ["--me=" + me]][rng.integers(3)], "error_method", lambda o: gen.cls(me))
    if take(0.7):
        opts, value = baseline(case, s, files)
        add(opts, "baseline", value)
    more, value, mode = uncertainty(case, s)
    argv += more
    means["effective_dy"] = value
    case.count("options", len(more))
    argv.append(["-s"] if rng.random() < 0.7 else [["-q"], ["-i"], ["-v"], ["--silent"]][rng.integers(4)])
    rng.shuffle(argv)
    return argv, means


def command(case, argv, stub=None, sub=False):
    """Run the real command; its output."""
    case.count("commands")
    if sub:
        env = dict(os.environ, PYTHONPATH=harness.SRC, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "diffpy.srmise.applications.extract"] + argv, env=env, capture_output=True, text=True, timeout=300)
        case.check(p.returncode == 0, "command-failed", "%s: %s" % (argv, p.stderr[-1500:]))
        case.count("subprocess")
        return p.stdout
    from diffpy.srmise import srmiselog
    from diffpy.srmise.applications import extract

    E = gen.cls("PDFPeakExtraction")
    before, old = E.extract, sys.argv
    out = io.StringIO()
    if stub is not None:
        E.extract = stub
    sys.argv = ["srmise"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            extract.main()
    finally:
        sys.argv = old
        E.extract = before
        srmiselog.setlevel("critical")
        harness.silence()
    return out.getvalue()


def twin(load, means):
    o = load()
    kw = {k: f(o) for k, f in means.items()}
    o.setvars(quiet=True, **{k: v for k, v in kw.items() if v is not None})
    return o


def full(o):
    return settings(o) + [("effective_dy", np.asarray(o.effective_dy).tolist())]


def audit(case, got, want, key, argv):
    for a, b in zip(full(got), full(want)):
        case.check(a == b or repr(a) == repr(b), key, "%s instead of %s with %s" % (a, b, argv))


def read(name):
    o = gen.cls("PDFPeakExtraction")()
    o.read(name)
    return o


def resolved(text):
    """A summary, without what depends on the order of functions."""
    d = C20.parse(text)
    for what, fs in (("Baseline", "Baseline Functions"), ("Extracted Peaks", "Peak Functions")):
        fs = C20.functions(d[fs])
        rows = []
        for ln in d[what]:
            a, sep, i = ln.rpartition(" # ")
            rows.append((a, C20.listed(fs, int(i))) if sep and not ln.startswith("#") else ln)
        d[what] = rows
    d["Baseline Functions"] = sorted(map(repr, [C20.listed(C20.functions(d["Baseline Functions"]), i) for i in range(len(d["Baseline Functions"]) - 1)]))
    d["Peak Functions"] = sorted(map(repr, [C20.listed(C20.functions(d["Peak Functions"]), i) for i in range(len(d["Peak Functions"]) - 1)]))
    d.pop("date")
    return d


def clean(files):
    for f in files:
        if os.path.exists(f):
            os.unlink(f)


def combinations(case):
    """Settings of the command, with a stand-in for the extraction."""
    rng = case.rng
    files = []
    try:
        s, name, load, saved = inputfile(case, files)
        argv, means = options(case, s, files)
        out = scratch(case, "out.srmise")
        files.append(out)
        seen = []

        def stub(self, **kwds):
            seen.append(full(self))
            return None

        doit = rng.random() < 0.6
        if not doit:
            argv.append(["--no-extract"])
        elif rng.random() < 0.3:
            argv.append(["--extract"])
        argv.append(["--save", out])
        argv = [a for o in argv for a in o]
        argv.insert(0 if rng.random() < 0.5 else len(argv), name)
        want = twin(load, means)
        command(case, argv, stub)
        case.check(len(seen) == (1 if doit else 0), "extractions", "%d with %s" % (len(seen), argv))
        case.count("extracted" if doit else "not extracted")
        if seen:
            for a, b in zip(seen[0], full(want)):
                case.check(repr(a) == repr(b), "used-settings", "%s instead of %s with %s" % (a, b, argv))
        got = read(out)
        audit(case, got, want, "saved-settings", argv)
        case.count("saved")
        if saved:
            case.count("from saved")
            orig = load()
            if orig.extracted is None:
                case.check(got.extracted is None, "no-result")
            elif not doit:
                case.check(extractions.result(got) == extractions.result(orig), "kept-result")
                case.count("kept extraction")
        else:
            case.check(got.extracted is None, "no-result")
        if len(means) > 2:
            case.sig(full(got)[4:])
        case.note(argv=argv)
    finally:
        clean(files)


def refused(case):
    """What may not be asked for saves nothing."""
    rng = case.rng
    files = []
    try:
        s, name, load, saved = inputfile(case, files)
        out, pwa = scratch(case, "out.srmise"), scratch(case, "out.pwa")
        files += [out, pwa]
        seen = []

        def stub(self, **kwds):
            seen.append(1)

        bad = [["--pf", "Lorentzian(3)"], ["--pf", "open('%s', 'w')" % out], ["--me", "BIC"], ["--baseline", "Polynomial(degree="], ["--baseline", "__import__('os')"], ["--supersample", ["0.5", "0", "0.99", "-2"][rng.integers(4)]], ["--dg", "abc"],
               ["--dg-mode", "other"], ["--qmax", "high"], ["--bpoly1", "1", "x"], ["--nosuch"], ["--bseq", out + ".none"], ["--bsrmise", out + ".none"], ["second"]][rng.integers(14)]
        argv = [name, "-s"] + bad + ["--save", out, "--pwa", pwa]
        try:
            text = command(case, argv, stub)
        except (Exception, SystemExit) as e:
            case.check(not isinstance(e, SystemExit) or e.code not in (0, None), "no-success", "%s" % argv)
        else:
            case.check(bad[0] in ("--pf", "--me", "--baseline") and "ould not" in text, "says-so", "%s: %s" % (argv, text))
        case.check(not seen and not os.path.exists(out) and not os.path.exists(pwa), "nothing-done", "%s" % argv)
        # a summary of no extraction
        if load().extracted is None:
            from diffpy.srmise.srmiseerrors import SrMiseError

            case.raises(SrMiseError, lambda: command(case, [name, "-s", "--no-extract", "--pwa", pwa], stub), "no-summary")
            case.check(not os.path.exists(pwa) and not seen, "no-summary")
        case.count("refused")
        case.sig(bad)
    finally:
        clean(files)


def run(case):
    """The whole command, and the same through the interface."""
    rng = case.rng
    files = []
    try:
        s, name, load, saved = inputfile(case, files)
        argv, means = options(case, s, files)
        if "effective_dy" in means and rng.random() < 0.8:  # a realistic uncertainty
            t = num(rng, max(s.noise, 1e-3 * s.height) * rng.uniform(0.8, 3))
            argv = [a for a in argv if not a[0].startswith("--dg")] + [["--dg", t]]
            means["effective_dy"] = lambda o: float(t) * np.ones(len(o.x))
        out, pwa = scratch(case, "out.srmise"), scratch(case, "out.pwa")
        files += [out, pwa]
        argv = [a for o in argv for a in o] + ["--save", out, "--pwa", pwa, name]
        want = twin(load, means)
        try:
            want.extract()
        except Exception as e:
            # such settings fail in the same way
            try:
                command(case, argv)
            except Exception as f:
                case.check(type(e) is type(f), "same-error", "%r and %r" % (e, f))
            else:
                case.fail("same-error", "%r" % e)
            return
        text = command(case, argv, None, rng.random() < 0.3)
        case.check(str(want) in text or len(text) > 50, "printed", text[:300])
        got = read(out)
        audit(case, got, want, "run-settings", argv)
        a, b = extractions.result(got), extractions.result(want)
        for i, (u, v) in enumerate(zip(a, b)):
            case.check(u == v, "run-result", "%d: %s instead of %s with %s" % (i, str(u)[:600], str(v)[:600], argv))
        a, b = resolved(open(pwa).read()), resolved(want.writepwastr("n/a"))
        case.check(a == b, "run-summary", "%s" % [(k, a[k], b[k]) for k in b if a.get(k) != b[k]])
        case.count("summaries")
        case.count("runs")
        case.sig(plain(got.extracted.model))
        case.note(argv=argv, peaks=len(got.extracted.model))
    finally:
        clean(files)


GROUPS = {
    "combinations": (600, 6000, combinations),
    "refused": (120, 600, refused),
    "run": (60, 300, run),
}
