"""C22: traces and logs."""

import io
import logging
import os

import numpy as np

from lib import extractions, gen, harness
from lib.extractions import describe, plain

TECHNIQUE = "online monitor at the point where traces are emitted, compared with an offline checker of the kept and written records; reference model of log levels"
NOTE = "Seeded exploration of extractions, filters, histories of successful and failed extractions, damaged files and sequences of log settings."
RULE = """Cases draw extractions and trace settings, and compare every record kept in memory or written to the clusters at the moment it
was emitted. Non-trivial: a record was kept; distinguished by the records."""
REQUIRED = {"traced": 20, "emitted": 400, "records": 200, "files": 60, "recursion": 3, "several clusters": 50, "filtered": 2, "nothing": 5, "after failure": 8, "damaged": 300, "damaged refused": 60,
            "messages": 1000, "log files": 40}
CHUNK = {"extraction": 1, "failure": 1}
FILTERS = (["True"], ["self.recursion==1"], ["self.recursion<=1"], ["self.recursion>1"], ["len(args)>1"], ["len(args)==1"], ["self.counter<3"], ["True", "len(args[0].model)>0"],
           ["self.recursion==0"], ["False"], ["self.recursion==1", "len(args)>1"], ["len(args)>1 or self.recursion>1"], ["True", "False"])


def log():
    from diffpy.srmise import srmiselog

    return srmiselog


def cluster(mc):
    return (plain(mc.model), None if mc.baseline is None else plain([mc.baseline]), mc.r_data.tolist(), mc.y_data.tolist(), mc.y_error.tolist(), repr(mc.slice),
            getattr(mc.error_method, "__name__", None), sorted(describe(f) for f in mc.peak_funcs))


def ends(s, n):
    a, b, step = s.indices(n)
    return a, b


def record(trace):
    return (cluster(trace["mc"]), [ends(s, len(trace["mc"].r_data)) for s in trace["clusters"]], int(trace["recursion"]), int(trace["counter"]))


def bypos(model):
    return sorted(model, key=repr)


class Watch:
    """Notes what is emitted, and what that should give."""

    def __init__(self, flt):
        self.flt = [compile(f, "<filter>", "eval") for f in flt]
        self.want, self.emitted, self.clusters, self.levels = [], 0, 0, set()
        self.pruning, self.wrong = [], []

    def reset(self):
        self.want, self.emitted = [], 0

    def __call__(self, tracer, args):
        self.emitted += 1
        self.clusters += len(args) > 1
        self.levels.add(tracer.recursion)
        state = type("State", (), {"recursion": tracer.recursion, "counter": len(self.want)})()
        if not all(eval(f, {"np": np}, {"self": state, "args": args, "kwds": {}}) for f in self.flt):
            return
        first = args[0]
        if self.pruning and [cluster(mc) for mc in args] != [cluster(self.pruning[-1])]:
            self.wrong.append("while pruning %s: %s" % (cluster(self.pruning[-1]), [cluster(mc) for mc in args]))
        if any(cluster(mc)[1:5] != cluster(first)[1:5] for mc in args[1:]):
            self.wrong.append("clusters of different data")
        model = [q for mc in args for q in plain(mc.model)]
        n = len(first.r_data)
        mc = (model, None if first.baseline is None else plain([first.baseline]), first.r_data.tolist(), first.y_data.tolist(), first.y_error.tolist(), None,
              getattr(first.error_method, "__name__", None), sorted(describe(f) for f in first.peak_funcs))
        self.want.append((mc, [ends(m.slice, n) if m.slice is not None else (0, n) for m in args], tracer.recursion, len(self.want)))


def watched(watch, f):
    T, M = log().TracePeaks, gen.cls("ModelCluster")
    before, prune = T.emit, M.prune

    def emit(self, *args, **kwds):
        watch(self, args)
        return before(self, *args, **kwds)

    def pruning(self, *args, **kwds):
        watch.pruning.append(self)
        try:
            return prune(self, *args, **kwds)
        finally:
            watch.pruning.pop()

    T.emit, M.prune = emit, pruning
    try:
        return f()
    finally:
        T.emit, M.prune = before, prune


def same(case, got, want, key):
    """A record against what was there."""
    g, w = got[0], want[0]
    case.check(bypos(g[0]) == bypos(w[0]), key + "-model", "%s instead of %s" % (g[0], w[0]))
    case.check([p[1][0] for p in g[0]] == sorted(p[1][0] for p in g[0]), key + "-order", "%s" % g[0]) if len(want[1]) > 1 else None
    case.check(g[1] == w[1], key + "-baseline", "%s instead of %s" % (g[1], w[1]))
    case.check(g[2:5] == w[2:5], key + "-data")
    n = len(w[2])
    case.check(g[5] in ("slice(0, %d, None)" % n, "slice(None, %d, None)" % n, "slice(None, None, None)"), key + "-whole", g[5])
    case.check(g[6] == w[6], key + "-evaluator")
    case.check(set(w[7]) <= set(g[7]), key + "-functions", "%s instead of %s" % (g[7], w[7]))
    case.check(got[1:3] == want[1:3], key + "-place", "%s instead of %s" % (got[1:3], want[1:3]))
    case.check(got[3] == want[3], key + "-number", "%s instead of %s" % (got[3], want[3]))
    r = got[1]
    case.check(all(0 <= a < b <= n for a, b in r) and all(x[1] <= y[0] for x, y in zip(r, r[1:])), key + "-ranges", "%s of %d" % (r, n))


def written(base):
    d = os.path.dirname(base)
    out = {}
    for f in os.listdir(d):
        if f.startswith(os.path.basename(base) + "_"):
            out[f] = os.path.join(d, f)
    return out


def settings(rng):
    flt = list(FILTERS[int(rng.integers(len(FILTERS)))]) if rng.random() < 0.6 else ["True"]
    if rng.random() < 0.3:
        flt += FILTERS[int(rng.integers(len(FILTERS)))]
    kw = {"filter": flt, "store": bool(rng.random() < 0.8)}
    base = None
    if rng.random() < 0.7:
        import tempfile

        base = os.path.join(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]), *([["new", "trace"], ["trace"]][rng.integers(2)]))
        kw["filebase"] = base
    return kw, flt, base


def audit(case, tracer, watch, kw, base, earlier=0):
    """All that the tracer kept of the last extraction."""
    want = watch.want
    case.check(not watch.wrong, "emitted", "; ".join(watch.wrong[:2]))
    kept = tracer.trace[earlier:]
    case.check(len(kept) == (len(want) if kw["store"] else 0), "kept", "%d kept of %d" % (len(kept), len(want)))
    for t, w in zip(kept, want):
        same(case, record(t), w, "kept")
        case.count("records")
    if base is not None:
        files = written(base)
        names = {"%s_%d" % (os.path.basename(base), i) for i in range(len(want))}
        case.check(names <= set(files) if earlier else names == set(files), "files", "%s instead of %s" % (sorted(files), sorted(names)))
        for i, w in enumerate(want):
            t = log().TracePeaks().read("%s_%d" % (base, i))
            same(case, record(t), w, "read")
            if kw["store"] and i < len(kept):
                a, b = record(t), record(kept[i])
                case.check(a[0][:6] == b[0][:6] and a[1:] == b[1:], "read-back")
            case.count("files")
        if not want and earlier == 0:
            case.count("nothing")


def small(rng):
    return extractions.spec(rng, ext=["PeakExtraction", "PDFPeakExtraction"][int(rng.random() < 0.5)], run=None, npeaks=int(rng.integers(1, 4)), n=int(rng.integers(25, 60)), sep=(0.5, 2.0) if rng.random() < 0.5 else (1.0, 3.0))


def cleanup(base):
    if base is not None:
        import shutil

        d = os.path.dirname(base)
        top = d if os.path.basename(d) != "new" else os.path.dirname(d)
        assert top.startswith(os.environ["VERIF_SCRATCH"] + os.sep)
        shutil.rmtree(top)


def extraction(case):
    rng = case.rng
    s = small(rng)
    plainrun = s.build()
    log().settracer()
    s.do(plainrun)
    case.check(log().tracer.trace == [], "not-asked")
    kw, flt, base = settings(rng)
    try:
        tracer = log().settracer(**kw)
        case.check(log().tracer is tracer, "tracer")
        watch = Watch(flt)
        e = s.build()
        watched(watch, lambda: s.do(e))
        case.check(extractions.result(e) == extractions.result(plainrun), "same-result")
        audit(case, tracer, watch, kw, base)
        case.check(tracer.call == 0 and tracer.recursion == 0, "finished", "%s, %s" % (tracer.call, tracer.recursion))
        case.count("traced")
        case.count("emitted", watch.emitted)
        case.count("several clusters", watch.clusters)
        if max(watch.levels, default=0) > 1:
            case.count("recursion")
        if 0 < len(watch.want) < watch.emitted:
            case.count("filtered")
        if watch.want and kw["store"] or base:
            case.sig([w[0][0] for w in watch.want])
        if s.ext == "PDFPeakExtraction" and s.run == "extract" and kw["store"] and flt == ["True"] and tracer.trace:
            last = tracer.trace[-1]["mc"]
            case.check(plain(last.model) == plain(e.extracted.model) and last.r_data.tolist() == e.extracted.r_data.tolist(), "last-is-result")
        case.note(filter=flt, emitted=watch.emitted, kept=len(watch.want))
        # the records do not follow later changes
        if kw["store"] and tracer.trace:
            keep = [record(t) for t in tracer.trace]
            for p in e.extracted.model:
                p.pars *= 2
                p.free[:] = ~p.free
            case.check([record(t) for t in tracer.trace] == keep, "independent")
        # once more: numbered from zero again
        before = len(tracer.trace)
        watch.reset()
        e = s.build()
        watched(watch, lambda: s.do(e))
        audit(case, tracer, watch, kw, base, before or 1 if not kw["store"] else before)
    finally:
        log().settracer()
        cleanup(base)


def failure(case):
    """An extraction after one that failed."""
    rng = case.rng
    s = small(rng)
    s.run = "extract" if s.ext == "PDFPeakExtraction" else "extract_single"
    bad = small(rng)
    bad.run = "extract" if bad.ext == "PDFPeakExtraction" else "extract_single"
    kw, flt, base = settings(rng)
    kw["store"] = True
    if rng.random() < 0.5:
        kw["filter"] = flt = ["True"]
    try:
        tracer = log().settracer(**kw)
        watch = Watch(flt)
        for _ in range(int(rng.integers(1, 3))):
            e = bad.build()
            how = rng.integers(3)
            if how == 0:
                e.setvars(quiet=True, rng=[e.x[-1] + 1, e.x[-1] + 2], baseline=gen.cls("Polynomial")(-1).actualize([], "internal"))
            elif how == 1:
                e.error_method = Broken(int(rng.integers(1, 30)))
            else:
                e.setvars(quiet=True, pf=[])
            try:
                watched(watch, lambda: bad.do(e))
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception:
                case.count("failed")
        before = len(tracer.trace)
        watch.reset()
        e = s.build()
        watched(watch, lambda: s.do(e))
        kept = [record(t) for t in tracer.trace[before:]]
        want = watch.want
        case.check([k[3] for k in kept] == list(range(len(kept))), "from-zero", "%s" % [k[3] for k in kept])
        # the same as without a failure
        clean = log().settracer(filter=flt, store=True)
        s.do(s.build())
        case.check(kept == [record(t) for t in clean.trace], "as-without-failure", "levels and numbers %s, without %s" % ([k[2:] for k in kept], [record(t)[2:] for t in clean.trace]))
        case.count("after failure")
        if kept:
            case.sig([k[0][0] for k in kept], [k[2:] for k in kept])
        case.note(filter=flt, kept=len(kept))
    finally:
        log().settracer()
        cleanup(base)


class Broken:
    """An evaluator that stops working, as a full disk or an interrupt would."""

    def __init__(self, n):
        self.n = n

    def __call__(self):
        self.n -= 1
        if self.n <= 0:
            raise RuntimeError("injected")
        return gen.cls("AIC")()

    __name__ = "AIC"


def damage(case):
    """Damaged trace files."""
    from diffpy.srmise.srmiseerrors import SrMiseError

    rng = case.rng
    s = extractions.spec(rng, ext="PeakExtraction", npeaks=2, n=12, rngp=0)
    e = s.build()
    e.defaultvars()
    f = s.functions()
    mk = lambda ps, sl: gen.cls("ModelCluster")(gen.cls("Peaks")(ps), e.baseline.copy(), e.x, e.y, e.effective_dy, sl, e.error_method, e.pf)
    peaks = [f[0].actualize([p[0], min(p[1], 0.8 * getattr(f[0], "maxwidth", np.inf)), p[2]], "pwa", gen.mask(rng, 3, 0.3)) for p in s.true]
    a = mk(peaks[:1], slice(0, 5))
    b = mk(peaks[1:], slice(np.int64(6), 12))
    T = log().TracePeaks(filter=["True"])
    for _ in range(int(rng.integers(0, 3))):
        T.pushr()
    tr = T.maketrace(a, b)
    for _ in range(int(rng.integers(0, 3))):
        T.pushr()
    T.counter += int(rng.integers(0, 3))
    text = T.writestr(tr)
    good = log().TracePeaks().readstr(text)
    got, want = record(good), record(tr)
    case.check(got[0][:6] == want[0][:6] and got[1:] == want[1:], "read-back", "%s instead of %s" % (got, want))
    name = os.path.join(os.environ["VERIF_SCRATCH"], "damaged-%s-%d" % (case.index, os.getpid()))
    for _ in range(8):
        lines = text.split("\n")
        k = int(rng.integers(7))
        i = int(rng.integers(len(lines)))
        if k == 0:
            bad = text[: int(rng.integers(len(text)))]
        elif k == 1:
            del lines[i]
            bad = "\n".join(lines)
        elif k == 2:
            lines[i] = ""
            bad = "\n".join(lines)
        elif k == 3:
            j = int(rng.integers(len(text)))
            bad = text[:j] + "@?(["[int(rng.integers(4))] + text[j + 1 :]
        elif k == 4:
            key = ["counter", "recursion", "clusters", "ModelEvaluator", "slice", "peak_funcs"][rng.integers(6)]
            bad = "\n".join(key + "=nonsense(" if ln.startswith(key + "=") else ln for ln in lines)
        elif k == 5:
            bad = ["", "nothing", "### ModelCluster\n", "### Trace\ncounter=0\n"][rng.integers(4)]
        else:
            bad = None
        case.count("damaged")
        try:
            if bad is None:
                with open(name, "wb") as fh:
                    fh.write(bytes(rng.integers(128, 255, 200).astype(np.uint8)))
                log().TracePeaks().read(name)
                case.fail("accepted-binary", "a binary file was read")
            elif rng.random() < 0.5:
                log().TracePeaks().readstr(bad)
            else:
                with open(name, "w") as fh:
                    fh.write(bad)
                log().TracePeaks().read(name)
        except SrMiseError:
            case.count("damaged refused")
        except RecursionError:
            pass
        case.count("monitor:only-package-errors")
    if os.path.exists(name):
        os.unlink(name)
    case.sig(text)


LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}


def logs(case):
    """Messages on the screen and in files, against the levels asked for."""
    rng = case.rng
    L = log()
    logger = logging.getLogger("diffpy.srmise")
    keep = (L.ch.stream, L.ch.level, logger.level, list(logger.handlers), L.fh)
    names = []
    try:
        L.fh = None
        screen = io.StringIO()
        L.ch.setStream(screen)
        logger.setLevel(L.defaultlevel)
        L.ch.setLevel(L.defaultlevel)
        level, files, want = 20, [], []
        if rng.random() < 0.3:
            from diffpy.srmise.srmiseerrors import SrMiseLogError

            case.raises(SrMiseLogError, lambda: L.setfilelevel("info"), "no-file")
        for step in range(int(rng.integers(5, 25))):
            k = rng.random()
            name = list(LEVELS)[int(rng.integers(5))]
            if k < 0.15:
                L.setlevel(name if rng.random() < 0.6 else LEVELS[name])
                level = LEVELS[name]
            elif k < 0.25 and len(files) < 3:
                f = os.path.join(os.environ["VERIF_SCRATCH"], "log-%s-%d-%d" % (case.index, os.getpid(), len(files)))
                names.append(f)
                kw = {} if rng.random() < 0.4 else {"level": name if rng.random() < 0.5 else LEVELS[name]}
                pre = ""
                if rng.random() < 0.3:
                    kw["format"], pre = "%(levelname)s: %(message)s", True
                L.addfilelog(f, **kw)
                files.append([f, LEVELS[name] if "level" in kw else 20, [], pre])
                case.count("log files")
            elif k < 0.35 and files:
                L.setfilelevel(name if rng.random() < 0.6 else LEVELS[name])
                files[-1][1] = LEVELS[name]
            else:
                msg = "message %d of %s" % (step, case.index)
                logger.log(LEVELS[name], "message %d of %s", step, case.index)
                case.count("messages")
                if LEVELS[name] >= level:
                    want.append(msg)
                for f in files:
                    if LEVELS[name] >= f[1]:
                        f[2].append((name.upper() + ": " if f[3] else "") + msg)
        got = screen.getvalue().splitlines()
        case.check(got == want, "screen", "%s instead of %s" % (got, want))
        for f in files:
            got = open(f[0]).read().splitlines()
            case.check(got == f[2], "log-file", "%s instead of %s" % (got, f[2]))
        case.sig(want, [f[2] for f in files])
        # settings of live plots
        for lp, w in ((True, True), (True, False), (False, False)):
            L.liveplotting(lp, w)
            case.check(L.liveplots is lp and L.wait is w, "liveplotting")
        case.raises(ValueError, lambda: L.liveplotting("yes"), "liveplotting-value")
        case.raises(ValueError, lambda: L.liveplotting(True, 1), "liveplotting-value")
    finally:
        L.liveplots = L.wait = False
        for h in list(logger.handlers):
            if h not in keep[3]:
                logger.removeHandler(h)
                h.close()
        L.ch.setStream(keep[0])
        L.ch.setLevel(keep[1])
        logger.setLevel(keep[2])
        L.fh = keep[4]
        for f in names:
            if os.path.exists(f):
                os.unlink(f)
        harness.silence()


GROUPS = {
    "extraction": (96, 800, extraction),
    "failure": (48, 300, failure),
    "damage": (240, 2500, damage),
    "logs": (900, 4000, logs),
}
