"""Runner of the monitors: seeded cases on a pool of processes, verdicts, evidence."""

import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Inconclusive(BaseException):
    """The case cannot decide anything (not a violation)."""


class CaseTimeout(BaseException):
    """The case used more processor time than it may."""


class Case:
    """One generated execution, and what its monitors observed."""

    def __init__(self, prop, tier, seed, group, index):
        import numpy as np

        self.prop, self.tier, self.seed, self.group, self.index = prop, tier, seed, group, index
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(group.encode()), index])
        self.failures = []
        self.counts = collections.Counter()
        self.sigs = set()
        self.notes = {}

    # ---- verdicts
    def fail(self, key, msg, **data):
        if len(self.failures) < 5:
            self.failures.append({"key": key, "msg": str(msg)[:2000], "data": {k: repr(v)[:1500] for k, v in data.items()}})

    def check(self, cond, key, msg="", **data):
        """Count one evaluation of a monitor, and record its violation."""
        self.counts["monitor:" + key] += 1
        if not cond:
            self.fail(key, msg or key, **data)
        return bool(cond)

    def close(self, a, b, key, msg="", rtol=1e-9, atol=0.0, **data):
        import numpy as np

        self.counts["monitor:" + key] += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            self.fail(key, "%s: shapes %s and %s" % (msg or key, a.shape, b.shape), got=a, expected=b, **data)
            return False
        if a.size == 0:
            return True
        ok = (np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b)
        if not np.all(ok):
            i = int(np.argmax(np.where(ok, -1.0, np.nan_to_num(np.abs(a - b), nan=np.inf)).ravel()))
            self.fail(
                key, "%s: element %d is %r, expected %r" % (msg or key, i, float(a.ravel()[i]), float(b.ravel()[i])),
                got=a, expected=b, **data)
            return False
        return True

    def raises(self, exc, f, key, msg="", **data):
        """f must raise one of exc, and nothing else."""
        self.counts["monitor:" + key] += 1
        try:
            r = f()
        except exc as e:
            return e
        except Exception as e:
            self.fail(key, "%s: raised %s: %s" % (msg or key, type(e).__name__, e), trace=traceback.format_exc()[-800:], **data)
            return None
        self.fail(key, "%s: returned %r without an error" % (msg or key, r), **data)
        return None

    # ---- observations
    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *what):
        """Identify this case as non-trivial, by what distinguishes it."""
        self.sigs.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])

    def note(self, **kw):
        self.notes.update({k: repr(v)[:300] for k, v in kw.items()})


def _load(prop):
    import importlib

    return importlib.import_module("checks." + prop)


def setup_paths():
    for p in (VERIF, SRC):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/pycache"


def verify_import():
    import diffpy.srmise

    f = os.path.realpath(diffpy.srmise.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError("diffpy.srmise was imported from %s, not from %s" % (f, SRC))


def silence():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    from diffpy.srmise import srmiselog  # noqa: F401

    logging.getLogger("diffpy.srmise").setLevel(100)


_mod = None
_args = None


def _init(prop, tier, seed, quiet):
    global _mod, _args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if quiet:
        fd = os.open("/dev/null", os.O_RDWR)
        for i in (0, 1, 2):
            os.dup2(fd, i)
    silence()
    _mod = _load(prop)
    _args = (prop, tier, seed)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, prop, tier, seed, group, index):
    case = Case(prop, tier, seed, group, index)
    func = mod.GROUPS[group][2]
    budget = getattr(mod, "CPU_BUDGET", {}).get(group, 120)
    status = "ok"
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, budget)
    try:
        func(case)
    except Inconclusive as e:
        status = "inconclusive"
        case.notes["inconclusive"] = str(e)
    except CaseTimeout:
        if group in getattr(mod, "TERMINATES", ()):
            case.fail("termination", "not finished after %s s of processor time" % budget, trace=traceback.format_exc()[-1500:])
        else:
            status = "timeout"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "harness"
        for fr in tb:
            if "/diffpy/srmise/" in fr.filename:
                where = os.path.basename(fr.filename)[:-3] + "." + fr.name
        case.fail("exception:%s:%s" % (type(e).__name__, where), "%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return case, status


def _work(tasks):
    out = []
    for group, index in tasks:
        case, status = run_case(_mod, *_args, group, index)
        out.append((group, index, status, case.failures, dict(case.counts), case.sigs, case.notes))
    return out


def read_known(prop):
    known = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                known.append((key.split("=", 1)[1], text))
    return known


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case", help="GROUP:INDEX, run only this one, in the foreground")
    ap.add_argument("--group", help="run only these groups (comma separated)")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    setup_paths()
    import tempfile

    tmp = tempfile.mkdtemp(prefix="srmise-verif-")
    os.environ["VERIF_SCRATCH"] = tmp
    os.environ["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    os.mkdir(os.environ["MPLCONFIGDIR"])
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    try:
        os.chdir(tmp)
        return _main(a, t0)
    finally:
        os.chdir("/")
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def _main(a, t0):
    verify_import()
    mod = _load(a.prop)
    known = read_known(a.prop)
    if a.replay or a.case:
        if a.replay:
            r = json.load(open(a.replay))
            a.tier, a.seed, group, index = r["tier"], r["seed"], r["group"], r["index"]
        else:
            group, _, index = a.case.partition(":")
            index = int(index)
        silence()
        case, status = run_case(mod, a.prop, a.tier, a.seed, group, index)
        for f in case.failures:
            print(f["key"], "-", f["msg"])
            for k, v in f["data"].items():
                print("   %s: %s" % (k, v.replace("\\n", "\n") if k == "trace" else v))
        print(status, dict(case.counts), case.notes)
        return 1 if case.failures else 0

    tasks = []
    col = 0 if a.tier == "quick" else 1
    deadline = t0 + (getattr(mod, "DEADLINE", {}).get(a.tier) or (600 if a.tier == "quick" else 5400))
    groups = a.group.split(",") if a.group else list(mod.GROUPS)
    chunks = getattr(mod, "CHUNK", {})
    per = []
    for g in groups:
        n = max(1, int(mod.GROUPS[g][col] * a.scale))
        c = chunks.get(g, max(1, min(10, n // 40)))
        per.append([[(g, j) for j in range(i, min(n, i + c))] for i in range(0, n, c)])
    # interleave the groups evenly
    order = sorted(((k + 0.5) / len(p), gi, k) for gi, p in enumerate(per) for k in range(len(p)))
    tasks = [per[gi][k] for _, gi, k in order]

    import concurrent.futures as cf
    import multiprocessing as mp

    totals = collections.Counter()
    sigs = set()
    statuses = collections.Counter()
    bygroup = collections.Counter()
    failures = []
    samples = {}
    err = None
    skipped = 0
    sys.stdout.flush()
    ex = cf.ProcessPoolExecutor(a.jobs, mp_context=mp.get_context("fork"), initializer=_init, initargs=(a.prop, a.tier, a.seed, True))
    try:
        it = iter(tasks)
        pending = set()
        stop = False
        while True:
            while not stop and len(pending) < 3 * a.jobs:
                t = next(it, None)
                if t is None:
                    break
                pending.add(ex.submit(_work, t))
            if not pending:
                break
            done, pending = cf.wait(pending, timeout=max(1.0, deadline + 60 - time.time()), return_when=cf.FIRST_COMPLETED)
            if not done:
                err = "no case finished before the deadline"
                break
            for d in done:
                for group, index, status, fails, counts, s, notes in d.result():
                    statuses[status] += 1
                    bygroup[group] += 1
                    totals.update(counts)
                    sigs |= {group + s1 for s1 in s}
                    if fails:
                        failures.append((group, index, fails))
                    if len(samples.setdefault(group, [])) < 2 and notes:
                        samples[group].append(dict(notes, group=group, index=index))
            if len(failures) >= 20 or time.time() > deadline:
                stop = True
                skipped = 1
    except cf.process.BrokenProcessPool:
        err = "a worker process died"
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=err is None, cancel_futures=True)
        if err is not None:
            for p in procs:
                p.kill()

    # ---- verdict
    knownkeys = {k: t for k, t in known}
    new, seen_known = [], set()
    for group, index, fails in failures:
        fresh = [f for f in fails if f["key"] not in knownkeys]
        seen_known |= {f["key"] for f in fails if f["key"] in knownkeys}
        if fresh:
            new.append((group, index, fresh))
    for k, t in known:
        print("KNOWN-FINDING: property=%s %s: %s%s" % (a.prop, k, t, "" if k in seen_known else " (not met in this run)"))
    missing = []
    if not a.group:
        for name, least in getattr(mod, "REQUIRED", {}).items():
            least = least * a.scale if a.scale < 1 else least
            if totals[name] < least:
                missing.append("%s=%d (need %d)" % (name, totals[name], least))
        for g in groups:
            if bygroup[g] == 0:
                missing.append("group %s not run" % g)
    if not a.no_evidence:
        write_evidence(a, mod, t0, totals, sigs, statuses, bygroup, new, samples)
    rc = 0
    if new:
        new.sort(key=lambda x: (x[0], x[1]))
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        group, index, fails = new[0]
        path = os.path.join(rdir, "%s-%s-%s-%d.json" % (a.prop, a.tier, group, index))
        json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "group": group, "index": index, "failures": fails,
                   "others": [[g, i, f[0]["key"], f[0]["msg"][:300]] for g, i, f in new[1:]]}, open(path, "w"), indent=1)
        keys = collections.Counter((g, f["key"]) for g, i, fs in new for f in fs)
        for (g, k), n in keys.most_common(10):
            ex1 = next(f for g2, i, fs in new for f in fs if g2 == g and f["key"] == k)
            print("  %s/%s x%d: %s" % (g, k, n, ex1["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        rc = 1
    elif err or missing:
        print("INCONCLUSIVE property=%s: %s" % (a.prop, err or "; ".join(missing)))
        rc = 2
    print("%s %s seed=%d: %d cases (%s), %d distinct non-trivial, %d monitor evaluations, %.1f s%s" % (
        a.prop, a.tier, a.seed, sum(statuses.values()), ", ".join("%s %d" % kv for kv in statuses.items()), len(sigs),
        sum(v for k, v in totals.items() if k.startswith("monitor:")), time.time() - t0, " (stopped early)" if skipped else ""))
    return rc


def write_evidence(a, mod, t0, totals, sigs, statuses, bygroup, new, samples):
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(statuses.values()),
            "distinct_nontrivial": len(sigs),
            "rule": " ".join(mod.RULE.split()),
            "samples": [s for g in samples for s in samples[g]][:24] or ["no sample"],
            "cases_by_group": dict(bygroup),
            "case_outcomes": dict(statuses),
            "monitor_evaluations": {k[8:]: v for k, v in sorted(totals.items()) if k.startswith("monitor:")},
            "observed": {k: int(v) for k, v in sorted(totals.items()) if not k.startswith("monitor:")},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, a.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
