"""C11: saved extractions."""

import os

import numpy as np

from lib import extractions, gen

TECHNIQUE = "round-trip monitors comparing the whole state of real extractions before saving and after loading, and fault injection into saved text"
NOTE = "Seeded exploration of extractions in all stages (empty, data only, set up, extracted, fitted) and of truncated, mutated and reordered saved text."
RULE = """Cases draw an extraction in some stage, save it to a string or file and load it, or damage the saved text. Non-trivial:
every saved state with data and every damaged text; distinguished by its text."""
REQUIRED = {"with result": 20, "unset": 20, "damaged text rejected": 200, "files": 10, "two functions": 5, "initial peaks": 10, "again the same result": 5}
CHUNK = {"extracted": 1}


def state(e):
    """The whole state by value."""
    d = {}
    for k in ("x", "y", "dx", "dy", "effective_dy"):
        v = getattr(e, k)
        d[k] = None if v is None else [float(t) for t in v]
    d["cres"] = None if e.cres is None else float(e.cres)
    d["pf"] = None if e.pf is None else [extractions.describe(f) for f in e.pf]
    b = e.baseline
    d["baseline"] = None if b is None else ("part", extractions.plain([b])) if hasattr(b, "owner") else ("function", extractions.describe(b))
    d["error_method"] = None if e.error_method is None else e.error_method.__name__
    d["initial_peaks"] = None if e.initial_peaks is None else extractions.plain(e.initial_peaks)
    d["rng"] = None if e.rng is None else [None if v is None else float(v) for v in e.rng]
    d["extraction_type"] = e.extraction_type
    x = e.extracted
    if x is None:
        d["extracted"] = None
    else:
        d["extracted"] = (extractions.plain(x.model), None if x.baseline is None else extractions.plain([x.baseline]), [float(v) for v in x.r_data],
                          [float(v) for v in x.y_data], [float(v) for v in x.y_error], x.slice.indices(len(x.r_data)), x.error_method.__name__,
                          [extractions.describe(f) for f in x.peak_funcs])
    if type(e).__name__ == "PDFPeakExtraction":
        for k in ("filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample"):
            v = getattr(e, k)
            d[k] = v if v is None or isinstance(v, (str, bool, np.bool_)) else float(v)
    return d


def compare(case, a, b, key):
    case.check(a.keys() == b.keys(), key)
    for k in a:
        case.check(a[k] == b[k], key + ":" + k, "%s: %r became %r" % (k, a[k], b[k]))


def roundtrip(case, e, used=None):
    rng = case.rng
    before = state(e)
    text = e.writestr()
    compare(case, before, state(e), "saving-changes-nothing")
    e2 = type(e)() if used is None else used
    if rng.random() < 0.4:
        path = os.path.join(os.environ["VERIF_SCRATCH"], "c11-%d-%s.srmise" % (os.getpid(), ["plain", "sp ace", "\u00e9\u00df", "q'uo\"te"][rng.integers(4)]))
        e.write(path)
        e2.read(path)
        os.remove(path)
        case.count("files")
    else:
        e2.readstr(text)
    after = state(e2)
    compare(case, before, after, "restored")
    for x in ("x", "y", "dx", "dy", "effective_dy"):
        v = getattr(e2, x)
        case.check(v is None or isinstance(v, np.ndarray), "array:" + x, type(v))
    if e.extracted is not None:
        case.count("with result")
        g = np.linspace(e.extracted.r_data[0], e.extracted.r_data[-1], 50)
        case.check(np.array_equal(e.extracted.value(g), e2.extracted.value(g)), "same-values")
        case.check(e.extracted.quality().stat == e2.extracted.quality().stat, "same-quality")
    # functions that were one are one, so that they can be told apart and together
    fs = lambda t: (list(t.pf or []) + [p.owner() for p in (t.initial_peaks if t.initial_peaks is not None else [])]
                    + ([p.owner() for p in t.extracted.model] + list(t.extracted.peak_funcs) if t.extracted is not None else []))
    same = lambda l: [[a is b for a in l] for b in l]
    case.check(same(fs(e)) == same(fs(e2)), "function-identity")
    if before["pf"] and len(before["pf"]) > 1:
        case.count("two functions")
    if before["initial_peaks"]:
        case.count("initial peaks", len(before["initial_peaks"]))
    if any(before[k] is None for k in ("pf", "cres", "baseline", "error_method", "initial_peaks", "rng", "effective_dy", "x")):
        case.count("unset")
    text2 = e2.writestr()
    chains = len(set(fs(e)) - {f.base for f in fs(e)})
    if chains <= 1:
        case.check(text.split("\n", 1)[1] == text2.split("\n", 1)[1], "same-text", "%s\n%s" % (text[:600], text2[:600]))
        case.count("text compared")
    e3 = type(e)()
    e3.readstr(text2)
    compare(case, before, state(e3), "restored-again")
    if before["x"]:
        case.sig(text.split("\n", 1)[1])
    case.note(text=text[:250], stage=case.group)
    return e2


def hostile_numbers(rng, s):
    """Values that are hard to print."""
    n = len(s.x)
    k = rng.integers(0, n, 5)
    s.y[k] = [1e-300, -1e300, 1.0 / 3.0, -0.0, 5e-324]
    s.dx = np.abs(rng.normal(size=n)) * 10.0 ** rng.integers(-20, 20)


def partial(case):
    """Extractions in which some or all variables were never set."""
    rng = case.rng
    s = extractions.spec(rng, initial=0.6, twopf=0.4)
    if rng.random() < 0.3:
        hostile_numbers(rng, s)
    e = gen.cls(s.ext)()
    kw = s.settings()
    if rng.random() < 0.9:
        e.setdata(s.x, s.y, s.dx, s.dy)
    if rng.random() < 0.2:
        kw["baseline"] = gen.cls(["NanoSpherical"][0])() if rng.random() < 0.5 else gen.cls("Polynomial")(int(rng.integers(-1, 3)))
    if "initial_peaks" in kw and rng.random() < 0.3:  # many of them, and not in order
        more = list(kw["initial_peaks"]) * int(rng.integers(1, 5))
        kw["initial_peaks"] = gen.cls("Peaks")([more[i].copy() for i in rng.permutation(len(more))])
    for k in list(kw):
        if rng.random() < 0.5:
            del kw[k]
    if rng.random() < 0.1:
        kw["cres"] = 0.0
    if np.isscalar(kw.get("effective_dy", np.zeros(1))):
        kw["effective_dy"] = kw["effective_dy"] * np.ones(len(s.x))
    if "effective_dy" in kw and e.x is None:
        del kw["effective_dy"]
    for k, v in kw.items():
        setattr(e, k, v)
    used = None
    if rng.random() < 0.4:
        t = extractions.spec(rng, ext=s.ext)
        used = t.build()
    roundtrip(case, e, used)


def setup(case):
    """Extractions that were set up, and perhaps had peaks estimated."""
    rng = case.rng
    s = extractions.spec(rng, initial=0.6, twopf=0.4)
    if rng.random() < 0.1:
        hostile_numbers(rng, s)
        s.vars["effective_dy"] = 1.0
    e = s.build()
    roundtrip(case, e)


def extracted(case):
    """Extractions with a result: loading and doing it again gives the same."""
    rng = case.rng
    s = extractions.spec(rng, twopf=0.4, npeaks=int(rng.integers(1, 3)))
    e = s.build()
    s.do(e)
    e2 = roundtrip(case, e)
    if rng.random() < 0.5:
        what = s.run
        s.do(e, what)
        s.do(e2, what)
        case.check(extractions.result(e) == extractions.result(e2), "again", "%s\n%s" % (extractions.result(e)[:3], extractions.result(e2)[:3]))
        case.count("again the same result")


def pdf(case):
    """Extractions of PDF files, with their names and metadata."""
    rng = case.rng
    s = extractions.spec(rng, ext="PDFPeakExtraction", initial=0.3)
    name = "c11 %d %s.gr" % (os.getpid(), ["a", "b c", "\u00e9\u00df\u4e2d", "q'uo\"te", "per%cent", "ha#sh", "back\\slash", "filename=x", "eq\\n"][rng.integers(9)])
    path = os.path.join(os.environ["VERIF_SCRATCH"], name)
    head = ["", "qmax=%g\n" % rng.uniform(15, 30), "# qmax = %g\n" % rng.uniform(15, 30)][rng.integers(3)]
    cols = [s.x, s.y]
    if rng.random() < 0.5:
        cols += [np.zeros(len(s.x)), np.full(len(s.x), s.noise + 1e-3)]
    with open(path, "w") as f:
        f.write("# generated\n%s##### start data\n#L r G\n" % head + "".join(" ".join("%r" % float(c[i]) for c in cols) + "\n" for i in range(len(s.x))))
    e = gen.cls("PDFPeakExtraction")()
    e.loadpdf(path)
    os.remove(path)
    case.check(e.filename == os.path.abspath(path), "filename", e.filename)
    if rng.random() < 0.7:
        kw = s.settings()
        for k in list(kw):
            if rng.random() < 0.3:
                del kw[k]
        e.setvars(quiet=True, **kw)
    roundtrip(case, e)


ALPHABET = list("0123456789.-+# =ABCxyzdNone[](),'\n\t:") + ["nan", "inf", "None", "###", "##### Results\n", "\u00e9", "\x00"]


def damage(case):
    """Text that is truncated or damaged is either understood or rejected with the package's error."""
    from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError

    rng = case.rng
    s = extractions.spec(rng, npeaks=1, n=int(rng.integers(12, 40)), twopf=0.3)
    e = s.build()
    stage = rng.random()
    if stage < 0.3:
        s.do(e)
    elif stage < 0.6:
        mc = gen.cls("ModelCluster")(s.makeinitial(e.pf), e.baseline, e.x, e.y, e.effective_dy, None, e.error_method, e.pf)
        e.extracted, e.extraction_type = mc, "fit"
    text = e.writestr()
    sections = [i for i in range(len(text)) if text.startswith("\n#", i)]
    for _ in range(40):
        t = text
        how = int(rng.integers(9))
        if how == 0:
            t = t[: int(rng.integers(0, len(t) - 2))]
        elif how == 1:
            i = sections[int(rng.integers(len(sections)))]
            t = t[: i + int(rng.integers(0, 30))]
        elif how == 2:
            for _ in range(rng.integers(1, 6)):
                i = int(rng.integers(len(t)))
                t = t[:i] + ALPHABET[rng.integers(len(ALPHABET))] + t[i + int(rng.integers(0, 2)):]
        elif how == 3:
            lines = t.split("\n")
            for _ in range(rng.integers(1, 4)):
                del lines[int(rng.integers(len(lines)))]
            t = "\n".join(lines)
        elif how == 4:
            lines = t.split("\n")
            i, j = rng.integers(0, len(lines), 2)
            lines[i], lines[j] = lines[j], lines[i]
            t = "\n".join(lines)
        elif how == 5:
            i, j = sorted(rng.integers(0, len(t), 2))
            t = t[:i] + t[j:]
        elif how == 6:
            i = sections[int(rng.integers(len(sections)))]
            j = text.find("\n", i + 1)
            t = t[:i] + t[j:]
        elif how == 7:
            lines = t.split("\n")
            k = [i for i, l in enumerate(lines) if "=" in l]
            i = int(rng.choice(k))
            v = ["", "None", "[]", "[0]", "[7]", "-1", "1.5", "'a'", "x", "(", "Gaussian", "True", "'Peak'", "nan", "[None]", "{}"][rng.integers(16)]
            lines[i] = lines[i].split("=")[0] + "=" + v
            t = "\n".join(lines)
        else:
            t = ["", "None", "hello", "##### Results", "##### start data\n#L x y\n1 2\n", "\n" * 5, "#" * 40, text[::-1], text.replace("=", ":"), text.upper(), "\x00\x01\x02", text.replace("#", "")][rng.integers(12)]
        if t == text:
            continue
        new = type(e)()
        infile = rng.random() < 0.3
        try:
            if infile:
                path = os.path.join(os.environ["VERIF_SCRATCH"], "c11d-%d" % os.getpid())
                with open(path, "wb") as f:
                    f.write(t.encode() if rng.random() < 0.9 else t.encode("utf-16"))
                new.read(path)
            else:
                new.readstr(t)
        except (SrMiseFileError if infile else SrMiseDataFormatError) as err:
            case.count("damaged text rejected")
            case.check(True, "rejected-cleanly")
            case.check(len(str(err)) > 0, "message")
        except Exception as err:
            case.fail("rejected-cleanly", "%s: %s from damage %d in a %s" % (type(err).__name__, err, how, "file" if infile else "string"), text=t[:1500])
        else:
            case.count("damaged text understood")
            if how == 8:
                case.fail("not-a-saved-extraction", "understood %r" % t[:100])
        case.sig(t)
    # the wrong kind
    if type(e).__name__ == "PeakExtraction":
        case.raises(SrMiseDataFormatError, lambda: gen.cls("PDFPeakExtraction")().readstr(text), "wrong-kind")


GROUPS = {
    "partial": (480, 4000, partial),
    "setup": (300, 2000, setup),
    "extracted": (120, 600, extracted),
    "pdf": (144, 1000, pdf),
    "damage": (192, 1500, damage),
}
