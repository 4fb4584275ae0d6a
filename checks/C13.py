"""C13: PDF files."""

import os

import numpy as np

from lib import extractions, gen

TECHNIQUE = "files composed from known rows and metadata are read back and compared with what they were composed of, with round trips and injected faults"
NOTE = "Seeded exploration of headers, number formats, columns, encodings and line ends, and of damaged files."
RULE = """Cases compose PDF text from rows and metadata in various layouts, or damage it. Non-trivial: every text; distinguished by it."""
REQUIRED = {"read": 300, "written and read": 100, "rejected": 500, "uncertainties": 50, "metadata": 200, "loaded into an extraction": 50}


def fmt(rng, v):
    """A number as text, and the number that it then is."""
    t = [lambda: "%r" % float(v), lambda: "%g" % v, lambda: "%.4f" % v, lambda: "%e" % v, lambda: "%+.6g" % v, lambda: "%.3E" % v][rng.integers(6)]()
    if rng.random() < 0.05 and t.startswith("0."):
        t = t[1:]
    return t, float(t)


def compose(rng):
    """(text, what it says)."""
    n = int(rng.integers(1, 40))
    want = {"robs": [], "Gobs": [], "drobs": [], "dGobs": []}
    ncol = int(rng.integers(2, 6))
    r = rng.uniform(0.01, 2) + np.cumsum(rng.uniform(0.01, 0.2, n))
    positive = [bool(rng.random() < 0.8), bool(rng.random() < 0.8)]
    rows = []
    bad = [int(rng.integers(n)), int(rng.integers(n))]
    pm = "." if rng.random() < 0.9 else ""
    for i in range(n):
        vals = [r[i], rng.normal() * 10 ** rng.uniform(-3, 3), 10 ** rng.uniform(-3, 0), 10 ** rng.uniform(-3, 0), rng.normal()]
        texts = []
        for j in range(ncol):
            t, v = fmt(rng, vals[j])
            if j in (2, 3) and v == 0:
                t, v = "0.5", 0.5
            if j in (2, 3) and not positive[j - 2] and i == bad[j - 2]:
                t = ["0", "-1.5", "nan", "NaN", "inf", "0.0", "-Inf"][rng.integers(7)]
                v = None
            texts.append(t)
            if j < 4:
                want[["robs", "Gobs", "drobs", "dGobs"][j]].append(v)
        rows.append(([" ", "  ", "\t", " \t "][rng.integers(4)]).join(texts))
        if rng.random() < 0.1:
            rows[-1] = ("  " if i else "") + rows[-1] + "  "
    for k in ("drobs", "dGobs"):
        if len(want[k]) < n or any(v is None for v in want[k]):
            want[k] = [0.0] * n
    # header
    head = []
    want.update(stype="X", qmax=0.0, qdamp=0.001, qbroad=0.0, dscale=1.0, spdiameter=None, metadata={})
    u = rng.random()
    if u < 0.3:
        head.append(["stype=N  neutron scattering", "# PDFgetN output", "Neutron data", "mode = neutron"][rng.integers(4)])
        want["stype"] = "N"
    elif u < 0.6:
        head.append(["stype=X  x-ray scattering", "# PDFgetX3", "mode = xray", "X-Ray"][rng.integers(4)])
    eq = lambda: ["=", " = ", "= "][rng.integers(3)]
    for key, names, lo, hi in (("qmax", ["qmax", "Qmax", "QMAX"], 10, 40), ("qdamp", ["qdamp", "Qdamp", "qsig"], 0.001, 0.1), ("qbroad", ["qbroad", "qalp"], 0.001, 0.1),
                               ("dscale", ["dscale"], 0.5, 2), ("spdiameter", ["spdiameter"], 10, 80)):
        if rng.random() < 0.5:
            t, v = fmt(rng, rng.uniform(lo, hi) * (1e-2 if rng.random() < 0.1 else 1))
            head.append(["", "# ", "## "][rng.integers(3)] + names[rng.integers(len(names))] + eq() + t)
            want[key] = v
    for key, names, lo, hi in (("temperature", ["temp", "temperature", "T"], 2, 900), ("doping", ["x", "doping"], 0, 1)):
        if rng.random() < 0.5:
            t, v = fmt(rng, rng.uniform(lo, hi) * (-1 if rng.random() < 0.3 else 1))
            head.append(["", "# "][rng.integers(2)] + names[rng.integers(len(names))] + eq() + t)
            want["metadata"][key] = v
    for _ in range(rng.integers(0, 4)):
        head.append(["", "# a comment", "History written: Mon Jan 1", "produced by someone", "inputfile: some.chi", "rpoly = 0.9", "#", "composition = Ni"][rng.integers(8)])
    head = [head[i] for i in rng.permutation(len(head))]
    if rng.random() < 0.3:
        head.append("# metadata")
        for i in range(rng.integers(1, 4)):
            t, v = fmt(rng, rng.normal() * 100)
            k = "%s_%d" % (["pressure", "field", "run"][rng.integers(3)], i)
            head.append(k + eq() + t)
            want["metadata"][k] = v
    u = rng.random()
    if u < 0.7:
        head.append(["##### start data", "#### start data", "# start data"][rng.integers(3)])
        for _ in range(rng.integers(0, 3)):
            head.append(["#L r(A) G(r) d_r d_Gr", "#S 1", "# more"][rng.integers(3)])
    text = "\n".join(head + rows)
    if rng.random() < 0.7:
        text += "\n" * int(rng.integers(1, 3))
    if rng.random() < 0.15:
        text = text.replace("\n", "\r\n")
    return text, want


def same(case, d, want, key):
    for k in ("robs", "Gobs", "drobs", "dGobs"):
        got = [float(v) for v in getattr(d, k)]
        case.check(got == want[k], "%s:%s" % (key, k), "%s are %s, expected %s" % (k, got[:8], want[k][:8]))
    for k in ("stype", "qmax", "qdamp", "qbroad", "dscale", "spdiameter"):
        case.check(getattr(d, k) == want[k], "%s:%s" % (key, k), "%s is %r, expected %r" % (k, getattr(d, k), want[k]))
    case.check(dict(d.metadata) == want["metadata"], key + ":metadata", "%s, expected %s" % (d.metadata, want["metadata"]))
    case.check(d.rmin == want["robs"][0] and d.rmax == want["robs"][-1], key + ":limits")


def scratch(name):
    return os.path.join(os.environ["VERIF_SCRATCH"], "c13-%d-%s" % (os.getpid(), name))


def reading(case):
    rng = case.rng
    text, want = compose(rng)
    d = gen.cls("PDFDataSet")("a")
    if rng.random() < 0.3:
        d.readStr(compose(rng)[0])  # nothing of the previous contents may stay
    if rng.random() < 0.5:
        path = scratch(["a.gr", "a b.gr", "\u00e9.gr", "x"][rng.integers(4)])
        extra = ""
        if rng.random() < 0.2:
            extra = "# \u00c5ngstr\u00f6m \u4e2d\n"
        with open(path, "wb") as f:
            f.write((extra + text).encode("utf-8"))
        out = d.read(path)
        os.remove(path)
        case.check(d.filename == os.path.abspath(path), "filename", d.filename)
    else:
        out = d.readStr(text)
    case.check(out is d, "returns-self")
    same(case, d, want, "read")
    case.count("read")
    case.sig(text)
    case.note(text=text)
    if any(want["dGobs"]) or any(want["drobs"]):
        case.count("uncertainties")
    if want["metadata"]:
        case.count("metadata")
    # extraction from it
    if len(want["robs"]) > 4:
        e = gen.cls("PDFPeakExtraction")()
        src = d
        if rng.random() < 0.5:
            path = scratch("b.gr")
            with open(path, "w", newline="") as f:
                f.write(text)
            e.loadpdf(path)
            os.remove(path)
            case.check(e.filename == os.path.abspath(path), "extraction-filename", e.filename)
        else:
            e.loadpdf(src)
        ok = all(np.array_equal(np.asarray(getattr(e, a), float), want[b]) for a, b in (("x", "robs"), ("y", "Gobs"), ("dx", "drobs"), ("dy", "dGobs")))
        case.check(ok and e.qmax_reportedbypdf == want["qmax"], "loaded", "%s %s" % (e.x, e.qmax_reportedbypdf))
        case.count("loaded into an extraction")
    # round trip
    d2 = gen.cls("PDFDataSet")("b")
    if rng.random() < 0.5:
        path = scratch("c.gr")
        d.write(path)
        d2.read(path)
        os.remove(path)
    else:
        d2.readStr(d.writeStr())
    g = lambda v: float("%g" % v)
    back = {k: [g(v) for v in want[k]] for k in ("robs", "Gobs", "drobs", "dGobs")}
    for k in ("drobs", "dGobs"):
        if not all(v > 0 for v in back[k]):
            back[k] = [0.0] * len(back[k])
    back.update(stype=want["stype"], qmax=float("%.2f" % want["qmax"]), qdamp=g(want["qdamp"]), qbroad=g(want["qbroad"]), dscale=g(want["dscale"]), spdiameter=d2.spdiameter, metadata=want["metadata"])
    same(case, d2, back, "written")
    case.count("written and read")
    same(case, d, dict(want), "unchanged")


def variables(case):
    from diffpy.srmise.srmiseerrors import SrMisePDFKeyError

    rng = case.rng
    d = gen.cls("PDFDataSet")("a")
    text, want = compose(rng)
    d.readStr(text)
    known = ["qdamp", "qbroad", "dscale"]
    for _ in range(4):
        k = known[rng.integers(3)]
        v = float(rng.normal())
        d.setvar([k, " " + k, k + " "][rng.integers(3)], [v, str(v), np.float64(v)][rng.integers(3)])
        want[k] = v
        case.check(d.getvar(k) == v, "variable", "%s is %r" % (k, d.getvar(k)))
    same(case, d, want, "variables")
    for k in ("robs", "stype", "qmax", "Qdamp", "", "clear", "metadata", "x", "rmin"):
        before = dict(vars(d))
        case.raises(SrMisePDFKeyError, lambda: d.setvar(k, 1.0), "unknown-set", k)
        case.raises(SrMisePDFKeyError, lambda: d.getvar(k), "unknown-get", k)
        case.check(dict(vars(d)) == before, "unknown-changes-nothing")
    case.raises(ValueError, lambda: d.setvar("qdamp", "abc"), "not-a-number")
    same(case, d, want, "variables")
    c = d.copy()
    want["spdiameter"] = c.spdiameter
    same(case, c, want, "copy")
    k = "extra_key"
    c.metadata[k] = 1.0
    c.setvar("qdamp", 17.0)
    case.check(k not in d.metadata and d.getvar("qdamp") == want["qdamp"], "copy-independent")
    c.readStr(compose(rng)[0])
    want["spdiameter"] = d.spdiameter
    same(case, d, want, "copy-independent")
    case.sig(text)


def damaged(case):
    from diffpy.srmise.pdfdataset import PDFDataFormatError
    from diffpy.srmise.srmiseerrors import SrMiseFileError

    rng = case.rng
    text, want = compose(rng)
    lines = text.split("\n")
    first = next(i for i, l in enumerate(lines) if l.split()[:1] and isnum(l.split()[0]))
    n = len(want["robs"])
    i = first + int(rng.integers(n))
    row = lines[i].split()
    hopeless = []
    for new in ([row[0]] if i > first or "start data" in text else None, [row[0], "abc"] + row[2:], ["abc"] + row[1:] if i > first or "start data" in text else None,
                [row[0], "1.2.3"] + row[2:], ["--"] if i > first else None, [row[0], "1,5"], [row[0] + "x"] + row[1:] if i > first or "start data" in text else None):
        if new is None:
            continue
        hopeless.append("\n".join(lines[:i] + [" ".join(new)] + lines[i + 1:]))
    if i > first:
        hopeless.append("\n".join(lines[:i] + ["# a comment among the data"] + lines[i:]))
    hopeless += ["", "\n\n", "no data", "\n".join(lines[:first]), "# only\n# comments\n", "##### start data\n#L x\n", "qmax=20\n##### start data\n", "a b c\nd e f\n"]
    for t in hopeless:
        d = gen.cls("PDFDataSet")("a")
        e = case.raises(PDFDataFormatError, lambda: d.readStr(t), "malformed-text", repr(t[-200:]))
        path = scratch("bad.gr")
        with open(path, "wb") as f:
            f.write(t.encode())
        e = case.raises(SrMiseFileError, lambda: d.read(path), "malformed-file", repr(t[-200:]))
        case.check(e is None or "bad.gr" in str(e), "message", e)
        case.raises(SrMiseFileError, lambda: gen.cls("PDFPeakExtraction")().loadpdf(path), "malformed-load", repr(t[-200:]))
        os.remove(path)
        case.count("rejected", 3)
        case.sig(t)
    # not text
    for _ in range(3):
        junk = bytes(rng.integers(0, 256, int(rng.integers(1, 300)), dtype=np.uint8))
        if rng.random() < 0.5:
            junk = text.encode("utf-16")
        path = scratch("junk")
        with open(path, "wb") as f:
            f.write(junk)
        try:
            gen.cls("PDFDataSet")("a").read(path)
        except SrMiseFileError:
            case.count("rejected")
        os.remove(path)


def isnum(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


GROUPS = {
    "reading": (2400, 20000, reading),
    "variables": (400, 3000, variables),
    "damaged": (600, 4000, damaged),
}
