"""C03: conversions between parameter formats."""

import numpy as np

from lib import gen

TECHNIQUE = "reference-model oracle for the three formats, and round-trip relations over chains of conversions"
NOTE = "Seeded exploration of parameters up to the limits of width; curves compared on grids."
RULE = """Cases draw a peak function, parameters in one of its formats and a chain of conversions; the oracle is the
definition of each format. Every case is non-trivial; distinguished by function, parameters and chain."""
FORMATS = ["internal", "pwa", "mu_sigma_area"]


def function(rng):
    f, kind, mw = gen.peakfunc(rng)
    base = f
    if rng.random() < 0.3:
        f = gen.cls("TerminationRipples")(base, float(rng.uniform(5, 40)))
        if rng.random() < 0.2:
            f = gen.cls("TerminationRipples")(f, float(rng.uniform(5, 40)))
    return f, kind, mw


def draw(rng, mw):
    pos = float(rng.uniform(-5, 50))
    k = rng.integers(8)
    fwhm = float(mw * [rng.uniform(0.01, 1), rng.uniform(0.2, 0.9), 1.0, 0.999999, 10 ** rng.uniform(-2.5, -1), 0.5, np.sqrt(0.5), rng.uniform(0.9, 1)][k])
    area = float(10 ** rng.uniform(-4, 5))
    return pos, fwhm, area


def express(fmt, mw, pos, fwhm, area):
    if fmt == "internal":
        return [pos, float(gen.ref_angle(mw, min(fwhm, mw))), area]
    if fmt == "pwa":
        return [pos, fwhm, area]
    return [pos, fwhm / gen.S2F, area]


def chain(case):
    rng = case.rng
    f, kind, mw = function(rng)
    pos, fwhm, area = draw(rng, mw)
    fmt = FORMATS[rng.integers(3)]
    pars = np.array(express(fmt, mw, pos, fwhm, area))
    noncanonical = False
    if fmt == "mu_sigma_area" and pars[1] * gen.S2F > mw:
        pars[1] *= 1 - 1e-12
    if fmt == "internal" and rng.random() < 0.6:
        # the same curve, by other internal parameters
        k = int(rng.integers(-3, 4))
        pars[1] = [pars[1] + 2 * np.pi * k, np.pi - pars[1] + 2 * np.pi * k][rng.integers(2)]
        if rng.random() < 0.5:
            pars[2] = -pars[2]
        noncanonical = True
    links = [fmt]
    rtol = 1e-11 + 1e-14 * (mw / fwhm) ** 2
    given = pars.copy()
    cur = pars
    for _ in range(rng.integers(1, 6)):
        out = FORMATS[rng.integers(3)]
        before = np.array(cur)
        new = f.transform_parameters(cur, links[-1], out)
        case.check(np.array_equal(before, cur), "input-untouched", (links, out))
        cur = np.array(new)
        links.append(out)
        if out == "internal":
            case.close(gen.ref_width(mw, cur[1]), fwhm, "width", str(links), rtol=rtol)
            case.check(-np.pi / 2 - 1e-9 <= cur[1] <= np.pi / 2 + 1e-9, "canonical-range", "%s gives %r" % (links, cur.tolist()))
            if 0.02 < fwhm / mw < 0.98:
                case.close(cur[1], gen.ref_angle(mw, fwhm), "canonical-angle", str(links), rtol=1e-7, atol=1e-7)
        else:
            case.close(cur[1], fwhm if out == "pwa" else fwhm / gen.S2F, "width", str(links), rtol=rtol)
        case.close(cur[0], pos, "position", str(links), rtol=0)
        case.close(cur[2], area, "area", str(links), rtol=1e-12)
        case.count("conversions")
    # default formats
    out = np.array(f.transform_parameters(given, fmt, "default_output"))
    case.close(out, [pos, fwhm, area], "default-output", rtol=rtol)
    if fmt == "internal":
        out = np.array(f.transform_parameters(given))
        case.close(out, [pos, fwhm, area], "defaults", rtol=rtol)
        out = np.array(f.transform_parameters(given, "default_input", "pwa"))
        case.close(out, [pos, fwhm, area], "default-input", rtol=rtol)
    if noncanonical:
        out = np.array(f.transform_parameters(given, "internal", "internal"))
        case.close(gen.ref_width(mw, out[1]), fwhm, "canonicalise", rtol=rtol)
        case.check(out[2] >= 0, "canonical-area")
        case.count("noncanonical")
    case.sig(kind, mw, given.tolist(), links)
    case.note(kind=kind, maxwidth=mw, given=given.tolist(), chain=links)


def curve(case):
    """A peak created in any format is the curve which the description says."""
    rng = case.rng
    f, kind, mw = gen.peakfunc(rng)
    pos, fwhm, area = draw(rng, mw)
    pos = abs(pos) + 0.5
    fwhm = min(fwhm, mw * 0.999999)
    x = np.unique(np.abs(pos + fwhm * np.linspace(-2, 2, 41)) + 1e-3)
    want = gen.ref_peak(kind, pos, fwhm, area, x)
    parts = [f.actualize(express(fmt, mw, pos, fwhm, area), fmt) for fmt in FORMATS]
    parts.append(f.actualize(tuple(express("internal", mw, pos, fwhm, area))))
    parts.append(f.actualize(express("pwa", mw, pos, fwhm, area), in_format="default_output"))
    for p in parts:
        case.close(p.value(x), want, "curve", rtol=1e-8 + 1e-12 * (mw / fwhm) ** 2, atol=1e-12 * np.max(want))
        case.close(p["position"], pos, "named-position", rtol=0)
        case.close(p["area"], area, "named-area", rtol=1e-12)
        case.close(gen.ref_width(mw, p["width"]), fwhm, "named-width", rtol=1e-9 + 1e-14 * (mw / fwhm) ** 2)
    # the same after converting a whole model, and back
    m = gen.cls("Peaks")([p.copy() for p in parts])
    m.transform("internal", "pwa")
    for p in m:
        case.close(p.pars, [pos, fwhm, area], "model-conversion", rtol=1e-9 + 1e-14 * (mw / fwhm) ** 2)
    m.transform("pwa", "internal")
    for p in m:
        case.close(p.value(x), want, "model-conversion-back", rtol=1e-8 + 1e-11 * (mw / fwhm) ** 2, atol=1e-12 * np.max(want))
    case.sig(kind, mw, pos, fwhm)
    case.note(kind=kind, pwa=(pos, fwhm, area), maxwidth=mw)


def limits(case):
    rng = case.rng
    from diffpy.srmise.srmiseerrors import SrMiseTransformationError

    f, kind, mw = function(rng)
    pos, fwhm, area = draw(rng, mw)
    big = mw * (1 + 10 ** rng.uniform(-7, 2))
    for fmt in ("pwa", "mu_sigma_area"):
        p = express(fmt, mw, pos, big, area)
        for out in FORMATS:
            if out != fmt:
                case.raises((SrMiseTransformationError,), lambda: f.transform_parameters(p, fmt, out), "too-wide", (fmt, out, big / mw))
        case.raises((SrMiseTransformationError,), lambda: f.actualize(p, fmt), "too-wide-peak", (fmt, big / mw))
    # the limit itself is allowed
    case.close(f.transform_parameters(f.transform_parameters([pos, mw, area], "pwa", "internal"), "internal", "pwa")[1], mw, "at-limit", rtol=1e-12)
    ok = express("internal", mw, pos, min(fwhm, mw), area)
    for bad in ("xyz", "PWA", "", "internal "):
        for a, b in ((bad, "internal"), ("internal", bad), (bad, bad)):
            case.raises((ValueError,), lambda: f.transform_parameters(ok, a, b), "unknown-format", (a, b))
            case.raises((ValueError,), lambda: f.transform_derivatives(ok, a, b), "unknown-format-derivatives", (a, b))
        case.raises((ValueError,), lambda: f.actualize(ok, bad), "unknown-format-peak", bad)
    for n in (0.0, -1.0):
        case.raises((ValueError,), lambda: gen.cls(kind)(n), "maximum-width-positive")
    case.sig(kind, mw, big)
    case.note(kind=kind, maxwidth=mw, width=big)


GROUPS = {"chain": (16000, 80000, chain), "curve": (6000, 30000, curve), "limits": (2000, 10000, limits)}
REQUIRED = {"conversions": 5000, "noncanonical": 300}
