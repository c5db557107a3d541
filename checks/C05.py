"""C05: beam cube headers, file name patterns and the beam factory."""
import itertools
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from core import Group, call, check, raises
from refs import compositions

from astropy.io import fits
from africanus.util.beams import (BeamAxes, axis_and_sign, beam_filenames,
                                  beam_grids)
from africanus.testing.beam_factory import beam_factory

ASSUMPTIONS = ["one axis of each kind per header", "frequency units are Hz"]

CORRS = dict(enumerate(("I", "Q", "U", "V", "RR", "RL", "LR", "LL", "XX",
                        "XY", "YX", "YY"), 1))


def ref_grid(ax):
    """ ax: dict of the keywords of one axis """
    n = ax["NAXIS"]
    irr = [ax["G"].get(j) for j in range(1, n + 1)] if ax["G"] else [None]
    if n and all(v is not None for v in irr):
        g = np.array([float(v) for v in irr])
    else:
        g = np.array([(j - ax["CRPIX"]) * ax.get("CDELT", 1)
                      + ax.get("CRVAL", 0) for j in range(1, n + 1)],
                     dtype=np.float64)
    unit = (ax.get("CUNIT") or "").strip().upper()
    if unit == "DEG":
        g = g * np.pi / 180.0
    return g


def header_of(axes, kind):
    h = {"SIMPLE": True, "NAXIS": len(axes)}
    for i, ax in enumerate(axes, 1):
        for k in ("NAXIS", "CTYPE", "CUNIT", "CRPIX", "CRVAL", "CDELT"):
            if ax.get(k) is not None:
                h["%s%d" % (k, i)] = ax[k]
        for j, v in ax["G"].items():
            if v is not None:
                h["G%s%d" % (ax["CTYPE"].strip(), j)] = v
    if kind == "fits":
        hd = fits.Header()
        for k, v in h.items():
            hd[k] = v
        return hd
    return h


# axis descriptions by a short code: (name, n, unit, crpix, cdelt, crval, irr)
def make_axis(spec):
    name, n, unit, crpix, cdelt, crval, irr = spec
    ax = {"CTYPE": name, "NAXIS": n, "CUNIT": unit, "CRPIX": crpix,
          "CDELT": cdelt, "CRVAL": crval, "G": {}}
    for k in list(ax):
        if ax[k] is None:
            del ax[k]
    if irr:
        base = [3.0 + 1.5 * j + 0.1 * j * j for j in range(1, n + 1)]
        ax["G"] = {j: b for j, b in enumerate(base, 1)}
        if irr == "hole":
            del ax["G"][(n + 1) // 2]
        elif irr == "first":
            del ax["G"][1]
        elif irr == "last":
            del ax["G"][n]
        elif irr == "extra":
            ax["G"][n + 1] = 99.0
        elif irr == "int":
            ax["G"] = {j: 100 * j for j in range(1, n + 1)}
        elif irr == "zero-first":
            ax["G"] = {j: 2.5 * (j - 1) for j in range(1, n + 1)}
        elif irr == "zero-mid":
            ax["G"] = {j: 1.25 * ((n + 1) // 2 - j) ** 3
                       for j in range(1, n + 1)}
        elif irr == "zero-int":
            ax["G"] = {j: j - n for j in range(1, n + 1)}
        elif irr == "zeros":
            ax["G"] = {j: 0.0 for j in range(1, n + 1)}
        elif irr == "negative":
            ax["G"] = {j: -3.0 - j * j for j in range(1, n + 1)}
        elif irr == "huge":
            ax["G"] = {j: 1e9 * j + 1.5e-1 for j in range(1, n + 1)}
    return ax


def headers(p):
    kind, specs, lsel, msel = p
    axes = [make_axis(s) for s in specs]
    hdr = header_of(axes, kind)
    keep = dict(hdr)
    names = [(a.get("CTYPE") or "").strip().upper() for a in axes]
    li = [i for i, n in enumerate(names) if n in ("L", "X", "PX")]
    mi = [i for i, n in enumerate(names) if n in ("M", "Y", "PY")]
    fi = [i for i, n in enumerate(names) if n == "FREQ"]
    what = "beam_grids(%s, %r, %r)" % (dict(hdr), lsel, msel)
    if not (li and mi and fi):
        e = raises(beam_grids, hdr, lsel, msel)
        check(isinstance(e, ValueError), "%s: an axis is missing, got %r",
              what, e)
        # the axes themselves can still be described
        call(BeamAxes, hdr)
        return "missing"
    (l, lg), (m, mg), (f, fg) = call(beam_grids, hdr, lsel, msel)
    check((l, m, f) == (li[0] + 1, mi[0] + 1, fi[0] + 1), "%s: axes %s, "
          "expected %s", what, (l, m, f), (li[0] + 1, mi[0] + 1, fi[0] + 1))
    ls = -1.0 if lsel and lsel.startswith("-") else 1.0
    ms = -1.0 if msel and msel.startswith("-") else 1.0
    for nm, got, want in (("l", lg, ls * ref_grid(axes[li[0]])),
                          ("m", mg, ms * ref_grid(axes[mi[0]])),
                          ("freq", fg, ref_grid(axes[fi[0]]))):
        got = np.asarray(got, dtype=np.float64)
        check(got.shape == want.shape and
              np.allclose(got, want, rtol=1e-12, atol=1e-15),
              "%s: %s grid %s, expected %s", what, nm, got.tolist(),
              want.tolist())
    ba = call(BeamAxes, hdr)
    check(ba.ndims == len(axes), "%s: ndims %s", what, ba.ndims)
    for i, a in enumerate(axes):
        check(np.allclose(np.asarray(ba.grid[i], np.float64), ref_grid(a),
                          rtol=1e-12, atol=1e-15),
              "%s: grid of axis %d is %s, expected %s", what, i,
              np.asarray(ba.grid[i]).tolist(), ref_grid(a).tolist())
        check(ba.naxis[i] == a["NAXIS"], "%s: naxis", what)
        check(np.isclose(ba.crpix[i], a["CRPIX"] - 1), "%s: crpix", what)
        deg = (a.get("CUNIT") or "").strip().upper() == "DEG"
        fac = np.pi / 180 if deg else 1.0
        check(np.isclose(ba.cdelt[i], fac * a.get("CDELT", 1)) and
              np.isclose(ba.crval[i], fac * a.get("CRVAL", 0)),
              "%s: axis %d: cdelt/crval %s %s", what, i, ba.cdelt[i],
              ba.crval[i])
        u = (a.get("CUNIT") or "").strip().upper()
        check(ba.cunit[i] == ("RAD" if deg else u), "%s: unit of axis %d is "
              "%r", what, i, ba.cunit[i])
    check(dict(hdr) == keep, "%s: the header was modified", what)
    return (l, m, f)


L0 = ("L", 3, "DEG", 2, 0.5, 0.25, None)
M0 = ("M", 4, "RAD", 1, -0.3, 0.1, None)
F0 = ("FREQ", 2, "HZ", 1, 1e6, 1.4e9, None)
S0 = ("STOKES", 1, None, 1, 1, -5, None)
N0 = (None, 2, None, 1, None, None, None)


def header_cases(big):
    out = []
    # every order and subset of axes
    pool = [L0, M0, F0, S0, N0]
    for k in range(0, 6):
        for t in itertools.permutations(pool, k):
            for kind in ("dict", "fits"):
                out.append((kind, t, None, None))
    # every spelling of the axis names and every sign request
    for ln, mn in itertools.product(("L", "X", "PX", "l", "x  ", "L      "),
                                    ("M", "Y", "PY", "m", " Y", "py")):
        for lsel, msel in itertools.product(
                (None, "L", "-L", "X", "-X", ""),
                (None, "M", "-M", "Y", "-Y", "")):
            out.append(("dict", ((ln,) + L0[1:], (mn,) + M0[1:], F0), lsel,
                        msel))
    # every unit x reference pixel x increment x value, per axis
    units = (None, "DEG", "deg", "Deg ", "RAD", "")
    pix = (1, 2, 2.5, 0, -3, 7)
    dl = (None, 1, -1, 0.25, -2e-3, 0)
    vl = (None, 0, 1.5, -7.25)
    sizes = (0, 1, 2, 5) if big else (1, 3)
    for u, x, d, v, n in itertools.product(units, pix, dl, vl, sizes):
        for which in (0, 1):
            a = [list(L0), list(M0), list(F0)]
            a[which][1:6] = [n, u, x, d, v]
            out.append(("dict", tuple(tuple(z) for z in a),
                        "-X" if which == 0 else None,
                        "-M" if which == 1 else None))
        if u in (None, "RAD"):
            a = list(F0)
            a[1:6] = [n, "HZ" if u else None, x, d, v]
            out.append(("dict", (tuple(a), L0, M0), None, None))
    # irregular grids on each axis
    for irr in ("all", "hole", "first", "last", "extra", "int", "zero-first",
                "zero-mid", "zero-int", "zeros", "negative", "huge"):
        for n in (1, 2, 3, 7):
            for u in (None, "DEG", "HZ", "rad"):
                for which in (0, 1, 2):
                    a = [list(L0), list(M0), list(F0)]
                    a[which][1], a[which][6] = n, irr
                    a[which][2] = u
                    for perm in itertools.permutations(range(3)):
                        for kind in ("dict", "fits"):
                            out.append((kind, tuple(tuple(a[q])
                                                    for q in perm),
                                        None, "-M"))
        # more than one irregular axis
        a = [L0[:6] + (irr,), M0[:6] + ("all",), F0[:6] + (irr,)]
        out.append(("dict", tuple(a), "-L", None))
    return list(dict.fromkeys(out))


def signs(p):
    s, d = p
    if s is None or s == "":
        if d is None:
            check(isinstance(raises(axis_and_sign, s, d), ValueError),
                  "axis_and_sign(%r) accepted", s)
            return "err"
        check(call(axis_and_sign, s, d) == (d, 1.0), "axis_and_sign(%r, %r)",
              s, d)
        return "default"
    if not isinstance(s, str):
        check(isinstance(raises(axis_and_sign, s, d), TypeError),
              "axis_and_sign(%r) accepted", s)
        return "type"
    want = (s[1:], -1.0) if s.startswith("-") else (s, 1.0)
    got = call(axis_and_sign, s, d)
    check(tuple(got) == want, "axis_and_sign(%r, %r) is %r", s, d, got)
    return want[1]


# --- filename patterns ------------------------------------------------------
ID0 = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ID1 = ID0 + "0123456789"


def ref_expand(pattern, corr, ri):
    """ None when the pattern is malformed """
    env = {"corr": corr.lower(), "CORR": corr.upper(), "reim": ri.lower(),
           "REIM": ri.upper()}
    out, i = [], 0
    while i < len(pattern):
        c = pattern[i]
        if c != "$":
            out.append(c)
            i += 1
            continue
        rest = pattern[i + 1:]
        if rest.startswith("$"):
            out.append("$")
            i += 2
            continue
        brace = rest.startswith("(")
        body = rest[1:] if brace else rest
        n = 0
        while n < len(body) and body[n] in (ID1 if n else ID0):
            n += 1
        if n == 0:
            return None
        if brace and not body[n:].startswith(")"):
            return None
        if body[:n] not in env:
            return None
        out.append(env[body[:n]])
        i += 1 + n + (2 if brace else 0)
    return "".join(out)


TOK = ("a", "_", "$(corr)", "$(CORR)", "$(reim)", "$(REIM)", "$corr",
       "$REIM", "$$", "$(bad)", "$", "$(", ".fits", "$(Corr)")
LISTS = ([9, 10, 11, 12], [5, 6, 7, 8], [12, 9], [1, 2, 3, 4], [10], [],
         [8, 9, 1])


def names(p):
    toks, which = p
    pattern = "".join(toks)
    corrs = LISTS[which]
    want = [(CORRS[c].lower(), [ref_expand(pattern, CORRS[c], "re"),
                                ref_expand(pattern, CORRS[c], "im")])
            for c in corrs]
    what = "beam_filenames(%r, %s)" % (pattern, corrs)
    bad = any(x is None for _, pair in want for x in pair)
    if bad:
        e = raises(beam_filenames, pattern, corrs)
        check(isinstance(e, ValueError), "%s: malformed pattern, got %r",
              what, e)
        return "err"
    got = call(beam_filenames, pattern, corrs)
    check([(k, list(v)) for k, v in got.items()] == want, "%s: %s, expected "
          "%s", what, list(got.items()), want)
    return len(want)


def corr_lists(p):
    lst = list(p)
    pattern = "b_$(corr)_$(REIM)"
    bad = [c for c in lst if c not in CORRS and not (0 <= c <= 32)]
    if bad:
        e = raises(beam_filenames, pattern, lst)
        check(isinstance(e, ValueError), "beam_filenames with unknown code "
              "%s: %r", bad, e)
        return "err"
    got = call(beam_filenames, pattern, lst)
    want = [(CORRS[c].lower(), ["b_%s_RE" % CORRS[c].lower(),
                                "b_%s_IM" % CORRS[c].lower()]) for c in lst]
    check([(k, list(v)) for k, v in got.items()] == want,
          "beam_filenames(%s): %s", lst, got)
    return len(lst)


# --- factory ----------------------------------------------------------------
def factory(p):
    pol, npix, dt, freqs, schema, aspath, twice = p
    tmp = tempfile.mkdtemp(prefix="verif-c05-")
    try:
        full = os.path.join(tmp, schema)
        arg = Path(full) if aspath else full
        f = None if freqs is None else np.array(freqs, dtype=np.float64)
        dtype = getattr(np, dt)
        for k in range(2 if twice else 1):
            np.random.seed(3 + k)
            files = call(beam_factory, polarisation_type=pol, frequency=f,
                         npix=npix, dtype=dtype, schema=arg)
        ids = [9, 10, 11, 12] if pol == "linear" else [5, 6, 7, 8]
        want = [(CORRS[c].lower(), [ref_expand(full, CORRS[c], "re"),
                                    ref_expand(full, CORRS[c], "im")])
                for c in ids]
        check([(k, list(v)) for k, v in files.items()] == want,
              "beam_factory(%s) wrote %s, expected %s", pol, files, want)
        flat = sorted(x for _, pair in want for x in pair)
        have = sorted(os.path.join(tmp, x) for x in os.listdir(tmp))
        check(have == flat, "files on disk %s, expected %s", have, flat)
        ext = np.deg2rad(np.linspace(-1.5, 1.5, npix))
        f0, f1 = (0.856e9, 2 * 0.856e9) if f is None else (f[0], f[-1])
        for fn in flat:
            with fits.open(fn) as hl:
                hdr, data = hl[0].header, hl[0].data
                (l, lg), (m, mg), (q, fg) = call(beam_grids, hdr)
                check(np.allclose(lg, ext, atol=1e-12) and
                      np.allclose(mg, ext, atol=1e-12),
                      "grids of %s are %s", fn, np.asarray(lg).tolist())
                check(np.isclose(fg[0], f0, rtol=1e-12) and
                      np.isclose(fg[-1], f1, rtol=1e-12) and
                      np.all(np.diff(np.asarray(fg, float)) >= 0),
                      "frequency grid %s does not span %s..%s", fg, f0, f1)
                nf = len(fg)
                check(data.shape[::-1] == (npix, npix, nf) and
                      (l, m, q) == (1, 2, 3), "cube shape %s", data.shape)
                r = np.hypot(ext[:, None], ext[None, :])
                fq = np.asarray(fg, float)[:, None, None]
                beam = np.cos(np.minimum(65 * fq * 1e-9 * r, 1.0881)) ** 3
                check(np.allclose(data, beam, atol=1e-6), "beam values")
    finally:
        shutil.rmtree(tmp)
    return pol, npix


def factory_header(p):
    """ what the factory promises beyond the explicit grids """
    what, pol, dt = p
    tmp = tempfile.mkdtemp(prefix="verif-c05-")
    try:
        files = call(beam_factory, polarisation_type=pol,
                     frequency=np.array([1e9, 2e9]), npix=3,
                     dtype=getattr(np, dt),
                     schema=os.path.join(tmp, "b_$(corr)_$(reim).fits"))
        for fn in sum((list(v) for v in files.values()), []):
            with fits.open(fn) as hl:
                hdr, data = hl[0].header, hl[0].data
                if what == "axis":
                    end = (hdr["CRVAL3"] + (hdr["NAXIS3"] - hdr["CRPIX3"]) *
                           hdr["CDELT3"])
                    check(np.isclose(end, 2e9, rtol=1e-9), "regular "
                          "frequency axis ends at %s, band ends at 2e9", end)
                else:
                    check(data.dtype.newbyteorder("=") == np.dtype(dt),
                          "beam of type %s, asked for %s",
                          data.dtype.newbyteorder("="), dt)
    finally:
        shutil.rmtree(tmp)
    return what


def factory_errors(p):
    pol, npix = p
    tmp = tempfile.mkdtemp(prefix="verif-c05-")
    try:
        sch = os.path.join(tmp, "b_$(corr)_$(reim).fits")
        e = raises(beam_factory, polarisation_type=pol, npix=npix, schema=sch)
        ok = pol in ("linear", "circular") and npix % 2 == 1
        check((e is None) == ok, "beam_factory(%r, npix=%d): %r", pol, npix,
              e)
        check(ok or isinstance(e, ValueError), "beam_factory(%r, %d): %r",
              pol, npix, e)
        check(ok or not os.listdir(tmp), "files written despite the error")
    finally:
        shutil.rmtree(tmp)
    return ok


def groups(tier):
    big = tier == "thorough"
    pats = [(t, w) for k in range(0, 5 if big else 4)
            for t in itertools.product(TOK, repeat=k)
            for w in (range(len(LISTS)) if k < 3 else (0, 6))]
    lists = [t for k in range(0, 4) for t in
             itertools.permutations((1, 4, 5, 8, 9, 12, 33, -1, 100), k)]
    fac = [(pol, n, dt, f, s, ap, tw)
           for pol in ("linear", "circular") for n in (3, 5, 9, 33)
           for dt in ("float32", "float64")
           for f in (None, (1e9, 2e9), (1e9, 1.2e9, 1.3e9, 1.9e9))
           for s in ("b_$(corr)_$(reim).fits", "$(CORR)-$(REIM).fits")
           for ap in (False, True) for tw in (False, True)]
    return [
        Group("headers", header_cases(big), headers,
              "axis orders and subsets, names, signs, units, reference "
              "pixels, increments, regular and irregular grids",
              "<= 5 axes of <= 7 pixels"),
        Group("signs", [(s, d) for s in (None, "", "L", "-L", "X", "-", "--L",
                                         "-PX", 5, 1.0, ["L"])
                        for d in (None, "L", "M")],
              signs, "axis strings", "listed"),
        Group("patterns", pats, names,
              "all patterns of up to 3/4 tokens", "14 tokens"),
        Group("correlations", lists, corr_lists,
              "ordered lists of codes", "<= 3 of 9 codes"),
        Group("factory", fac, factory, "beams written and read back",
              "listed"),
        Group("factory-header", [(w, pol, dt) for w in ("axis", "dtype")
                                 for pol in ("linear", "circular")
                                 for dt in ("float32", "float64")],
              factory_header, "regular axis and type", "listed"),
        Group("factory-errors", [(a, b) for a in ("linear", "circular",
                                                  "Linear", "", "stokes")
                                 for b in (2, 3, 4, 257, 10)],
              factory_errors, "bad requests", "listed"),
    ]
