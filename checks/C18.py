"""C18: direct transforms and sky coordinates."""
import itertools
import math

import numpy as np
import dask.array as da

from core import Group, call, check, raises, schedule, state
from refs import (CPLX, LAYOUTS, compositions, cut, generic, poke, pokes,
                  relayout, rungs)
import dsched
from africanus.dft import im_to_vis, vis_to_im
from africanus.dft.dask import im_to_vis as dim_to_vis, \
    vis_to_im as dvis_to_im
from africanus.coordinates import (radec_to_lmn, radec_to_lm, lmn_to_radec,
                                   lm_to_radec)
from africanus.coordinates import dask as cd
from africanus.coordinates.coordinates import astropy_radec_to_lmn

ASSUMPTIONS = ["sources above the horizon of the phase centre (n > 0)",
               "coordinate-component axes are single chunks"]
LIGHT = 2.99792458e8
FL = ("f4", "f8")


def fourier(uvw, lm, freq, sign):
    """ -> (row, source, chan) """
    uvw, lm, freq = (np.asarray(x, "f8") for x in (uvw, lm, freq))
    n = np.sqrt(1 - (lm ** 2).sum(1)) - 1
    path = (uvw[:, None, 0] * lm[None, :, 0] + uvw[:, None, 1] *
            lm[None, :, 1] + uvw[:, None, 2] * n[None])
    return np.exp(sign * 2j * np.pi * path[:, :, None] * freq / LIGHT)


def problem(nrow, nsrc, nchan, dt="f8"):
    return (generic((nrow, 3), dt, 1, -9, 9),
            generic((nsrc, 2), dt, 2, -.6, .6),
            np.linspace(1e8, 1.7e8, nchan).astype(dt))


def im_ref(image, uvw, lm, freq, sign):
    k = fourier(uvw, lm, freq, sign)
    return np.einsum("rsf,sfc->rfc", k, image.astype("c16"))


def vis_ref(vis, uvw, lm, freq, flags, sign):
    k = fourier(uvw, lm, freq, -sign)
    bad = np.any(flags != 0, axis=2)
    v = np.where(bad[:, :, None], 0, vis.astype("c16"))
    return np.einsum("rsf,rfc->sfc", k, v).real


def close(got, want, tol, what):
    check(got.shape == want.shape, "shape %s, expected %s (%s)", got.shape,
          want.shape, what)
    e = np.abs(got - want).max() if want.size else 0
    check(e <= tol * max(1, np.abs(want).max() if want.size else 1),
          "off by %s (%s): %s, expected %s", e, what, got.ravel()[:6],
          want.ravel()[:6])


def sgn(conv):
    return 1 if conv == "casa" else -1


def kwconv(conv):
    return {} if conv == "default" else {"convention": conv}


def basis(p):
    """ the full operators, column by column """
    nrow, nsrc, nchan, ncorr, conv = p
    uvw, lm, freq = problem(nrow, nsrc, nchan)
    kw = kwconv(conv)
    flags = np.zeros((nrow, nchan, ncorr), bool)
    fwd = np.zeros((nrow, nchan, ncorr, nsrc, nchan, ncorr), "c16")
    for i in np.ndindex(nsrc, nchan, ncorr):
        im = np.zeros((nsrc, nchan, ncorr))
        im[i] = 1
        got = call(im_to_vis, im, uvw, lm, freq, **kw)
        close(got, im_ref(im, uvw, lm, freq, sgn(conv)), 1e-12,
              "unit image %s of %s" % (i, p))
        fwd[(Ellipsis,) + i] = got
    for i in np.ndindex(nrow, nchan, ncorr):
        for z in (1, 1j):
            v = np.zeros((nrow, nchan, ncorr), "c16")
            v[i] = z
            got = call(vis_to_im, v, uvw, lm, freq, flags, **kw)
            close(got, vis_ref(v, uvw, lm, freq, flags, sgn(conv)), 1e-12,
                  "unit visibility %s %s of %s" % (i, z, p))
            # Re <F x, v> == <x, A v> for the unit images x
            adj = (fwd[i].conj() * z).real
            close(got, adj, 1e-12, "adjoint of %s" % (p,))
            state()
    return (nrow, nsrc, nchan, ncorr)


def flagged(p):
    """ every flag pattern """
    nrow, nchan, ncorr, lo, hi, dt = p
    uvw, lm, freq = problem(nrow, 2, nchan)
    vis = generic((nrow, nchan, ncorr), "c16", 5)
    n = nrow * nchan * ncorr
    for mask in range(lo, hi):
        fl = np.array([mask >> i & 1 for i in range(n)], dt).reshape(
            nrow, nchan, ncorr)
        keep = fl.copy()
        got = call(vis_to_im, vis, uvw, lm, freq, fl)
        close(got, vis_ref(vis, uvw, lm, freq, fl, -1), 1e-12,
              "flags %s" % fl.astype(int).tolist())
        check(np.array_equal(fl, keep), "flags were modified")
        # anything may lie under a flag
        bad = vis.copy()
        bad[fl.astype(bool).any(axis=2)] = np.nan
        check(np.array_equal(call(vis_to_im, bad, uvw, lm, freq, fl), got),
              "flagged data are used, flags %s", fl.astype(int).tolist())
        state()
    return hi - lo


def arrays(kind):
    uvw, lm, freq = problem(2, 2, 2)
    x = generic((2, 2, 2), kind[1:], 6)
    return {kind[0]: x, "uvw": uvw, "lm": lm, "freq": freq}


def specials(kind):
    a = arrays(kind)
    return [(kind,) + c for c in pokes(a, other={
        "lm": (0.0, -0.0, .6, -.6, 1e-9, .7), "freq": (0.0, 1.0, 1e8, 1.7e8),
        "v": CPLX + (float("nan"), float("inf"))
        if kind[1] == "c" else None, "i": None})]


def values(p):
    """ special values in one element or in all of an argument """
    kind, name, i, val = p
    a = poke(arrays(kind), (name, i, val))
    for conv in ("fourier", "casa"):
        what = "%s with %s[%s]=%s, %s" % (kind, name, i, val, conv)
        if kind[0] == "i":
            want = im_ref(a["i"], a["uvw"], a["lm"], a["freq"], sgn(conv))
            got = call(im_to_vis, a["i"], a["uvw"], a["lm"], a["freq"],
                       convention=conv)
            close(got, want, 1e-11, what)
            continue
        fl = np.zeros(a["v"].shape, bool)
        if val != val or abs(val) == float("inf"):
            # bad data are flagged
            fl[~np.isfinite(a["v"])] = True
        want = vis_ref(a["v"], a["uvw"], a["lm"], a["freq"], fl, sgn(conv))
        got = call(vis_to_im, a["v"], a["uvw"], a["lm"], a["freq"], fl,
                   convention=conv)
        close(got, want, 1e-11, what)
    state()
    return kind


def types(p):
    """ precisions and memory layouts """
    what, dts, layout, conv, out = p
    uvw, lm, freq = (a.astype(d) for a, d in zip(problem(3, 2, 2), dts[1:]))
    if what == "im":
        x = generic((2, 2, 2), dts[0], 7)
        x.flat[3] = 0
        args = [x, uvw, lm, freq]
        fn = im_to_vis
        want = im_ref(x, uvw, lm, freq, sgn(conv))
        odt = np.result_type(np.complex64, *dts)
    else:
        x = generic((3, 2, 2), dts[0], 7)
        fl = np.zeros(x.shape, bool)
        fl[1, 0, 1] = True
        args = [x, uvw, lm, freq, fl]
        fn = vis_to_im
        want = vis_ref(x, uvw, lm, freq, fl, sgn(conv))
        odt = np.result_type(np.zeros(0, dts[0]).real.dtype, *dts[1:])
    if out:
        odt = np.dtype(out)
    a = [relayout(v, layout) for v in args]
    kw = kwconv(conv)
    if out:
        kw["dtype"] = np.dtype(out).type
    got = call(fn, *a, **kw)
    check(got.dtype == odt, "type %s, expected %s (%s)", got.dtype, odt, p)
    low = odt.itemsize < (16 if odt.kind == "c" else 8) or any(
        d in ("f4", "c8") for d in dts)
    close(got, want, 1e-12 if not low else 1e-4, "%s" % (p,))
    for v, w in zip(a, args):
        check(np.array_equal(v, w), "an argument was modified (%s)", p)
    return str(odt)


def im_chunks(p):
    rc, cc, kc, conv, out = p
    nrow, nchan, ncorr = sum(rc), sum(cc), sum(kc)
    uvw, lm, freq = problem(nrow, 3, nchan)
    im = generic((3, nchan, ncorr), "f8", 4)
    kw = kwconv(conv)
    if out:
        kw["dtype"] = np.dtype(out).type
    v = call(dim_to_vis, da.from_array(im, chunks=((3,), cc, kc)),
             da.from_array(uvw, chunks=(rc, (3,))),
             da.from_array(lm, chunks=((3,), (2,))),
             da.from_array(freq, chunks=(cc,)), **kw)
    odt = np.dtype(out or "c16")
    check(v.chunks == (rc, cc, kc) and v.dtype == odt, "declares %s %s (%s)",
          v.chunks, v.dtype, p)
    want = im_ref(im, uvw, lm, freq, sgn(conv))
    for order in ("first", "last"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        check(got.dtype == odt, "is %s (%s)", got.dtype, p)
        close(got, want, 1e-12 if odt == "c16" else 1e-5, "%s" % (p,))
    return got.shape


def vis_chunks(p):
    sc, rc, cc, kc, conv, out = p
    nrow, nchan, ncorr = sum(rc), sum(cc), sum(kc)
    uvw, lm, freq = problem(nrow, sum(sc), nchan)
    vis = generic((nrow, nchan, ncorr), "c16", 4)
    fl = np.zeros(vis.shape, bool)
    fl[0, 0, 0] = fl[-1, -1, -1] = True
    kw = kwconv(conv)
    if out:
        kw["dtype"] = np.dtype(out).type
    v = call(dvis_to_im, da.from_array(vis, chunks=(rc, cc, kc)),
             da.from_array(uvw, chunks=(rc, (3,))),
             da.from_array(lm, chunks=(sc, (2,))),
             da.from_array(freq, chunks=(cc,)),
             da.from_array(fl, chunks=(rc, cc, kc)), **kw)
    odt = np.dtype(out or "f8")
    check(v.chunks == (sc, cc, kc) and v.dtype == odt, "declares %s %s (%s)",
          v.chunks, v.dtype, p)
    want = vis_ref(vis, uvw, lm, freq, fl, sgn(conv))
    for order in ("first", "last"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        check(got.dtype == odt, "is %s (%s)", got.dtype, p)
        close(got, want, 1e-12 if odt == "f8" else 1e-5, "%s" % (p,))
    return got.shape


def ladder(p):
    """ larger problems, one dimension at a time, in memory and chunked """
    kind, d = p
    if kind == "sky":
        for k in (1, 2, 3):
            for name in ("radec_to_lmn", "radec_to_lm", "lmn_to_radec",
                         "lm_to_radec"):
                sky_chunks((name, cut(d[0], k), True, "f8"))
        state()
        return kind
    src, row, chan, corr = d
    uvw, lm, freq = problem(row, src, chan)
    im = generic((src, chan, corr), "f8", 4)
    vis = generic((row, chan, corr), "c16", 5)
    fl = generic(vis.shape, "f8", 6) > .8
    for conv in ("fourier", "casa"):
        close(call(im_to_vis, im, uvw, lm, freq, convention=conv),
              im_ref(im, uvw, lm, freq, sgn(conv)), 1e-12, "im %s" % (d,))
        close(call(vis_to_im, vis, uvw, lm, freq, fl, convention=conv),
              vis_ref(vis, uvw, lm, freq, fl, sgn(conv)), 1e-12,
              "vis %s" % (d,))
    for k in (1, 2, 3):
        s, r, c, q = (cut(n, k) for n in d)
        im_chunks((r, c, q, "casa", None))
        vis_chunks((s, r, c, q, "casa", None))
    state()
    return kind


def rejected(p):
    kind, = p
    uvw, lm, freq = problem(4, 4, 4)
    im = np.ones((4, 4, 2))
    vis = np.ones((4, 4, 2), complex)
    fl = np.zeros((4, 4, 2), bool)
    c4, s4 = (4,), (2, 2)

    def arr(x, *ch):
        return da.from_array(x, chunks=ch + tuple(
            (s,) for s in x.shape[len(ch):]))
    I = dict(image=arr(im), uvw=arr(uvw), lm=arr(lm), frequency=arr(freq))
    V = dict(vis=arr(vis), uvw=arr(uvw), lm=arr(lm), frequency=arr(freq),
             flags=arr(fl))
    if kind == "im-lm":
        I["lm"] = arr(lm, s4)
    elif kind == "im-image":
        I["image"] = arr(im, s4)
    elif kind == "im-both":
        I["image"], I["lm"] = arr(im, s4), arr(lm, s4)
    elif kind == "im-freq":
        I["frequency"] = arr(freq, s4)
    elif kind == "vis-uvw":
        V["uvw"] = arr(uvw, s4)
    elif kind == "vis-freq":
        V["frequency"] = arr(freq, s4)
    elif kind == "vis-flags":
        V["flags"] = arr(fl, s4)
    elif kind == "vis-flags-chan":
        V["flags"] = arr(fl, c4, s4)
    elif kind == "vis-flags-corr":
        V["flags"] = arr(fl, c4, c4, (1, 1))
    elif kind == "im-fewer":
        I["image"] = arr(im[:3])
    elif kind == "im-more":
        I["lm"] = arr(lm[:3])
    elif kind == "im-convention":
        e = raises(im_to_vis, im, uvw, lm, freq, convention="x")
        check(isinstance(e, ValueError), "%s gives %r", kind, e)
        return 1
    elif kind == "vis-convention":
        e = raises(vis_to_im, vis, uvw, lm, freq, fl, convention="x")
        check(isinstance(e, ValueError), "%s gives %r", kind, e)
        return 1
    fn, kw = (dim_to_vis, I) if kind.startswith("im") else (dvis_to_im, V)
    e = raises(fn, **kw)
    check(isinstance(e, ValueError), "%s gives %r", kind, e)
    return 1


# --- coordinates ------------------------------------------------------------
def unit(ra, dec):
    return np.array([math.cos(dec) * math.cos(ra), math.cos(dec) *
                     math.sin(ra), math.sin(dec)])


def lmn_ref(ra, dec, ra0, dec0):
    """ projections on the east, north and centre directions """
    x = unit(ra, dec)
    east = np.array([-math.sin(ra0), math.cos(ra0), 0])
    north = np.array([-math.sin(dec0) * math.cos(ra0), -math.sin(dec0) *
                      math.sin(ra0), math.cos(dec0)])
    return np.array([x @ east, x @ north, x @ unit(ra0, dec0)])


def sky(p):
    """ one phase centre against every source of a grid """
    ra0, dec0, dt, layout, n_ra, n_dec = p
    ras = [2 * math.pi * i / n_ra - math.pi for i in range(n_ra)] + [
        ra0, 7.1, -8.3]
    decs = [math.pi * i / n_dec - math.pi / 2 for i in range(n_dec + 1)] + [
        dec0, dec0 + 1e-6]
    radec = np.array([(a, d) for a in ras for d in decs
                      if abs(d) <= math.pi / 2 and
                      lmn_ref(a, d, ra0, dec0)[2] > 1e-3], dt)
    pc = np.array([ra0, dec0], dt)
    keep = radec.copy(), pc.copy()
    r, c = relayout(radec, layout), relayout(pc, layout)
    tol = 1e-9 if dt == "f8" else 2e-3
    want = np.array([lmn_ref(float(a), float(d), float(pc[0]), float(pc[1]))
                     for a, d in radec])
    lmn = call(radec_to_lmn, r, c)
    lm = call(radec_to_lm, r, c)
    what = "phase centre %s %s" % ((ra0, dec0), layout)
    check(lmn.dtype == radec.dtype and lm.dtype == radec.dtype, "types %s "
          "%s of %s", lmn.dtype, lm.dtype, dt)
    close(lmn[:, :2], want[:, :2], 1e-14 if dt == "f8" else 1e-6,
          "lmn, " + what)
    close(lmn[:, 2], want[:, 2], 1e-9 if dt == "f8" else 1e-3, "n, " + what)
    check(np.array_equal(lm, lmn[:, :2]), "lm and lmn differ (%s)", what)
    for name, back in (("lmn", call(lmn_to_radec, relayout(lmn, layout), c)),
                       ("lm", call(lm_to_radec, relayout(lm, layout), c))):
        check(back.shape == radec.shape and back.dtype == radec.dtype,
              "%s %s (%s)", back.shape, back.dtype, what)
        for (a, d), (b, e), w in zip(radec, back, want):
            check(math.isfinite(b) and math.isfinite(e), "(%s, %s) comes "
                  "back as (%s, %s) via %s (%s)", a, d, b, e, name, what)
            dist = np.linalg.norm(unit(float(a), float(d)) -
                                  unit(float(b), float(e)))
            # the declination is an arc sine: accuracy of a square root of
            # the rounding next to the poles, and 1/n near the horizon
            check(dist <= (tol if dt == "f4" else 1e-7) / max(w[2], 1e-2),
                  "(%s, %s) comes back as (%s, %s) via %s (%s)", a, d, b, e,
                  name, what)
    check(np.array_equal(radec, keep[0]) and np.array_equal(pc, keep[1]) and
          np.array_equal(r, radec), "an argument was modified (%s)", what)
    if dec0 == 0 and ra0 == 0:
        for fn, x in ((radec_to_lmn, radec), (radec_to_lm, radec),
                      (lmn_to_radec, lmn), (lm_to_radec, lm)):
            check(np.array_equal(call(fn, x), call(fn, x, pc)),
                  "the default phase centre is not the origin")
    state(len(radec))
    return len(radec)


def astro(p):
    ra0, dec0 = p
    from astropy.coordinates import SkyCoord
    from astropy import units as u
    radec = np.array([(ra0 + a, dec0 + d) for a in (-.4, 0, .3)
                      for d in (-.2, 0, .15)
                      if abs(dec0 + d) <= math.pi / 2])
    got = call(astropy_radec_to_lmn,
               SkyCoord(radec[:, 0], radec[:, 1], unit=u.rad),
               SkyCoord(ra0, dec0, unit=u.rad))
    want = np.array([lmn_ref(a, d, ra0, dec0) for a, d in radec])
    close(got, want, 1e-9, "astropy %s" % (p,))
    return len(radec)


def sky_chunks(p):
    name, sc, with_pc, dt = p
    n = sum(sc)
    radec = generic((n, 2), dt, 3, -.6, .9)
    pc = np.array([.2, -.4], dt)
    np_fn = {"radec_to_lmn": radec_to_lmn, "radec_to_lm": radec_to_lm,
             "lmn_to_radec": lmn_to_radec, "lm_to_radec": lm_to_radec}[name]
    x = radec
    if name == "lmn_to_radec":
        x = radec_to_lmn(radec, pc)
    elif name == "lm_to_radec":
        x = radec_to_lm(radec, pc)
    args = (pc,) if with_pc else ()
    want = np_fn(x, *args)
    v = call(getattr(cd, name), da.from_array(x, chunks=(
        sc, (x.shape[1],))), *[da.from_array(a, chunks=2) for a in args])
    check(v.chunks == (sc, (want.shape[1],)) and v.dtype == want.dtype,
          "%s declares %s %s", p, v.chunks, v.dtype)
    for order in ("first", "last"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        check(got.dtype == want.dtype and np.array_equal(got, want),
              "chunked %s differs", p)
    return want.shape


def sky_bad(p):
    name, shape = p
    fn = {"radec_to_lmn": radec_to_lmn, "radec_to_lm": radec_to_lm,
          "lmn_to_radec": lmn_to_radec, "lm_to_radec": lm_to_radec}[name]
    e = raises(fn, np.zeros(shape))
    check(isinstance(e, ValueError), "%s of shape %s gives %r", name, shape,
          e)
    return 1


def groups(tier):
    deep = tier == "thorough"
    g = []
    big = 3 if deep else 2
    dims = list(itertools.product(range(1, big + 1), repeat=4)) + [
        (3, 3, 2, 1), (4, 2, 1, 4)]
    dims = list(dict.fromkeys(dims))
    g.append(Group("operators", [d + (c,) for d in dims for c in
                                 ("default", "fourier", "casa")], basis,
                   "both transforms equal the documented sums and are "
                   "adjoint", "full input bases of all sizes <= %d" % big))
    cases = []
    for nrow, nchan, ncorr in ((1, 2, 4), (2, 2, 2), (3, 1, 2), (2, 1, 4),
                               (3, 1, 3)) + (((3, 2, 2),) if deep else ()):
        n = 1 << (nrow * nchan * ncorr)
        for lo in range(0, n, 64):
            for dt in ("?", "u1"):
                cases.append((nrow, nchan, ncorr, lo, min(n, lo + 64), dt))
    g.append(Group("flags", cases, flagged, "exactly the samples with any "
                   "flagged correlation are left out", "all flag patterns "
                   "of the listed sizes"))
    cases = [c for k in ("if8", "ic16", "vc16", "vf8") for c in specials(k)]
    lens = (4, 5, 8, 9, 17, 33) + ((65, 129) if deep else ())
    g.append(Group("ladder", [("dft", d) for d in rungs((2, 3, 2, 2), lens)] + [
        ("sky", d) for d in rungs((3,), lens)], ladder,
                   "one large dimension, in memory and in many chunks",
                   "<= %d elements, <= %d chunks" % (max(lens), max(lens))))
    g.append(Group("values", cases, values, "special values (zeros, purely "
                   "real or imaginary, tiny, large; bad when flagged) are "
                   "not special",
                   "one or all elements of every argument x the values"))
    cases = []
    for d in itertools.product(FL, repeat=3):
        for x in ("f4", "f8", "c8", "c16"):
            cases.append(("im", (x,) + d, "C", "fourier", None))
            cases.append(("vis", (x,) + d, "C", "casa", None))
    for lay in LAYOUTS[1:]:
        for conv in ("fourier", "casa"):
            cases.append(("im", ("f8",) * 4, lay, conv, None))
            cases.append(("vis", ("c16",) + ("f8",) * 3, lay, conv, None))
    for out in ("c8", "c16"):
        cases.append(("im", ("f8",) * 4, "C", "fourier", out))
        cases.append(("im", ("f4",) * 4, "C", "fourier", out))
    for out in FL:
        cases.append(("vis", ("c16",) + ("f8",) * 3, "C", "fourier", out))
        cases.append(("vis", ("c8",) + ("f4",) * 3, "C", "fourier", out))
    g.append(Group("types", cases, types, "in the precision of the inputs or "
                   "the one asked for", "all precision combinations"))
    c3, c2 = list(compositions(3)), list(compositions(2))
    g.append(Group("im-chunks", [(a, b, c, v, o) for a in c3 for b in c2
                                 for c in c2 + [(4,), (2, 2)]
                                 for v in ("default", "casa")
                                 for o in (None, "c8", "c16")], im_chunks,
                   "chunked image to visibility",
                   "all chunkings of 3 rows, 2 channels, 2 correlations"))
    g.append(Group("vis-chunks", [(s, a, b, c, v, o) for s in c2
                                  for a in c3 for b in c2 for c in c2
                                  for v in ("default", "casa")
                                  for o in (None, "f4")], vis_chunks,
                   "chunked visibility to image, with flags",
                   "all chunkings of 2 sources, 3 rows, 2 channels, 2 "
                   "correlations"))
    g.append(Group("rejected", [(k,) for k in (
        "im-lm", "im-image", "im-both", "im-freq", "vis-uvw", "vis-freq",
        "vis-flags", "vis-flags-chan", "vis-flags-corr", "im-fewer",
        "im-more", "im-convention", "vis-convention")],
        rejected, "chunkings that are not supported are rejected",
        "13 requests"))
    k = 16 if deep else 8
    ras = [2 * math.pi * i / k for i in range(k)] + [-.7, 6.9]
    decs = [math.pi * i / k - math.pi / 2 for i in range(k + 1)] + [
        1.5, -1.2, .3]
    cases = [(a, d, dt, "C", 2 * k, k) for a in ras for d in decs
             for dt in FL]
    cases += [(a, d, "f8", lay, 8, 8) for a in (0., 2.) for d in (0., .8)
              for lay in LAYOUTS[1:]]
    g.append(Group("sky", cases, sky, "positions convert to their direction "
                   "cosines and back to the same position",
                   "all pairs of a grid of phase centres and sources, poles "
                   "included"))
    g.append(Group("astropy", [(a, d) for a in (0., 1., 4.)
                               for d in (-1.5, -.6, 0., .6, 1.5)], astro,
                   "the astropy version agrees", "15 phase centres"))
    names = ("radec_to_lmn", "radec_to_lm", "lmn_to_radec", "lm_to_radec")
    g.append(Group("sky-chunks", [(n, c, w, dt) for n in names
                                  for c in list(compositions(4))
                                  for w in (0, 1) for dt in FL], sky_chunks,
                   "chunked conversions", "all chunkings of 4 sources"))
    g.append(Group("sky-bad", [(n, s) for n in names for s in (
        (2, 1), (2, 4)) + (((2, 2),) if n.startswith("lmn") else ((2, 3),))],
        sky_bad, "arrays of other shapes are rejected", "3 shapes each"))
    return g
