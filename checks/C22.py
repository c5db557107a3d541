"""C22: the faceting gridder and degridder (perleypolyhedron)."""
import itertools

import numpy as np
import dask.array as da
from scipy.special import jv

from core import Group, call, check, raises, schedule, state
from refs import (LAYOUTS, compositions, cut, generic, poke, pokes, relayout,
                  rungs)
import dsched
from africanus.gridding.perleypolyhedron import kernels
from africanus.gridding.perleypolyhedron.gridder import gridder
from africanus.gridding.perleypolyhedron.degridder import (degridder,
                                                           degridder_serial)
from africanus.gridding.perleypolyhedron import dask as dw
from africanus.gridding.perleypolyhedron.policies import (
    baseline_transform_policies as btp, stokes_conversion_policies as scp)

ASSUMPTIONS = [
    "odd kernel widths (as kernels.uspace demands)",
    "the kernel sample of a tap is the oversampled position whose distance "
    "from the centre is truncated towards the grid point",
    "positions are kept 1/64 of a cell away from rounding boundaries",
    "facet centres above the horizon of the phase centre"]

# the correlations of a unit Stokes parameter, by name
CORR = {"XX": {"I": 1, "Q": 1}, "XY": {"U": 1, "V": 1j},
        "YX": {"U": 1, "V": -1j}, "YY": {"I": 1, "Q": -1},
        "RR": {"I": 1, "V": 1}, "RL": {"Q": 1, "U": 1j},
        "LR": {"Q": 1, "U": -1j}, "LL": {"I": 1, "V": -1}}
PRODUCTS = {"XXYY": "IQ", "XXXYYXYY": "IQUV", "RRLL": "IV",
            "RRRLLRLL": "IQUV", "XYYX": "UV", "RLLR": "QU"}
FORWARD = [(s, p) for p in sorted(PRODUCTS) for s in PRODUCTS[p]]
BACKWARD = [f for f in FORWARD if f != ("Q", "RLLR")]   # not offered


def unit(stokes, product):
    names = [product[i:i + 2] for i in range(0, len(product), 2)]
    return np.array([CORR[n].get(stokes, 0) for n in names])


def to_stokes(vis, stokes, product):
    u = unit(stokes, product)
    return (vis * np.conj(u)).sum(-1) / (abs(u) ** 2).sum()


# ------------------------------------------------------------- reference
def kern1d(W, OS, kind="kbsinc"):
    return getattr(kernels, kind)(W, oversample=OS)


def generic_kernel(W, OS):
    """ all samples different, so no two taps can be confused """
    k = generic((OS * (W + 2),), "f8", W * 10 + OS, .2, 1.)
    return k / k.sum()


def taps(x, npix, W, OS, K):
    """ -> [(grid index, weight)] along one axis for grid coordinate x """
    off = x + npix // 2
    d = int(np.floor(off + .5))
    fr = int((d - off) * OS)            # towards zero
    z = OS * ((W + 2) // 2)             # the sample at distance 0
    return [(d + t, K[z + t * OS + fr]) for t in range(-(W // 2), W // 2 + 1)]


def footprint(u, v, npix, W, OS, K, nn=False):
    """ -> (inside grid of weights, total weight) """
    w = np.zeros((npix, npix))
    total = 0.
    if nn:
        au = [(int(np.floor(u + npix // 2 + .5)), 1.)]
        av = [(int(np.floor(v + npix // 2 + .5)), 1.)]
    else:
        au, av = taps(u, npix, W, OS, K), taps(v, npix, W, OS, K)
    for iv, wv in av:
        for iu, wu in au:
            total += wu * wv
            if 0 <= iv < npix and 0 <= iu < npix:
                w[iv, iu] += wu * wv
    return w, total


def lmn(image, phase):
    (ra, dec), (ra0, dec0) = image, phase
    l = np.cos(dec) * np.sin(ra - ra0)
    m = np.sin(dec) * np.cos(dec0) - np.cos(dec) * np.sin(dec0) * \
        np.cos(ra - ra0)
    n = np.sin(dec) * np.sin(dec0) + np.cos(dec) * np.cos(dec0) * \
        np.cos(ra - ra0)
    return l, m, n


def axes(ra, dec):
    return np.array([[-np.sin(ra), np.cos(ra), 0],
                     [-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra),
                      np.cos(dec)],
                     [np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra),
                      np.sin(dec)]])


def baseline(uvw, image, phase, kind):
    if kind == "None":
        return uvw
    if kind == "rotate":
        return axes(*image) @ axes(*phase).T @ uvw
    l, m, n = lmn(image, phase)
    return np.array([uvw[0] - uvw[2] * l / n, uvw[1] - uvw[2] * m / n,
                     uvw[2]])


def phasor(uvw, lam, image, phase, kind, sign):
    if kind == "None":
        return np.ones(len(lam))
    l, m, n = lmn(image, phase)
    return np.exp(sign * 2j * np.pi * (uvw[0] * l + uvw[1] * m +
                                       uvw[2] * (n - 1)) / lam)


def scale(npix, cell):
    return npix * np.deg2rad(cell / 3600.)


def grid_ref(uvw, vis, lam, cmap, npix, cell, image, phase, K, W, OS, bt, pt,
             stokes, product, nn, norm):
    uvw, vis = np.asarray(uvw, "f8"), np.asarray(vis, "c16")
    out = np.zeros((max(cmap) + 1, npix, npix), "c16")
    wt = np.zeros(max(cmap) + 1)
    for r in range(len(uvw)):
        ph = phasor(uvw[r], lam, image, phase, pt, 1)
        b = baseline(uvw[r], image, phase, bt)
        for c in range(len(lam)):
            f, tot = footprint(*(b[:2] * scale(npix, cell) / lam[c]), npix, W,
                               OS, K, nn)
            out[cmap[c]] += f * to_stokes(vis[r, c] * ph[c], stokes, product)
            wt[cmap[c]] += tot
    return out / (wt[:, None, None] + 1e-8) if norm else out


def degrid_ref(uvw, grids, lam, cmap, cell, image, phase, K, W, OS, bt, pt,
               stokes, product):
    uvw, grids = np.asarray(uvw, "f8"), np.asarray(grids, "c16")
    npix = grids.shape[-1]
    out = np.zeros((len(uvw), len(lam), len(product) // 2), "c16")
    for r in range(len(uvw)):
        ph = phasor(uvw[r], lam, image, phase, pt, -1)
        b = baseline(uvw[r], image, phase, bt)
        for c in range(len(lam)):
            f, _ = footprint(*(b[:2] * scale(npix, cell) / lam[c]), npix, W,
                             OS, K)
            out[r, c] = (grids[cmap[c]] * f).sum() / (f.sum() + 1e-8) * \
                unit(stokes, product) * ph[c]
    return out


def near(got, want, tol, what):
    check(got.shape == want.shape, "shape %s, expected %s (%s)", got.shape,
          want.shape, what)
    e = np.abs(got - want).max() if want.size else 0
    check(e <= tol * max(1, np.abs(want).max() if want.size else 1),
          "off by %s (%s)", e, what)


CELL = 1800.
EPS = 1 / 64.


def at(pos, npix, lam):
    """ the baseline (in the facet's frame) at a grid position """
    return np.array([pos[0], pos[1], 3.]) / scale(npix, CELL) * \
        np.array([lam, lam, 1.])


# ---------------------------------------------------------------- groups
def positions(npix, OS, fine):
    lo, hi = -(npix // 2) - 2, npix - npix // 2 + 2
    step = 2 * OS if fine else 2
    return [lo + i / step + EPS for i in range(int((hi - lo) * step))]


def positions_one_axis():
    for npix in (6, 7):
        for W, OS in ((1, 3), (3, 2), (3, 4), (3, 5), (5, 3)):
            for kind in ("packed", "unpacked"):
                for axis in (0, 1):
                    for other in (EPS, -2.25 + EPS):
                        for i in range(len(positions(npix, OS, True))):
                            yield npix, W, OS, kind, axis, other, i


def place(p):
    npix, W, OS, kind, axis, other, i = p
    pos = [other, other]
    pos[axis] = positions(npix, OS, True)[i]
    scatter_gather(pos, npix, W, OS, kind)


def place2(p):
    npix, W, OS, kind, iu, iv = p
    ps = positions(npix, OS, False)
    scatter_gather((ps[iu], ps[iv]), npix, W, OS, kind)


def signed_kernel(W, OS):
    """ with sidelobes, and not normalised """
    return generic((OS * (W + 2),), "f8", W * 7 + OS, -.4, 1.)


def scatter_gather(pos, npix, W, OS, kind):
    lam = np.array([1.3])
    uvw = at(pos, npix, lam[0])[None]
    vis = np.array([[[1 + 2j, 3 - 1j]]])
    st = (vis[0, 0, 0] + vis[0, 0, 1]) / 2
    grids = generic((1, npix, npix), "c16", 4)
    for K in (generic_kernel(W, OS), signed_kernel(W, OS)):
        kern = kernels.pack_kernel(K, W, OS) if kind == "packed" else K
        f, tot = footprint(pos[0], pos[1], npix, W, OS, K)
        g = call(gridder, uvw, vis, lam, np.array([0]), npix, CELL, (.1, .2),
                 (.1, .2), kern, W, OS, "None", "None", "I_FROM_XXYY",
                 "conv_1d_axisymmetric_%s_scatter" % kind)
        near(g[0], f * st, 1e-12, "grid")
        if abs(tot) > 1e-3:
            g2 = call(gridder, uvw, vis, lam, np.array([0]), npix, CELL,
                      (.1, .2), (.1, .2), kern, W, OS, "None", "None",
                      "I_FROM_XXYY", "conv_1d_axisymmetric_%s_scatter" % kind,
                      do_normalize=True)
            near(g2[0], f * st / (tot + 1e-8), 1e-12, "normalised grid")
        if not f.any() or abs(f.sum()) > 1e-3:
            v = call(degridder, uvw, grids, lam, np.array([0]), CELL,
                     (.1, .2), (.1, .2), kern, W, OS, "None", "None",
                     "XXYY_FROM_I", "conv_1d_axisymmetric_%s_gather" % kind)
            want = (grids[0] * f).sum() / (f.sum() + 1e-8)
            near(v[0, 0], np.array([want, want]), 1e-11, "degridded")
        state(2 * W * W)


def nearest(p):
    npix, iu, iv = p
    ps = positions(npix, 2, False)
    pos = ps[iu], ps[iv]
    lam = np.array([.7])
    f, _ = footprint(pos[0], pos[1], npix, 1, 1, None, True)
    g = call(gridder, at(pos, npix, .7)[None], np.array([[[2j, 4.]]]), lam,
             np.array([0]), npix, CELL, (.1, .2), (.1, .2), np.ones(3), 1, 1,
             "None", "None", "I_FROM_XXYY", "conv_nn_scatter")
    near(g[0], f * (2 + 1j), 1e-14, "grid")
    state()


def stokes(p):
    way, (s, product) = p
    lam = np.array([1., 1.2])
    npix, W, OS = 8, 3, 4
    K = kern1d(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    uvw = np.stack([at(q, npix, 1.) for q in ((1.3, -.4), (-2.2, .7))])
    ncorr = len(product) // 2
    if way == "forward":
        grids = generic((1, npix, npix), "c16", 5)
        got = call(degridder, uvw, grids, lam, np.array([0, 0]), CELL,
                   (0, .3), (0, .3), kern, W, OS, "None", "None",
                   "%s_FROM_%s" % (product, s),
                   "conv_1d_axisymmetric_packed_gather")
        near(got, degrid_ref(uvw, grids, lam, [0, 0], CELL, (0, .3), (0, .3),
                             K, W, OS, "None", "None", s, product), 1e-11,
             "degridded")
        check(scp.ncorr_outpy("%s_FROM_%s" % (product, s))() == ncorr,
              "number of correlations")
    else:
        vis = generic((2, 2, ncorr), "c16", 6)
        got = call(gridder, uvw, vis, lam, np.array([0, 0]), npix, CELL,
                   (0, .3), (0, .3), kern, W, OS, "None", "None",
                   "%s_FROM_%s" % (s, product),
                   "conv_1d_axisymmetric_packed_scatter")
        near(got, grid_ref(uvw, vis, lam, [0, 0], npix, CELL, (0, .3),
                           (0, .3), K, W, OS, "None", "None", s, product,
                           False, False), 1e-12, "gridded")
    state(ncorr)


def bands():
    for nchan in (1, 2, 3):
        for cmap in itertools.product(range(3), repeat=nchan):
            for norm in (False, True):
                yield cmap, norm


def band(p):
    cmap, norm = p
    lam = np.array([1., 1.25, 1.6])[:len(cmap)]
    npix, W, OS = 8, 3, 4
    K = generic_kernel(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    uvw = np.stack([at(q, npix, 1.) for q in ((1.3, -.4), (-2.2, .7),
                                              (-5.1, 2.2))])
    vis = generic((3, len(cmap), 2), "c16", 7)
    cm = np.array(cmap)
    got = call(gridder, uvw, vis, lam, cm, npix, CELL, (0, .3), (0, .3),
               kern, W, OS, "None", "None", "Q_FROM_XXYY",
               "conv_1d_axisymmetric_packed_scatter", do_normalize=norm)
    near(got, grid_ref(uvw, vis, lam, cm, npix, CELL, (0, .3), (0, .3), K, W,
                       OS, "None", "None", "Q", "XXYY", False, norm), 1e-12,
         "gridded")
    for extra in (0, 1):
        grids = generic((max(cmap) + 1 + extra, npix, npix), "c16", 5)
        for fn in (degridder, degridder_serial):
            got = call(fn, uvw, grids, lam, cm, CELL, (0, .3), (0, .3), kern,
                       W, OS, "None", "None", "XXYY_FROM_Q",
                       "conv_1d_axisymmetric_packed_gather")
            near(got, degrid_ref(uvw, grids, lam, cm, CELL, (0, .3), (0, .3),
                                 K, W, OS, "None", "None", "Q", "XXYY"),
                 1e-11, "degridded")
    state(len(cmap) * 3)


def value_arrays():
    npix = 4
    return {"vis": generic((2, 2, 4), "c16", 7),
            "grids": generic((2, npix, npix), "c16", 5),
            "uvw": np.stack([at(q, npix, 1.) for q in ((.3, -.4),
                                                       (-1.2, .7))])}


def value_cases():
    a = value_arrays()
    out = [(prod, s, c) for prod, ss in (("XXXYYXYY", "IQUV"),
                                         ("RRRLLRLL", "IV"))
           for s in ss for c in pokes(a, skip=("uvw",))]
    # baselines of length zero or along one axis, for every transform
    for i in list(range(6)) + [-1]:
        for v in (0., -0.):
            out += [("XXYY", "I", ("uvw", i, v, bt, pt))
                    for bt in ("None", "rotate", "wlinapprox")
                    for pt in ("None", "phase_rotate")]
    return out


def values(p):
    prod, s, c = p
    bt, pt = c[3:] if len(c) > 3 else ("None", "None")
    a = poke(value_arrays(), c[:3])
    lam, cm, npix = np.array([1., 1.25]), np.array([0, 1]), 4
    W, OS = 3, 4
    K = generic_kernel(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    phase = (.1, .3)
    image = phase if bt == pt == "None" else (.13, .28)
    vis = a["vis"][..., :len(prod) // 2].copy()
    if bt != "None" and c[0] == "uvw":      # off the rounding boundaries
        b = np.array([baseline(x, image, phase, bt) for x in a["uvw"]])
        q = b[:, None, :2] * scale(npix, CELL) / lam[None, :, None]
        d = np.abs(2 * OS * q - np.round(2 * OS * q))
        if ((d > 0) & (d < 1e-6)).any():
            return "boundary"
    if c[0] != "grids":
        got = call(gridder, a["uvw"], vis, lam, cm, npix, CELL, image, phase,
                   kern, W, OS, bt, pt, "%s_FROM_%s" % (s, prod),
                   "conv_1d_axisymmetric_packed_scatter", do_normalize=True)
        near(got, grid_ref(a["uvw"], vis, lam, cm, npix, CELL, image, phase,
                           K, W, OS, bt, pt, s, prod, False, True), 1e-9,
             "gridded %s" % (p,))
    if c[0] != "vis":
        got = call(degridder, a["uvw"], a["grids"], lam, cm, CELL, image,
                   phase, kern, W, OS, bt, pt, "%s_FROM_%s" % (prod, s),
                   "conv_1d_axisymmetric_packed_gather")
        near(got, degrid_ref(a["uvw"], a["grids"], lam, cm, CELL, image,
                             phase, K, W, OS, bt, pt, s, prod), 1e-9,
             "degridded %s" % (p,))
    state()


CENTRES = [(0., 0.), (.3, .2), (-.2, .7), (3.1, -.4), (1., 1.2)]
SHIFTS = [(0, 0), (.02, 0), (0, -.03), (.05, .04), (-.3, .2)]


def facets():
    for c in range(len(CENTRES)):
        for s in range(len(SHIFTS)):
            for bt in ("None", "rotate", "wlinapprox"):
                for pt in ("None", "phase_rotate"):
                    yield c, s, bt, pt


def facet_problem(c, s):
    phase = CENTRES[c]
    image = (phase[0] + SHIFTS[s][0], phase[1] + SHIFTS[s][1])
    npix, lam = 16, np.array([.21, .26])
    uvw = generic((4, 3), "f8", 8, -1, 1) * 5 * .21 / scale(npix, CELL)
    return phase, image, npix, lam, uvw


def facet(p):
    c, s, bt, pt = p
    phase, image, npix, lam, uvw = facet_problem(c, s)
    W, OS = 3, 4
    K = generic_kernel(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    vis = generic((4, 2, 2), "c16", 9)
    cm = np.array([0, 1])
    u0, v0 = uvw.copy(), vis.copy()
    got = call(gridder, uvw, vis, lam, cm, npix, CELL, image, phase, kern, W,
               OS, bt, pt, "I_FROM_XXYY",
               "conv_1d_axisymmetric_packed_scatter")
    near(got, grid_ref(uvw, vis, lam, cm, npix, CELL, image, phase, K, W, OS,
                       bt, pt, "I", "XXYY", False, False), 1e-9, "gridded")
    check((uvw == u0).all() and (vis == v0).all(), "arguments changed")
    if image == phase:
        plain = call(gridder, uvw, vis, lam, cm, npix, CELL, image, phase,
                     kern, W, OS, "None", "None", "I_FROM_XXYY",
                     "conv_1d_axisymmetric_packed_scatter")
        near(got, plain, 1e-9, "transforms to the data's own centre")
    grids = generic((2, npix, npix), "c16", 5)
    g0 = grids.copy()
    for fn in (degridder, degridder_serial):
        for centre in (image, np.array(image)):
            got = call(fn, uvw, grids, lam, cm, CELL, centre, phase, kern, W,
                       OS, bt, pt, "XXYY_FROM_I",
                       "conv_1d_axisymmetric_packed_gather")
            near(got, degrid_ref(uvw, grids, lam, cm, CELL, image, phase, K,
                                 W, OS, bt, pt, "I", "XXYY"), 1e-9,
                 "degridded")
    check((uvw == u0).all() and (grids == g0).all(), "arguments changed")
    if bt == "rotate":
        for r in range(4):
            b = uvw[r].copy()
            call(btp.uvw_rotate, b, phase[0], phase[1], image[0], image[1],
                 "rotate")
            near(b, baseline(uvw[r], image, phase, bt), 1e-12, "rotated")
            check(abs(np.linalg.norm(b) - np.linalg.norm(uvw[r])) <=
                  1e-9 * np.linalg.norm(uvw[r]), "length changed")
    state(8)


def precision():
    for ut in ("i8", "f4", "f8"):
        for vt in ("c8", "c16"):
            for gt in ("c8", "c16"):
                for lay in LAYOUTS:
                    for norm in (False, True):
                        yield ut, vt, gt, lay, norm


def precise(p):
    ut, vt, gt, lay, norm = p
    npix, W, OS, lam = 8, 3, 4, np.array([1., 1.5])
    K = generic_kernel(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    uvw = (generic((3, 3), "f8", 11, -1, 1) * 40).astype(ut)
    vis = generic((3, 2, 2), vt, 12)
    cm = np.array([0, 1])
    cell = 8000.
    args = [relayout(a, lay) for a in (uvw, vis, lam, cm)]
    keep = [a.copy() for a in args]
    tol = 1e-4 if "c8" in (vt, gt) or ut == "f4" else 1e-10
    got = call(gridder, *args, npix, cell, (.3, .2), (.31, .2), kern, W, OS,
               "rotate", "phase_rotate", "I_FROM_XXYY",
               "conv_1d_axisymmetric_packed_scatter",
               grid_dtype=np.dtype(gt).type, do_normalize=norm)
    check(got.dtype == np.dtype(gt), "type %s, requested %s", got.dtype, gt)
    near(got, grid_ref(uvw, vis, lam, cm, npix, cell, (.3, .2), (.31, .2), K,
                       W, OS, "rotate", "phase_rotate", "I", "XXYY", False,
                       norm), tol, "gridded")
    check(all((a == b).all() for a, b in zip(args, keep)), "changed")
    grids = relayout(generic((2, npix, npix), vt, 5), lay)
    got = call(degridder, args[0], grids, args[2], args[3], cell, (.3, .2),
               (.31, .2), kern, W, OS, "rotate", "phase_rotate",
               "XXYY_FROM_I", "conv_1d_axisymmetric_packed_gather",
               vis_dtype=np.dtype(gt).type)
    check(got.dtype == np.dtype(gt), "type %s, requested %s", got.dtype, gt)
    near(got, degrid_ref(uvw, grids, lam, cm, cell, (.3, .2), (.31, .2), K, W,
                         OS, "rotate", "phase_rotate", "I", "XXYY"), tol,
         "degridded")
    state(12)


def kern_case(p):
    W, OS, name = p
    u = (np.arange(OS * (W + 2)) - OS * ((W + 2) // 2)) / OS
    near(kernels.uspace(W, OS), u, 1e-13, "sampling")
    if name == "sinc":
        want, K = np.sinc(u), kernels.sinc(W, oversample=OS)
        near(kernels.sinc(W, oversample=OS, a=.5),
             np.sinc(u * .5) / np.sinc(u * .5).sum(), 1e-12, "scaled sinc")
    elif name == "kbsinc":
        b = np.poly1d(np.polyfit(
            [1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 5.0],
            [1.9980, 2.3934, 3.3800, 4.2054, 4.9107, 5.7567, 6.6291, 7.4302],
            1))(W + 2)
        K = kernels.kbsinc(W, oversample=OS)
        want = np.sinc(u) * jv(15, b * np.sqrt(1 - (2 * u / (W + 3)) ** 2))
        for order in (0, 3):
            w = np.sinc(u) * jv(order, 2. * np.sqrt(
                1 - (2 * u / (W + 3)) ** 2))
            near(kernels.kbsinc(W, b=2., oversample=OS, order=order),
                 w / w.sum(), 1e-10, "order %s" % order)
    else:
        a = np.poly1d(np.polyfit([1.5, 2.0, 2.5, 3.0, 3.5],
                                 [0.7600, 0.7146, 0.6185, 0.5534, 0.5185],
                                 3))(W + 2)
        K = kernels.hanningsinc(W, oversample=OS)
        want = np.sinc(u) * (a + (1 - a) * np.cos(2 * np.pi / (W + 3) * u))
        w = np.sinc(u) * (.3 + .7 * np.cos(2 * np.pi / (W + 3) * u))
        near(kernels.hanningsinc(W, a=.3, oversample=OS), w / w.sum(), 1e-10,
             "given coefficient")
    near(K, want / want.sum(), 1e-9, name)
    P = call(kernels.pack_kernel, K, W, OS)
    for t in range(OS):
        for k in range(W + 2):
            check(P[t * (W + 2) + k] == K[k * OS + t], "packing of %s", (t, k))
    check((kernels.unpack_kernel(P, W, OS) == K).all(), "unpacking")
    check(P is not K and not np.shares_memory(P, K), "packed in place")
    # in the type of the kernel
    for dt in ("f4", "c8", "c16", "i8"):
        q = (K * 1000 * (1 + 1j if dt[0] == "c" else 1)).astype(dt)
        Q = call(kernels.pack_kernel, q, W, OS)
        R = call(kernels.unpack_kernel, Q, W, OS)
        check(Q.dtype == dt and R.dtype == dt, "a %s kernel is packed as %s "
              "and unpacked as %s", dt, Q.dtype, R.dtype)
        check((Q.reshape(OS, W + 2).T.ravel() == q).all() and
              (R == q).all(), "packing of a %s kernel", dt)
    state(len(u))


def detaper(p):
    W, OS, npix, name = p
    K = kern1d(W, OS, name)
    u = (np.arange(OS * (W + 2)) - OS * ((W + 2) // 2)) / OS
    x = (np.arange(npix) - npix // 2) / npix
    F = (K * np.exp(-2j * np.pi * x[:, None] * u)).sum(1)
    want = np.abs(np.outer(F, F))
    near(call(kernels.compute_detaper_dft_seperable, npix, K, W, OS), want,
         1e-10, "separable")
    K2 = np.outer(K, K)
    K2[0, 1] += .1         # not separable
    E = np.exp(-2j * np.pi * x[:, None] * u)
    want2 = np.abs(np.einsum("ay,bx,yx->ab", E, E, K2))
    near(call(kernels.compute_detaper, npix, K2, W, OS), want2, 1e-10, "fft")
    near(call(kernels.compute_detaper_dft, npix, K2, W, OS), want2, 1e-10,
         "dft")
    state(npix * npix)


# ------------------------------------------------------------------ dask
def dask_cases():
    for rc in compositions(3):
        for cc in ((2,), (1, 1)):
            for oc in ((2,), (1, 1)):
                for fc in compositions(2):
                    for bt in ("rotate", "wlinapprox"):
                        for norm in (False, True):
                            yield rc, cc, oc, fc, bt, norm


def dask_problem(nrow):
    npix, lam = 8, np.array([.21, .26])
    phase = (.3, .2)
    images = np.array([[.33, .2], [.3, .15]])
    uvw = generic((nrow, 3), "f8", 8, -1, 1) * 3 * .21 / scale(npix, CELL)
    return npix, lam, phase, images, uvw, generic((nrow, 2, 2), "c16", 9)


def lazy(p):
    rc, cc, oc, fc, bt, norm = p
    npix, lam, phase, images, uvw, vis = dask_problem(sum(rc))
    W, OS = 3, 4
    K = generic_kernel(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    cm = np.array([1, 0])
    d = da.from_array
    keep = uvw.copy(), vis.copy()
    g = call(dw.gridder, d(uvw, chunks=(rc, (3,))),
             d(vis, chunks=(rc, cc, oc)), d(lam, chunks=(cc,)),
             d(cm, chunks=(cc,)), npix, CELL, d(images, chunks=(fc, (2,))),
             phase, kern, W, OS, bt, "phase_rotate", "I_FROM_XXYY",
             "conv_1d_axisymmetric_packed_scatter", do_normalize=norm)
    want = np.stack([grid_ref(uvw, vis, lam, cm, npix, CELL, f, phase, K, W,
                              OS, bt, "phase_rotate", "I", "XXYY", False,
                              norm) for f in images])[:, None]
    check(g.shape == want.shape, "declared shape %s, expected %s", g.shape,
          want.shape)
    check(g.dtype == want.dtype, "declared type %s", g.dtype)
    for order in ("first", "last"):
        got, _ = dsched.compute(g, order)
        near(got, want, 1e-9, "chunked gridding, %s" % order)
        schedule()
    near(dsched.compute((g * 2).sum(axis=0))[0], want.sum(0) * 2, 1e-9,
         "in a larger graph")
    check((uvw == keep[0]).all() and (vis == keep[1]).all(),
          "arguments changed")
    state(len(rc))


def lazy_degrid_cases():
    for rc in compositions(3):
        for cc in ((2,), (1, 1)):
            for fc in compositions(2):
                for bc in ((2,), (1, 1)):
                    for bt in ("rotate", "wlinapprox"):
                        for par in (False, True):
                            yield rc, cc, fc, bc, bt, par


def lazy_degrid(p):
    rc, cc, fc, bc, bt, par = p
    npix, lam, phase, images, uvw, _ = dask_problem(sum(rc))
    W, OS = 3, 4
    K = generic_kernel(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    cm = np.array([1, 0])
    grids = generic((2, 2, npix, npix), "c16", 5)
    d = da.from_array
    keep = uvw.copy(), grids.copy()
    v = call(dw.degridder, d(uvw, chunks=(rc, (3,))),
             d(grids, chunks=(fc, bc, (npix,), (npix,))),
             d(lam, chunks=(cc,)), d(cm, chunks=(cc,)), CELL,
             d(images, chunks=(fc, (2,))), phase, kern, W, OS, bt,
             "phase_rotate", "XXYY_FROM_I",
             "conv_1d_axisymmetric_packed_gather", rowparallel=par)
    want = sum(degrid_ref(uvw, grids[i], lam, cm, CELL, images[i], phase, K,
                          W, OS, bt, "phase_rotate", "I", "XXYY")
               for i in range(2))
    check(v.shape == want.shape, "declared shape %s, expected %s", v.shape,
          want.shape)
    for order in ("first", "last"):
        got, _ = dsched.compute(v, order)
        near(got, want, 1e-9, "chunked degridding, %s" % order)
        schedule()
    near(dsched.compute((v * 2).sum(axis=0))[0], want.sum(0) * 2, 1e-9,
         "in a larger graph")
    check((uvw == keep[0]).all() and (grids == keep[1]).all(),
          "arguments changed")
    state(len(rc))


def ladder(p):
    """ larger problems, one dimension at a time, in memory and chunked """
    nrow, nchan, nband, nfacet, npix, W = p
    nchan = max(nchan, nband)
    OS = 4
    lam = np.linspace(.2, .27, nchan)
    cm = (np.arange(nchan) * 5 + 1) % nband
    cm[-1] = nband - 1
    phase = (.3, .2)
    images = phase + generic((nfacet, 2), "f8", 3, -.04, .04)
    uvw = generic((nrow, 3), "f8", 8, -1, 1) * .36 * npix * .2 / scale(
        npix, CELL)
    vis = generic((nrow, nchan, 2), "c16", 9)
    grids = generic((nfacet, nband, npix, npix), "c16", 5)
    K = generic_kernel(W, OS)
    kern = kernels.pack_kernel(K, W, OS)
    bt, pt = "rotate", "phase_rotate"
    want = np.stack([grid_ref(uvw, vis, lam, cm, npix, CELL, f, phase, K, W,
                              OS, bt, pt, "I", "XXYY", False, True)
                     for f in images])[:, None]
    for i, f in enumerate(images[:3]):
        near(call(gridder, uvw, vis, lam, cm, npix, CELL, tuple(f), phase,
                  kern, W, OS, bt, pt, "I_FROM_XXYY",
                  "conv_1d_axisymmetric_packed_scatter", do_normalize=True),
             want[i, 0], 1e-9, "gridded %s" % (p,))
    vw = [degrid_ref(uvw, grids[i], lam, cm, CELL, images[i], phase, K, W, OS,
                     bt, pt, "I", "XXYY") for i in range(nfacet)]
    for i, f in enumerate(images[:3]):
        for fn in (degridder, degridder_serial):
            near(call(fn, uvw, grids[i], lam, cm, CELL, tuple(f), phase, kern,
                      W, OS, bt, pt, "XXYY_FROM_I",
                      "conv_1d_axisymmetric_packed_gather"), vw[i], 1e-9,
                 "degridded %s" % (p,))
    vw = sum(vw)
    d = da.from_array
    for k in (1, 2, 3):
        rc, cc, fc, bc = (cut(n, k) for n in (nrow, nchan, nfacet, nband))
        head = d(uvw, chunks=(rc, (3,))), d(lam, chunks=(cc,)), d(
            cm, chunks=(cc,)), d(images, chunks=(fc, (2,)))
        g = call(dw.gridder, head[0], d(vis, chunks=(rc, cc, (2,))), head[1],
                 head[2], npix, CELL, head[3], phase, kern, W, OS, bt, pt,
                 "I_FROM_XXYY", "conv_1d_axisymmetric_packed_scatter",
                 do_normalize=True)
        near(dsched.compute(g, "last" if k == 2 else "first")[0], want, 1e-9,
             "gridding %s in chunks of %d" % (p, k))
        v = call(dw.degridder, head[0],
                 d(grids, chunks=(fc, bc, (npix,), (npix,))), head[1],
                 head[2], CELL, head[3], phase, kern, W, OS, bt, pt,
                 "XXYY_FROM_I", "conv_1d_axisymmetric_packed_gather",
                 rowparallel=k == 2)
        near(dsched.compute(v, "last" if k == 2 else "first")[0], vw, 1e-9,
             "degridding %s in chunks of %d" % (p, k))
        schedule(2)
    state()


BAD = ["chanmap", "uvw", "rows", "channels", "square", "bands", "stokes",
       "conv", "base", "phase", "lazy-lambda", "lazy-map", "lazy-rows",
       "lazy-centres", "lazy-grids", "lazy-grids-dim", "lazy-lambda-cut",
       "lazy-map-cut", "lazy-rows-cut"]


def bad(p):
    which, = p
    npix, lam, phase, images, uvw, vis = dask_problem(3)
    W, OS = 3, 4
    kern = kernels.pack_kernel(generic_kernel(W, OS), W, OS)
    g = dict(uvw=uvw, vis=vis, wavelengths=lam, chanmap=np.array([0, 1]),
             npix=npix, cell=CELL, image_centre=phase, phase_centre=phase,
             convolution_kernel=kern, convolution_kernel_width=W,
             convolution_kernel_oversampling=OS,
             baseline_transform_policy="None", phase_transform_policy="None",
             stokes_conversion_policy="I_FROM_XXYY",
             convolution_policy="conv_1d_axisymmetric_packed_scatter")
    dg = dict(g, gridstack=np.zeros((2, npix, npix), "c16"),
              stokes_conversion_policy="XXYY_FROM_I",
              convolution_policy="conv_1d_axisymmetric_packed_gather")
    for k in ("vis", "npix"):
        del dg[k]
    both = [(gridder, g), (degridder, dg), (degridder_serial, dg)]
    change = {"chanmap": ("chanmap", np.array([0])),
              "uvw": ("uvw", uvw[:, :2].copy()),
              "stokes": ("stokes_conversion_policy", "I_FROM_NOTHING"),
              "conv": ("convolution_policy", "none"),
              "base": ("baseline_transform_policy", "none"),
              "phase": ("phase_transform_policy", "none")}
    if which in change:
        k, v = change[which]
        todo = [(f, dict(a, **{k: v})) for f, a in both]
    elif which == "rows":
        todo = [(gridder, dict(g, uvw=uvw[:2].copy()))]
    elif which == "channels":
        todo = [(gridder, dict(g, vis=vis[:, :1].copy()))]
    elif which == "square":
        todo = [(f, dict(dg, gridstack=np.zeros((2, npix, npix + 1), "c16")))
                for f in (degridder, degridder_serial)]
    elif which == "bands":
        todo = [(f, dict(dg, gridstack=np.zeros((1, npix, npix), "c16")))
                for f in (degridder, degridder_serial)]
    else:
        d = da.from_array
        lg = dict(g, uvw=d(uvw, chunks=(1, 3)), vis=d(vis, chunks=(1, 1, 2)),
                  lambdas=d(lam, chunks=1), chanmap=d(g["chanmap"], chunks=1),
                  image_centres=d(images, chunks=2))
        ld = dict(dg, uvw=lg["uvw"], lambdas=lg["lambdas"],
                  chanmap=lg["chanmap"], image_centres=lg["image_centres"],
                  gridstack=d(np.zeros((2, 2, npix, npix), "c16"),
                              chunks=(2, 2, npix, npix)))
        for a in (lg, ld):
            del a["image_centre"], a["wavelengths"]
        # as many blocks, cut elsewhere
        lam3, map3 = np.append(lam, .3), np.array([0, 1, 1])
        cuts = dict(lg, vis=d(np.append(vis, vis[:, :1], axis=1),
                              chunks=((1, 2), (1, 2), (2,))),
                    uvw=d(uvw, chunks=((1, 2), (3,))),
                    lambdas=d(lam3, chunks=((1, 2),)),
                    chanmap=d(map3, chunks=((1, 2),)))
        todo = {"lazy-lambda-cut": [(dw.gridder, dict(
                    cuts, lambdas=d(lam3, chunks=((2, 1),))))],
                "lazy-map-cut": [(dw.gridder, dict(
                    cuts, chanmap=d(map3, chunks=((2, 1),))))],
                "lazy-rows-cut": [(dw.gridder, dict(
                    cuts, uvw=d(uvw, chunks=((2, 1), (3,)))))],
                "lazy-lambda": [(dw.gridder,
                                 dict(lg, lambdas=d(lam, chunks=2)))],
                "lazy-map": [(dw.gridder, dict(
                    lg, chanmap=d(g["chanmap"], chunks=2)))],
                "lazy-rows": [(dw.gridder, dict(lg, uvw=d(uvw,
                                                          chunks=(3, 3))))],
                "lazy-centres": [
                    (dw.degridder, dict(ld, image_centres=d(images[0]))),
                    (dw.degridder, dict(ld, image_centres=d(
                        np.zeros((2, 3)))))],
                "lazy-grids": [(dw.degridder, dict(ld, gridstack=d(
                    np.zeros((1, 2, npix, npix), "c16"))))],
                "lazy-grids-dim": [(dw.degridder, dict(ld, gridstack=d(
                    np.zeros((2, npix, npix), "c16"))))]}[which]
        check(raises(dw.gridder, **cuts) is None, "chunks that agree are "
              "refused")
    for fn, a in todo:
        e = raises(fn, **a)
        check(e is not None, "%s: accepted by %s" % (which, fn.__module__))
    state()


def deep(tier, a, b):
    return b if tier == "thorough" else a


def groups(tier):
    t2 = [(n, W, OS, k, iu, iv) for n, W, OS in deep(
        tier, ((4, 3, 4),), ((4, 3, 4), (5, 3, 3), (5, 5, 2), (6, 5, 5)))
        for k in ("packed", "unpacked")
        for iu in range(len(positions(n, OS, False)))
        for iv in range(len(positions(n, OS, False)))]
    place_cases = list(positions_one_axis())
    if tier != "thorough":
        place_cases = [c for c in place_cases if c[0] == 6 or c[1:3] == (3, 4)]
    nn = [(n, i, j) for n in (4, 5) for i in range(len(positions(n, 2, False)))
          for j in range(len(positions(n, 2, False)))]
    ks = [(W, OS, n) for W in deep(tier, (1, 3, 5, 7), (1, 3, 5, 7, 9, 11))
          for OS in deep(tier, (1, 2, 3, 5, 8), (1, 2, 3, 4, 5, 6, 7, 8, 9))
          for n in ("sinc", "kbsinc", "hanningsinc")]
    ds = [(W, OS, npix, n) for W in (3, 5) for OS in deep(
        tier, (2, 3), (1, 2, 3, 4, 5)) for npix in deep(
        tier, (7, 8), (7, 8, 11, 12)) for n in ("sinc", "kbsinc",
                                                "hanningsinc")]
    st = [("forward", f) for f in FORWARD] + [("back", f) for f in BACKWARD]
    fx = list(facets())
    vals = value_cases()
    lens = deep(tier, (4, 5, 8, 9, 17, 33), (4, 5, 8, 9, 17, 33, 65))
    return [
        Group("axis-positions", place_cases, place, "every fraction of a "
              "cell from beyond one edge to beyond the other",
              {"positions": len(place_cases)}),
        Group("plane-positions", t2, place2, "every pair of positions",
              {"positions": len(t2)}),
        Group("nearest", nn, nearest, "nearest neighbour gridding",
              {"positions": len(nn)}),
        Group("stokes", st, stokes, "every conversion policy",
              {"policies": len(st)}),
        Group("bands", list(bands()), band, "every map of channels to bands",
              {"channels": 3, "bands": 3}),
        Group("values", vals, values, "special values in every element of "
              "every argument", {"replacements": len(vals)}),
        Group("ladder", [d for d in rungs((2, 2, 2, 2, 10, 3), lens)
                         if d[5] % 2 and d[5] < 10], ladder,
              "one large dimension, in memory and in many chunks",
              {"length": max(lens)}),
        Group("facets", fx, facet, "phase centres x facet offsets x "
              "transform policies", {"pairs": len(fx)}),
        Group("precision", list(precision()), precise,
              "types and memory layouts", {}),
        Group("kernels", ks, kern_case, "windows and their packing",
              {"windows": len(ks)}),
        Group("detaper", ds, detaper, "detapering functions", {}),
        Group("lazy-grid", list(dask_cases()), lazy, "chunkings",
              {"rows": 3, "facets": 2}),
        Group("lazy-degrid", list(lazy_degrid_cases()), lazy_degrid,
              "chunkings", {"rows": 3, "facets": 2}),
        Group("rejected", [(b,) for b in BAD], bad, "invalid arguments", {}),
    ]
