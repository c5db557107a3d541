"""C17: instrument and propagation terms."""
import importlib
import itertools
import math
import sys
import threading
import types

import numpy as np
import dask.array as da

from core import Group, call, check, raises, schedule, state
from refs import (LAYOUTS, compositions, cut, generic, poke, pokes, relayout,
                  rungs)
import dsched
import shim
import africanus.rime.zernike as zmod
from africanus.rime import (phase_delay, feed_rotation, transform_sources,
                            beam_cube_dde, zernike_dde, parallactic_angles)
from africanus.rime import dask as rd
from africanus.model.shape import gaussian
from africanus.model.shape.dask import gaussian as dgaussian

if shim.MODE == "interp":
    zmod.__dict__["range"] = shim._install_interp.tolerant_range

ASSUMPTIONS = ["l^2 + m^2 <= 1; beam axes have at least two samples",
               "coordinate-component axes are single chunks"]
LIGHT = 2.99792458e8


def same(got, want, rtol, what, scale=None):
    check(got.shape == want.shape, "shape %s, expected %s (%s)", got.shape,
          want.shape, what)
    if not want.size:
        return
    e = np.abs(got - want).max()
    s = np.abs(want).max() if scale is None else scale
    check(np.isfinite(got).all() and e <= rtol * max(s, 1e-300),
          "off by %s (%s): %s, expected %s", e, what, got.ravel()[:8],
          want.ravel()[:8])


def untouched(args, keep, what):
    for a, b in zip(args, keep):
        check(np.array_equal(a, b), "an argument was modified (%s)", what)


def run_orders(v, what, shape, dtype, chunks):
    check(v.shape == shape, "declared shape %s, expected %s (%s)", v.shape,
          shape, what)
    check(v.chunks == chunks, "declared chunks %s, expected %s (%s)",
          v.chunks, chunks, what)
    check(v.dtype == dtype, "declared type %s, expected %s (%s)", v.dtype,
          dtype, what)
    for order in ("first", "last"):
        schedule()
        yield call(dsched.compute, v, order)[0]


# --- phase delay ------------------------------------------------------------
GRID = (-.3, 0., .1, .6)


def phase_ref(lm, uvw, freq, sign):
    lm, uvw, freq = (np.asarray(a, "f8") for a in (lm, uvw, freq))
    n = np.sqrt(1 - (lm ** 2).sum(1)) - 1
    path = (lm[:, None, 0] * uvw[None, :, 0] + lm[:, None, 1] *
            uvw[None, :, 1] + n[:, None] * uvw[None, :, 2])
    return np.exp(sign * 2j * np.pi * path[:, :, None] * freq / LIGHT)


def phases(p):
    """ every l, m and every sign/zero pattern of u, v, w """
    l, m, conv, dt, dtu, layout = p
    lm = np.array([[l, m], [m, l], [0, 0]], dt)
    uvw = np.array(list(itertools.product((-7., 0., 3.), repeat=3)), dtu)
    freq = np.array([0., 1e8, 2.5e8])
    keep = [lm, uvw, freq]
    args = [relayout(a, layout) for a in keep]
    kw = {} if conv == "default" else {"convention": conv}
    sign = 1 if conv == "casa" else -1
    what = "lm %s convention %s %s %s" % ((l, m), conv, dt, layout)
    low = "f4" in (dt, dtu)
    got = call(phase_delay, *args, **kw)
    odt = np.complex64 if dt == dtu == "f4" and freq.dtype == "f4" else \
        np.complex128
    check(got.dtype == odt, "type %s (%s)", got.dtype, what)
    want = phase_ref(lm, uvw, freq, sign)
    same(got, want, 1e-12 if not low else 2e-5, what)
    untouched(args, keep, what)
    state(want.size)
    return "ok"


def phase_prec(p):
    dts, conv = p
    lm = np.array([[.1, -.2], [0, .3]], dts[0])
    uvw = generic((4, 3), dts[1], 2, -8, 8)
    freq = np.array([1e8, 1.3e8], dts[2])
    got = call(phase_delay, lm, uvw, freq, convention=conv)
    odt = np.result_type(np.complex64, *dts)
    check(got.dtype == odt, "type %s for %s", got.dtype, dts)
    same(got, phase_ref(lm, uvw, freq, 1 if conv == "casa" else -1),
         1e-12 if "f4" not in dts else 1e-4, "types %s" % (dts,))
    return str(odt)


def phase_chunks(p):
    sc, rc, cc, conv, dt = p
    lm = generic((sum(sc), 2), dt, 1, -.5, .5)
    uvw = generic((sum(rc), 3), dt, 2, -9, 9)
    freq = np.linspace(1e8, 2e8, sum(cc)).astype(dt)
    v = call(rd.phase_delay, da.from_array(lm, chunks=(sc, (2,))),
             da.from_array(uvw, chunks=(rc, (3,))),
             da.from_array(freq, chunks=(cc,)), convention=conv)
    want = call(phase_delay, lm, uvw, freq, convention=conv)
    for got in run_orders(v, "phase chunks %s" % (p,), want.shape,
                          want.dtype, (sc, rc, cc)):
        check(np.array_equal(got, want), "chunked phases differ (%s)", p)
    return want.shape


def phase_bad(p):
    conv, = p
    e = raises(lambda: phase_delay(np.zeros((1, 2)), np.zeros((1, 3)),
                                   np.ones(1), convention=conv))
    check(isinstance(e, ValueError), "convention %r gives %r", conv, e)
    return 1


def jax_phase(p):
    """ the jax version, with numpy standing in for jax.numpy """
    l, m, dt = p
    names = ("jax", "jax.numpy", "africanus.rime.jax.phase",
             "africanus.rime.jax", "africanus.util.jax_init")
    saved = {k: sys.modules.pop(k, None) for k in names}
    fake = types.ModuleType("jax")
    fake.numpy = np
    fake.config = types.SimpleNamespace(update=lambda *a, **k: None)
    sys.modules["jax"], sys.modules["jax.numpy"] = fake, np
    try:
        import africanus.rime.jax.phase as mod
        fn = mod.phase_delay
    finally:
        for k in names:
            sys.modules.pop(k, None)
            if saved[k] is not None:
                sys.modules[k] = saved[k]
    lm = np.array([[l, m], [m, l]], dt)
    uvw = np.array(list(itertools.product((-7., 0., 3.), repeat=3)), dt)
    freq = np.array([0., 1e8, 2.5e8], dt)
    got = call(fn, lm, uvw, freq)
    check(got.dtype == np.result_type(dt, np.complex64), "type %s",
          got.dtype)
    same(got, phase_ref(lm, uvw, freq, -1), 1e-12 if dt == "f8" else 1e-4,
         "jax lm %s" % ((l, m),))
    return "ok"


# --- feeds ------------------------------------------------------------------
def feed_ref(pa, kind):
    out = np.zeros(pa.shape + (2, 2), "c16")
    for i in np.ndindex(*pa.shape):
        x = float(pa[i])
        if kind == "linear":
            out[i] = [[math.cos(x), math.sin(x)],
                      [-math.sin(x), math.cos(x)]]
        else:
            out[i] = [[np.exp(-1j * x), 0], [0, np.exp(1j * x)]]
    return out


def feeds(p):
    shape, kind, dt, layout, wide = p
    pa = generic(shape, dt, 3, -wide, wide)
    pa.flat[0] = 0
    a = relayout(pa, layout)
    kw = {} if kind == "default" else {"feed_type": kind}
    got = call(feed_rotation, a, **kw)
    kind = "linear" if kind == "default" else kind
    odt = np.complex64 if dt == "f4" else np.complex128
    check(got.dtype == odt, "type %s for %s", got.dtype, dt)
    same(got, feed_ref(pa, kind), 1e-14 if dt == "f8" else 1e-6, "%s" % (p,))
    untouched([a], [pa], "%s" % (p,))
    return got.shape


def feed_chunks(p):
    chunks, kind, dt = p
    pa = generic(tuple(sum(c) for c in chunks), dt, 3, -4, 4)
    v = call(rd.feed_rotation, da.from_array(pa, chunks=chunks), kind)
    want = call(feed_rotation, pa, kind)
    for got in run_orders(v, "feed chunks %s" % (p,), want.shape, want.dtype,
                          chunks + ((2,), (2,))):
        check(np.array_equal(got, want), "chunked feeds differ %s", p)
    return want.shape


def feed_bad(p):
    kind, dt, where = p
    a = np.zeros((2, 2), dt)
    if where == "dask":
        a = da.from_array(a, chunks=(1, 2))
    fn = feed_rotation if where == "np" else \
        lambda *x: rd.feed_rotation(*x).compute(scheduler="sync")
    e = raises(fn, a, kind)
    check(isinstance(e, ValueError), "feed type %r of %s gives %r", kind, dt,
          e)
    return 1


# --- source transformation --------------------------------------------------
def xform_ref(lm, pa, pe, sc, freq):
    s, (t, a), c = len(lm), pa.shape, len(freq)
    out = np.empty((3, s, t, a, c))
    for i, j, k, m in np.ndindex(s, t, a, c):
        x, y = (float(v) for v in lm[i])
        ang = float(pa[j, k])
        rl = x * math.cos(ang) - y * math.sin(ang)
        rm = x * math.sin(ang) + y * math.cos(ang)
        out[:, i, j, k, m] = ((rl + pe[j, k, 0]) * sc[k, m],
                              (rm + pe[j, k, 1]) * sc[k, m], freq[m])
    return out


def xform_args(s, t, a, c, dt="f8"):
    return [generic((s, 2), dt, 1), generic((t, a), dt, 2, -4, 4),
            generic((t, a, 2), dt, 3), generic((a, c), dt, 4, .5, 2),
            np.linspace(1e9, 2e9, c).astype(dt)]


def xforms(p):
    s, t, a, c, dt, odt, layout = p
    keep = xform_args(s, t, a, c, dt)
    args = [relayout(x, layout) for x in keep]
    kw = {} if odt == "default" else {"dtype": np.dtype(odt).type}
    got = call(transform_sources, *args, **kw)
    odt = "f8" if odt == "default" else odt
    check(got.dtype == odt, "type %s, expected %s", got.dtype, odt)
    want = xform_ref(*keep)
    rtol = 1e-12 if dt == odt == "f8" else 2e-6
    same(got[:2], want[:2], rtol, "transform %s" % (p,))
    same(got[2], want[2], rtol, "transform frequencies %s" % (p,))
    untouched(args, keep, "%s" % (p,))
    return got.shape


def xangles(p):
    """ every quadrant, axis and sign """
    l, m, ang, pl, pm = p
    keep = [np.array([[l, m]]), np.array([[ang]]), np.array([[[pl, pm]]]),
            np.array([[2.]]), np.array([1e9])]
    got = call(transform_sources, *keep)
    want = xform_ref(*keep)
    same(got[:2], want[:2], 1e-13, "transform %s" % (p,), scale=4)
    return tuple(np.sign(np.round(got[:2].ravel(), 9)))


def xform_chunks(p):
    sc, tc, ac, cc, dt, odt = p
    keep = xform_args(*([sum(x) for x in p[:4]] + [dt]))
    kw = {} if odt == "default" else {"dtype": np.dtype(odt).type}
    ch = ((sc, (2,)), (tc, ac), (tc, ac, (2,)), (ac, cc), (cc,))
    v = call(rd.transform_sources, *[da.from_array(x, chunks=c)
                                     for x, c in zip(keep, ch)], **kw)
    want = call(transform_sources, *keep, **kw)
    for got in run_orders(v, "transform chunks %s" % (p,), want.shape,
                          want.dtype, ((3,), sc, tc, ac, cc)):
        check(np.array_equal(got, want), "chunked transform differs %s", p)
    return want.shape


# --- beams ------------------------------------------------------------------
def freq_interp(freq, fmap):
    """ -> scale, [(weight, index)] """
    n = len(fmap)
    if freq <= fmap[0]:
        return freq / fmap[0], [(1., 0)]
    if freq >= fmap[-1]:
        return freq / fmap[-1], [(1., n - 1)]
    for i in range(n - 1):
        if fmap[i] <= freq <= fmap[i + 1]:
            x = (freq - fmap[i]) / (fmap[i + 1] - fmap[i])
            return 1., [(1 - x, i), (x, i + 1)]


def beam_ref(beam, ext, fmap, lm, pa, pe, sc, freq):
    lw, mh, nud = beam.shape[:3]
    corr = beam.shape[3:]
    s, (t, a), c = len(lm), pa.shape, len(freq)
    out = np.zeros((s, t, a, c) + corr, "c16")
    fmap = [float(x) for x in fmap]
    for si, ti, ai, ci in np.ndindex(s, t, a, c):
        scale, fw = freq_interp(float(freq[ci]), fmap)
        x = float(lm[si, 0]) * scale + float(pe[ti, ai, ci, 0])
        y = float(lm[si, 1]) * scale + float(pe[ti, ai, ci, 1])
        ang = float(pa[ti, ai])
        vl = (x * math.cos(ang) - y * math.sin(ang)) * float(sc[ai, ci, 0])
        vm = (x * math.sin(ang) + y * math.cos(ang)) * float(sc[ai, ci, 1])
        pos = []
        for v, (lo, hi), n in ((vl, ext[0], lw), (vm, ext[1], mh)):
            v = (n - 1) * (v - lo) / (hi - lo)
            v = min(max(v, 0.), n - 1.)
            i = min(int(math.floor(v)), n - 2)
            pos.append([(1 - (v - i), i), (v - i, i + 1)])
        tot = np.zeros(corr, "c16")
        amp = np.zeros(corr)
        for (wl, il), (wm, im), (wf, jf) in itertools.product(
                pos[0], pos[1], fw):
            z = beam[il, im, jf].astype("c16")
            tot = tot + wl * wm * wf * z
            amp = amp + wl * wm * wf * np.abs(z)
        div = np.abs(tot)
        out[si, ti, ai, ci] = np.where(div == 0, 0, tot * amp /
                                       np.where(div == 0, 1, div))
    return out


def beam_args(shape, corr, s, t, a, c, dt="f8", fmap=None, spread=1.5):
    cdt = "c16" if dt == "f8" else "c8"
    fmap = np.linspace(1e9, 1.4e9, shape[2]) if fmap is None else fmap
    return [generic(shape + corr, cdt, 1), np.array([[-1., 1.2], [-.8, 1.]],
                                                    dt),
            np.asarray(fmap, dt), generic((s, 2), dt, 2, -spread, spread),
            generic((t, a), dt, 3, -4, 4), generic((t, a, c, 2), dt, 4,
                                                   -.1, .1),
            generic((a, c, 2), dt, 5, .8, 1.2),
            np.linspace(.9e9, 1.5e9, c).astype(dt)]


def beams(p):
    shape, corr, dims, dt, layout = p
    keep = beam_args(shape, corr, *dims, dt=dt)
    args = [relayout(x, layout) for x in keep]
    got = call(beam_cube_dde, *args)
    check(got.dtype == keep[0].dtype, "type %s for %s", got.dtype,
          keep[0].dtype)
    want = beam_ref(*keep)
    same(got, want, 1e-9 if dt == "f8" else 2e-4, "beam %s" % (p,))
    untouched(args, keep, "%s" % (p,))
    state(want.size)
    return got.shape


def beam_positions(p):
    """ every position of a grid through, on and beyond the cube """
    shape, fi, corr = p
    keep = beam_args(shape, corr, 1, 1, 1, 1)
    fmap = keep[2]
    mids = [(fmap[i] + fmap[i + 1]) / 2 for i in range(len(fmap) - 1)]
    freqs = [fmap[0] * .5, fmap[0] * .99, fmap[-1] * 1.01, fmap[-1] * 2]
    freqs += list(fmap) + mids
    if fi >= len(freqs):
        return "none"
    ls = np.linspace(-1.4, 1.6, 11)
    step_l = np.linspace(-1., 1.2, shape[0])
    step_m = np.linspace(-.8, 1., shape[1])
    lm = np.array([(x, y) for x in np.concatenate([ls, step_l])
                   for y in np.concatenate([ls, step_m])])
    keep[3] = lm
    keep[4] = np.zeros((1, 1))
    keep[5] = np.zeros((1, 1, 1, 2))
    keep[6] = np.ones((1, 1, 2))
    keep[7] = np.array([freqs[fi]])
    got = call(beam_cube_dde, *keep)
    want = beam_ref(*keep)
    # positions on a grid line may fall to either side by rounding; the
    # interpolation is continuous there
    same(got, want, 1e-9, "beam shape %s frequency %s of %s" % (
        shape, freqs[fi], fmap.tolist()))
    state(len(lm))
    return fi


def beam_freqmaps(p):
    """ irregular frequency maps, every relative position of frequencies """
    fmap, = p
    ks = sorted(set(list(fmap) + [f + d for f in fmap for d in (-.5, .5)] +
                    [.25, fmap[-1] + 3]))
    ks = [k for k in ks if k > 0]
    keep = beam_args((3, 3, len(fmap)), (2,), 3, 1, 1, len(ks),
                     fmap=[f * 1e9 for f in fmap])
    keep[7] = np.array(ks) * 1e9
    got = call(beam_cube_dde, *keep)
    same(got, beam_ref(*keep), 1e-9, "frequency map %s" % (fmap,))
    return len(ks)


def beam_zero(p):
    """ beams that vanish or cancel """
    pattern, = p
    beam = np.zeros((2, 2, 2, 1), "c16")
    for i, v in enumerate(pattern):
        beam.reshape(-1)[i] = v
    keep = beam_args((2, 2, 2), (1,), 1, 1, 1, 1)
    keep[0] = beam
    keep[3] = np.array([[.1, .1]])
    keep[4] *= 0
    keep[5] *= 0
    keep[6][:] = 1
    keep[7] = np.array([1.2e9])
    got = call(beam_cube_dde, *keep)
    check(np.isfinite(got).all(), "beam %s gives %s", pattern, got)
    want = beam_ref(*keep)
    if np.abs(want).max() > 0:
        # the phase is undefined where contributions cancel
        z = np.abs(got).ravel()[0] - np.abs(want).ravel()[0]
        check(abs(z) < 1e-9 or abs(got.ravel()[0]) < 1e-9, "amplitude %s, "
              "expected %s for %s", np.abs(got), np.abs(want), pattern)
    else:
        check(np.abs(got).max() < 1e-12, "%s for %s", got, pattern)
    return float(np.round(np.abs(got).max(), 6))


def beam_chunks(p):
    sc, tc, ac, cc, corr = p
    keep = beam_args((3, 4, 2), corr, *[sum(x) for x in p[:4]])
    one = tuple((s,) for s in keep[0].shape)
    ch = (one, ((2,), (2,)), ((2,),), (sc, (2,)), (tc, ac),
          (tc, ac, cc, (2,)), (ac, cc, (2,)), (cc,))
    v = call(rd.beam_cube_dde, *[da.from_array(x, chunks=c)
                                 for x, c in zip(keep, ch)])
    want = call(beam_cube_dde, *keep)
    for got in run_orders(v, "beam chunks %s" % (p,), want.shape, want.dtype,
                          (sc, tc, ac, cc) + tuple((k,) for k in corr)):
        check(np.array_equal(got, want), "chunked beam differs %s", p)
    return want.shape


def beam_bad(p):
    kind, i = p
    keep = beam_args((3, 3, 3), (2,), 1, 1, 1, 1)
    if kind == "small":
        shape = [3, 3, 3]
        shape[i] = 1
        keep = beam_args(tuple(shape), (2,), 1, 1, 1, 1)
        e = raises(beam_cube_dde, *keep)
    else:
        ch = [tuple((s,) for s in x.shape) for x in keep]
        which, ax = i
        ch[which] = ch[which][:ax] + ((1,) * keep[which].shape[ax],) + \
            ch[which][ax + 1:]
        e = raises(rd.beam_cube_dde, *[da.from_array(x, chunks=c)
                                       for x, c in zip(keep, ch)])
    check(isinstance(e, ValueError), "%s %s gives %r", kind, i, e)
    return 1


# --- zernike ----------------------------------------------------------------
NOLL = []
for _n in range(0, 16):
    ms = sorted(range(_n % 2, _n + 1, 2))
    for _m in ms:
        NOLL.extend([(_n, _m)] * (1 if _m == 0 else 2))


def zern_ref(j, rho, phi):
    """ unnormalised Zernike polynomial of zero-based Noll index j """
    if rho > 1:
        return 0.
    n, m = NOLL[j]
    r = sum((-1) ** k * math.factorial(n - k) / (
        math.factorial(k) * math.factorial((n + m) // 2 - k) *
        math.factorial((n - m) // 2 - k)) * rho ** (n - 2 * k)
        for k in range((n - m) // 2 + 1))
    if m == 0:
        return r
    return r * (math.cos(m * phi) if (j + 1) % 2 == 0 else math.sin(m * phi))


def zern_dde_ref(coords, coeffs, noll):
    _, s, t, a, c = coords.shape
    corr = coeffs.shape[2:-1]
    out = np.zeros((s, t, a, c) + corr, "c16")
    for i in np.ndindex(s, t, a, c):
        l, m = (float(x) for x in coords[(slice(0, 2),) + i])
        rho, phi = math.hypot(l, m), math.atan2(l, m)
        for k in np.ndindex(*corr):
            out[i + k] = sum(complex(coeffs[i[2:] + k + (q,)]) * zern_ref(
                int(noll[i[2:] + k + (q,)]), rho, phi)
                for q in range(coeffs.shape[-1]))
    return out


def zernikes(p):
    """ every index on a grid of coordinates through and beyond the disk """
    j, cdt = p
    g = (-1.2, -.6, -.25, 0., .3, .8, 1.)
    pts = [(x, y) for x in g for y in g]
    coords = np.zeros((3, len(pts), 1, 1, 1))
    coords[0, :, 0, 0, 0] = [q[0] for q in pts]
    coords[1, :, 0, 0, 0] = [q[1] for q in pts]
    coords[2] = 1e9
    coeffs = np.array([1.25 - .5j], cdt).reshape(1, 1, 1, 1)
    noll = np.array([j]).reshape(1, 1, 1, 1)
    got = call(zernike_dde, coords, coeffs, noll)
    want = zern_dde_ref(coords, coeffs, noll)
    check(got.dtype == coeffs.dtype, "type %s", got.dtype)
    # (the terms of high orders are large and alternate in sign)
    same(got, want, (1e-11 if cdt == "c16" else 1e-5) * 10 ** max(
        0, NOLL[j][0] / 2 - 4), "Zernike index %s" % j)
    state(len(pts))
    return NOLL[j]


def zern_args(s, t, a, c, corr, poly, cdt="c16"):
    coords = generic((3, s, t, a, c), "f8", 1, -.7, .7)
    coeffs = generic((a, c) + corr + (poly,), cdt, 2)
    noll = (np.arange(coeffs.size) * 7 % 15).reshape(coeffs.shape)
    return [coords, coeffs, noll]


def zern_shapes(p):
    dims, corr, poly, layout = p
    keep = zern_args(*(dims + (corr, poly)))
    args = [relayout(x, layout) for x in keep]
    got = call(zernike_dde, *args)
    same(got, zern_dde_ref(*keep), 1e-11, "zernike %s" % (p,))
    untouched(args, keep, "%s" % (p,))
    return got.shape


def zern_chunks(p):
    sc, tc, ac, cc, corr, pc = p
    keep = zern_args(*([sum(x) for x in p[:4]] + [corr, sum(pc)]))
    kc = tuple((k,) for k in corr)
    ch = (((3,), sc, tc, ac, cc), (ac, cc) + kc + (pc,),
          (ac, cc) + kc + (pc,))
    v = call(rd.zernike_dde, *[da.from_array(x, chunks=c)
                               for x, c in zip(keep, ch)])
    want = zern_dde_ref(*keep)
    for got in run_orders(v, "zernike chunks %s" % (p,), want.shape,
                          keep[1].dtype, (sc, tc, ac, cc) + kc):
        same(got, want, 1e-11, "zernike chunks %s" % (p,))
    return want.shape


# --- gaussian shapes --------------------------------------------------------
def gauss_ref(uvw, freq, par):
    out = np.zeros((len(par), len(uvw), len(freq)))
    k = np.pi ** 2 / (4 * np.log(2))
    for s, r, f in np.ndindex(*out.shape):
        maj, mn, ang = (float(x) for x in par[s])
        u, v = (float(x) * float(freq[f]) / LIGHT for x in uvw[r][:2])
        along = u * math.sin(ang) + v * math.cos(ang)
        across = u * math.cos(ang) - v * math.sin(ang)
        if maj == 0:
            mn = 0
        out[s, r, f] = math.exp(-k * ((maj * along) ** 2 +
                                      (mn * across) ** 2))
    return out


def gauss(p):
    """ every axis pair and angle over a grid of baselines """
    maj, mn, ang, dts, layout = p
    uvw = np.array([(u, v, w) for u in (-90., 0., 40.) for v in (-70., 0.,
                                                                 25.)
                    for w in (0., 13.)], dts[0])
    freq = np.array([1e8, 1.1e9], dts[1])
    par = np.array([[maj, mn, ang], [mn, mn, ang], [maj, mn, -ang]], dts[2])
    if par[1, 0] == 0 and mn:
        return "skip"
    keep = [uvw, freq, par]
    args = [relayout(x, layout) for x in keep]
    got = call(gaussian, *args)
    check(got.dtype == np.result_type(*dts), "type %s for %s", got.dtype,
          dts)
    same(got, gauss_ref(*keep), 1e-12 if "f4" not in dts else 1e-5,
         "gaussian %s" % (p,))
    untouched(args, keep, "%s" % (p,))
    state(got.size)
    return "ok"


def gauss_chunks(p):
    sc, rc, cc, dts = p
    keep = [generic((sum(rc), 3), dts[0], 1, -50, 50),
            np.linspace(1e8, 2e9, sum(cc)).astype(dts[1]),
            generic((sum(sc), 3), dts[2], 2, 1e-3, 1e-2)]
    v = call(dgaussian, da.from_array(keep[0], chunks=(rc, (3,))),
             da.from_array(keep[1], chunks=(cc,)),
             da.from_array(keep[2], chunks=(sc, (3,))))
    want = call(gaussian, *keep)
    for got in run_orders(v, "gaussian chunks %s" % (p,), want.shape,
                          want.dtype, (sc, rc, cc)):
        check(np.array_equal(got, want), "chunked gaussian differs %s", p)
    return want.shape


# --- special values ---------------------------------------------------------
SPECIAL = {
    "transform": (transform_sources, xform_ref, ("lm", "pa", "pe", "sc",
                                                 "freq"),
                  lambda: xform_args(2, 2, 2, 2), {}, ()),
    "beam": (beam_cube_dde, beam_ref, ("beam", "ext", "fmap", "lm", "pa",
                                       "pe", "sc", "freq"),
             lambda: beam_args((3, 2, 3), (2,), 2, 1, 2, 2, spread=.6),
             {"freq": (1e9, 1.2e9, 1.4e9, .5e9, 3e9)}, ("ext", "fmap")),
    "zernike": (zernike_dde, zern_dde_ref, ("coords", "coeffs", "noll"),
                lambda: zern_args(2, 1, 2, 1, (2,), 2),
                {"noll": tuple(range(15))}, ()),
    "gaussian": (gaussian, gauss_ref, ("uvw", "freq", "par"),
                 lambda: [generic((2, 3), "f8", 1, -90, 90),
                          np.array([1e8, 1.1e9]),
                          generic((2, 3), "f8", 2, 1e-3, 1e-2)],
                 {"par": (0.0, 1e-9, 1e-3, 1.0, 3.0)}, ()),
    "phase": (phase_delay, lambda lm, uvw, freq: phase_ref(
        lm, uvw, freq, -1), ("lm", "uvw", "freq"),
        lambda: [generic((2, 2), "f8", 1, -.6, .6),
                 generic((2, 3), "f8", 2, -9, 9), np.array([1e8, 1.3e8])],
        {"lm": (0.0, -0.0, .6, -.6, 1e-9, .7), "freq": (0., 1., 1e9)}, ()),
}


def special_args(kind):
    fn, ref, names, make, other, skip = SPECIAL[kind]
    return dict(zip(names, make()))


def special_cases():
    return [(k,) + c for k in sorted(SPECIAL)
            for c in pokes(special_args(k), SPECIAL[k][5],
                           other=SPECIAL[k][4])]


def special(p):
    """ special values in one element or in all of an argument """
    kind = p[0]
    fn, ref = SPECIAL[kind][:2]
    a = list(poke(special_args(kind), p[1:]).values())
    got = call(fn, *a)
    want = ref(*a)
    if kind == "transform":
        same(got[:2], want[:2], 1e-10, "%s" % (p,), max(
            1e-6, np.abs(want[:2]).max()))
        same(got[2], want[2], 1e-10, "%s" % (p,))
    else:
        same(got, want, 1e-9, "%s" % (p,), max(1e-6, np.abs(want).max()))
    state()
    return kind


# --- size ladder ------------------------------------------------------------
CHUNKED = {
    "phase": lambda d, k: phase_chunks([cut(n, k) for n in d] + [
        "fourier", "f8"]),
    "feed": lambda d, k: feed_chunks((tuple(cut(n, k) for n in d),
                                      "circular", "f8")),
    "transform": lambda d, k: xform_chunks([cut(n, k) for n in d] + ["f8", "default"]),
    "beam": lambda d, k: beam_chunks([cut(n, k) for n in d] + [(2,)]),
    "zernike": lambda d, k: zern_chunks([cut(n, k) for n in d[:4]] + [
        (2,), cut(d[4], k)]),
    "gaussian": lambda d, k: gauss_chunks([cut(n, k) for n in d] + [
        ("f8",) * 3]),
    "parangles": lambda d, k: parangles([cut(n, k) for n in d]),
}


def ladder(p):
    """ larger problems, one dimension at a time, in memory and chunked """
    kind, d = p
    what = "%s of size %s" % (kind, d)
    if kind == "phase":
        a = [generic((d[0], 2), "f8", 1, -.6, .6), generic(
            (d[1], 3), "f8", 2, -9, 9), np.linspace(1e8, 2e8, d[2])]
        same(call(phase_delay, *a), phase_ref(*(a + [-1])), 1e-12, what)
    elif kind == "feed":
        for f in ("linear", "circular"):
            feeds((d, f, "f8", "C", 4))
    elif kind == "transform":
        xforms(d + ("f8", "default", "C"))
    elif kind == "beam":
        beams(((3, 2, 3), (2, 2), d, "f8", "C"))
    elif kind == "cube":
        beams((d, (2,), (3, 2, 2, 3), "f8", "C"))
        a = beam_args(d, (2,), 24, 1, 1, 3, spread=1.)
        same(call(beam_cube_dde, *a), beam_ref(*a), 1e-9, what)
    elif kind == "zernike":
        zern_shapes((d[:4], (2,), d[4], "C"))
    elif kind == "gaussian":
        a = [generic((d[1], 3), "f8", 1, -50, 50), np.linspace(
            1e8, 2e9, d[2]), generic((d[0], 3), "f8", 2, 1e-3, 1e-2)]
        same(call(gaussian, *a), gauss_ref(*a), 1e-12, what)
    for k in (1, 2, 3):
        if kind in CHUNKED:
            CHUNKED[kind](d, k)
    state()
    return kind


LADDER = {"phase": (2, 3, 2), "feed": (2, 3), "transform": (2, 2, 2, 2),
          "beam": (2, 1, 2, 2), "cube": (3, 2, 2), "zernike": (2, 1, 2, 2, 2),
          "gaussian": (2, 3, 2), "parangles": (2, 2)}


# --- parallactic angles -----------------------------------------------------
def parangles(p):
    tc, ac = p
    times = generic((sum(tc),), "f8", 1, 4e9, 5e9)
    ants = generic((sum(ac), 3), "f8", 2, 1e5, 5e6)
    fc = np.array([.3, -.4])
    want = times[:, None] * ants.sum(axis=1)[None]
    got = call(parallactic_angles, times, ants, fc, backend="test")
    same(got, want, 1e-12, "parallactic angles")
    v = call(rd.parallactic_angles, da.from_array(times, chunks=(tc,)),
             da.from_array(ants, chunks=(ac, (3,))),
             da.from_array(fc, chunks=2), backend="test")
    for got in run_orders(v, "parallactic angles %s" % (p,), want.shape,
                          "f8", (tc, ac)):
        same(got, want, 1e-12, "chunked parallactic angles %s" % (p,))
    return want.shape


def casa(p):
    """ the casa backend, with a measures server which computes a function of
    the frame it was last told; another thread may compute at any point """
    nt, na, at, layout = p
    hook, count = [None], [0]

    class Angle(object):
        def __init__(self, v):
            self.v = v

        def get_value(self, unit="rad"):
            return self.v * {"rad": 1.0, "deg": 180 / np.pi}[unit]

    class Measures(object):
        def __init__(self):
            self.frame = {}

        def direction(self, ref, a, b):
            if isinstance(a, str):
                check((ref, a, b) == ("AZEL", "0deg", "90deg"), "zenith is "
                      "%s", (ref, a, b))
                return "zenith"
            check(ref == "J2000" and a[1] == b[1] == "rad", "field centre in "
                  "%s %s", ref, (a, b))
            return a[0], b[0]

        def position(self, ref, *q):
            check(ref.lower() == "itrf" and all(u == "m" for _, u in q) and
                  len(q) == 3, "positions are %s %s", ref, q)
            return "position", tuple(v for v, _ in q)

        def epoch(self, ref, q):
            check(ref == "UTC" and q[1] == "s", "times are %s %s", ref, q)
            return "epoch", q[0]

        def do_frame(self, f):
            self.frame[f[0]] = f[1]
            self.tick()
            return True

        def posangle(self, fc, zenith):
            self.tick()
            check(zenith == "zenith", "angle towards %s", zenith)
            return Angle(value(self.frame["epoch"], self.frame["position"],
                               fc))

        def tick(self):
            count[0] += 1
            if count[0] == at and hook[0] is not None:
                h, hook[0] = hook[0], None
                t = threading.Thread(target=h)
                t.start()
                t.join()

    def value(t, pos, fc):
        x, y, z = pos
        return t * 0.5 + x - 2 * y + 3 * z + 7 * fc[0] - 11 * fc[1]
    names = ("pyrap", "pyrap.measures", "pyrap.quanta",
             "africanus.rime.parangles_casa")
    saved = {k: sys.modules.get(k) for k in names}
    mods = {k: types.ModuleType(k) for k in names[:3]}
    mods["pyrap"].measures = mods["pyrap.measures"]
    mods["pyrap"].quanta = mods["pyrap.quanta"]
    mods["pyrap"].__path__ = []
    mods["pyrap.measures"].measures = Measures
    mods["pyrap.quanta"].quantity = lambda v, unit: (float(v), unit)
    sys.modules.update(mods)
    sys.modules.pop(names[3], None)
    try:
        mod = importlib.import_module(names[3])
        fn = mod.casa_parallactic_angles
        data = []
        for salt in (0, 30):
            t = generic((nt,), "f8", 1 + salt, 10, 20)
            t[-1] = 0.0
            data.append((relayout(t, layout),
                         relayout(generic((na, 3), "f8", 2 + salt), layout),
                         generic((2,), "f8", 3 + salt)))
        other = []
        hook[0] = lambda: other.append(fn(*data[1]))
        res = [call(fn, *data[0])]
        if at:
            check(other, "never reached")
        res.append(other[0] if other else fn(*data[1]))
    finally:
        for k in names:
            sys.modules.pop(k, None)
            if saved[k] is not None:
                sys.modules[k] = saved[k]
    for got, (t, pos, fc) in zip(res, data):
        want = np.array([[value(a, tuple(b), tuple(fc)) for b in pos]
                         for a in t]).reshape(nt, na)
        check(got.shape == want.shape and np.allclose(got, want, rtol=1e-13),
              "angles %s, expected %s (%s)", got.tolist(), want.tolist(), p)


def parangle_bad(p):
    backend, fshape = p
    e = raises(parallactic_angles, np.zeros(2), np.zeros((2, 3)),
               np.zeros(fshape), backend=backend)
    check(isinstance(e, ValueError), "backend %r field %s gives %r", backend,
          fshape, e)
    return 1


def groups(tier):
    deep = tier == "thorough"
    g = []
    grid = (-.6, -.3, 0., .1, .6, .8) if deep else GRID
    cases = [(l, m, c, dt, du, lay) for l in grid for m in grid
             for c in ("default", "fourier", "casa")
             for dt, du, lay in [("f8", "f8", k) for k in LAYOUTS] +
             [("f4", "f8", "C"), ("f8", "f4", "C")]
             if l * l + m * m <= 1]
    g.append(Group("phase", cases, phases, "the phase delay is exp(-+2 pi i "
                   "(ul+vm+w(n-1)) nu/c)", "grid of l, m x all sign/zero "
                   "patterns of uvw x 3 frequencies x conventions x "
                   "layouts"))
    fl = ("f4", "f8")
    g.append(Group("phase-precision", [
        (d, c) for d in itertools.product(fl, repeat=3)
        for c in ("fourier", "casa")], phase_prec, "the result has the "
        "complex precision of the inputs", "all precisions"))
    comp3 = list(compositions(3))
    comp2 = list(compositions(2))
    g.append(Group("phase-chunks", [
        (a, b, c, v, "f8") for a in comp3 for b in comp3 for c in comp2
        for v in ("fourier", "casa")], phase_chunks, "chunked phase delays "
        "equal the in-memory ones", "all chunkings of 3 x 3 x 2"))
    g.append(Group("phase-bad", [(c,) for c in ("", "Fourier", "CASA",
                                                "none")], phase_bad,
                   "unknown conventions are rejected", "4 names"))
    g.append(Group("phase-jax", [(l, m, dt) for l in grid for m in grid
                                 for dt in fl if l * l + m * m <= 1],
                   jax_phase, "the jax version computes the same (numpy "
                   "stands in for jax.numpy)", "grid of l, m"))
    cases = [(s, k, dt, lay, w) for s in ((1,), (4,), (2, 3), (2, 1, 3),
                                          (1, 2, 2, 2))
             for k in ("default", "linear", "circular") for dt in fl
             for lay in LAYOUTS for w in (1, 4, 50)]
    g.append(Group("feeds", cases, feeds, "feed rotations are the documented "
                   "matrices", "1-4 dimensional angles in all quadrants"))
    g.append(Group("feed-chunks", [
        ((a, b), k, dt) for a in comp3 for b in comp2
        for k in ("linear", "circular") for dt in fl] + [
        (c, k, dt) for c in [(a,) for a in comp3] + [
            (a, b, d) for a in comp2 for b in comp2 for d in comp2] + [
            ((1, 1), (2,), (1, 1), (1,))]
        for k in ("linear", "circular") for dt in fl], feed_chunks,
        "chunked feed rotations", "all chunkings of 3, 3 x 2 and 2 x 2 x 2"))
    cases = [("", "f8", "np"), ("Linear", "f8", "np"), ("linear", "i8",
                                                        "np"),
             ("circular", "c16", "np"), ("linear", "i8", "dask"),
             ("circular", "i4", "dask")]
    g.append(Group("feed-bad", cases, feed_bad, "unknown feed types and "
                   "types of angles are rejected", "6 requests"))
    cases = [(s, t, a, c, dt, o, lay) for s, t, a, c in itertools.product(
        (1, 2), repeat=4) for dt in fl for o in ("default", "f8", "f4")
        for lay in (LAYOUTS if deep or s == t == a == c == 2 else ("C",))]
    g.append(Group("transform", cases, xforms, "sources are rotated, offset "
                   "and scaled per time, antenna and channel",
                   "all sizes <= 2 x precisions x layouts"))
    v = (-.5, 0., .25)
    angs = [k * math.pi / 4 for k in range(-4, 5)] + [.3, 2., -1.1]
    g.append(Group("transform-angles", [
        (l, m, x, a, b) for l in v for m in v for x in angs
        for a, b in ((0., 0.), (.1, -.2))], xangles, "in every quadrant",
        "9 positions x %d angles" % len(angs)))
    g.append(Group("transform-chunks", [
        (a, b, c, d, "f8", "default") for a in comp2 for b in comp2
        for c in comp2 for d in comp2 + comp3] + [
            (a, a, (2,), a, dt, o) for a in comp2 for dt in fl
            for o in ("default", "f8", "f4") if (dt, o) != (
                "f8", "default")], xform_chunks, "chunked transforms",
        "all chunkings of 2 x 2 x 2 x 2..3"))
    shapes = list(itertools.product((2, 3) + ((4,) if deep else ()),
                                    repeat=3))
    cases = [(s, c, (2, 2, 2, 3), dt, "C") for s in shapes
             for c in ((1,), (2,), (2, 2)) for dt in fl]
    cases += [((3, 2, 3), (2, 2), d, "f8", "C") for d in
              itertools.product((1, 2), (1, 2), (1, 3), (1, 4))]
    cases += [((3, 2, 2), (2, 2), (2, 1, 2, 2), "f8", lay)
              for lay in LAYOUTS[1:]]
    g.append(Group("beams", cases, beams, "beam cubes are interpolated "
                   "trilinearly with amplitudes preserved",
                   "all cube sizes 2..%d" % (4 if deep else 3)))
    cases = [(s, i, c) for s in shapes for i in range(10 if deep else 9)
             for c in ((1,), (2, 2)) if i < 4 + 2 * s[2] - 1]
    g.append(Group("beam-positions", cases, beam_positions, "on, between and "
                   "beyond all samples, clamped at the edges and scaled "
                   "outside the band", "grid of positions covering the cube "
                   "and its outside x every relative frequency"))
    maps = [m for k in (2, 3, 4) for m in itertools.combinations(
        (1, 2, 3, 5, 8), k)]
    g.append(Group("beam-frequencies", [(m,) for m in maps], beam_freqmaps,
                   "regular and irregular frequency maps",
                   "all subsets of 5 frequencies, frequencies on and between "
                   "all of them"))
    vals = (0, 1, -1, 1j)
    g.append(Group("beam-zero", [(q + q[::-1],) for q in itertools.product(
        vals, repeat=4)], beam_zero, "vanishing beams stay finite",
        "all patterns of 0, 1, -1, i over 4 voxels"))
    g.append(Group("beam-chunks", [
        (a, b, c, d, k) for a in comp2 for b in comp2 for c in comp2
        for d in comp2 for k in ((2,), (2, 2))] + [
            (a, (1,), (2,), d, (2,)) for a in comp3 for d in comp3],
        beam_chunks, "chunked beams", "all chunkings of 2 x 2 x 2 x 2"))
    g.append(Group("beam-bad", [("small", i) for i in range(3)] + [
        ("chunked", (w, ax)) for w, ax in ((0, 0), (0, 1), (0, 2), (1, 0),
                                           (1, 1), (2, 0))], beam_bad,
        "beams of one sample and chunked beams are rejected", "all axes"))
    g.append(Group("zernike", [(j, c) for j in range(len(NOLL))
                               for c in ("c16", "c8")], zernikes,
                   "Zernike sums are those of the Noll indices",
                   "indices 0..%d on a 7x7 grid" % (len(NOLL) - 1)))
    cases = [((s, t, a, c), k, q, "C") for s, t, a, c in itertools.product(
        (1, 2), repeat=4) for k in ((1,), (2,), (2, 2)) for q in (1, 2)]
    cases += [((2, 1, 2, 2), (2, 2), 3, lay) for lay in LAYOUTS[1:]]
    g.append(Group("zernike-shapes", cases, zern_shapes, "for every source, "
                   "time, antenna, channel and correlation",
                   "all sizes <= 2"))
    g.append(Group("zernike-chunks", [
        (a, b, c, d, k, q) for a in comp2 for b in comp2 for c in comp2
        for d in comp2 for k in ((2,), (2, 2)) for q in comp2],
        zern_chunks, "chunked Zernike sums, also over chunks of "
        "polynomials", "all chunkings of 2 x 2 x 2 x 2 and 2 polynomials"))
    axes = (0., 1e-3, 4e-3)
    cases = [(a, b, x, d, "C") for a in axes for b in axes for x in angs
             for d in itertools.product(fl, repeat=3)
             if d in (("f8",) * 3, ("f4",) * 3) or x == .3]
    cases += [(4e-3, 1e-3, .3, ("f8",) * 3, lay) for lay in LAYOUTS[1:]]
    g.append(Group("gaussian", cases, gauss, "shapes are the transforms of "
                   "Gaussians of the given axes and position angle",
                   "grid of axes, angles and baselines"))
    g.append(Group("gaussian-chunks", [
        (a, b, c, d) for a in comp3 for b in comp3 for c in comp2
        for d in (("f8",) * 3, ("f4", "f8", "f4"), ("f4",) * 3)],
        gauss_chunks, "chunked shapes", "all chunkings of 3 x 3 x 2"))
    g.append(Group("parangles", [(a, b) for a in comp3 for b in comp3],
                   parangles, "the test backend's angles, chunked or not",
                   "all chunkings of 3 x 3"))
    g.append(Group("parangles-casa", [
        (t, a, at, lay) for t in (1, 2, 3) for a in (1, 2, 3)
        for at in range(0, t + 2 * t * a + 1) for lay in ("C", "F",
                                                          "strided")
        if at == 0 or lay == "C"], casa, "the casa backend sets the frame of "
        "each time and antenna, whenever another thread computes",
        "<= 3 x 3, every point"))
    g.append(Group("parangle-bad", [("none", (2,)), ("", (2,)),
                                    ("test", (3,)), ("test", (1, 2)),
                                    ("test", (1,))], parangle_bad,
                   "unknown backends and field shapes are rejected",
                   "5 requests"))
    lens = (4, 5, 8, 9, 17, 33) + ((65, 129) if deep else ())
    g.append(Group("ladder", [(k, d) for k in sorted(LADDER)
                              for d in rungs(LADDER[k], lens)], ladder,
                   "one large dimension, in memory and in many chunks",
                   "<= %d elements, <= %d chunks" % (max(lens), max(lens))))
    g.append(Group("values", special_cases(), special, "special values "
                   "(zeros, purely real or imaginary, tiny, large) are not "
                   "special",
                   "one or all elements of every argument x the values"))
    return g
