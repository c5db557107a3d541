"""C21: spectra of sky models, spectral index fits and component lists."""
import itertools
import math
import os
import tempfile

import numpy as np
import dask.array as da

from core import Group, call, check, raises, schedule, state
from refs import (LAYOUTS, compositions, cut, generic, poke, pokes, relayout,
                  rungs)
import dsched
from africanus.model.spectral import spectral_model
from africanus.model.spectral.spec_model import numpy_spectral_model
from africanus.model.spectral.dask import spectral_model as dspectral
from africanus.model.spi import fit_spi_components
from africanus.model.spi.dask import fit_spi_components as dfit
from africanus.model.wsclean import load, spectra
from africanus.model.wsclean.dask import spectra as dspectra

ASSUMPTIONS = ["positive flux with logarithmic polynomials, positive "
               "frequencies",
               "spectral index fits have more than two channels and well "
               "scaled data", "the coefficient axis is a single chunk"]
FL = ("f4", "f8")
INT = {"std": 0, "log": 1, "log10": 2}


def same(got, want, tol, what):
    check(got.shape == want.shape, "shape %s, expected %s (%s)", got.shape,
          want.shape, what)
    check(np.array_equal(np.isnan(got), np.isnan(want)), "%s: %s, expected "
          "%s", what, got, want)
    e = np.abs(got - want) / np.maximum(np.abs(want), 1e-30)
    e = np.nanmax(e) if e.size else 0
    check(e <= tol, "relative error %s (%s): %s, expected %s", e, what,
          got.ravel()[:6], want.ravel()[:6])


# --- spectral model ---------------------------------------------------------
def value(base, i0, coefs, ratio):
    """ the documented polynomial """
    if base == "std":
        v = i0
        for a in coefs:
            v = v * ratio ** a
        return v
    if base == "log":
        return math.exp(math.log(i0) + sum(a * math.log(ratio) ** (k + 1)
                                           for k, a in enumerate(coefs)))
    return 10 ** (math.log10(i0) + sum(a * math.log10(ratio) ** (k + 1)
                                       for k, a in enumerate(coefs)))


def per_pol(base, npol):
    if isinstance(base, (tuple, list)):
        b = list(base)
    else:
        b = [base] * npol
    b = [{0: "std", 1: "log", 2: "log10"}.get(x, x) for x in b]
    return (b + [b[-1]] * npol)[:npol]


def spec_ref(stokes, spi, rf, freq, base):
    st = stokes.reshape(stokes.shape[0], -1).astype("f8")
    sp = spi.reshape(spi.shape[0], spi.shape[1], -1).astype("f8")
    out = np.zeros((len(st), len(freq), st.shape[1]))
    for s, f, p in np.ndindex(*out.shape):
        out[s, f, p] = value(per_pol(base, out.shape[2])[p], st[s, p],
                             sp[s, :, p], float(freq[f]) / float(rf[s]))
    return out.reshape((len(st), len(freq)) + stokes.shape[1:])


def spec_in(nsrc, nspi, nchan, pol, dts=("f8",) * 4):
    stokes = generic((nsrc,) + pol, dts[0], 1, .3, 4)
    spi = generic((nsrc, nspi) + pol, dts[1], 2, -1.5, 1.5)
    rf = generic((nsrc,), dts[2], 3, .8e9, 1.4e9)
    return stokes, spi, rf, np.linspace(.6e9, 1.9e9, nchan).astype(dts[3])


def spec(p):
    nsrc, nspi, nchan, pol, base, dts, layout = p
    a = spec_in(nsrc, nspi, nchan, pol, dts)
    arg = [relayout(x, layout) for x in a]
    b = list(base) if isinstance(base, tuple) else base
    keep = b if not isinstance(b, list) else list(b)
    got = call(spectral_model, *arg, base=b)
    odt = np.result_type(*dts)
    check(got.dtype == odt, "type %s of %s", got.dtype, p)
    want = spec_ref(*(a + (base,)))
    same(got, want, 1e-11 if set(dts) == {"f8"} else 3e-5, "%s" % (p,))
    check(b == keep, "the list of bases was changed (%s)", p)
    for x, y in zip(arg, a):
        check(np.array_equal(x, y), "an argument was changed (%s)", p)
    if base == 0:
        check(np.array_equal(call(spectral_model, *arg), got), "the default "
              "base is not std")
    if dts == ("f8",) * 4:
        same(call(numpy_spectral_model, *a, base=b), want, 1e-11,
             "numpy version %s" % (p,))
    return str(odt)


def spec_sign(p):
    """ standard base with fluxes of any sign """
    i0, coefs, ratio = p
    got = call(spectral_model, np.array([i0]), np.array([coefs]),
               np.array([1e9]), np.array([1e9 * ratio]), base=0)
    same(got, np.array([[value("std", i0, coefs, ratio)]]), 1e-12, "%s" %
         (p,))
    return i0 > 0


def spec_bad(p):
    kind, = p
    st, spi, rf, fr = spec_in(2, 2, 2, (2,))
    if kind == "base":
        e = raises(spectral_model, st, spi, rf, fr, base="ln")
    elif kind == "base-int":
        e = raises(spectral_model, st, spi, rf, fr, base=3)
    elif kind == "base-list":
        e = raises(spectral_model, st, spi, rf, fr, base=[0, 5])
    elif kind == "ndim":
        e = raises(spectral_model, st[:, 0], spi, rf, fr)
    elif kind == "pol":
        e = raises(spectral_model, st, spi[:, :, :1], rf, fr)
    elif kind == "spi-chunks":
        e = raises(dspectral, *[da.from_array(x, chunks=c) for x, c in (
            (st, (2, 2)), (spi, (2, 1, 2)), (rf, 2), (fr, 2))])
    check(isinstance(e, (ValueError, TypeError)), "%s gives %r", kind, e)
    return kind


def spec_chunks(p):
    sc, cc, pc, base, dts = p
    pol = (sum(pc),) if pc else ()
    a = spec_in(sum(sc), 2, sum(cc), pol, dts)
    b = list(base) if isinstance(base, tuple) else base
    pk = (pc,) if pc else ()
    args = [da.from_array(x, chunks=c) for x, c in zip(
        a, ((sc,) + pk, (sc, (2,)) + pk, (sc,), (cc,)))]
    if isinstance(base, tuple) and pc and len(pc) > 1:
        # either refused or right, never the wrong base
        try:
            v = call(dspectral, *args, base=b)
        except ValueError:
            return "refused"
    else:
        v = call(dspectral, *args, base=b)
    odt = np.result_type(*dts)
    check(v.chunks == (sc, cc) + pk, "declares %s (%s)", v.chunks, p)
    check(v.dtype == odt, "declares %s, expected %s (%s)", v.dtype, odt, p)
    want = spec_ref(*(a + (base,)))
    for order in ("first", "last"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        check(got.dtype == odt, "is %s (%s)", got.dtype, p)
        same(got, want, 1e-11 if odt == "f8" and "f4" not in dts else 3e-5,
             "%s" % (p,))
    if base == 0:
        got = call(dsched.compute, call(dspectral, *args), "first")[0]
        same(got, want, 1e-11 if "f4" not in dts else 3e-5,
             "default base %s" % (p,))
    got = call(dsched.compute, (v + 1).sum(axis=0), "first")[0]
    same(got, (want + 1).sum(axis=0), 1e-10 if "f4" not in dts else 3e-5,
         "sum of %s" % (p,))
    return got.shape


# --- special values ---------------------------------------------------------
COEF = (0., -0., 1., -1., 2., -3.5, 1e-9)
FREQ = (1., 1e9, 1.4e9, 1e11)


def spec_arrays():
    return dict(zip(("stokes", "spi", "rf", "freq"), spec_in(2, 2, 2, (2,))))


def ws_arrays():
    return dict(zip(("I", "coeffs", "rf", "freq"), ws_in(2, 2, 2)))


def value_cases():
    flux = (0., -0., -1., 1., -1e-9, 1e3)
    for kind, arr in (("spec", spec_arrays()), ("ws", ws_arrays())):
        bases = ("std", "log", "log10", ("std", "log"), ("log10", "std")) \
            if kind == "spec" else (False, True, (False, True))
        for b in bases:
            plain = b in ("std", False)
            fl = flux if plain else tuple(x for x in flux if x > 0)
            for c in pokes(arr, other={
                    "stokes": fl, "I": fl, "spi": COEF, "coeffs": COEF,
                    "rf": FREQ[1:], "freq": FREQ[1:]}):
                yield kind, b, c
            # a channel at the reference frequency of a source
            for s in (0, 1):
                for ch in (0, 1):
                    yield kind, b, ("freq", ch, float(arr["rf"][s]))


def values(p):
    kind, b, c = p
    if kind == "spec":
        a = tuple(poke(spec_arrays(), c).values())
        base = list(b) if isinstance(b, tuple) else b
        want = spec_ref(*a, b)
        same(call(spectral_model, *a, base=base), want, 1e-10, "%s" % (p,))
        same(call(numpy_spectral_model, *a, base=base), want, 1e-10,
             "numpy version %s" % (p,))
    else:
        i, co, rf, fr = poke(ws_arrays(), c).values()
        lg = b if isinstance(b, bool) else np.array(b)
        got = call(spectra, i, co, lg, rf, fr)
        want = ws_ref(i, co, b, rf, fr)
        ref = np.maximum(ws_ref(np.abs(i), np.abs(co), b, rf, fr),
                         np.abs(want)) + 1
        check((np.abs(got - want) <= 1e-10 * ref).all(), "%s, expected %s "
              "(%s)", got, want, p)
    return kind


# --- wsclean spectra --------------------------------------------------------
def ws_value(log, i0, coefs, ratio):
    if log:
        return math.exp(math.log(i0) + sum(c * math.log(ratio) ** (k + 1)
                                           for k, c in enumerate(coefs)))
    return i0 + sum(c * (ratio - 1) ** (k + 1) for k, c in enumerate(coefs))


def ws_ref(i, co, log, rf, fr):
    return np.array([[ws_value(log if isinstance(log, bool) else log[s],
                               float(i[s]), [float(c) for c in co[s]],
                               float(f) / float(rf[s])) for f in fr]
                     for s in range(len(i))])


def ws_in(nsrc, nco, nchan, dts=("f8",) * 4):
    return (generic((nsrc,), dts[0], 1, .3, 4),
            generic((nsrc, nco), dts[1], 2, -1.5, 1.5),
            generic((nsrc,), dts[2], 3, .8e9, 1.4e9),
            np.linspace(.6e9, 1.9e9, nchan).astype(dts[3]))


def ws(p):
    nsrc, nco, nchan, log, dts, layout, neg = p
    i, co, rf, fr = ws_in(nsrc, nco, nchan, dts)
    lg = log if isinstance(log, bool) else np.array(log)
    if neg:         # ordinary polynomials have any sign
        i = np.where(np.array([lg] * nsrc if isinstance(log, bool) else lg),
                     i, -i).astype(i.dtype)
    arg = [relayout(x, layout) for x in (i, co, rf, fr)]
    lga = lg if isinstance(log, bool) else relayout(lg, layout)
    got = call(spectra, arg[0], arg[1], lga, arg[2], arg[3])
    odt = np.result_type(*dts)
    check(got.dtype == odt, "type %s of %s", got.dtype, p)
    want = ws_ref(i, co, log, rf, fr)
    tol = 1e-10 if set(dts) == {"f8"} else 1e-4
    e = np.abs(got - want).max()
    check(got.shape == want.shape and e <= tol * np.abs(want).max(),
          "off by %s (%s): %s, expected %s", e, p, got, want)
    for x, y in zip(arg, (i, co, rf, fr)):
        check(np.array_equal(x, y), "an argument was changed (%s)", p)
    return str(odt)


def ws_bad(p):
    kind, = p
    i, co, rf, fr = ws_in(2, 2, 2)
    lg = np.array([True, False])
    if kind == "zero":
        e = raises(spectra, i * [0, 1], co, lg, rf, fr)
    elif kind == "negative":
        e = raises(spectra, -i, co, True, rf, fr)
    elif kind == "I":
        e = raises(spectra, i[:1], co, lg, rf, fr)
    elif kind == "coeffs":
        e = raises(spectra, i, co[:1], lg, rf, fr)
    elif kind == "ref":
        e = raises(spectra, i, co, lg, rf[:1], fr)
    elif kind == "log":
        e = raises(spectra, i, co, lg[:1], rf, fr)
    elif kind == "log-more":
        e = raises(spectra, i, co, np.array([True, False, True]), rf, fr)
    elif kind == "I-more":
        e = raises(spectra, np.append(i, 1.), co, lg, rf, fr)
    elif kind == "ref-more":
        e = raises(spectra, i, co, lg, np.append(rf, 1e9), fr)
    check(isinstance(e, ValueError), "%s gives %r", kind, e)
    return kind


def ws_chunks(p):
    sc, cc, log, dts = p
    i, co, rf, fr = ws_in(sum(sc), 2, sum(cc), dts)
    lg = log
    if not isinstance(log, bool):
        lg = da.from_array(np.array(log), chunks=(sc,))
    v = call(dspectra, da.from_array(i, chunks=(sc,)),
             da.from_array(co, chunks=(sc, (2,))), lg,
             da.from_array(rf, chunks=(sc,)), da.from_array(fr, chunks=(cc,)))
    odt = np.result_type(*dts)
    check(v.chunks == (sc, cc), "declares %s (%s)", v.chunks, p)
    check(v.dtype == odt, "declares %s, expected %s (%s)", v.dtype, odt, p)
    want = ws_ref(i, co, log, rf, fr)
    for order in ("first", "last"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        check(got.dtype == odt, "is %s (%s)", got.dtype, p)
        check(np.abs(got - want).max() < 1e-4 * np.abs(want).max(),
              "%s, expected %s (%s)", got, want, p)
    try:                # chunked coefficients: all of them, or refused
        got = dsched.compute(dspectra(
            da.from_array(i, chunks=(sc,)),
            da.from_array(co, chunks=(sc, (1, 1))), lg,
            da.from_array(rf, chunks=(sc,)),
            da.from_array(fr, chunks=(cc,))))[0]
    except ValueError:
        pass
    else:
        check(np.abs(got - want).max() < 1e-4 * np.abs(want).max(),
              "chunked coefficients: %s, expected %s (%s)", got, want, p)
    return got.shape


# --- fits -------------------------------------------------------------------
def fit_in(alphas, i0s, nchan, freq0, beam, salt, dt="f8"):
    fr = np.linspace(.5e9, 1.5e9, nchan)
    n = len(alphas)
    b = np.ones((n, nchan))
    if beam:
        b = generic((n, nchan), "f8", 4 + salt, .6, 1.)
    data = b * np.array(i0s)[:, None] * (fr / freq0) ** np.array(alphas)[
        :, None]
    w = generic((nchan,), "f8", 5 + salt, .5, 3.)
    return data.astype(dt), w.astype(dt), fr.astype(dt), b.astype(dt)


def fit(p):
    """ noiseless: the generating spectrum """
    alphas, i0s, nchan, freq0, beam, start, dt, layout = p
    data, w, fr, b = fit_in(alphas, i0s, nchan, freq0, beam, 0, dt)
    kw = {"beam": b} if beam else {}
    if "a" in start:
        kw["alphai"] = (np.array(alphas) + .2).astype(dt)
    if "i" in start:
        kw["I0i"] = (np.array(i0s) * 1.2).astype(dt)
    args = [relayout(x, layout) for x in (data, w, fr)]
    kw = {k: relayout(v, layout) for k, v in kw.items()}
    keep = [x.copy() for x in args] + [v.copy() for v in kw.values()]
    tol = 1e-9 if dt == "f8" else 1e-5
    got = call(fit_spi_components, *args, freq0=freq0, tol=tol, maxiter=200,
               **kw)
    check(got.shape == (4, len(alphas)) and got.dtype == np.dtype(dt),
          "%s %s (%s)", got.shape, got.dtype, p)
    t = 1e-6 if dt == "f8" else 2e-3
    check(np.abs(got[0] - alphas).max() < t, "spectral indices %s, expected "
          "%s (%s)", got[0], alphas, p)
    check(np.abs(got[2] / i0s - 1).max() < t, "intensities %s, expected %s "
          "(%s)", got[2], i0s, p)
    check(np.abs(got[1]).max() < t and np.abs(got[3]).max() < t,
          "variances %s %s of a perfect fit (%s)", got[1], got[3], p)
    for x, y in zip(list(args) + list(kw.values()), keep):
        check(np.array_equal(x, y), "an argument was changed (%s)", p)
    return 1


def fit_faint(p):
    """ noiseless spectra of any brightness """
    alpha, i0, beam, start = p
    data, w, fr, b = fit_in((alpha,), (i0,), 8, .9e9, beam, 0)
    kw = {"beam": b} if beam else {}
    if start:
        kw["alphai"], kw["I0i"] = np.array([alpha + .2]), np.array([i0 * 1.1])
    got = call(fit_spi_components, data, w, fr, .9e9, tol=1e-13,
               maxiter=40, **kw)
    check(abs(got[0, 0] - alpha) < 1e-6, "spectral index %s, expected %s "
          "(%s)", got[0, 0], alpha, p)
    check(abs(got[2, 0] / i0 - 1) < 1e-6, "intensity %s, expected %s (%s)",
          got[2, 0], i0, p)
    return 1


def fit_default(p):
    """ the default tolerance and limit """
    alphas, where, beam, dt = p
    i0s = [1., 2., -3.][:len(alphas)]
    data, w, fr, b = fit_in(alphas, i0s, 8, .9e9, beam, 0, dt)
    kw = {"beam": b} if beam else {}
    if where == "np":
        got = call(fit_spi_components, data, w, fr, .9e9, **kw)
    else:
        v = call(dfit, *[da.from_array(x, chunks=tuple(
            (1,) * n if x.ndim == 2 and i == 0 else (n,)
            for i, n in enumerate(x.shape))) for x in (data, w, fr)], .9e9,
            **{k: da.from_array(x, chunks=(1, 8)) for k, x in kw.items()})
        got = call(dsched.compute, v, "first")[0]
        schedule()
    check(np.abs(got[0] - alphas).max() < 5e-4, "spectral indices %s, "
          "expected %s (%s)", got[0], alphas, p)
    check(np.abs(got[2] / i0s - 1).max() < 5e-4, "intensities %s, expected "
          "%s (%s)", got[2], i0s, p)
    return 1


def fit_noise(p):
    """ with noise: the weighted least squares solution and its variance """
    alphas, i0s, nchan, freq0, beam, salt = p
    data, w, fr, b = fit_in(alphas, i0s, nchan, freq0, beam, salt)
    data = data + .05 * generic(data.shape, "f8", 20 + salt)
    kw = {"beam": b} if beam else {}
    got = call(fit_spi_components, data, w, fr, freq0, tol=1e-10,
               maxiter=300, **kw)
    for c in range(len(alphas)):
        a, i0 = got[0, c], got[2, c]
        m = b[c] * (fr / freq0) ** a
        j = np.array([i0 * m * np.log(fr / freq0), m])
        r = data[c] - i0 * m
        grad = j @ (w * r)
        check(np.abs(grad).max() < 1e-7, "component %d: gradient %s at the "
              "solution (%s)", c, grad, p)
        cov = np.linalg.inv((j * w) @ j.T) * (r * w * r).sum() / (nchan - 2)
        check(abs(got[1, c] / cov[0, 0] - 1) < 1e-5 and
              abs(got[3, c] / cov[1, 1] - 1) < 1e-5, "component %d: "
              "variances %s %s, expected %s (%s)", c, got[1, c], got[3, c],
              np.diag(cov), p)
    return 1


def fit_chunks(p):
    comps, chans, beam, start, dt = p
    n, nchan = sum(comps), sum(chans)
    alphas = [(-.7, .2, -1.4, .9)[i % 4] + .01 * (i // 4) for i in range(n)]
    i0s = [(1., 2.5, .7, 4.)[i % 4] for i in range(n)]
    data, w, fr, b = fit_in(alphas, i0s, nchan, .9e9, beam, 1, dt)
    kw, dkw = {}, {}
    if beam:
        kw["beam"], dkw["beam"] = b, da.from_array(b, chunks=(comps, chans))
    if "a" in start:
        x = (np.array(alphas) + .1).astype(dt)
        kw.update(alphai=x)
        dkw.update(alphai=da.from_array(x, chunks=(comps,)))
    if "i" in start:
        y = (np.array(i0s) * 1.1).astype(dt)
        kw.update(I0i=y)
        dkw.update(I0i=da.from_array(y, chunks=(comps,)))
    kw["tol"] = dkw["tol"] = 1e-8 if dt == "f8" else 1e-5
    kw["maxiter"] = dkw["maxiter"] = 50
    want = call(fit_spi_components, data, w, fr, .9e9, **kw)
    v = call(dfit, da.from_array(data, chunks=(comps, chans)),
             da.from_array(w, chunks=(chans,)),
             da.from_array(fr, chunks=(chans,)), .9e9, **dkw)
    check(v.chunks == ((4,), comps) and v.dtype == np.dtype(dt), "declares "
          "%s %s (%s)", v.chunks, v.dtype, p)
    for order in ("first", "last"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        check(np.abs(got - want).max() < (1e-9 if dt == "f8" else 1e-5),
              "chunked fit %s, expected %s (%s)", got, want, p)
        check(got.dtype == want.dtype, "is %s (%s)", got.dtype, p)
    return got.shape


# --- component lists --------------------------------------------------------
def hms(sign, h, m, s):
    return sign * 2 * math.pi * (h / 24. + m / 1440. + s / 86400.)


def dms(sign, d, m, s):
    return sign * math.radians(d + m / 60. + s / 3600.)


COLS = {
    "Name": [("s0c0", "s0c0"), ("x y", "x y"), ("3", "3")],
    "Type": [("POINT", "POINT"), ("GAUSSIAN", "GAUSSIAN")],
    "Ra": [("08:28:05.152", hms(1, 8, 28, 5.152)),
           ("-08:28:05", hms(-1, 8, 28, 5)),
           ("-00:00:01.5", hms(-1, 0, 0, 1.5)),
           ("+23:59:59.", hms(1, 23, 59, 59))],
    "Dec": [("39.35.08.511", dms(1, 39, 35, 8.511)),
            ("-00.30.00", dms(-1, 0, 30, 0)),
            ("+41.47.17", dms(1, 41, 47, 17)),
            ("-89.59.59.25", dms(-1, 89, 59, 59.25))],
    "I": [("1.5", 1.5), ("-2e-3", -2e-3), ("0", 0.)],
    "SpectralIndex": [("[]", []), ("[-0.7]", [-.7]), ("[1,2,3]", [1, 2, 3]),
                      ("[ 0.5 , -1e-3 ]", [.5, -1e-3])],
    "LogarithmicSI": [("true", True), ("false", False)],
    "ReferenceFrequency": [("125584411.621094", 125584411.621094),
                           ("1e9", 1e9)],
    "MajorAxis": [("83.6", math.radians(83.6 / 3600)), ("0", 0.)],
    "MinorAxis": [("41.25", math.radians(41.25 / 3600)), ("0", 0.)],
    "Orientation": [("45.0", math.radians(45)), ("-30", math.radians(-30))]}
NAMES = list(COLS)
NATURAL = {"Name": "", "Type": "", "I": 0., "ReferenceFrequency": 0.,
           "MajorAxis": 0., "MinorAxis": 0., "Orientation": 0.}
NODEF = [n for n in NAMES if n not in NATURAL]
DEFAULT = {n: COLS[n][0] for n in NAMES if "," not in COLS[n][0][0]}


def equal(a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    if isinstance(b, float):
        return isinstance(a, float) and abs(a - b) <= 1e-15 * max(
            1, abs(b)) + 1e-14 * abs(b)
    return a == b


def read(lines, how):
    if how == "list":
        return load(lines)
    if how == "generator":
        return load(x for x in lines)
    fd, path = tempfile.mkstemp(prefix="verif-c21-")
    try:
        os.write(fd, "".join(lines).encode())
        os.close(fd)
        return load(path)
    finally:
        os.unlink(path)


def expect(lines, cols, rows, how, what):
    got = call(read, lines, how)
    check(isinstance(got, list), "load returns a %s, not the documented list",
          type(got).__name__)
    check([n for n, _ in got] == list(cols), "columns %s, expected %s (%s)",
          [n for n, _ in got], cols, what)
    for c, (name, values) in enumerate(got):
        want = [r[c] for r in rows]
        check(isinstance(values, list) and len(values) == len(want), "%d "
              "values of %s, expected %d (%s)", len(values), name, len(want),
              what)
        for v, w in zip(values, want):
            check(equal(v, w), "%s is %r, expected %r (%s)", name, v, w, what)
    state()


def columns(p):
    """ column orders: every value of every column """
    cols, defaults, style = p
    sep, eol, eq = style
    head = "Format = " + ", ".join(
        c + (eq % DEFAULT[c][0] if d else "") for c, d in zip(cols, defaults))
    n = max(len(COLS[c]) for c in cols)
    lines, rows = [head + eol], []
    for i in range(n + 1):
        text, vals = [], []
        for k, (c, d) in enumerate(zip(cols, defaults)):
            alpha = COLS[c]
            empty = i == n or (i + k) % 3 == 2
            if empty and d:
                text.append("")
                vals.append(DEFAULT[c][1])
            elif empty and c in NATURAL:
                text.append("")
                vals.append(NATURAL[c])
            else:
                t, v = alpha[(i + k) % len(alpha)]
                text.append(t)
                vals.append(v)
        lines.append(sep.join(text) + eol)
        rows.append(vals)
    if len(cols) == 1:      # an empty line is no component
        keep = [j for j, l in enumerate(lines) if j == 0 or l.strip()]
        rows = [rows[j - 1] for j in keep if j]
        lines = [lines[j] for j in keep]
    for how in ("list", "generator", "file"):
        expect(lines, cols, rows, how, "%s" % (p,))
    return len(rows)


def preamble(p):
    """ blank and comment lines before the header; error positions """
    pre, nrow, bad, kind = p
    cols = ("Name", "Ra", "Dec", "I", "SpectralIndex")
    lines = list(pre) + ["Format = Name, Ra, Dec, I, SpectralIndex\n"]
    rows = []
    for r in range(nrow):
        pick = [COLS[c][(r + i) % len(COLS[c])] for i, c in enumerate(cols)]
        text = [t for t, _ in pick]
        if r == bad:
            if kind == "short":
                text = text[:-1]
            elif kind == "long":
                text = text + ["7"]
            elif kind == "noval":
                text[1] = ""
            elif kind == "nolist":
                text[4] = ""
        lines.append(",".join(text) + "\n")
        rows.append([v for _, v in pick])
    if bad is None:
        expect(lines, cols, rows, "list", "%s" % (p,))
        return "ok"
    for how in ("list", "file"):
        e = raises(read, lines, how)
        check(isinstance(e, ValueError), "%s gives %r", p, e)
        nr = len(pre) + 2 + bad
        check("line %d" % nr in str(e), "the error in line %d is reported as "
              "'%s' (%s)", nr, e, p)
        if kind in ("noval", "nolist"):
            name = "Ra" if kind == "noval" else "SpectralIndex"
            check(name in str(e), "the missing %s is reported as '%s'", name,
                  e)
    return kind


def angles(p):
    """ right ascensions and declinations over their whole range """
    kind, sign, big = p
    lines, rows = ["Format = Name, %s\n" % kind], []
    sg = -1 if sign == "-" else 1
    for m in (0, 7, 30, 59):
        for t in ("0", "00", "5", "07.25", "30.", "59.999999", "00.000001"):
            for pad in ("%d", "%02d"):
                if kind == "Ra":
                    text = ":".join((pad % big, pad % m, t))
                    v = hms(sg, big, m, float(t))
                else:
                    text = ".".join((pad % big, pad % m, t))
                    v = dms(sg, big, m, float(t))
                rows.append(("n%d" % len(rows), v))
                lines.append("n%d,%s%s\n" % (len(rows) - 1, sign, text))
    expect(lines, ("Name", kind), rows, "list", "%s" % (p,))
    return kind


def long_list(p):
    """ many components """
    nrow, ncoef = p
    cols = ("Name", "Ra", "Dec", "I", "SpectralIndex", "ReferenceFrequency")
    lines = ["Format = " + ", ".join(cols) + "='2e8'\n"]
    rows = []
    for r in range(nrow):
        co = [float(r * 7 % 13 - k) / 4 for k in range((r + ncoef) % (
            ncoef + 1))]
        ref = "" if r % 3 == 0 else str(1e8 + r)
        rows.append(("s%d" % r, hms(1, r % 24, r % 60, (r * 7) % 60),
                     dms(-1, r % 90, (r * 3) % 60, .5), r / 8.,
                     co, float(ref or 2e8)))
        lines.append("s%d,%02d:%02d:%02d,-%02d.%02d.00.5,%r,%r,%s\n" % (
            r, r % 24, r % 60, (r * 7) % 60, r % 90, (r * 3) % 60, r / 8.,
            co, ref))
    for how in ("list", "generator", "file"):
        expect(lines, cols, rows, how, "%s" % (p,))
    return 1


def ladder(p):
    """ larger problems, one dimension at a time, in memory and chunked """
    kind, d = p
    f8 = ("f8",) * 4
    if kind == "spectral":
        src, spi, chan, pol = d
        bases = ("std", "log", "log10")
        for b in bases + (tuple(bases[i % 3] for i in range(pol)),):
            a = spec_in(src, spi, chan, (pol,))
            a[1][:] *= np.array([.5 ** i for i in range(spi)])[:, None]
            same(call(spectral_model, *a, base=list(b) if isinstance(
                b, tuple) else b), spec_ref(*(a + (b,))), 1e-9,
                "%s %s" % (p, b))
            for k in (1, 2, 3):
                pc = (pol,) if isinstance(b, tuple) else cut(pol, k)
                spec_chunks((cut(src, k), cut(chan, k), pc, b, f8))
    elif kind == "wsclean":
        src, co, chan = d
        i, c, rf, fr = ws_in(src, co, chan)
        c *= np.array([.5 ** j for j in range(co)])
        log = tuple(bool(j % 3) for j in range(src))
        for lg in (True, False, log):
            want = ws_ref(i, c, lg, rf, fr)
            got = call(spectra, i, c, lg if isinstance(lg, bool) else
                       np.array(lg), rf, fr)
            check(got.shape == want.shape and np.abs(got - want).max() <=
                  1e-9 * np.abs(want).max(), "%s %s: off by %s", p, lg,
                  np.abs(got - want).max())
            for k in (1, 2, 3):
                ws_chunks((cut(src, k), cut(chan, k), lg, f8))
    else:
        comp, chan = d
        al = tuple((-.7, .2, -1.4, .9)[i % 4] for i in range(comp))
        fit((al, tuple(1. + i % 5 for i in range(comp)), chan, .9e9, 1, "",
             "f8", "C"))
        for k in (1, 2, 3):
            fit_chunks((cut(comp, k), cut(chan, k), 1, "", "f8"))
    state()
    return kind


def malformed(p):
    text, = p
    e = raises(read, [l + "\n" for l in text], "list")
    check(isinstance(e, ValueError), "%s gives %r", text, e)
    return 1


def groups(tier):
    deep = tier == "thorough"
    g = []
    big = 4 if deep else 3
    bases = ["std", "log", "log10", 0, 1, 2]
    lists = {(): [], (1,): [("log",), (1,), (0,)],
             (2,): [x for k in (1, 2) for x in itertools.product(
                 ("std", "log", "log10"), repeat=k)],
             (4,): [x for k in range(1, 5) for x in itertools.product(
                 (0, 1, 2), repeat=k)]}
    d8 = ("f8",) * 4
    cases = [(s, n, c, pol, b, d8, "C") for s in (1, 2) for n in range(
        1, big + 1) for c in (1, 3) for pol in lists
        for b in bases + (lists[pol] if n == 2 and s == 2 and c == 3
                          else [])]
    cases += [(2, 2, 2, pol, b, dts, "C") for pol in ((), (2,))
              for b in (0, 1, 2) for dts in itertools.product(FL, repeat=4)]
    cases += [(2, 2, 2, pol, b, d8, lay) for pol in ((), (2,))
              for b in (0, 1, 2) for lay in LAYOUTS[1:]]
    cases = list(dict.fromkeys(cases))
    g.append(Group("spectral", cases, spec, "the documented polynomial for "
                   "every source, channel and polarisation", "all bases and "
                   "lists of bases for <= 4 polarisations, <= %d "
                   "coefficients" % big))
    cs = [()] + [c for k in (1, 2) for c in itertools.product(
        (-1.5, 0., .7), repeat=k)]
    g.append(Group("spectral-sign", [(i, c, r) for i in (-2., -1e-3, 0., 3.)
                                     for c in cs if c
                                     for r in (.5, 1., 2.)], spec_sign,
                   "fluxes of any sign with the standard base",
                   "an alphabet of fluxes, coefficients and ratios"))
    g.append(Group("spectral-bad", [(k,) for k in (
        "base", "base-int", "base-list", "ndim", "pol", "spi-chunks")],
        spec_bad, "unknown bases and shapes that differ are rejected", "6"))
    c2, c3 = list(compositions(2)), list(compositions(3))
    cases = [(s, c, pc, b, d8) for s in c2 for c in c2
             for pc in (None, (2,), (1, 1)) for b in (0, "log", (2, 0), (1,),
                                                      ("std", "log10"))
             if pc or not isinstance(b, tuple)]
    cases += [(s, (1, 1), pc, (0, 1, 2), d8) for s in c2 for pc in c3]
    cases += [((1, 1), (2,), pc, 0, dts) for pc in (None, (2,))
              for dts in itertools.product(FL, repeat=4)]
    g.append(Group("spectral-chunks", list(dict.fromkeys(cases)), spec_chunks,
                   "chunked spectra equal the whole ones", "all chunkings of "
                   "2 sources, 2 channels, 2 polarisations"))
    logs = [True, False]
    cases = [(s, n, c, lg, d8, "C", neg) for s in (1, 2, 3)
             for n in range(0 if deep else 1, big + 1) for c in (1, 2)
             for lg in logs + list(itertools.product((True, False), repeat=s))
             for neg in (0, 1)]
    cases += [(2, 2, 2, lg, dts, "C", 0) for lg in logs + [(True, False)]
              for dts in itertools.product(FL, repeat=4)]
    cases += [(2, 2, 2, (True, False), d8, lay, 1) for lay in LAYOUTS[1:]]
    g.append(Group("wsclean", list(dict.fromkeys(cases)), ws, "the documented "
                   "component spectrum", "all choices of polynomials for <= "
                   "3 sources, <= %d coefficients" % big))
    g.append(Group("wsclean-bad", [(k,) for k in (
        "zero", "negative", "I", "coeffs", "ref", "log", "log-more",
        "I-more", "ref-more")], ws_bad,
        "logarithmic spectra of non-positive flux and shapes that differ are "
        "rejected", "9"))
    cases = [(s, c, lg, d8) for s in c3 for c in c2
             for lg in (True, False, (True, False, True))]
    cases += [((1, 1), (2,), (True, False), dts) for dts in
              itertools.product(FL, repeat=4)]
    g.append(Group("wsclean-chunks", list(dict.fromkeys(cases)), ws_chunks,
                   "chunked component spectra", "all chunkings of 3 sources, "
                   "2 channels"))
    lens = (4, 5, 8, 9, 17, 33) + ((65, 129) if deep else ())
    g.append(Group("ladder", [("spectral", d) for d in rungs((2, 2, 2, 2),
                                                             lens)] + [
        ("wsclean", d) for d in rungs((2, 2, 2), lens)] + [
        ("fit", d) for d in rungs((2, 6), lens)], ladder,
        "one large dimension, in memory and in many chunks",
        "<= %d elements, <= %d chunks" % (max(lens), max(lens))))
    vs = list(value_cases())
    g.append(Group("values", vs, values, "special values in every element "
                   "of every argument", "%d replacements" % len(vs)))
    al = (-1.5, -.7, 0., .8)
    cases = [((a,), (i,), n, f0, b, st, "f8", "C") for a in al
             for i in (.2, 1., 5., -1.) for n in (3, 8)
             for f0 in (.5e9, .9e9, 1.5e9, 2e9) for b in (0, 1)
             for st in ("", "a", "i", "ai")]
    cases += [(al, (.5, 1., 2., 4.), 6, .9e9, b, st, dt, lay) for b in (0, 1)
              for st in ("", "ai") for dt in FL for lay in LAYOUTS]
    g.append(Group("fit", cases, fit, "a noiseless spectrum is recovered",
                   "an alphabet of indices, fluxes, channels, reference "
                   "frequencies, beams and starts"))
    cases = [(al, (1., 2., 3., 4.), n, f0, b, s) for n in (4, 9)
             for f0 in (.6e9, 1e9, 1.4e9) for b in (0, 1)
             for s in range(6 if deep else 2)]
    g.append(Group("fit-faint", [(a, i, b, st) for a in al for i in (
        1e-1, 1e-2, -1e-2, 1e-3, 2e-4, -2e-4, 50., 1e3) for b in (0, 1)
        for st in (0, 1)], fit_faint, "of faint and bright components",
        "8 fluxes of either sign"))
    g.append(Group("fit-default", [(a, w, b, dt) for a in [(x,) for x in al]
                                   + [al[:3]] for w in ("np", "dask")
                                   for b in (0, 1) for dt in FL],
                   fit_default, "with the default tolerance",
                   "an alphabet of indices"))
    g.append(Group("fit-noise", cases, fit_noise, "the fit is the weighted "
                   "least squares solution, with its variances",
                   "%d data sets" % len(cases)))
    g.append(Group("fit-chunks", [(a, c, b, s, dt) for a in compositions(3)
                                  for c in ((6,), (3, 3), (1, 5), (2, 2, 2))
                                  for b in (0, 1)
                                  for s in ("", "a", "i", "ai")
                                  for dt in FL], fit_chunks,
                   "chunked fits", "all chunkings of 3 components"))
    styles = [(",", "\n", "='%s'"), (", ", "\r\n", " = '%s'"),
              (" , ", "\n", "= '%s'")]
    subs = [c for k in (1, 2, 3 if deep else 2)
            for c in itertools.permutations(NAMES, k)]
    subs = list(dict.fromkeys(subs))
    cases = []
    for c in subs:
        opts = [(0, 1) if x in DEFAULT else (0,) for x in c]
        for d in itertools.product(*opts):
            for st in styles if len(c) < 3 else styles[:1]:
                cases.append((c, d, st))
    full = [tuple(NAMES[i:] + NAMES[:i]) for i in range(11)]
    full += [tuple(reversed(c)) for c in full]
    for c in full:
        for d in [(0,) * 11, (1,) * 11] + [tuple(
                int(i == k) for i in range(11)) for k in range(11)]:
            d = tuple(x if n in DEFAULT else 0 for x, n in zip(d, c))
            for st in styles:
                cases.append((c, d, st))
    g.append(Group("columns", list(dict.fromkeys(cases)), columns,
                   "values, defaults and column order are read back",
                   "all ordered choices of <= %d columns with all defaults, "
                   "and all rotations of the full list" % (3 if deep else 2)))
    g.append(Group("angles", [("Ra", s, h) for s in ("", "+", "-")
                              for h in range(25)] + [
        ("Dec", s, h) for s in ("", "+", "-") for h in range(91)], angles,
        "sexagesimal angles", "all hours and degrees x signs x minutes x "
        "seconds"))
    g.append(Group("many", [(n, c) for n in (0, 1, 9, 100, 257, 1000)
                            for c in (1, 4, 9)], long_list, "long lists",
                   "<= 1000 components, <= 9 coefficients"))
    pres = [(), ("\n",), ("# comment\n",), ("  \n", "# (Name, Type) = format"
                                            "\n"), ("\n", "\n", "#\n")]
    cases = [(pre, n, None, "") for pre in pres for n in range(4)]
    cases += [(pre, n, b, k) for pre in pres for n in (1, 2, 3)
              for b in range(n) for k in ("short", "long", "noval",
                                          "nolist")]
    g.append(Group("lines", cases, preamble, "lines before the header are "
                   "skipped, bad lines are reported by their number",
                   "all positions of one bad line in <= 3"))
    ok = "Format = Name, Ra, Dec, I"
    row = "a,01:00:00,01.00.00,1"
    bad = [(), ("",), ("# nothing",), ("Name, Type",), ("Fmt = Name",),
           ("Format = Name, Nonsense", "a,b"), ("Format = ",),
           ("Format = Name, RA, Dec", "a,1:1:1,1.1.1"), (ok, row, "a"),
           (ok, "a,1.2.3,01.00.00,1"), (ok, "a,01:00:00,01:00:00,1"),
           (ok, "a,01:00:00,01.00.00,x"), (ok, "a,,01.00.00,1"),
           (ok, "a,01:00:00,,1"), (ok, row, ""),
           ("Format = Name, LogarithmicSI", "a,")]
    g.append(Group("malformed", [(b,) for b in bad], malformed, "malformed "
                   "lists are rejected", "%d lists" % len(bad)))
    return g
