"""C16: predicted visibilities."""
import itertools

import numpy as np
import dask.array as da

from core import Group, call, check, raises, schedule, state
from refs import LAYOUTS, compositions, generic, poke, pokes, relayout
import dsched
from africanus.rime import apply_gains, predict_vis, wsclean_predict
from africanus.rime.dask import (predict_vis as dpredict,
                                 wsclean_predict as dwsclean)

ASSUMPTIONS = ["at least one row, time indices of a (chunk of) rows cover "
               "the time steps of its Jones terms",
               "the antenna axis is a single chunk, shared axes are chunked "
               "alike"]

LIGHT = 2.99792458e8
NAMES = ("dde1_jones", "source_coh", "dde2_jones", "die1_jones", "base_vis",
         "die2_jones")
CORRS = ((1,), (2,), (2, 2))
# presence of (ddes, coherencies, dies, base)
SUBSETS = [s for s in itertools.product((0, 1), repeat=4) if any(s)]


def terms(subset, nsrc, nrow, ntime, nant, nchan, corr, dt="c16"):
    dde, coh, die, base = subset
    d = {}
    dts = dt if isinstance(dt, tuple) else (dt,) * 6
    shapes = ((nsrc, ntime, nant, nchan), (nsrc, nrow, nchan),
              (nsrc, ntime, nant, nchan), (ntime, nant, nchan),
              (nrow, nchan), (ntime, nant, nchan))
    have = (dde, coh, dde, die, base, die)
    for i, (n, s, h) in enumerate(zip(NAMES, shapes, have)):
        if h:
            d[n] = generic(s + corr, dts[i], i + 1)
    return d


def reference(tidx, a1, a2, t, corr, nchan):
    nrow = len(tidx)
    full = len(corr) == 2
    out = np.zeros((nrow, nchan) + corr, "c16")

    def mat(x):
        return x if full else np.diag(x)

    def back(x):
        return x if full else np.diag(x)
    eye = np.eye(2) if full else np.eye(corr[0])
    for r in range(nrow):
        for c in range(nchan):
            v = np.zeros(eye.shape, "c16")
            nsrc = 0
            if "dde1_jones" in t:
                nsrc = t["dde1_jones"].shape[0]
            elif "source_coh" in t:
                nsrc = t["source_coh"].shape[0]
            for s in range(nsrc):
                x = mat(t["source_coh"][s, r, c].astype("c16")) \
                    if "source_coh" in t else eye
                if "dde1_jones" in t:
                    e1 = mat(t["dde1_jones"][s, tidx[r], a1[r], c])
                    e2 = mat(t["dde2_jones"][s, tidx[r], a2[r], c])
                    x = e1 @ x @ e2.conj().T
                v = v + x
            if "base_vis" in t:
                v = v + mat(t["base_vis"][r, c])
            if "die1_jones" in t:
                g1 = mat(t["die1_jones"][tidx[r], a1[r], c])
                g2 = mat(t["die2_jones"][tidx[r], a2[r], c])
                v = g1 @ v @ g2.conj().T
            out[r, c] = back(v)
    return out


def tol(dt):
    return 1e-12 if np.dtype(dt) in (np.complex128, np.float64) else 2e-5


def verdict(got, want, dt, what, low=None):
    check(got.shape == want.shape, "shape %s, expected %s (%s)", got.shape,
          want.shape, what)
    check(got.dtype == dt, "type %s, expected %s (%s)", got.dtype, dt, what)
    e = np.abs(got - want).max() if want.size else 0
    check(e <= tol(low or dt) * max(1, np.abs(want).max()),
          "visibilities differ from the measurement equation by %s (%s): %s, "
          "expected %s", e, what, got.ravel()[:6], want.ravel()[:6])


def indices(p):
    """ every assignment of rows to times and antennas """
    nrow, nant, corr, subset, tpat = p
    nt = max(tpat) + 1
    t = terms(subset, 2, nrow, nt, nant, 1, corr)
    tidx = np.array(tpat)
    n = 0
    for ants in itertools.product(itertools.product(range(nant), repeat=2),
                                  repeat=nrow):
        a1 = np.array([a[0] for a in ants])
        a2 = np.array([a[1] for a in ants])
        want = reference(tidx, a1, a2, t, corr, 1)
        got = call(predict_vis, tidx, a1, a2, **t)
        verdict(got, want, "c16", "times %s antennas %s %s" % (
            tpat, ants, subset))
        n += 1
        state()
    return n


def subsets(p):
    """ every subset, correlation layout, size, precision and layout """
    subset, corr, nsrc, nchan, dt, layout, off, it = p
    tidx = np.array([0, 0, 1, 1, 2], it)
    a1 = np.array([0, 1, 0, 2, 1], it)
    a2 = np.array([1, 2, 2, 2, 0], it)
    t = terms(subset, nsrc, 5, 3, 3, nchan, corr, dt)
    want = reference(tidx, a1, a2, t, corr, nchan)
    args = {k: relayout(v, layout) for k, v in t.items()}
    idx = [relayout(x, layout) for x in (tidx + it(off), a1, a2)]
    got = call(predict_vis, *idx, **args)
    odt = np.result_type(*[v.dtype for v in t.values()])
    what = "terms %s corr %s sources %s channels %s %s offset %s %s" % (
        subset, corr, nsrc, nchan, dt, off, layout)
    low = min((v.dtype for v in t.values()), key=lambda x: x.itemsize)
    verdict(got, want, odt, what, low)
    for k, v in args.items():
        check(np.array_equal(v, t[k]), "%s was modified (%s)", k, what)
        check(not np.shares_memory(v, got), "result shares memory with %s "
              "(%s)", k, what)
    if subset == (0, 0, 1, 1):
        g = call(apply_gains, idx[0], idx[1], idx[2], args["die1_jones"],
                 args["base_vis"], args["die2_jones"])
        verdict(g, want, odt, "apply_gains " + what, low)
    return got.shape


VALUE_SETS = ((1, 1, 1, 1), (0, 1, 0, 0), (1, 0, 0, 0), (0, 0, 1, 1),
              (0, 1, 1, 0), (0, 0, 0, 1))


def values(p):
    """ special values in one element or in all of a term """
    subset, corr, dt = p[:3]
    tidx, a1, a2 = np.array([0, 1, 1]), np.array([0, 0, 1]), np.array(
        [1, 1, 1])
    t = poke(terms(subset, 2, 3, 2, 2, 1, corr, dt), p[3:])
    want = reference(tidx, a1, a2, t, corr, 1)
    got = call(predict_vis, tidx, a1, a2, **t)
    verdict(got, want, dt, "%s" % (p,))
    state()
    return p[3]


def chunk_times(rc, tidx):
    """ time chunks matching the row chunks, or None """
    out, lo, seen = [], 0, set()
    for n in rc:
        s = set(tidx[lo:lo + n].tolist())
        if s & seen:
            return None
        seen |= s
        out.append(len(s))
        lo += n
    return tuple(out)


def todask(t, sc, rc, tc, cc, corr, nant, kc=None):
    kc = kc or tuple((c,) for c in corr)
    ch = {"dde1_jones": (sc, tc, (nant,), cc), "dde2_jones": (
        sc, tc, (nant,), cc), "source_coh": (sc, rc, cc),
        "die1_jones": (tc, (nant,), cc), "die2_jones": (tc, (nant,), cc),
        "base_vis": (rc, cc)}
    return {k: da.from_array(v, chunks=ch[k] + kc) for k, v in t.items()}


def chunked(p):
    subset, corr, rc, streams, local, dt = p
    nsrc, nchan = (3, 2)
    tidx = np.array([0, 0, 1, 1, 2])
    a1 = np.array([0, 1, 0, 2, 1])
    a2 = np.array([1, 2, 2, 2, 0])
    tc = chunk_times(rc, tidx)
    t = terms(subset, nsrc, 5, 3, 3, nchan, corr, dt)
    want = reference(tidx, a1, a2, t, corr, nchan)
    idx = tidx
    if local:
        lo, idx = 0, []
        for n in rc:
            idx.append(np.unique(tidx[lo:lo + n], return_inverse=True)[1])
            lo += n
        idx = np.concatenate(idx)
    odt = np.result_type(*[v.dtype for v in t.values()])
    low = min((v.dtype for v in t.values()), key=lambda x: x.itemsize)
    n = 0
    has_src = subset[0] or subset[1]
    for sc in compositions(nsrc) if has_src else ((nsrc,),):
        for cc in compositions(nchan):
            for kc in compositions(corr[0]) if len(corr) == 1 else (None,):
                dargs = todask(t, sc, rc, tc, cc, corr, 3,
                               None if kc is None else (kc,))
                kw = {} if streams == "default" else {"streams": streams}
                v = call(dpredict, *[da.from_array(x, chunks=(rc,))
                                     for x in (idx, a1, a2)],
                         **dict(dargs, **kw))
                what = "terms %s corr %s chunks %s %s %s %s streams %s" % (
                    subset, corr, sc, rc, cc, kc, streams)
                check(v.chunks[0] == rc and v.chunks[1] == cc,
                      "declared chunks %s (%s)", v.chunks, what)
                check(v.dtype == odt, "declared type %s, expected %s (%s)",
                      v.dtype, odt, what)
                for order in ("first", "last"):
                    got = call(dsched.compute, v, order)[0]
                    schedule()
                    verdict(got, want, odt, what + " " + order, low)
                n += 1
                state()
    return n


def ladder(p):
    """ larger problems, one dimension at a time, in memory and chunked """
    subset, corr, dim, n, streams = p
    size = {"src": 2, "time": 2, "ant": 3, "chan": 2, "rows": 2}
    size[dim] = n
    ntime, nant, per = size["time"], size["ant"], size["rows"]
    tidx = np.repeat(np.arange(ntime), per)
    nrow = len(tidx)
    a1 = np.arange(nrow) % nant
    a2 = (np.arange(nrow) * 2 + 1) % nant
    t = terms(subset, size["src"], nrow, ntime, nant, size["chan"], corr)
    want = reference(tidx, a1, a2, t, corr, size["chan"])
    verdict(call(predict_vis, tidx, a1, a2, **t), want, "c16", "%s" % (p,))
    for k in (1, 2, 3):                     # chunks of k (rows: whole times)
        def cut(m, k=k):
            return (k,) * (m // k) + ((m % k,) if m % k else ())
        tc = cut(ntime)
        rc = tuple(c * per for c in tc)
        sc, cc = cut(size["src"]), cut(size["chan"])
        v = call(dpredict, *[da.from_array(x, chunks=(rc,))
                             for x in (tidx, a1, a2)], streams=streams,
                 **todask(t, sc, rc, tc, cc, corr, nant))
        verdict(call(dsched.compute, v, "last" if k == 2 else "first")[0],
                want, "c16", "%s chunks of %d" % (p, k))
        schedule()
    state()
    return dim


def orders(p):
    """ every task order of small graphs """
    subset, sc, rc, streams, cap = p
    tidx = np.array([0, 1])
    a1, a2 = np.array([0, 1]), np.array([1, 1])
    corr = (1,)
    t = terms(subset, sum(sc), 2, 2, 2, 1, corr)
    want = reference(tidx, a1, a2, t, corr, 1)
    tc = chunk_times(rc, tidx)
    v = call(dpredict, *[da.from_array(x, chunks=(rc,))
                         for x in (tidx, a1, a2)], streams=streams,
             **todask(t, sc, rc, tc, (1,), corr, 2))
    n = 0
    for got, order in dsched.all_orders(v, cap):
        if got is None:
            break
        n += 1
        schedule()
        verdict(got, want, "c16", "terms %s streams %s order %s" % (
            subset, streams, order.choices))
    return n


GROUPS = (("dde1_jones", "dde2_jones"), ("source_coh",),
          ("die1_jones", "die2_jones"), ("base_vis",))


def rejected(p):
    """ unpaired terms, none at all, mismatching dimensions """
    kind, which, where = p
    fn = predict_vis if where == "np" else dpredict
    tidx, a1, a2 = np.array([0, 0]), np.array([0, 1]), np.array([1, 1])
    t = terms((1, 1, 1, 1), 2, 2, 1, 2, 1, (2,))
    f = terms((1, 1, 1, 1), 2, 2, 1, 2, 1, (2, 2))
    if kind == "pair":
        keep = dict(t)
        keep.pop(which)
        bad = keep
    elif kind == "only":
        bad = {which: t[which]}
    elif kind == "mixed":
        bad = dict(t)
        bad[which] = f[which]
    elif kind == "none":
        bad = {}
    elif kind == "ndim":
        bad = dict(t)
        bad[which] = t[which][0]
    elif kind == "antchunks":
        bad = t
    elif kind == "layouts":
        # some of the terms, each in its own correlation layout
        bad = {}
        for names, lay in zip(GROUPS, which):
            for n in names:
                if lay != "-":
                    bad[n] = (t if lay == "d" else f)[n]
    elif kind == "pairlayout":
        names = [g for g in GROUPS if len(g) == 2][which[0]]
        bad = {names[0]: t[names[0]], names[1]: f[names[1]]}
        if which[1]:
            bad["base_vis"] = t["base_vis"]
        if which[2]:
            bad["source_coh"] = t["source_coh"]
    elif kind == "dims":
        names, extra = which
        bad = {n: t[n] for n in GROUPS[names]}
        for n in bad:
            if extra < 0:
                bad[n] = bad[n][0]
            else:
                bad[n] = bad[n].reshape(bad[n].shape + (1,) * extra)
    elif kind == "pairchunks":
        names, axis, swap = which
        t = terms((1, 1, 1, 1), 2, 2, 2, 2, 2, (2,))
        bad = {n: t[n] for n in GROUPS[names]}

    def conv(x, name=None):
        if where == "np":
            return x
        ch = [(s,) for s in x.shape]
        if kind == "antchunks" and name == which:
            ch[2 if which.startswith("dde") else 1] = (1, 1)
        if kind == "pairchunks" and name in bad and \
                name == GROUPS[which[0]][which[2]]:
            ch[which[1]] = (1, 1)
        return da.from_array(x, chunks=tuple(ch))
    e = raises(lambda: fn(conv(tidx), conv(a1), conv(a2),
                          **{k: conv(v, k) for k, v in bad.items()}))
    check(isinstance(e, ValueError), "%s %s was not rejected with a "
          "ValueError but with %r (%s)", kind, which, e, where)
    return type(e).__name__


# ---------------------------------------------------------------------------
def ws_arrays(ns, ncoeff, nrow, nchan, dt):
    gs = generic((ns, 3), dt, 6, 1e-4, 1e-3)
    if ns:
        gs[0, 0] = 0
    return dict(uvw=generic((nrow, 3), dt, 1, -300, 300),
                lm=generic((ns, 2), dt, 2, -.02, .02),
                flux=generic((ns,), dt, 3, .5, 2),
                coef=generic((ns, ncoeff), dt, 4, -.5, .5),
                ref=generic((ns,), dt, 5, 1e9, 1.2e9), gs=gs,
                freq=np.linspace(.9e9, 1.4e9, nchan).astype(dt))


WS_CASE = (("POINT", "GAUSSIAN", "GAUSSIAN"), (1, 0, 1), 2, 2, 2, None, "f8",
           "C")
WS_VALS = {"lm": (0., -0., .5, -.5, 1e-9), "gs": (0., 1e-9, 1e-3, 1.),
           "ref": (1e8, 1.4e9, 5e9), "freq": (1e8, 1.4e9, 5e9),
           "coef": (0., 1., -1., 1e-9, -3.)}


def wsclean(p, case=None):
    """ sky model components """
    types, logs, ncoeff, nrow, nchan, chunks, dt, layout = p
    ns = len(types)
    st = np.array(types, "<U8")
    log = np.array(logs, bool)
    arr = ws_arrays(ns, ncoeff, nrow, nchan, dt)
    if isinstance(case, str):
        # one argument in double precision
        arr = {k: v.astype("f8" if k == case else "f4")
               for k, v in arr.items()}
    elif case is not None:
        arr = poke(arr, case)
    uvw, lm, flux, coef, ref, gs, freq = (arr[k] for k in (
        "uvw", "lm", "flux", "coef", "ref", "gs", "freq"))
    want = np.zeros((nrow, nchan, 1), complex)
    d = np.float64
    for s in range(ns):
        l, m = lm[s].astype(d)
        n = np.sqrt(1 - l * l - m * m) - 1
        for f in range(nchan):
            nu = d(freq[f])
            x = nu / d(ref[s])
            if log[s]:
                a = d(flux[s]) * np.exp(sum(
                    d(coef[s, k]) * np.log(x) ** (k + 1)
                    for k in range(ncoeff)))
            else:
                a = d(flux[s]) + sum(d(coef[s, k]) * (x - 1) ** (k + 1)
                                     for k in range(ncoeff))
            for r in range(nrow):
                u, v, w = uvw[r].astype(d)
                z = np.exp(2j * np.pi * nu / LIGHT * (u * l + v * m + w * n))
                if types[s] == "GAUSSIAN":
                    emaj, emin, ang = gs[s].astype(d)
                    el, em = emaj * np.sin(ang), emaj * np.cos(ang)
                    er = emin / (1 if emaj == 0 else emaj)
                    u1 = (u * em - v * el) * er
                    v1 = u * el + v * em
                    sc = nu / LIGHT * np.pi * np.sqrt(2) / (
                        2 * np.sqrt(2 * np.log(2)))
                    z = z * np.exp(-(u1 * u1 + v1 * v1) * sc * sc)
                want[r, f, 0] += a * z
    arrs = [uvw, lm, st, flux, coef, log, ref, gs, freq]
    odt = np.result_type(np.dtype(dt), np.complex64)
    rtol = 1e-9 if dt == "f8" else 5e-3
    if isinstance(case, str):
        odt, rtol = np.result_type(uvw, lm, flux, coef, ref, freq,
                                   np.complex64), 5e-3
    what = "types %s log %s coefficients %s chunks %s %s" % (
        types, logs, ncoeff, chunks, case)

    def judge(got, what):
        check(got.shape == want.shape and got.dtype == odt,
              "%s %s, expected %s %s (%s)", got.shape, got.dtype, want.shape,
              odt, what)
        e = np.abs(got - want).max()
        check(e <= rtol * max(1, np.abs(want).max()), "wsclean_predict off "
              "by %s (%s)", e, what)
    args = [relayout(a, layout) for a in arrs]
    judge(call(wsclean_predict, *args), what)
    for a, b in zip(args, arrs):
        check(np.array_equal(a, b), "an argument was modified (%s)", what)
    if chunks:
        sc, rc, cc = chunks
        ch = ((rc, (3,)), (sc, (2,)), (sc,), (sc,), (sc, (ncoeff,)), (sc,),
              (sc,), (sc, (3,)), (cc,))
        v = call(dwsclean, *[da.from_array(a, chunks=c)
                             for a, c in zip(arrs, ch)])
        check(v.chunks == (rc, cc, (1,)) and v.dtype == odt,
              "declared %s %s (%s)", v.chunks, v.dtype, what)
        for order in ("first", "last"):
            judge(call(dsched.compute, v, order)[0], "chunked " + what)
            schedule()
        if ncoeff > 1:      # chunked coefficients: all of them, or refused
            ch = ch[:4] + ((sc, (1,) * ncoeff),) + ch[5:]
            try:
                got = dsched.compute(dwsclean(*[
                    da.from_array(a, chunks=c)
                    for a, c in zip(arrs, ch)]))[0]
            except ValueError:
                pass
            else:
                judge(got, "chunked coefficients " + what)
    return want.shape


def wsbad(p):
    typ, = p
    e = raises(lambda: wsclean_predict(
        np.zeros((1, 3)), np.zeros((1, 2)), np.array([typ]), np.ones(1),
        np.zeros((1, 1)), np.array([True]), np.ones(1), np.zeros((1, 3)),
        np.ones(1)))
    check(isinstance(e, ValueError), "source type %r gives %r", typ, e)
    return 1


def tpatterns(nrow):
    """ non-decreasing time indices starting at zero without gaps """
    for c in compositions(nrow):
        yield tuple(i for i, n in enumerate(c) for _ in range(n))


def groups(tier):
    deep = tier == "thorough"
    g = []
    cases = [(nrow, nant, corr, s, tp)
             for nrow, nant in ((1, 3), (2, 3), (3, 2)) + (((3, 3),) if deep
                                                           else ())
             for corr in ((1,), (2, 2)) for s in SUBSETS
             if s in ((1, 1, 1, 1), (1, 0, 0, 0), (0, 0, 1, 1),
                      (0, 1, 1, 0), (1, 0, 1, 1)) or nrow < 2
             for tp in tpatterns(nrow)]
    g.append(Group("indices", cases, indices, "every row uses the Jones "
                   "terms of its time and antennas",
                   "all assignments of <= 3 rows to times and <= 3 antennas"))
    cases = []
    for s in SUBSETS:
        for corr in CORRS:
            for nsrc in (1, 2, 3):
                for nchan in (1, 2, 3):
                    for dt in ("c16", "c8"):
                        cases.append((s, corr, nsrc, nchan, dt, "C", 0,
                                      np.int64))
            for lay in LAYOUTS[1:]:
                cases.append((s, corr, 2, 2, "c16", lay, 0, np.int32))
            for off in (1, 7):
                cases.append((s, corr, 2, 2, "c16", "C", off, np.int64))
            cases.append((s, corr, 2, 2, "f8", "C", 0, np.int64))
            for i in range(6):
                dts = tuple("c16" if j == i else "c8" for j in range(6))
                cases.append((s, corr, 1, 2, dts, "C", 0, np.int64))
    cases = [c[:7] + ({np.int64: "i8", np.int32: "i4"}[c[7]],)
             for c in cases]
    g.append(Group("terms", cases, lambda p: subsets(p[:7] + (
        {"i8": np.int64, "i4": np.int32}[p[7]],)), "every subset of terms, "
        "correlation layout, size, precision, memory layout and time "
        "offset", "15 subsets x 3 layouts x <= 3 sources x <= 3 channels"))
    cases = [(s, corr, dt) + c for s in VALUE_SETS for corr in CORRS
             for dt in ("c16", "f8")
             for c in pokes(terms(s, 2, 3, 2, 2, 1, corr, dt))
             if deep or dt == "c16"]
    g.append(Group("values", cases, values, "special values (zeros, purely "
                   "real or imaginary, tiny, large) are not special",
                   "one or all elements of every term x the values"))
    tidx = np.array([0, 0, 1, 1, 2])
    rcs = [rc for rc in compositions(5) if chunk_times(rc, tidx)]
    rcs = [rc for rc in rcs if chunk_times(rc, tidx) is not None]
    cases = [(s, corr, rc, st, loc, "c16") for s in SUBSETS for corr in CORRS
             for rc in rcs for st in ("default", False, True, None)
             for loc in (0, 1)
             if deep or (st in (False, True) or loc == 0 and len(rc) == 2)]
    for s in SUBSETS:
        for st in (False, True):
            cases.append((s, (2, 2), (2, 3), st, 0, "c8"))
            for i in range(6):
                dts = tuple("c16" if j == i else "c8" for j in range(6))
                cases.append((s, (2,), (2, 3), st, 0, dts))
    g.append(Group("chunks", cases, chunked, "the chunked version gives the "
                   "same values, with the declared chunks and type, for "
                   "every chunking and both source reductions",
                   "5 rows in all chunkings along times, 3 sources and 2 "
                   "channels in all chunkings, both boundary orders"))
    lens = (4, 5, 8, 9, 17, 33) + ((16, 32, 64, 65, 129) if deep else ())
    cases = [(s, corr, d, n, st) for s in ((1, 1, 1, 1), (0, 1, 0, 0),
                                           (1, 0, 0, 0), (0, 0, 1, 1))
             for corr in CORRS for n in lens
             for d in ("src", "time", "ant", "chan", "rows")
             for st in (True, False)]
    g.append(Group("ladder", cases, ladder, "one large dimension, in memory "
                   "and in many chunks", "<= %d elements, <= %d chunks" % (
                       max(lens), max(lens))))
    cap = 3000 if deep else 300
    cases = [(s, sc, rc, st, cap) for s in ((0, 1, 0, 0), (1, 1, 0, 0),
                                            (0, 1, 0, 1), (0, 0, 1, 1),
                                            (1, 1, 1, 1))
             for sc in ((1,), (1, 1), (1, 1, 1)) for rc in ((2,), (1, 1))
             for st in (True, False)]
    g.append(Group("orders", cases, orders, "every task order gives the same "
                   "visibilities", "<= 3 source chunks, <= 2 row chunks, "
                   "depth first up to %d orders" % cap))
    pair = [n for n in NAMES if "jones" in n]
    cases = [("pair", n, w) for n in pair for w in ("np", "dask")]
    cases += [("only", n, w) for n in pair for w in ("np", "dask")]
    cases += [("mixed", n, w) for n in NAMES for w in ("np", "dask")]
    cases += [("ndim", n, w) for n in NAMES for w in ("np", "dask")]
    cases += [("none", "", w) for w in ("np", "dask")]
    cases += [("antchunks", n, "dask") for n in pair]
    lays = [w for w in itertools.product("-df", repeat=4)
            if "d" in w and "f" in w]
    cases += [("layouts", lay, w) for lay in lays for w in ("np", "dask")]
    cases += [("pairlayout", (i, b, c), w) for i in (0, 1) for b in (0, 1)
              for c in (0, 1) for w in ("np", "dask")]
    cases += [("dims", (i, e), w) for i in range(4) for e in (-1, 2, 3)
              for w in ("np", "dask")]
    cases += [("pairchunks", (i, ax, k), "dask") for i, nd in ((0, 5), (2, 4))
              for ax in range(nd) for k in (0, 1)]
    g.append(Group("rejected", cases, rejected, "terms without their "
                   "partner, no terms, mixed correlation layouts and chunked "
                   "antennas are rejected", "all terms"))
    P, G = "POINT", "GAUSSIAN"
    cases = []
    for ns in (1, 2, 3):
        for types in itertools.product((P, G), repeat=ns):
            for logs in itertools.product((0, 1), repeat=ns):
                for nc in (1, 2) + ((3,) if deep else ()):
                    cases.append((types, logs, nc, 2, 2, None, "f8", "C"))
    for types in itertools.product((P, G), repeat=3):
        for sc in compositions(3):
            for rc in compositions(3):
                for cc in compositions(2):
                    cases.append((types, (1, 0, 1), 2, 3, 2, (sc, rc, cc),
                                  "f8", "C"))
        for lay in LAYOUTS[1:]:
            cases.append((types, (1, 0, 1), 2, 2, 2, None, "f8", lay))
        cases.append((types, (1, 0, 1), 2, 3, 2, ((1, 2), (2, 1), (2,)),
                      "f4", "C"))
    g.append(Group("wsclean", cases, wsclean, "component models predict the "
                   "sum of their point and Gaussian components, chunked or "
                   "not", "<= 3 components, all type and polynomial "
                   "assignments, all chunkings"))
    cases = [c for c in pokes(ws_arrays(3, 2, 2, 2, "f8"), other=WS_VALS)
             # (only ordinary polynomials admit fluxes that are not positive)
             if c[0] != "flux" or c[1] == 1 or c[2] > 0]
    g.append(Group("wsclean-types", [(k, c) for k in (
        "uvw", "lm", "flux", "coef", "ref", "gs", "freq") for c in (0, 1)],
        lambda p: wsclean(WS_CASE[:5] + (
            ((2, 1), (1, 1), (2,)) if p[1] else None,) + WS_CASE[6:], p[0]),
        "the prediction has the precision of its arguments",
        "one argument in double precision, the others in single"))
    g.append(Group("wsclean-values", cases,
                   lambda p: wsclean(WS_CASE, p), "special values (zeros, "
                   "tiny, large) are not special",
                   "one or all elements of every argument x the values"))
    g.append(Group("wsclean-bad", [(x,) for x in ("point", "", "DISK")],
                   wsbad, "unknown component types are rejected",
                   "3 types"))
    return g
