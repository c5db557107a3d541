"""C15: chunked averaging."""
import itertools

import numpy as np
import dask.array as da

from core import Group, call, check, schedule, state
from refs import compositions
import dsched
from avgref import CHANC, CUBE, OPT, ROWS, data, expected, many
from africanus.averaging.dask import time_and_channel
from africanus.averaging import time_and_channel as np_time_and_channel

ASSUMPTIONS = ["all arrays are chunked alike along the axes they share"]

BASE = ("time", "interval", "antenna1", "antenna2")
ROWCOL = ("time_centroid", "exposure", "flag_row")


def flags(n, nchan, ncorr, kind):
    fl = np.zeros((n, nchan, ncorr), "u1")
    if kind and n:
        fl[0] = 1
        fl[n - 1, 0] = 1
        fl[n // 2, :, ncorr - 1] = 1
        if kind == 2:
            fl[n - 1] = 1
    return fl


def full(rows, nchan, ncorr, flagk, prec):
    d = data(ROWS[rows], nchan, ncorr, prec)
    d["flag"] = flags(len(ROWS[rows]), nchan, ncorr, flagk)
    d["flag_row"] = d["flag"].all(axis=(1, 2)).astype("u1")
    return d


def chunked(d, rc, cc, kc, uc=(3,)):
    out = {}
    for k, v in d.items():
        if k in CUBE:
            ch = (rc, cc, kc)
        elif k in CHANC:
            ch = (cc,)
        elif k == "uvw":
            ch = (rc, uc)
        elif k in ("weight", "sigma"):
            ch = (rc, kc)
        else:
            ch = (rc,)
        out[k] = da.from_array(v, chunks=ch)
    return out


def reference(d, rc, cc, secs, nbin):
    """ every row chunk on its own """
    parts, lo = [], 0
    for n in rc:
        sub = {k: (v if k in CHANC else v[lo:lo + n]) for k, v in d.items()}
        parts.append(expected(sub, secs, nbin, cc)[0])
        lo += n
    want = {}
    for k in parts[0]:
        if k in CHANC:
            want[k] = np.array(parts[0][k])
        else:
            want[k] = np.concatenate([np.array(p[k]) for p in parts])
    return want, [len(p["time"]) for p in parts]


def judge(d, rc, cc, kc, secs, nbin, what, uc=(3,), orders=("first",),
          prec=8, blocks=True):
    args = chunked(d, rc, cc, kc, uc)
    ret = call(time_and_channel, time_bin_secs=secs, chan_bin_size=nbin,
               **args)
    want, nrows = reference(d, rc, cc, secs, nbin)
    names = [k for k in ret._fields if getattr(ret, k) is not None]
    check(set(names) == set(want), "columns %s returned, %s expected (%s)",
          sorted(names), sorted(want), what)
    occ = [-(-c // nbin) for c in cc]
    rtol = 1e-9 if prec == 8 else 3e-5
    for order in orders:
        vals = call(dsched.compute, [getattr(ret, k) for k in names],
                    order)[0]
        schedule()
        for k, v in zip(names, vals):
            w = want[k]
            x = getattr(ret, k)
            check(v.shape == w.shape, "%s has shape %s, expected %s (%s)", k,
                  v.shape, w.shape, what)
            check(x.ndim == v.ndim, "%s declares %s dimensions (%s)", k,
                  x.ndim, what)
            for ax, ch in enumerate(x.chunks):
                if any(c != c for c in ch):
                    check(len(ch) == len(rc) and ax == 0 and k not in CHANC,
                          "%s declares chunks %s (%s)", k, x.chunks, what)
                    continue
                check(sum(ch) == v.shape[ax], "%s declares chunks %s for "
                      "shape %s (%s)", k, x.chunks, v.shape, what)
            if k in CUBE:
                check(list(x.chunks[1]) == occ, "%s declares channel chunks "
                      "%s, expected %s (%s)", k, x.chunks[1], occ, what)
            if k in CHANC:
                check(list(x.chunks[0]) == occ, "%s declares channel chunks "
                      "%s, expected %s (%s)", k, x.chunks[0], occ, what)
            check(x.dtype == v.dtype, "%s declares %s and is %s (%s)", k,
                  x.dtype, v.dtype, what)
            check(getattr(x._meta, "dtype", None) == v.dtype,
                  "%s has meta of %s and is %s (%s)", k, x._meta.dtype,
                  v.dtype, what)
            if k in d:
                check(v.dtype == d[k].dtype, "%s is %s, the input %s (%s)",
                      k, v.dtype, d[k].dtype, what)
            check(np.allclose(v, w, rtol=rtol, atol=rtol * (
                np.abs(w).max() if w.size else 1)),
                "%s is %s, expected %s (%s)", k, v.tolist(), w.tolist(),
                what)
        # every block has the length of its row chunk's averages
        if order == "first" and blocks:
            for k in names:
                x = getattr(ret, k)
                if k in CHANC:
                    continue
                parts = call(dsched.compute, [
                    x.blocks[(i,) + (0,) * (x.ndim - 1)]
                    for i in range(len(rc))])[0]
                check([b.shape[0] for b in parts] == nrows,
                      "%s has row blocks %s, expected %s (%s)", k,
                      [b.shape for b in parts], nrows, what)
    state()
    return tuple(nrows)


def chunks(p):
    """ every chunking """
    rows, nchan, ncorr, rc, secs, nbin, flagk, prec = p
    d = full(rows, nchan, ncorr, flagk, prec)
    out = []
    for cc in compositions(nchan):
        for kc in compositions(ncorr):
            what = "rows %s chunks %s %s %s bins %s %s flags %s" % (
                rows, rc, cc, kc, secs, nbin, flagk)
            out.append(judge(d, rc, cc, kc, secs, nbin, what, prec=prec))
    return tuple(out[0])


def finer(d, secs):
    """ half second samples for bins of fractional length """
    if secs != int(secs):
        d["time"] = d["time"] * .5
        d["interval"] = d["interval"] * .5
    return d


def ladder(p):
    """ many chunks """
    ntime, nant, order, nchan, ncorr, k, kc, secs, nbin, flagk = p
    rows = many(ntime, nant, order)
    n = len(rows)
    d = finer(data(rows, nchan, ncorr, 8), secs)
    d["flag"] = flags(n, nchan, ncorr, flagk)
    d["flag_row"] = d["flag"].all(axis=(1, 2)).astype("u1")

    def cut(m, size):
        return (size,) * (m // size) + ((m % size,) if m % size else ())
    judge(d, cut(n, k), cut(nchan, kc), cut(ncorr, 1 + k % 2), secs, nbin,
          "%s" % (p,), orders=("first", "last"))
    return n


def uvwchunks(p):
    rows, rc, uc, cols = p
    d = full(rows, 2, 2, 1, 8)
    d = {k: d[k] for k in BASE + cols}
    return judge(d, rc, (1, 1), (2,), 2, 2, "rows %s uvw chunks %s columns "
                 "%s" % (rows, uc, cols), uc=uc)


def subsets(p):
    """ every combination of columns """
    hi, rows, rc, cc, kc = p
    base = full(rows, 3, 2, 1, 8)
    for low in range(1 << 6):
        mask = hi << 6 | low
        cols = [c for i, c in enumerate(OPT) if mask >> i & 1]
        d = {k: base[k] for k in BASE}
        d.update((k, base[k]) for k in cols)
        judge(d, rc, cc, kc, 2, 2, "rows %s chunks %s columns %s" % (
            rows, rc, cols), blocks=False)
    return 1 << 6


def orders(p):
    """ both boundary orders, and every order of a small graph """
    rows, rc, cc, cols, cap = p
    base = full(rows, sum(cc), 1, 1, 8)
    d = {k: base[k] for k in BASE + cols}
    what = "rows %s chunks %s columns %s" % (rows, rc, cols)
    judge(d, rc, cc, (1,), 2, 2, what, orders=("first", "last"))
    if not cap:
        return 2
    args = chunked(d, rc, cc, (1,))
    ret = call(time_and_channel, time_bin_secs=2, chan_bin_size=2, **args)
    want, _ = reference(d, rc, cc, 2, 2)
    names = [k for k in ret._fields if getattr(ret, k) is not None]
    n = 0
    for vals, order in dsched.all_orders([getattr(ret, k) for k in names],
                                         cap):
        if vals is None:
            break
        n += 1
        schedule()
        for k, v in zip(names, vals):
            check(np.allclose(v, want[k]), "%s is %s in order %s (%s)", k,
                  v, order.choices, what)
    return n


def single(p):
    """ one chunk: exactly the in-memory result """
    rows, nchan, ncorr, secs, nbin, flagk = p
    d = finer(full(rows, nchan, ncorr, flagk, 8), secs)
    n = len(ROWS[rows])
    args = chunked(d, (n,), (nchan,), (ncorr,))
    ret = call(time_and_channel, time_bin_secs=secs, chan_bin_size=nbin,
               **args)
    ref = call(np_time_and_channel, time_bin_secs=secs, chan_bin_size=nbin,
               **d)
    vals = call(dsched.compute, list(ret))[0]
    for k, v, w in zip(ret._fields, vals, ref):
        check(v.dtype == w.dtype and np.array_equal(v, w),
              "%s is %s chunked and %s in memory (rows %s)", k, v, w, rows)
    return n


def defaults(p):
    """ default bins: one second, one channel """
    rows, which = p
    d = full(rows, 2, 1, 0, 8)
    args = chunked(d, (len(ROWS[rows]),), (2,), (1,))
    kw = {} if which == "both" else {"time_bin_secs": 1.0} \
        if which == "secs" else {"chan_bin_size": 1}
    ret = call(time_and_channel, **dict(args, **kw))
    want, _ = reference(d, (len(ROWS[rows]),), (2,), 1.0, 1)
    for k in ret._fields:
        v = getattr(ret, k).compute(scheduler="sync")
        check(np.allclose(v, want[k]), "%s with default bins is %s, expected "
              "%s (rows %s)", k, v, want[k], rows)
    return which


def groups(tier):
    deep = tier == "thorough"
    g = []
    cases = []
    for rows in ("two", "track3") + (("mess",) if deep else ()):
        for rc in compositions(len(ROWS[rows])):
            for nchan, ncorr in ((3, 2),) + (((4, 2), (2, 4)) if deep
                                             else ()):
                for secs in (1, 2, 10):
                    for nbin in (1, 2, 3) if deep or secs == 2 else (2,):
                        for fk in (0, 1, 2) if deep or secs == 2 else (1,):
                            cases.append((rows, nchan, ncorr, rc, secs, nbin,
                                          fk, 8))
            cases.append((rows, 2, 1, rc, 2, 2, 1, 4))
    for rc in compositions(7):
        if deep:
            break
        cases.append(("mess", 2, 1, rc, 2, 2, 1, 8))
    g.append(Group("chunks", cases, chunks, "every row, channel and "
                   "correlation chunking yields the averages of every row "
                   "chunk on its own with channel bins inside channel "
                   "chunks; declared chunks and precisions are those "
                   "produced", "3..7 rows, all compositions of rows, "
                   "channels <= %d and correlations" % (4 if deep else 3)))
    cases = [(nt, na, o, nc, co, k, kc, s, nb, fk)
             for nt, na, nc, co in ((9, 2, 2, 1), (17, 2, 1, 2), (4, 4, 2, 1),
                                    (2, 2, 9, 1), (2, 2, 17, 2)) + ((
                                        (33, 2, 2, 1), (5, 6, 3, 1),
                                        (3, 2, 40, 4)) if deep else ())
             for o in ("time", "baseline", "gaps")
             for k in (1, 3, 7) for kc in (1, 4) for s, nb in ((2.5, 2), (5, 3))
             for fk in (0, 1)]
    g.append(Group("ladder", cases, ladder, "many chunks of longer tracks and "
                   "more channels", "<= 75 rows, 40 channels"))
    cases = [(rows, rc, uc, cols)
             for rows in ("two", "track3")
             for rc in compositions(len(ROWS[rows]))
             for uc in compositions(3)
             for cols in (("uvw",), ("uvw", "weight", "sigma"),
                          ("uvw", "flag_row"))]
    g.append(Group("uvw", cases, uvwchunks, "also with the components of uvw "
                   "in several chunks", "all compositions of 3"))
    cases = [(hi, "two", rc, cc, kc) for hi in range(1 << 8)
             for rc, cc, kc in (((2, 2), (1, 2), (2,)),) + ((
                 ((4,), (3,), (2,)), ((1, 3), (3,), (1, 1))) if deep
                 else ())]
    g.append(Group("columns", cases, subsets, "every subset of the optional "
                   "columns: those not given are not produced",
                   "all 2^14 subsets"))
    cases = []
    for rows in ("two", "track2", "track3"):
        for rc in compositions(len(ROWS[rows])):
            for cc in ((2,), (1, 1), (2, 1)):
                for cols in (("vis", "flag"), ("uvw", "exposure"),
                             ("vis", "weight", "chan_freq"), OPT):
                    cases.append((rows, rc, cc, cols, 0))
    for cols, cap in ((("exposure",), 400), (("uvw",), 400),
                      (("vis",), 400), (("flag",), 200)):
        cases.append(("track2", (1, 1), (1,), cols,
                      cap * (10 if deep else 1)))
    g.append(Group("orders", cases, orders, "every task execution order "
                   "gives the same averages", "both boundary orders of all "
                   "graphs; depth-first orders of the smallest"))
    cases = [(rows, nchan, ncorr, secs, nbin, fk) for rows in ROWS
             for nchan, ncorr in ((1, 1), (3, 2), (4, 4))
             for secs in (1, 2, 10, 0.5, 1.5, 2.5) for nbin in (1, 2, 5)
             for fk in (0, 1, 2)]
    g.append(Group("single", cases, single, "a single chunk gives exactly "
                   "the in-memory result", "all small data sets x bins x "
                   "flags"))
    g.append(Group("defaults", [(r, w) for r in ROWS for w in
                                ("both", "secs", "chan") if r != "empty"],
                   defaults,
                   "the default bins are one second and one channel",
                   "all small data sets"))
    return g
