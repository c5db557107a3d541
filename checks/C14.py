"""C14: averaged columns."""
import itertools

import numpy as np

from core import Group, call, check, raises, state
from refs import CPLX, generic, poke, pokes, relayout
from avgref import CHANC, CUBE, OPT, ROWS, data, expected, many
from africanus.averaging import time_and_channel

ASSUMPTIONS = ["weights of opposite signs do not add up to zero"]


def judge(d, secs, nbin, what, layout="C", prec=8):
    keep = {k: np.array(v) for k, v in d.items() if v is not None}
    args = {k: (None if v is None else relayout(v, layout))
            for k, v in d.items()}
    ret = call(time_and_channel, time_bin_secs=secs, chan_bin_size=nbin,
               **args)
    want, nr, nc, nco = expected(keep, secs, nbin)
    for k, v in args.items():
        if v is not None:
            check(np.array_equal(v, keep[k], equal_nan=v.dtype.kind in "fc"),
                  "%s was modified (%s)", k, what)
    rtol = 1e-9 if prec == 8 else 3e-5
    for k in ret._fields:
        g = getattr(ret, k)
        if k not in want:
            check(g is None, "%s is %r although it was not given (%s)", k, g,
                  what)
            continue
        check(g is not None, "%s is missing (%s)", k, what)
        tail = {"uvw": (3,), "weight": d["weight"].shape[1:]
                if d.get("weight") is not None else (),
                "sigma": d["sigma"].shape[1:]
                if d.get("sigma") is not None else ()}.get(
                    k, (nc, nco) if k in CUBE else ())
        w = np.array(want[k]).reshape(((nc if k in CHANC else nr),) + tail)
        check(g.shape == w.shape, "%s has shape %s, expected %s (%s)", k,
              g.shape, w.shape, what)
        if k in keep:
            check(g.dtype == keep[k].dtype, "%s has type %s, the input %s "
                  "(%s)", k, g.dtype, keep[k].dtype, what)
        if k in ("flag", "flag_row"):
            check(np.array_equal(g != 0, w != 0) and
                  set(np.unique(g.astype(int))) <= {0, 1},
                  "%s is %s, expected %s (%s)", k, g.tolist(), w.tolist(),
                  what)
            continue
        check(np.allclose(g, w, rtol=rtol, atol=rtol * (np.abs(w).max()
                                                        if w.size else 1)),
              "%s is %s, expected %s (%s)", k, g.tolist(), w.tolist(), what)
        for v in args.values():
            check(v is None or not np.shares_memory(v, g),
                  "%s shares memory with an input (%s)", k, what)
    state()
    return nr


def cubes(p):
    """ every flag cube """
    rows, nchan, ncorr, secs, nbin, cols, lo, hi = p
    base = data(ROWS[rows], nchan, ncorr, 8)
    n = len(ROWS[rows])
    size = n * nchan * ncorr
    for mask in range(lo, hi):
        f = np.array([mask >> i & 1 for i in range(size)],
                     "u1").reshape(n, nchan, ncorr)
        d = {k: base[k] for k in ("time", "interval", "antenna1",
                                  "antenna2") + cols if k in base}
        d["flag"] = f
        judge(d, secs, nbin, "rows %s flags %s bins %s %s" % (
            rows, f.tolist(), secs, nbin))
    return hi - lo


def subsets(p):
    """ every combination of columns """
    mask_hi, rows, flagk = p
    base = data(ROWS[rows], 3, 2, 8)
    n = len(ROWS[rows])
    fl = np.zeros((n, 3, 2), "u1")
    if flagk:
        fl[0] = 1
        fl[n - 1, 0] = 1
        fl[n // 2, :, 1] = 1
        if flagk == 2:
            fl[1] = 1
    base["flag"] = fl
    base["flag_row"] = fl.all(axis=(1, 2)).astype("u1")
    for low in range(1 << 7):
        mask = mask_hi << 7 | low
        cols = [c for i, c in enumerate(OPT) if mask >> i & 1]
        d = {k: base[k] for k in ("time", "interval", "antenna1",
                                  "antenna2")}
        d.update((k, base[k]) for k in cols)
        judge(d, 2, 2, "rows %s columns %s" % (rows, cols))
    return 1 << 7


def rowflags(p):
    """ flag rows without a flag cube """
    rows, flags, dt, secs, full = p
    d = data(ROWS[rows], 2, 1, 8)
    d["flag_row"] = np.array(flags, dtype=dt)
    if full:
        d["flag"] = np.ones((len(flags), 2, 1), dt) * \
            d["flag_row"][:, None, None]
    return judge(d, secs, 2, "rows %s flag_row %s" % (rows, flags))


def shapes(p):
    rows, nchan, ncorr, nbin, secs, prec, zw, layout = p
    d = data(ROWS[rows], nchan, ncorr, prec, zw)
    n = len(ROWS[rows])
    out = []
    for drop in ((), ("weight_spectrum",), ("weight_spectrum", "weight")):
        for fk in range(3):
            e = {k: v for k, v in d.items() if k not in drop}
            if fk:
                e["flag"] = (generic((n, nchan, ncorr), "f8", fk) >
                             (.2 if fk == 1 else -.4)).astype("bool")
            out.append(judge(e, secs, nbin, "%s %s %s" % (p, drop, fk),
                             layout, prec))
    return tuple(out)


def ladder(p):
    """ larger problems """
    ntime, nant, order, nchan, ncorr, secs, nbin, fk = p
    rows = many(ntime, nant, order)
    d = data(rows, nchan, ncorr, 8)
    if fk:
        d["flag"] = (generic((len(rows), nchan, ncorr), "f8", fk) >
                     (0, .3, -.8)[fk]).astype("u1")
    judge(d, secs, nbin, "%s" % (p,))
    for drop in ("weight_spectrum", "weight"):
        d.pop(drop)
        judge(d, secs, nbin, "%s without %s" % (p, drop))
    return len(rows)


def base_values(flagk, prec):
    rows = ROWS["two"]
    d = data(rows, 2, 2, prec)
    if flagk:
        fl = np.zeros((4, 2, 2), "u1")
        fl[0] = 1
        fl[1, 0] = fl[2, 1, 0] = 1
        if flagk == 2:
            fl[2] = 1
        d["flag"] = fl
    return d


VALS = {"time": (0.5, .25, -1.0, 1e6), "interval": (.5, 2.0, 1e-9),
        "weight": (0.0, 1e-9, 1e3, -3.0), "sigma": (0.0, 1e-9, 1e3),
        "weight_spectrum": (0.0, 1e-9, 1e3, -3.0), "flag": (0, 1, 2, 255),
        "sigma_spectrum": (0.0, 1e-9, 1e3), "chan_freq": (0.0, 1.0, 1e10),
        "time_centroid": (0.0, -1.0, 1e6),
        "vis": CPLX + (complex("nan"), complex("inf"))}


def values(p):
    """ special values in one element or in all of a column """
    flagk, prec, drop, name, i, val = p
    d = poke(base_values(flagk, prec), (name, i, val))
    if name == "vis" and not np.isfinite(val) and (
            flagk == 0 or i < 0 or not d["flag"].reshape(-1)[i] or
            flagk == 2 and i // 4 in (0, 2)):
        return "bad unflagged data"
    d = {k: v for k, v in d.items() if k not in drop}
    judge(d, 2, 2, "%s" % (p,), prec=prec)
    return name


def unit(p):
    """ unit bins give the input back (in time order) """
    rows, nchan, ncorr, prec = p
    d = data(ROWS[rows], nchan, ncorr, prec)
    ret = call(time_and_channel, time_bin_secs=1.0, chan_bin_size=1, **d)
    o = sorted(range(len(d["time"])), key=lambda r: (
        d["time"][r], d["antenna2"][r], d["antenna1"][r]))
    for k, v in d.items():
        w = v if k in CHANC else v[o]
        check(np.allclose(getattr(ret, k), w, rtol=1e-5), "unit bins: %s is "
              "%s, expected %s", k, getattr(ret, k), w)
    d2 = call(time_and_channel, **d)
    for k in d:
        check(np.array_equal(getattr(ret, k), getattr(d2, k)),
              "defaults: %s", k)
    return len(o)


def mismatch(p):
    """ flag rows must agree with the flag cube """
    mask, rmask, nchan, ncorr = p
    d = data(ROWS["track2"], nchan, ncorr, 8)
    f = np.array([mask >> i & 1 for i in range(2 * nchan * ncorr)],
                 "u1").reshape(2, nchan, ncorr)
    d["flag"] = f
    d["flag_row"] = np.array([rmask & 1, rmask >> 1 & 1], "u1")
    if np.array_equal(f.all(axis=(1, 2)), d["flag_row"] != 0):
        judge(d, 4, 2, "flags %s" % (p,))
        return "ok"
    e = raises(time_and_channel, **d)
    check(isinstance(e, ValueError), "flags %s with flag_row %s: %r",
          f.tolist(), d["flag_row"], e)
    return "rejected"


def inconsistent(p):
    k, axis, delta = p
    d = data(ROWS["two"], 3, 2, 8)
    d["flag"] = np.zeros((4, 3, 2), "u1")
    s = list(d[k].shape)
    s[axis] += delta
    d[k] = np.ones(s, d[k].dtype)
    e = raises(time_and_channel, **d)
    check(isinstance(e, ValueError), "%s of shape %s: %r", k, s, e)
    return 0


def bad_args(p):
    name, v = p
    d = data(ROWS["two"], 3, 2, 8)
    e = raises(time_and_channel, **dict(d, **{name: v}))
    check(isinstance(e, TypeError), "%s=%r: %r", name, v, e)
    return 0


LADDER = ((9, 2, 2, 1), (17, 2, 1, 2), (33, 2, 1, 1), (4, 4, 2, 1),
          (3, 6, 1, 1), (2, 2, 9, 1), (2, 2, 17, 4), (2, 2, 33, 1),
          (2, 2, 65, 2), (65, 2, 2, 2), (3, 9, 2, 4), (2, 3, 130, 1),
          (17, 4, 17, 1))


def groups(tier):
    big = tier == "thorough"
    cub = []
    full = ("vis", "weight_spectrum", "sigma_spectrum")
    for rows, nchan, ncorr, colsets in (
            ("track2", 2, 1, (full, ("vis",), ("vis", "weight"), ())),
            ("track3", 2, 1, (full, ("vis", "weight", "sigma_spectrum"))),
            ("track2", 2, 2, (full, ("vis",))),
            ("track2", 3, 1, (full,)),
            ("two", 2, 1, (full, ("vis", "weight"))),
            ("track3", 3, 1, (full,)),
            ("track2", 3, 2, (full,) if big else ()),
            ("two", 3, 1, (full,) if big else ())):
        tot = 1 << (len(ROWS[rows]) * nchan * ncorr)
        for cols in colsets:
            for secs, nbin in ((2, 2), (3, 1), (1, 3), (3, 3)):
                for lo in range(0, tot, 64):
                    cub.append((rows, nchan, ncorr, secs, nbin, cols, lo,
                                min(tot, lo + 64)))
    sh = [(r, nc, co, nb, s, pr, zw, lay)
          for r in ("two", "mess", "one", "empty", "track3")
          for nc in ((1, 2, 3, 5, 8) if big else (1, 3, 5))
          for co in (1, 2, 4) for nb in (1, 2, 3, 7)
          for s in (1.0, 2, 3) for pr in (8, 4) for zw in (False, True)
          for lay in (("C", "F", "strided", "readonly") if big else
                      ("C", "strided")) if r != "empty" or lay == "C"]
    return [
        Group("flag-cubes", cub, cubes, "every flag cube",
              "<= 3 rows x 3 channels, 4 bin sizes"),
        Group("column-subsets", [(h, r, f) for h in range(1 << 7)
                                 for r, f in ((("two", 1), ("mess", 2),
                                               ("two", 0)) if big else
                                              (("two", 1),))], subsets,
              "every combination of optional columns", "2^14"),
        Group("flag-rows", [(r, f, dt, s, full_)
                            for r in ("track3", "two")
                            for dt, vals in (("u1", (0, 1)), ("bool", (0, 1)),
                                             ("i4", (0, 1, 2)))
                            for f in itertools.product(
                                vals, repeat=len(ROWS[r]))
                            for s in (1, 2, 3) for full_ in (False, True)],
              rowflags, "every flag row, with and without the flag cube",
              "<= 4 rows"),
        Group("shapes", sh, shapes, "shapes, bins, precisions, layouts, "
              "weightings", "<= 7 rows x 8 channels x 4 correlations"),
        Group("ladder", [(nt, na, o, nc, co, s, nb, fk)
                         for nt, na, nc, co in LADDER[:13 if big else 9]
                         for o in ("time", "baseline", "reverse", "gaps")
                         for s, nb in ((1.0, 1), (4, 3), (7, 8), (1e4, 1000))
                         for fk in (0, 1, 2)], ladder,
              "longer tracks, more baselines, channels and correlations",
              "<= 65 times, 9 antennas, 130 channels, 4 correlations"),
        Group("values", [(f, pr, dr) + c for f in (0, 1, 2)
                         for pr in ((8, 4) if big else (8,))
                         for dr in ((), ("weight_spectrum",),
                                    ("weight_spectrum", "weight"))
                         for c in pokes(base_values(f, pr), ("antenna1",
                                                             "antenna2"),
                                        other=VALS)
                         if c[0] not in dr and c[:2] != ("time", -1)],
              values, "special values (zeros, purely real or imaginary, tiny, "
              "large; bad when flagged) are not special",
              "one or all elements of every column x the values"),
        Group("unit-bins", [(r, nc, co, pr) for r in ROWS for nc in (1, 4)
                            for co in (1, 2, 4) for pr in (8, 4)
                            if r != "empty"], unit,
              "averaging single samples", "all row sets"),
        Group("flag-mismatch", [(m, r, 2, c) for c in (1, 2)
                                for m in range(1 << (4 * c))
                                for r in range(4)], mismatch,
              "every pair of flag rows and flag cube", "2 rows"),
        Group("inconsistent", [(k, a, dl) for k in CUBE for a in (1, 2)
                               for dl in (-1, 1)] +
              [(k, 0, dl) for k in CHANC for dl in (-1, 1)], inconsistent,
              "axes which disagree are rejected", "listed"),
        Group("bad-arguments", [("time_bin_secs", "1"), ("time_bin_secs",
                                                         None),
                                ("chan_bin_size", 1.5), ("chan_bin_size",
                                                         "2")], bad_args,
              "bin sizes of the wrong type", "listed"),
    ]
