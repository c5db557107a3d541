"""C13: rows and channels are mapped to well-formed bins."""
import itertools

import numpy as np

from core import Group, call, check, raises, state
from refs import relayout
from africanus.averaging.support import unique_baselines, unique_time
from africanus.averaging.time_and_channel_mapping import (channel_mapper,
                                                          row_mapper)

ASSUMPTIONS = ["times, intervals and bin lengths are multiples of a power of "
               "two, so that no bin boundary depends on rounding"]

I4 = np.int32


def reference(time, interval, a1, a2, flags, secs):
    """ bins per baseline in time order: [(rows, flagged)] """
    bins = []
    for bl in sorted(set(zip(a1, a2))):
        rows = sorted((r for r in range(len(time))
                       if (a1[r], a2[r]) == bl), key=lambda r: time[r])
        cur, low = [], None
        for r in rows:
            if cur and time[r] + interval[r] / 2 - low > secs:
                bins.append(cur)
                cur = []
            if not cur:
                low = time[r] - interval[r] / 2
            cur.append(r)
        if cur:
            bins.append(cur)
    return bins


def judge(time, interval, a1, a2, flags, secs, tdt="f8", fdt="u1",
          layout="C", adt=I4, idt=None):
    n = len(time)
    t = relayout(np.array(time, dtype=tdt), layout)
    iv = relayout(np.array(interval, dtype=idt or tdt), layout)
    p = relayout(np.array(a1, dtype=adt), layout)
    q = relayout(np.array(a2, dtype=adt), layout)
    f = None if flags is None else relayout(np.array(flags, dtype=fdt),
                                            layout)
    keep = [x.copy() for x in (t, iv, p, q)]
    what = "time=%s interval=%s ant1=%s ant2=%s flags=%s bin=%s" % (
        time, interval, a1, a2, flags, secs)
    cells = list(zip(time, a1, a2))
    kw = {} if flags is None else {"flag_row": f}
    if len(set(cells)) < n:
        e = raises(row_mapper, t, iv, p, q, time_bin_secs=secs, **kw)
        check(isinstance(e, ValueError), "duplicate rows: %r (%s)", e, what)
        return "duplicate"
    ret = call(row_mapper, t, iv, p, q, time_bin_secs=secs, **kw)
    for x, k in zip((t, iv, p, q), keep):
        check(np.array_equal(x, k), "an input changed (%s)", what)
    if f is not None:
        check(np.array_equal(f, np.array(flags, dtype=fdt)),
              "the flags changed (%s)", what)
    bins = reference(time, interval, a1, a2, flags, secs)
    m = np.asarray(ret.map)
    check(m.shape == (n,) and m.dtype == np.uint32, "map %s %s (%s)",
          m.shape, m.dtype, what)
    nout = len(bins)
    check(len(ret.time) == nout and len(ret.interval) == nout,
          "%d output rows, expected %d (%s)", len(ret.time), nout, what)
    check(n == 0 or (m.min() == 0 and m.max() == nout - 1 and
                     len(set(m.tolist())) == nout),
          "map %s onto %d rows (%s)", m.tolist(), nout, what)
    by = {}
    for r in range(n):
        by.setdefault(int(m[r]), []).append(r)
    got = sorted(map(sorted, by.values()))
    check(got == sorted(map(sorted, bins)), "bins %s, expected %s (%s)", got,
          bins, what)
    check(ret.time.dtype == t.dtype and ret.interval.dtype == iv.dtype,
          "types (%s)", what)
    rt = np.asarray(ret.time, dtype=np.float64)
    for o, rows in by.items():
        mt = sum(time[r] for r in rows) / len(rows)
        check(abs(rt[o] - mt) <= 1e-6 * max(1, abs(mt)) *
              (1e-6 if tdt == "f8" else 1),
              "time of row %d is %s, expected %s (%s)", o, rt[o], mt, what)
        si = sum(interval[r] for r in rows)
        check(float(ret.interval[o]) == si, "interval of row %d is %s, "
              "expected %s (%s)", o, ret.interval[o], si, what)
    check(np.all(np.diff(rt) >= 0), "output times %s are not ascending (%s)",
          rt.tolist(), what)
    # equal times: in the order of the unique baselines
    ub = [tuple(x) for x in np.asarray(unique_baselines(p, q)[0]).tolist()]
    for o in range(nout - 1):
        if rt[o] == rt[o + 1]:
            r0, r1 = by[o][0], by[o + 1][0]
            check(ub.index((a1[r0], a2[r0])) < ub.index((a1[r1], a2[r1])),
                  "rows %d and %d of equal time are not in baseline order "
                  "(%s)", o, o + 1, what)
    if flags is None:
        check(ret.flag_row is None, "flags out of nothing (%s)", what)
    else:
        check(ret.flag_row.dtype == f.dtype and len(ret.flag_row) == nout,
              "flag row (%s)", what)
        for o, rows in by.items():
            want = all(flags[r] for r in rows)
            check(bool(ret.flag_row[o]) == want and
                  int(ret.flag_row[o]) in (0, 1), "output row %d of rows %s "
                  "has flag %s (%s)", o, rows, ret.flag_row[o], what)
    state()
    return nout


INTERVALS = {
    "one": lambda t, b: 1.0, "half": lambda t, b: 0.5,
    "two": lambda t, b: 2.0, "zero": lambda t, b: 0.0,
    "mixed": lambda t, b: (0.5, 2.0, 1.0, 0.25)[int(t * 2 + b) % 4],
}
BASELINES = ((0, 1), (0, 2), (1, 0), (1, 1), (7, 2))


def arrange(cells, interval):
    fn = INTERVALS[interval]
    time = [c[0] for c in cells]
    return (time, [fn(c[0], c[1]) for c in cells],
            [BASELINES[c[1]][0] for c in cells],
            [BASELINES[c[1]][1] for c in cells])


def all_flags(n):
    return [None] + list(itertools.product((0, 1), repeat=n))


def orders(p):
    """ every order of every set of rows """
    first, nmax, iv, secs, flagmode = p
    cells = [(t, b) for t in (0.0, 1.0, 2.0, 3.5) for b in (0, 2)]
    out = set()
    n = 0
    for k in range(0, nmax):
        for rest in itertools.permutations(
                [c for c in cells if c != cells[first]], k):
            rows = (cells[first],) + rest
            a = arrange(rows, iv)
            fl = all_flags(len(rows)) if flagmode and len(rows) <= 3 else (
                [None, tuple(i % 2 for i in range(len(rows)))])
            for f in fl:
                out.add(judge(*a, f, secs))
                n += 1
    return (n, len(out))


def subsets(p):
    """ every subset of a baseline/time grid in the usual row orders """
    nt, nb, iv, secs, lo, hi, order, flagged = p
    cells = [(float(t), b) for t in range(nt) for b in range(nb)]
    if order == "baseline":
        cells.sort(key=lambda c: (c[1], c[0]))
    elif order == "reversed":
        cells.reverse()
    out = set()
    for mask in range(lo, hi):
        rows = [c for i, c in enumerate(cells) if mask >> i & 1]
        a = arrange(rows, iv)
        fls = [None, tuple(1 for _ in rows),
               tuple((mask >> (i + 1)) & 1 for i in range(len(rows)))]
        for f in fls if flagged else fls[:1]:
            out.add(judge(*a, f, secs))
    return len(out)


def flags_of(p):
    """ every flag pattern of one track """
    times, iv, secs, fdt = p
    a = arrange([(t, 0) for t in times], iv)
    for f in all_flags(len(times)):
        judge(*a, f, secs, fdt=fdt if f is not None else "u1")
    return len(times)


def tracks(p):
    """ every sequence of gaps and intervals of one baseline """
    gaps, ivs, secs = p
    t = list(np.cumsum((0.0,) + gaps))
    for sgn in (1, -1):
        order = list(range(len(t)))[::sgn]
        judge([t[i] for i in order], [ivs[i] for i in order], [3] * len(t),
              [5] * len(t), None, secs)
    return len(t)


def dtypes(p):
    tdt, fdt, layout, secs, shift = p
    rows = [(t + shift, b) for t in (0.0, 1.0, 2.0, 3.0, 4.0)
            for b in (0, 1, 2)]
    a = arrange(rows, "one")
    for f in (None, tuple(i % 2 for i in range(15)), (1,) * 15, (0,) * 15):
        judge(*a, f, secs, tdt=tdt, fdt=fdt, layout=layout)
    return 0


def mixed(p):
    """ times and intervals of different precision, flags of any value """
    tdt, idt, fdt, fv, step, shift, secs = p
    rows = [(t, b) for t in (0.0, 1.0, 2.0, 3.0, 4.0) for b in (0, 2)]
    time, iv, a1, a2 = arrange(rows, "mixed")
    time = [t * step + shift for t in time]
    iv = [x * step for x in iv]
    for f in (None, tuple(fv * (i % 2) for i in range(10)),
              tuple(fv if i % 3 else 1 for i in range(10)), (fv,) * 10):
        judge(time, iv, a1, a2, f, secs * step, tdt=tdt, fdt=fdt, idt=idt)
    return 0


def duplicates(p):
    rows, secs, flagged = p
    a = arrange(rows, "one")
    return judge(*a, (0,) * len(rows) if flagged else None, secs)


def bad_types(p):
    what, dt = p
    t = np.arange(3.0)
    a = np.arange(3, dtype=I4)
    if what == "time":
        e = raises(row_mapper, t.astype(dt), np.ones(3), a, a)
    elif what == "ant1":
        e = raises(row_mapper, t, np.ones(3), a.astype(dt), a)
    else:
        e = raises(row_mapper, t, np.ones(3), a, a.astype(dt))
    check(e is not None, "%s of type %s accepted", what, dt)
    return type(e).__name__


def large(p):
    """ many baselines and times (beyond 2**16 cells in the lookup) """
    nt, na, secs, seed = p
    bl = [(i, j) for i in range(na) for j in range(i, na)]
    time, a1, a2 = [], [], []
    for t in range(nt):
        for k, (i, j) in enumerate(bl):
            if (t * 7 + k * 3 + seed) % 5:
                time.append(float(t) + 4.0e9)
                a1.append(i)
                a2.append(j)
    fl = [(r * r + seed) % 3 == 0 for r in range(len(time))]
    return judge(time, [1.0] * len(time), a1, a2, fl, secs)


# -- channels -----------------------------------------------------------------
def channels(p):
    nchan, size = p
    m, nb = call(channel_mapper, nchan, size)
    m = np.asarray(m)
    want = [c // size for c in range(nchan)]
    check(m.tolist() == want and m.shape == (nchan,), "channel_mapper(%d, "
          "%d) is %s, expected %s", nchan, size, m.tolist(), want)
    check(int(nb) == (nchan + size - 1) // size, "channel_mapper(%d, %d) "
          "reports %s bins", nchan, size, nb)
    if size == 1:
        m, nb = call(channel_mapper, nchan)
        check(np.asarray(m).tolist() == want and nb == nchan, "default size")
    return int(nb)


# -- unique values --------------------------------------------------------------
def uniq_time(p):
    vals, dt, layout = p
    x = relayout(np.array(vals, dtype=dt), layout)
    keep = x.copy()
    u, idx, inv, cnt = call(unique_time, x)
    check(np.array_equal(x, keep), "input changed")
    check(u.dtype == x.dtype, "type %s", u.dtype)
    wu, wi, wv, wc = np.unique(keep, return_index=True, return_inverse=True,
                               return_counts=True)
    for nm, g, w in (("values", u, wu), ("index", idx, wi),
                     ("inverse", inv, wv), ("counts", cnt, wc)):
        check(np.asarray(g).tolist() == w.tolist(), "unique_time(%s): %s %s,"
              " expected %s", vals, nm, np.asarray(g).tolist(), w.tolist())
    return len(wu)


def uniq_bl(p):
    rows, layout = p
    a = relayout(np.array([r[0] for r in rows], dtype=I4), layout)
    b = relayout(np.array([r[1] for r in rows], dtype=I4), layout)
    u, idx, inv, cnt = call(unique_baselines, a, b)
    u = np.asarray(u)
    check(u.dtype == I4 and (u.shape == (len(set(rows)), 2)),
          "unique_baselines(%s): %s %s", rows, u.dtype, u.shape)
    ul = [tuple(x) for x in u.tolist()]
    check(sorted(ul) == sorted(set(rows)), "unique_baselines(%s) is %s",
          rows, ul)
    for r in range(len(rows)):
        check(ul[inv[r]] == rows[r], "unique_baselines(%s): inverse %s",
              rows, inv)
    for k, x in enumerate(ul):
        check(rows.index(x) == idx[k] and rows.count(x) == cnt[k],
              "unique_baselines(%s): index %s counts %s", rows, idx, cnt)
    # one order for all
    if len(rows) and min(min(r) for r in rows) >= 0:
        check(ul == sorted(ul, key=lambda x: (x[1], x[0])) or
              ul == sorted(ul), "unique_baselines(%s): %s is in no order",
              rows, ul)
    return len(ul)


def groups(tier):
    big = tier == "thorough"
    secs = (0.5, 1, 2, 2.5, 3, 10)
    nmax = 5 if big else 4
    nt, nb = (4, 3)
    tot = 1 << (nt * nb)
    step = 256
    gaps = (0.5, 1.0, 2.0)
    lens = (2, 3, 4, 5, 6) if big else (2, 3, 4, 5)
    tr = []
    for k in lens:
        for g in itertools.product(gaps, repeat=k - 1):
            for ivs in itertools.product((0.5, 1.0, 3.0), repeat=k) \
                    if k <= 4 else [(1.0,) * k, (0.5,) * k,
                                    tuple((0.5, 1.0, 3.0)[i % 3]
                                          for i in range(k))]:
                for s in (1, 2, 3.5):
                    tr.append((g, ivs, s))
    longs = [(0.0, 1.0, 2.0, 3.0, 4.0, 5.0), (0.0, 1.0, 4.0, 5.0, 9.0, 10.0),
             (0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0)]
    vals = (-1.5, 0.0, 2.0)
    un = [(v, dt, lay) for k in range(0, 7 if big else 6)
          for v in itertools.product(vals, repeat=k)
          for dt in ("f8", "f4") for lay in
          (("C", "strided", "readonly") if k else ("C",))]
    bls = [(0, 0), (0, 1), (1, 0), (2, 300)]
    ub = [(r, lay) for k in range(0, 6) for r in
          itertools.product(bls, repeat=k)
          for lay in ("C", "reversed") if k or lay == "C"]
    ub += [(tuple((i, j) for i in s for j in s), "C")
           for k in (1, 2, 3) for s in
           itertools.permutations((0, 1, 65536, 2**31 - 1), k)]
    ub = list(dict.fromkeys(ub))
    dup = [(r, s, f) for k in (2, 3, 4) for r in itertools.product(
        [(0.0, 0), (1.0, 0), (0.0, 1)], repeat=k) if len(set(r)) < k
        for s in (1, 5) for f in (False, True)]
    return [
        Group("row-orders", [(i, nmax, iv, s, True) for i in range(8)
                             for iv in ("one", "mixed") for s in secs],
              orders, "every order of every set of rows of a 4x2 grid "
              "x flag patterns x bin lengths", "<= %d rows" % nmax),
        Group("row-subsets", [(nt, nb, iv, s, lo, lo + step, o, fl)
                              for iv in (tuple(INTERVALS) if big else
                                         ("one", "mixed"))
                              for s in (secs if big else (1, 2, 3))
                              for lo in range(0, tot, step)
                              for o, fl in (("time", True),
                                            ("baseline", False),
                                            ("reversed", False))],
              subsets, "every subset of a 4 x 3 (time, baseline) grid",
              "2^12 subsets, 3 row orders"),
        Group("row-flags", [(t, iv, s, fdt) for t in longs
                            for iv in ("one", "half") for s in (1, 2, 3, 100)
                            for fdt in ("u1", "bool", "i4")], flags_of,
              "every flag pattern of a track", "<= 7 samples"),
        Group("tracks", tr, tracks, "every sequence of gaps and intervals",
              "<= %d samples" % lens[-1]),
        Group("types-layouts", [(t, f, lay, s, sh)
                                for t in ("f8", "f4")
                                for f in ("u1", "bool", "i4", "i8")
                                for lay in ("C", "strided", "offset",
                                            "reversed", "readonly")
                                for s in (1, 2, 2.5)
                                for sh in ((0.0, 4.9e9, -10.0) if t == "f8"
                                           else (0.0, 1000.0))], dtypes,
              "types, layouts and epochs", "5 times x 3 baselines"),
        Group("mixed-types", [(t, i, f, v, st, sh, s)
                              for t, i in (("f8", "f4"), ("f4", "f8"),
                                           ("f8", "f8"))
                              for f, v in (("u1", 1), ("u1", 2), ("u1", 255),
                                           ("i4", 7), ("i8", 2), ("i2", 300))
                              for st, sh in ((1.0, 0.0), (2.0 ** -24, 0.0),
                                             (2.0 ** 40, 0.0)) + (
                                  ((1.0, 2.0 ** 32), (1.0, 2.0 ** 42),
                                   (2.0 ** -16, 2.0 ** 32))
                                  if t == "f8" else ())
                              for s in (1, 2, 2.5)], mixed,
              "times and intervals of different precision, any flag value, "
              "close and distant times", "5 times x 2 baselines"),
        Group("duplicates", dup, duplicates, "rows given twice", "<= 4 rows"),
        Group("bad-types", [("time", "i4"), ("time", "i8"), ("ant1", "i8"),
                            ("ant2", "i8"), ("ant1", "u4"), ("ant2", "i2")],
              bad_types, "unsupported types are rejected", "listed"),
        Group("large", [(nt_, na, s, z) for nt_, na in ((40, 8), (9, 30))
                        for s in (1, 4, 7) for z in (0, 1)] +
              ([(30, 64, 5, 0)] if big else []), large,
              "many rows", "up to %s lookup cells" % (
                  "60k" if big else "4k")),
        Group("channels", [(n, s) for n in range(0, 34 if big else 26)
                           for s in range(1, 37 if big else 29)], channels,
              "every channel count and bin size", "<= 33 x 36"),
        Group("unique-time", un, uniq_time, "every sequence of times",
              "<= %d of 3 values" % (6 if big else 5)),
        Group("unique-baselines", ub, uniq_bl, "every sequence of baselines",
              "<= 5 of 4"),
    ]
