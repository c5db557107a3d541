"""Reference averages, from the definition (used by C14 and C15)."""
import numpy as np

from refs import generic

I4 = np.int32
ROWC = ("time_centroid", "exposure", "uvw", "weight", "sigma")
CHANC = ("chan_freq", "chan_width", "effective_bw", "resolution")
CUBE = ("vis", "flag", "weight_spectrum", "sigma_spectrum")
OPT = ROWC + CHANC + CUBE + ("flag_row",)

# (time, ant1, ant2) of the rows, in file order
ROWS = {
    "track2": [(0.0, 0, 1), (1.0, 0, 1)],
    "track3": [(0.0, 0, 1), (1.0, 0, 1), (2.0, 0, 1)],
    "two": [(0.0, 0, 1), (0.0, 0, 2), (1.0, 0, 1), (1.0, 0, 2)],
    "mess": [(2.0, 0, 2), (0.0, 0, 1), (1.0, 1, 1), (1.0, 0, 1), (2.0, 0, 1),
             (0.0, 1, 1), (5.0, 0, 1)],
    "empty": [],
    "one": [(3.0, 4, 2)],
}


def many(ntime, nant, order="time"):
    """ rows of a longer track of all baselines """
    bl = [(p, q) for p in range(nant) for q in range(p + 1, nant)]
    rows = [(float(t), p, q) for t in range(ntime) for p, q in bl]
    if order == "baseline":
        rows.sort(key=lambda r: r[1:])
    elif order == "reverse":
        rows.reverse()
    elif order == "gaps":           # every fifth row is missing
        rows = [r for i, r in enumerate(rows) if i % 5 != 3]
    return rows


def data(rows, nchan, ncorr, prec, zero_weights=False):
    f = "f8" if prec == 8 else "f4"
    c = "c16" if prec == 8 else "c8"
    n = len(rows)
    d = {"time": np.array([r[0] for r in rows], "f8"),
         "interval": np.full(n, 1.0),
         "antenna1": np.array([r[1] for r in rows], I4),
         "antenna2": np.array([r[2] for r in rows], I4),
         "time_centroid": np.array([r[0] for r in rows], "f8") +
         generic((n,), "f8", 1, 0, .4),
         "exposure": generic((n,), f, 2, .5, 1),
         "uvw": generic((n, 3), f, 3, -100, 100),
         "weight": generic((n, ncorr), f, 4, .2, 3),
         "sigma": generic((n, ncorr), f, 5, .2, 3),
         "chan_freq": generic((nchan,), "f8", 6, 1e9, 2e9),
         "chan_width": generic((nchan,), "f8", 7, 1e6, 2e6),
         "effective_bw": generic((nchan,), "f8", 8, 1e6, 2e6),
         "resolution": generic((nchan,), "f8", 9, 1e6, 2e6),
         "vis": generic((n, nchan, ncorr), c, 10, -10, 10),
         "weight_spectrum": generic((n, nchan, ncorr), f, 11, .2, 3),
         "sigma_spectrum": generic((n, nchan, ncorr), f, 12, .2, 3)}
    if zero_weights:
        d["weight"][::2] = 0
        d["weight_spectrum"][::2] = 0
    return d


def expected(d, secs, nbin, chan_chunks=None):
    """ the averaged columns, from the definition; channel bins do not cross
    the borders of ``chan_chunks`` """
    n = len(d["time"])
    flag, frow = d.get("flag"), d.get("flag_row")
    if flag is not None and frow is None:
        frow = np.array([bool(np.all(flag[r] != 0)) for r in range(n)],
                        dtype=bool)
    bins = []
    for bl in sorted(set(zip(d["antenna1"].tolist(),
                             d["antenna2"].tolist()))):
        rows = sorted((r for r in range(n) if (
            d["antenna1"][r], d["antenna2"][r]) == bl),
            key=lambda r: d["time"][r])
        cur = []
        for r in rows:
            if cur and d["time"][r] + d["interval"][r] / 2 - low > secs:
                bins.append(cur)
                cur = []
            if not cur:
                low = d["time"][r] - d["interval"][r] / 2
            cur.append(r)
        if cur:
            bins.append(cur)
    bins.sort(key=lambda b: (np.mean([d["time"][r] for r in b]),
                             d["antenna2"][b[0]], d["antenna1"][b[0]]))
    out = {k: [] for k in ("time", "interval", "antenna1", "antenna2",
                           "flag_row") + ROWC + CUBE}
    cubes = [d.get(k) for k in CUBE]
    nchan = ncorr = 0
    for x in cubes:
        if x is not None:
            nchan, ncorr = x.shape[1:]
    if not nchan:
        for k in CHANC:
            if d.get(k) is not None:
                nchan = len(d[k])
    cb, lo = [], 0
    for size in (chan_chunks or (nchan,)) if nchan else ():
        cb.extend(list(range(lo + i, lo + min(i + nbin, size)))
                  for i in range(0, size, nbin))
        lo += size
    for b in bins:
        allf = frow is not None and all(frow[r] for r in b)
        use = [r for r in b if frow is None or bool(frow[r]) == allf]
        out["time"].append(np.mean([d["time"][r] for r in b]))
        out["interval"].append(sum(d["interval"][r] for r in b))
        out["antenna1"].append(d["antenna1"][b[0]])
        out["antenna2"].append(d["antenna2"][b[0]])
        out["flag_row"].append(allf)
        f8 = np.float64
        if d.get("time_centroid") is not None:
            out["time_centroid"].append(np.mean([d["time_centroid"][r]
                                                 for r in use]))
        if d.get("exposure") is not None:
            out["exposure"].append(sum(f8(d["exposure"][r]) for r in use))
        if d.get("uvw") is not None:
            out["uvw"].append(sum(d["uvw"][r].astype(f8) for r in use) /
                              len(use))
        w = d.get("weight")
        if w is not None:
            out["weight"].append(sum(w[r].astype(f8) for r in use))
        s = d.get("sigma")
        if s is not None:
            ww = {r: (w[r].astype(f8) if w is not None else
                      np.ones(s.shape[1])) for r in use}
            ws = sum(ww.values())
            v = sum(ww[r] ** 2 * s[r].astype(f8) ** 2 for r in use)
            out["sigma"].append(np.sqrt(v) / np.where(ws == 0, 1, np.abs(ws)))
        ov = np.zeros((len(cb), ncorr), complex)
        of = np.zeros((len(cb), ncorr))
        ow = np.zeros((len(cb), ncorr))
        os_ = np.zeros((len(cb), ncorr))
        wsp, ssp, vis = (d.get("weight_spectrum"), d.get("sigma_spectrum"),
                         d.get("vis"))
        for ci, chans in enumerate(cb):
            for co in range(ncorr):
                smp = [(r, c) for r in use for c in chans]
                good = [x for x in smp if flag is None or
                        not flag[x[0], x[1], co]]
                of[ci, co] = not good
                smp = good or smp

                def wt(r, c):
                    if wsp is not None:
                        return f8(wsp[r, c, co])
                    if w is not None:
                        return f8(w[r, co])
                    return 1.0
                tot = sum(wt(*x) for x in smp)
                if vis is not None and tot != 0:
                    ov[ci, co] = sum(wt(*x) * complex(vis[x + (co,)])
                                     for x in smp) / tot
                if wsp is not None:
                    ow[ci, co] = sum(f8(wsp[x + (co,)]) for x in smp)
                if ssp is not None and tot != 0:
                    os_[ci, co] = np.sqrt(sum(
                        wt(*x) ** 2 * f8(ssp[x + (co,)]) ** 2
                        for x in smp)) / abs(tot)
        for k, v in zip(CUBE, (ov, of, ow, os_)):
            if d.get(k) is not None:
                out[k].append(v)
    res = {k: v for k, v in out.items() if d.get(k) is not None}
    if frow is not None:
        res["flag_row"] = out["flag_row"]
    for k in CHANC:
        if d.get(k) is not None:
            fn = np.mean if k == "chan_freq" else np.sum
            res[k] = [fn([d[k][c] for c in ch]) for ch in cb]
    return res, len(bins), len(cb), ncorr
