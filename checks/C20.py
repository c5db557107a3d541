"""C20: normal equations of the phase-only solver."""
import itertools

import numpy as np
import dask.array as da

from core import Group, call, check, raises, schedule, state
from refs import (LAYOUTS, compositions, cut, generic, poke, pokes, relayout,
                  rungs)
import dsched
from africanus.calibration.phase_only import (compute_jhj, compute_jhr,
                                              compute_jhj_and_jhr,
                                              gauss_newton)
from africanus.calibration.phase_only import dask as pd

ASSUMPTIONS = ["one correlation axis (the only implemented mode), rows of "
               "two different antennas, sorted by time",
               "gains passed to the solver have unit amplitude",
               "the antenna axis is a single chunk"]
PAIRS = [p for p in itertools.product(range(3), repeat=2) if p[0] != p[1]]


def bins(counts, offset=0):
    c = np.array(counts, np.int32)
    i = np.zeros(len(c), np.int32)
    i[1:] = np.cumsum(c)[:-1]
    return i + np.int32(offset), c


class Data(object):
    def __init__(self, counts, rows, nchan, ndir, ncorr, jdt="c16",
                 vdt="c16", adt="i4", offset=0, unit=False, nant=3):
        nt, nrow = len(counts), sum(counts)
        self.counts = counts
        self.tbi, self.tbc = bins(counts, offset)
        self.a1 = np.array([r[0] for r in rows], adt)
        self.a2 = np.array([r[1] for r in rows], adt)
        self.jones = generic((nt, nant, nchan, ndir, ncorr), jdt, 1) + 1
        if unit:
            self.jones = np.exp(1j * generic(self.jones.shape, "f8", 2, -.3,
                                             .3)).astype(jdt)
        self.jones = self.jones.astype(jdt)
        self.model = generic((nrow, nchan, ndir, ncorr), vdt, 3)
        self.vis = generic((nrow, nchan, ncorr), vdt, 4)
        self.flag = np.zeros((nrow, nchan, ncorr), bool)
        self.weight = generic((nrow, nchan, ncorr), "f8", 5, .5, 2.)

    def ref(self, jones=None, model=None, resid=None):
        """ the derivative products, written out """
        jones = self.jones if jones is None else jones
        model = self.model if model is None else model
        resid = self.vis if resid is None else resid
        j = jones.astype("c16")
        jhj, jhr = np.zeros(j.shape), np.zeros(j.shape, "c16")
        t = np.repeat(np.arange(len(self.counts)), self.counts)
        nrow, nchan, ndir, ncorr = model.shape
        for r, f, s, c in np.ndindex(nrow, nchan, ndir, ncorr):
            if self.flag[r, f].any():
                continue
            p, q = self.a1[r], self.a2[r]
            v = j[t[r], p, f, s, c] * model[r, f, s, c] * np.conj(
                j[t[r], q, f, s, c])
            for ant, d in ((p, 1j * v), (q, -1j * v)):
                jhj[t[r], ant, f, s, c] += abs(d) ** 2
                jhr[t[r], ant, f, s, c] += np.conj(d) * resid[r, f, c]
        return jhj, jhr

    def predict(self, jones):
        t = np.repeat(np.arange(len(self.counts)), self.counts)
        g1, g2 = jones[t, self.a1], jones[t, self.a2]
        return (g1 * self.model * g2.conj()).sum(2)

    def head(self):
        return [self.tbi, self.tbc, self.a1, self.a2, self.jones]


def same(got, want, tol, what):
    check(got.shape == want.shape, "shape %s, expected %s (%s)", got.shape,
          want.shape, what)
    e = np.abs(got - want).max() if want.size else 0
    check(e <= tol * max(1, np.abs(want).max()), "off by %s (%s): %s, "
          "expected %s", e, what, got.ravel()[:6], want.ravel()[:6])


def three(d, tol, what):
    """ the three functions that accumulate the normal equations """
    args = d.head() + [d.vis, d.model, d.flag]
    keep = [a.copy() for a in args]
    jhj, jhr = d.ref()
    same(call(compute_jhj, *(d.head() + [d.model, d.flag])), jhj, tol,
         "jhj " + what)
    same(call(compute_jhr, *args), jhr, tol, "jhr " + what)
    a, b = call(compute_jhj_and_jhr, *args)
    same(a, jhj, tol, "joint jhj " + what)
    same(b, jhr, tol, "joint jhr " + what)
    for i, (x, k) in enumerate(zip(args, keep)):
        check(np.array_equal(x, k), "argument %d was changed (%s)", i, what)
    rdt = np.zeros(0, d.jones.dtype).real.dtype
    check(a.dtype == rdt and b.dtype == d.jones.dtype, "types %s %s (%s)",
          a.dtype, b.dtype, what)


def values(p):
    counts, nchan, ndir, ncorr, offset, first = p
    nrow = sum(counts)
    for tail in itertools.product(PAIRS, repeat=min(nrow - 1, 1)):
        rows = [PAIRS[first]] + list(tail)
        rows += [PAIRS[(2 * i + 1) % 6] for i in range(nrow - len(rows))]
        three(Data(counts, rows, nchan, ndir, ncorr, offset=offset), 1e-12,
              "%s %s" % (p, rows))
        state()
    return counts


def poke_data(ndir, ncorr):
    return Data((1, 2), ((0, 1), (2, 0), (1, 2)), 1, ndir, ncorr)


def poke_cases():
    out = []
    for k in ((1, 1), (2, 2)):
        d = poke_data(*k)
        out.extend(k + c for c in pokes({"jones": d.jones, "model": d.model,
                                         "vis": d.vis}))
    return out


def poked(p):
    """ special values in one element or in all of an argument """
    d = poke_data(*p[:2])
    a = poke({"jones": d.jones, "model": d.model, "vis": d.vis}, p[2:])
    d.jones, d.model, d.vis = a["jones"], a["model"], a["vis"]
    three(d, 1e-11, "%s" % (p,))
    state()
    return p[2]


def flags(p):
    nrow, nchan, ncorr, lo, hi = p
    counts = (nrow - 1, 1) if nrow > 1 else (1,)
    d = Data(counts, [PAIRS[2 * i] for i in range(nrow)], nchan, 2, ncorr)
    n = d.flag.size
    for mask in range(lo, hi):
        d.flag = np.array([mask >> i & 1 for i in range(n)], bool).reshape(
            d.flag.shape)
        d.vis = generic(d.vis.shape, "c16", 4)
        bad = d.flag.any(2)
        d.vis[bad] = np.nan
        d.vis[bad], keep = 0, d.vis.copy()
        jhj, jhr = d.ref()
        d.vis = keep
        args = d.head() + [d.vis, d.model, d.flag]
        a, b = call(compute_jhj_and_jhr, *args)
        what = "flags %s" % d.flag.astype(int).tolist()
        same(a, jhj, 1e-12, "joint jhj " + what)
        same(b, jhr, 1e-12, "joint jhr " + what)
        same(call(compute_jhr, *args), jhr, 1e-12, "jhr " + what)
        same(call(compute_jhj, *(d.head() + [d.model, d.flag])), jhj, 1e-12,
             "jhj " + what)
        state()
    return hi - lo


def types(p):
    jdt, vdt, adt, layout = p
    d = Data((2, 1), PAIRS[:3], 2, 2, 2, jdt, vdt, adt)
    for k in ("tbi", "tbc", "a1", "a2", "jones", "vis", "model", "flag"):
        setattr(d, k, relayout(getattr(d, k), layout))
    three(d, 2e-5 if "c8" in p else 1e-12, "%s" % (p,))
    return jdt


def ladder(p):
    """ larger problems, one dimension at a time, in memory and chunked """
    nt, per, nant, nchan, ndir, ncorr = p
    counts = tuple(1 + (per - 1 + i) % per for i in range(nt))
    rows = [(r % nant, (r + 1 + r % (nant - 1)) % nant)
            for r in range(sum(counts))]
    d = Data(counts, rows, nchan, ndir, ncorr, nant=nant)
    d.flag = generic(d.flag.shape, "f8", 9) > .8
    three(d, 1e-12, "%s" % (p,))
    for k in (1, 2, 3):
        for name in ("jhj", "jhr"):
            chunked((name, counts, cut(nt, k), cut(nchan, k), cut(ndir, k),
                     cut(ncorr, k), "c16", "c16"), rows, nant)
    state()
    return 1


def chunked(p, rows=None, nant=3):
    name, counts, tc, fc, sc, kc, jdt, vdt = p
    nrow = sum(counts)
    rows = rows or [PAIRS[(2 * i + 1) % 6] for i in range(nrow)]
    d = Data(counts, rows, sum(fc), sum(sc), sum(kc), jdt, vdt, nant=nant)
    d.flag[0, 0, 0] = d.flag[-1, -1, -1] = True
    rc, i = [], 0
    for c in tc:
        rc.append(sum(counts[i:i + c]))
        i += c
    rc = tuple(rc)
    jones = da.from_array(d.jones, chunks=(tc, (nant,), fc, sc, kc))
    vis = da.from_array(d.vis, chunks=(rc, fc, kc))
    model = da.from_array(d.model, chunks=(rc, fc, sc, kc))
    flag = da.from_array(d.flag, chunks=(rc, fc, kc))
    head = [da.from_array(d.tbi, chunks=(tc,)), da.from_array(
        d.tbc, chunks=(tc,)), da.from_array(d.a1, chunks=(rc,)),
        da.from_array(d.a2, chunks=(rc,)), jones]
    want = d.ref()[name == "jhr"]
    if name == "jhr":
        v = call(pd.compute_jhr, *(head + [vis, model, flag]))
        odt = np.dtype(jdt)
    else:
        v = call(pd.compute_jhj, *(head + [model, flag]))
        odt = np.zeros(0, jdt).real.dtype
    check(v.chunks == jones.chunks, "%s declares chunks %s, expected %s (%s)",
          name, v.chunks, jones.chunks, p)
    check(v.dtype == odt, "%s declares %s, expected %s (%s)", name, v.dtype,
          odt, p)
    keep = [a.copy() for a in d.head()]
    for order in ("first", "last", "first"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        same(got, want, 2e-5 if "c8" in (jdt, vdt) else 1e-12, "%s" % (p,))
        check(got.dtype == odt, "is %s (%s)", got.dtype, p)
    # and through dask's own reductions, which rely on the chunks declared
    got = call(dsched.compute, v.sum(axis=0), "first")[0]
    same(got, want.sum(axis=0), 2e-5 if "c8" in (jdt, vdt) else 1e-12,
         "sum of %s" % (p,))
    for a, k in zip(d.head(), keep):
        check(np.array_equal(a, k), "an argument was changed (%s)", p)
    return v.chunks


def refused(p):
    what, = p
    d = Data((2, 1), PAIRS[:3], 2, 1, 2)
    if what == "ant-chunks":
        for fn, more in ((pd.compute_jhj, [d.model, d.flag]),
                         (pd.compute_jhr, [d.vis, d.model, d.flag])):
            arrs = [da.from_array(a, chunks=a.shape) for a in d.head() + more]
            arrs[4] = da.from_array(d.jones, chunks=((2,), (2, 1), (2,),
                                                     (1,), (2,)))
            e = raises(fn, *arrs)
            check(isinstance(e, ValueError), "%s gives %r", p, e)
        return 1
    # the modes that are not implemented
    full = what == "full"
    j = generic((2, 3, 2, 1, 2) + ((2,) if full else ()), "c16", 1)
    v = generic((3, 2, 2, 2), "c16", 2)
    m = generic((3, 2, 1, 2, 2), "c16", 3)
    f = np.zeros(v.shape, bool)
    w = np.ones(v.shape)
    head = d.head()[:4] + [j]
    e = raises(compute_jhj_and_jhr, *(head + [v, m, f]))
    check(isinstance(e, NotImplementedError), "%s gives %r", p, e)
    e = raises(gauss_newton, *(head + [v.copy(), f, m.copy(), w]))
    check(isinstance(e, NotImplementedError), "solver %s gives %r", p, e)
    for fn, more in ((pd.compute_jhj, [m, f]), (pd.compute_jhr, [v, m, f])):
        e = raises(fn, *[da.from_array(a, chunks=a.shape)
                         for a in head + more])
        check(isinstance(e, NotImplementedError), "chunked %s gives %r", p, e)
    return 1


ALL = [(0, 1), (0, 2), (1, 2)]


def solver_data(counts, nchan, ndir, ncorr, offset=0, nant=3):
    rows = [ALL[i % 3] for c in counts for i in range(c)]
    if nant == 4:
        full = list(itertools.combinations(range(4), 2))
        rows = [full[i % 6] for c in counts for i in range(c)]
    d = Data(counts, rows, nchan, ndir, ncorr, unit=True, offset=offset,
             nant=nant)
    d.model = np.abs(d.model) + .5 + 0j
    return d


def solve(d, start, **kw):
    args = d.head()[:4] + [start, d.vis, d.flag, d.model, d.weight]
    keep = [a.copy() for a in args]
    out = call(gauss_newton, *args, **kw)
    for i, (x, k) in enumerate(zip(args, keep)):
        check(np.array_equal(x, k, equal_nan=True), "the solver changed its "
              "argument %d", i)
    return out


def weighted(d):
    """ the whitened model and the weights of the samples """
    w = d.weight if d.weight.ndim == 3 else d.weight[:, None, :] + np.zeros(
        d.vis.shape)
    return d.model * np.sqrt(w)[:, :, None], np.sqrt(w)


def fixed_point(p):
    """ started at the true gains """
    counts, nchan, ndir, ncorr, offset, wdim, nflag = p
    d = solver_data(counts, nchan, ndir, ncorr, offset)
    d.vis = d.predict(d.jones)
    if wdim == 2:
        d.weight = d.weight[:, 0]
    if nflag:
        d.flag.reshape(-1)[:nflag] = True
    g, jhj, jhr, k = solve(d, d.jones.copy(), maxiter=5)
    what = "%s" % (p,)
    check(k == 1, "%s iterations from the true gains (%s)", k, what)
    same(g, d.jones, 1e-10, "gains " + what)
    wm, _ = weighted(d)
    want = d.ref(model=wm)[0]
    same(jhj, want, 1e-10, "curvature " + what)
    check(np.abs(jhr).max() < 1e-9, "gradient %s at the solution (%s)",
          np.abs(jhr).max(), what)
    return k


def converge(p):
    """ perturbed starts, noisy data: a stationary point of the weighted
    misfit, and for noiseless data the true phase differences """
    counts, nchan, ncorr, noise, wdim, salt, nant, nflag = p
    d = solver_data(counts, nchan, 1, ncorr, nant=nant)
    d.vis = d.predict(d.jones) + noise * generic(d.vis.shape, "c16", 9 + salt)
    d.weight = generic(d.weight.shape, "f8", 11 + salt, .2, 3)
    if wdim == 2:
        d.weight = d.weight[:, 0]
    if nflag:       # whole rows, so that the antennas stay connected
        d.flag[-nflag:] = True
        d.vis[-nflag:] = np.nan
    start = np.ones(d.jones.shape, "c16")
    g, jhj, jhr, k = solve(d, start, tol=1e-11, maxiter=3000)
    what = "%s" % (p,)
    check(np.isfinite(g).all(), "gains that are not finite (%s)", what)
    check(np.abs(np.abs(g) - 1).max() < 1e-12, "gains without unit amplitude "
          "(%s)", what)
    check(k < 3000, "no convergence (%s)", what)
    wm, sw = weighted(d)
    d.vis = np.where(np.isnan(d.vis), 0, d.vis)
    res = (d.vis - d.predict(g)) * sw
    grad = d.ref(jones=g, model=wm, resid=res)[1].real
    check(np.abs(grad).max() < 1e-8, "gradient %s at the solution (%s)",
          np.abs(grad).max(), what)
    if not noise:
        for a in range(nant):
            for b in range(a):
                rel = np.angle(g[:, a] * g[:, b].conj() * (
                    d.jones[:, a] * d.jones[:, b].conj()).conj())
                check(np.abs(rel).max() < 1e-7, "phase difference of "
                      "antennas %d, %d off by %s (%s)", a, b,
                      np.abs(rel).max(), what)
    return 1


def idle(p):
    """ an antenna (or channel) without unflagged data """
    which, noise = p
    d = solver_data((6, 6), 2, 1, 1, nant=4)
    d.vis = d.predict(d.jones) + noise * generic(d.vis.shape, "c16", 9)
    used = np.ones((2, 4, 2), bool)
    t = np.repeat([0, 1], 6)
    if which[0] == "ant":
        d.flag[(d.a1 == which[1]) | (d.a2 == which[1])] = True
        used[:, which[1]] = False
    elif which[0] == "ant-time":
        d.flag[((d.a1 == which[1]) | (d.a2 == which[1])) & (t == 1)] = True
        used[1, which[1]] = False
    elif which[0] == "chan":
        d.flag[:, which[1]] = True
        used[:, :, which[1]] = False
    else:
        d.flag[t == which[1]] = True
        used[which[1]] = False
    start = np.exp(1j * generic(d.jones.shape, "f8", 13, -.2, .2))
    g, jhj, jhr, k = solve(d, start.copy(), tol=1e-11, maxiter=3000)
    check(np.isfinite(g).all(), "gains %s with data missing for %s", g[
        ~np.isfinite(g)], which)
    check(k < 3000, "no convergence with data missing for %s", which)
    u = used[:, :, :, None, None]
    same(g * ~u, start * ~u, 1e-12, "gains without data move, %s" % (p,))
    wm, sw = weighted(d)
    res = (d.vis - d.predict(g)) * sw
    grad = d.ref(jones=g, model=wm, resid=res)[1].real
    check(np.abs(grad).max() < 1e-8, "gradient %s at the solution with data "
          "missing for %s", np.abs(grad).max(), which)
    return 1


def alike(p):
    """ scaled weights give the same gains, turned gains turned ones """
    kind, v, ncorr, maxiter, noise = p
    out = []
    for turn in (False, True):
        d = solver_data((6, 6), 2, 1, ncorr, nant=4)
        start = np.exp(1j * generic(d.jones.shape, "f8", 13, -.2, .2))
        scale = 1.
        if turn and kind == "turn":
            by = np.exp(1j * v * np.array([1, 1, -1, 2]))[:, None, None, None]
            d.jones, start = d.jones * by, start * by
        d.vis = d.predict(d.jones)
        e = noise * generic(d.vis.shape, "c16", 9)
        if turn and kind == "turn":
            e *= (by[d.a1] * by[d.a2].conj())[:, :, 0]
        d.vis = d.vis + e
        if turn and kind == "weight":
            d.weight, scale = d.weight * v, v
        if turn and kind == "flux":
            d.vis, d.model, scale = d.vis * v, d.model * v, v * v
        g, jhj, jhr, k = solve(d, start, maxiter=maxiter, tol=1e-9)
        if turn and kind == "turn":
            g = g / by
        out.append((g, jhj / scale, jhr / scale, k))
    a, b = out
    check(a[3] == b[3] or maxiter > 9 and abs(a[3] - b[3]) < 2,
          "%d and %d iterations (%s)", a[3], b[3], p)
    for x, y, what in zip(a, b, ("gains", "curvature", "gradient")):
        same(y, x, 1e-8, "%s %s" % (what, p))
    return kind


def limit(p):
    """ the number of iterations """
    maxiter, tol = p
    d = solver_data((3, 3), 1, 1, 1)
    d.vis = d.predict(d.jones)
    start = np.ones(d.jones.shape, "c16")
    g, jhj, jhr, k = solve(d, start, maxiter=maxiter, tol=tol)
    check(1 <= k <= maxiter, "%d iterations, at most %d allowed", k, maxiter)
    # the sequence of iterates is one: k single steps give the same gains
    h, last = start, None
    for _ in range(k):
        last = h
        h = solve(d, h.copy(), maxiter=1, tol=tol)[0]
    same(g, h, 1e-10, "%d iterations against single steps" % k)
    step = np.abs(np.angle(h / last)).max()
    check(k == maxiter or step <= tol + 1e-12, "stopped after %d of %d "
          "iterations with a step of %s > %s", k, maxiter, step, tol)
    if k > 1:
        before = start
        for _ in range(k - 1):
            prev, before = before, solve(d, before.copy(), maxiter=1)[0]
        check(np.abs(np.angle(before / prev)).max() > tol - 1e-12,
              "went on after reaching the tolerance")
    return k


def groups(tier):
    deep = tier == "thorough"
    g = []
    n = 4 if deep else 3
    cases = [(c, f, s, k, o, first) for m in range(1, n + 1)
             for c in compositions(m) for f in (1, 2) for s in (1, 2)
             for k in (1, 2) for o in (0, 5) for first in range(6)]
    lens = (4, 5, 8, 9, 17, 33) + ((65, 129) if deep else ())
    g.append(Group("ladder", list(rungs((2, 2, 3, 2, 1, 2), lens)), ladder,
                   "one large dimension, in memory and in many chunks",
                   "<= %d elements, <= %d chunks" % (max(lens), max(lens))))
    g.append(Group("values", cases, values, "curvature and gradient equal "
                   "the sums of the derivative products", "all binnings of "
                   "<= %d rows, antenna pairs of two rows" % n))
    cases = []
    for r, f, k in ((1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (3, 1, 2)
                    ) + (((3, 2, 2),) if deep else ()):
        m = 1 << (r * f * k)
        for lo in range(0, m, 32):
            cases.append((r, f, k, lo, min(m, lo + 32)))
    g.append(Group("flags", cases, flags, "exactly the samples with a "
                   "flagged correlation are left out", "all flag patterns"))
    cases = [(j, v, "i4", "C") for j in ("c8", "c16") for v in ("c8", "c16")]
    cases += [("c16", "c16", a, lay) for a in ("i4", "i8") for lay in LAYOUTS
              if (a, lay) != ("i4", "C")]
    g.append(Group("types", cases, types, "every precision and memory "
                   "layout", "all combinations"))
    cases = []
    for name in ("jhj", "jhr"):
        for counts in ((2, 1, 1), (3, 2)) + (((1, 2, 1, 2),) if deep
                                             else ()):
            for tc in compositions(len(counts)):
                for fc in ((2,), (1, 1)):
                    for sc in ((1,), (2,), (1, 1)):
                        for kc in ((2,), (1, 1)):
                            cases.append((name, counts, tc, fc, sc, kc,
                                          "c16", "c16"))
        cases += [(name, (2, 1), (1, 1), (1, 1), (1,), (2,), j, v)
                  for j in ("c8", "c16") for v in ("c8", "c16")]
    g.append(Group("chunks", cases, chunked, "chunked accumulation equals "
                   "the whole one and declares what it returns",
                   "all chunkings of the listed bins"))
    g.append(Group("refused", [("ant-chunks",), ("diag",), ("full",)],
                   refused, "what is not implemented is rejected", "3"))
    cases = [(c, f, s, k, o, w, fl) for c in ((3,), (3, 6), (3, 3, 3))
             for f in (1, 2) for s in (1, 2) for k in (1, 2)
             for o in (0, 4) for w in (3, 2) for fl in (0, 1)]
    g.append(Group("fixed-point", cases, fixed_point, "the solver stays at "
                   "the true gains", "all listed sizes"))
    cases = [(c, f, k, nz, w, s, a, fl) for c in ((3,), (6, 3))
             for f in (1, 2) for k in (1, 2) for nz in (0, .1)
             for w in (3, 2) for s in range(3 if deep else 1)
             for a in (3,) for fl in (0,)]
    cases += [((6, 6), f, k, nz, w, 0, 4, fl) for f in (1, 2) for k in (1, 2)
              for nz in (0, .1) for w in (3, 2) for fl in (0, 1)]
    g.append(Group("converge", cases, converge, "the solution is a "
                   "stationary point of the weighted misfit",
                   "all listed sizes, with and without noise"))
    cases = [((k, i), nz) for k, m in (("ant", 4), ("ant-time", 4),
                                       ("chan", 2), ("time", 2))
             for i in range(m) for nz in (0, .1)]
    g.append(Group("idle", cases, idle, "gains without data keep their value "
                   "and do not affect the others", "each antenna, channel "
                   "and time"))
    g.append(Group("alike", [
        (kind, v, nc, m, nz) for kind, vs in (
            ("weight", (1e-20, 1e-12, 1e-7, 1e-3, 1e3, 1e12)),
            ("flux", (1e-10, 1e-5, 1e5, 1e10)),
            ("turn", (.3, 1., 1.57, 2.9, 3.0, 3.1, np.pi, 3.2, 4., -3.1)))
        for v in vs for nc in (1, 2) for m in (1, 3, 60)
        for nz in (0, .1)], alike, "scaling the weights or the flux does not "
        "change the gains; turning the gains turns the solution",
        "14 scales, 10 turns, 3 limits"))
    g.append(Group("limit", [(m, t) for m in (1, 2, 3, 5, 8)
                             for t in (1e-1, 1e-2, 1e-4, 1e-9)], limit,
                   "iterations stop at the tolerance or the limit",
                   "5 limits x 4 tolerances"))
    g.append(Group("special", poke_cases(), poked, "special values (zeros, "
                   "purely real or imaginary, tiny, large) are not special",
                   "one or all elements of every argument x the values"))
    return g
