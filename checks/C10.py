"""C10: Hogbom CLEAN against a reference transition system.

The state is (clean image, residual image).  One transition subtracts gain
times the peak at a pixel holding the peak.  For every image of a finite set
the real code is run with every iteration limit and must end in a state the
system reaches with that limit."""
import itertools

import numpy as np

from core import Group, call, check, raises, state
from refs import generic, relayout
from africanus.deconv.hogbom.clean import (fit_2d_gaussian, hogbom_clean,
                                           restore)
from africanus.deconv.hogbom import clean as clean_module
from scipy.optimize import least_squares
import logging

logging.disable(logging.CRITICAL)

ASSUMPTIONS = [
    "the centre of the 2n x 2n point spread function is its element "
    "(n-1, n-1), as the implementation has it",
    "the peak is the largest (most positive) pixel; any of several equal "
    "ones may be taken"]


def make_psf(kind, n, dtype="float64"):
    """ unit peak at (n-1, n-1) """
    i = np.arange(2 * n) - (n - 1)
    x, y = np.meshgrid(i, i, indexing="ij")
    if kind == "delta":
        p = ((x == 0) & (y == 0)) * 1.0
    elif kind == "cross":
        p = np.where((x == 0) | (y == 0), 0.25, 0.0)
        p[n - 1, n - 1] = 1.0
    elif kind == "generic":
        p = 0.5 * generic((2 * n, 2 * n), "float64", 3)
        p[n - 1, n - 1] = 1.0
    elif kind == "skew":
        p = np.exp(-0.3 * (x + 0.5 * y) ** 2 - 0.7 * y * y)
    elif kind == "unnormalised":
        p = 2.0 * np.exp(-0.4 * x * x - 0.3 * y * y)
    elif kind == "zeropeak":
        p = np.ones((2 * n, 2 * n)) * 0.5
        p[n - 1, n - 1] = 0.0
    return p.astype(dtype)


def shifted(psf, n, p, q):
    return np.array([[psf[n - 1 + x - p, n - 1 + y - q] for y in range(n)]
                     for x in range(n)])


class System(object):
    """ all states reachable with at most k components """

    def __init__(self, dirty, psf, gamma, threshold, tie=1e-9):
        self.tie = tie
        self.n = dirty.shape[0]
        self.psf = psf.astype("float64")
        self.gamma = gamma
        d = dirty.astype("float64")
        peak = d.max()
        frac = 0.2 if threshold is None else threshold
        self.thr = frac * abs(peak)
        self.near = False
        self.shift = {}
        self.levels = [[(np.zeros_like(d), d)]]

    def done(self, s):
        a = abs(s[1].max())
        if abs(a - self.thr) < self.tie * max(1.0, self.thr) and a != self.thr:
            self.near = True
        return not a > self.thr

    def step(self, s):
        c, r = s
        m = r.max()
        for p, q in zip(*np.nonzero(r >= m - self.tie * max(1.0, abs(m)))):
            k = (p, q)
            if k not in self.shift:
                self.shift[k] = shifted(self.psf, self.n, p, q)
            c2 = c.copy()
            c2[p, q] += self.gamma * r[p, q]
            yield c2, r - self.gamma * r[p, q] * self.shift[k]

    def level(self, k):
        while len(self.levels) <= k:
            nxt, seen = [], set()
            for s in self.levels[-1]:
                succ = [s] if self.done(s) else list(self.step(s))
                for t in succ:
                    key = np.round(np.concatenate([t[0].ravel(),
                                                   t[1].ravel()]), 7)
                    key = (key + 0.0).tobytes()
                    if key not in seen:
                        seen.add(key)
                        nxt.append(t)
                        state()
            self.levels.append(nxt)
            if len(nxt) > 3000:
                return None
        return self.levels[k]


def judge(dirty, psf, gamma, threshold, niters, tol=1e-9):
    d0, p0 = dirty.copy(), psf.copy()
    S = System(dirty, psf, gamma, threshold, tol)
    n = dirty.shape[0]
    scale = max(1.0, np.abs(dirty).max())
    taken = 0
    for k in niters:
        kw = {}
        if threshold is not None:
            kw["threshold"] = threshold
        if k is not None:
            kw["niter"] = k
        if gamma is not None:
            kw["gamma"] = gamma
        clean, res = call(hogbom_clean, dirty, psf, **kw)
        check(np.array_equal(dirty, d0) and np.array_equal(psf, p0),
              "inputs modified")
        check(clean.shape == res.shape == dirty.shape and
              clean.dtype == res.dtype == dirty.dtype, "shape or type: %s %s",
              clean.shape, clean.dtype)
        check(not np.shares_memory(res, dirty) and
              not np.shares_memory(clean, res), "outputs share memory")
        # flux bookkeeping
        rec = res.astype("float64")
        for p, q in zip(*np.nonzero(clean)):
            rec = rec + float(clean[p, q]) * shifted(S.psf, n, p, q)
        check(np.allclose(rec, dirty, rtol=0, atol=tol * scale * 50),
              "niter=%s: residual + components * psf is not the dirty "
              "image:\n%s\n%s", k, rec, dirty)
        k_ = 3 * n if k is None else max(k, 0)
        lv = S.level(k_)
        if lv is None or S.near:
            continue
        ok = any(np.allclose(clean, c, rtol=0, atol=tol * scale) and
                 np.allclose(res, r, rtol=0, atol=tol * scale)
                 for c, r in lv)
        check(ok, "dirty=%s gamma=%s threshold=%s niter=%s: clean=%s "
              "residual=%s is not reached by taking up to %s peaks; one "
              "expected: %s", dirty.tolist(), gamma, threshold, k,
              clean.tolist(), res.tolist(), k_, lv[0][0].tolist())
        taken = max(taken, int(np.count_nonzero(clean)))
    return taken


def small(p):
    n, kind, gamma, thr, head = p
    vals = (-1.0, 0.0, 1.0, 2.5) if n == 2 else (0.0, 1.0, 2.0)
    free = n * n - len(head)
    got = set()
    for tail in itertools.product(range(len(vals)), repeat=free):
        d = np.array([vals[i] for i in tuple(head) + tail]).reshape(n, n)
        got.add(judge(d, make_psf(kind, n), gamma, thr, (-1, 0, 1, 2, 3)
                      if n == 2 else (0, 1, 2)))
    return tuple(sorted(got))


def ladder(p):
    n, kind, gamma, thr, dtype, layout = p
    d = generic((n, n), "float64", n, 0.1, 3.0).astype(dtype)
    psf = make_psf(kind, n, dtype)
    d, psf = relayout(d, layout), relayout(psf, layout)
    tol = 1e-9 if dtype == "float64" else 2e-5
    if dtype == "float32":
        return judge(d, psf, gamma, thr, (0, 1, 2, 3), tol)
    return judge(d, psf, gamma, thr, (0, 1, 2, 5, 2 * n, None), tol)


def single_source(p):
    """ a point source under its own psf is found where it is """
    n, x, y, flux, kind, gamma = p
    psf = make_psf(kind, n)
    d = flux * shifted(psf, n, x, y)
    if d.max() > d[x, y]:
        return "not a peak"
    clean, res = call(hogbom_clean, d, psf, gamma=gamma, threshold=0.01,
                      niter=200)
    c2 = clean.copy()
    c2[x, y] = 0
    check(np.all(c2 == 0) and abs(clean[x, y] - flux) <= 0.011 * flux,
          "point source %s at (%d, %d): clean %s", flux, x, y,
          clean.tolist())
    check(res.max() <= 0.01 * flux * (1 + 1e-12), "residual %s", res.max())
    return "found"


def wrong(p):
    ds, ps = p
    d, s = np.ones(ds), np.ones(ps)
    e = raises(hogbom_clean, d, s)
    ok = (ps == (2 * ds[0], 2 * ds[1]) and ds[0] == ds[1])
    check((e is None) == ok, "dirty %s psf %s: %r", ds, ps, e)
    check(ok or isinstance(e, (ValueError, AssertionError)), "%r", e)
    return ok


def undefined(p):
    n, where, dtype = p
    d = (1.0 + np.arange(n * n)).reshape(n, n).astype(dtype)
    for i in where:
        d.flat[i] = np.nan
    e = raises(hogbom_clean, d, make_psf("cross", n, dtype))
    check(isinstance(e, ValueError), "undefined pixels %s give %r", where, e)


def lobe(n, m, sx, sy, th):
    """ a rotated elliptical Gaussian with its peak at (n-1, m-1) """
    x, y = np.meshgrid(np.arange(2 * n) - (n - 1.0),
                       np.arange(2 * m) - (m - 1.0), indexing="ij")
    u = np.cos(th) * x - np.sin(th) * y
    v = np.sin(th) * x + np.cos(th) * y
    return np.exp(-u * u / (2 * sx * sx) - v * v / (2 * sy * sy))


def best_beam(psf):
    """ the least squares elliptical Gaussian (with an offset) of the psf's
    pixels above half its peak, found from another parametrisation """
    t = np.where(psf >= 0.5 * psf.max(), psf, 0.0)
    x, y = np.meshgrid(*[np.arange(s) * 1.0 for s in psf.shape],
                       indexing="ij")
    w = t / t.sum()
    mx, my = (w * x).sum(), (w * y).sum()
    xy = (w * (x - mx) * (y - my)).sum()
    cov = np.array([[(w * (x - mx) ** 2).sum() + 0.05, xy],
                    [xy, (w * (y - my) ** 2).sum() + 0.05]])
    low = np.linalg.cholesky(np.linalg.inv(cov))

    def g(q):
        a, mx, my, l0, l1, l2, o = q
        u = l0 * (x - mx) + l1 * (y - my)
        v = l2 * (y - my)
        return o + a * np.exp(-0.5 * (u * u + v * v))
    r = least_squares(lambda q: (g(q) - t).ravel(),
                      [1, mx, my, low[0, 0], low[1, 0], low[1, 1], 0],
                      xtol=1e-12, ftol=1e-12, gtol=1e-12)
    b = g(r.x)
    return b / b.max()


def beam(p):
    n, m, sx, sy, th, amp, dtype = p
    psf = (amp * lobe(n, m, sx, sy, th)).astype(dtype)
    p0 = psf.copy()
    got = call(fit_2d_gaussian, psf)
    check(np.array_equal(psf, p0), "psf modified")
    check(got.shape == psf.shape, "shape %s", got.shape)
    want = best_beam(psf.astype("float64"))
    d = np.abs(got - want).max()
    check(d < 2e-3, "psf %s: the clean beam is %g off the Gaussian fitted to "
          "its main lobe", p, d)
    return "fitted"


def gaussian(p):
    f = getattr(clean_module, "twod_gaussian", None)
    if f is None:
        return "absent"
    amp, xo, yo, sx, sy, th, off = p
    x, y = np.meshgrid(np.arange(7.0), np.arange(5.0))
    u = np.cos(th) * (x - xo) - np.sin(th) * (y - yo)
    v = np.sin(th) * (x - xo) + np.cos(th) * (y - yo)
    want = off + amp * np.exp(-u * u / (2 * sx * sx) - v * v / (2 * sy * sy))
    got = call(f, (x, y), amp, xo, yo, sx, sy, th, off)
    check(got.shape == (35,) and np.allclose(got, want.ravel(), rtol=1e-12,
                                             atol=1e-14),
          "rotated Gaussian %s", p)
    return "as defined"


def restored(p):
    n, seed, sx, sy, th = p
    psf = lobe(n, n, sx, sy, th)
    clean = np.zeros((n, n))
    for j in range(seed):
        clean[(3 * j + 1) % n, (5 * j + seed) % n] += 1.0 + j
    res = generic((n, n), "float64", seed)
    args = [a.copy() for a in (clean, psf, res)]
    beam = call(fit_2d_gaussian, psf)
    check(beam.shape == psf.shape and abs(beam.max() - 1) < 1e-12,
          "clean beam: shape %s, peak %s", beam.shape, beam.max())
    pk = np.unravel_index(beam.argmax(), beam.shape)
    check(max(abs(pk[0] - (n - 1)), abs(pk[1] - (n - 1))) <= 0,
          "clean beam peaks at %s, not with the psf at %d", pk, n - 1)
    r, m = call(restore, clean, psf, res)
    want = np.zeros((n, n))
    for a, b in zip(*np.nonzero(clean)):
        want += clean[a, b] * shifted(beam, n, a, b)
    check(np.allclose(m, want, atol=1e-9), "convolved model")
    check(np.allclose(r, want + res, atol=1e-9), "restored image")
    for a, b in zip(args, (clean, psf, res)):
        check(np.array_equal(a, b), "inputs modified")
    return n


def groups(tier):
    big = tier == "thorough"
    kinds = ("delta", "cross", "generic", "skew", "unnormalised", "zeropeak")
    cases = [(2, k, g, t, (h,)) for k in kinds
             for g in (0.1, 0.5, 1.0) for t in (None, 0.0, 0.5)
             for h in range(4)]
    cases += [(3, k, g, t, (a, b)) for k in (kinds if big else
                                             ("cross", "generic"))
              for g, t in (((0.5, None), (0.3, 0.1)) if big else
                           ((0.5, None),))
              for a in range(3) for b in range(3)]
    lad = [(n, k, g, t, dt, lay) for n in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17) +
           ((32, 33, 64) if big else ())
           for k in ("cross", "generic", "skew") for g in (0.1, 0.7)
           for t in (None, 0.05) for dt in ("float64", "float32")
           for lay in ("C", "F", "strided", "readonly")
           if n < 16 or (lay == "C")]
    src = [(n, x, y, f, k, g) for n in (1, 2, 3, 4) + ((6,) if big else ())
           for x in range(n) for y in range(n) for f in (0.5, 3.0)
           for k in ("delta", "cross", "skew") for g in (0.1, 1.0)]
    shp = [(a, b) for a in itertools.product((1, 2, 3), repeat=2)
           for b in itertools.product(range(1, 8), repeat=2)]
    return [
        Group("all-images", cases, small,
              "every image over a value alphabet x psf x gain x threshold x "
              "iteration limit ends in a reachable state",
              "2x2 over 4 values, 3x3 over 3 values, limits -1..3"),
        Group("ladder", lad, ladder, "sizes, types, layouts, default limit",
              "n <= 17 (64)"),
        Group("sources", src, single_source, "every position of a point "
              "source", "n <= 4 (6)"),
        Group("sizes", shp, wrong, "all pairs of shapes", "<= 3 and <= 7"),
        Group("undefined", [(n, w, dt) for n in (1, 2, 3)
                            for k in range(1, n * n + 1)
                            for w in itertools.combinations(range(n * n), k)
                            for dt in ("float64", "float32")], undefined,
              "images with undefined pixels, anywhere, are rejected",
              "every set of pixels, n <= 3"),
        Group("restore", [(n, s, sx, sy, th) for n in (8, 9, 16)
                          for s in (0, 1, 3, 6) for sx in (1.5, 2.0)
                          for sy in (1.5, 2.2) for th in (0.0, 0.6)],
              restored,
              "restored image = residual + clean * beam", "listed"),
        Group("beam", [(n, m, sx, sy, th, a, dt)
                       for n, m in ((5, 5), (6, 6), (8, 8), (9, 9), (8, 6),
                                    (9, 16)) + (((16, 16), (16, 9), (32, 32),
                                                 (5, 9)) if big else ())
                       for sx in (1.5, 2.0, 3.0) for sy in (1.5, 2.2, 3.0)
                       for th in (0.0, 0.5, 1.0, np.pi / 2, 2.5)
                       for a in (1.0, 0.4) for dt in ("float64", "float32")
                       if a == 1.0 or dt == "float64"], beam,
              "every size, width and orientation of the main lobe: the "
              "least squares elliptical Gaussian", "listed"),
        Group("gaussian", list(itertools.product(
            (1.0, 0.3), (3.0, 2.25), (2.0, 0.5), (0.8, 1.7), (0.8, 1.2),
            (0.0, 0.4, 1.2, -4.0), (0.0, 0.2))), gaussian,
              "every parameter combination against the definition",
              "listed"),
    ]
