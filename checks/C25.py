"""C25: cell sizes sample the longest baseline and cover the shortest."""
import itertools
import math

import numpy as np

from core import Group, call, check, raises, state
from refs import LAYOUTS, relayout
from africanus.gridding.util import estimate_cell_size

ASSUMPTIONS = ["at least one non-zero coordinate per axis",
               "with a grid size, no coordinate is zero for float arguments",
               "the documented criterion is read as the code applies it: "
               "the field of view has to be at least lambda / min|u|"]
ARC = 180 / math.pi * 3600


def expect(u, v, lam, factor, ny, nx):
    wl = min(lam)
    out = []
    for x, n in ((u, ny), (v, nx)):
        big, small = max(abs(a) for a in x), min(abs(a) for a in x)
        cell = wl / (2 * factor * big)
        if n is not None:
            need = math.inf if small == 0 else wl / small
            if abs(cell * n - need) > 1e-9 * cell * n and cell * n < need:
                return None
            if abs(cell * n - need) <= 1e-9 * cell * n:
                return "boundary"
        out.append(cell * ARC)
    return out


def arg(x, form):
    if form == "float":
        return float(x[0])
    if form == "np64":
        return np.float64(x[0])
    a = np.array(x)
    if form == "f4":
        return a.astype("f4")
    if form == "2d":
        return np.array([x, x])
    if form in LAYOUTS:
        return relayout(a, form)
    return a


def case(p):
    u, v, lam, factor, ny, nx, forms = p
    args = [arg(x, f) for x, f in zip((u, v, lam), forms)]
    use = [x[:1] if f in ("float", "np64") else x
           for x, f in zip((u, v, lam), forms)]
    want = expect(*use, 3.0 if factor is None else factor, ny, nx)
    kw = {}
    if factor is not None:
        kw["factor"] = factor
    if ny is not None:
        kw["ny"] = ny
    if nx is not None:
        kw["nx"] = nx
    keep = [np.array(a) for a in args]
    state()
    if want == "boundary":
        return "boundary"
    with np.errstate(all="ignore"):
        if want is None:
            e = raises(estimate_cell_size, *args, **kw)
            check(isinstance(e, ValueError), "%s gives %r, not a ValueError",
                  p, e)
            return "rejected"
        got = call(estimate_cell_size, *args, **kw)
    check(np.shape(got) == (2,), "shape %s", np.shape(got))
    tol = 1e-5 if "f4" in forms else 1e-12
    for g, w in zip(got, want):
        check(abs(g - w) <= tol * abs(w), "cells %s, expected %s for %s",
              got, want, p)
    for a, k in zip(args, keep):
        check(np.array_equal(a, k), "an argument was changed")
    return "cells"


def long(p):
    """ the extremes anywhere in long coordinate arrays """
    n, big, small, low, sign, ny = p
    u = [3.0 + 0.01 * i * (-1) ** i for i in range(n)]
    lam = [0.5 + 0.01 * i for i in range(n)]
    u[big % n], u[small % n] = sign * 11.0, -sign * 0.75
    lam[low % n] = 0.125
    u, lam = tuple(u), tuple(lam)
    return case((u, (2.0,), lam, None, ny, None, ("C",) * 3)), case(
        ((2.0,), u, lam, 2.0, None, ny, ("C",) * 3))


def types(p):
    which, value = p
    a = [np.array([1., 2.]), np.array([3., 1.]), np.array([.2, .3])]
    a[which] = {"list": [1., 2.], "none": None, "text": "1"}[value]
    e = raises(estimate_cell_size, *a)
    check(isinstance(e, TypeError), "%s gives %r", p, e)


def groups(tier):
    deep = tier == "thorough"
    n = 3 if deep else 2
    base = (-7., -3., .5, 4.) + ((2e4, -1e-3) if deep else ())
    sets = [s for k in range(1, n + 1)
            for s in itertools.product(base, repeat=k)]
    few = [(4.,), (.5, -7.), (-3., 4.)]
    lams = [(.2,), (.3, .2), (.2, .21, .5)]
    cases = []
    for u in sets:
        for v in few:
            for lam in lams:
                for ny, nx in ((None, None), (5, None), (None, 5), (90, 90),
                               (7, 400), (400, 7)):
                    cases.append((u, v, lam, None, ny, nx, ("C",) * 3))
                    cases.append((v, u, lam, 1.5, ny, nx, ("C",) * 3))
    for forms in itertools.product(("float", "np64", "C", "f4", "2d") +
                                   tuple(LAYOUTS[1:]), repeat=3):
        for factor in (None, 1.0, 2.5):
            for ny, nx in ((None, None), (100, 100), (4, 4)):
                cases.append(((4., -6.), (-2.5, 1.), (.3, .2), factor, ny, nx,
                              forms))
    for z in ((0., 4.), (-5., 0., 2.)):
        for ny, nx in ((None, None), (10, None), (None, 10), (10, 10)):
            cases.append((z, (3., 1.), (.2,), None, ny, nx, ("C",) * 3))
            cases.append(((3., 1.), z, (.2,), None, ny, nx, ("C",) * 3))
    for ny, nx in ((0, None), (None, 0), (0, 0), (0, 400), (400, 0)):
        for factor in (None, 1.0):
            cases.append(((4., -6.), (-2.5, 1.), (.3, .2), factor, ny, nx,
                          ("C",) * 3))
    ny_sweep = [((8., -3.), (4., 2.), (.2, .4), f, a, b, ("C",) * 3)
                for f in (None, 1., 2.) for a in range(1, 30)
                for b in range(1, 30)]
    seen, out = set(), []
    for c in cases + ny_sweep:
        if c not in seen:
            seen.add(c)
            out.append(c)
    return [Group("cells", out, case, "cell sizes for every combination",
                  "coordinate sets of <= %d values, grid sizes to 30" % n),
            Group("ladder", [(m, b, s, w, sg, ny) for m in
                             (4, 5, 8, 9, 16, 17, 33, 65, 129) +
                             ((257, 1025, 4097) if deep else ())
                             for b in sorted({0, m // 2, m - 1})
                             for s in sorted({1, m // 2 + 1, m - 2})
                             for w in sorted({0, 2, m - 1})
                             for sg in (1, -1)
                             for ny in (None, 40, 60, 87, 90, 100)
                             if b != s], long, "the longest and shortest "
                  "baseline and the shortest wavelength anywhere in long "
                  "arrays", "lengths to 129 (4097)"),
            Group("types", [(w, v) for w in range(3)
                            for v in ("list", "none", "text")], types,
                  "other types are refused", "9")]
