"""C26: cubic splines."""
import itertools

import numpy as np

from core import Group, call, check, raises, state
from refs import generic
from africanus.averaging.splines import (fit_cubic_spline, evaluate_spline,
                                         solve_trid_system)

ASSUMPTIONS = ["at least three strictly increasing knots, floating point "
               "values"]


def reference(x, y, lt, rt, lv, rv):
    """ the coefficients from the defining conditions, one dense system:
    unknowns (a, b, c) of every interval, y + c h + b h^2 + a h^3 """
    n = len(x) - 1
    m = np.zeros((3 * n, 3 * n))
    r = np.zeros(3 * n)
    k = 0
    for i in range(n):                  # ends of the intervals
        h = x[i + 1] - x[i]
        m[k, 3 * i:3 * i + 3] = h ** 3, h ** 2, h
        r[k] = y[i + 1] - y[i]
        k += 1
    for i in range(n - 1):              # smoothness at inner knots
        h = x[i + 1] - x[i]
        m[k, 3 * i:3 * i + 3] = 3 * h * h, 2 * h, 1
        m[k, 3 * i + 5] = -1
        k += 1
        m[k, 3 * i:3 * i + 2] = 6 * h, 2
        m[k, 3 * i + 4] = -2
        k += 1
    m[k, 1 if lt == 2 else 2] = 2 if lt == 2 else 1
    r[k] = lv
    k += 1
    h = x[-1] - x[-2]
    i = 3 * (n - 1)
    if rt == 2:
        m[k, i:i + 2] = 6 * h, 2
    else:
        m[k, i:i + 3] = 3 * h * h, 2 * h, 1
    r[k] = rv
    return np.linalg.solve(m, r).reshape(n, 3)


def value(co, x, y, p, order):
    n = len(x) - 1
    if p < x[0]:                # quadratic continuation
        a, b, c, h, y0 = 0, co[0, 1], co[0, 2], p - x[0], y[0]
    elif p > x[-1]:
        d = x[-1] - x[-2]
        a0, b0, c0 = co[-1]
        a, b, c = 0, 3 * a0 * d + b0, 3 * a0 * d * d + 2 * b0 * d + c0
        h, y0 = p - x[-1], y[-1]
    else:
        i = min(np.searchsorted(x, p, side="right") - 1, n - 1)
        (a, b, c), h, y0 = co[i], p - x[i], y[i]
    return {0: ((a * h + b) * h + c) * h + y0, 1: (3 * a * h + 2 * b) * h + c,
            2: 6 * a * h + 2 * b}[order]


GAPS = (.5, 1., 3.)


def spline(p):
    gaps, ys, lt, rt, lv, rv, dt = p
    x = np.concatenate([[-1.], -1 + np.cumsum(gaps)]).astype(dt)
    y = np.array(ys, dt)
    keep = x.copy(), y.copy()
    if (lt, rt, lv, rv) == (2, 2, 0., 0.):
        s = call(fit_cubic_spline, x, y)
    else:
        s = call(fit_cubic_spline, x, y, lt, rt, lv, rv)
    x8, y8 = x.astype("f8"), y.astype("f8")
    co = reference(x8, y8, lt, rt, lv, rv)
    mids = (x8[:-1] + x8[1:]) / 2
    pts = np.sort(np.concatenate([x8, mids, x8[:-1] + (x8[1] - x8[0]) / 7,
                                  [x8[0] - .7, x8[-1] + 1.2]])).astype(dt)
    tol = 1e-9 if dt == "f8" else 2e-3
    size = max(1, np.abs(y8).max(), np.abs(co).max())
    for order in (0, 1, 2):
        want = np.array([value(co, x8, y8, q, order)
                         for q in pts.astype("f8")])
        # asked for all at once, one by one, and in reverse
        for q in (pts, pts[::-1].copy(), pts[3:5], pts[-1:]):
            w = np.array([value(co, x8, y8, t, order) for t in
                          q.astype("f8")])
            got = call(evaluate_spline, s, q, order) if order else call(
                evaluate_spline, s, q)
            check(got.shape == q.shape and got.dtype == q.dtype,
                  "%s %s for %s", got.shape, got.dtype, q.shape)
            check(np.abs(got - w).max() <= tol * size, "order %d at %s: %s, "
                  "expected %s (%s)", order, q, got, w, p)
    if True:
        got = call(evaluate_spline, s, x)
        check(np.abs(got - y).max() <= (1e-12 if dt == "f8" else 1e-4) * size,
              "knots not interpolated: %s, expected %s", got, y)
    check((x == keep[0]).all() and (y == keep[1]).all(), "arguments changed")
    state(len(pts) * 3)
    return None if want is None else len(x)


def system(p):
    """ the solution of the tridiagonal system, by its residual """
    gaps, ys, lt, rt, lv, rv = p
    x = np.concatenate([[0.], np.cumsum(gaps)])
    y = np.array(ys)
    b = call(solve_trid_system, x, y, lt, rt, lv, rv)
    co = reference(x, y, lt, rt, lv, rv)
    d = x[-1] - x[-2]
    want = np.append(co[:, 1], 3 * co[-1, 0] * d + co[-1, 1])
    check(np.abs(b - want).max() <= 1e-9 * max(1, np.abs(want).max()),
          "%s, expected %s (%s)", b, want, p)


def bad(p):
    lt, rt, order = p
    x = np.array([0., 1, 2, 4])
    y = np.array([1., 0, 2, 2])
    if order is None:
        e = raises(fit_cubic_spline, x, y, lt, rt)
    else:
        e = raises(evaluate_spline, fit_cubic_spline(x, y), x, order)
    check(isinstance(e, ValueError), "%s gives %r", p, e)


def groups(tier):
    deep = tier == "thorough"
    n = 5 if deep else 4
    vals = (-1., 0., 2.)
    ends = [(l, r, lv, rv) for l in (1, 2) for r in (1, 2)
            for lv in (0., 1.5, -.75) for rv in (0., -2., 1.25)]
    cases, sysc = [], []
    for k in range(2, n):
        for gaps in itertools.product(GAPS, repeat=k):
            for j, ys in enumerate(itertools.product(vals, repeat=k + 1)):
                for e in ends if k == 2 or j % 9 == 4 else ends[-8::7]:
                    cases.append((gaps, ys) + e + ("f8",))
                    sysc.append((gaps, ys) + e)
    cases += [((.5, 1., 3., 1.), (1., -1., 2., 0., 3.)) + e + ("f4",)
              for e in ends]
    cases += [((1.,) * 11, tuple(float(q * q % 7) for q in range(12))) + e +
              ("f8",) for e in ends]
    for k in (4, 5, 7, 8, 9, 16, 17, 33) + ((64, 129) if deep else ()):
        for j in range(3):
            gaps = tuple(GAPS[(i * (j + 1) + i // 3) % 3] for i in range(k))
            ys = tuple(float((q * q * (j + 1)) % 7) - 3 for q in range(k + 1))
            cases += [(gaps, ys) + e + ("f8",) for e in ends]
            sysc += [(gaps, ys) + e for e in ends]
    return [Group("spline", cases, spline, "splines through every small set "
                  "of knots satisfy their defining conditions",
                  "all value and gap patterns of <= %d knots, a ladder of "
                  "sizes beyond" % n),
            Group("system", sysc, system, "tridiagonal systems", "same"),
            Group("bad", [(0, 2, None), (2, 0, None), (3, 1, None),
                          (1, 3, None), (2, 2, 3), (2, 2, -1)], bad,
                  "unknown end conditions and orders are refused", "6")]
