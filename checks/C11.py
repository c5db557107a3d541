"""C11: Kronecker algebra and Gaussian process kernels vs the dense result."""
import itertools

import numpy as np

from core import Group, call, check, raises, state
from refs import generic, relayout
from africanus.linalg.kronecker_tools import (
    kron_N, kron_cholesky, kron_matmat, kron_matvec, kron_tensormat,
    kron_tensorvec)
from africanus.gps.kernels import exponential_squared
from africanus.gps.utils import abs_diff

ASSUMPTIONS = ["linearity in the vector: a full basis plus one generic "
               "vector determine a product",
               "tolerance 1e-10 relative to the largest dense entry"]

CPLX = ("complex64", "complex128")


def pack(mats, form):
    """ the 'array of arrays' of the documentation """
    if form == "regular":
        return np.array(mats)
    A = np.empty(len(mats), dtype=object)
    for i, m in enumerate(mats):
        A[i] = m
    return A


def dense(mats):
    K = np.ones((1, 1))
    for m in mats:
        K = np.kron(K, m)
    return K


def mat(shape, dtype, salt, kind="generic"):
    if kind == "spd":
        n = shape[0]
        B = generic((n, n), dtype, salt)
        return B.dot(B.conj().T) + n * np.eye(n)
    if kind == "int":
        return np.round(7 * generic(shape, "float64", salt)).astype(dtype)
    return generic(shape, dtype, salt)


def ok(got, want, what, tol=1e-10):
    check(got.shape == want.shape, "%s: shape %s, expected %s", what,
          got.shape, want.shape)
    if np.iscomplexobj(want):
        check(np.iscomplexobj(got), "%s: the imaginary part is dropped", what)
    s = max(1.0, np.abs(want).max() if want.size else 1.0)
    check(np.allclose(got, want, rtol=0, atol=tol * s), "%s: %s, expected %s",
          what, np.ravel(got)[:6], np.ravel(want)[:6])


def products(p):
    shapes, dtype, form, layout, bdtype = p
    kind = "int" if dtype.startswith("int") else "generic"
    if not dtype.startswith("mixed"):
        mats = [relayout(mat(s, dtype, i + 1, kind), layout)
                for i, s in enumerate(shapes)]
    else:
        # one factor of another type
        _, k, odd = dtype.split("-")
        mats = [mat(s, odd if i == int(k) else "float64", i + 1,
                    "int" if odd == "int64" and i == int(k) else "generic")
                for i, s in enumerate(shapes)]
    if form == "regular" and len(set(shapes)) > 1:
        return "n/a"
    A = pack(mats, form)
    K = dense(mats)
    R, C = K.shape
    square = all(a == b for a, b in shapes)
    tol = 1e-10 if "32" not in (dtype + bdtype) and "64" not in (
        dtype.replace("float64", ""), ) else 1e-10
    if dtype.endswith("float32") or dtype == "complex64" or bdtype in ("float32",
                                                       "complex64"):
        tol = 1e-4
    check(call(kron_N, A) == R and isinstance(kron_N(A), int),
          "kron_N%s = %s", shapes, kron_N(A))
    bg = generic((C, 3), bdtype, 9)
    B = np.concatenate([np.eye(C, dtype=bdtype), bg], axis=1)
    B0 = B.copy()
    saved = [m.copy() for m in mats]
    want = K.dot(B)
    for i in range(B.shape[1]):
        if C > 12 and i < C and i % max(5, C // 6):
            continue
        state()
        ok(call(kron_tensorvec, A, B[:, i]), want[:, i],
           "kron_tensorvec %s" % (shapes,), tol)
        if square:
            ok(call(kron_matvec, A, B[:, i]), want[:, i],
               "kron_matvec %s" % (shapes,), tol)
    ok(call(kron_tensormat, A, B), want, "kron_tensormat %s" % (shapes,),
       tol)
    ok(call(kron_tensormat, A, B[:, :0]), want[:, :0], "no columns", tol)
    if square:
        ok(call(kron_matmat, A, B), want, "kron_matmat %s" % (shapes,), tol)
    check(np.array_equal(B, B0) and all(np.array_equal(a, b) for a, b in
                                        zip(saved, mats)),
          "inputs modified")
    return (len(shapes), square)


def big(p):
    shapes, = p
    mats = [mat(s, "float64", i + 5) for i, s in enumerate(shapes)]
    A = pack(mats, "object")
    cols = int(np.prod([s[1] for s in shapes]))
    b = generic((cols,), "float64", 4)
    # dense product by reshaping: independent of the implementation
    X = b.reshape([s[1] for s in shapes])
    for d, m in enumerate(mats):
        X = np.moveaxis(np.tensordot(m, X, (1, d)), 0, d)
    want = X.ravel()
    check(call(kron_N, A) == want.size, "kron_N %s", kron_N(A))
    ok(call(kron_tensorvec, A, b), want, "kron_tensorvec %s" % (shapes,))
    ok(call(kron_tensormat, A, b[:, None]), want[:, None],
       "kron_tensormat %s" % (shapes,))
    if all(a == c for a, c in shapes):
        ok(call(kron_matvec, A, b), want, "kron_matvec %s" % (shapes,))
        ok(call(kron_matmat, A, b[:, None]), want[:, None],
           "kron_matmat %s" % (shapes,))
    return len(shapes)


def cholesky(p):
    sizes, dtype, form = p
    if form == "regular" and len(set(sizes)) > 1:
        return "n/a"
    if dtype == "int64":
        mats = []
        for i, n in enumerate(sizes):
            B = np.round(3 * generic((n, n), "float64", i + 2)).astype(
                "int64")
            mats.append(B.dot(B.T) + (3 * n + 2) * np.eye(n, dtype="int64"))
    else:
        mats = [mat((n, n), dtype, i + 2, "spd").astype(dtype)
                for i, n in enumerate(sizes)]
    A = pack(mats, form)
    saved = [m.copy() for m in mats]
    L = call(kron_cholesky, A)
    check(len(L) == len(A), "%d factors", len(L))
    for l, m in zip(L, mats):
        l = np.asarray(l)
        check(np.allclose(np.triu(l, 1), 0), "not lower triangular")
        d = np.diagonal(l)
        check(np.all(d.real > 0) and np.all(d.imag == 0), "diagonal %s", d)
        tol = 1e-3 if dtype in ("float32", "complex64") else 1e-9
        ok(l.dot(l.conj().T), m, "factor of %s %s" % (sizes, dtype), tol)
    K = dense(mats)
    LL = dense([np.asarray(l) for l in L])
    ok(LL.dot(LL.conj().T), K, "L L^H", 1e-3 if dtype in (
        "float32", "complex64") else 1e-9)
    check(all(np.array_equal(a, b) for a, b in zip(saved, mats)),
          "inputs modified")
    return len(sizes)


def singular(p):
    """ rank deficient factors get jitter, indefinite ones are rejected """
    n, rank, sign = p
    B = generic((n, max(rank, 1)), "float64", n) * (1 if rank else 0)
    M = B.dot(B.T)
    if sign < 0:
        M = M - 5 * np.eye(n)
        e = raises(kron_cholesky, pack([np.eye(2), M], "object"))
        check(isinstance(e, np.linalg.LinAlgError), "indefinite: %r", e)
        return "rejected"
    e = raises(kron_cholesky, pack([M, np.eye(2)], "object"))
    if e is None:
        L = kron_cholesky(pack([M, np.eye(2)], "object"))
        ok(L[0].dot(L[0].T), M, "jittered", 1e-6)
        return "ok"
    check(isinstance(e, np.linalg.LinAlgError), "%r", e)
    return "lin"


# -- Gaussian processes ------------------------------------------------------
def points(n, D, kind, salt):
    if kind == "grid":
        g = np.array([[((i * (d + 2)) % 5) * 0.5 - 1 for d in range(D)]
                      for i in range(n)]).reshape(n, D)
        return g
    if kind == "int":
        return np.array([[(i * (d + 3) + salt) % 7 for d in range(D)]
                         for i in range(n)]).reshape(n, D)
    if kind == "far":
        return 1e3 * generic((n, D), "float64", salt)
    return generic((n, D), "float32" if kind == "f4" else "float64", salt)


def kernel(p):
    n, m, D, kind, sf, l, flat, layout = p
    x = points(n, D, kind, 1)
    y = points(m, D, kind, 2)
    if flat:
        x, y = x.ravel(), y.ravel()
    x, y = relayout(x, layout), relayout(y, layout)
    sx, sy = x.copy(), y.copy()
    X = x.reshape(n, D).astype("float64")
    Y = y.reshape(m, D).astype("float64")
    dist = np.array([[np.sqrt(sum((X[i, d] - Y[j, d]) ** 2 for d in
                                  range(D))) for j in range(m)]
                     for i in range(n)]).reshape(n, m)
    ok(call(abs_diff, x, y), dist, "abs_diff", 1e-12)
    want = sf ** 2 * np.exp(-dist ** 2 / (2 * l ** 2))
    ok(call(exponential_squared, x, y, sf, l), want, "exponential_squared",
       1e-12)
    ok(call(exponential_squared, x, y, sf, l, pspec=False), want,
       "exponential_squared", 1e-12)
    K = call(exponential_squared, x, x, sf, l)
    check(np.array_equal(K, K.T), "covariance is not symmetric")
    check(np.array_equal(np.diagonal(K), np.full(n, float(sf ** 2))),
          "diagonal %s, variance %s", np.diagonal(K), sf ** 2)
    check(np.array_equal(sx, x) and np.array_equal(sy, y), "modified")
    return n, m, D


def pspec(p):
    kind, n, sf, l, scale = p
    x = {"arange": lambda: np.arange(n) * 1.0,
         "linspace": lambda: np.linspace(0, 1, n),
         "offset": lambda: 5.0 + np.linspace(-3, 3, n),
         "int": lambda: np.arange(n) * 3,
         "irregular": lambda: np.arange(n) ** 2 * 1.0,
         "lastoff": lambda: np.r_[np.arange(n - 1) * 1.0, n + 5.0],
         "2d": lambda: np.zeros((n, 2)), "3d": lambda: np.ones((n, 3)),
         "other": lambda: np.arange(n) * 1.0,
         "otherlast": lambda: np.arange(n) * 1.0}[kind]()
    if x.ndim == 1:
        x = x[:, None]
    if scale != 1:
        x = x * scale
    xp = x.copy()
    if kind == "other":
        xp = xp + scale
    if kind == "otherlast":
        xp[-1] += scale
    e = raises(exponential_squared, x, xp, sf, l, True)
    if kind in ("2d", "3d"):
        check(isinstance(e, NotImplementedError), "%s: %r", kind, e)
        return "rejected"
    if kind in ("irregular", "lastoff") and n > 2 or kind.startswith("other"):
        check(isinstance(e, ValueError), "%s: %r", kind, e)
        return "rejected"
    check(e is None, "a regular grid of %d points is rejected: %r", n, e)
    P = call(exponential_squared, x, xp, sf, l, pspec=True)
    check(P.shape == (n,) and np.all(P >= 0), "power spectrum %s", P)
    check(P[n // 2] == P.max(), "the spectrum peaks at %d of %d",
          P.argmax(), n)
    k = 1 - n % 2
    check(np.allclose(P[k:], P[k:][::-1], rtol=1e-12), "not symmetric")
    P1 = call(exponential_squared, x, xp, 1.0, l, pspec=True)
    check(np.allclose(P, sf ** 2 * P1, rtol=1e-12), "not proportional to "
          "the signal variance")
    return n


def groups(tier):
    deep = tier == "thorough"
    S = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    shapes = [s for k in (1, 2, 3) for s in itertools.product(S, repeat=k)]
    shapes += [s for s in itertools.product(
        [(1, 1), (2, 2), (1, 2), (3, 2)], repeat=4)]
    if deep:
        shapes += [s for s in itertools.product(
            [(1, 1), (2, 2), (2, 1), (1, 2)], repeat=5)]
    prod = [(s, "float64", "object", "C", "float64") for s in shapes]
    small = [s for s in shapes if len(s) <= 2]
    prod += [(s, dt, f, lay, bd) for s in (small if not deep else
                                           [x for x in shapes
                                            if len(x) <= 3])
             for dt, bd in (("complex128", "complex128"),
                            ("float64", "complex128"),
                            ("complex128", "float64"),
                            ("float32", "float32"), ("int64", "float64"),
                            ("float64", "float64"))
             for f in ("object", "regular")
             for lay in (("C", "F", "strided") if len(s) <= 2 else ("C",))]
    prod += [(s, "mixed-%d-%s" % (k, odd), "object", "C", bd)
             for s in (shapes if deep else shapes[:9 + 81:5] +
                       shapes[90:90 + 729:37])
             for k in range(len(s))
             for odd in ("complex128", "int64", "float32")
             for bd in ("float64", "int64", "complex128")]
    # square factors of all sizes
    sq = (1, 2, 3, 4, 5, 6, 8, 9)
    prod += [(tuple((n, n) for n in s), "float64", "object", "C", "float64")
             for k in (1, 2, 3) for s in itertools.product(sq, repeat=k)
             if np.prod(s) <= 100]
    prod = sorted(set(prod))
    bigs = [(s,) for s in (
        ((127, 2), (1, 3)), ((128, 2), (2, 2)), ((2, 128), (3, 2)),
        ((129, 129), (2, 2)), ((2, 2), (200, 200)), ((3, 300), (2, 1)),
        ((300, 2), (2, 300)), ((16, 16), (16, 16), (2, 2)),
        ((12, 11), (13, 12)), ((64, 2), (2, 64), (3, 3)),
        ((2, 2),) * 8, ((1, 1),) * 9, ((2, 3),) * 6, ((3, 2),) * 6,
        ((256, 1), (1, 256)), ((1, 256), (256, 1)), ((16, 17), (17, 16)),
        ((5, 130), (130, 5)))]
    ch = [(s, dt, f) for k in (1, 2, 3) for s in
          itertools.product((1, 2, 3, 5), repeat=k)
          for dt in ("float64", "complex128", "float32", "int64")
          for f in ("object", "regular")]
    ker = [(n, m, D, k, sf, l, fl, lay) for n in (1, 2, 3, 5)
           for m in (1, 2, 4) for D in (1, 2, 3, 4)
           for k in ("generic", "grid", "int", "far", "f4")
           for sf in (1.0, 0.5, 3) for l in (0.3, 1.0, 20.0)
           for fl in ((False, True) if D == 1 else (False,))
           for lay in ("C", "strided", "F")]
    ker += [(n, m, D, k, 2.0, l, False, "C")
            for n, m, D in [(n, 2, 1) for n in (8, 9, 17, 33, 64, 129, 300)] +
            [(2, n, 1) for n in (8, 9, 17, 33, 64, 129, 300)] +
            [(n, n + 1, 2) for n in (8, 33, 100)] +
            [(3, 4, n) for n in (5, 6, 8, 9, 17)]
            for k in ("generic", "int", "far") for l in (0.3, 20.0)]
    ch += [(s, "float64", "object") for s in (
        (8,), (9,), (17,), (33,), (64,), (2, 17), (17, 2), (1, 1, 1, 1),
        (2, 2, 2, 2), (1, 2, 3, 2, 1), (2,) * 6)]
    ps = [(k, n, sf, l, sc) for k in ("arange", "linspace", "offset", "int",
                                  "irregular", "lastoff", "2d", "3d",
                                  "other", "otherlast")
          for n in (2, 3, 4, 7, 10, 50, 101) for sf in (1.0, 2.5)
          for l in (0.3, 1.0) for sc in (1, 1e-9, 1e9)]
    return [
        Group("products", prod, products, "all lists of factor shapes on a "
              "full basis of vectors", "<= 4 (5) factors of <= 3x3"),
        Group("large-factors", bigs, big, "factor sizes around 128 and many "
              "factors", "listed"),
        Group("cholesky", ch, cholesky, "all lists of factor sizes and "
              "types", "<= 3 factors, a ladder up to size 64 and 6 factors"),
        Group("cholesky-singular", [(n, r, s) for n in (1, 2, 3)
                                    for r in range(0, n + 1)
                                    for s in (1, -1)], singular,
              "rank deficient and indefinite", "n <= 3"),
        Group("kernel", ker, kernel, "points x dimension x hyperparameters",
              "all of <= 5 x 4 points, <= 4 dimensions; a ladder up to 300 points, "
              "17 dimensions"),
        Group("pspec", ps, pspec, "domain of power spectra", "listed"),
    ]
