"""C06: chunk aggregation, correlation shapes and launch grids."""
import itertools
from core import Group, call, check, raises, fail

import dask.array as da
import numpy as np
from africanus.util.shapes import aggregate_chunks, corr_shape
from africanus.util.cuda import cuda_function, cuda_type, grids
from africanus.util.jinja2 import register_assign_cycles

ASSUMPTIONS = ["at least one chunk along the axis (dask never has zero)"]


def model(chunks, limits):
    """ greedy: extend the current run unless that exceeds a limit """
    runs = []
    for di in range(len(chunks[0])):
        if runs and all(runs[-1][a] + chunks[a][di] <= limits[a]
                        for a in range(len(chunks))):
            runs[-1] = [r + c[di] for r, c in zip(runs[-1], chunks)]
        else:
            runs.append([c[di] for c in chunks])
    return tuple(tuple(r[a] for r in runs) for a in range(len(chunks)))


def compare(chunks, limits):
    got = call(aggregate_chunks, chunks, limits)
    check(isinstance(got, tuple) and all(isinstance(g, tuple) for g in got),
          "aggregate_chunks(%r, %r) -> %r is not a tuple of tuples",
          chunks, limits, got)
    want = model(chunks, limits)
    for a, c in enumerate(chunks):
        check(sum(got[a]) == sum(c), "axis %d of %r limit %r: total %r -> %r",
              a, chunks, limits, sum(c), got[a])
    check(len(set(len(g) for g in got)) == 1, "axes out of step: %r", got)
    check(got == want, "aggregate_chunks(%r, %r) = %r, expected %r",
          chunks, limits, got, want)
    return got


def single(p):
    chunks = p
    res = []
    for lim in (1, 2, 3, 4, 5, 7, 10, 1000):
        want = model((chunks,), (lim,))[0]
        got = call(aggregate_chunks, chunks, lim)
        check(got == want, "aggregate_chunks(%r, %r) = %r, expected %r",
              chunks, lim, got, want)
        got = call(aggregate_chunks, (chunks,), (lim,))
        check(got == want or got == (want,),
              "aggregate_chunks(%r, %r) = %r, expected %r",
              (chunks,), (lim,), got, want)
        res.append(len(want))
    return tuple(res)


def double(p):
    a, b = p
    res = []
    for lims in itertools.product((1, 2, 3, 4, 6), repeat=2):
        res.append(len(compare((a, b), lims)[0]))
    return tuple(res)


def triple(p):
    res = []
    for lims in itertools.product((1, 2, 4), repeat=3):
        res.append(len(compare(p, lims)[0]))
    return tuple(res)


def long_(p):
    n, size, lim = p
    chunks = tuple((size + (i * 7) % 3) for i in range(n))
    want = model((chunks,), (lim,))[0]
    got = call(aggregate_chunks, chunks, lim)
    check(got == want, "n=%d size=%d limit=%d: %r expected %r", n, size, lim,
          got, want)
    return len(got)


def mismatch(p):
    kind, chunks, lims = p
    e = raises(aggregate_chunks, chunks, lims)
    check(isinstance(e, ValueError), "aggregate_chunks(%r, %r): expected "
          "ValueError, got %r", chunks, lims, e)
    return kind


def corr(p):
    n, kind = p
    table = {1: (1,), 2: (2,), 4: (2, 2)}
    if kind == "flat":
        check(call(corr_shape, n, kind) == (n,), "corr_shape(%r, flat)", n)
    elif kind == "matrix" and n in table:
        got = call(corr_shape, n, kind)
        check(got == table[n], "corr_shape(%r, matrix)=%r", n, got)
    else:
        e = raises(corr_shape, n, kind)
        check(isinstance(e, ValueError), "corr_shape(%r, %r): %r", n, kind, e)
        return "rejected"
    return (n, kind)


def grid(p):
    dims, = p
    for blocks in itertools.product((1, 2, 3, 7, 32, 1024), repeat=3):
        g = call(grids, dims, blocks)
        check(len(g) == 3, "grids(%r, %r) = %r", dims, blocks, g)
        for d, b, n in zip(dims, blocks, g):
            check(isinstance(n, int) and n * b >= d and (n - 1) * b < d,
                  "grids(%r, %r) = %r", dims, blocks, g)
    return dims


def grid_bad(p):
    dims, blocks = p
    e = raises(grids, dims, blocks)
    check(isinstance(e, ValueError), "grids(%r, %r): %r", dims, blocks, e)
    return len(dims), len(blocks)


def cycles(p):
    """ the cycles perform the rotation dest[i] = src[(i - case) % n] """
    n, case = p
    got = call(register_assign_cycles, n, case)
    if not case:
        check(call(register_assign_cycles, n) == got, "the default of "
              "register_assign_cycles(%d) is not in place", n)
    pairs = [tuple(e) for c in got for e in c]
    want = {(d, (n - case + d) % n) for d in range(n)
            if (n - case + d) % n != d}
    check(len(pairs) == len(want) and set(pairs) == want,
          "register_assign_cycles(%d, %d) = %s, expected the assignments %s",
          n, case, got, sorted(want))
    for c in got:
        check(all(a[1] == b[0] for a, b in zip(c, c[1:] + c[:1])),
              "register_assign_cycles(%d, %d): %s is no cycle", n, case, c)
    # executing them with one temporary per cycle is the rotation
    reg = list(range(100, 100 + n))
    new = list(reg)
    for c in got:
        tmp = new[c[0][0]]
        for d, s in c[:-1]:
            new[d] = new[s]
        new[c[-1][0]] = tmp
    check(new == [reg[(n - case + d) % n] for d in range(n)],
          "register_assign_cycles(%d, %d) gives %s", n, case, new)
    return len(got)


CTYPES = {"int8": "char", "uint8": "unsigned char", "int16": "short",
          "uint16": "unsigned short", "int32": "int",
          "uint32": "unsigned int", "float32": "float", "float64": "double",
          "complex64": "float2", "complex128": "double2"}


def ctype(p):
    name, form = p
    dt = np.dtype(name)
    arg = {"dtype": dt, "type": dt.type, "numpy": np.zeros(2, dt),
           "dask": da.zeros(2, dtype=dt)}[form]
    if name not in CTYPES:
        e = raises(cuda_type, arg)
        check(isinstance(e, ValueError), "cuda_type(%r): %r", arg, e)
        return "rejected"
    got = call(cuda_type, arg)
    check(got == CTYPES[name], "cuda_type(%r) = %s", arg, got)
    return got


CFUNS = ("abs", "cos", "floor", "make2", "max", "min", "rsqrt", "sqrt",
         "sin", "sincos", "sincospi")


def cfun(p):
    fn, name = p
    dt = np.dtype(name)
    if fn not in CFUNS or name not in ("float32", "float64"):
        e = raises(cuda_function, fn, dt)
        check(isinstance(e, ValueError), "cuda_function(%s, %s): %r", fn,
              name, e)
        return "rejected"
    base = {"abs": "fabs", "max": "fmax", "min": "fmin"}.get(fn, fn)
    if fn == "make2":
        want = {"float32": "make_float2", "float64": "make_double2"}[name]
    else:
        want = base + ("f" if name == "float32" else "")
    got = call(cuda_function, fn, dt)
    check(got == want, "cuda_function(%s, %s) = %s, expected %s", fn, name,
          got, want)
    return got


def seqs(alpha, n):
    for k in range(1, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield t


def groups(tier):
    big = tier == "thorough"
    return [
        Group("single-axis", list(seqs((0, 1, 2, 3, 4, 6), 6 if big else 5)),
              single, "all chunk tuples, eight limits each",
              "length<=%d, sizes {0,1,2,3,4,6}" % (6 if big else 5)),
        Group("two-axes",
              [(a, b) for k in range(1, 5 if big else 4)
               for a in itertools.product((0, 1, 2, 4), repeat=k)
               for b in itertools.product((0, 1, 3), repeat=k)],
              double, "all aligned chunk pairs, 25 limit pairs each",
              "length<=%d" % (4 if big else 3)),
        Group("three-axes",
              [(a, b, c) for k in range(1, 4 if big else 3)
               for a in itertools.product((0, 1, 3), repeat=k)
               for b in itertools.product((1, 3), repeat=k)
               for c in itertools.product((0, 1, 2, 5), repeat=k)],
              triple, "all aligned chunk triples", "length<=2/3"),
        Group("long", [(n, s, l) for n in (1, 2, 7, 8, 9, 31, 64, 65, 129,
                                           257, 1000)
                       for s in (0, 1, 9, 2 ** 31 - 1, 2 ** 40)
                       for l in (1, 2, 9, 10, 100, 101, 2 ** 31, 2 ** 33,
                                 2 ** 42)], long_,
              "size ladder of long chunk lists", "up to 1000 chunks"),
        Group("mismatch",
              [("len", ((1, 2), (1, 2)), (3,)),
               ("len", ((1, 2),), (3, 3)),
               ("len", ((1, 2), (1, 2)), (3, 3, 3)),
               ("ragged", ((1, 2), (1,)), (3, 3)),
               ("ragged", ((1,), (1, 2)), (3, 3)),
               ("ragged", ((1, 2), (1, 2), (1, 2, 3)), (3, 3, 3))],
              mismatch, "misaligned arguments are rejected", "6 forms"),
        Group("corr-shape", [(n, k) for n in range(0, 20)
                             for k in ("flat", "matrix", "Matrix", "", "2x2")],
              corr, "all ncorr < 20 x shape names", "n<20"),
        Group("launch-grid", [((x, y, z),) for x in (0, 1, 2, 3, 31, 32, 33, 64,
                                                     1023, 1024, 1025, 10 ** 6)
                              for y in (0, 1, 3, 7, 8, 33)
                              for z in (0, 1, 2, 1025)],
              grid, "all dims x all blocks", "216 block shapes each"),
        Group("launch-grid-bad", [((1,) * a, (1,) * b) for a in range(0, 5)
                                  for b in range(0, 5)
                                  if (a, b) != (3, 3)],
              grid_bad, "wrong dimensionality rejected", "0..4"),
        Group("register-cycles", [(n, c) for n in range(1, 40 if big else 20)
                                  for c in range(0, n + 1)],
              cycles, "in-place rotations as cycles", "all n < 20 (40)"),
        Group("cuda-types", [(t, f) for t in list(CTYPES) + [
            "int64", "uint64", "bool", "float16"]
            for f in ("dtype", "type", "numpy", "dask")], ctype,
            "type names", "all types x forms"),
        Group("cuda-functions", [(f, t) for f in CFUNS + ("tan", "", "Abs")
                                 for t in ("float32", "float64", "int32",
                                           "complex64")], cfun,
              "function names", "all functions x types"),
    ]
