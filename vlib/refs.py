"""Small helpers shared by the checks (reference models, layouts, orders)."""
import itertools

import numpy as np


def compositions(n):
    """ all ordered ways to write n as a sum of positive integers """
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def cut(n, k):
    """ n in chunks of k """
    return (k,) * (n // k) + ((n % k,) if n % k else ())


def rungs(base, lens):
    """ base with one entry at a time replaced by each length """
    for i in range(len(base)):
        for n in lens:
            if n > base[i]:
                yield base[:i] + (n,) + base[i + 1:]


def ordered_subsets(items, lo, hi):
    for k in range(lo, hi + 1):
        for t in itertools.permutations(items, k):
            yield t


def generic(shape, dtype=np.float64, salt=0, lo=-1.0, hi=1.0):
    """ deterministic values without accidental structure """
    n = int(np.prod(shape)) if len(shape) else 1
    k = np.arange(n, dtype=np.float64) + 1 + 131.0 * salt
    f = np.modf(np.sin(k * 12.9898 + salt * 4.1414) * 43758.5453)[0]
    f = (f % 1.0) * (hi - lo) + lo
    f = f.reshape(shape)
    dtype = np.dtype(dtype)
    if dtype.kind == "c":
        k = np.arange(n, dtype=np.float64) + 7 + 17.0 * salt
        g = np.modf(np.sin(k * 78.233 + salt * 1.7) * 24634.6345)[0]
        g = (g % 1.0) * (hi - lo) + lo
        return (f + 1j * g.reshape(shape)).astype(dtype)
    return f.astype(dtype)


LAYOUTS = ("C", "F", "strided", "offset", "readonly")


def relayout(a, kind):
    """ the same values in another memory layout """
    a = np.asarray(a)
    if kind == "C":
        return np.ascontiguousarray(a).copy()
    if kind == "F":
        return np.asfortranarray(a).copy(order="F")
    if kind == "strided":
        if a.ndim == 0:
            return a.copy()
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if kind == "offset":
        if a.ndim == 0:
            return a.copy()
        big = np.full((a.shape[0] + 2,) + a.shape[1:], 0, dtype=a.dtype)
        view = big[1:-1]
        view[...] = a
        return view
    if kind == "reversed":
        if a.ndim == 0:
            return a.copy()
        return a[::-1].copy()[::-1]
    if kind == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    raise ValueError(kind)


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


REAL = (0.0, -0.0, 1.0, -1.0, 1e-9, -1e-9, 1e3)
CPLX = (0, 1, -1, 1j, -1j, 1e-9j, -1e-9, 1e3 - 1e3j, 2 + 0.5j, complex(0, -0.0))


def pokes(arrays, skip=(), real=REAL, cplx=CPLX, other=None, step=1):
    """ (name, flat index, value) for every element and special value """
    out = []
    for k, a in arrays.items():
        if k in skip or a is None:
            continue
        vals = (other or {}).get(k)
        if vals is None:
            vals = cplx if a.dtype.kind == "c" else real \
                if a.dtype.kind == "f" else ()
        for i in range(0, a.size, step):
            out.extend((k, i, v) for v in vals)
        # all elements at once
        out.extend((k, -1, v) for v in vals)
    return out


def poke(arrays, case):
    """ the arrays with one element (-1: every element) replaced """
    k, i, v = case
    out = {n: None if a is None else a.copy() for n, a in arrays.items()}
    if i < 0:
        out[k][...] = v
    else:
        out[k].reshape(-1)[i] = v
    return out
