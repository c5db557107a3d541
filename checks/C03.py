"""C03: Stokes <-> correlation conversion for every schema."""
import itertools

import numpy as np

from core import Group, call, check, raises, state, transition
from refs import CPLX, REAL, compositions, cut, generic, relayout
import dsched

from africanus.model.coherency import convert as np_convert
from africanus.model.coherency.dask import convert as da_convert

ASSUMPTIONS = ["when two defining pairs are supplied either may be used"]

STOKES = ("I", "Q", "U", "V")
LIN = ("XX", "XY", "YX", "YY")
CIRC = ("RR", "RL", "LR", "LL")
TYPES = STOKES + LIN + CIRC
# CASA codes, written out independently of the library's table
CODE = dict(zip(("I", "Q", "U", "V", "RR", "RL", "LR", "LL",
                 "XX", "XY", "YX", "YY"), range(1, 13)))

# out -> [(in1, in2, function of complex numbers)], the textbook definitions
DEF = {
    "RR": [("I", "V", lambda i, v: i + v)],
    "LL": [("I", "V", lambda i, v: i - v)],
    "RL": [("Q", "U", lambda q, u: q + 1j * u)],
    "LR": [("Q", "U", lambda q, u: q - 1j * u)],
    "XX": [("I", "Q", lambda i, q: i + q)],
    "YY": [("I", "Q", lambda i, q: i - q)],
    "XY": [("U", "V", lambda u, v: u + 1j * v)],
    "YX": [("U", "V", lambda u, v: u - 1j * v)],
    "I": [("XX", "YY", lambda a, b: np.real(a + b) / 2),
          ("RR", "LL", lambda a, b: np.real(a + b) / 2)],
    "Q": [("XX", "YY", lambda a, b: np.real(a - b) / 2),
          ("RL", "LR", lambda a, b: np.real(a + b) / 2)],
    "U": [("XY", "YX", lambda a, b: np.real(a + b) / 2),
          ("RL", "LR", lambda a, b: np.imag(a - b) / 2)],
    "V": [("XY", "YX", lambda a, b: np.imag(a - b) / 2),
          ("RR", "LL", lambda a, b: np.real(a - b) / 2)],
}


def refs(data, ins, out):
    """ acceptable values of one output element """
    idx = {t: i for i, t in enumerate(ins)}
    return [f(data[..., idx[a]], data[..., idx[b]])
            for a, b, f in DEF[out] if a in idx and b in idx]


def basis(n, cplx=True):
    """ rows: every unit vector (times 1 and 1j), then generic rows """
    eye = np.eye(n)
    rows = [eye, generic((3, n), np.float64, 5)]
    if cplx:
        rows = [eye + 0j, 1j * eye, generic((3, n), np.complex128, 5)]
    return np.concatenate(rows, axis=0)


def nest(seq, shape):
    seq = list(seq)
    if len(shape) == 1:
        return list(seq)
    step = len(seq) // shape[0]
    return [nest(seq[i * step:(i + 1) * step], shape[1:])
            for i in range(shape[0])]


def spelled(seq, how):
    if how == "name":
        return list(seq)
    if how == "code":
        return [CODE[s] for s in seq]
    if how == "npcode":
        return [np.int32(CODE[s]) for s in seq]
    return [s if i % 2 else CODE[s] for i, s in enumerate(seq)]


def expect(data, ins, outs, got, what, rtol=1e-12, atol=1e-12):
    check(got.shape == data.shape[:-1] + (len(outs),), "%s: shape %s",
          what, got.shape)
    for k, o in enumerate(outs):
        good = any(np.allclose(got[..., k], r, rtol=rtol, atol=atol)
                   for r in refs(data, ins, o))
        if not good:
            check(False, "%s: output %s is %r, defined as one of %r for "
                  "input %r", what, o, got[..., k].tolist()[:6],
                  [np.asarray(r).tolist()[:6] for r in refs(data, ins, o)],
                  data.tolist()[:6])


def missing_error(e, out, what):
    check(e is not None, "%s: %s cannot be determined but data was returned",
          what, out)
    check(not isinstance(e, (IndexError, AttributeError, NameError)),
          "%s: %s cannot be determined, got %s: %s", what, out,
          type(e).__name__, e)
    check(out in str(e), "%s: error does not name %s: %s", what, out, e)


SINGLE_OUT = [(t,) for t in TYPES]
FULL_OUT = [STOKES, LIN, CIRC, STOKES[::-1], LIN[::-1], CIRC[::-1]]


def inputs(p):
    """ one input schema, all single outputs and complete outputs """
    ins = p
    n = len(ins)
    data = basis(n)
    ok = 0
    for outs in SINGLE_OUT + FULL_OUT:
        bad = [o for o in outs if not refs(data, ins, o)]
        what = "convert(%s -> %s)" % (list(ins), list(outs))
        if bad:
            e = raises(np_convert, data, list(ins), list(outs))
            missing_error(e, bad[0], what)
        else:
            got = call(np_convert, data, list(ins), list(outs))
            expect(data, ins, outs, got, what)
            real = all(o in STOKES for o in outs)
            check(np.iscomplexobj(got) != real, "%s: dtype %s", what,
                  got.dtype)
            ok += 1
    return ok, tuple(o[0] for o in SINGLE_OUT if refs(data, ins, o[0]))


def values(p):
    """ special values in every pair of elements """
    ins, outs, i, j = p
    rows = []
    for a, b in itertools.product(CPLX, REAL + CPLX):
        r = generic((4,), "c16", 5)
        r[i], r[j] = a, b
        rows.append(r)
    data = np.array(rows)
    for d in (data, data.astype("c8"), data.real.copy()):
        t = 1e-12 if d.dtype != "c8" else 1e-6
        got = call(np_convert, d, list(ins), list(outs))
        for k, o in enumerate(outs):
            rs = refs(d, ins, o)
            check(any((np.abs(got[:, k] - r) <= t * (1 + np.abs(r))).all()
                      for r in rs), "convert(%s -> %s): output %s is %s, "
                  "defined as one of %s", list(ins), list(outs), o,
                  got[:, k].tolist(), [r.tolist() for r in rs])
        state(len(d))
    return d.shape


def outputs(p):
    """ complete inputs, one output schema """
    outs = p
    for ins in (STOKES, STOKES[::-1], LIN, ("YY", "XX", "YX", "XY"), CIRC,
                ("LR", "RR", "LL", "RL"), STOKES + LIN, CIRC + STOKES,
                LIN + CIRC):
        data = basis(len(ins))
        bad = [o for o in outs if not refs(data, ins, o)]
        what = "convert(%s -> %s)" % (list(ins), list(outs))
        if bad:
            missing_error(raises(np_convert, data, list(ins), list(outs)),
                          bad[0], what)
        else:
            got = call(np_convert, data, list(ins), list(outs))
            expect(data, ins, outs, got, what)
            check(np.iscomplexobj(got) != all(o in STOKES for o in outs),
                  "%s: dtype %s", what, got.dtype)
    return len(outs)


def long_schemas(p):
    """ many outputs at once, of several families, nested, lists or tuples """
    ins, inest, start, step, k, onest, seq, dt = p
    outs = tuple(TYPES[(start + step * j) % 12] for j in range(k))
    data = generic((3,) + inest, dt, 6)
    si, so = nest(ins, inest), nest(outs, onest)
    if seq == "tuple":
        si, so = tuples(si), tuples(so)
    elif seq == "mixed":
        si, so = tuple(si), [tuples(x) for x in so]
    what = "convert(%s, %s -> %s)" % (dt, si, so)
    got = call(np_convert, data, si, so)
    check(got.shape == (3,) + onest, "%s: shape %s", what, got.shape)
    tol = 1e-5 if dt in ("float32", "complex64") else 1e-12
    expect(data.reshape(3, len(ins)), ins, outs, got.reshape(3, k), what,
           tol, tol)
    check(np.iscomplexobj(got) != all(o in STOKES for o in outs),
          "%s: dtype %s", what, got.dtype)
    import dask.array as da
    darr = da.from_array(data, chunks=((2, 1),) + tuple(
        (s,) for s in inest))
    lazy = call(da_convert, darr, si, so)
    check(lazy.dtype == got.dtype and lazy.shape == got.shape,
          "chunked %s: declared %s %s", what, lazy.dtype, lazy.shape)
    res, _ = dsched.compute(lazy, "first")
    check(res.dtype == got.dtype and np.array_equal(res, got),
          "chunked %s: %r, expected %r", what, res.tolist(), got.tolist())
    return onest, str(got.dtype)


def tuples(s):
    return tuple(tuples(x) for x in s) if isinstance(s, list) else s


LONG_NESTS = {k: [n for d in (1, 2, 3) for n in itertools.product(
    range(1, k + 1), repeat=d) if int(np.prod(n)) == k and
    (d < 3 or 1 not in n or k < 5)] for k in (2, 3, 4, 5, 6, 8, 9, 12)}


FAMS = {"S": STOKES, "L": LIN, "C": CIRC, "s": ("V", "I", "U", "Q"),
        "l": ("YX", "YY", "XX", "XY"), "c": ("LL", "RL", "RR", "LR"),
        "iq": ("I", "Q"), "xy": ("XX", "YY"), "iv": ("I", "V"),
        "rl": ("RR", "LL"), "qu": ("Q", "U"), "cross": ("RL", "LR"),
        "uv": ("U", "V"), "lc": ("XY", "YX")}
PAIRS = [("S", "L"), ("S", "C"), ("L", "S"), ("C", "S"), ("s", "l"),
         ("l", "s"), ("c", "s"), ("s", "c"), ("iq", "xy"), ("xy", "iq"),
         ("iv", "rl"), ("rl", "iv"), ("qu", "cross"), ("cross", "qu"),
         ("uv", "lc"), ("lc", "uv")]
NESTS = {4: [(4,), (2, 2), (1, 4), (4, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1)],
         2: [(2,), (1, 2), (2, 1), (1, 1, 2)]}
LEAD = [(), (1,), (3,), (0,), (2, 3), (3, 1, 2), (1, 1, 1, 2)]
DT = ["float32", "float64", "complex64", "complex128"]


def layout(p):
    (a, b), inest, onest, how, lead, dt, lay = p
    ins, outs = FAMS[a], FAMS[b]
    data = generic(lead + inest, dt, 3)
    data = relayout(data, lay)
    keep = np.array(data, copy=True)
    si = nest(spelled(ins, how), inest)
    so = nest(spelled(outs, how), onest)
    what = "convert(shape %s %s %s, %s -> %s)" % (data.shape, dt, lay, si, so)
    got = call(np_convert, data, si, so)
    check(got.shape == lead + onest, "%s: shape %s", what, got.shape)
    check(np.array_equal(keep, data), "%s: the input was modified", what)
    tol = 1e-5 if dt in ("float32", "complex64") else 1e-12
    expect(keep.reshape(lead + (len(ins),)), ins, outs,
           np.asarray(got).reshape(lead + (len(outs),)), what, tol, tol)
    real = all(o in STOKES for o in outs)
    check(np.iscomplexobj(got) != real, "%s: dtype %s", what, got.dtype)
    check(not np.shares_memory(got, data) or got.size == 0, "%s: result "
          "shares memory with the input", what)
    return (a, b, onest, str(got.dtype))


def chunked(p):
    (a, b), inest, onest, chunks, cchunks, dt, how = p
    import dask.array as da
    ins, outs = FAMS[a], FAMS[b]
    lead = tuple(sum(c) for c in chunks)
    data = generic(lead + inest, dt, 4)
    si = nest(spelled(ins, how), inest)
    so = nest(spelled(outs, how), onest)
    want = call(np_convert, data, si, so)
    darr = da.from_array(data, chunks=chunks + cchunks)
    lazy = call(da_convert, darr, si, so)
    what = "chunked convert(%s, chunks %s, %s -> %s)" % (
        dt, chunks + cchunks, si, so)
    check(lazy.shape == want.shape, "%s: declared shape %s", what, lazy.shape)
    check(lazy.dtype == want.dtype, "%s: declared %s computed %s", what,
          lazy.dtype, want.dtype)
    check(lazy.chunks[:len(lead)] == chunks, "%s: chunks %s", what,
          lazy.chunks)
    res = []
    for order in ("first", "last"):
        got, _ = dsched.compute(lazy, order)
        transition(len(_.trace))
        res.append(got)
        check(got.shape == want.shape and got.dtype == want.dtype and
              np.allclose(got, want, rtol=1e-6, atol=1e-6),
              "%s (%s ready task first): %r, expected %r", what, order,
              got.tolist(), want.tolist())
    # every block has the declared shape
    idx = tuple(0 for _ in lazy.numblocks)
    blk = lazy.blocks[idx].compute()
    check(blk.shape == tuple(c[0] for c in lazy.chunks), "%s: block shape",
          what)
    return (a, b, lazy.numblocks)


def ladder(p):
    pair, k, n = p
    inest, onest = (v[k % len(v)] for v in (NESTS[len(FAMS[pair[0]])],
                                            NESTS[len(FAMS[pair[1]])]))
    for lead in ((n,), (2, n), (n, 3)):
        for dt in ("complex128", "float64"):
            layout((pair, inest, onest, "name", lead, dt, "C"))
        ch = tuple(cut(x, max(1, x // 333) * (k + 1)) for x in lead)
        if n < 100 or len(lead) == 1:
            chunked((pair, inest, onest, ch, tuple((s,) for s in inest),
                     "complex128", "name"))
    state()
    return pair


# --- chains of conversions: explicit-state search ---------------------------
REPS = [(f, n) for f, n in itertools.product(("S", "s", "L", "l", "C", "c"),
                                              ((4,), (2, 2)))]


def chain(p):
    depth, start = p
    fam, shape = start
    rng = generic((5, 4), np.float64, 9)
    truth = {t: rng[:, i] for i, t in enumerate(STOKES)}
    for o in LIN + CIRC:
        a, b, f = DEF[o][0]
        truth[o] = f(truth[a], truth[b])

    def value(rep):
        f, n = rep
        return np.stack([truth[t] for t in FAMS[f]], axis=-1).reshape(
            (5,) + n)

    seen = {}
    frontier = [(start, value(start), (start,))]
    for d in range(depth):
        nxt = []
        for rep, data, path in frontier:
            for to in REPS:
                src, dst = rep[0].lower(), to[0].lower()
                if (src == "s") == (dst == "s"):
                    continue
                got = call(np_convert, data, nest(FAMS[rep[0]], rep[1]),
                           nest(FAMS[to[0]], to[1]))
                check(np.allclose(got, value(to), rtol=1e-10, atol=1e-10),
                      "after %s: %r, expected %r", path + (to,),
                      got.tolist(), value(to).tolist())
                key = (to, got.dtype.str)
                if key not in seen:
                    seen[key] = path
                    state()
                    nxt.append((to, got, path + (to,)))
        frontier = nxt
    return len(seen)


def errors(p):
    kind, ins, outs, shape = p
    data = generic(shape, np.float64, 2)
    e = raises(np_convert, data, ins, outs)
    what = "convert(shape %s, %s, %s)" % (shape, ins, outs)
    check(e is not None, "%s accepted", what)
    if kind == "type":
        check(isinstance(e, TypeError), "%s: %r", what, e)
    elif kind in ("unknown", "dup", "id", "shape"):
        check(isinstance(e, ValueError), "%s: expected ValueError, got %s: "
              "%s", what, type(e).__name__, e)
    elif kind == "ragged":
        check(not isinstance(e, (IndexError, NameError, AttributeError)),
              "%s: %r", what, e)
    if kind == "unknown":
        flat = [o for x in outs for o in (x if isinstance(x, list) else [x])]
        bad = [o for o in flat if o not in TYPES]
        check(any(str(o) in str(e) for o in bad),
              "%s: error does not name it: %s", what, e)
    import dask.array as da
    e2 = raises(da_convert, da.from_array(data, chunks=data.shape), ins, outs)
    check(type(e2) is type(e), "%s: lazy raises %r, in-memory %r", what, e2,
          e)
    return kind, type(e).__name__


def error_cases():
    out = []
    for o in ("RX", "LY", "PP", "Pangle", "Undefined", "Ptotal", "foo", "xx"):
        out.append(("unknown", list(STOKES), [o], (2, 4)))
        out.append(("unknown", list(STOKES), ["XX", o], (2, 4)))
        out.append(("unknown", list(STOKES), [["XX", "YY"], [o, "XY"]],
                    (2, 4)))
    for o in ("I", "XX", 9, 12):
        out.append(("dup", list(STOKES), [o, o], (2, 4)))
        out.append(("dup", [o, o], ["I"], (2, 2)))
    out.append(("dup", ["XX", 9], ["I"], (2, 2)))
    for i in (33, 100, -1):
        out.append(("id", list(STOKES), [i], (2, 4)))
        out.append(("id", [i, 1], ["XX"], (2, 2)))
    for bad in (1.5, None, b"XX"):
        out.append(("type", list(STOKES), [bad], (2, 4)))
        out.append(("type", [bad, "I"], ["XX"], (2, 2)))
    for shape in ((2, 3), (4, 2), (2, 5), (4,), (2, 2), (2, 4, 1), (4, 4, 2)):
        if shape[-1] != 4:
            out.append(("shape", list(STOKES), ["XX"], shape))
    for shape in ((2, 4), (4,), (2, 2, 1), (3, 4, 1), (2, 1, 4)):
        out.append(("shape", [["I", "Q"], ["U", "V"]], ["XX"], shape))
    out.append(("ragged", [["I", "Q"], ["U"]], ["XX"], (2, 2, 2)))
    out.append(("ragged", list(STOKES), [["XX", "YY"], ["XY"]], (2, 4)))
    # ragged at every level of every schema of three levels
    for k in range(8):
        full = list(TYPES[:8])
        full.remove(TYPES[k])
        cubic, it = [], iter(TYPES[:8])
        for a in range(2):
            cubic.append([])
            for b in range(2):
                cubic[-1].append([t for t in (next(it), next(it))
                                  if t in full])
        out.append(("ragged", list(TYPES), cubic, (2, 12)))
        out.append(("ragged", cubic, ["XX"], (2, 2, 2, 2)))
    for s in ([[["XX", "YY"], ["XY", "YX"]], [["RR", "LL"]]],
              [["XX", "YY"], ["XY", "YX", "RR"]]):
        out.append(("ragged", list(TYPES), s, (2, 12)))
    return out


def dup_filter(cs):
    seen, out = set(), []
    for c in cs:
        if repr(c) not in seen:
            seen.add(repr(c))
            out.append(c)
    return out


def ordered(lo, hi):
    for k in range(lo, hi + 1):
        for t in itertools.permutations(TYPES, k):
            yield t


def long_cases(big):
    inn = [(12,), (3, 4), (2, 2, 3)]
    for start, step, k in itertools.product(
            range(12), (1, 5, 7, 11), (2, 3, 4, 5, 6, 8, 9, 12)):
        for j, onest in enumerate(LONG_NESTS[k]):
            sel = (start + step + j) % 12
            for dt in DT if big else [DT[sel % 4]]:
                for seq in (("list", "tuple", "mixed") if big else
                            [("list", "tuple", "mixed")[sel % 3]]):
                    yield (TYPES, inn[(start + j) % 3], start, step, k,
                           onest, seq, dt)


def groups(tier):
    big = tier == "thorough"
    lay = [(pr, i, o, h, l, d, m)
           for pr in PAIRS
           for i in NESTS[len(FAMS[pr[0]])]
           for o in NESTS[len(FAMS[pr[1]])]
           for h, l, d, m in (
               itertools.product(("name", "code", "npcode", "mixed"), LEAD,
                                 DT, ("C", "F", "strided", "readonly"))
               if big else
               [("name", l, d, m) for l in LEAD[:5] for d in DT
                for m in ("C", "F", "strided")] +
               [(h, (2, 3), "complex128", "readonly")
                for h in ("code", "npcode", "mixed")])]
    chunkings = [()] + [(c,) for n in (1, 2, 3, 4) for c in compositions(n)] \
        + [(c, d) for c in compositions(3) for d in compositions(2)] \
        + ([(c, d) for c in compositions(4) for d in compositions(4)]
           if big else []) + [((0, 2),), ((10, 20, 3), (5, 6))]
    chunk_cases = []
    for pr in PAIRS:
        ni = NESTS[len(FAMS[pr[0]])]
        no = NESTS[len(FAMS[pr[1]])]
        combos = (itertools.product(ni, no) if big else
                  [(ni[0], no[0]), (ni[1], no[1]), (ni[0], no[1]),
                   (ni[1], no[0]), (ni[-1], no[2])])
        for i, o in combos:
            for c in chunkings:
                chunk_cases.append((pr, i, o, c, tuple((s,) for s in i),
                                    "complex64", "name"))
            # correlation dimension chunked as well
            for cc in itertools.product(*[list(compositions(s)) for s in i]):
                for c in (((2, 1),), ((3,), (1, 1))):
                    chunk_cases.append((pr, i, o, c, cc, "float64", "mixed"))
    return [
        Group("input-schemas", lambda: ordered(1, 4), inputs,
              "every ordered input schema; every single output and every "
              "complete output; full complex basis of inputs",
              "ordered subsets of the 12 types of size 1..4"),
        Group("output-schemas", lambda: ordered(1, 4 if big else 3), outputs,
              "every ordered output schema from complete/mixed inputs",
              "ordered subsets of size 1..%d" % (4 if big else 3)),
        Group("long", [c for c in long_cases(big)], long_schemas,
              "up to all twelve outputs at once from all twelve inputs: "
              "rotations x strides x nestings x list/tuple x dtype",
              "<= 12 outputs, 3 nesting levels"),
        Group("values", [(a, b, i, j) for a in (STOKES, LIN, CIRC)
                         for b in FULL_OUT if (a == STOKES) != (
                             set(b) == set(STOKES)) for i in range(4)
                         for j in range(4)], values,
              "special values in every pair of elements", {"schemas": 3}),
        Group("layouts", lay, layout,
              "nesting x spelling x leading shape x dtype x memory layout",
              "3 nesting levels, 7 leading shapes"),
        Group("chunkings", dup_filter(chunk_cases), chunked,
              "all chunkings of leading and correlation dimensions",
              "leading sizes <= 4"),
        Group("ladder", [(pr, k, n) for pr in PAIRS for k in range(3)
                         for n in (7, 8, 9, 16, 17, 33, 65, 257, 1000)],
              ladder, "larger leading dimensions, in memory and chunked",
              "<= 1000 elements, <= 333 chunks"),
        Group("chains", [(d, r) for d in ((1, 2, 3, 4) if big else (1, 2, 3))
                         for r in REPS], chain,
              "search over conversion chains; states merge on representation "
              "and dtype (values are checked on every arrival)",
              "depth 3/4, 12 representations"),
        Group("errors", dup_filter(error_cases()), errors,
              "unknown outputs, duplicates, bad ids/types, shape mismatch",
              "listed forms"),
    ]
