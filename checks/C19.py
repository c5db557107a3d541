"""C19: corrupting, correcting and subtracting with gains."""
import itertools

import numpy as np
import dask.array as da

from core import Group, call, check, raises, schedule, state
from refs import (CPLX, LAYOUTS, compositions, cut, generic, poke, pokes,
                  relayout, rungs)
import dsched
from africanus.calibration.utils import (check_type, chunkify_rows,
                                         compute_and_corrupt_vis,
                                         correct_vis, corrupt_vis,
                                         residual_vis)
from africanus.calibration.utils import dask as cd

ASSUMPTIONS = ["rows are sorted by time and the time bins cover them",
               "gains and visibilities are complex, gains invertible",
               "antenna, direction and 2x2 correlation axes are single "
               "chunks"]

LIGHT = 2.99792458e8
# (gain correlation shape, visibility correlation shape)
MODES = {"scalar1": ((1,), (1,)), "scalar2": ((2,), (2,)),
         "scalar4": ((4,), (4,)), "diag": ((2,), (2, 2)),
         "full": ((2, 2), (2, 2))}


def mat(x, mode):
    if mode == "full":
        return x.astype("c16")
    return np.diag(x.astype("c16"))


def vmat(x, mode):
    return np.diag(x) if mode.startswith("scalar") else x


def unmat(x, mode):
    return np.diag(x) if mode.startswith("scalar") else x


def bins(counts, offset=0):
    c = np.array(counts, np.int32)
    i = np.zeros(len(c), np.int32)
    i[1:] = np.cumsum(c)[:-1]
    return i + np.int32(offset), c


def times(counts):
    return np.repeat(np.arange(len(counts)), counts)


class Data(object):
    def __init__(self, mode, counts, a1, a2, nant, nchan, ndir, jdt="c16",
                 vdt="c16", mdt=None, adt=np.int32, offset=0):
        js, vs = MODES[mode]
        self.mode, self.counts = mode, counts
        nt, nrow = len(counts), sum(counts)
        self.tbi, self.tbc = bins(counts, offset)
        self.a1, self.a2 = np.array(a1, adt), np.array(a2, adt)
        self.jones = generic((nt, nant, nchan, ndir) + js, jdt, 1)
        if mode == "full":      # well conditioned
            self.jones[..., 0, 0] += 2
            self.jones[..., 1, 1] += 2
        else:
            self.jones += 2
        self.vis = generic((nrow, nchan) + vs, vdt, 2)
        self.model = generic((nrow, nchan, ndir) + vs, mdt or vdt, 3)
        self.flag = np.zeros((nrow, nchan) + vs, bool)
        self.image = generic((nt, nchan, ndir) + vs, mdt or vdt, 4)
        self.uvw = generic((nrow, 3), "f8", 5, -9, 9)
        self.freq = np.linspace(1e8, 1.9e8, nchan)
        self.lm = generic((nt, ndir, 2), "f8", 6, -.5, .5)

    def corrupt(self, model=None):
        model = self.model if model is None else model
        t = times(self.counts)
        out = np.zeros(model.shape[:2] + model.shape[3:], "c16")
        for r, c in np.ndindex(*out.shape[:2]):
            acc = 0
            for s in range(model.shape[2]):
                gp = mat(self.jones[t[r], self.a1[r], c, s], self.mode)
                gq = mat(self.jones[t[r], self.a2[r], c, s], self.mode)
                acc = acc + gp @ vmat(model[r, c, s].astype("c16"),
                                      self.mode) @ gq.conj().T
            out[r, c] = unmat(acc, self.mode)
        return out

    def bad(self):
        return self.flag.reshape(self.flag.shape[:2] + (-1,)).any(2)

    def correct(self):
        t = times(self.counts)
        out = np.zeros(self.vis.shape, "c16")
        for r, c in np.ndindex(*out.shape[:2]):
            if self.bad()[r, c]:
                continue
            gp = mat(self.jones[t[r], self.a1[r], c, 0], self.mode)
            gq = mat(self.jones[t[r], self.a2[r], c, 0], self.mode)
            out[r, c] = unmat(np.linalg.inv(gp) @ vmat(
                self.vis[r, c].astype("c16"), self.mode) @
                np.linalg.inv(gq).conj().T, self.mode)
        return out

    def residual(self):
        out = self.vis.astype("c16") - self.corrupt()
        out[self.bad()] = 0
        return out

    def predicted(self):
        """ the model visibilities of the point sources """
        t = times(self.counts)
        n = np.sqrt(1 - (self.lm ** 2).sum(-1))
        out = np.zeros(self.model.shape, "c16")
        for r, c, s in np.ndindex(*out.shape[:3]):
            l, m = self.lm[t[r], s]
            ph = (self.uvw[r, 0] * l + self.uvw[r, 1] * m + self.uvw[r, 2] *
                  (n[t[r], s] - 1))
            out[r, c, s] = self.image[t[r], c, s] / n[t[r], s] * np.exp(
                -2j * np.pi * self.freq[c] * ph / LIGHT)
        return out

    def args(self, name):
        head = [self.tbi, self.tbc, self.a1, self.a2, self.jones]
        return head + {"corrupt": [self.model],
                       "correct": [self.vis, self.flag],
                       "residual": [self.vis, self.flag, self.model],
                       "compute": [self.image, self.uvw, self.freq,
                                   self.lm]}[name]

    def want(self, name):
        return {"corrupt": self.corrupt, "correct": self.correct,
                "residual": self.residual,
                "compute": lambda: self.corrupt(self.predicted())}[name]()


FN = {"corrupt": corrupt_vis, "correct": correct_vis,
      "residual": residual_vis, "compute": compute_and_corrupt_vis}
DFN = {"corrupt": cd.corrupt_vis, "correct": cd.correct_vis,
       "residual": cd.residual_vis, "compute": cd.compute_and_corrupt_vis}


def same(got, want, tol, what):
    check(got.shape == want.shape, "shape %s, expected %s (%s)", got.shape,
          want.shape, what)
    e = np.abs(got - want).max() if want.size else 0
    check(e <= tol * max(1, np.abs(want).max()), "off by %s (%s): %s, "
          "expected %s", e, what, got.ravel()[:6], want.ravel()[:6])


def run(name, d, tol=1e-12, what=""):
    args = d.args(name)
    keep = [a.copy() for a in args]
    got = call(FN[name], *args)
    for i, (a, k) in enumerate(zip(args, keep)):
        check(np.array_equal(a, k), "%s changed its argument %d (%s)", name,
              i, what)
    same(got, d.want(name), tol, "%s %s" % (name, what))
    return got


def values(p):
    """ all antenna pairs of the rows """
    mode, counts, nant, nchan, ndir, first = p
    nrow = sum(counts)
    pairs = list(itertools.product(range(nant), repeat=2))
    rest = list(itertools.product(pairs, repeat=min(nrow - 1, 1)))
    for tail in rest:
        rows = [pairs[first]] + list(tail)
        rows += [pairs[(i * 5 + 1) % len(pairs)] for i in
                 range(nrow - len(rows))]
        a1, a2 = zip(*rows)
        d = Data(mode, counts, a1, a2, nant, nchan, ndir)
        what = "%s rows %s" % (p, rows)
        run("corrupt", d, what=what)
        run("residual", d, what=what)
        run("compute", d, what=what)
        if ndir == 1:
            run("correct", d, what=what)
            # correcting undoes corrupting
            d.vis = call(corrupt_vis, *d.args("corrupt"))
            same(call(correct_vis, *d.args("correct")), d.model[:, :, 0],
                 1e-12, "round trip " + what)
        else:
            e = raises(correct_vis, *d.args("correct"))
            check(isinstance(e, ValueError), "correcting %d directions gives"
                  " %r", ndir, e)
        # the data made from the model leave nothing
        d.vis = d.corrupt()
        run("residual", d, what="noiseless " + what)
        state()
    return mode, ndir


SHAPES = {"symmetric": [[2, .5 + .2j], [.5 + .2j, 1.5j]],
          "antisymmetric": [[0, 1 + .3j], [-1 - .3j, 0]],
          "hermitian": [[2, .5 - .4j], [.5 + .4j, -1.]],
          "diagonal": [[1 + 1j, 0], [0, -.5]],
          "antidiagonal": [[0, 1 - 2j], [.7j, 0]],
          "unitary": [[.6, .8j], [.8j, .6]], "rotation": [[.6, -.8], [.8, .6]],
          "scalar": [[2j, 0], [0, 2j]], "identity": [[1, 0], [0, 1]],
          "upper": [[1, 3j], [0, 2]], "lower": [[1j, 0], [3, 2]],
          "real": [[1, 2], [3, 5]], "imaginary": [[1j, 2j], [3j, 5j]],
          "leaky": [[1, 10j], [-8, 1]], "equal": [[1, 1], [1, -1]],
          "small": [[1e-4, 2e-5], [1e-5j, 1e-4]],
          "large": [[1e4, 2e3], [1e3j, 1e4]],
          "small determinant": [[1, .999], [1, 1.001]]}


def shaped(p):
    """ matrices with a structure, as the gain of either antenna """
    gp, gq, ndir = p
    d = Data("full", (1, 2), (0, 0, 1), (1, 0, 1), 2, 1, ndir)
    # the second antenna and the second time have other gains
    d.jones[0, 0] = SHAPES[gp]
    d.jones[0, 1] = SHAPES[gq]
    d.jones[1, 1] = SHAPES[gp]
    for f in ("corrupt", "residual", "compute") + (("correct",) * (
            ndir == 1)):
        run(f, d, 1e-10, str(p))
    if ndir == 1:
        d.vis = call(corrupt_vis, *d.args("corrupt"))
        same(call(correct_vis, *d.args("correct")), d.model[:, :, 0],
             1e-7, "round trip %s" % (p,))
    state()


POKED = {"corrupt": ("jones", "model"), "correct": ("jones", "vis"),
         "residual": ("jones", "vis", "model"),
         "compute": ("jones", "image", "uvw", "freq", "lm")}
POKE_VALS = {"lm": (0., -0., .5, -.5, 1e-9, .7), "freq": (0., 1., 1e9)}


def poke_cases():
    out = []
    for mode in sorted(MODES):
        for ndir in (1, 2):
            d = Data(mode, (1, 2), (0, 0, 1), (1, 0, 0), 2, 1, ndir)
            for f in sorted(POKED):
                if f == "correct" and ndir == 2:
                    continue
                a = {k: getattr(d, k) for k in POKED[f]}
                # a gain that is undone is not singular
                out.extend((mode, ndir, f) + c for c in pokes(
                    a, other=POKE_VALS, cplx=CPLX) if f != "correct" or
                    c[0] != "jones" or abs(c[2]) > 1e-6 and
                    (mode != "full" or c[1] >= 0 and abs(c[2]) < 10))
    return out


def poked(p):
    """ special values in one element or in all of an argument """
    mode, ndir, f = p[:3]
    d = Data(mode, (1, 2), (0, 0, 1), (1, 0, 0), 2, 1, ndir)
    for k, v in poke({k: getattr(d, k) for k in POKED[f]}, p[3:]).items():
        setattr(d, k, v)
    run(f, d, tol=1e-10, what="%s" % (p,))
    state()
    return f


def flags(p):
    mode, nrow, nchan, lo, hi = p
    counts = (nrow - 1, 1) if nrow > 1 else (1,)
    d = Data(mode, counts, [0, 1, 2][:nrow], [1, 2, 0][:nrow], 3, nchan, 1)
    n = d.flag.size
    for mask in range(lo, hi):
        d.flag = np.array([mask >> i & 1 for i in range(n)], bool).reshape(
            d.flag.shape)
        # anything may lie under a flag
        d.vis = generic(d.vis.shape, "c16", 2)
        want_c, want_r = d.want("correct"), d.want("residual")
        d.vis[d.bad()] = np.nan
        same(call(correct_vis, *d.args("correct")), want_c, 1e-12,
             "correct, flags %s" % d.flag.astype(int).tolist())
        same(call(residual_vis, *d.args("residual")), want_r, 1e-12,
             "residual, flags %s" % d.flag.astype(int).tolist())
        check(np.isnan(d.vis[d.bad()]).all(), "the data were modified")
        state()
    return hi - lo


def types(p):
    name, mode, jdt, vdt, mdt, adt, layout = p
    d = Data(mode, (2, 1), (0, 1, 2), (1, 1, 0), 3, 2, 1, jdt, vdt, mdt,
             np.dtype(adt).type)
    if name == "compute" and mdt == "f8":
        d.image = d.image.real.astype("f8")
    want = d.want(name)
    args = [relayout(a, layout) for a in d.args(name)]
    keep = [a.copy() for a in args]
    got = call(FN[name], *args)
    low = "c8" in (jdt, vdt, mdt)
    same(got, want, 2e-5 if low else 1e-12, "%s" % (p,))
    odt = {"corrupt": mdt, "compute": jdt}.get(name, vdt)
    check(got.dtype == np.dtype(odt), "type %s, expected %s (%s)", got.dtype,
          odt, p)
    for i, (a, k) in enumerate(zip(args, keep)):
        check(np.array_equal(a, k), "argument %d was changed (%s)", i, p)
    return str(got.dtype)


def ladder(p):
    """ larger problems, one dimension at a time, in memory and chunked """
    mode, (nt, per, nant, nchan, ndir) = p
    counts = tuple(1 + (per - 1 + i) % per for i in range(nt))
    nrow = sum(counts)
    a1 = [(r * 2) % nant for r in range(nrow)]
    a2 = [(r * 3 + 1) % nant for r in range(nrow)]
    for name in sorted(FN):
        if name == "correct" and ndir > 1:
            continue
        d = Data(mode, counts, a1, a2, nant, nchan, ndir)
        d.flag = generic(d.flag.shape, "f8", 9) > .8
        run(name, d, what="%s" % (p,))
        for k in (1, 2, 3):
            chunked((name, mode, counts, cut(nt, k), cut(nchan, k), None,
                     "c16", "c16", "c16"), nant, ndir)
    state()
    return mode


def history(p):
    """ two calls on the same arrays """
    one, two, mode, offset = p
    d = Data(mode, (1, 2, 1), (0, 1, 2, 0), (1, 2, 0, 2), 3, 2, 1,
             offset=offset)
    d.flag[1, 0] = True
    pool = {id(a): a.copy() for n in FN for a in d.args(n)}
    for step, name in enumerate((one, two)):
        got = call(FN[name], *d.args(name))
        same(got, d.want(name), 1e-12, "step %d of %s" % (step, p))
        for n in FN:
            for i, a in enumerate(d.args(n)):
                check(np.array_equal(a, pool[id(a)]), "argument %d of %s was "
                      "changed by %s (%s)", i, n, name, p)
        state()
    return 1


def blocks(counts, tchunks):
    """ row chunks that go with chunks of the time bins """
    out, i = [], 0
    for c in tchunks:
        out.append(sum(counts[i:i + c]))
        i += c
    return tuple(out)


def chunked(p, nant=3, ndir=2):
    name, mode, counts, tc, fc, kc, jdt, vdt, mdt = p
    nrow, nchan = sum(counts), sum(fc)
    ndir = 1 if name == "correct" else ndir
    d = Data(mode, counts, [(r * 2) % nant for r in range(nrow)],
             [(r + 1) % nant for r in range(nrow)], nant, nchan, ndir, jdt,
             vdt, mdt)
    if name == "compute" and mdt == "f8":
        d.image = d.image.real.astype("f8")
    d.flag[0, 0] = True
    d.flag.reshape(nrow, nchan, -1)[-1, -1, -1] = True
    rc = blocks(counts, tc)
    js, vs = MODES[mode]
    jk = tuple((s,) for s in js)
    vk = tuple((s,) for s in vs)
    if mode.startswith("scalar") and kc:
        jk = vk = (kc,)
    ch = {"tbi": (tc,), "tbc": (tc,), "a1": (rc,), "a2": (rc,),
          "jones": (tc, (nant,), fc, (ndir,)) + jk, "vis": (rc, fc) + vk,
          "flag": (rc, fc) + vk, "model": (rc, fc, (ndir,)) + vk,
          "image": (tc, fc, (ndir,)) + vk, "uvw": (rc, (3,)),
          "freq": (fc,), "lm": (tc, (ndir,), (2,))}
    arg = []
    for a in d.args(name):
        key = [k for k, v in vars(d).items() if v is a][0]
        arg.append(da.from_array(a, chunks=ch[key]))
    keep = [a.copy() for a in d.args(name)]
    v = call(DFN[name], *arg)
    odt = {"corrupt": mdt, "compute": jdt}.get(name, vdt)
    check(v.chunks == (rc, fc) + vk, "declares chunks %s, expected %s (%s)",
          v.chunks, (rc, fc) + vk, p)
    check(v.dtype == np.dtype(odt), "declares %s, expected %s (%s)", v.dtype,
          odt, p)
    want = d.want(name)
    low = "c8" in (jdt, vdt, mdt)
    for order in ("first", "last", "first"):
        got = call(dsched.compute, v, order)[0]
        schedule()
        same(got, want, 2e-5 if low else 1e-12, "%s" % (p,))
        check(got.dtype == np.dtype(odt), "is %s, expected %s (%s)",
              got.dtype, odt, p)
    # also as part of a larger graph
    got = call(dsched.compute, (v + 1).sum(axis=0), "first")[0]
    same(got, (want + 1).sum(axis=0), 2e-5 if low else 1e-12, "sum of %s" %
         (p,))
    for i, (a, k) in enumerate(zip(d.args(name), keep)):
        check(np.array_equal(a, k), "argument %d was changed (%s)", i, p)
    return rc


def refused(p):
    name, axis = p
    d = Data("scalar2", (2, 2), (0, 1, 2, 0), (1, 2, 0, 2), 3, 2, 2)
    if name == "correct":
        d = Data("scalar2", (2, 2), (0, 1, 2, 0), (1, 2, 0, 2), 3, 2,
                 2 if axis == "jones-dir" else 1)
    arg = []
    for a in d.args(name):
        key = [k for k, v in vars(d).items() if v is a][0]
        ch = [(s,) for s in a.shape]
        split = {"jones-ant": ("jones", 1, (2, 1)),
                 "jones-dir": ("jones", 3, (1, 1)),
                 "model-dir": ("image" if name == "compute" else "model", 2,
                               (1, 1)),
                 "uvw-comp": ("uvw", 1, (2, 1)),
                 "lm-dir": ("lm", 1, (1, 1)),
                 "lm-comp": ("lm", 2, (1, 1))}[axis]
        if split[0] == key:
            ch[split[1]] = split[2]
        arg.append(da.from_array(a, chunks=tuple(ch)))
    e = raises(DFN[name], *arg)
    check(isinstance(e, ValueError), "%s gives %r", p, e)
    return 1


def mode_of(p):
    jn, vn, kind = p
    js, vs = np.zeros((1,) * jn), np.zeros((1,) * vn)
    base = 3 if kind == "vis" else 4
    want = {(5, base): 0, (5, base + 1): 1, (6, base + 1): 2}.get((jn, vn))
    if kind == "other":
        e = raises(check_type, js, vs, vis_type="other")
        check(isinstance(e, ValueError), "an unknown type gives %r", e)
        return "type"
    if want is None:
        e = raises(check_type, js, vs, vis_type=kind)
        check(isinstance(e, RuntimeError), "%d-d gains with %d-d %s give %r",
              jn, vn, kind, e)
        return "error"
    got = call(check_type, js, vs, vis_type=kind)
    check(got == want, "%d-d gains with %d-d %s is mode %s", jn, vn, kind,
          got)
    if kind == "vis":
        check(call(check_type, js, vs) == want, "the default type is not vis")
    return want


def rows(p):
    counts, per = p
    for shift, step, kind in (
            (0., 2, "f8"), (0., 2, "f4"), (0., 2, "i8"), (17.5, 2, "f8"),
            (17.5, 2, "f4"), (17.5, 2, "i8"), (-3., 2, "f8"), (-3., 2, "f4"),
            (-3., 2, "i8"), (0., 1e-9, "f8"), (0., 1e-9, "f4"),
            (4.9e9, 1e-5, "f8"), (4.9e9, 8., "f8"), (-1e-300, 1e-301, "f8")):
        t = np.repeat(np.arange(len(counts)) * step + shift,
                      counts).astype(kind)
        chunks, idx, cnt = call(chunkify_rows, t, per)
        want = blocks(counts, [min(per, len(counts) - i) for i in
                               range(0, len(counts), per)])
        check(tuple(chunks) == want, "row chunks %s, expected %s (%s)",
              chunks, want, p)
        check(isinstance(chunks, tuple), "row chunks are %s", chunks)
        wi, wc = bins(counts)
        check(np.array_equal(idx, wi) and np.array_equal(cnt, wc),
              "bins %s %s, expected %s %s (%s)", idx, cnt, wi, wc, p)
        check(idx.dtype == np.int32 and cnt.dtype == np.int32,
              "types %s %s", idx.dtype, cnt.dtype)
    return want


def groups(tier):
    deep = tier == "thorough"
    g = []
    modes = list(MODES)
    nrow = 4 if deep else 3
    cases = []
    for mode in modes:
        for counts in [c for k in range(1, nrow + 1)
                       for c in compositions(k)]:
            for ndir in (1, 2, 3):
                for f in range(9):
                    cases.append((mode, counts, 3, 2 if sum(counts) < 3
                                  else 1, ndir, f))
    lens = (4, 5, 8, 9, 17, 33) + ((65, 129) if deep else ())
    g.append(Group("ladder", [
        (m, d) for m in sorted(MODES) for d in list(rungs(
            (2, 2, 3, 2, 1), lens)) + [(2, 2, 3, 2, 2)]], ladder,
                   "one large dimension, in memory and in many chunks",
                   "<= %d elements, <= %d chunks" % (max(lens), max(lens))))
    g.append(Group("values", cases, values, "corruption, residual, on-the-fly"
                   " prediction and correction equal the documented sums",
                   "all modes, binnings of <= %d rows, antenna pairs of two "
                   "rows, <= 3 directions" % nrow))
    cases = []
    for mode in modes:
        size = int(np.prod(MODES[mode][1]))
        for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
            n = r * c * size
            if n > (12 if deep else 8):
                continue
            for lo in range(0, 1 << n, 64):
                cases.append((mode, r, c, lo, min(1 << n, lo + 64)))
    g.append(Group("flags", cases, flags, "samples with any flag are zero, "
                   "all others are not affected", "all flag patterns"))
    cases = []
    for name in FN:
        for mode in modes:
            for j, v, m in itertools.product(("c8", "c16"), repeat=3):
                if name == "corrupt" and v != m or name in (
                        "compute", "correct") and v != m:
                    continue
                cases.append((name, mode, j, v, m, "i4", "C"))
            for lay in LAYOUTS[1:]:
                cases.append((name, mode, "c16", "c16", "c16", "i4", lay))
            for adt in ("i8", "u4"):
                cases.append((name, mode, "c16", "c16", "c16", adt, "C"))
    cases += [("compute", mode, j, "c16", "f8", "i4", "C") for mode in modes
              for j in ("c8", "c16")]
    g.append(Group("types", cases, types, "in the precision of the data, in "
                   "every memory layout", "all precision combinations"))
    g.append(Group("history", [(a, b, m, o) for a in FN for b in FN
                               for m in modes for o in (0, 7)], history,
                   "calls do not affect each other or their arguments",
                   "all pairs of calls on shared arrays, bins starting at "
                   "row 0 and later"))
    cases = []
    for name in FN:
        for mode in modes:
            for counts in ((1, 2, 1), (2, 2), (3,)) + (
                    ((1, 1, 2, 1),) if deep else ()):
                for tc in compositions(len(counts)):
                    for fc in ((2,), (1, 1)):
                        ks = [None]
                        if mode == "scalar2":
                            ks += [(1, 1)]
                        if mode == "scalar4":
                            ks += [(2, 2), (1, 3)]
                        for kc in ks:
                            cases.append((name, mode, counts, tc, fc, kc,
                                          "c16", "c16", "c16"))
            cases.append((name, mode, (2, 2), (1, 1), (1, 1), None, "c8",
                          "c8", "c8"))
            cases.append((name, mode, (2, 2), (1, 1), (1, 1), None, "c16",
                          "c8", "c8"))
            cases.append((name, mode, (2, 2), (1, 1), (1, 1), None, "c8",
                          "c16", "c16"))
            if name == "compute":
                cases.append((name, mode, (2, 2), (1, 1), (1, 1), None,
                              "c16", "c16", "f8"))
    g.append(Group("chunks", cases, chunked, "chunked results equal the "
                   "whole ones", "all chunkings of <= %d time bins, 2 "
                   "channels and the separable correlations" %
                   (4 if deep else 3)))
    cases = [(n, "jones-ant") for n in FN] + [(n, "jones-dir") for n in FN]
    cases += [(n, "model-dir") for n in ("corrupt", "residual", "compute")]
    cases += [("compute", a) for a in ("uvw-comp", "lm-dir", "lm-comp")]
    g.append(Group("refused", cases, refused, "unsupported chunkings are "
                   "rejected", "%d requests" % len(cases)))
    g.append(Group("modes", [(j, v, k) for j in range(1, 8)
                             for v in range(1, 8)
                             for k in ("vis", "model", "other")], mode_of,
                   "the calibration mode follows from the dimensions",
                   "all dimensions <= 7"))
    g.append(Group("bins", [(c, k) for n in range(1, 7 if deep else 6)
                            for c in compositions(n)
                            for k in range(1, n + 2)] + [
        ((1,) * 300, k) for k in (1, 7, 128, 129, 299, 300, 301)] + [
        ((40000, 1, 70000), k) for k in (1, 2, 3)] + [
        ((300, 1, 2, 299), k) for k in (1, 2, 3, 4)], rows,
                   "row chunks hold whole time bins", "all bin sizes of <= 5 "
                   "rows; 300 bins; bins of 70 000 rows"))
    g.append(Group("structure", [(a, b, k) for a in sorted(SHAPES)
                                 for b in sorted(SHAPES) for k in (1, 2)],
                   shaped, "gains with a structure (symmetric, unitary, "
                   "triangular, ...)", "all pairs of the structures"))
    g.append(Group("special", poke_cases(), poked, "special values (zeros, "
                   "purely real or imaginary, tiny, large) are not special",
                   "one or all elements of every argument x the values"))
    return g
