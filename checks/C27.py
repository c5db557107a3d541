"""C27: the generated GPU kernels, in an execution model of thread blocks."""
import itertools
import logging

import numpy as np

import fake_cupy

logging.getLogger("africanus").setLevel(logging.CRITICAL)
CP = fake_cupy.install()

from core import Group, call, check, raises, schedule, state   # noqa: E402
from refs import generic                                       # noqa: E402
import C03                                                     # noqa: E402
import C16                                                     # noqa: E402
import C17                                                     # noqa: E402

from africanus.model.coherency.cuda import convert             # noqa: E402
from africanus.rime.cuda.beam import beam_cube_dde             # noqa: E402
from africanus.rime.cuda.feeds import feed_rotation            # noqa: E402
from africanus.rime.cuda.phase import phase_delay              # noqa: E402
from africanus.rime.cuda.predict import predict_vis            # noqa: E402
from africanus.util.jinja2 import jinja_env                    # noqa: E402

logging.disable(logging.CRITICAL)

ASSUMPTIONS = [
    "arrays are C contiguous, sizes fit the index type of the kernels",
    "the model of a thread block: threads advance independently between "
    "barriers and warp collectives, exited threads do not hold up barriers",
    "floating point operations of the device round like those of the host"]


def launch(fn, *args, **kw):
    """ call, with inputs the kernels may not write to """
    args = [a.copy(order="K") if isinstance(a, np.ndarray) else a for a in args]
    kw = {k: v.copy() for k, v in kw.items()}
    for a in list(args) + list(kw.values()):
        if isinstance(a, np.ndarray):
            a.flags.writeable = False
    before = dict(fake_cupy.COUNT)
    try:
        out = call(fn, *args, **kw)
    except fake_cupy.KernelError as e:
        check(False, "%s", e)
    schedule(fake_cupy.COUNT["schedules"] - before["schedules"])
    state(fake_cupy.COUNT["switches"] - before["switches"])
    return out


def close(got, want, dt, what, tol):
    check(isinstance(got, np.ndarray) and got.shape == want.shape,
          "shape %s, expected %s (%s)", got.shape, want.shape, what)
    check(got.dtype == dt, "type %s, expected %s (%s)", got.dtype, dt, what)
    if not want.size:
        return
    bad = ~(np.abs(got - want) <= tol * max(np.abs(want).max(), 1))
    check(not bad.any(), "%s values are wrong, the first at %s: %s, expected "
          "%s (%s)", bad.sum(), tuple(np.argwhere(bad)[0]) if bad.any() else
          "", got[bad][:1], want[bad][:1], what)


def cplx(*dts):
    return np.result_type(np.complex64, *[np.dtype(d) for d in dts])


# --- phase ------------------------------------------------------------------
def phases(p):
    nsrc, sizes, dts = p
    for nrow, nchan in sizes:
        lm = generic((nsrc, 2), dts[0], 1, -.6, .6)
        if nsrc:
            lm[-1] = 0
        uvw = generic((nrow, 3), dts[1], 2, -30, 30)
        freq = np.linspace(1e6, 3e6, nchan).astype(dts[2])
        got = launch(phase_delay, lm, uvw, freq)
        want = C17.phase_ref(lm, uvw, freq, -1)
        close(got, want, cplx(*dts), "%s source, %s row, %s chan %s" % (
            nsrc, nrow, nchan, dts), 1e-12 if dts[0] == "f8" else 1e-5)
    return len(sizes)


# --- feeds ------------------------------------------------------------------
def feeds(p):
    kind, dt, shapes = p
    for shape in shapes:
        pa = generic(shape, dt, 3, -7, 7)
        got = launch(feed_rotation, pa, kind) if kind else \
            launch(feed_rotation, pa)
        if len(shape) > 1 and np.prod(shape) < 100:
            # angles in another memory order
            f = launch(feed_rotation, np.asfortranarray(pa), kind or "linear")
            check(np.array_equal(f, got), "feeds of transposed angles")
        close(got, C17.feed_ref(pa, kind or "linear"), cplx(dt),
              "%s feeds %s %s" % (kind, shape, dt),
              1e-14 if dt == "f8" else 1e-6)
    return len(shapes)


def feed_bad(p):
    what, v = p
    pa = generic((3,), "f8" if what == "kind" else v, 3)
    e = raises(feed_rotation, pa, *([v] if what == "kind" else []))
    check(e is not None, "%s %r is accepted", what, v)
    return type(e).__name__


# --- prediction -------------------------------------------------------------
def rows_of(nrow, nant, ntime, off):
    r = np.arange(nrow)
    # in order, and with the earliest time last
    ti = (ntime - 1 - r) % ntime if off else np.sort(r % ntime)
    a1 = (r * 7 + 1) % nant
    a2 = (r * 3 + r // nant) % nant
    return [x.astype("i4") for x in (ti, a1, a2, ti + off)]


def predict(p):
    subset, corr, nsrc, sizes, dt, off = p
    for nrow, nchan, nant, ntime in sizes:
        ntime = min(ntime, nrow)
        ti, a1, a2, t_off = rows_of(nrow, nant, ntime, off)
        t = C16.terms(subset, nsrc, nrow, ntime, nant, nchan, corr, dt)
        got = launch(predict_vis, t_off, a1, a2, **t)
        close(got, pref(ti, a1, a2, t, corr), dt, "terms %s corr %s source "
              "%s sizes %s offset %s" % (subset, corr, nsrc, sizes, off),
              1e-12 if dt == "c16" else 2e-5)
    return len(sizes)


def pref(ti, a1, a2, t, corr):
    """ the measurement equation, with matrices on the last two axes """
    def mat(x):
        if len(corr) == 2:
            return x.astype("c16")
        return np.einsum("...i,ij->...ij", x.astype("c16"), np.eye(corr[0]))

    def herm(x):
        return np.conj(np.swapaxes(x, -1, -2))
    v = 0
    if "source_coh" in t or "dde1_jones" in t:
        x = mat(t["source_coh"]) if "source_coh" in t else None
        if "dde1_jones" in t:
            e1 = mat(t["dde1_jones"])[:, ti, a1]
            e2 = mat(t["dde2_jones"])[:, ti, a2]
            x = e1 @ herm(e2) if x is None else e1 @ x @ herm(e2)
        v = x.sum(axis=0)
    if "base_vis" in t:
        v = v + mat(t["base_vis"])
    if "die1_jones" in t:
        g1, g2 = mat(t["die1_jones"])[ti, a1], mat(t["die2_jones"])[ti, a2]
        v = g1 @ (v + np.zeros(g1.shape)) @ herm(g2)
    return v if len(corr) == 2 else np.einsum("...ii->...i", v)


def predict_bad(p):
    kind, v = p
    ti, a1, a2, _ = rows_of(4, 3, 2, 0)
    t = C16.terms((1, 1, 1, 1), 2, 4, 2, 3, 2, (2, 2))
    if kind == "index":
        idx = [ti, a1, a2]
        idx[v] = idx[v].astype("i8")
        e = raises(predict_vis, *idx, **t)
    elif kind == "missing":
        t.pop(v)
        e = raises(predict_vis, ti, a1, a2, **t)
    else:
        e = raises(predict_vis, ti, a1, a2)
    check(e is not None, "%s %s is accepted", kind, v)
    return type(e).__name__


# --- beams ------------------------------------------------------------------
def bref(beam, ext, fmap, lm, pa, pe, sc, freq):
    """ like C17.beam_ref, on whole arrays """
    nud = beam.shape[2]
    corr = beam.shape[3:]
    f8 = [np.asarray(x, "f8") for x in (ext, fmap, lm, pa, pe, sc, freq)]
    ext, fmap, lm, pa, pe, sc, freq = f8
    s, (t, a), c = len(lm), pa.shape, len(freq)
    scale = np.where(freq < fmap[0], freq / fmap[0],
                     np.where(freq > fmap[-1], freq / fmap[-1], 1.))
    fi = np.clip(np.searchsorted(fmap, freq, side="right") - 1, 0, nud - 2)
    fx = np.clip((freq - fmap[fi]) / (fmap[fi + 1] - fmap[fi]), 0, 1)
    x = lm[:, None, None, None, 0] * scale + pe[..., 0]
    y = lm[:, None, None, None, 1] * scale + pe[..., 1]
    cs, sn = np.cos(pa)[:, :, None], np.sin(pa)[:, :, None]
    pos = []
    for v, k in (((x * cs - y * sn), 0), ((x * sn + y * cs), 1)):
        n = beam.shape[k]
        v = (n - 1) * (v * sc[..., k] - ext[k, 0]) / (ext[k, 1] - ext[k, 0])
        v = np.clip(v, 0, n - 1)
        i = np.minimum(np.floor(v).astype(int), n - 2)
        pos.append((i, v - i))
    fb = beam.reshape(beam.shape[:3] + (-1,)).astype("c16")
    tot = np.zeros((s, t, a, c, fb.shape[-1]), "c16")
    amp = np.zeros(tot.shape)
    (il, wl), (im, wm) = pos
    ff = np.broadcast_to(fi, il.shape)
    wf = np.broadcast_to(fx, il.shape)
    for dl, dm, df in itertools.product((0, 1), repeat=3):
        w = (wl if dl else 1 - wl) * (wm if dm else 1 - wm) * \
            (wf if df else 1 - wf)
        z = fb[il + dl, im + dm, ff + df]
        tot += w[..., None] * z
        amp += w[..., None] * np.abs(z)
    div = np.abs(tot)
    out = np.where(div == 0, 0, tot * amp / np.where(div == 0, 1, div))
    return out.reshape((s, t, a, c) + corr)


def beams(p):
    shape, corr, dimss, dts = p
    for dims in dimss:
        args = C17.beam_args(shape, corr, *dims, dt="f8")
        freq = args[-1]
        # on, below and above the samples of the beam, in no order
        args[-1] = freq[np.argsort(generic(freq.shape, "f8", 11))]
        if len(freq) > 2:
            args[-1][:2] = args[2][0], args[2][-1]
        want = bref(*args)
        ks = ("c16" if dts[0] == "f8" else "c8",) + tuple(dts[1:])
        args = [x.astype(k) for x, k in zip(args, ks)]
        low = "f4" if "f4" in dts else "f8"
        got = launch(beam_cube_dde, *args)
        if low == "f4":
            # interpolation is continuous except for the choice of the cell
            tol = 2e-3
        else:
            tol = 1e-9
        close(got, want, ks[0], "beam %s %s dims %s %s" % (shape, corr, dims,
                                                          dts), tol)
    return len(dimss)


def beam_zero(p):
    """ cancelling beam values are zero, not NaN """
    corr, dt = p
    args = C17.beam_args((2, 2, 2), corr, 2, 1, 1, 2, dt=dt)
    args[0][...] = 0
    got = launch(beam_cube_dde, *args)
    check(not got.any(), "beam of zeros gives %s", got.ravel()[:4])
    return 1


def beam_bad(p):
    """ refused whatever was computed before """
    kind, v, history = p
    good = C17.beam_args((2, 3, 2), (2, 2), 1, 1, 2, 2)
    for h in range(history):
        launch(beam_cube_dde, *good)
    shape, corr = [2, 3, 2], (2, 2)
    if kind == "small":
        shape[v] = 1
    elif kind == "nud":
        shape[2] = v
    else:
        corr = v
    e = raises(beam_cube_dde, *C17.beam_args(tuple(shape), corr, 1, 1, 2, 2))
    check(isinstance(e, ValueError), "beam %s with correlations %s gives %r "
          "after %d calls", shape, corr, e, history)
    return type(e).__name__


# --- conversion -------------------------------------------------------------
def schemas(n):
    """ ordered inputs and outputs of n elements which can be converted """
    out = []
    for ins in itertools.permutations(C03.TYPES, n):
        if n == 4 and not (set(ins) in (set(C03.STOKES), set(C03.LIN),
                                        set(C03.CIRC))):
            continue
        have = [o for o in C03.TYPES if any(
            a in ins and b in ins for a, b, _ in C03.DEF[o])]
        real = [o for o in have if o in C03.STOKES]
        cp = [o for o in have if o not in C03.STOKES]
        for kind in (real, cp):
            for outs in itertools.permutations(kind, n):
                out.append((ins, outs))
    return out


def cdata(n, ins, dt):
    corr = any(x not in C03.STOKES for x in ins)
    return generic((n, len(ins)), dt if corr else
                   {"c8": "f4", "c16": "f8"}[dt], 7)


def convert_case(p):
    pairs, nsrcs, dt = p
    for ins, outs in pairs:
        for n in nsrcs:
            v = cdata(n, ins, dt)
            got = launch(convert, v, list(ins), list(outs))
            judge(v, ins, outs, got, dt, "%s to %s, %d sources" % (
                ins, outs, n))
    return len(pairs)


def judge(v, ins, outs, got, dt, what):
    f = {"c8": "f4", "c16": "f8"}[dt]
    want_dt = f if outs[0] in C03.STOKES else dt
    check(got.dtype == want_dt, "type %s, expected %s (%s)", got.dtype,
          want_dt, what)
    check(got.shape == v.shape, "shape %s (%s)", got.shape, what)
    for i, o in enumerate(outs):
        ref = C03.refs(v.astype("c16"), ins, o)
        tol = 1e-6 if dt == "c8" else 1e-14
        check(any(np.abs(got[..., i] - r).max() <= tol for r in ref)
              if len(v) else True, "%s of %s is %s, expected one of %s", o,
              what, got[..., i].ravel()[:3], [r.ravel()[:3] for r in ref])


def convert_shapes(p):
    """ nested schemas, several leading axes, codes """
    lead, nest_in, nest_out, how, dt = p
    for ins, outs in ((C03.LIN, C03.STOKES), (C03.STOKES, C03.CIRC)):
        n = int(np.prod(lead, dtype=int))
        v = cdata(n, ins, dt)
        got = launch(convert, v.reshape(lead + nest_in),
                     C03.nest(C03.spelled(ins, how), nest_in),
                     C03.nest(C03.spelled(outs, how), nest_out))
        check(got.shape == lead + nest_out, "shape %s for %s", got.shape, p)
        judge(v, ins, outs, got.reshape(n, 4), dt, "%s" % (p,))
    return 1


def convert_bad(p):
    ins, outs, n, history = p
    for _ in range(history):
        launch(convert, generic((3, len(ins)), "c16"), list(ins), list(outs))
    e = raises(convert, generic((3, n), "c16"), list(ins), list(outs))
    check(e is not None, "%s to %s of %d elements is accepted", ins, outs, n)
    return type(e).__name__


# --- transpose --------------------------------------------------------------
SRC = """#include <cupy/carray.cuh>
{%- from "rime/cuda/macros.j2" import warp_transpose %}
extern "C" __global__ void kernel(const CArray<{{type}}, 2> input,
                                  CArray<{{type}}, 2> output)
{
    const int n = input.shape()[0];
    int v = blockIdx.x*blockDim.x + threadIdx.x;
    {{type}} values[{{k}}];
    if(v >= n)
        { return; }
    {%- for i in range(k) %}
    values[{{i}}] = input[v*{{k}} + {{i}}];
    {%- endfor %}
    {{ warp_transpose("values", type, k) }}
    {%- for i in range(k) %}
    output[v*{{k}} + {{i}}] = values[{{i}}];
    {%- endfor %}
}
"""


def transpose(p):
    """ groups of k threads with k values each transpose them """
    k, dt, ns = p
    ctype = {"i4": "int", "f4": "float", "f8": "double", "c8": "float2",
             "c16": "double2"}[dt]
    code = jinja_env.from_string(SRC).render(type=ctype, k=k)
    kernel = CP.RawKernel(code.encode(), "kernel")
    for n in ns:
        a = np.arange(n * k).reshape(n, k).astype(dt)
        out = fake_cupy.poisoned((n, k), dt)
        launch(lambda x: kernel(((n + 63) // 64, 1, 1), (64, 1, 1),
                                (x, out)), a)
        want = a.reshape(n // k, k, k).transpose(0, 2, 1).reshape(n, k)
        check(np.array_equal(out, want), "transpose of %d x %d %s: %s",
              n, k, dt, out[:k])
    return len(ns)


def transpose_bad(p):
    k, ctype = p
    e = raises(lambda: jinja_env.from_string(SRC).render(type=ctype, k=k))
    check(e is not None, "transpose of %s %s is accepted", k, ctype)
    return type(e).__name__


def variants():
    """ per function, small calls that need kernels of their own """
    b = ("f8",) * 8
    c = ("f4",) * 8
    size = [(2, 1, 2, 3)]
    yield "beam", beams, [((3, 3, 4), (2,), size, d) for d in [b, c] + [
        x[:i] + (y,) + x[i + 1:] for x, y in ((b, "f4"), (c, "f8"))
        for i in range(8)]] + [((3, 3, 4), k, size, b) for k in
                               ((1,), (4,), (2, 2))]
    yield "phase", phases, [(1, [(2, 3)], d) for d in
                            itertools.product(("f4", "f8"), repeat=3)]
    yield "feeds", feeds, [(k, d, [(3,)]) for k in ("linear", "circular")
                           for d in ("f4", "f8")]
    yield "predict", predict, [(s, k, 2, [(3, 2, 2, 2)], d, 0) for s in
                               ((1, 1, 1, 1), (1, 0, 1, 0), (0, 1, 0, 0),
                                (0, 0, 1, 1)) for k in C16.CORRS
                               for d in ("c8", "c16")]
    yield "convert", convert_case, [
        ([(i, o)], (3,), d) for i, o in (
            (("XX", "YY"), ("I", "Q")), (("YY", "XX"), ("I", "Q")),
            (("XX", "YY"), ("Q", "I")), (("I", "Q"), ("XX", "YY")),
            (("RR", "LL"), ("I", "V")), (("RL", "LR"), ("Q", "U")),
            (("XY", "YX"), ("U", "V")), (C03.LIN, C03.STOKES),
            (C03.STOKES, C03.LIN)) for d in ("c8", "c16")]


VARIANTS = {k: (fn, v) for k, fn, v in variants()}


def memory(p):
    """ each kernel in turn with another, one process """
    name, i = p
    fn, todo = VARIANTS[name]
    for j in range(len(todo)):
        fn(todo[j])
        fn(todo[i])
    return name


def pairs_in(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def groups(tier):
    deep = tier == "thorough"
    fl = ("f4", "f8")
    g = []
    sizes = [(1, 1), (1, 17), (15, 16), (16, 15), (17, 33), (33, 1), (32, 32),
             (33, 65)]
    if deep:
        e = (1, 2, 15, 16, 17, 31, 32, 33, 64, 65)
        sizes = list(itertools.product(e, repeat=2))
    g.append(Group("phase", [(n, sizes, d) for n in (1, 3)
                             for d in itertools.product(fl, repeat=3)],
                   phases, "the GPU phase delay is exp(-2 pi i (ul+vm+w(n-1))"
                   " nu/c), for every order of the threads", "rows and "
                   "channels below, at and above the block sizes x all "
                   "precisions"))
    shapes = [(1,), (31,), (512,), (513,), (1025,), (2, 3), (2, 600),
              (2, 3, 4)]
    if deep:
        shapes += [(n,) for n in range(1, 70)] + [(1023,), (1024,), (2049,),
                                                  (3, 700)]
    g.append(Group("feeds", [(k, d, shapes) for k in ("linear", "circular",
                                                      None) for d in fl],
                   feeds, "the GPU feed rotation matrices", "feeds x "
                   "precisions x shapes around the block sizes"))
    g.append(Group("feeds-bad", [("kind", k) for k in ("", "Linear", "rl")] +
                   [("type", d) for d in ("i4", "c8")], feed_bad,
                   "unknown feeds and unsupported types are refused",
                   "listed"))
    small = [(1, 1, 1, 1), (5, 3, 3, 2), (24, 8, 4, 3), (25, 9, 4, 4),
             (33, 17, 5, 5)]
    if deep:
        small += [(r, c, 4, 3) for r in (2, 23, 31, 32, 48, 49, 65)
                  for c in (1, 2, 7, 8, 15, 16, 31, 32, 33)]
    cases = [(s, c, n, small, dt, off) for s in C16.SUBSETS
             for c in C16.CORRS for n in ((1, 3) if deep else (2,))
             for dt, off in (("c16", 7), ("c8", 0))]
    cases += [(s, c, 0, small[:2], "c16", 7) for s in C16.SUBSETS
              if s[0] or s[1] for c in C16.CORRS]
    g.append(Group("predict", cases, predict, "the GPU prediction is the sum "
                   "over sources of the measurement equation with the given "
                   "terms", "all subsets of terms x correlations x "
                   "precisions x sizes around the block and warp sizes"))
    g.append(Group("predict-bad", [("index", i) for i in range(3)] +
                   [("missing", n) for n in ("dde1_jones", "dde2_jones",
                                             "die1_jones", "die2_jones")] +
                   [("none", 0)], predict_bad, "incomplete pairs of terms "
                   "and wide indices are refused", "listed"))
    dims = [(1, 1, 1, 1), (2, 1, 1, 3), (2, 2, 17, 9), (1, 1, 33, 2),
            (1, 2, 2, 33)]
    if deep:
        dims += [(1, t, a, c) for t in (1, 2, 3) for a in (1, 16, 17, 32, 33)
                 for c in (1, 2, 7, 8, 15, 16, 31, 32, 34)]
    cubes = [(2, 2, 2), (4, 3, 5)]
    corrs = ((1,), (2,), (2, 2), (4,))
    cases = [(sh, c, dims, (d,) * 8) for sh in cubes for c in corrs
             for d in fl]
    cases += [((3, 3, 4), (2,), dims[:3], d)
              for d in itertools.product(fl, repeat=8)
              if deep or sum(x == "f4" for x in d) in (1, 7)]
    cases += [((2, 2, n), (c,), [(1, 1, 1, 40)], ("f8",) * 8)
              for n in ((16, 65, 127) if not deep else range(2, 128))
              for c in (1, 4)]
    cases += [((2, 3, n), (1,), [(1, 1, 1, c)], (d,) * 8)
              for n in (3, 127) for c in (1023, 1025) for d in fl]
    g.append(Group("beam", cases, beams, "the GPU beam values interpolate the "
                   "beam cube at the transformed source positions",
                   "cubes up to 127 channels x correlations x precisions x "
                   "sizes around the block and warp sizes"))
    g.append(Group("beam-zero", [(c, d) for c in corrs for d in fl],
                   beam_zero, "beams of zeros are zero", "correlations x "
                   "precisions"))
    g.append(Group("beam-bad", [(k, v, h) for h in (0, 1, 2) for k, v in
                                [("small", 0), ("small", 1), ("small", 2),
                                 ("nud", 128), ("nud", 200), ("corr", (3,)),
                                 ("corr", (2, 3))]], beam_bad, "cubes which "
                   "cannot be interpolated are refused whatever was computed "
                   "before", "kinds x histories"))
    s1 = schemas(2)
    s4 = schemas(4)
    st = 5 if deep else 61
    cases = [(x, (1, 2, 3), dt) for x in pairs_in(s1[::1 if deep else 3], 8)
             for dt in ("c16", "c8")]
    cases += [(x, (1, 3, 5), dt) for x in pairs_in(s4[::st], 8)
              for dt in (("c16", "c8") if deep else ("c16",))]
    ns = [1, 2, 3, 4, 5, 31, 32, 33, 511, 512, 513, 1025]
    if deep:
        ns = list(range(1, 70)) + ns[8:] + [1023, 1026]
    cases += [([(C03.LIN, C03.STOKES)], ns, "c16"),
              ([(C03.STOKES, C03.CIRC)], ns, "c8"),
              ([(("I", "Q"), ("XX", "YY"))], ns, "c16"),
              ([(("RL", "LR"), ("Q", "U"))], ns, "c8")]
    g.append(Group("convert", cases, convert_case, "the GPU conversion of "
                   "polarisations follows their definitions", "ordered "
                   "schemas of 2 and 4 elements x numbers of sources around "
                   "the group, warp and block sizes"))
    g.append(Group("convert-shapes", [
        (lead, a, b, how, dt) for lead in ((3,), (2, 3), (1, 1), ())
        for a in ((4,), (2, 2)) for b in ((4,), (2, 2))
        for how in ("name", "code", "mixed") for dt in ("c16",)],
        convert_shapes, "schemas may be nested and written as codes",
        "leading axes x nestings x spellings"))
    g.append(Group("convert-bad", [
        (i, o, n, h) for h in (0, 1) for i, o, n in
        [(C03.LIN, C03.STOKES, 3), (C03.LIN, C03.STOKES, 8),
         (C03.LIN, C03.STOKES, 2)]] + [
        (i, o, len(i), 0) for i, o in
        [(("XX", "XY"), ("I", "Q")), (C03.LIN, ("I", "Q")),
         (("XX", "YY"), ("I", "ZZ")), (("I", "Q"), ("XX", "RR"))] + [
            (("XX", "YY", "I", "Q"), o) for o in
            itertools.permutations(("I", "Q", "XX", "YY"))]],
        convert_bad, "impossible conversions are refused", "listed"))
    g.append(Group("transpose", [
        (k, dt, sorted({k * ((n + k - 1) // k) for n in
                        (1, k, 2 * k, 31, 32, 33, 63, 64, 65, 130)}))
        for k in (1, 2, 4, 8, 16, 32) for dt in ("i4", "f4", "f8", "c8",
                                                 "c16")
        if deep or k <= 8 or dt == "f4"], transpose, "the warp transpose "
        "macro transposes", "group sizes x types x partial warps"))
    g.append(Group("memory", [(n, i) for n in sorted(VARIANTS) for i in
                              range(len(VARIANTS[n][1]) if deep else 1)],
                   memory, "kernels generated before do not stand in for "
                   "others", "all variants of each function, in turn with "
                   "one of them"))
    g.append(Group("transpose-bad", [(k, t) for k in (0, 3, 5, 6, 7, 12)
                                     for t in ("float", "double2")] +
                   [(2, "float5"), (2, "float8")], transpose_bad,
                   "unsupported group sizes are refused", "listed"))
    return g
