"""C23: streamed reductions."""
import itertools
import pickle
import sys

import numpy as np
import dask
import dask.array as da
from dask.core import get_dependencies
from dask.highlevelgraph import HighLevelGraph

import fake_nifty
sys.modules["nifty_gridder"] = fake_nifty

from core import Group, call, check, raises, schedule, state    # noqa
from refs import compositions, cut, generic                          # noqa
import dsched                                                   # noqa
from africanus.gridding.nifty import dask as nd                 # noqa
from africanus.rime import dask_predict as dp                   # noqa
from africanus.rime import predict_vis                          # noqa

ASSUMPTIONS = [
    "nifty_gridder is not installed: a stand-in which sums the samples it is "
    "given into a grid (accumulating in place into a grid passed in, as the "
    "real module does) and records them takes its place",
    "all task orders of a graph are enumerated up to the stated cap"]


def closed(coll, what):
    """ the graph is closed, and its layers tell the truth about it """
    g = coll.__dask_graph__()
    dsk = dict(g)
    for k in dsk:
        for d in get_dependencies(dsk, k):
            check(d in dsk, "%s depends on %s, which does not exist (%s)", k,
                  d, what)
    for k in dask.core.flatten(coll.__dask_keys__()):
        check(k in dsk, "output %s does not exist (%s)", k, what)
    used = set()
    for k in dsk:
        used |= set(x for t in [dsk[k]] for x in refs(t, dsk))
    out = set(dask.core.flatten(coll.__dask_keys__()))
    for name, layer in g.layers.items():
        m = getattr(layer, "mapping", layer)
        if not isinstance(m, (nd.GridStreamReduction, nd.FinalGridReduction,
                              dp.LinearReduction)):
            continue
        keys = list(m)
        check(len(keys) == len(set(keys)), "duplicate keys (%s)", what)
        check(len(m) == len(keys), "%s reports %d tasks but has %d (%s)",
              type(m).__name__, len(m), len(keys), what)
        for k in keys:
            check(k in m and m[k] == dsk[k], "membership of %s (%s)", k, what)
            check(k in used or k in out, "the result of %s is never used "
                  "(%s)", k, what)
        check(("nothing", 0, 0) not in m, "claims foreign keys (%s)", what)
        e = raises(lambda: m[("nothing", 0, 0)])
        check(isinstance(e, KeyError), "%r for a missing key", e)
        if "Grid" in type(m).__name__ or True:
            fresh = pickle.loads(pickle.dumps(m))
            check(set(fresh) == set(m) and len(fresh) == len(m),
                  "pickling changes the keys (%s)", what)
        state(len(keys))
    return dsk


def refs(task, dsk):
    out, stack = [], [task]
    while stack:
        t = stack.pop()
        if isinstance(t, (list, dict)):
            stack.extend(t.values() if isinstance(t, dict) else t)
            continue
        try:
            if t in dsk:
                out.append(t)
                continue
        except TypeError:
            pass
        if isinstance(t, tuple):
            stack.extend(t)
    return out


# ------------------------------------------------------------------ nifty
def problem(nrow, nchan, ncorr, dt="c16", salt=0):
    uvw = generic((nrow, 3), "f8", 1 + salt, -4, 4)
    freq = np.linspace(1., 1.5, nchan)
    vis = generic((nrow, nchan, ncorr), dt, 2 + salt)
    wgt = generic((nrow, nchan, ncorr), "f8", 3 + salt, .5, 2)
    return uvw, freq, vis, wgt


def flags_of(kind, shape):
    f = np.zeros(shape, bool)
    if kind == "all":
        f[:] = True
    elif kind == "some":
        f.reshape(-1)[::3] = True
    elif kind == "row":
        f[shape[0] // 2] = True
    return f


def grid_ref(uvw, freq, vis, flag, wgt, gc, wmin=-1e30, wmax=1e30):
    g = np.zeros((gc.Nu(), gc.Nv(), vis.shape[2]), complex)
    bl = fake_nifty.Baselines(uvw, freq)
    seen = []
    for r, c, k in np.ndindex(*vis.shape):
        if not flag[r, c, k] and wmin <= uvw[r, 2] * freq[c] < wmax:
            g[fake_nifty.cell(bl, gc, r, c) + (k,)] += vis[r, c, k] * \
                wgt[r, c, k]
            seen.append(("grid", float(uvw[r, 0]), c, complex(vis[r, c, k])))
    return g, seen


def lazy(a, chunks):
    return da.from_array(a, chunks=chunks)


def limits(w, uvw):
    if w is True:
        return {"wmin": -2., "wmax": 1.5}
    if not w:
        return {}
    k = 1e9 if "far" in w else 1.
    uvw[:, 2] *= k
    return {n: {"wmin": -2., "wmax": 1.5}[n] * k for n in ("wmin", "wmax")
            if n in w}


WLIMITS = (("far",), ("far", "wmin", "wmax"), ("wmin",), ("wmax",),
           ("far", "wmin"), ("far", "wmax"))


def gridding(p):
    rc, nchan, corrs, streams, flags, w, dt, orders = p
    nrow, ncorr = sum(rc), sum(corrs)
    uvw, freq, vis, wgt = problem(nrow, nchan, ncorr, dt)
    flag = flags_of(flags, vis.shape)
    gcw = nd.grid_config(5, 4, 1e-7, 1.5, 2.5)
    gc = gcw.object
    kw = limits(w, uvw)
    if streams != "default":
        kw["streams"] = streams
    full = (rc, (nchan,), corrs)
    args = (lazy(vis, full), lazy(uvw, (rc, (3,))), lazy(flag, full),
            lazy(wgt, full), lazy(freq, ((nchan,),)), gcw)
    g = call(nd.grid, *args, **kw)
    want, seen = grid_ref(uvw, freq, vis, flag, wgt, gc,
                          kw.get("wmin", -1e30), kw.get("wmax", 1e30))
    what = "rows %s correlations %s streams %s" % (rc, corrs, streams)
    check(g.shape == want.shape, "declares shape %s, expected %s (%s)",
          g.shape, want.shape, what)
    closed(g, what)
    keep = vis.copy(), wgt.copy(), uvw.copy()

    def judge(got):
        schedule()
        check(got.dtype == g.dtype, "declares %s but is %s (%s)", g.dtype,
              got.dtype, what)
        check(np.abs(got - want).max() < 1e-10, "grid differs by %s (%s)",
              np.abs(got - want).max(), what)
        check(sorted(fake_nifty.LOG, key=repr) == sorted(seen, key=repr),
              "%d samples gridded, expected each of %d once (%s)",
              len(fake_nifty.LOG), len(seen), what)
    if orders:
        gen = dsched.all_orders(g, orders, optimize=False)
        while True:
            del fake_nifty.LOG[:]
            got, order = next(gen)
            if got is None:
                break
            judge(got)
    else:
        for order in ("first", "last"):
            for opt in (True, False):
                del fake_nifty.LOG[:]
                judge(dsched.compute(g, order, optimize=opt)[0])
    for a, b in zip((vis, wgt, uvw), keep):
        check((a == b).all(), "an argument was changed (%s)", what)
    # the dirty image of the grid
    d = call(nd.dirty, g, gcw)
    wd = (want[1:-1, 2:-2] * (2 + 1j)).real
    check(d.shape == wd.shape and d.dtype == wd.dtype, "dirty image declares "
          "%s %s (%s)", d.shape, d.dtype, what)
    got = dsched.compute((d * 2).sum(axis=2))[0]
    check(np.abs(got - 2 * wd.sum(2)).max() < 1e-10, "dirty image (%s)", what)
    return len(seen)


def together(p):
    """ two graphs computed as one share nothing they should not """
    rc, s1, s2, same, stable = p
    nrow = sum(rc)
    gcw = nd.grid_config(5, 4, 1e-7, 1.5, 2.5)
    if stable:
        # the same configuration is recognised as such by dask
        gcw.object.__class__ = fake_nifty.StableConfig
    wants, gs = [], []
    for salt, s in ((0, s1), (0 if same == "data" else 50, s2)):
        uvw, freq, vis, wgt = problem(nrow, 2, 2, "c16", salt)
        if same == "vis":
            vis = problem(nrow, 2, 2)[2]
        if same == "weights" and salt:
            uvw, freq, vis, _ = problem(nrow, 2, 2)
        flag = flags_of("some" if salt else "none", vis.shape)
        full = (rc, (2,), (2,))
        gs.append(call(nd.grid, lazy(vis, full), lazy(uvw, (rc, (3,))),
                       lazy(flag, full), lazy(wgt, full),
                       lazy(freq, ((2,),)), gcw, streams=s))
        wants.append(grid_ref(uvw, freq, vis, flag, wgt, gcw.object)[0])
    for order in ("first", "last"):
        res, _ = dsched.compute(gs, order)
        schedule()
        for got, want in zip(res, wants):
            check(np.abs(got - want).max() < 1e-10, "computed together, "
                  "streams %s, same %s", (s1, s2), same)
    tot = dsched.compute(gs[0] + 3 * gs[1])[0]
    check(np.abs(tot - wants[0] - 3 * wants[1]).max() < 1e-10, "combined")
    closed(gs[0] + gs[1], "both")


def degridding(p):
    rc, nchan, corrs, gcorr, flags, w = p
    nrow, ncorr = sum(rc), sum(corrs)
    uvw, freq, vis, wgt = problem(nrow, nchan, ncorr)
    flag = flags_of(flags, vis.shape)
    gcw = nd.grid_config(5, 4, 1e-7, 1.5, 2.5)
    gc = gcw.object
    image = generic((5, 4, ncorr), "c16", 9)
    kw = limits(w, uvw)
    m = call(nd.model, lazy(image, ((5,), (4,), gcorr)), gcw)
    grid = np.zeros((gc.Nu(), gc.Nv(), ncorr), complex)
    grid[1:-1, 2:-2] = image * (1 - 3j)
    check(m.shape == grid.shape and m.dtype == grid.dtype, "model declares "
          "%s %s", m.shape, m.dtype)
    check(np.abs(dsched.compute(m)[0] - grid).max() < 1e-12, "model grid")
    v = call(nd.degrid, m, lazy(uvw, (rc, (3,))),
             lazy(flag, (rc, (nchan,), corrs)),
             lazy(wgt, (rc, (nchan,), corrs)), lazy(freq, ((nchan,),)), gcw,
             **kw)
    bl = fake_nifty.Baselines(uvw, freq)
    want = np.zeros(vis.shape, complex)
    seen = []
    for r, c, k in np.ndindex(*vis.shape):
        if not flag[r, c, k] and kw.get("wmin", -1e30) <= uvw[r, 2] * freq[
                c] < kw.get("wmax", 1e30):
            want[r, c, k] = grid[fake_nifty.cell(bl, gc, r, c) + (k,)]
            seen.append(("degrid", float(uvw[r, 0]), c, 0))
    what = "rows %s correlations %s" % (rc, corrs)
    check(v.shape == want.shape and v.chunks[0] == rc, "declares %s (%s)",
          v.chunks, what)
    for order in ("first", "last"):
        del fake_nifty.LOG[:]
        got = dsched.compute(v, order)[0]
        schedule()
        check(got.shape == want.shape and np.abs(got - want).max() < 1e-12,
              "degridded (%s)", what)
        check(sorted(fake_nifty.LOG) == sorted(seen), "%d samples degridded, "
              "expected each of %d once (%s)", len(fake_nifty.LOG),
              len(seen), what)
    got = dsched.compute((v + 1).sum(axis=0))[0]
    check(np.abs(got - (want + 1).sum(0)).max() < 1e-10, "larger graph (%s)",
          what)


def nifty_real(p):
    """ real images have complex models """
    gcw = nd.grid_config(5, 4, 1e-7, 1.5, 2.5)
    image = generic((5, 4, 1), p[0], 9)
    m = call(nd.model, lazy(image, (5, 4, 1)), gcw)
    got = dsched.compute(m)[0]
    check(m.dtype == got.dtype and np.iscomplexobj(got), "declares %s, is %s",
          m.dtype, got.dtype)


def config(p):
    gc = call(nd.grid_config, *p)
    o = gc.object
    full = p + (1024, 1024, 2e-13, 2.0, 2.0)[len(p):]
    vals = (o.Nxdirty(), o.Nydirty(), o.Epsilon(), o.Pixsize_x(),
            o.Pixsize_y())
    check(vals == full, "configured %s, requested %s", vals, full)
    g2 = pickle.loads(pickle.dumps(gc))
    o = g2.object
    vals = (o.Nxdirty(), o.Nydirty(), o.Epsilon(), o.Pixsize_x(),
            o.Pixsize_y())
    check(g2 is not gc and vals == full, "pickled %s, was %s", vals, full)
    t = dask.base.tokenize
    check(t(gc) == t(g2), "token changes with pickling")
    for i in range(5):
        q = list(full)
        q[i] = q[i] * 2
        check(t(call(nd.grid_config, *q)) != t(gc), "different configurations "
              "share a token")


def rejected(p):
    which, fn = p
    uvw, freq, vis, wgt = problem(4, 2, 1)
    flag = flags_of("none", vis.shape)
    ok = ((2, 2), (2,), (1,))
    ch = {"vis": ok, "flags": ok, "weights": ok, "freq": ((2,),),
          "uvw": ((2, 2), (3,))}
    name, kind = which
    if name == "freq":
        ch["freq"] = ((1, 1),)
    elif kind == "chan":
        ch[name] = ((2, 2), (1, 1), (1,))
    else:
        ch[name] = ((3, 1),) + ch[name][1:]
    gcw = nd.grid_config(5, 4, 1e-7, 1.5, 2.5)
    a = [lazy(vis, ch["vis"]), lazy(uvw, ch["uvw"]), lazy(flag, ch["flags"]),
         lazy(wgt, ch["weights"]), lazy(freq, ch["freq"])]
    if fn == "degrid":
        grid = lazy(np.ones((7, 8, 1), complex), (7, 8, 1))
        todo = lambda: dsched.compute(nd.degrid(grid, *a[1:], gcw))  # noqa
    else:
        todo = lambda: dsched.compute(nd.grid(  # noqa
            *a, gcw, streams=None if fn == "grid" else 2))
    e = raises(todo)
    check(e is not None, "chunks that disagree are accepted")


# ---------------------------------------------------------- LinearReduction
def linear(p):
    """ every block count and feed position, with symbolic blocks """
    ns, nr, nc, feed, axis_of, literal = p
    # arguments: full (s, r, c), partial (s, c), row only, chan only
    args = [("A", ("s", "r", "c")), ("B", ("s", "c")), ("R", ("r",)),
            ("C", ("c",)), ("X", ("a", "r"))]
    numblocks = {"A": (ns, nr, nc), "B": (ns, nc), "R": (nr,), "C": (nc,),
                 "X": (1, nr)}
    if axis_of == "partial":
        args = args[1:]
        del numblocks["A"]
    if literal:
        args.append((17, None))
    args.insert(feed, (None, None))

    def f(*a):
        return ("f",) + a
    lr = dp.LinearReduction(f, ("r", "c"), args, numblocks, feed_index=feed,
                            axis="s")
    dsk = dict(lr)
    what = "%s" % (p,)
    check(len(lr) == len(dsk), "reports %d tasks, has %d (%s)", len(lr),
          len(dsk), what)
    check(len(dsk) == ns * nr * nc, "%d tasks, expected %d (%s)", len(dsk),
          ns * nr * nc, what)
    outs = set(itertools.product([lr.name], range(nr), range(nc)))
    check(outs <= set(dsk), "missing outputs (%s)", what)
    check(all(k in lr for k in dsk), "membership")

    def value(task):
        if isinstance(task, tuple) and task and task[0] is f:
            return ("f",) + tuple(value(t) for t in task[1:])
        if isinstance(task, tuple) and task in dsk:
            return value(dsk[task])
        return task

    def want(s, r, c):
        out = []
        for i, (n, ind) in enumerate(args):
            if i == feed:
                out.append(None if s == 0 else want(s - 1, r, c))
            elif ind is None:
                out.append(n)
            else:
                out.append((n,) + tuple({"s": s, "r": r, "c": c, "a": 0}[d]
                                        for d in ind))
        return ("f",) + tuple(out)
    used = {}
    for _, r, c in outs:
        got = value(dsk[(lr.name, r, c)])
        check(got == want(ns - 1, r, c), "output %s is %s, expected %s (%s)",
              (r, c), got, want(ns - 1, r, c), what)
    for k, t in dsk.items():
        for x in t[1:]:
            if isinstance(x, tuple) and x in dsk:
                used[x] = used.get(x, 0) + 1
    for k in dsk:
        check(used.get(k, 0) == (0 if k in outs else 1), "the result of %s "
              "is used %d times (%s)", k, used.get(k, 0), what)
    fresh = dp.LinearReduction(f, ("r", "c"), args, numblocks,
                               feed_index=feed, axis="s")
    check(len(fresh) == len(dsk), "length before expansion (%s)", what)
    nb2 = {k: tuple(v) for k, v in numblocks.items()}
    other = [(n + "2" if n == "R" else n, i) for n, i in args]
    nb2["R2"] = nb2.pop("R")
    lr2 = dp.LinearReduction(f, ("r", "c"), other, nb2, feed_index=feed,
                             axis="s")
    check(not (set(lr2) & set(dsk)), "tasks shared between different inputs")

    def g(*a):
        return ("g",) + a
    g.__name__, g.__qualname__ = f.__name__, f.__qualname__
    dif = [("function", g, args, numblocks, feed),
           ("literal", f, args + [(18, None)], numblocks, feed)]
    if literal:
        dif.append(("literal", f, [(18 if n == 17 else n, i)
                                   for n, i in args], numblocks, feed))
    j = (feed + 1) % len(args)
    moved = [a for i, a in enumerate(args) if i != feed]
    moved.insert(j, (None, None))
    dif.append(("feed", f, moved, numblocks, j))
    dif.append(("blocks", f, args, {
        k: tuple(b + 1 if d == "s" else b for b, d in zip(v, dict(
            (n, i) for n, i in args if isinstance(n, str))[k]))
        for k, v in numblocks.items()}, feed))
    for why, fn, ar, nb, fi in dif:
        lr3 = dp.LinearReduction(fn, ("r", "c"), ar, nb, feed_index=fi,
                                 axis="s")
        both = set(lr3) & set(dsk)
        check(not both, "tasks shared between reductions with a different "
              "%s: %s (%s)", why, sorted(both)[:2], what)
    state(len(dsk))


def linear_bad(p):
    kind, = p
    args = [("A", ("s", "r", "a")), (None, None)]
    kw = {"feed_index": 1, "axis": "s"}
    out = ("r",)
    nb = {"A": (2, 2, 1)}
    if kind == "no-axis":
        del kw["axis"]
    elif kind == "axis-out":
        out = ("s", "r")
    elif kind == "chunked-contraction":
        nb = {"A": (2, 2, 2)}
    e = raises(lambda: dict(dp.LinearReduction(max, out, args, nb, **kw)))
    check(isinstance(e, ValueError), "%s gives %r", kind, e)


def stream_predict(p):
    """ streamed prediction as a graph """
    sc, rc, cc, inputs, full, cap = p
    ns, nr, nc = sum(sc), sum(rc), sum(cc)
    corr = (2, 2) if full else (2,)
    # one time per row chunk
    tc = (1,) * len(rc)
    time = np.repeat(np.arange(len(rc)), rc)
    tl = lazy(np.zeros(nr, int), (rc,))        # index within each chunk
    a1 = np.arange(nr) % 2
    a2 = (np.arange(nr) + 1) % 2 + 1
    na = 3
    ch = tuple((k,) for k in corr)
    jones = generic((ns, len(rc), na, nc) + corr, "c16", 4)
    coh = generic((ns, nr, nc) + corr, "c16", 5)
    die = generic((len(rc), na, nc) + corr, "c16", 6)
    base = generic((nr, nc) + corr, "c16", 7)
    kw, nkw = {}, {}
    if "dde" in inputs:
        j = lazy(jones, (sc, tc, (na,), cc) + ch)
        kw.update(dde1_jones=j, dde2_jones=j)
        nkw.update(dde1_jones=jones, dde2_jones=jones)
    if "coh" in inputs:
        kw["source_coh"] = lazy(coh, (sc, rc, cc) + ch)
        nkw["source_coh"] = coh
    if "die" in inputs:
        j = lazy(die, (tc, (na,), cc) + ch)
        kw.update(die1_jones=j, die2_jones=j)
        nkw.update(die1_jones=die, die2_jones=die)
    if "base" in inputs:
        kw["base_vis"] = lazy(base, (rc, cc) + ch)
        nkw["base_vis"] = base
    want = predict_vis(time, a1, a2, **nkw)
    keep = jones.copy(), coh.copy(), die.copy(), base.copy()
    v = call(dp.predict_vis, tl, lazy(a1, (rc,)), lazy(a2, (rc,)), **kw,
             streams=True)
    what = "%s" % (p,)
    closed(v, what)

    def judge(got):
        schedule()
        check(got.shape == want.shape and np.abs(got - want).max() < 1e-10,
              "streamed prediction off by %s (%s)",
              np.abs(got - want).max(), what)
    if cap:
        for got, order in dsched.all_orders(v, cap, optimize=False):
            if got is None:
                break
            judge(got)
    else:
        for order in ("first", "last"):
            judge(dsched.compute(v, order)[0])
        # computed again, and inside a larger graph
        judge(dsched.compute(v)[0])
        tot = dsched.compute((v * 2).sum(axis=0))[0]
        check(np.abs(tot - 2 * want.sum(0)).max() < 1e-9, "larger graph (%s)",
              what)
    for a, b in zip((jones, coh, die, base), keep):
        check((a == b).all(), "an argument was changed (%s)", what)


def groups(tier):
    deep = tier == "thorough"
    g = []
    n = 7 if deep else 5
    cases = [(rc, 2, (1,), s, "some", False, "c16", 0)
             for k in range(1, n + 1) for rc in compositions(k)
             for s in ("default", None) + tuple(range(1, n + 2))]
    cases += [(rc, nchan, corrs, s, fl, w, dt, 0)
              for rc in ((1,), (2, 1), (1, 1, 2)) for nchan in (1, 2)
              for corrs in ((1, 1), (2,), (2, 1)) for s in (None, 1, 2, 3)
              for fl in ("none", "some", "row", "all")
              for w in (False, True) for dt in ("c8", "c16")
              if dt == "c16" or (fl == "some" and not w)]
    cases += [(rc, 2, (2,), s, "some", w, "c16", 0)
              for rc in ((3,), (2, 1), (1, 1, 2)) for s in (None, 1, 2)
              for w in WLIMITS]
    g.append(Group("grid", cases, gridding, "every sample is gridded exactly "
                   "once for every chunking and number of streams",
                   "row chunkings of <= %d rows x streams None, 1..%d" % (
                       n, n + 1)))
    cap = 40000 if deep else 4000
    cases = [(rc, 1, (1,), s, "none", False, "c16", cap)
             for rc in ((1,), (1, 1), (1, 2)) + (((1, 1, 1),) if deep else ())
             for s in (None, 1, 2, 3)]
    g.append(Group("grid-orders", cases, gridding, "every task order gives "
                   "the same grid", "all topological orders up to %d" % cap))
    g.append(Group("together", [(rc, a, b, same, stable)
                                for rc in ((1, 2), (1, 1, 1), (1,) * 5)
                                for a in (None, 1, 2, 3)
                                for b in (None, 1, 2, 3)
                                for same in ("data", "vis", "weights", "no")
                                for stable in (False, True)],
                   together, "several grids in one graph", "all pairs"))
    g.append(Group("degrid", [(rc, nchan, corrs, gcorr, fl, w)
                              for k in (1, 2, 3, 4) for rc in compositions(k)
                              for nchan in (1, 2)
                              for corrs, gcorr in (((1,), (1,)),
                                                   ((2,), (2,)),
                                                   ((1, 1), (2,)),
                                                   ((2,), (1, 1)))
                              for fl in ("none", "some", "all")
                              for w in (False, True)] + [
                                  (rc, 2, (2,), (2,), "some", w)
                                  for rc in ((3,), (2, 1), (1, 1, 2))
                                  for w in WLIMITS], degridding,
                   "every sample is degridded exactly once", "<= 4 rows"))
    g.append(Group("model-types", [(t,) for t in ("f4", "f8", "c8", "c16")],
                   nifty_real, "models declare their type", "4 types"))
    g.append(Group("config", [(), (7,), (7, 9), (7, 9, 1e-5),
                              (7, 9, 1e-5, 3.), (7, 9, 1e-5, 3., 5.)],
                   config, "configurations survive pickling", "6"))
    g.append(Group("rejected", [
        (w, f) for f in ("grid", "stream", "degrid") for w in (
            ("freq", "chan"), ("vis", "chan"), ("flags", "chan"),
            ("weights", "chan"), ("vis", "row"), ("flags", "row"),
            ("weights", "row"), ("uvw", "row"))
        if f != "degrid" or w[0] not in ("vis", "weights")], rejected,
        "chunkings which would lose samples are rejected", "all"))
    m = (5, 4, 4) if deep else (4, 3, 3)
    g.append(Group("linear", [
        (s, r, c, f, a, lit) for s in range(1, m[0] + 1)
        for r in range(1, m[1] + 1) for c in range(1, m[2] + 1)
        for f in range(5) for a in ("full", "partial")
        for lit in (False, True)], linear, "linear reductions chain every "
        "block once, in order", "<= %d x %d x %d blocks, all feed positions"
        % m))
    g.append(Group("linear-bad", [(k,) for k in ("no-axis", "axis-out",
                                                 "chunked-contraction")],
                   linear_bad, "impossible reductions are rejected", "3"))
    inputs = [("dde",), ("coh",), ("dde", "coh"), ("dde", "coh", "die"),
              ("coh", "base"), ("dde", "coh", "base", "die")]
    cases = [(sc, rc, cc, i, full, 0) for ns in (1, 2, 3, 4)
             for sc in compositions(ns) for rc in ((2,), (1, 2))
             for cc in ((2,), (1, 1)) for i in inputs
             for full in (False, True)]
    cases += [((1, 1), (1,), (1,), i, False, cap // 4) for i in inputs]
    g.append(Group("predict", cases, stream_predict, "streamed predictions",
                   "all chunkings of <= 4 sources; all orders of the small "
                   "ones"))
    sizes = (8, 9, 16, 17, 33) + ((65, 129) if deep else ())
    cases = [(cut(n, k), 2, (1,), s, "some", w, "c16", 0)
             for n in sizes for k in (1, 2, 3, 7)
             for s in ("default", None, 1, 2, 3, 4, 5, 8, 9, 33)
             for w in (False, True) if not w or s in (2, 3)]
    cases += [(cut(5, 2), nchan, corrs, s, "some", False, "c16", 0)
              for nchan in (3, 4, 5, 8, 17)
              for corrs in ((4,), (1,) * 4, (2, 2), (3,), (5,))
              for s in (None, 1, 2)]
    g.append(Group("grid-ladder", cases, gridding, "many chunks, streams, "
                   "channels and correlations", "rows to %d, streams to 33"
                   % sizes[-1]))
    cases = [(cut(n, k), 2, (1,), (1,), "some", w) for n in sizes
             for k in (1, 2, 3, 7) for w in (False, True)]
    cases += [(cut(5, 2), nchan, corrs, gc, "some", False)
              for nchan in (3, 4, 5, 8, 17)
              for corrs, gc in (((4,), (4,)), ((1,) * 4, (4,)),
                                ((2, 2), (4,)), ((2, 2), (2, 2)),
                                ((5,), (5,)))]
    g.append(Group("degrid-ladder", cases, degridding, "many chunks, "
                   "channels and correlations", "rows to %d" % sizes[-1]))
    m = (5, 8, 9, 10, 11, 16, 17, 33) + ((65, 101) if deep else ())
    g.append(Group("linear-ladder", [
        t + (f, a, False) for n in m
        for t in ((n, 1, 1), (n, 2, 3), (2, n, 1), (3, 1, n), (2, n, n))
        for f in (0, 2, 4) for a in ("full", "partial")], linear,
        "many blocks", "<= %d blocks per axis" % m[-1]))
    cases = []
    for n in (8, 9, 10, 11, 12, 17) + ((33,) if deep else ()):
        for k in (1, 2):
            for i in inputs:
                cases += [(cut(n, k), (1, 2), (2,), i, False, 0),
                          ((1, 2), cut(n, k), (2,), i, False, 0),
                          ((2, 1), (2,), cut(n, k), i, True, 0)]
    g.append(Group("predict-ladder", cases, stream_predict, "streamed "
                   "predictions of many blocks", "<= 17 (33) blocks"))
    return g
