"""C02: chunked wgridder operators, all chunkings and task orders."""
import itertools

import numpy as np

from core import Group, HarnessError, call, check, schedule, state, transition
from refs import compositions, generic
from wref import Problem
from C01 import OPS, SINGLE, compare, uvw_for
import dsched

import dask.array as da
from africanus.gridding.wgridder import (dirty as np_dirty,
                                         hessian as np_hessian,
                                         model as np_model,
                                         residual as np_residual)
from africanus.gridding.wgridder.dask import (dirty as da_dirty,
                                              hessian as da_hessian,
                                              model as da_model,
                                              residual as da_residual)

ASSUMPTIONS = ["channel chunks hold whole bands; image axes and the uvw axis "
               "are single chunks",
               "agreement with the in-memory operator within the requested "
               "accuracy of both"]
NP = {"model": np_model, "dirty": np_dirty, "residual": np_residual,
      "hessian": np_hessian}
DA = {"model": da_model, "dirty": da_dirty, "residual": da_residual,
      "hessian": da_hessian}


def build(nrow, nchan, bands, nx, ny, cell, ctype, use_w, use_f, salt=0):
    freq = 1e9 * (1.0 + 0.17 * np.arange(nchan))
    d = {"uvw": uvw_for(nrow, freq, cell, 31 + salt),
         "freq": freq,
         "image": generic((len(bands), nx, ny), SINGLE[ctype], 32 + salt),
         "vis": generic((nrow, nchan), ctype, 33 + salt),
         "fbi": np.array([b[0] for b in bands]),
         "fbc": np.array([b[1] for b in bands]),
         "weights": (generic((nrow, nchan), SINGLE[ctype], 34, 0.1, 2.0)
                     if use_w else None),
         "flag": ((generic((nrow, nchan), "float64", 35) > -0.4)
                  .astype(np.uint8) if use_f else None)}
    return d


def args_of(op, d, nx, ny, cell):
    if op == "dirty":
        return (d["uvw"], d["freq"], d["vis"], d["fbi"], d["fbc"], nx, ny,
                cell)
    if op == "residual":
        return (d["uvw"], d["freq"], d["image"], d["vis"], d["fbi"],
                d["fbc"], cell)
    return (d["uvw"], d["freq"], d["image"], d["fbi"], d["fbc"], cell)


def lazy(d, rows, chans, bchunks):
    ch = {"uvw": (rows, (3,)), "freq": (chans,), "vis": (rows, chans),
          "weights": (rows, chans), "flag": (rows, chans),
          "fbi": (bchunks,), "fbc": (bchunks,)}
    ch["image"] = (bchunks,) + tuple((s,) for s in d["image"].shape[1:])
    return {k: None if v is None else da.from_array(v, chunks=ch[k])
            for k, v in d.items()}


def evaluate(op, d, rows, chans, bchunks, bands, nx, ny, cell, kw, ctype,
             eps, what, orders):
    kw = dict(kw)
    if op == "model":
        kw.pop("double_accum", None)
    keep = {k: None if v is None else v.copy() for k, v in d.items()}
    opt = {"weights": d["weights"], "flag": d["flag"]}
    want = call(NP[op], *args_of(op, d, nx, ny, cell), **dict(opt, **kw))
    L = lazy(d, rows, chans, bchunks)
    lopt = {"weights": L["weights"], "flag": L["flag"]}
    z = call(DA[op], *args_of(op, L, nx, ny, cell), **dict(lopt, **kw))
    prob = Problem(d["uvw"], d["freq"], bands, nx, ny, cell, kw.get("celly"),
                   d["weights"], d["flag"], kw.get("do_wstacking", True))
    check(z.shape == want.shape, "%s: declared shape %s, computed in memory "
          "%s", what, z.shape, want.shape)
    check(z.dtype == want.dtype, "%s: declared precision %s, in memory %s",
          what, z.dtype, want.dtype)
    if op == "model":
        check(z.chunks == (rows, chans), "%s: declared chunks %s", what,
              z.chunks)
    else:
        check(z.chunks[0] == bchunks, "%s: declared band chunks %s, bands "
              "are chunked %s", what, z.chunks, bchunks)
    n = 0
    if orders == "ends":
        runs = [dsched.compute(z, "first"), dsched.compute(z, "last")]
    else:
        runs = dsched.all_orders(z, orders)
    first = None
    for got, order in runs:
        if got is None:
            break
        n += 1
        schedule()
        transition(len(order.trace))
        got = np.asarray(got)
        compare(op, got, prob, d["image"], d["vis"], eps, ctype,
                "%s, task order %s" % (what, order.choices))
        if first is None:
            first = got
        check(np.allclose(got, first, rtol=1e-6, atol=1e-6 * (
            np.abs(first).max() if first.size else 1)),
              "%s: task order %s changes the result", what, order.choices)
        for k, v in keep.items():
            check(v is None or np.array_equal(v, d[k]), "%s: input %s was "
                  "modified under task order %s", what, k, order.choices)
    # each block has the size that was declared
    if op == "model":
        for r, c in itertools.product(range(len(rows)), range(len(chans))):
            blk = z.blocks[r, c].compute(scheduler="sync")
            check(blk.shape == (rows[r], chans[c]), "%s: block %s has shape "
                  "%s", what, (r, c), blk.shape)
    else:
        for b in range(len(bchunks)):
            blk = z.blocks[b].compute(scheduler="sync")
            check(blk.shape == (bchunks[b], nx, ny), "%s: block %d has shape"
                  " %s", what, b, blk.shape)
    return n


def chunk_case(p):
    bands, nchan, bchunks, chans, rows, ctype, use_w, use_f, orders = p
    nx, ny, cell = 4, 6, 0.02
    d = build(sum(rows), nchan, bands, nx, ny, cell, ctype, use_w, use_f)
    eps = 1e-5 if ctype == "complex64" else 1e-9
    n = 0
    for op in OPS:
        what = "lazy %s(bands %s, row chunks %s, channel chunks %s, %s%s%s)" \
            % (op, list(bands), rows, chans, ctype,
               ", weights" if use_w else "", ", mask" if use_f else "")
        n += evaluate(op, d, rows, chans, bchunks, bands, nx, ny, cell,
                      {"epsilon": eps}, ctype, eps, what, orders)
    return len(rows), len(chans), n if orders != "ends" else 0


def option_case(p):
    rows, ctype, kw, use_w, use_f, nx, ny = p
    kw = dict(kw)
    bands = ((0, 2), (2, 1))
    d = build(sum(rows), 3, bands, nx, ny, 0.015, ctype, use_w, use_f, 3)
    eps = kw.get("epsilon", 1e-5)
    for op in OPS:
        for bch, ch in (((1, 1), (2, 1)), ((2,), (3,))):
            evaluate(op, d, rows, ch, bch, bands, nx, ny, 0.015, kw, ctype,
                     eps, "lazy %s(%s, row chunks %s, channel chunks %s)" %
                     (op, kw, rows, ch), "ends")
    return tuple(sorted(kw))


def spaces(nchan, gaps):
    """ (bands, band chunking, channel chunking) """
    out = []
    for comp in compositions(nchan):
        st = np.concatenate([[0], np.cumsum(comp)[:-1]]).astype(int)
        full = [(int(s), int(c)) for s, c in zip(st, comp)]
        subs = [tuple(full)]
        if gaps:
            subs = [tuple(full[i] for i in idx)
                    for k in range(1, len(full) + 1)
                    for idx in itertools.combinations(range(len(full)), k)]
        for bands in subs:
            for bch in compositions(len(bands)):
                # boundary of channel chunks: anywhere between the last
                # channel of one group and the first of the next
                groups, pos = [], 0
                for n in bch:
                    groups.append(bands[pos:pos + n])
                    pos += n
                cuts = []
                for a, b in zip(groups[:-1], groups[1:]):
                    lo = a[-1][0] + a[-1][1]
                    cuts.append(range(lo, b[0][0] + 1))
                for cut in itertools.product(*cuts):
                    edges = (0,) + cut + (nchan,)
                    ch = tuple(b - a for a, b in zip(edges[:-1], edges[1:]))
                    out.append((bands, nchan, bch, ch))
    return list(dict.fromkeys(out))


def ladder_case(p):
    nrow, rchunk, nchan, width, per, ctype = p
    bands = tuple((s, min(width, nchan - s)) for s in range(0, nchan, width))
    nb = len(bands)
    bch = tuple(min(per, nb - s) for s in range(0, nb, per))
    pos, ch = 0, []
    for n in bch:
        ch.append(sum(b[1] for b in bands[pos:pos + n]))
        pos += n
    rows = tuple(min(rchunk, nrow - s) for s in range(0, nrow, rchunk))
    nx, ny, cell = 4, 4, 0.02
    d = build(nrow, nchan, bands, nx, ny, cell, ctype, True, True, 5)
    eps = 1e-5 if ctype == "complex64" else 1e-9
    for op in OPS:
        evaluate(op, d, rows, tuple(ch), bch, bands, nx, ny, cell,
                 {"epsilon": eps}, ctype, eps,
                 "lazy %s(%d rows by %d, %d channels, bands of %d, %d bands "
                 "a chunk)" % (op, nrow, rchunk, nchan, width, per), "ends")
    return len(rows), len(ch)


def groups(tier):
    big = tier == "thorough"
    rows = [c for n in ((1, 2, 3, 4, 5) if big else (1, 2, 3))
            for c in compositions(n)]
    sp = [s for n in range(1, 5 if big else 4) for s in spaces(n, True)]
    chunk = [s + (r, ct, w, f, "ends") for s in sp for r in rows
             for ct, w, f in (("complex128", True, False),
                              ("complex64", True, True),
                              ("complex128", False, True)) +
             ((("complex64", False, False),) if big or len(r) > 1 else ())]
    osp = [((((0, 1),), 1, (1,), (1,)), (1, 1)),
           ((((0, 1),), 1, (1,), (1,)), (2, 1, 1)),
           ((((0, 1), (1, 1)), 2, (1, 1), (1, 1)), (2,)),
           ((((0, 1), (1, 1)), 2, (1, 1), (1, 1)), (1, 2)),
           ((((0, 2), (2, 1)), 3, (2,), (3,)), (1, 1, 1))]
    orders = [s + (r, ct, w, f, 3000 if big else 150)
              for s, r in osp for ct in ("complex128", "complex64")
              for w, f in ((False, False), (True, True))]
    kws = [(), (("celly", 0.021),), (("epsilon", 1e-3),),
           (("nthreads", 2),), (("nthreads", 0),), (("nthreads", None),),
           (("do_wstacking", False),), (("double_accum", True),),
           (("do_wstacking", False), ("celly", 0.007),
            ("double_accum", True))]
    opts = [(r, ct, k, w, f, nx, ny) for r in ((4,), (2, 2), (1, 3))
            for ct in SINGLE
            for k in kws + ([(("epsilon", 1e-11),),
                             (("epsilon", 1e-8), ("celly", 0.02))]
                            if ct == "complex128" else [])
            for w in (False, True) for f in (False, True)
            for nx, ny in ((4, 8), (6, 4))]
    prod = [(k, v) for k, v in (("celly", 0.021), ("epsilon", 1e-3),
                                ("do_wstacking", False),
                                ("double_accum", True))]
    have = set(opts)
    opts += [x for x in (
        (r, ct, tuple(kw) + t, w, f, 4, 8)
        for n in range(len(prod) + 1)
        for kw in itertools.combinations(prod, n)
        for t in ((), (("nthreads", 2),), (("nthreads", 0),))
        for r in ((2, 2), (1, 3)) for ct in SINGLE
        for w, f in ((False, True), (True, False))) if x not in have]
    lad = [(n, r, c, w, per, ct) for n, r in ((9, 4), (33, 8), (100, 33),
                                              (257, 1000), (64, 1))
           for c in (1, 8, 17, 40) for w in (1, 3, 8) if w <= c
           for per in (1, 2, 5) for ct in ("complex64", "complex128")]
    if not big:
        lad = [x for x in lad if x[0] != 64 or x[2] == 8]
    return [
        Group("chunkings", chunk, chunk_case,
              "all row chunkings x all band layouts (with gaps) x all "
              "band-aligned channel chunkings x optional inputs; both "
              "extreme task orders; compared with the direct sum",
              "rows <= %d, channels <= %d" % (5 if big else 3,
                                              4 if big else 3)),
        Group("orders", orders, chunk_case,
              "task orders of small graphs, depth first (complete where the "
              "graph has fewer orders than the cap)",
              "%d orders per graph" % (3000 if big else 150)),
        Group("options", opts, option_case, "options are passed through",
              "listed"),
        Group("ladder", lad, ladder_case, "size ladder", "<= 257 rows, 40 "
              "channels"),
    ]
