"""C01: wgridder operators against the direct sum."""
import itertools

import numpy as np

from core import Group, call, check, state
from refs import compositions, generic, poke, pokes, relayout
from wref import C, Problem, scale_image

from africanus.gridding.wgridder import dirty, hessian, model, residual

ASSUMPTIONS = ["frequencies ascend within a band (required by the gridding engine)",
               "accuracy is judged per element relative to the sum of the "
               "absolute contributions, with a factor 4 on epsilon",
               "image sizes are even (the gridding engine rejects others)",
               "linearity is itself checked by comparing every case with the "
               "direct sum"]

OPS = ("model", "dirty", "residual", "hessian")
SINGLE = {"complex64": "float32", "complex128": "float64"}


def uvw_for(nrow, freq, cell, salt=1, wscale=1.0):
    u = generic((nrow, 3), np.float64, salt, -0.49, 0.49)
    u = u / (cell * np.max(freq) / C)
    u[:, 2] *= wscale
    return u


def run(op, uvw, freq, bands, nx, ny, cell, image, vis, kw, idxt="int64",
        lay="C", positional=False):
    fbi = np.array([b[0] for b in bands], dtype=idxt)
    fbc = np.array([b[1] for b in bands], dtype=idxt)
    args = {"uvw": uvw, "freq": freq, "vis": vis, "image": image,
            "fbi": fbi, "fbc": fbc}
    for k in list(args):
        args[k] = relayout(args[k], lay)
    kw = dict(kw)
    for k in ("weights", "flag"):
        if kw.get(k) is not None:
            kw[k] = relayout(kw[k], lay)
    keep = {k: np.array(v, copy=True) for k, v in args.items()}
    keepkw = {k: np.array(v, copy=True) for k, v in kw.items()
              if isinstance(v, np.ndarray)}
    a = args
    if op == "model":
        pos = (a["uvw"], a["freq"], a["image"], a["fbi"], a["fbc"], cell)
        fn = model
        kw.pop("double_accum", None)
    elif op == "dirty":
        pos = (a["uvw"], a["freq"], a["vis"], a["fbi"], a["fbc"], nx, ny,
               cell)
        fn = dirty
    elif op == "residual":
        pos = (a["uvw"], a["freq"], a["image"], a["vis"], a["fbi"], a["fbc"],
               cell)
        fn = residual
    else:
        pos = (a["uvw"], a["freq"], a["image"], a["fbi"], a["fbc"], cell)
        fn = hessian
    if positional:
        order = ["weights", "flag", "celly", "epsilon", "nthreads",
                 "do_wstacking"] + ([] if op == "model" else
                                    ["double_accum"])
        dflt = {"epsilon": 1e-5, "nthreads": 1, "do_wstacking": True,
                "double_accum": False}
        pos = pos + tuple(kw.get(o, dflt.get(o)) for o in order)
        got = call(fn, *pos)
    else:
        got = call(fn, *pos, **kw)
    for k, v in keep.items():
        check(np.array_equal(v, args[k]), "%s modified its %s", op, k)
    for k, v in keepkw.items():
        check(np.array_equal(v, kw[k]), "%s modified its %s", op, k)
    return got


def compare(op, got, prob, image, vis, eps, ctype, what):
    rtype = SINGLE[ctype]
    floor = 2e-6 if ctype == "complex64" else 2e-13
    tol = max(4.0 * eps, floor)
    if op == "model":
        want, sc = prob.model(image), prob.sc_model(image)
        dt = ctype
    elif op == "dirty":
        want, sc, dt = prob.dirty(vis), prob.sc_grid(vis), rtype
    elif op == "residual":
        want = prob.residual(image, vis)
        sc = prob.sc_grid(vis) + scale_image(prob, image)
        dt = rtype
    else:
        want, sc, dt = prob.hessian(image), scale_image(prob, image), rtype
    check(got.shape == want.shape, "%s: shape %s, expected %s", what,
          got.shape, want.shape)
    check(got.dtype == np.dtype(dt), "%s: precision %s, expected %s", what,
          got.dtype, dt)
    err = np.abs(got - want)
    k = np.unravel_index(np.argmax(err), err.shape) if err.size else None
    if err.size:
        check(np.all(np.isfinite(got)) and err.max() <= tol * sc,
              "%s: element %s is %r, direct sum %r (allowed error %g)",
              what, k, got[k], want[k], tol * sc)
    return want


def base(nrow, nchan, nband, nx, ny, cell, ctype, salt=0, freq=None):
    if freq is None:
        freq = 1e9 * (1.0 + 0.13 * np.arange(nchan) ** 1.1)
    uvw = uvw_for(nrow, freq, cell, 1 + salt)
    image = generic((nband, nx, ny), SINGLE[ctype], 2 + salt)
    vis = generic((nrow, nchan), ctype, 3 + salt)
    return uvw, freq, image, vis


def band_case(p):
    """ bands: tuple of (start, count) inside nchan channels """
    nchan, bands, idxt, ctype, weighted = p
    nrow, nx, ny, cell = 4, 6, 4, 0.013
    uvw, freq, image, vis = base(nrow, nchan, len(bands), nx, ny, cell, ctype)
    w = (generic((nrow, nchan), SINGLE[ctype], 4, 0.1, 2.0) if weighted
         else None)
    prob = Problem(uvw, freq, bands, nx, ny, cell, weights=w)
    eps = 1e-5 if ctype == "complex64" else 1e-10
    for op in OPS:
        got = run(op, uvw, freq, bands, nx, ny, cell, image, vis,
                  {"weights": w, "epsilon": eps}, idxt)
        compare(op, got, prob, image, vis, eps, ctype,
                "%s(bands (start,count) %s of %d channels, %s)" % (
                    op, list(bands), nchan, ctype))
        if op == "model":
            owned = np.zeros(nchan, bool)
            for s, n in bands:
                owned[s:s + n] = True
            check(not np.any(got[:, ~owned]), "model: channels owned by no "
                  "band predicted non-zero for bands %s", list(bands))
    return len(bands)


def value_arrays(ctype):
    uvw, freq, image, vis = base(2, 2, 2, 4, 2, 0.013, ctype)
    return {"uvw": uvw, "image": image, "vis": vis,
            "weights": generic((2, 2), SINGLE[ctype], 4, 0.1, 2.0)}


def value_cases(ctype):
    a = value_arrays(ctype)
    out = pokes(a, other={"uvw": (0.0, -0.0), "weights": (0.0, 1.0, 1e3)})
    return [(ctype, c) for c in out]


def value_case(p):
    """ one element (or all) of one argument has a special value """
    ctype, c = p
    a = poke(value_arrays(ctype), c)
    freq = base(2, 2, 2, 4, 2, 0.013, ctype)[1]
    bands = ((0, 1), (1, 1))
    prob = Problem(a["uvw"], freq, bands, 4, 2, 0.013, weights=a["weights"])
    eps = 1e-5 if ctype == "complex64" else 1e-10
    for op in OPS:
        got = run(op, a["uvw"], freq, bands, 4, 2, 0.013, a["image"],
                  a["vis"], {"weights": a["weights"], "epsilon": eps})
        compare(op, got, prob, a["image"], a["vis"], eps, ctype, "%s(%s)" % (
            op, p))
    return c[0]


def bandings(nchan, gaps):
    """ every partition of the channels into consecutive bands, in every
    order of the bands; with gaps also every disjoint set of intervals """
    out = []
    if not gaps:
        for comp in compositions(nchan):
            st = np.concatenate([[0], np.cumsum(comp)[:-1]])
            out.append(tuple((int(s), int(c)) for s, c in zip(st, comp)))
        return out
    ivs = [(s, n) for s in range(nchan) for n in range(1, nchan - s + 1)]
    for k in range(1, nchan + 1):
        for sub in itertools.combinations(ivs, k):
            cov = [c for s, n in sub for c in range(s, s + n)]
            if len(set(cov)) == len(cov):
                for perm in itertools.permutations(sub):
                    out.append(perm)
    return out


def mask_case(p):
    nrow, nchan, bits, weighted, ctype, wst = p
    nx, ny, cell = 4, 6, 0.02
    bands = ((0, 2), (2, nchan - 2)) if nchan > 2 else ((0, nchan),)
    uvw, freq, image, vis = base(nrow, nchan, len(bands), nx, ny, cell, ctype,
                                 5)
    flag = np.array([(bits >> i) & 1 for i in range(nrow * nchan)],
                    np.uint8).reshape(nrow, nchan)
    if bits % 3 == 1:
        flag = flag * np.uint8(2 + bits % 200)      # any non-zero value
    w = (generic((nrow, nchan), SINGLE[ctype], 6, 0.1, 2.0) if weighted
         else None)
    prob = Problem(uvw, freq, bands, nx, ny, cell, weights=w, flag=flag,
                   wstack=wst)
    eps = 1e-5 if ctype == "complex64" else 1e-10
    for op in OPS:
        got = run(op, uvw, freq, bands, nx, ny, cell, image, vis,
                  {"weights": w, "flag": flag, "epsilon": eps,
                   "do_wstacking": wst})
        compare(op, got, prob, image, vis, eps, ctype,
                "%s(mask %s, weights=%s, %s)" % (op, flag.tolist(), weighted,
                                                 ctype))
        if op == "model":
            check(not np.any(got[flag == 0]), "model: masked sample predicted"
                  " non-zero, mask %s", flag.tolist())
    # bad values under the mask never leak out
    if flag.size and (flag == 0).any():
        vis2 = vis.copy()
        vis2[flag == 0] = 1e30
        for op in ("dirty", "residual"):
            got = run(op, uvw, freq, bands, nx, ny, cell, image, vis2,
                      {"weights": w, "flag": flag, "epsilon": eps,
                       "do_wstacking": wst})
            compare(op, got, prob, image, vis, eps, ctype,
                    "%s(huge values under mask %s)" % (op, flag.tolist()))
    return bin(bits).count("1")


def option_case(p):
    (nx, ny), (cell, celly), wst, eps, nthr, dacc, ctype, use_w, use_f, \
        pos = p
    nrow, nchan = 5, 3
    bands = ((0, 1), (1, 2))
    uvw, freq, image, vis = base(nrow, nchan, 2, nx, ny,
                                 max(cell, celly or cell), ctype, 7)
    w = generic((nrow, nchan), SINGLE[ctype], 8, 0.1, 2.0) if use_w else None
    f = None
    if use_f:
        f = np.ones((nrow, nchan), np.uint8)
        f[1, 0] = f[3, 2] = f[0, 1] = 0
    prob = Problem(uvw, freq, bands, nx, ny, cell, celly, w, f, wst)
    kw = {"weights": w, "flag": f, "do_wstacking": wst, "double_accum": dacc}
    if celly is not None:
        kw["celly"] = celly
    if eps is not None:
        kw["epsilon"] = eps
    if nthr != "default":
        kw["nthreads"] = nthr
    for op in OPS:
        k = dict(kw)
        if pos:
            k.setdefault("celly", None)
        got = run(op, uvw, freq, bands, nx, ny, cell, image, vis, k,
                  positional=pos)
        compare(op, got, prob, image, vis, eps or 1e-5, ctype,
                "%s(%s)" % (op, p))
    return (wst, eps, ctype)


def mixed_case(p):
    """ arguments of different precision: refused, or used """
    tv, ti, tw, wst, use_f = p
    nx, ny, cell, nrow, nchan = 4, 6, 0.02, 4, 3
    bands = ((0, 1), (1, 2))
    uvw, freq, image, vis = base(nrow, nchan, 2, nx, ny, cell, "complex128",
                                 5)
    image, vis = image.astype(ti), vis.astype(tv)
    w = generic((nrow, nchan), "float64", 6, 0.1, 2.0).astype(tw)
    f = np.ones((nrow, nchan), np.uint8) if use_f else None
    if use_f:
        f[0, 1] = f[2] = 0
    prob = Problem(uvw, freq, bands, nx, ny, cell, weights=w, flag=f,
                   wstack=wst)
    out = []
    for op in OPS:
        try:
            got = run(op, uvw, freq, bands, nx, ny, cell, image, vis,
                      {"weights": w, "flag": f, "do_wstacking": wst})
        except (TypeError, ValueError, RuntimeError):
            out.append("refused")
            continue
        ref = {"model": prob.model(image), "dirty": prob.dirty(vis),
               "residual": prob.residual(image, vis),
               "hessian": prob.hessian(image)}[op]
        sc = prob.sc_grid(vis) + scale_image(prob, image) + prob.sc_model(
            image)
        check(got.shape == ref.shape and np.abs(got - ref).max() < 1e-4 * sc,
              "%s of mixed precision %s: off by %s", op, p,
              np.abs(got - ref).max())
        out.append("used")
    return tuple(out)


def basis_case(p):
    """ the full matrix of every operator, one basis vector at a time """
    (nx, ny), nrow, nchan, bands, weighted, masked, wst, celly = p
    cell = 0.021
    ctype = "complex128"
    uvw, freq, image, vis = base(nrow, nchan, len(bands), nx, ny, cell, ctype,
                                 11)
    w = (generic((nrow, nchan), "float64", 12, 0.1, 2.0) if weighted
         else None)
    f = None
    if masked:
        f = np.ones((nrow, nchan), np.uint8)
        f[0, 0] = 0
        f[-1, -1] = 0
    prob = Problem(uvw, freq, bands, nx, ny, cell, celly, w, f, wst)
    kw = {"weights": w, "flag": f, "do_wstacking": wst, "celly": celly,
          "epsilon": 1e-11}
    nb = len(bands)
    R = np.zeros((nb, nx, ny, nrow, nchan), np.complex128)
    zero = np.zeros((nrow, nchan), np.complex128)
    for b, i, j in itertools.product(range(nb), range(nx), range(ny)):
        im = np.zeros((nb, nx, ny))
        im[b, i, j] = 1.0
        R[b, i, j] = run("model", uvw, freq, bands, nx, ny, cell, im, vis, kw)
        compare("model", R[b, i, j], prob, im, vis, 1e-11, ctype,
                "model of unit pixel %s" % ((b, i, j),))
        for op in ("hessian", "residual"):
            g = run(op, uvw, freq, bands, nx, ny, cell, im,
                    zero, kw)
            compare(op, g, prob, im, zero, 1e-11, ctype,
                    "%s of unit pixel %s" % (op, (b, i, j)))
        state()
    zim = np.zeros((nb, nx, ny))
    D = np.zeros((nrow, nchan, 2, nb, nx, ny))
    for r, c, k in itertools.product(range(nrow), range(nchan), range(2)):
        v = zero.copy()
        v[r, c] = (1.0, 1j)[k]
        D[r, c, k] = run("dirty", uvw, freq, bands, nx, ny, cell, zim, v, kw)
        compare("dirty", D[r, c, k], prob, zim, v, 1e-11, ctype,
                "dirty of unit visibility %s" % ((r, c, k),))
        g = run("residual", uvw, freq, bands, nx, ny, cell, zim, v, kw)
        check(np.allclose(g, D[r, c, k], atol=1e-10), "residual of a zero "
              "image is not the dirty image")
        state()
    # adjointness of the two matrices, element by element
    re = np.moveaxis(R.real, (0, 1, 2), (2, 3, 4))
    im_ = np.moveaxis(R.imag, (0, 1, 2), (2, 3, 4))
    check(np.allclose(D[:, :, 0], re, atol=1e-9), "gridder is not the adjoint"
          " of the degridder (real part)")
    check(np.allclose(D[:, :, 1], im_, atol=1e-9), "gridder is not the "
          "adjoint of the degridder (imaginary part)")
    return nb


def layout_case(p):
    lay, ctype, freqkind, nrow, wscale = p
    nchan, nx, ny, cell = 3, 8, 4, 0.03
    freq = {"up": np.array([1e9, 1.1e9, 1.9e9]),
            "down": np.array([1.1e9, 1.9e9, 1e9]),
            "mixed": np.array([1.3e9, 1.9e9, 0.7e9])}[freqkind]
    bands = ((0, 2), (2, 1))
    uvw, freq, image, vis = base(nrow, nchan, 2, nx, ny, cell, ctype, 13,
                                 freq)
    uvw[:, 2] *= wscale
    w = generic((nrow, nchan), SINGLE[ctype], 14, 0.1, 2.0)
    f = np.ones((nrow, nchan), np.uint8)
    f[0, 1] = 0
    prob = Problem(uvw, freq, bands, nx, ny, cell, None, w, f, True)
    eps = 1e-5 if ctype == "complex64" else 1e-9
    for op in OPS:
        for idxt in ("int32", "int64"):
            got = run(op, uvw, freq, bands, nx, ny, cell, image, vis,
                      {"weights": w, "flag": f, "epsilon": eps}, idxt, lay)
            compare(op, got, prob, image, vis, eps, ctype, "%s(%s)" % (op, p))
            check(got.flags.writeable, "result is not writeable")
    return lay


def accum_case(p):
    """ one sample hides many small ones unless accumulated in double """
    op, wst, nsmall = p
    nrow = nsmall + 2
    freq = np.array([1e9])
    cell, nx, ny = 0.01, 8, 8
    uvw = np.tile(np.array([[3.0, -2.0, 1.0]]), (nrow, 1))
    amp = np.ones(nrow, np.float64)
    amp[0], amp[-1] = 2.0 ** 30, -2.0 ** 30
    bands = ((0, 1),)
    image = np.zeros((1, nx, ny), np.float32)
    if op == "hessian":
        image[0, nx // 2, ny // 2] = 1.0
        w = amp.astype(np.float32)[:, None]
        vis = np.zeros((nrow, 1), np.complex64)
    else:
        w = None
        vis = amp.astype(np.complex64)[:, None]
    got = run(op, uvw, freq, bands, nx, ny, cell, image, vis,
              {"weights": w, "double_accum": True, "do_wstacking": wst,
               "epsilon": 1e-4})
    check(abs(got[0, nx // 2, ny // 2] - nsmall) < 0.05 * nsmall,
          "%s(double_accum=True): centre %r, the exact sum is %d", op,
          float(got[0, nx // 2, ny // 2]), nsmall)
    check(got.dtype == np.float32, "precision %s", got.dtype)
    return op


def ladder_case(p):
    nchan, width, nrow, ctype = p
    nx, ny, cell = 4, 4, 0.02
    bands = tuple((s, min(width, nchan - s)) for s in range(0, nchan, width))
    freq = 1e9 + 7e6 * np.arange(nchan)
    uvw, freq, image, vis = base(nrow, nchan, len(bands), nx, ny, cell, ctype,
                                 21, freq)
    w = generic((nrow, nchan), SINGLE[ctype], 22, 0.1, 2.0)
    f = (generic((nrow, nchan), "float64", 23) > -0.5).astype(np.uint8)
    prob = Problem(uvw, freq, bands, nx, ny, cell, None, w, f)
    eps = 1e-5 if ctype == "complex64" else 1e-10
    for op in OPS:
        got = run(op, uvw, freq, bands, nx, ny, cell, image, vis,
                  {"weights": w, "flag": f, "epsilon": eps}, "int16")
        compare(op, got, prob, image, vis, eps, ctype, "%s(%d channels in "
                "bands of %d, %d rows)" % (op, nchan, width, nrow))
    return len(bands)


def groups(tier):
    big = tier == "thorough"
    nmax = 5 if big else 4
    bands = [(n, b, "int64", "complex128", True)
             for n in range(1, nmax + 1) for b in bandings(n, True)]
    bands += [(n, b, t, ct, w) for n in range(1, nmax + 2)
              for b in bandings(n, False)
              for t in ("int16", "int32") for ct in SINGLE
              for w in (True, False)]
    shapes = ((2, 3), (1, 4), (3, 1)) + (((3, 3),) if big else ())
    masks = [(r, c, b, w, ct, ws) for r, c in shapes
             for b in range(2 ** (r * c)) for w in (False, True)
             for ct in ("complex128", "complex64")
             for ws in ((True, False) if big or ct == "complex128"
                        else (True,))]
    sizes = [(2, 2), (2, 8), (4, 6), (6, 4), (8, 8), (16, 2), (10, 16)]
    opts = [(s, c, w, e, t, d, ct, uw, uf, pos)
            for s in (sizes if big else sizes[1:5])
            for c in ((0.01, None), (0.01, 0.02), (0.03, 0.008))
            for w in (True, False)
            for ct, e in (("complex64", None), ("complex64", 1e-3),
                          ("complex64", 1e-5), ("complex128", None),
                          ("complex128", 1e-7), ("complex128", 1e-12))
            for t in ("default", 2, 0, None)
            for d in (False, True)
            for uw, uf, pos in (((False, False, False), (True, True, False),
                                 (True, False, True), (False, True, True)))]
    basis = [(s, 3, n, b, w, m, ws, cy)
             for s in (((4, 2), (2, 6), (6, 4)) if big else ((4, 2), (2, 6)))
             for n in ((1, 2, 3) if big else (1, 3))
             for b in bandings(n, False)
             for w in (False, True) for m in (False, True)
             for ws in (True, False) for cy in (0.021, 0.013)]
    lay = [(layout, ct, fk, nr, ws)
           for layout in ("C", "F", "strided", "offset", "readonly",
                          "reversed")
           for ct in SINGLE for fk in ("up", "down", "mixed")
           for nr in (1, 2, 7) + ((50, 300) if big else (50,))
           for ws in (0.0, 1.0, 20.0)]
    return [
        Group("bands", bands, band_case,
              "every layout of bands over the channels (ordered, with gaps, "
              "in any order of bands) x index type x precision",
              "nchan <= %d" % nmax),
        Group("values", value_cases("complex128") + value_cases("complex64"),
              value_case, "special values in every element of every "
              "argument", {"rows": 2, "channels": 2}),
        Group("masks", masks, mask_case,
              "every mask pattern x weights x precision; huge values hidden "
              "under the mask", "row*chan <= %d" % (9 if big else 6)),
        Group("options", opts, option_case,
              "cross product of sizes, cells, accuracy, threads, w-stacking, "
              "accumulation, optional arguments and call style", "listed"),
        Group("mixed", [(tv, ti, tw, ws, f) for tv in SINGLE
                        for ti in SINGLE.values() for tw in SINGLE.values()
                        for ws in (True, False) for f in (True, False)],
              mixed_case, "arguments of different precision are refused or "
              "used", "all combinations"),
        Group("basis", basis, basis_case,
              "every operator on every basis image and visibility; "
              "element-wise adjointness", "images <= 6x4, 3 rows"),
        Group("layouts", lay, layout_case,
              "memory layout x frequency order x row count x w range",
              "rows <= 300"),
        Group("ladder", [(n, w, r, ct) for n in (5, 8, 9, 16, 17, 33, 64, 130)
                         for w in (1, 2, 3, 7, 16, 64, 130) if w <= n
                         for r in ((1, 9, 257, 2000) if big else (1, 9, 257))
                         for ct in SINGLE], ladder_case,
              "ladder of channel, band and row counts", "nchan <= 130"),
        Group("accumulation", [(o, w, n) for o in ("dirty", "residual",
                                                   "hessian")
                               for w in (True, False) for n in (64, 1000)],
              accum_case, "double accumulation keeps small terms", "listed"),
    ]
