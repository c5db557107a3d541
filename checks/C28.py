"""C28: chunked results are lazy, are what they declare, and do not interfere.

The alphabet is the set of dask wrappers.  Each has a base call and variants
which differ from it in one argument, one option, the chunking or the
precision.  Every variant is built and computed alone; every pair of variants
of a function, and every pair of functions, is computed together in one graph.
"""
import itertools
import logging
import pickle
import sys

import cloudpickle
import numpy as np
import dask.array as da
from dask.base import tokenize

import shim
import fake_nifty
sys.modules["nifty_gridder"] = fake_nifty
from core import Group, call, check, schedule, state            # noqa
from refs import generic                                        # noqa
import dsched                                                   # noqa

import africanus.averaging.dask as davg                         # noqa
import africanus.calibration.phase_only.dask as dpo             # noqa
import africanus.calibration.utils.dask as dcu                  # noqa
import africanus.coordinates.dask as dco                        # noqa
import africanus.dft.dask as ddft                               # noqa
import africanus.gridding.wgridder.dask as dwg                  # noqa
import africanus.gridding.nifty.dask as dng                     # noqa
from africanus.gridding.perleypolyhedron import kernels as pk   # noqa
import africanus.gridding.perleypolyhedron.dask as dpp          # noqa
import africanus.model.coherency.dask as dcoh                   # noqa
import africanus.model.shape.dask as dshp                       # noqa
import africanus.model.spectral.dask as dspec                   # noqa
import africanus.model.spi.dask as dspi                         # noqa
import africanus.model.wsclean.dask as dws                      # noqa
import africanus.rime.dask as drime                             # noqa

if shim.MODE == "interp":
    import africanus.rime.zernike as zmod
    zmod.__dict__["range"] = shim._install_interp.tolerant_range

ASSUMPTIONS = [
    "nifty_gridder is not installed: a stand-in takes its place",
    "the faceting gridder reads its channel map when it is called, to know "
    "the number of bands"]

logging.getLogger().setLevel(logging.CRITICAL)

NR, NC, NS, NA, NT = 4, 2, 2, 3, 2
CELL = np.deg2rad(5.)
READS = []


class Source(object):
    """ an input array which records that it is read """

    def __init__(self, name, array):
        self.name, self.array = name, array
        self.shape, self.dtype = array.shape, array.dtype
        self.ndim = array.ndim

    def __getitem__(self, idx):
        out = self.array[idx]
        if np.size(out):
            READS.append(self.name)
        return out

    def __dask_tokenize__(self):
        return tokenize(self.array)


class Entry(object):
    def __init__(self, fn, arrays, chunkings, opts=None, alts=None,
                 optalts=None, plain=None, drop=(), eager=(), double=()):
        self.fn, self.arrays = fn, arrays
        self.chunkings, self.opts = chunkings, opts or {}
        self.plain = plain or {}
        self.eager = eager
        self.variants = [("base", {}, {}, 0)]
        for k, (a, _) in arrays.items():
            if alts and k in alts:
                b = alts[k]
            elif a.dtype.kind in "fc":
                b = a * 1.25
            elif a.dtype.kind == "b":
                b = ~a
            else:
                continue
            self.variants.append(("other " + k, {k: b}, {}, 0))
        for k, a in self.plain.items():
            if isinstance(a, np.ndarray):
                self.variants.append(("other " + k, {}, {k: a * 1.25}, 0))
        for k, vs in (optalts or {}).items():
            for v in vs:
                self.variants.append(("%s=%s" % (k, v), {}, {k: v}, 0))
        for k in drop:
            self.variants.append(("without " + k, {k: None}, {}, 0))
        for c in range(1, len(chunkings)):
            self.variants.append(("chunks %s" % (chunkings[c],), {}, {}, c))
        single = {k: a.astype(a.dtype.char.lower() == "d" and (
            "f4" if a.dtype.kind == "f" else "c8") or a.dtype)
            for k, (a, _) in arrays.items() if k not in double}
        self.variants.append(("single precision", single, {}, 0))

    def build(self, i):
        label, arr, opt, c = self.variants[i]
        ch = self.chunkings[c]
        kw = dict(self.opts)
        kw.update(self.plain)
        kw.update(opt)
        for k, (a, axes) in self.arrays.items():
            a = arr.get(k, a)
            if a is None:
                continue
            chunks = tuple(ch.get(x, (n,)) for x, n in zip(axes, a.shape))
            kw[k] = da.from_array(Source(k, a), chunks=chunks,
                                  meta=np.empty((0,) * a.ndim, a.dtype))
        out = call(self.fn, **kw)
        if isinstance(out, da.Array):
            out = [out]
        elif isinstance(out, dict):
            out = [out[k] for k in sorted(out)]
        return [o for o in out if o is not None]


def build():
    e = {}
    uvw = generic((NR, 3), "f8", 1, -30, 30)
    freq = np.array([1e9, 1.1e9])
    lm = generic((NS, 2), "f8", 2, -.1, .1)
    radec = generic((NS, 2), "f8", 3, 0, 1)
    centre = np.array([.3, -.4])
    tidx = np.array([0, 0, 1, 1])
    ant1, ant2 = np.array([0, 0, 0, 1], "i4"), np.array([1, 2, 1, 2], "i4")
    nant1 = np.array([0, 1, 1, 0], "i4")
    ROW = ("row",)
    two = [{"row": (2, 2), "time": (1, 1), "source": (1, 1)},
           {"row": (4,), "time": (2,), "source": (1, 1)},
           {"row": (2, 2), "time": (1, 1), "chan": (1, 1)}]

    # -- averaging
    cube = ("row", "chan", "corr")
    cols = dict(
        time=(np.array([0., 0., 1., 1.]), ROW), interval=(np.ones(NR), ROW),
        antenna1=(ant1, ROW), antenna2=(ant2, ROW),
        time_centroid=(np.array([0., .1, 1., 1.2]), ROW),
        exposure=(generic((NR,), "f8", 4, .5, 1), ROW), uvw=(uvw, ("row",
                                                                   "c")),
        weight=(generic((NR, 3), "f8", 5, .5, 2), ("row", "corr")),
        sigma=(generic((NR, 3), "f8", 6, .5, 2), ("row", "corr")),
        chan_freq=(freq, ("chan",)), chan_width=(np.array([1e6, 2e6]),
                                                 ("chan",)),
        effective_bw=(np.array([3e6, 2e6]), ("chan",)),
        resolution=(np.array([3e6, 4e6]), ("chan",)),
        vis=(generic((NR, NC, 3), "c16", 7), cube),
        flag=(np.arange(NR * NC * 3).reshape(NR, NC, 3) % 5 == 0, cube),
        weight_spectrum=(generic((NR, NC, 3), "f8", 8, .5, 2), cube),
        sigma_spectrum=(generic((NR, NC, 3), "f8", 9, .5, 2), cube))
    ach = two + [{"row": (1, 3)}, {"row": (4,), "corr": (1, 2)}]
    aopt = dict(time_bin_secs=2.0, chan_bin_size=2)
    aalt = dict(time_bin_secs=[1.0, 10.], chan_bin_size=[1])
    ant = dict(antenna1=nant1, antenna2=np.array([1, 2, 2, 1], "i4"))
    e["time_and_channel"] = Entry(
        davg.time_and_channel, cols, ach, aopt, ant, aalt,
        drop=("flag", "weight_spectrum", "sigma_spectrum", "uvw", "vis",
              "weight", "chan_freq"))
    e["time_and_channel/few"] = Entry(
        davg.time_and_channel, {k: cols[k] for k in (
            "time", "interval", "antenna1", "antenna2", "vis", "flag")},
        ach, aopt, ant, aalt, drop=("flag",))

    # -- calibration
    head = dict(time_bin_indices=(np.array([0, 2]), ("time",)),
                time_bin_counts=(np.array([2, 2]), ("time",)),
                antenna1=(ant1, ROW), antenna2=(ant2, ROW))
    jones = generic((NT, NA, NC, 1, 2), "c16", 11) + 2
    jones22 = generic((NT, NA, NC, 1, 2, 2), "c16", 11) + np.eye(2) * 3
    jax = ("time", "ant", "chan", "dir", "c1", "c2")
    vax = ("row", "chan", "c1", "c2")
    vis = generic((NR, NC, 2, 2), "c16", 12)
    model = generic((NR, NC, 1, 2, 2), "c16", 13)
    flag = np.arange(NR * NC * 4).reshape(NR, NC, 2, 2) % 7 == 3
    cch = two[:1] + [{"row": (4,), "time": (2,)},
                     {"row": (2, 2), "time": (1, 1), "chan": (1, 1)}]
    for n, j in (("diag", jones), ("full", jones22)):
        e["corrupt_vis/" + n] = Entry(
            dcu.corrupt_vis, dict(head, jones=(j, jax), model=(
                model, ("row", "chan", "dir", "c1", "c2"))), cch, alts=ant)
        e["correct_vis/" + n] = Entry(
            dcu.correct_vis, dict(head, jones=(j, jax), vis=(vis, vax),
                                  flag=(flag, vax)), cch, alts=ant)
        e["residual_vis/" + n] = Entry(
            dcu.residual_vis, dict(head, jones=(j, jax), vis=(vis, vax),
                                   flag=(flag, vax), model=(
                model, ("row", "chan", "dir", "c1", "c2"))), cch, alts=ant)
    e["compute_and_corrupt_vis"] = Entry(
        dcu.compute_and_corrupt_vis, dict(
            head, jones=(jones22, jax), model=(
                generic((NT, NC, 1, 2, 2), "c16", 14),
                ("time", "chan", "dir", "c1", "c2")), uvw=(uvw, ("row", "c")),
            freq=(freq, ("chan",)), lm=(generic((NT, 1, 2), "f8", 15, -.1,
                                                .1), ("time", "dir", "l"))),
        cch, alts=ant)
    pj = dict(head, jones=(generic((NT, NA, NC, 1, 1), "c16", 11) + 2, jax),
              model=(generic((NR, NC, 1, 1), "c16", 16),
                     ("row", "chan", "dir", "c1")),
              flag=(flag[:, :, :1, 0], vax))
    e["compute_jhj"] = Entry(dpo.compute_jhj, pj, cch, alts=ant)
    e["compute_jhr"] = Entry(dpo.compute_jhr, dict(pj, residual=(
        generic((NR, NC, 1), "c16", 17), vax)), cch, alts=ant)

    # -- coordinates
    sch = [{"source": (1, 1)}, {"source": (2,)}]
    for n, k in (("radec_to_lm", "radec"), ("radec_to_lmn", "radec"),
                 ("lm_to_radec", "lm"), ("lmn_to_radec", "lmn")):
        v = {"radec": radec, "lm": lm, "lmn": np.concatenate(
            [lm, np.sqrt(1 - (lm ** 2).sum(-1))[:, None]], -1)}[k]
        e[n] = Entry(getattr(dco, n), {
            k: (v, ("source", "c")), "phase_centre": (centre, ("p",))}, sch,
            alts={"lmn": v[::-1]}, drop=("phase_centre",))

    # -- transforms
    tch = [{"row": (2, 2), "chan": (1, 1)}, {"row": (4,)},
           {"row": (1, 3), "chan": (1, 1)}]
    e["im_to_vis"] = Entry(ddft.im_to_vis, dict(
        image=(generic((NS, NC, 2), "f8", 18), ("source", "chan", "corr")),
        uvw=(uvw, ("row", "c")), lm=(lm, ("source", "l")),
        frequency=(freq, ("chan",))), tch, {}, None,
        dict(convention=["casa"], dtype=[np.complex64]))
    e["vis_to_im"] = Entry(ddft.vis_to_im, dict(
        vis=(vis[..., 0], cube), uvw=(uvw, ("row", "c")),
        lm=(lm, ("source", "l")), frequency=(freq, ("chan",)),
        flags=(flag[..., 0], cube)), tch + [{"source": (1, 1)}], {}, None,
        dict(convention=["casa"], dtype=[np.float32]))

    # -- wgridder
    gch = [{"row": (2, 2), "chan": (2,), "band": (1,)}, {"row": (4,)},
           {"row": (1, 3)}]
    base = dict(uvw=(uvw, ("row", "c")), freq=(freq, ("chan",)),
                freq_bin_idx=(np.array([0]), ("band",)),
                freq_bin_counts=(np.array([NC]), ("band",)))
    image = (generic((1, 12, 10), "f8", 19), ("band", "x", "y"))
    v2 = (vis[..., 0, 0], ("row", "chan"))
    extra = dict(weights=(generic((NR, NC), "f8", 20, .5, 2),
                          ("row", "chan")),
                 flag=(np.array([[1, 1], [0, 1], [1, 1], [1, 0]], "u1"),
                       ("row", "chan")))
    for n in ("dirty", "model", "residual", "hessian"):
        arr = dict(base, **extra)
        opt = dict(cell=CELL)
        oalt = dict(cell=[CELL * .9], celly=[CELL * .8], epsilon=[1e-3],
                    do_wstacking=[False])
        if n != "dirty":
            arr["image"] = image
        else:
            opt.update(nx=12, ny=10)
            oalt.update(nx=[14], ny=[12])
        if n in ("dirty", "residual"):
            arr["vis"] = v2
        e["wgridder " + n] = Entry(
            getattr(dwg, n), arr, gch, opt,
            dict(flag=np.ones((NR, NC), "u1")), oalt,
            drop=("weights", "flag"), double=("uvw", "freq"))
    bands = dict(base, freq_bin_idx=(np.array([0, 1]), ("chan",)),
                 freq_bin_counts=(np.array([1, 1]), ("chan",)),
                 image=(generic((2, 12, 10), "f8", 19), ("chan", "x", "y")))
    e["wgridder model/bands"] = Entry(
        dwg.model, bands, [{"row": (2, 2), "chan": (1, 1)}, {"row": (2, 2)},
                           {"chan": (1, 1)}], dict(cell=CELL), double=("uvw", "freq"))
    e["wgridder hessian/bands"] = Entry(
        dwg.hessian, bands, [{"row": (2, 2), "chan": (1, 1)},
                             {"row": (2, 2)}, {"chan": (1, 1)}],
        dict(cell=CELL), double=("uvw", "freq"))

    # -- nifty
    nch = [{"row": (2, 2)}, {"row": (4,)}, {"row": (1, 3)}]
    ngc = dng.grid_config(6, 8, 1e-3, .1, .2)
    ngo = dng.grid_config(6, 8, 1e-3, .3, .2)
    nbase = dict(uvw=(uvw, ("row", "c")), flags=(flag[..., 0], cube),
                 weights=(generic((NR, NC, 2), "f8", 20, .5, 2), cube),
                 frequencies=(freq, ("chan",)))
    for st in (None, 1, 2):
        e["nifty grid/%s" % st] = Entry(
            dng.grid, dict(nbase, vis=(vis[..., 0], cube)), nch,
            dict(grid_config=ngc, streams=st), None, dict(
                grid_config=[ngo], wmin=[0.], wmax=[0.],
                streams=[s for s in (None, 1, 2) if s != st]))
    gax = ("u", "v", "corr")
    e["nifty dirty"] = Entry(dng.dirty, dict(grid=(
        generic((8, 12, 2), "c16", 21), gax)), [{}, {"corr": (1, 1)}],
        dict(grid_config=ngc))
    e["nifty model"] = Entry(dng.model, dict(image=(
        generic((6, 8, 2), "c16", 22), gax)), [{}, {"corr": (1, 1)}],
        dict(grid_config=ngc))
    e["nifty degrid"] = Entry(dng.degrid, dict(nbase, grid=(
        generic((8, 12, 2), "c16", 21), gax)), nch, dict(grid_config=ngc),
        None, dict(grid_config=[ngo], wmin=[0.], wmax=[0.]),
        double=("grid",))

    # -- faceting
    kern = pk.pack_kernel(pk.kbsinc(5, oversample=3), 5, 3)
    pch = [{"row": (2, 2)}, {"row": (4,)}, {"row": (1, 3)}]
    wave = np.array([.21, .2])
    popt = dict(cell=1000., convolution_kernel=kern,
                convolution_kernel_width=5, convolution_kernel_oversampling=3,
                baseline_transform_policy="rotate",
                phase_transform_policy="phase_rotate")
    icen = np.array([[.3, -.4], [.31, -.39]])
    e["faceting gridder"] = Entry(
        dpp.gridder, dict(
            uvw=(uvw, ("row", "c")), vis=(vis.reshape(NR, NC, 4), cube),
            lambdas=(wave, ("chan",)), chanmap=(np.array([0, 1]), ("chan",))),
        pch, dict(popt, npix=8, stokes_conversion_policy="I_FROM_XXXYYXYY",
                  convolution_policy="conv_1d_axisymmetric_packed_scatter"),
        dict(chanmap=np.array([1, 0])), dict(
            do_normalize=[True], npix=[10], cell=[1200.],
            stokes_conversion_policy=["Q_FROM_XXXYYXYY"],
            phase_transform_policy=["None"], grid_dtype=[np.complex64]),
        plain=dict(image_centres=icen, phase_centre=centre + .01),
        eager=("chanmap",))
    e["faceting degridder"] = Entry(
        dpp.degridder, dict(
            uvw=(uvw, ("row", "c")), gridstack=(
                generic((2, 2, 8, 8), "c16", 23), ("f", "b", "y", "x")),
            lambdas=(wave, ("chan",)), chanmap=(np.array([0, 1]), ("chan",))),
        pch, dict(popt, stokes_conversion_policy="XXXYYXYY_FROM_I",
                  convolution_policy="conv_1d_axisymmetric_packed_gather"),
        dict(chanmap=np.array([1, 0])), dict(
            cell=[1200.], stokes_conversion_policy=["XXXYYXYY_FROM_Q"],
            phase_transform_policy=["None"], vis_dtype=[np.complex64]),
        plain=dict(image_centres=icen, phase_centre=centre + .01))

    # -- sky models
    e["convert"] = Entry(
        dcoh.convert, dict(input=(vis.reshape(NR, NC, 4), cube)),
        [{"row": (2, 2), "chan": (1, 1)}, {"row": (4,)}],
        dict(input_schema=["XX", "XY", "YX", "YY"],
             output_schema=[["I", "Q"], ["U", "V"]]), None, dict(
            output_schema=[["I", "Q", "U", "V"], ["V", "U"], ["I", "V"]],
            input_schema=[["RR", "RL", "LR", "LL"],
                          ["XX", "YX", "XY", "YY"]]))
    mch = [{"row": (2, 2), "chan": (1, 1), "source": (1, 1)},
           {"row": (2, 2)}, {"chan": (1, 1)}, {"source": (1, 1)}]
    e["gaussian"] = Entry(dshp.gaussian, dict(
        uvw=(uvw * 50, ("row", "c")), frequency=(freq, ("chan",)),
        shape_params=(generic((NS, 3), "f8", 29, 1e-4, 1e-3),
                      ("source", "g"))), mch)
    stokes = generic((NS,), "f8", 30, .5, 2)
    spi = generic((NS, 2), "f8", 31, -.5, .5)
    ref = np.full(NS, 1.05e9)
    SRC = ("source",)
    e["spectral_model"] = Entry(dspec.spectral_model, dict(
        stokes=(stokes, SRC), spi=(spi, ("source", "s")), ref_freq=(ref, SRC),
        frequencies=(freq, ("chan",))), mch, dict(base=0), None,
        dict(base=[1, 2, "std", "log10"]))
    e["spectral_model/pol"] = Entry(dspec.spectral_model, dict(
        stokes=(generic((NS, 2), "f8", 30, .5, 2), ("source", "pol")),
        spi=(generic((NS, 2, 2), "f8", 31, -.5, .5), ("source", "s", "pol")),
        ref_freq=(ref, SRC), frequencies=(freq, ("chan",))), mch,
        dict(base=[0, 1]), None, dict(base=[[1, 0], 0, 1]))
    freq3 = np.array([1e9, 1.1e9, 1.2e9])
    e["fit_spi_components"] = Entry(dspi.fit_spi_components, dict(
        data=(generic((4, 3), "f8", 32, .5, 2), ("comp", "chan")),
        weights=(generic((3,), "f8", 33, .5, 2), ("chan",)),
        freqs=(freq3, ("chan",)), alphai=(generic((4,), "f8", 34),
                                          ("comp",)),
        I0i=(generic((4,), "f8", 35, .5, 2), ("comp",)),
        beam=(generic((4, 3), "f8", 36, .5, 1), ("comp", "chan"))),
        [{"comp": (2, 2)}, {"comp": (4,)}, {"comp": (1, 3)}],
        dict(freq0=1.05e9), None, dict(freq0=[1.1e9], tol=[1e-1],
                                       maxiter=[1]),
        drop=("beam", "alphai", "I0i"))
    log = np.array([True, False])
    e["wsclean spectra"] = Entry(dws.spectra, dict(
        stokes=(stokes, SRC), spi=(spi, ("source", "s")), log_si=(log, SRC),
        ref_freq=(ref, SRC), frequency=(freq, ("chan",))), mch)
    e["wsclean_predict"] = Entry(drime.wsclean_predict, dict(
        uvw=(uvw, ("row", "c")), lm=(lm, ("source", "l")),
        source_type=(np.array(["POINT", "GAUSSIAN"]), SRC),
        flux=(stokes, SRC), coeffs=(spi, ("source", "s")),
        log_poly=(log, SRC), ref_freq=(ref, SRC), gauss_shape=(
            generic((NS, 3), "f8", 29, 1e-4, 1e-3), ("source", "g")),
        frequency=(freq, ("chan",))), mch,
        alts=dict(source_type=np.array(["GAUSSIAN", "POINT"])))

    # -- measurement equation
    e["phase_delay"] = Entry(drime.phase_delay, dict(
        lm=(lm, ("source", "l")), uvw=(uvw, ("row", "c")),
        frequency=(freq, ("chan",))), mch, {}, None,
        dict(convention=["casa"]))
    pa = generic((NT, NA), "f8", 20)
    bch = [{"time": (1, 1), "source": (1, 1), "chan": (1, 1)},
           {"time": (1, 1)}, {"source": (1, 1)}, {"ant": (1, 2)}]
    e["feed_rotation"] = Entry(drime.feed_rotation, dict(
        parallactic_angles=(pa, ("time", "ant"))), bch,
        dict(feed_type="linear"), None, dict(feed_type=["circular"]))
    e["transform_sources"] = Entry(drime.transform_sources, dict(
        lm=(lm, ("source", "l")), parallactic_angles=(pa, ("time", "ant")),
        pointing_errors=(generic((NT, NA, 2), "f8", 21), ("time", "ant",
                                                          "l")),
        antenna_scaling=(generic((NA, NC), "f8", 22, .5, 2),
                         ("ant", "chan")), frequency=(freq, ("chan",))),
        bch, {}, None, dict(dtype=[np.float32]))
    e["beam_cube_dde"] = Entry(drime.beam_cube_dde, dict(
        beam=(generic((3, 4, 2, 2, 2), "c16", 25), "lmfcd"),
        beam_lm_extents=(np.array([[-1., 1.2], [-.8, 1.]]), "xy"),
        beam_freq_map=(np.array([1e9, 1.4e9]), "f"),
        lm=(lm, ("source", "l")), parallactic_angles=(pa, ("time", "ant")),
        point_errors=(generic((NT, NA, NC, 2), "f8", 23, -.1, .1),
                      ("time", "ant", "chan", "l")),
        antenna_scaling=(generic((NA, NC, 2), "f8", 24, .8, 1.2),
                         ("ant", "chan", "l")),
        frequencies=(freq, ("chan",))), bch)
    e["zernike_dde"] = Entry(drime.zernike_dde, dict(
        coords=(generic((3, NS, NT, NA, NC), "f8", 27, -.6, .6),
                ("xyz", "source", "time", "ant", "chan")),
        coeffs=(generic((NA, NC, 2, 2, 3), "c16", 28),
                ("ant", "chan", "c", "d", "poly")),
        noll_index=(np.arange(NA * NC * 4 * 3).reshape(NA, NC, 2, 2, 3) % 9,
                    ("ant", "chan", "c", "d", "poly"))), bch,
        alts=dict(noll_index=np.arange(1, 1 + NA * NC * 4 * 3).reshape(
            NA, NC, 2, 2, 3) % 9))
    e["parallactic_angles"] = Entry(drime.parallactic_angles, dict(
        times=(np.array([4.8e9, 4.80001e9]), ("time",)),
        antenna_positions=(generic((NA, 3), "f8", 26, 1e6, 5e6),
                           ("ant", "xyz")),
        field_centre=(centre, ("fc",))), [{"time": (1, 1)},
                                          {"ant": (1, 2)}, {}],
        dict(backend="test"))
    pch = [{"row": (2, 2), "time": (1, 1), "source": (1, 1)},
           {"row": (4,), "time": (2,), "source": (1, 1)},
           {"row": (2, 2), "time": (1, 1), "source": (2,)},
           {"row": (2, 2), "time": (1, 1), "source": (1, 1),
            "chan": (1, 1)}]
    idx = dict(time_index=(tidx, ROW), antenna1=(ant1, ROW),
               antenna2=(ant2, ROW))
    dde = generic((NS, NT, NA, NC, 2, 2), "c16", 14)
    die = generic((NT, NA, NC, 2, 2), "c16", 15)
    coh = generic((NS, NR, NC, 2, 2), "c16", 16)
    dax = ("source", "time", "ant", "chan", "c1", "c2")
    opts = {"dde": dict(dde1_jones=(dde, dax), dde2_jones=(dde * 1j, dax)),
            "coh": dict(source_coh=(coh, ("source",) + vax)),
            "die": dict(die1_jones=(die, dax[1:]),
                        die2_jones=(die * 1j, dax[1:])),
            "base": dict(base_vis=(vis, vax))}
    palt = dict(time_index=tidx[::-1] * 0 + np.array([0, 0, 1, 1]),
                antenna1=nant1, antenna2=np.array([1, 2, 2, 1], "i4"))
    for c in (("coh",), ("dde",), ("dde", "coh"), ("dde", "die", "base"),
              ("coh", "die"), ("dde", "coh", "die", "base"), ("base",),
              ("die", "base")):
        arr = dict(idx)
        for o in c:
            arr.update(opts[o])
        for st in (None, True):
            if st and not {"dde", "coh"} & set(c):
                continue
            e["predict_vis/%s/%s" % ("+".join(c), st)] = Entry(
                drime.predict_vis, arr, pch, dict(streams=st), palt,
                dict(streams=[{None: True, True: None}[st]])
                if {"dde", "coh"} & set(c) else None)
    return e


ENTRIES = build()
NAMES = sorted(ENTRIES)
ALONE = {}


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and np.allclose(
        a, b, rtol=1e-12 if a.dtype.char in "dD" else 1e-6, atol=0,
        equal_nan=True)


def alone(name, i):
    if (name, i) not in ALONE:
        ALONE[name, i] = [np.array(v) for v in dsched.compute(
            ENTRIES[name].build(i))[0]]
    return ALONE[name, i]


def single(p):
    """ one call on its own: lazy, declared as it is, in every order """
    name, i = p
    ent = ENTRIES[name]
    what = "%s, %s" % (name, ent.variants[i][0])
    del READS[:]
    out = ent.build(i)
    early = set(READS) - set(ent.eager)
    check(not early, "%s reads %s when it is called", what, sorted(early))
    ref = alone(name, i)
    del READS[:]
    for opt in (True, False):
        for order in ("first", "last"):
            vals = call(dsched.compute, out, order, optimize=opt)[0]
            schedule()
            for v, r in zip(vals, ref):
                check(same(v, r), "%s is %s in one order and %s in another",
                      what, r, v)
    used = set(READS)
    check(used, "%s reads nothing", what)
    for n, (x, v) in enumerate(zip(out, ref)):
        check(x.ndim == v.ndim and x.dtype == v.dtype,
              "%s declares %s of %s dimensions and is %s of %s", what,
              x.dtype, x.ndim, v.dtype, v.ndim)
        m = x._meta
        check(isinstance(m, np.ndarray) and m.dtype == v.dtype and
              m.ndim == v.ndim, "%s has meta %s %s and is %s %s", what,
              getattr(m, "dtype", None), np.shape(m), v.dtype, v.shape)
        for s, t in zip(x.shape, v.shape):
            check(s == t or s != s, "%s declares the shape %s and is %s",
                  what, x.shape, v.shape)
        blocks = list(itertools.product(*[range(b) for b in x.numblocks]))
        got = call(dsched.compute, [x.blocks[b] for b in blocks])[0]
        for b, g in zip(blocks, got):
            want = tuple(c[j] for c, j in zip(x.chunks, b))
            check(g.ndim == len(want) and all(
                w == s or w != w for w, s in zip(want, g.shape)),
                "%s: block %s declares %s and is %s", what, b, want, g.shape)
            check(g.dtype == x.dtype, "%s: block %s is %s", what, b, g.dtype)
        schedule(len(blocks))
        # results compose with further lazy operations
        last = x if x.shape[-1] != x.shape[-1] else x[..., :1]
        y = call(dsched.compute, [(x * 2).sum(), last])[0]
        check(np.allclose(y[0], (v * 2).sum(), rtol=1e-5, equal_nan=True,
                          atol=1e-5 * (np.abs(v).max() if v.size else 1)),
              "%s does not compose with a sum: %s", what, y[0])
        check(same(y[1], v if last is x else v[..., :1]), "%s does not compose with a slice",
              what)
        state()
    # ... and can be sent to another process
    sent = pickle.loads(call(cloudpickle.dumps, out))
    vals = call(dsched.compute, sent)[0]
    schedule()
    for v, r in zip(vals, ref):
        check(same(v, r), "%s is %s after pickling and %s before", what, v, r)
    return tuple(map(str, {v.dtype for v in ref}))


def join(parts, what):
    """ compute several calls in one graph """
    builds = [ENTRIES[n].build(i) for n, i in parts]
    refs = [alone(n, i) for n, i in parts]
    flat = [x for b in builds for x in b]
    for order in ("first", "last"):
        vals = list(call(dsched.compute, flat, order)[0])
        schedule()
        for b, r, p in zip(builds, refs, parts):
            for x in r:
                v = vals.pop(0)
                check(same(v, x), "%s (%s) is %s on its own and %s when "
                      "computed with %s", p[0],
                      ENTRIES[p[0]].variants[p[1]][0], x, v, what)
    state()


def pairs(p):
    """ two calls of one function which differ in one or two arguments """
    name, i = p
    n = 0
    for j in range(len(ENTRIES[name].variants)):
        if j != i:
            join([(name, i), (name, j)], "the variant " +
                 ENTRIES[name].variants[j][0])
            n += 1
    return n


def differ(p):
    """ the variants are observably different from the base """
    name, = p
    ent = ENTRIES[name]
    base = alone(name, 0)
    n = 0
    for i in range(1, len(ent.variants)):
        v = alone(name, i)
        n += len(v) != len(base) or not all(
            same(a, b) for a, b in zip(v, base))
    check(n > 0 or len(ent.variants) < 3, "no variant of %s differs", name)
    return n


def functions(p):
    """ two different functions """
    name, = p
    for other in NAMES:
        if other != name:
            join([(name, 0), (other, 0)], other)
    return len(NAMES) - 1


def mixed(p):
    """ all variants of two functions """
    name, = p
    for other in NAMES:
        if other > name:
            join([(n, i) for n in (name, other)
                  for i in range(len(ENTRIES[n].variants))],
                 "all variants of " + other)
    return len(NAMES) - 1


def everything(p):
    """ all base calls in one graph """
    k, = p
    join([(n, min(k, len(ENTRIES[n].variants) - 1)) for n in NAMES],
         "all functions")
    return len(NAMES)


def groups(tier):
    cases = [(n, i) for n in NAMES for i in range(len(ENTRIES[n].variants))]
    npairs = sum(len(ENTRIES[n].variants) ** 2 for n in NAMES) - len(cases)
    g = [
        Group("alone", cases, single, "nothing is read before the "
              "computation; declared type, shape, blocks and meta are the "
              "computed ones; every boundary order, the unoptimised and the "
              "pickled graph give the same values; results compose",
              "%d calls of %d functions" % (len(cases), len(NAMES))),
        Group("variants", cases, pairs, "two calls of one function in one "
              "graph give what each gives alone",
              "all %d ordered pairs of variants" % npairs),
        Group("distinct", [(n,) for n in NAMES], differ,
              "some variant changes the result", "%d functions" % len(NAMES)),
        Group("functions", [(n,) for n in NAMES], functions,
              "two functions in one graph give what each gives alone",
              "all %d ordered pairs" % (len(NAMES) * (len(NAMES) - 1))),
        Group("everything", [(k,) for k in range(4)], everything,
              "all functions in one graph", "four variants each")]
    if tier == "thorough":
        g.append(Group("mixed", [(n,) for n in NAMES], mixed,
                       "all variants of two functions in one graph give "
                       "what each gives alone", "all %d pairs of functions" %
                       (len(NAMES) * (len(NAMES) - 1) // 2)))
    return g
