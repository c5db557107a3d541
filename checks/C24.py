"""C24: calls leave their arguments alone and can be repeated.

The public entry points are the alphabet; a history is a sequence of calls on
one shared set of argument objects (a baseline table, an image
is used by many of them).  All single calls in all memory layouts and all
ordered pairs (thorough: triples over a smaller alphabet) are executed.
"""
import itertools
import logging

import numpy as np
import dask
import dask.array as da

import shim
from core import Group, Violation, call, check, state
from refs import generic, relayout

import africanus.averaging as avg
import africanus.averaging.dask as davg
from africanus.averaging import splines
from africanus.averaging.time_and_channel_mapping import (channel_mapper,
                                                          row_mapper)
import africanus.calibration.phase_only as po
import africanus.calibration.phase_only.dask as dpo
import africanus.calibration.utils as cu
import africanus.calibration.utils.dask as dcu
import africanus.coordinates as co
import africanus.coordinates.dask as dco
from africanus.deconv.hogbom.clean import (fit_2d_gaussian, hogbom_clean,
                                           find_peak, restore)
import africanus.dft as dft
import africanus.dft.dask as ddft
import africanus.gps as gps
from africanus.gridding.util import estimate_cell_size
import africanus.gridding.wgridder as wg
import africanus.gridding.wgridder.dask as dwg
from africanus.gridding.perleypolyhedron import kernels as pk
from africanus.gridding.perleypolyhedron.gridder import gridder
from africanus.gridding.perleypolyhedron.degridder import degridder_serial
import africanus.gridding.perleypolyhedron.dask as dpp
from africanus.linalg import kronecker_tools as kt
import africanus.model.coherency as coh
import africanus.model.coherency.dask as dcoh
import africanus.model.shape as shp
import africanus.model.shape.dask as dshp
import africanus.model.spectral as spec
import africanus.model.spectral.dask as dspec
import africanus.model.spi as spi
import africanus.model.spi.dask as dspi
import africanus.model.wsclean as ws
import africanus.model.wsclean.dask as dws
import africanus.rime as rime
import africanus.rime.dask as drime
from africanus.util import beams, shapes
from africanus.util.type_inference import infer_complex_dtype

if shim.MODE == "interp":
    import africanus.rime.zernike as zmod
    zmod.__dict__["range"] = shim._install_interp.tolerant_range

ASSUMPTIONS = ["a fitted spline keeps its knots, regions keep their "
               "corners: objects that stand for their arguments",
               "chunked arrays may be views of the arrays they were made "
               "from"]

logging.getLogger().setLevel(logging.CRITICAL)
NR, NC, NS, NA, NT = 4, 2, 2, 3, 2


def objects(arrays):
    out = np.empty(len(arrays), object)
    for i, a in enumerate(arrays):
        out[i] = a
    return out


def pool():
    """ the shared arguments """
    p = dict(
        uvw=generic((NR, 3), "f8", 1, -30, 30),
        freq=np.array([1e9, 1.1e9]), lm=generic((NS, 2), "f8", 2, -.1, .1),
        radec=generic((NS, 2), "f8", 3, 0, 1), centre=np.array([.3, -.4]),
        time=np.array([0., 0., 1., 1.]), tidx=np.array([0, 0, 1, 1]),
        interval=np.ones(NR), utime=np.array([4.8e9, 4.80001e9]),
        ant1=np.array([0, 0, 0, 1], "i4"),
        ant2=np.array([1, 2, 1, 2], "i4"),
        tbi=np.array([0, 2]), tbc=np.array([2, 2]),
        vis=generic((NR, NC, 2, 2), "c16", 4),
        vis2=generic((NR, NC), "c16", 5),
        vis4=generic((NR, NC, 4), "c16", 6),
        vis1=generic((NR, NC, 1), "c16", 6),
        flag=np.zeros((NR, NC, 2, 2), bool),
        flag4=np.zeros((NR, NC, 4), "u1"), flag1=np.zeros((NR, NC, 1), "u1"),
        mask=np.array([[1, 1], [0, 1], [1, 1], [1, 0]], "u1"),
        wgt2=generic((NR, NC), "f8", 7, .5, 2),
        wgt4=generic((NR, NC, 4), "f8", 8, .5, 2),
        wgt1=generic((NR, NC, 1), "f8", 8, .5, 2),
        wrow=generic((NR, 4), "f8", 9, .5, 2),
        sig4=generic((NR, NC, 4), "f8", 10, .5, 2),
        width=np.array([1e6, 2e6]),
        jones=generic((NT, NA, NC, 1, 2), "c16", 11) + 2,
        jones22=generic((NT, NA, NC, 1, 2, 2), "c16", 11) + np.eye(2) * 3,
        jd=generic((NT, NA, NC, 1, 1), "c16", 11) + 2,
        model=generic((NR, NC, 1, 2, 2), "c16", 12),
        mod1=generic((NR, NC, 1, 1), "c16", 12),
        srcim=generic((NS, NC, 4), "f8", 13),
        dde=generic((NS, NT, NA, NC, 2, 2), "c16", 14),
        die=generic((NT, NA, NC, 2, 2), "c16", 15),
        coh=generic((NS, NR, NC, 2, 2), "c16", 16),
        image=generic((1, 12, 10), "f8", 17), bidx=np.array([0]),
        bcnt=np.array([NC]), psf=generic((16, 16), "f8", 18, 0, .3),
        dirty=generic((8, 8), "f8", 19, 0, 1),
        dirtier=generic((8, 8), "f8", 19, -1, 1),
        lobe=np.exp(-.15 * (np.arange(16.) - 7)[:, None] ** 2 -
                    .2 * (np.arange(16.) - 7) ** 2),
        pa=generic((NT, NA), "f8", 20), perr=generic((NT, NA, 2), "f8", 21),
        ascale=generic((NA, NC), "f8", 22, .5, 2),
        perr4=generic((NT, NA, NC, 2), "f8", 23, -.1, .1),
        ascale2=generic((NA, NC, 2), "f8", 24, .8, 1.2),
        beam=generic((3, 4, 2, 2, 2), "c16", 25),
        ext=np.array([[-1., 1.2], [-.8, 1.]]), bfreq=np.array([1e9, 1.4e9]),
        antpos=generic((NA, 3), "f8", 26, 1e6, 5e6),
        zc=generic((3, NS, NT, NA, NC), "f8", 27, -.7, .7),
        zk=generic((NA, NC, 2, 2, 3), "c16", 28),
        zn=np.arange(NA * NC * 4 * 3).reshape(NA, NC, 2, 2, 3) % 9,
        gauss=generic((NS, 3), "f8", 29, 1e-4, 1e-3),
        stokes=generic((NS,), "f8", 30, .5, 2),
        spi=generic((NS, 2), "f8", 31, -.5, .5), ref=np.full(NS, 1.05e9),
        stype=np.array(["POINT", "GAUSSIAN"]), log=np.array([True, False]),
        comps=generic((3, 3), "f8", 32, .5, 2),
        wchan=generic((3,), "f8", 33, .5, 2), freq3=np.array([1e9, 1.1e9,
                                                             1.2e9]),
        alphai=generic((3,), "f8", 34), i0=generic((3,), "f8", 35, .5, 2),
        bm=generic((3, 3), "f8", 36, .5, 1),
        x=np.array([0., 1., 2.5, 4.]), y=np.array([1., 0., 2., -1.]),
        q=np.array([-1., 0., 3., .5, 5.]), pts=generic((4, 1), "f8", 37),
        xg=np.arange(4.)[:, None],
        mats=objects([np.eye(2) * 3 + 1, np.eye(3) * 4 + 1]),
        vec=generic((6,), "f8", 38), mat=generic((6, 2), "f8", 39),
        chanmap=np.array([0, 0]), wave=np.array([.21, .2]),
        kern=pk.pack_kernel(pk.kbsinc(5, oversample=3), 5, 3),
        kern1=pk.kbsinc(5, oversample=3),
        gstack=generic((1, 8, 8), "c16", 40), icen=np.array([[.3, -.4]]),
        header={"NAXIS": 3, "CTYPE1": "L", "CUNIT1": "RAD", "NAXIS1": 3,
                "CRPIX1": 2.0, "CRVAL1": 0.0, "CDELT1": .1, "CTYPE2": "M",
                "CUNIT2": "DEG", "NAXIS2": 3, "CRPIX2": 2.0, "CRVAL2": 0.0,
                "CDELT2": .1, "CTYPE3": "FREQ", "CUNIT3": "HZ", "NAXIS3": 2,
                "CRPIX3": 1.0, "CRVAL3": 1e9, "CDELT3": 1e6},
        corrs=["XX", "XY", "YX", "YY"], stk=[["I", "Q"], ["U", "V"]],
        chunks=((1, 2, 1), (2, 1, 1)), limits=(3, 3))
    p["psf"][7, 7] = 1.
    return p


def D(a, *first):
    """ a chunked form of an argument """
    ch = tuple(first) + tuple(a.shape[len(first):])
    return da.from_array(a, chunks=ch, name=False)


def comp(*v):
    return [np.array(x, copy=False) if x is not None else None
            for x in dask.compute(*v, scheduler="sync")]


def wgkw(p, kind):
    return {"": {}, "w": {"weights": p["wgt2"]}, "m": {"flag": p["mask"]},
            "wm": {"weights": p["wgt2"], "flag": p["mask"]}}[kind]


CELL = np.deg2rad(5.)


def build():
    e = {}

    # -- averaging
    def tac(p, cols, f=avg.time_and_channel, d=lambda a, *k: a, kv="vis4",
            kf="flag4"):
        m = {"time_centroid": (p["time"], 2), "exposure": (p["interval"], 2),
             "uvw": (p["uvw"], 2), "weight": (p["wrow"], 2),
             "sigma": (p["wrow"], 2), "chan_freq": (p["freq"], NC),
             "chan_width": (p["width"], NC), "vis": (p[kv], 2),
             "flag": (p[kf], 2), "weight_spectrum": (p["wgt4"], 2),
             "sigma_spectrum": (p["sig4"], 2)}
        kw = {k: d(*m[k]) for k in cols}
        return f(d(p["time"], 2), d(p["interval"], 2), d(p["ant1"], 2),
                 d(p["ant2"], 2), time_bin_secs=2.0, chan_bin_size=2, **kw)
    full = ("time_centroid", "exposure", "uvw", "weight", "sigma",
            "chan_freq", "chan_width", "vis", "flag", "weight_spectrum",
            "sigma_spectrum")
    e["time_and_channel"] = lambda p: tac(p, full)
    e["time_and_channel/vis"] = lambda p: tac(p, ("vis",))
    e["time_and_channel/flags"] = lambda p: tac(p, ("flag", "uvw"))
    e["dask time_and_channel"] = lambda p: comp(*[
        x for x in tac(p, full, davg.time_and_channel, D) if x is not None])
    e["row_mapper"] = lambda p: row_mapper(
        p["time"], p["interval"], p["ant1"], p["ant2"], time_bin_secs=2)
    e["channel_mapper"] = lambda p: channel_mapper(5, 2)
    e["fit_cubic_spline"] = lambda p: splines.fit_cubic_spline(
        p["x"], p["y"])[:3]
    e["evaluate_spline"] = lambda p: [splines.evaluate_spline(
        splines.fit_cubic_spline(p["x"], p["y"]), p["q"], order=o)
        for o in (0, 1, 2)]
    e["solve_trid_system"] = lambda p: splines.solve_trid_system(
        p["x"], p["y"], 1, 1, .5, .25)

    # -- calibration
    head = lambda p: (p["tbi"], p["tbc"], p["ant1"], p["ant2"])  # noqa
    dhead = lambda p: (D(p["tbi"], 1), D(p["tbc"], 1),           # noqa
                       D(p["ant1"], 2), D(p["ant2"], 2))
    for j in ("jones", "jones22"):
        e["corrupt_vis/" + j] = lambda p, j=j: cu.corrupt_vis(
            *head(p), p[j], p["model"])
        e["correct_vis/" + j] = lambda p, j=j: cu.correct_vis(
            *head(p), p[j], p["vis"], p["flag"])
        e["residual_vis/" + j] = lambda p, j=j: cu.residual_vis(
            *head(p), p[j], p["vis"], p["flag"], p["model"])
        e["dask corrupt_vis/" + j] = lambda p, j=j: comp(dcu.corrupt_vis(
            *dhead(p), D(p[j], 1), D(p["model"], 2)))
        e["dask correct_vis/" + j] = lambda p, j=j: comp(dcu.correct_vis(
            *dhead(p), D(p[j], 1), D(p["vis"], 2), D(p["flag"], 2)))
        e["dask residual_vis/" + j] = lambda p, j=j: comp(dcu.residual_vis(
            *dhead(p), D(p[j], 1), D(p["vis"], 2), D(p["flag"], 2),
            D(p["model"], 2)))

    def cac(p, f, d):
        lm3 = np.stack([p["lm"][:1]] * NT)
        return f(*(head(p) if d is None else dhead(p)),
                 *[x if d is None else D(x, n) for x, n in (
                     (p["jones22"], 1), (p["jones22"][:, 0], 1),
                     (p["uvw"], 2), (p["freq"], NC), (lm3, 1))])
    e["compute_and_corrupt_vis"] = lambda p: cac(
        p, cu.compute_and_corrupt_vis, None)
    e["dask compute_and_corrupt_vis"] = lambda p: comp(cac(
        p, dcu.compute_and_corrupt_vis, 1))
    pj = lambda p: head(p) + (p["jd"],)                          # noqa
    e["compute_jhj"] = lambda p: po.compute_jhj(*pj(p), p["mod1"],
                                                p["flag1"])
    e["compute_jhr"] = lambda p: po.compute_jhr(*pj(p), p["vis1"], p["mod1"],
                                                p["flag1"])
    e["compute_jhj_and_jhr"] = lambda p: po.compute_jhj_and_jhr(
        *pj(p), p["vis1"], p["mod1"], p["flag1"])
    e["gauss_newton"] = lambda p: po.gauss_newton(
        *pj(p), p["vis1"], p["flag1"], p["mod1"], p["wgt1"], maxiter=3)
    e["dask compute_jhj"] = lambda p: comp(dpo.compute_jhj(
        *dhead(p), D(p["jd"], 1), D(p["mod1"], 2), D(p["flag1"], 2)))
    e["dask compute_jhr"] = lambda p: comp(dpo.compute_jhr(
        *dhead(p), D(p["jd"], 1), D(p["vis1"], 2), D(p["mod1"], 2),
        D(p["flag1"], 2)))
    e["check_type"] = lambda p: cu.check_type(p["jones"], p["vis"])
    e["chunkify_rows"] = lambda p: cu.chunkify_rows(p["time"], 1)

    # -- coordinates
    for n, a in (("radec_to_lm", "radec"), ("radec_to_lmn", "radec"),
                 ("lm_to_radec", "lm")):
        e[n] = lambda p, n=n, a=a: getattr(co, n)(p[a], p["centre"])
        e[n + "/zero"] = lambda p, n=n, a=a: getattr(co, n)(p[a])
        e["dask " + n] = lambda p, n=n, a=a: comp(getattr(dco, n)(
            D(p[a], 1), D(p["centre"])))
    e["lmn_to_radec"] = lambda p: co.lmn_to_radec(np.concatenate(
        [p["lm"], np.sqrt(1 - (p["lm"] ** 2).sum(-1))[:, None]], -1),
        p["centre"])

    # -- deconvolution
    e["hogbom_clean"] = lambda p: hogbom_clean(p["dirty"], p["psf"], niter=3)
    e["hogbom_clean/default"] = lambda p: hogbom_clean(
        p["dirty"], p["psf"], gamma=.3, threshold=.5, niter=2)
    e["restore"] = lambda p: restore(p["dirty"], p["lobe"], p["dirtier"])
    e["fit_2d_gaussian"] = lambda p: fit_2d_gaussian(p["lobe"])
    e["find_peak"] = lambda p: find_peak(p["dirty"])

    # -- transforms
    e["im_to_vis"] = lambda p: dft.im_to_vis(p["srcim"], p["uvw"], p["lm"],
                                             p["freq"])
    e["vis_to_im"] = lambda p: dft.vis_to_im(p["vis4"], p["uvw"], p["lm"],
                                             p["freq"], p["flag4"])
    e["dask im_to_vis"] = lambda p: comp(ddft.im_to_vis(
        D(p["srcim"]), D(p["uvw"], 2), D(p["lm"]), D(p["freq"])))
    e["dask vis_to_im"] = lambda p: comp(ddft.vis_to_im(
        D(p["vis4"], 2), D(p["uvw"], 2), D(p["lm"], 1), D(p["freq"]),
        D(p["flag4"], 2)))

    # -- gps, linalg
    e["abs_diff"] = lambda p: gps.abs_diff(p["pts"], p["xg"])
    e["exponential_squared"] = lambda p: gps.exponential_squared(
        p["xg"], p["pts"], 1., .5)
    e["exponential_squared/pspec"] = lambda p: gps.exponential_squared(
        p["xg"], p["xg"], 1., .5, pspec=True)
    e["kron_matvec"] = lambda p: kt.kron_matvec(p["mats"], p["vec"])
    e["kron_matmat"] = lambda p: kt.kron_matmat(p["mats"], p["mat"])
    e["kron_tensorvec"] = lambda p: kt.kron_tensorvec(p["mats"], p["vec"])
    e["kron_tensormat"] = lambda p: kt.kron_tensormat(p["mats"], p["mat"])
    e["kron_cholesky"] = lambda p: kt.kron_cholesky(p["mats"])

    # -- wgridder
    for k in ("", "w", "m", "wm"):
        base = lambda p: (p["uvw"], p["freq"])                   # noqa
        bands = lambda p: (p["bidx"], p["bcnt"])                 # noqa
        e["wgridder dirty/" + k] = lambda p, k=k: wg.dirty(
            *base(p), p["vis2"], *bands(p), 12, 10, CELL, **wgkw(p, k))
        e["wgridder model/" + k] = lambda p, k=k: wg.model(
            *base(p), p["image"], *bands(p), CELL, **wgkw(p, k))
        e["wgridder residual/" + k] = lambda p, k=k: wg.residual(
            *base(p), p["image"], p["vis2"], *bands(p), CELL, **wgkw(p, k))
        e["wgridder hessian/" + k] = lambda p, k=k: wg.hessian(
            *base(p), p["image"], *bands(p), CELL, **wgkw(p, k))

        def dd(p, n, k):
            kw = {a: D(b, 2) for a, b in wgkw(p, k).items()}
            a = {"dirty": (D(p["vis2"], 2),), "model": (D(p["image"]),),
                 "residual": (D(p["image"]), D(p["vis2"], 2)),
                 "hessian": (D(p["image"]),)}[n]
            t = (12, 10, CELL) if n == "dirty" else (CELL,)
            return comp(getattr(dwg, n)(
                D(p["uvw"], 2), D(p["freq"]), *a, D(p["bidx"]),
                D(p["bcnt"]), *t, **kw))
        for n in ("dirty", "model", "residual", "hessian"):
            e["dask wgridder %s/%s" % (n, k)] = \
                lambda p, n=n, k=k: dd(p, n, k)
    e["estimate_cell_size"] = lambda p: estimate_cell_size(
        p["uvw"][:, 0], p["uvw"][:, 1], p["wave"])

    # -- faceting
    pol = ("rotate", "phase_rotate", "I_FROM_XXXYYXYY", "conv_1d_axisymmetric"
           "_packed_scatter")
    gp = ("rotate", "phase_rotate", "XXXYYXYY_FROM_I",
          "conv_1d_axisymmetric_packed_gather")
    e["perley gridder"] = lambda p: gridder(
        p["uvw"], p["vis4"], p["wave"], p["chanmap"], 8, 1000.,
        p["icen"][0], p["centre"] + .01, p["kern"], 5, 3, *pol)
    e["perley degridder"] = lambda p: degridder_serial(
        p["uvw"], p["gstack"], p["wave"], p["chanmap"], 1000., p["icen"][0],
        p["centre"] + .01, p["kern"], 5, 3, *gp)
    e["dask perley gridder"] = lambda p: comp(dpp.gridder(
        D(p["uvw"], 2), D(p["vis4"], 2), D(p["wave"]), D(p["chanmap"]), 8,
        1000., p["icen"], p["centre"] + .01, p["kern"], 5, 3, *pol))
    e["dask perley degridder"] = lambda p: comp(dpp.degridder(
        D(p["uvw"], 2), D(p["gstack"][None]), D(p["wave"]), D(p["chanmap"]),
        1000., p["icen"], p["centre"] + .01, p["kern"], 5, 3, *gp))
    e["pack_kernel"] = lambda p: pk.pack_kernel(p["kern1"], 5, 3)
    e["unpack_kernel"] = lambda p: pk.unpack_kernel(p["kern"], 5, 3)
    for n in ("sinc", "kbsinc", "hanningsinc"):
        e["kernel " + n] = lambda p, n=n: getattr(pk, n)(5, oversample=3)
    e["compute_detaper"] = lambda p: pk.compute_detaper(
        16, np.outer(p["kern1"], p["kern1"]), 5, 3)
    e["compute_detaper_dft_seperable"] = lambda p: \
        pk.compute_detaper_dft_seperable(16, p["kern1"], 5, 3)

    # -- sky models
    e["convert"] = lambda p: coh.convert(p["vis4"], p["corrs"], p["stk"])
    e["convert/same"] = lambda p: coh.convert(p["vis4"], p["corrs"],
                                              ["I", "V"])
    e["dask convert"] = lambda p: comp(dcoh.convert(D(p["vis4"], 2),
                                                    p["corrs"], p["stk"]))
    e["gaussian"] = lambda p: shp.gaussian(p["uvw"], p["freq"], p["gauss"])
    e["dask gaussian"] = lambda p: comp(dshp.gaussian(
        D(p["uvw"], 2), D(p["freq"], 1), D(p["gauss"], 1)))
    for b in (0, 1, 2):
        e["spectral_model/%d" % b] = lambda p, b=b: spec.spectral_model(
            p["stokes"], p["spi"], p["ref"], p["freq"], b)
        e["dask spectral_model/%d" % b] = lambda p, b=b: comp(
            dspec.spectral_model(D(p["stokes"], 1), D(p["spi"], 1),
                                 D(p["ref"], 1), D(p["freq"], 1), b))
    e["fit_spi"] = lambda p: spi.fit_spi_components(
        p["comps"], p["wchan"], p["freq3"], 1.05e9)
    e["fit_spi/start"] = lambda p: spi.fit_spi_components(
        p["comps"], p["wchan"], p["freq3"], 1.05e9, alphai=p["alphai"],
        I0i=p["i0"], beam=p["bm"])
    e["dask fit_spi"] = lambda p: comp(dspi.fit_spi_components(
        D(p["comps"], 1), D(p["wchan"]), D(p["freq3"]), 1.05e9))
    e["dask fit_spi/start"] = lambda p: comp(dspi.fit_spi_components(
        D(p["comps"], 1), D(p["wchan"]), D(p["freq3"]), 1.05e9,
        alphai=D(p["alphai"], 1), I0i=D(p["i0"], 1), beam=D(p["bm"], 1)))
    e["wsclean spectra"] = lambda p: ws.spectra(
        p["stokes"], p["spi"], p["log"], p["ref"], p["freq"])
    e["dask wsclean spectra"] = lambda p: comp(dws.spectra(
        D(p["stokes"], 1), D(p["spi"], 1), D(p["log"], 1), D(p["ref"], 1),
        D(p["freq"], 1)))
    wa = ("uvw", "lm", "stype", "stokes", "spi", "log", "ref", "gauss",
          "freq")
    e["wsclean_predict"] = lambda p: rime.wsclean_predict(
        *[p[k] for k in wa])
    e["dask wsclean_predict"] = lambda p: comp(drime.wsclean_predict(
        *[D(p[k], 1) for k in wa]))

    # -- measurement equation
    e["phase_delay"] = lambda p: rime.phase_delay(p["lm"], p["uvw"],
                                                  p["freq"])
    e["dask phase_delay"] = lambda p: comp(drime.phase_delay(
        D(p["lm"], 1), D(p["uvw"], 2), D(p["freq"], 1)))
    for f in ("linear", "circular"):
        e["feed_rotation/" + f] = lambda p, f=f: rime.feed_rotation(p["pa"],
                                                                    f)
    e["dask feed_rotation"] = lambda p: comp(drime.feed_rotation(
        D(p["pa"], 1), "linear"))
    xa = ("lm", "pa", "perr", "ascale", "freq")
    e["transform_sources"] = lambda p: rime.transform_sources(
        *[p[k] for k in xa])
    e["dask transform_sources"] = lambda p: comp(drime.transform_sources(
        *[D(p[k], 1) for k in xa]))
    ba = ("beam", "ext", "bfreq", "lm", "pa", "perr4", "ascale2", "freq")
    e["beam_cube_dde"] = lambda p: rime.beam_cube_dde(*[p[k] for k in ba])
    e["dask beam_cube_dde"] = lambda p: comp(drime.beam_cube_dde(
        *[D(p[k]) if k in ba[:3] else D(p[k], 1) for k in ba]))
    e["zernike_dde"] = lambda p: rime.zernike_dde(p["zc"], p["zk"], p["zn"])
    e["dask zernike_dde"] = lambda p: comp(drime.zernike_dde(
        D(p["zc"], 3, 1), D(p["zk"]), D(p["zn"])))
    e["parallactic_angles"] = lambda p: rime.parallactic_angles(
        p["utime"], p["antpos"], p["centre"], backend="astropy")
    idx = lambda p: (p["tidx"], p["ant1"], p["ant2"])            # noqa
    opts = {"dde": {"dde1_jones": "dde", "dde2_jones": "dde"},
            "die": {"die1_jones": "die", "die2_jones": "die"},
            "coh": {"source_coh": "coh"}, "base": {"base_vis": "vis"}}
    for r in (1, 2, 3, 4):
        for c in itertools.combinations(sorted(opts), r):
            if c == ("die",):
                continue
            kw = {k: v for o in c for k, v in opts[o].items()}
            e["predict_vis/" + "+".join(c)] = lambda p, kw=kw: \
                rime.predict_vis(*idx(p), **{k: p[v] for k, v in kw.items()})
            for st in (None, 1):
                e["dask predict_vis/%s/%s" % ("+".join(c), st)] = \
                    lambda p, kw=kw, st=st: comp(drime.predict_vis(
                        *[D(x, 2) for x in idx(p)], streams=st,
                        **{k: D(p[v], 2) if v == "vis" else D(p[v], 1)
                           if v == "die" else D(p[v], 1, 1) if v == "dde"
                           else D(p[v], 1, 2) for k, v in kw.items()}))
    e["apply_gains"] = lambda p: rime.apply_gains(*idx(p), p["die"],
                                                  p["vis"], p["die"])

    # -- helpers
    e["beam_grids"] = lambda p: beams.beam_grids(p["header"])
    e["beam_filenames"] = lambda p: sorted(beams.beam_filenames(
        "b_$(corr)_$(reim).fits", [9, 10, 11, 12]).items())
    e["aggregate_chunks"] = lambda p: shapes.aggregate_chunks(p["chunks"],
                                                              p["limits"])
    e["infer_complex_dtype"] = lambda p: str(np.dtype(infer_complex_dtype(
        p["uvw"], p["lm"])))
    return e


ENTRIES = build()
NAMES = sorted(ENTRIES)


def leaves(x, out=None):
    """ the arrays in a result, in order; other values by repr """
    out = [] if out is None else out
    if isinstance(x, np.ndarray) and x.dtype == object:
        for v in x:
            leaves(v, out)
    elif isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, dict):
        for k in x:
            out.append(np.array(repr(k)))
            leaves(x[k], out)
    elif isinstance(x, (tuple, list)):
        for v in x:
            leaves(v, out)
    else:
        out.append(np.array(repr(x)))
    return out


def equal(a, b):
    return len(a) == len(b) and all(
        x.dtype == y.dtype and x.shape == y.shape and (
            np.array_equal(x, y) or
            x.dtype.kind in "fc" and np.array_equal(x, y, equal_nan=True))
        for x, y in zip(a, b))


def relayout_pool(p, kind):
    def f(v):
        if isinstance(v, np.ndarray) and v.dtype == object:
            return objects([f(x) for x in v])
        if isinstance(v, np.ndarray):
            return relayout(v, kind)
        return v
    return {k: f(v) for k, v in p.items()}


def unchanged(p, ref, what):
    for k in p:
        a, b = leaves(p[k]), leaves(ref[k])
        check(equal(a, b) and type(p[k]) is type(ref[k]),
              "%s changed the argument %s from %s to %s", what, k, ref[k],
              p[k])


def own(res, p, what):
    for r in res:
        if r.size == 0:
            continue
        for k, v in p.items():
            for a in leaves(v):
                check(not np.shares_memory(r, a), "the result of %s shares "
                      "memory with the argument %s", what, k)


def run(name, p, what):
    return leaves(call(ENTRIES[name], p))


REF = {}


def reference(name):
    if name not in REF:
        REF[name] = [r.copy() for r in run(name, pool(), name)]
    return REF[name]


def near(a, b):
    """ layouts may change the order of library reductions """
    return len(a) == len(b) and all(
        x.dtype == y.dtype and x.shape == y.shape and (
            np.array_equal(x, y) or x.dtype.kind in "fc" and
            np.allclose(x, y, rtol=1e-10, atol=1e-10 * (1 + np.nanmax(
                np.abs(y))), equal_nan=True)) for x, y in zip(a, b))


def single(p):
    name, kind = p
    ref = pool()
    args = relayout_pool(ref, kind)
    what = "%s (%s arguments)" % (name, kind)
    a = run(name, args, what)
    unchanged(args, ref, what)
    own(a, args, what)
    check(near(a, reference(name)), "%s gives another result than with plain "
          "arguments", what)
    keep = [x.copy() for x in a]
    b = run(name, args, what)
    check(equal(keep, b), "%s gives another result the second time", what)
    check(equal(keep, a), "%s changed its earlier result", what)
    for x in a:
        for y in b:
            check(x.size == 0 or not np.shares_memory(x, y) or
                  x.dtype.kind == "U", "two results of %s share memory",
                  what)
    spoil(a)
    c = run(name, args, what)
    check(equal(keep, c), "%s depends on what the caller does with an "
          "earlier result", what)
    check(equal(keep, b), "writing into one result of %s changes another",
          what)
    return len(a)


class Spy(dict):
    def __init__(self, d):
        dict.__init__(self, d)
        self.used = []

    def __getitem__(self, k):
        if k not in self.used:
            self.used.append(k)
        return dict.__getitem__(self, k)


SPECIAL = {"zero": 0.0, "one": 1.0, "minus": -1.0, "nan": np.nan}


def special(p):
    """ one argument (or all data) holding one special value everywhere;
    the call may then be refused, but must not disturb anything """
    name, value = p
    spy = Spy(pool())
    run(name, spy, name)
    n = 0
    for key in spy.used + ["*"]:
        ref = pool()
        for k in (spy.used if key == "*" else [key]):
            a = ref[k]
            if not isinstance(a, np.ndarray) or a.dtype.kind not in "fcbu":
                continue
            if a.dtype.kind in "bu" and value not in ("zero", "one"):
                continue
            a[...] = SPECIAL[value]
        args = {k: v.copy() if isinstance(v, np.ndarray) and
                v.dtype != object else v for k, v in pool().items()}
        for k in spy.used:
            if isinstance(ref[k], np.ndarray) and ref[k].dtype != object:
                args[k] = ref[k].copy()
        what = "%s with %s %s" % (name, key, value)
        out = []
        for i in range(3):
            try:
                with np.errstate(all="ignore"):
                    r = leaves(ENTRIES[name](args))
                own(r, args, what)
                out.append([x.copy() for x in r])
                spoil(r)
            except Violation:
                raise
            except Exception as e:
                out.append(type(e).__name__)
            unchanged(args, ref, what)
        for o in out[1:]:
            check(type(o) is type(out[0]) and (
                o == out[0] if isinstance(o, str) else equal(o, out[0])),
                "%s gives another result when repeated", what)
        n += 1
        state()
    return n


def spoil(res):
    """ the caller uses a result as scratch space """
    for x in res:
        if x.flags.writeable and x.dtype.kind in "fciub":
            x[...] = 1 if x.dtype.kind != "f" else np.nan


def pair(p):
    """ history: first, second, first again, on the same objects """
    first, = p
    ref = pool()
    want = reference(first)
    for second in NAMES:
        args = pool()
        what = "%s before %s" % (first, second)
        a = run(first, args, what)
        b = run(second, args, what)
        check(equal(b, reference(second)), "%s changes the result of %s",
              first, second)
        check(equal(a, want), "%s changed an earlier result of %s", second,
              first)
        spoil(a)
        spoil(b)
        c = run(first, args, what)
        check(equal(c, want), "%s gives another result after %s", first,
              second)
        unchanged(args, ref, what)
        state()
    return len(NAMES)


PLAIN = [n for n in NAMES if "/" not in n and not n.startswith("dask")]


def triple(p):
    """ two calls between a call and its repetition """
    first, second = p
    ref = pool()
    for third in PLAIN:
        args = pool()
        got = [run(n, args, n) for n in (first, second, third)]
        for n, g in zip((first, second, third), got):
            check(equal(g, reference(n)), "%s gives another result in the "
                  "history %s", n, (first, second, third))
            spoil(g)
        c = run(first, args, first)
        check(equal(c, reference(first)), "%s gives another result after "
              "%s, %s", first, second, third)
        unchanged(args, ref, "%s, %s, %s" % (first, second, third))
        state()
    return len(PLAIN)


def groups(tier):
    kinds = ("C", "F", "strided", "offset", "readonly")
    if tier == "thorough":
        kinds += ("reversed",)
    more = []
    if tier == "thorough":
        more = [Group("triples", list(itertools.product(PLAIN, repeat=2)),
                      triple, "as pairs, for three calls",
                      "all %d ordered triples of the plain entry points" %
                      len(PLAIN) ** 3)]
    return more + [
        Group("single", [(n, k) for n in NAMES for k in kinds], single,
              "arguments unchanged, result independent of the memory layout, "
              "repeatable, not shared with arguments or other results",
              "%d entry points x %d memory layouts" % (len(NAMES),
                                                       len(kinds))),
        Group("special-values", [(n, v) for n in NAMES for v in SPECIAL],
              special, "as single, with an argument or all of them holding "
              "one special value",
              "every argument of every entry point x zero, one, minus one, "
              "not a number"),
        Group("pairs", [(n,) for n in NAMES], pair,
              "no call changes the arguments, the results or the later "
              "results of another",
              "all %d ordered pairs of entry points on shared arguments" %
              len(NAMES) ** 2)]
