"""A stand-in for the nifty_gridder extension module, which is not installed.

Gridding is a plain sum into the cell hashed from the scaled coordinates; as
in the real module a grid passed in is accumulated into and returned. Every
gridded or degridded sample is recorded in LOG as (what, uvw id, channel).
"""
import numpy as np

LOG = []


class GridderConfig(object):
    def __init__(self, nx, ny, eps, csx, csy):
        self.a = nx, ny, eps, csx, csy

    def Nxdirty(self):
        return self.a[0]

    def Nydirty(self):
        return self.a[1]

    def Epsilon(self):
        return self.a[2]

    def Pixsize_x(self):
        return self.a[3]

    def Pixsize_y(self):
        return self.a[4]

    def Nu(self):
        return self.a[0] + 2

    def Nv(self):
        return self.a[1] + 4

    def grid2dirty_c(self, grid):
        if grid.shape != (self.Nu(), self.Nv()):
            raise ValueError("grid shape %s" % (grid.shape,))
        return grid[1:-1, 2:-2] * (2 + 1j)

    def dirty2grid_c(self, image):
        if image.shape != self.a[:2]:
            raise ValueError("image shape %s" % (image.shape,))
        out = np.zeros((self.Nu(), self.Nv()), np.complex128)
        out[1:-1, 2:-2] = image * (1 - 3j)
        return out


class StableConfig(GridderConfig):
    """ a configuration that dask recognises when it meets it again """
    def __dask_tokenize__(self):
        return ("configuration",) + tuple(self.a)


class Baselines(object):
    def __init__(self, uvw, freq):
        if uvw.ndim != 2 or uvw.shape[1] != 3 or freq.ndim != 1:
            raise ValueError("shapes %s %s" % (uvw.shape, freq.shape))
        self.uvw, self.freq = np.array(uvw), np.array(freq)


def getIndices(bl, gc, flags, chbeg, chend, wmin, wmax):
    if not isinstance(gc, GridderConfig) or (chbeg, chend) != (-1, -1):
        raise TypeError("arguments %s" % ((gc, chbeg, chend),))
    if flags.shape != (len(bl.uvw), len(bl.freq)):
        raise ValueError("flags %s for %d baselines x %d channels" % (
            flags.shape, len(bl.uvw), len(bl.freq)))
    w = bl.uvw[:, 2:] * bl.freq[None]
    ok = (~np.asarray(flags, bool)) & (w >= wmin) & (w < wmax)
    return np.flatnonzero(ok).astype(np.int32)


def cell(bl, gc, row, chan):
    u, v = bl.uvw[row, 0] * bl.freq[chan], bl.uvw[row, 1] * bl.freq[chan]
    return int(abs(u) * 7 + row * 0) % gc.Nu(), int(abs(v) * 5) % gc.Nv()


def ms2grid_c(bl, gc, idx, vis, grid_in, wgt):
    shape = len(bl.uvw), len(bl.freq)
    if vis.shape != shape or wgt.shape != shape:
        raise ValueError("data %s, weights %s for %s" % (vis.shape, wgt.shape,
                                                         shape))
    grid = np.zeros((gc.Nu(), gc.Nv()), np.complex128) if grid_in is None \
        else grid_in
    for i in idx:
        r, c = divmod(int(i), shape[1])
        grid[cell(bl, gc, r, c)] += vis[r, c] * wgt[r, c]
        LOG.append(("grid", float(bl.uvw[r, 0]), c, complex(vis[r, c])))
    return grid


def grid2ms_c(bl, gc, idx, grid):
    if not grid.flags.c_contiguous:
        raise ValueError("layout")
    out = np.zeros((len(bl.uvw), len(bl.freq)), np.complex128)
    for i in idx:
        r, c = divmod(int(i), len(bl.freq))
        out[r, c] = grid[cell(bl, gc, r, c)]
        LOG.append(("degrid", float(bl.uvw[r, 0]), c, 0))
    return out
