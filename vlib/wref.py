"""Direct-sum reference of the wgridder operators (C01, C02, C24)."""
import numpy as np

C = 299792458.0


def phases(uvw, freq, nx, ny, cell, celly, wstack):
    """ exp(2 pi i phase)/n of shape (row, chan, nx, ny), phase conv. of ducc """
    x = (np.arange(nx) - nx // 2) * cell
    y = (np.arange(ny) - ny // 2) * celly
    x, y = np.meshgrid(x, y, indexing="ij")
    r2 = x * x + y * y
    if wstack:
        nm1 = -r2 / (np.sqrt(1.0 - r2) + 1.0)
    else:
        nm1 = np.zeros_like(r2)
    p = (uvw[:, 0, None, None] * x + uvw[:, 1, None, None] * y
         - uvw[:, 2, None, None] * nm1)
    p = p[:, None] * (freq / C)[None, :, None, None]
    return np.exp(2j * np.pi * p) / (nm1 + 1.0)


class Problem(object):
    """ one call: data, options and the exact answers """

    def __init__(self, uvw, freq, bands, nx, ny, cell, celly=None,
                 weights=None, flag=None, wstack=True):
        celly = cell if celly is None else celly
        self.P = phases(np.asarray(uvw, np.float64),
                        np.asarray(freq, np.float64), nx, ny, cell, celly,
                        wstack)
        self.bands = bands            # list of (start, count)
        nrow, nchan = self.P.shape[:2]
        self.w = (np.ones((nrow, nchan)) if weights is None
                  else np.asarray(weights, np.float64))
        self.m = (np.ones((nrow, nchan)) if flag is None
                  else (np.asarray(flag) != 0).astype(np.float64))
        self.nx, self.ny = nx, ny
        self.nmin = np.abs(self.P).max()       # 1/n at the corner

    def predict(self, image, weighted):
        image = np.asarray(image, np.float64)
        out = np.zeros(self.P.shape[:2], np.complex128)
        for b, (s, n) in enumerate(self.bands):
            sl = slice(s, s + n)
            out[:, sl] = np.einsum("rcxy,xy->rc", self.P[:, sl].conj(),
                                   image[b])
        out *= self.m
        return out * self.w if weighted else out

    def grid(self, vis):
        v = np.asarray(vis, np.complex128) * self.w * self.m
        out = np.zeros((len(self.bands), self.nx, self.ny))
        for b, (s, n) in enumerate(self.bands):
            sl = slice(s, s + n)
            out[b] = np.einsum("rcxy,rc->xy", self.P[:, sl], v[:, sl]).real
        return out

    def model(self, image):
        return self.predict(image, True)

    def dirty(self, vis):
        return self.grid(vis)

    def residual(self, image, vis):
        return self.grid(np.asarray(vis, np.complex128)
                         - self.predict(image, False))

    def hessian(self, image):
        return self.grid(self.predict(image, False))

    # scales of the rounding/approximation error
    def sc_model(self, image):
        return max(np.abs(self.w).max(), 1e-3) * self.nmin * max(
            np.abs(np.asarray(image, np.float64)).sum(axis=(1, 2)).max()
            if len(self.bands) else 0.0, 1e-30)

    def sc_grid(self, vis):
        v = np.abs(np.asarray(vis, np.complex128)) * np.abs(self.w) * self.m
        return max(v.sum(), 1e-30) * self.nmin


def scale_image(prob, image):
    return prob.sc_grid(np.full(prob.P.shape[:2],
                                np.abs(np.asarray(image, np.float64))
                                .sum(axis=(1, 2)).max() * prob.nmin))
