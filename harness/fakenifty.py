"""A stand-in for nifty_gridder with its interface and an exact, linear
gridder: a sample belongs to one cell, (u*f mod Nu, v*f mod Nv)."""
import sys
import types

import numpy as np


class GridderConfig:
    def __init__(self, nx, ny, eps, csx, csy):
        self.a = (int(nx), int(ny), float(eps), float(csx), float(csy))

    def Nxdirty(self):
        return self.a[0]

    def Nydirty(self):
        return self.a[1]

    def Epsilon(self):
        return self.a[2]

    def Pixsize_x(self):
        return self.a[3]

    def Pixsize_y(self):
        return self.a[4]

    def Nu(self):
        return self.a[0] + 1

    def Nv(self):
        return self.a[1] + 2

    def _taper(self):
        i, j = np.ogrid[:self.a[0], :self.a[1]]
        return (i + 1)*self.a[3] + 3*(j + 1)*self.a[4]

    def grid2dirty_c(self, grid):
        grid = np.asarray(grid, dtype=np.complex128)
        if grid.shape != (self.Nu(), self.Nv()):
            raise RuntimeError("grid has the wrong shape")
        return grid[:self.a[0], :self.a[1]]*self._taper()

    def dirty2grid_c(self, image):
        image = np.asarray(image)
        if image.shape != self.a[:2]:
            raise RuntimeError("image has the wrong shape")
        g = np.zeros((self.Nu(), self.Nv()), np.complex128)
        g[:self.a[0], :self.a[1]] = image.real*self._taper()
        return g


class Baselines:
    def __init__(self, uvw, freq):
        uvw, freq = (np.asarray(x, dtype=np.float64) for x in (uvw, freq))
        if uvw.ndim != 2 or uvw.shape[1] != 3 or freq.ndim != 1:
            raise RuntimeError("wrong shape of coordinates or frequencies")
        self.uvw, self.freq = uvw, freq

    def shape(self):
        return self.uvw.shape[0], self.freq.shape[0]

    def cells(self, gc):
        u, v = (self.uvw[:, k, None]*self.freq for k in (0, 1))
        return (np.rint(u).astype(int) % gc.Nu(),
                np.rint(v).astype(int) % gc.Nv())


def _type(x, cls):
    if not isinstance(x, cls):
        raise TypeError("incompatible function arguments")


def getIndices(bl, gc, flags, cb=-1, ce=-1, wmin=-1e30, wmax=1e30):
    _type(bl, Baselines)
    _type(gc, GridderConfig)
    flags = np.asarray(flags)
    if flags.dtype != bool:
        raise TypeError("flags must be boolean")
    if flags.shape != bl.shape():
        raise RuntimeError("flags have the wrong shape")
    n = bl.shape()[1]
    cb, ce = (0 if cb < 0 else cb), (n if ce < 0 else ce)
    w = bl.uvw[:, 2, None]*bl.freq
    c = np.arange(n)
    sel = ~flags & (w >= wmin) & (w < wmax) & (c >= cb) & (c < ce)
    return np.flatnonzero(sel.ravel()).astype(np.uint32)


def _select(bl, gc, idx):
    _type(bl, Baselines)
    _type(gc, GridderConfig)
    u, v = (x.ravel()[idx] for x in bl.cells(gc))
    return u, v


def ms2grid_c(bl, gc, idx, ms, grid_in, wgt=None):
    """Adds to grid_in in place when it is given."""
    u, v = _select(bl, gc, idx)
    ms = np.asarray(ms, dtype=np.complex128)
    if ms.shape != bl.shape():
        raise RuntimeError("visibilities have the wrong shape")
    if wgt is not None:
        wgt = np.asarray(wgt, dtype=np.float64)
        if wgt.shape != ms.shape:
            raise RuntimeError("weights have the wrong shape")
        ms = ms*wgt
    if grid_in is None:
        grid_in = np.zeros((gc.Nu(), gc.Nv()), np.complex128)
    elif grid_in.shape != (gc.Nu(), gc.Nv()):
        raise RuntimeError("grid has the wrong shape")
    np.add.at(grid_in, (u, v), ms.ravel()[idx])
    return grid_in


def grid2ms_c(bl, gc, idx, grid, ms_in=None, wgt=None):
    u, v = _select(bl, gc, idx)
    grid = np.asarray(grid, dtype=np.complex128)
    if grid.shape != (gc.Nu(), gc.Nv()):
        raise RuntimeError("grid has the wrong shape")
    ms = np.zeros(bl.shape(), np.complex128) if ms_in is None else ms_in
    ms.reshape(-1)[idx] += grid[u, v]
    return ms


def install():
    m = types.ModuleType("nifty_gridder")
    for k in ("GridderConfig", "Baselines", "getIndices", "ms2grid_c",
              "grid2ms_c"):
        setattr(m, k, globals()[k])
    sys.modules["nifty_gridder"] = m
    return m
