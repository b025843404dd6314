"""Concrete construction of fieldsets / particle sets from a JSON-able configuration, used both for
the symbolic runs (structure only, data/positions overlaid symbolically) and for replays."""
import numpy as np
from fractions import Fraction

from . import env  # noqa
from parcels import FieldSet, Field, VectorField, ParticleSet, JITParticle, ScipyParticle, Variable
from parcels.grid import RectilinearZGrid, RectilinearSGrid, CurvilinearZGrid, CurvilinearSGrid, Grid
from parcels.tools.statuscodes import StateCode, OperationCode, ErrorCode
from .samp import PJ, PS, SampleP, SampleUV, SampleUVW, SampleXYZ

ALLCODES = [ErrorCode.Error, ErrorCode.ErrorInterpolation, ErrorCode.ErrorOutOfBounds, ErrorCode.ErrorThroughSurface,
            ErrorCode.ErrorTimeExtrapolation]


def nparr(v, dtype=np.float32):
    return np.array(tofloat(v), dtype=dtype)


def tofloat(v):
    if isinstance(v, (list, tuple)):
        return [tofloat(x) for x in v]
    if isinstance(v, np.ndarray):
        return tofloat(v.tolist())
    return float(v)


def make_grid(cfg):
    lon, lat = nparr(cfg['lon']), nparr(cfg['lat'])
    depth = nparr(cfg.get('depth', [0.]))
    time = np.array(tofloat(cfg.get('time', [0.])), dtype=np.float64)
    mesh = cfg.get('mesh', 'flat')
    if lon.ndim == 1:
        if depth.ndim == 1:
            g = RectilinearZGrid(lon, lat, depth, time, mesh=mesh)
        else:
            g = RectilinearSGrid(lon, lat, depth, time, mesh=mesh)
    else:
        if depth.ndim == 1:
            g = CurvilinearZGrid(lon, lat, depth, time, mesh=mesh)
        else:
            g = CurvilinearSGrid(lon, lat, depth, time, mesh=mesh)
    if cfg.get('zonal_periodic'):
        g.zonal_periodic = True
    return g


def shape_of(cfg):
    lon, lat = np.array(tofloat(cfg['lon'])), np.array(tofloat(cfg['lat']))
    depth = np.array(tofloat(cfg.get('depth', [0.])))
    nt = len(cfg.get('time', [0.]))
    nz = depth.shape[0] if depth.ndim == 1 else depth.shape[-3]
    if lon.ndim == 1:
        ny, nx = lat.size, lon.size
    else:
        ny, nx = lon.shape
    return (nt, nz, ny, nx)


def data_shape(cfg):
    """shape of the data arrays; POP data may lack the level at the bottom of the last cell"""
    nt, nz, ny, nx = shape_of(cfg)
    return (nt, nz - 1 if cfg.get('short') else nz, ny, nx)


def make_fieldset(cfg, data=None):
    """fields: names in cfg['fields'] (default ['P']) share one grid; data: name -> array (t,z,y,x)"""
    g = make_grid(cfg)
    sh = data_shape(cfg)
    names = cfg.get('fields', ['P'])
    fdict = {}

    def mk(name, method):
        arr = np.zeros(sh, dtype=np.float32)
        if data is not None and name in data:
            arr = np.array(tofloat(data[name]), dtype=np.float32).reshape(sh)
        if sh[1] == 1:
            arr = arr.reshape((sh[0],) + sh[2:])
        kw = {}
        if 'ftype' in cfg:
            kw['fieldtype'] = cfg['ftype']
        f = Field(name, arr, grid=g, interp_method=method, gridindexingtype=cfg.get('indexing', 'nemo'),
                  allow_time_extrapolation=cfg.get('extrap'), time_periodic=cfg.get('periodic', False), mesh=cfg.get('mesh', 'flat'), **kw)
        return f
    meth = cfg.get('method', 'linear')
    for n in names:
        m = meth[n] if isinstance(meth, dict) else meth
        fdict[n] = mk(n, m)
    U = fdict.pop('U', None)
    V = fdict.pop('V', None)
    if cfg.get('uvsep') and U is None:
        z2 = np.zeros((2, 2), dtype=np.float32)
        gl, gt = g.lon.ravel(), g.lat.ravel()
        lo, la = np.array([gl.min() - 1, gl.max() + 1], dtype=np.float32), np.array([gt.min() - 1, gt.max() + 1], dtype=np.float32)
        U = Field('U', z2, lon=lo, lat=la, mesh=cfg.get('mesh', 'flat'))
        V = Field('V', z2, grid=U.grid)
    if U is None:
        U = Field('U', np.zeros((sh[0],) + sh[2:] if sh[1] == 1 else sh, dtype=np.float32), grid=g, allow_time_extrapolation=True, gridindexingtype=cfg.get('indexing', 'nemo'))
    if V is None:
        V = Field('V', np.zeros((sh[0],) + sh[2:] if sh[1] == 1 else sh, dtype=np.float32), grid=g, allow_time_extrapolation=True, gridindexingtype=cfg.get('indexing', 'nemo'))
    fs = FieldSet(U, V, fields=fdict)
    fs.check_complete()
    return fs


KERNELS = {'P': SampleP, 'UV': SampleUV, 'UVW': SampleUVW, 'XYZ': SampleXYZ}
OUTS = {'P': ('p',), 'UV': ('p', 'p2'), 'UVW': ('p', 'p2', 'p3'), 'XYZ': ('p', 'p2', 'p3')}


def real_sample(cfg, data, pos, mode, hints=None, dtype=np.float64):
    """run the real, unmodified parcels on concrete numbers; pos: dict x,y,z,t. -> ('ok', values) | ('err', code)"""
    fs = make_fieldset(cfg, data)
    pclass = PJ if mode == 'jit' else PS
    what = cfg.get('sample', 'P')
    ps = ParticleSet(fs, pclass, lon=[float(pos['x'])], lat=[float(pos['y'])], depth=[float(pos.get('z', 0))],
                     time=[float(pos.get('t', 0))], lonlatdepth_dtype=dtype)
    if hints:
        for k in ('xi', 'yi', 'zi', 'ti'):
            if k in hints:
                ps.collection._data[k][:, :] = int(hints[k])
    codes = []

    def rec(code):
        def f(particle, fieldset, time):
            codes.append((code, repr(getattr(particle, 'exception', None))))
            particle.delete()
        return f
    ps.execute(KERNELS[what], runtime=0, dt=0, recovery={c: rec(c) for c in ALLCODES}, verbose_progress=False)
    if codes:
        return ('err', codes[0][0], codes[0][1])
    return ('ok', tuple(float(ps.collection._data[o][0]) for o in OUTS[what]))
