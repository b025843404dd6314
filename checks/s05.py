"""S05: velocity vectors. Sampling the velocity at any point gives the vector defined by the grid staggering
(A-, B-, C-grid), in the units of the mesh, in both modes."""
from fractions import Fraction
import math

import numpy as np

from lib import sym, oblig, spec, cases, asan
from lib.sym import uf, ssqrt
from lib.sampcheck import Inputs, run_mode, grid_arrays, describe, close, real_outcome, concrete_data
from lib.spec import cells, rel, bilin

F = Fraction
FUNCTIONS = ['parcels.field.VectorField.eval / spatial_c_grid_interpolation2D / 3D / 3D_full (Python)', 'parcels.tools.interpolation_utils', 'parcels.tools.converters.GeographicPolar/Geographic (velocity units)',
             'parcels.h: temporal_interpolationUV(W)(_c_grid), spatial_interpolation_UV(W)_c_grid (LLVM IR)', 'codegenerator: vector field evaluation and unit conversion']
BOUNDS = dict(grid='2-4 nodes per axis, concrete irregular coordinates; flat and spherical; rectilinear, curvilinear, z- and s-levels', data='any reals in [-8,8] at every node',
              position='rectilinear: any point of the domain; curvilinear and s-level C-grids: the listed cells and relative positions', time='any instant between two snapshots')
ASSUMPTIONS = ['exact real arithmetic', 'cos uninterpreted with its range for symbolic latitudes, true value at concrete ones']
DEG = F(1852 * 60)
RAD = F(math.pi / 180.)


def _cfgs(tier):
    c = {}
    UV = dict(fields=['U', 'V'], sample='UV')
    UVW = dict(fields=['U', 'V', 'W'], sample='UVW')
    h2 = dict(xi='sym', yi='sym')
    lon, lat = [0., 1., 2.5], [-1., 0.5, 1.]
    # A grid, units
    c['a-flat'] = dict(UV, lon=lon, lat=lat, method='linear')
    c['a-sph'] = dict(UV, lon=lon, lat=[50., 51.5, 52.], method='linear', mesh='spherical')
    c['a-near-sph'] = dict(UV, lon=[0., 1.], lat=[50., 51.5], method='nearest', mesh='spherical')
    c['a-sph-3d'] = dict(UVW, lon=[0., 1.], lat=[50., 51.5], depth=[0., 1., 3.], method='linear', mesh='spherical')
    c['a-sph-t'] = dict(UV, lon=[0., 1.], lat=[50., 51.5], time=[0., 2.], method='linear', mesh='spherical', box=dict(t=[0, 2]))
    B = dict(U='bgrid_velocity', V='bgrid_velocity', W='bgrid_w_velocity')
    for ix, dep in (('pop', [0., 1., 3.]), ('mom5', [1., 2., 4.])):
        c['b-' + ix] = dict(UVW, lon=[0., 1.], lat=[-1., 1.], depth=dep, method=B, indexing=ix)
        c['b-%s-sph' % ix] = dict(UVW, lon=[0., 1.], lat=[40., 41.], depth=dep, method=B, indexing=ix, mesh='spherical', box=dict(x=F(1, 4)))
    # C grid rectilinear
    for ix in ('nemo', 'mitgcm'):
        C = dict(UV, method='cgrid_velocity', indexing=ix)
        CW = dict(UVW, method='cgrid_velocity', indexing=ix)
        c['c-' + ix] = dict(C, lon=lon, lat=lat, hints=h2)
        c['c-%s-t' % ix] = dict(C, lon=lon, lat=[-1., 1.], time=[0., 2.], box=dict(t=[0, 2]))
        c['c-%s-sph' % ix] = dict(C, lon=lon, lat=[50., 51.5, 52.], mesh='spherical')
        c['c-%s-z' % ix] = dict(CW, lon=[0., 1., 2.5], lat=[-1., 1.], depth=[0., 1., 3.])
        c['c-%s-z-uv' % ix] = dict(C, lon=[0., 1., 2.5], lat=[-1., 1.], depth=[0., 1., 3.], time=[0., 2.], box=dict(t=[0, 2], x=F(3, 4), y=F(1, 4)))
        c['c-%s-z-t' % ix] = dict(CW, lon=[0., 1., 2.5], lat=[-1., 1.], depth=[0., 1., 3.], time=[0., 2.], box=dict(t=[0, 2], x=F(3, 2), y=F(1, 4)))
        c['c-%s-z-sph' % ix] = dict(CW, lon=[0., 1.], lat=[50., 51.5], depth=[0., 1., 3.], mesh='spherical', box=dict(x=F(3, 4)))
        # curvilinear
        L = [[0., 2., 4.], [1., 3., 6.], [2., 4., 6.]]
        A = [[0., 1., 0.], [2., 3., 2.], [3., 4., 5.]]
        pts = [dict(cell=(0, 0, 0), rel=(F(1, 4), F(3, 4), 0)), dict(cell=(0, 1, 0), rel=(F(1, 8), F(1, 2), 0)), dict(cell=(0, 0, 1), rel=(F(3, 4), F(3, 8), 0)), dict(cell=(0, 1, 1), rel=(F(1, 2), F(7, 8), 0))]
        if ix == 'mitgcm':
            continue     # parcels refuses curvilinear MITgcm C-grids
        c['c-%s-curv' % ix] = dict(C, lon=L, lat=A, points=pts)
        c['c-%s-curv-m' % ix] = dict(C, lon=(np.array(L) * 128).tolist(), lat=(np.array(A) * 128).tolist(), points=pts)
        c['c-%s-curv-sph' % ix] = dict(C, lon=(np.array(L) + 178).tolist(), lat=(np.array(A) + 50).tolist(), mesh='spherical', points=pts)
        Lw = (np.array(L) + 178)
        c['c-%s-curv-dl' % ix] = dict(C, lon=np.where(Lw > 180, Lw - 360, Lw).tolist(), lat=(np.array(A) + 50).tolist(), mesh='spherical', points=pts)
        c['c-%s-curv-z' % ix] = dict(CW, lon=L, lat=A, depth=[0., 1., 3.], points=[dict(p, cell=(i % 2,) + p['cell'][1:], rel=p['rel'][:2] + (F(1, 4),)) for i, p in enumerate(pts)])
    # C grid, s-levels
    dep = np.array([[[0., 0.5, 0.], [0., 1., 0.5], [0.5, 0., 0.]], [[1., 2., 2.], [1.5, 2., 1.5], [2., 1., 1.]], [[4., 4., 3.], [3., 6., 4.], [3., 4., 5.]]])
    S = dict(UVW, method='cgrid_velocity')
    spts = [dict(cell=(0, 0, 1), rel=(F(1, 4), F(3, 4), F(1, 4))), dict(cell=(1, 1, 0), rel=(F(1, 2), F(1, 8), F(5, 8))), dict(cell=(1, 0, 0), rel=(F(3, 4), F(1, 4), F(1, 2)))]
    c['c-s'] = dict(S, lon=[0., 1., 3.], lat=[0., 2., 3.], depth=dep.tolist(), points=spts)
    c['c-s-m'] = dict(S, lon=[0., 256., 512.], lat=[0., 512., 768.], depth=dep.tolist(), points=spts)
    c['c-s-curv'] = dict(S, lon=L, lat=A, depth=dep.tolist(), points=spts)
    c['c-s-curv-m'] = dict(S, lon=(np.array(L) * 128).tolist(), lat=(np.array(A) * 128).tolist(), depth=dep.tolist(), points=spts)
    c['c-s-curv-sph'] = dict(S, lon=(np.array(L) + 178).tolist(), lat=(np.array(A) + 50).tolist(), mesh='spherical', depth=dep.tolist(), points=spts)
    c['c-s-t'] = dict(S, lon=[0., 1., 3.], lat=[0., 2., 3.], depth=dep.tolist(), time=[0., 2.], points=spts[:2], box=dict(t=[0, 2]))
    dep4 = [dep.tolist(), (2 * dep + 1).tolist()]
    c['c-s-4d'] = dict(S, lon=[0., 1., 3.], lat=[0., 2., 3.], depth=dep4, time=[0., 2.], points=[dict(p, t=t) for p in spts[:2] for t in (0, F(1, 2), 2)])
    if tier == 'thorough':
        c['c-nemo-4'] = dict(UV, method='cgrid_velocity', lon=[0., 1., 2.5, 4.], lat=[-1., 0.5, 1., 3.], hints=h2, time=[0., 2.], box=dict(t=[0, 2]))
        c['c-mitgcm-4'] = dict(c['c-nemo-4'], indexing='mitgcm')
        allp = [dict(cell=(0, j, i), rel=(F(a, 8), F(b, 8), 0)) for j in (0, 1) for i in (0, 1) for a in range(1, 8, 2) for b in range(1, 8, 2)]
        c['c-nemo-curv-all'] = dict(UV, method='cgrid_velocity', lon=L, lat=A, points=allp)
        alls = [dict(cell=(k, j, i), rel=(F(a, 8), F(b, 8), F(e, 8))) for k in (0, 1) for j in (0, 1) for i in (0, 1) for a, b, e in ((1, 5, 3), (6, 2, 7), (4, 4, 4), (7, 7, 1))]
        c['c-s-curv-all'] = dict(S, lon=L, lat=A, depth=dep.tolist(), points=alls)
        c['c-s-curv-sph-all'] = dict(c['c-s-curv-sph'], points=alls)
    return c


KEYS = ('points', 'box', 'hints')


# ------------------------------------------------------------------ specification
def corners(cfg, cell, x):
    lon, lat, dep, tim = grid_arrays(cfg)
    k, j, i = cell
    if lon.ndim == 1:
        px, py = [lon[i], lon[i + 1], lon[i + 1], lon[i]], [lat[j], lat[j], lat[j + 1], lat[j + 1]]
    else:
        ix = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
        px, py = [lon[q] for q in ix], [lat[q] for q in ix]
    if cfg.get('mesh') == 'spherical' and lon.ndim == 2:
        px = [p + 360 * round(float(px[0] - p) / 360) for p in px]
    return px, py


def shape2(e, n):
    return [(1 - e) * (1 - n), e * (1 - n), e * n, (1 - e) * n]


def dsh(e, n):
    return [n - 1, 1 - n, n, -n], [e - 1, -e, e, 1 - e]


def dot(a, b):
    s = 0
    for p, q in zip(a, b):
        s = s + p * q
    return s


def cosd(la):
    return uf('cos', RAD * la)


def length(cfg, xa, ya, xb, yb, la):
    dx, dy = xb - xa, yb - ya
    if cfg.get('mesh') == 'spherical':
        dx, dy = dx * DEG * cosd(la), dy * DEG
    if not isinstance(dx, sym.Sym) and dx == 0:
        return abs(dy)
    if not isinstance(dy, sym.Sym) and dy == 0:
        return abs(dx)
    return ssqrt(dx * dx + dy * dy)


def faces2(cfg, d, n, k, j, i):
    """west, east, south, north face velocities of snapshot n"""
    U, V = d['U'][n][k], d['V'][n][k]
    if cfg.get('indexing', 'nemo') == 'nemo':
        return U[j + 1][i], U[j + 1][i + 1], V[j][i + 1], V[j + 1][i + 1]
    return U[j][i], U[j][i + 1], V[j][i], V[j + 1][i]


def cgrid2d(cfg, d, n, cell, e, h, x):
    px, py = corners(cfg, cell, x)
    uw, ue, vs, vn = faces2(cfg, d, n, *cell)
    lw = length(cfg, px[0], py[0], px[3], py[3], dot(shape2(0, h), py))
    le = length(cfg, px[1], py[1], px[2], py[2], dot(shape2(1, h), py))
    ls = length(cfg, px[0], py[0], px[1], py[1], dot(shape2(e, 0), py))
    ln = length(cfg, px[3], py[3], px[2], py[2], dot(shape2(e, 1), py))
    qx = (1 - e) * uw * lw + e * ue * le
    qy = (1 - h) * vs * ls + h * vn * ln
    de, dh = dsh(e, h)
    xe, xh, ye, yh = dot(de, px), dot(dh, px), dot(de, py), dot(dh, py)
    det = xe * yh - xh * ye
    if cfg.get('mesh') == 'spherical':
        det = det * DEG * DEG * cosd(dot(shape2(e, h), py))
    return (xe * qx + xh * qy) / det, (ye * qx + yh * qy) / det


def cgrid3s(cfg, d, n, cell, e, h, s, x):
    """hexahedron with vertical walls, quadratic fluxes closed by continuity of each half cell"""
    lon, lat, dep, tim = grid_arrays(cfg)
    px, py = corners(cfg, cell, x)
    k, j, i = cell
    dd = dep if dep.ndim == 3 else dep[n]
    ix = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
    zb = [[dd[k][q] for q in ix], [dd[k + 1][q] for q in ix]]
    sph = cfg.get('mesh') == 'spherical'

    class Hexa:
        def __init__(s_, x4, y4, z0, z1):
            s_.x, s_.y, s_.z = x4, y4, (z0, z1)

        def tangents(s_, e, h, s):
            de, dh = dsh(e, h)
            w = shape2(e, h)
            jx, jy = (DEG * cosd(dot(w, s_.y)), DEG) if sph else (F(1), F(1))
            te = [dot(de, s_.x) * jx, dot(de, s_.y) * jy, (1 - s) * dot(de, s_.z[0]) + s * dot(de, s_.z[1])]
            th = [dot(dh, s_.x) * jx, dot(dh, s_.y) * jy, (1 - s) * dot(dh, s_.z[0]) + s * dot(dh, s_.z[1])]
            ts = [F(0), F(0), dot(w, s_.z[1]) - dot(w, s_.z[0])]
            return te, th, ts

        def area(s_, which, e, h, s):
            te, th, ts = s_.tangents(e, h, s)
            a, b = {'u': (th, ts), 'v': (te, ts), 'w': (te, th)}[which]
            c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            return ssqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2])

        def det(s_, e, h, s):
            te, th, ts = s_.tangents(e, h, s)
            return (te[0] * th[1] - te[1] * th[0]) * ts[2]
    H = Hexa(px, py, zb[0], zb[1])

    def mid(a, b):
        return (a + b) / 2

    def halfx(v):
        return [v[0], mid(v[0], v[1]), mid(v[2], v[3]), v[3]]

    def halfy(v):
        return [v[0], v[1], mid(v[1], v[2]), mid(v[0], v[3])]
    HX = Hexa(halfx(px), halfx(py), halfx(zb[0]), halfx(zb[1]))
    HY = Hexa(halfy(px), halfy(py), halfy(zb[0]), halfy(zb[1]))
    HZ = Hexa(px, py, zb[0], [mid(a, b) for a, b in zip(*zb)])
    uw, ue, vs, vn = faces2(cfg, d, n, k, j, i)
    W = d['W'][n]
    wt, wb = W[k][j + 1][i + 1], W[k + 1][j + 1][i + 1]
    c = F(1, 2)
    fu = uw * HX.area('u', 0, c, c) + vs * HX.area('v', c, 0, c) - vn * HX.area('v', c, 1, c) + wt * HX.area('w', c, c, 0) - wb * HX.area('w', c, c, 1)
    fv = vs * HY.area('v', c, 0, c) + uw * HY.area('u', 0, c, c) - ue * HY.area('u', 1, c, c) + wt * HY.area('w', c, c, 0) - wb * HY.area('w', c, c, 1)
    fw = wt * HZ.area('w', c, c, 0) + uw * HZ.area('u', 0, c, c) - ue * HZ.area('u', 1, c, c) + vs * HZ.area('v', c, 0, c) - vn * HZ.area('v', c, 1, c)

    def quad(a, m, b, r):
        return a * (1 - r) * (1 - 2 * r) + m * 4 * r * (1 - r) + b * r * (2 * r - 1)
    um = fu / H.area('u', c, c, c) * H.area('u', c, h, s)
    vm = fv / H.area('v', c, c, c) * H.area('v', e, c, s)
    wm = fw / H.area('w', c, c, c) * H.area('w', e, h, c)
    D = H.det(e, h, s)
    qe = quad(uw * H.area('u', 0, h, s), um, ue * H.area('u', 1, h, s), e) / D
    qh = quad(vs * H.area('v', e, 0, s), vm, vn * H.area('v', e, 1, s), h) / D
    qs = quad(wt * H.area('w', e, h, 0), wm, wb * H.area('w', e, h, 1), s) / D
    de, dh = dsh(e, h)
    te, th, ts = H.tangents(e, h, s)
    return (dot(de, px) * qe + dot(dh, px) * qh, dot(de, py) * qe + dot(dh, py) * qh, te[2] * qe + th[2] * qh + ts[2] * qs)


def vec(cfg, d, n, loc, x, y):
    """expected vectors (list) of snapshot n"""
    cell, e, h, s = loc
    k, j, i = cell
    m = cfg['method']['U'] if isinstance(cfg['method'], dict) else cfg['method']
    ix = cfg.get('indexing', 'nemo')
    names = cfg['fields']
    nz = d['U'].shape[1]
    dep = grid_arrays(cfg)[2]
    top, bottom = k == -1, ix == 'pop' and k == nz - 2 and nz > 1
    if m == 'cgrid_velocity':
        if dep.ndim > 1:
            return [cgrid3s(cfg, d, n, cell, e, h, s, x)]
        u, v = cgrid2d(cfg, d, n, cell, e, h, x)
        if 'W' not in names:
            return [(u, v)]
        a, b = (j + 1, i + 1) if ix == 'nemo' else (j, i)
        W = d['W'][n]
        return [(u, v, (1 - s) * W[k][a][b] + s * W[k + 1][a][b])]
    un, vn = 1, 1
    if cfg.get('mesh') == 'spherical':
        un, vn = DEG * cosd(y), DEG

    def scal(name):
        f = d[name][n]
        if nz == 1:
            if m == 'nearest':
                half = F(1, 2)
                return [f[0][b][a] for a in ([i] if bool(e <= half) else []) + ([i + 1] if bool(e >= half) else [])
                        for b in ([j] if bool(h <= half) else []) + ([j + 1] if bool(h >= half) else [])]
            return [bilin(f[0], j, i, h, e)]
        if m == 'linear':
            return [(1 - s) * bilin(f[k], j, i, h, e) + s * bilin(f[k + 1], j, i, h, e)]
        if name != 'W':
            return [bilin(f[k + 1 if ix == 'mom5' else k], j, i, h, e)]
        g = [f[q][j + 1][i + 1] for q in range(nz)]
        if top:
            return [s * g[0]]
        if bottom:
            return [(1 - s) * g[k]]
        return [(1 - s) * g[k] + s * g[k + 1]]
    U, V = scal('U'), scal('V')
    if 'W' in names:
        return [(a / un, b / vn, w) for a, b, w in zip(U, V, scal('W'))]
    return [(a / un, b / vn) for a, b in zip(U, V)]


def locate(cfg, x, y, z):
    lon, lat, dep, tim = grid_arrays(cfg)
    if dep.size == 1:
        zc = [(0, F(0))]
    else:
        zc = [(k, rel(dep, k, z)) for k in cells(dep, z)]
        if not zc and cfg.get('indexing') == 'mom5':
            zc = [(-1, z / dep[0])]
    return [((k, j, i), rel(lon, i, x), rel(lat, j, y), s) for i in cells(lon, x) for j in cells(lat, y) for k, s in zc]


def expected(cfg, d, x, y, z, t, loc=None):
    lon, lat, dep, tim = grid_arrays(cfg)
    out = []
    for lc in ([loc] if loc is not None else locate(cfg, x, y, z)):
        if tim.size == 1:
            out += vec(cfg, d, 0, lc, x, y)
            continue
        for q in cells(tim, t):
            a = rel(tim, q, t)
            for p, r in zip(vec(cfg, d, q, lc, x, y), vec(cfg, d, q + 1, lc, x, y)):
                out.append(tuple(u + (w - u) * a for u, w in zip(p, r)))
    return out


def place(cfg, pt):
    """concrete position of a point given by cell and relative coordinates"""
    lon, lat, dep, tim = grid_arrays(cfg)
    (k, j, i), (e, h, s) = pt['cell'], pt['rel']
    px, py = corners(cfg, (k, j, i), None)
    w = shape2(e, h)
    pos = dict(x=dot(w, px), y=dot(w, py), t=F(pt.get('t', 0)))
    if cfg.get('mesh') == 'spherical' and lon.ndim == 2 and pos['x'] > 180 and float(lon.max()) <= 180:
        pos['x'] -= 360
    if dep.ndim == 1:
        pos['z'] = dep[k] + s * (dep[k + 1] - dep[k]) if dep.size > 1 else F(0)
    else:
        ix = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]

        def col(dd, k):
            return dot(w, [dd[k][q] for q in ix])
        if dep.ndim == 3:
            z0, z1 = col(dep, k), col(dep, k + 1)
        else:
            a = pos['t'] / tim[-1]
            z0 = col(dep[0], k) * (1 - a) + col(dep[1], k) * a
            z1 = col(dep[0], k + 1) * (1 - a) + col(dep[1], k + 1) * a
        pos['z'] = z0 + s * (z1 - z0)
    return pos, ((k, j, i), e, h, s)


def _boxes(c0):
    cfg = {k: v for k, v in c0.items() if k not in KEYS}
    lon, lat, dep, tim = grid_arrays(cfg)
    if 'points' in c0:
        for pt in c0['points']:
            pos, loc = place(cfg, pt)
            hints = dict(xi=loc[0][2], yi=loc[0][1], zi=max(0, loc[0][0] - 1))
            if 'box' in c0:
                pos.update(c0['box'])
            yield cfg, pos, hints, loc
        return
    box = dict(x=(lon.min(), lon.max()), y=(lat.min(), lat.max()), t=float(tim[0]))
    if dep.size > 1:
        lo = dep.min()
        if cfg.get('indexing') == 'mom5':
            lo = 2 * dep[0] - dep[1] + F(1, 100)
        box['z'] = (lo, dep.max())
    box.update(c0.get('box', {}))
    yield cfg, box, c0.get('hints'), None


def _task(c0, mode):
    def run(ctx):
        for cfg, box, hints, loc in _boxes(c0):
            _explore(ctx, cfg, box, hints, loc, mode)
    return run


def _explore(ctx, cfg, box, hints, loc, mode):
    ex = ctx.explorer()
    st = {}

    def body():
        inp = Inputs(cfg, box, hints=hints)
        st['inp'] = inp
        e = expected(cfg, inp.data, inp.x, inp.y, inp.z, inp.t, loc)
        o = run_mode(cfg, inp, mode)
        return o, e
    for res, exc in ex.paths(body):
        inp = st['inp']
        if exc is not None:
            raise exc
        o, e = res
        key = '%s/%s' % (ctx.task, 'value' if o.ok else describe(o).split(':')[0])
        conc = inp.concrete(mode, fault=o.fault is not None, loc=loc)
        nice = inp.posvars()
        if not o.ok:
            oblig.prove(ctx, ex, False, key, 'in-domain velocity sample fails: %s %s' % (describe(o), o.info or ''), conc, nice=nice)
            continue
        ctx.witness('value')
        scale = 1 if cfg.get('mesh') != 'spherical' else DEG
        for c in range(len(o.vals)):
            sc = scale if c < 2 else 1
            oblig.prove_member(ctx, ex, o.vals[c] * sc, [q[c] * sc for q in e], key, '%s velocity component %d differs from the staggered-grid definition' % (mode, c),
                               conc, nice=nice, fixable=nice, tol=2e-4)


def tasks(tier):
    for n, cfg in _cfgs(tier).items():
        for mode in ('jit', 'scipy'):
            yield '%s-%s' % (n, mode), _task(cfg, mode)


WITNESSES = {'': ['value']}


def execute(inp):
    return real_outcome(inp)


def replay(inp):
    if inp.get('fault'):
        rep = asan.run('checks.s05', inp)
        return rep is not None, 'AddressSanitizer on the real kernel: %s' % rep
    cfg, p = inp['cfg'], inp['pos']
    r = real_outcome(inp)
    loc = inp.get('loc')
    if loc is not None:
        loc = (tuple(loc[0]), loc[1], loc[2], loc[3])
    e = expected(cfg, concrete_data(inp), p['x'], p['y'], p['z'], p['t'], loc)
    if r[0] != 'ok':
        return True, 'real %s run gives error %s inside the domain' % (inp['mode'], spec.ERRNAME.get(r[1], r[1]))
    sc = [1, 1, 1] if cfg.get('mesh') != 'spherical' else [float(DEG), float(DEG), 1]
    good = any(all(close(a * s, float(b) * s) for a, b, s in zip(r[1], v, sc)) for v in e)
    return not good, 'real %s run gives velocity %s, definition %s at %s' % (inp['mode'], r[1], [[float(q) for q in v] for v in e], {k: float(v) for k, v in p.items()})
