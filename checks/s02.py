"""S02: point location. Sampling fields that hold the node coordinates returns the particle's own position for
every point of the domain and every previously cached cell index; outside the domain the proper error is raised;
no memory outside the grid arrays is touched."""
from fractions import Fraction

import numpy as np
import z3

from lib import sym, oblig, spec, cases, asan
from lib.sampcheck import Inputs, run_mode, grid_arrays, describe, real_outcome
from lib.spec import cells, rel, bilin, OOB, SURF

FUNCTIONS = ['parcels.field.Field.search_indices / search_indices_rectilinear / search_indices_curvilinear / search_indices_vertical_z / search_indices_vertical_s / reconnect_bnd_indices (Python)',
             'index_search.h: search_indices*, reconnect_bnd_indices (LLVM IR)', 'Grid.check_zonal_periodic, Grid.lonlat_minmax']
BOUNDS = dict(grid='2-5 nodes per axis, concrete irregular coordinates; rectilinear / curvilinear, z- and s-levels, flat / spherical, regional / global',
              position='any point of a box strictly larger than the domain (curvilinear: the domain and outside its bounding box)',
              cached_index='any valid cell index of the grid')
ASSUMPTIONS = ['exact real arithmetic', 'libm sqrt exact', 'on spherical grids longitudes within one revolution of the grid']


def _cfgs(tier):
    c = {}
    base = dict(fields=['X', 'Y', 'Z'], sample='XYZ', method='linear')
    h2 = dict(xi='sym', yi='sym')
    h3 = dict(h2, zi='sym')
    c['flat2d'] = dict(base, lon=[0., 1., 2.5, 4.], lat=[-1., 0.5, 1.], box=dict(x=[-2, 6], y=[-3, 3]), hints=h2)
    c['flat3d'] = dict(base, lon=[0., 1., 2.5], lat=[-1., 1.], depth=[0.5, 1., 3.], box=dict(x=[-2, 6], y=[-3, 3], z=[-2, 5]), hints=h3)
    c['flat3d-up'] = dict(base, lon=[0., 1.], lat=[-1., 1.], depth=[-0.5, -1., -3., -3.5], box=dict(x=[0, 1], y=[-1, 1], z=[-5, 2]), hints=h3)
    c['flat3d-mom5'] = dict(base, lon=[0., 1.], lat=[-1., 1.], depth=[1., 2., 4.], indexing='mom5', box=dict(x=[0, 1], y=[-1, 1], z=[-1, 5]),
                            hints=dict(zi=[-1, 1]), nosurf=True)
    c['flat-halo'] = dict(base, lon=[0., 1., 2.5, 4.], lat=[-1., 1.], zonal_periodic=True, box=dict(x=[-3, 8], y=[-1, 1]), hints=dict(xi='sym'), anyerr=True)
    c['flat1x'] = dict(base, lon=[0.], lat=[-1., 0.5, 1.], box=dict(x=[-2, 6], y=[-3, 3]), hints=dict(yi='sym'))
    # spherical
    c['sph'] = dict(base, mesh='spherical', lon=[-20., 0., 30., 100.], lat=[-1., 0.5, 1.], box=dict(x=[-60, 140], y=[-3, 3]), hints=h2)
    c['sph-dateline'] = dict(base, mesh='spherical', lon=[150., 170., 200., 210.], lat=[-1., 1.], box=dict(x=[120, 230], y=[-1, 1]), hints=h2)
    c['sph-global'] = dict(base, mesh='spherical', lon=[0., 100., 180., 300., 360.], lat=[-1., 1.], box=dict(x=[-170, 530], y=[-1, 1]), hints=h2, periodic_x=True)
    c['sph-global180'] = dict(base, mesh='spherical', lon=[-180., -60., 20., 110., 180.], lat=[-1., 1.], box=dict(x=[-350, 350], y=[-1, 1]), hints=h2, periodic_x=True)
    # s-levels: horizontal position symbolic along one axis, the other on a set of values
    dep = [[[0., 0.5], [0., 1.]], [[1., 2.], [1.5, 2.]], [[4., 4.], [3., 6.]]]
    for i, y in enumerate((0, Fraction(1, 4), 1)):
        c['s3d-%d' % i] = dict(base, lon=[0., 1.], lat=[0., 1.], depth=dep, box=dict(x=[0, 1], y=y, z=[-1, 7]), hints=dict(zi='sym'))
    neg = (-np.array(dep)).tolist()
    c['s3d-neg'] = dict(base, lon=[0., 1.], lat=[0., 1.], depth=neg, box=dict(x=[0, 1], y=Fraction(1, 4), z=[-7, 1]), hints=dict(zi='sym'))
    dep4 = [dep, (2 * np.array(dep) + 1).tolist()]
    for i, t in enumerate((0, Fraction(1, 2), 2)):
        c['s4d-%d' % i] = dict(base, lon=[0., 1.], lat=[0., 1.], depth=dep4, time=[0., 2.], box=dict(x=[0, 1], y=Fraction(1, 4), z=[-1, 14], t=t), hints=dict(zi='sym'))
    for m in ('bgrid_velocity', 'bgrid_w_velocity', 'bgrid_tracer'):
        c['s3d-' + m] = dict(base, lon=[0., 1.], lat=[0., 1.], depth=dep, method=m, zmethod=m,
                             box=dict(x=Fraction(1, 4), y=Fraction(1, 4), z=[-1, 7]), hints=dict(zi='sym'))
    # curvilinear, parallelogram cells
    L = np.array([[0., 2., 4.], [1., 3., 5.], [2., 4., 6.]])
    B = np.array([[0., 0., 0.], [1., 1., 1.], [3., 3., 3.]])
    c['curv-shear'] = dict(base, lon=L.tolist(), lat=B.tolist(), box=dict(x=[-1, 8], y=[-1, 4]), hints=h2, curv=True)
    Lr = np.array([[0., 1., 2.], [-1., 0., 1.], [-2., -1., 0.]])
    Br = np.array([[0., 1., 2.], [1., 2., 3.], [2., 3., 4.]])
    c['curv-rot45'] = dict(base, lon=Lr.tolist(), lat=Br.tolist(), box=dict(x=[-3, 3], y=[-1, 5]), hints=h2, curv=True)
    L9 = np.array([[0., 0., 0.], [-1., -1., -1.], [-3., -3., -3.]])
    B9 = np.array([[0., 1., 3.], [0., 1., 3.], [0., 1., 3.]])
    c['curv-rot90'] = dict(base, lon=L9.tolist(), lat=B9.tolist(), box=dict(x=[-3, 0], y=[0, 3]), hints=h2, curv=True)
    c['curv-sph'] = dict(base, mesh='spherical', lon=(L * 4 + 170).tolist(), lat=B.tolist(), box=dict(x=[160, 200], y=[-1, 4]), hints=h2, curv=True)
    c['curv-sph-rot45'] = dict(base, mesh='spherical', lon=(Lr * 4 + 40).tolist(), lat=(Br * 4 + 10).tolist(), box=dict(x=[30, 50], y=[5, 30]), hints=h2, curv=True)
    Lw = np.array([[0., 1., 2., 3.], [-1., 0., 1., 2.], [-2., -1., 0., 1.]])
    Bw = np.array([[0., 1., 2., 3.], [1., 2., 3., 4.], [2., 3., 4., 5.]])
    c['curv-rot45w'] = dict(base, lon=Lw.tolist(), lat=Bw.tolist(), box=dict(x=[-3, 4], y=[-1, 6]), hints=h2, curv=True)
    c['curv-sph-rot45w'] = dict(base, mesh='spherical', lon=(Lw * 4 + 40).tolist(), lat=(Bw * 4 + 10).tolist(), box=dict(x=[25, 55], y=[5, 35]), hints=h2, curv=True)
    c['curv-z'] = dict(base, lon=L[:2, :2].tolist(), lat=B[:2, :2].tolist(), depth=[0., 1., 3.], box=dict(x=[0, 3], y=[0, 1], z=[-1, 4]), hints=dict(zi='sym'), curv=True)
    c['curv-s'] = dict(base, lon=L[:2, :2].tolist(), lat=B[:2, :2].tolist(), depth=dep, box=dict(x=[0, 3], y=Fraction(1, 4), z=[-1, 7]), hints=dict(zi='sym'), curv=True)
    # genuinely bilinear cells: y on a set of values
    Lq = np.array([[0., 2., 4.], [0., 3., 5.], [1., 4., 7.]])
    Bq = np.array([[0., 0., 1.], [2., 3., 3.], [4., 5., 6.]])
    for i, y in enumerate((Fraction(3, 2), Fraction(7, 2))):
        c['curv-bil%d' % i] = dict(base, lon=Lq.tolist(), lat=Bq.tolist(), box=dict(x=[2, 4], y=y), hints={}, curv=True, bil=True)
    if tier == 'thorough':
        c['flat2d-5'] = dict(base, lon=[0., 1., 2.5, 4., 4.5], lat=[-1., 0.5, 1., 3., 7.], box=dict(x=[-2, 6], y=[-3, 9]), hints=h2)
        c['flat3d-5'] = dict(base, lon=[0., 1., 2.5], lat=[-1., 1., 4.], depth=[0., 1., 3., 3.5, 7.], box=dict(x=[-2, 6], y=[-3, 6], z=[-2, 9]), hints=h3)
        c['sph-global5'] = dict(base, mesh='spherical', lon=[0., 50., 100., 180., 240., 300., 360.], lat=[-1., 1.], box=dict(x=[-170, 530], y=[-1, 1]), hints=h2, periodic_x=True)
        L4 = np.array([[2. * i + j for i in range(4)] for j in range(4)])
        B4 = np.array([[float(j * j) for i in range(4)] for j in range(4)])
        c['curv-shear4'] = dict(base, lon=L4.tolist(), lat=B4.tolist(), box=dict(x=[-1, 10], y=[-1, 10]), hints=h2, curv=True)
    return c


KEYS = ('box', 'hints', 'nosurf', 'anyerr', 'periodic_x', 'curv', 'bil', 'zmethod')


def _split(c0):
    return {k: v for k, v in c0.items() if k not in KEYS}, {k: c0.get(k) for k in KEYS}


def node_data(cfg):
    """X, Y, Z fields holding the node coordinates (exact float32 values)"""
    lon, lat, dep, tim = grid_arrays(cfg)
    nt, nz, ny, nx = cases.shape_of(cfg)
    X = np.empty((nt, nz, ny, nx), dtype=object)
    Y, Z = X.copy(), X.copy()
    for t in range(nt):
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    X[t, k, j, i] = lon[i] if lon.ndim == 1 else lon[j, i]
                    Y[t, k, j, i] = lat[j] if lat.ndim == 1 else lat[j, i]
                    Z[t, k, j, i] = dep[k] if dep.ndim == 1 else (dep[k, j, i] if dep.ndim == 3 else dep[t, k, j, i])
    return dict(X=X, Y=Y, Z=Z)


def _cross(ax, ay, bx, by, px, py):
    return (bx - ax) * (py - ay) - (by - ay) * (px - ax)


def inside_quad(cx, cy, x, y):
    s = [_cross(cx[k], cy[k], cx[(k + 1) % 4], cy[(k + 1) % 4], x, y) for k in range(4)]
    area = sum(_cross(cx[0], cy[0], cx[k], cy[k], cx[k + 1], cy[k + 1]) for k in (1, 2))
    for v in s:
        if not bool((v >= 0) if area > 0 else (v <= 0)):
            return False
    return True


def expected(cfg, opt, x, y, z, t):
    """-> ('ok', None) or ('err', set of admissible error names) ; None: behaviour not specified here"""
    lon, lat, dep, tim = grid_arrays(cfg)
    nt, nz, ny, nx = cases.shape_of(cfg)
    err = set()
    cell = None
    if lon.ndim == 1:
        if nx > 1:
            cand = [x]
            if opt['periodic_x']:
                cand = [x, x - 360, x + 360]
            ok = False
            for xx in cand:
                ii = cells(lon, xx)
                if ii:
                    ok = True
                    cx = (ii[0], rel(lon, ii[0], xx))
                    break
            if not ok:
                err.add(OOB)
        if ny > 1:
            jj = cells(lat, y)
            if not jj:
                err.add(OOB)
            else:
                cy = (jj[0], rel(lat, jj[0], y))
    else:
        if bool(x < lon.min()) or bool(x > lon.max()) or bool(y < lat.min()) or bool(y > lat.max()):
            err.add(OOB)
        else:
            for j in range(ny - 1):
                for i in range(nx - 1):
                    if cell is None and inside_quad([lon[j, i], lon[j, i + 1], lon[j + 1, i + 1], lon[j + 1, i]],
                                                    [lat[j, i], lat[j, i + 1], lat[j + 1, i + 1], lat[j + 1, i]], x, y):
                        cell = (j, i)
            if cell is None:
                return None
    if err:
        # the vertical position is not looked at, or may be reported first
        return ('err', err)
    if nz > 1:
        if dep.ndim == 1:
            col = dep
        else:
            if cell is not None:
                j, i = cell
                if nx != 2 or ny != 2:
                    raise AssertionError('s-level curvilinear: one cell only')
                # sheared unit cell: closed form of the relative position
                eta = (y - lat[0, 0]) / (lat[1, 0] - lat[0, 0])
                xsi = (x - lon[0, 0] - (lon[1, 0] - lon[0, 0]) * eta) / (lon[0, 1] - lon[0, 0])
                cy, cx = (0, eta), (0, xsi)
            if opt['zmethod']:
                cx, cy = (cx[0], 1), (cy[0], 1)
            if dep.ndim == 3:
                col = [bilin(dep[k], cy[0], cx[0], cy[1], cx[1]) for k in range(nz)]
            else:
                c0, c1 = ([bilin(dep[q, k], cy[0], cx[0], cy[1], cx[1]) for k in range(nz)] for q in (0, 1))
                tau = (t - tim[0]) / (tim[1] - tim[0])
                col = [a + (b - a) * tau for a, b in zip(c0, c1)]
        down = bool(col[-1] > col[0])
        if bool(z < col[0]) if down else bool(z > col[0]):
            if opt['nosurf'] and bool(z > 2 * col[0] - col[1]):
                return ('ok', False)
            return ('err', {SURF})
        if bool(z > col[-1]) if down else bool(z < col[-1]):
            return ('err', {OOB})
    return ('ok', True)


def _task(c0, mode):
    def run(ctx):
        cfg, opt = _split(c0)
        ex = ctx.explorer(timeout_ms=3000 if ctx.quick else 10000)
        data = node_data(cfg)
        st = {}

        def body():
            inp = Inputs(cfg, opt['box'], hints=opt['hints'], data=data)
            st['inp'] = inp
            e = expected(cfg, opt, inp.x, inp.y, inp.z, inp.t)
            if e is None:
                raise sym.Infeasible()
            o = run_mode(cfg, inp, mode, max_steps=60000)
            return o, e
        for res, exc in ex.paths(body):
            inp = st['inp']
            if exc is not None:
                raise exc
            o, e = res
            got = describe(o)
            kind = got.split(':')[0]
            key = '%s/%s' % (ctx.task, kind)
            conc = inp.concrete(mode, opt={k: opt[k] for k in KEYS if k not in ('box', 'hints')}, fault=o.fault is not None)
            if o.fault is not None:
                oblig.prove(ctx, ex, False, key, 'sampling faults: %s' % o.fault, conc, nice=inp.posvars())
            elif e[0] == 'err':
                ctx.witness('error')
                ok = bool((got in e[1]) or (opt['anyerr'] and got != 'value'))
                oblig.prove(ctx, ex, ok, key, 'position outside the domain: expected %s, got %s' % (sorted(e[1]), got), conc, nice=inp.posvars())
            elif not o.ok:
                oblig.prove(ctx, ex, False, key, 'position inside the domain but %s (%s)' % (got, o.info), conc, nice=inp.posvars())
            else:
                ctx.witness('value')
                if opt['zmethod'] or e[1] is False:
                    continue
                if opt['periodic_x']:
                    oblig.prove_member(ctx, ex, o.vals[0], [inp.x, inp.x - 360, inp.x + 360], key + '-x', 'longitude of the located cell', conc, nice=inp.posvars(), fixable=inp.posvars())
                elif len(cfg['lon']) > 1:
                    oblig.prove_close(ctx, ex, o.vals[0], inp.x, key + '-x', 'longitude of the located cell', conc, nice=inp.posvars(), fixable=inp.posvars())
                oblig.prove_close(ctx, ex, o.vals[1], inp.y, key + '-y', 'latitude of the located cell', conc, nice=inp.posvars(), fixable=inp.posvars())
                if 'depth' in cfg and e[1] is True:
                    oblig.prove_close(ctx, ex, o.vals[2], inp.z, key + '-z', 'depth of the located cell', conc, nice=inp.posvars(), fixable=inp.posvars())
    return run


def tasks(tier):
    for n, cfg in _cfgs(tier).items():
        for mode in ('jit', 'scipy'):
            yield '%s-%s' % (n, mode), _task(cfg, mode)


WITNESSES = {'': ['value']}


def execute(inp):
    return real_outcome(inp)


def replay(inp):
    if inp.get('fault'):
        rep = asan.run('checks.s02', inp)
        return rep is not None, 'AddressSanitizer on the real kernel: %s' % rep
    r = real_outcome(inp)
    p, opt, cfg = inp['pos'], inp['opt'], inp['cfg']
    e = expected(cfg, opt, p['x'], p['y'], p['z'], p['t'])
    where = {k: float(v) for k, v in p.items()}
    if e[0] == 'err':
        got = spec.ERRNAME.get(r[1], r[1]) if r[0] == 'err' else 'value'
        bad = got not in e[1] and not (opt['anyerr'] and got != 'value')
        return bad, 'real %s run gives %s, expected %s at %s' % (inp['mode'], r[:2], sorted(e[1]), where)
    if r[0] == 'err':
        return True, 'real %s run gives error %s for an in-domain position %s' % (inp['mode'], spec.ERRNAME.get(r[1], r[1]), where)
    if opt['zmethod'] or e[1] is False:
        return False, 'no value specified'
    want = [float(p['x']), float(p['y']), float(p['z'])]
    dx = abs(r[1][0] - want[0])
    if opt['periodic_x']:
        dx = min(abs(r[1][0] - want[0] - s) for s in (0, 360, -360))
    if len(cfg['lon']) == 1:
        dx = 0
    bad = dx > 2e-3 * (1 + abs(want[0])) or abs(r[1][1] - want[1]) > 2e-3
    if 'depth' in cfg and e[1] is True and opt['zmethod'] is None:
        bad = bad or abs(r[1][2] - want[2]) > 2e-3
    return bad, 'real %s run samples node coordinates as %s at %s' % (inp['mode'], r[1], where)
