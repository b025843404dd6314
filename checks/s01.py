"""S01: a scalar sample is exactly what the field's interpolation scheme defines from the cell that
contains the point (both execution modes)."""
from fractions import Fraction
from itertools import product

import numpy as np

from lib import sym, oblig, spec, cases, asan
from lib.sampcheck import Inputs, run_mode, grid_arrays, describe, close, real_outcome, concrete_data
from lib.spec import cells, rel, bilin

FUNCTIONS = ['parcels.field.Field.eval/spatial_interpolation/interpolator2D/interpolator3D/search_indices* (Python, Scipy mode)',
             'parcels.kernel.Kernel.execute_python', 'generated particle_loop + parcels.h/index_search.h sampling code (LLVM IR, JIT mode)']
BOUNDS = dict(grid='rectilinear z-grid, 2-4 x 2-4 nodes horizontally, 1-4 depth levels, 1-2 snapshots, irregular concrete coordinates',
              data='every node value any real in [-8,8] (land-aware scheme: 0 or in [0.25,8], at the listed positions)', position='any point of the closed domain', time='any instant between the snapshots')
ASSUMPTIONS = ['floating point modelled as exact real arithmetic (rounding not modelled)', 'grid coordinates are the listed concrete ones',
               'ties (points on a cell edge / half-way points) may take any adjacent node']

LON, LAT = [0., 1., 2.5], [-1., 0.5, 1.]
DEP = [0., 1., 3., 3.5]


def _cfgs(tier):
    c = {}
    two = dict(lon=LON, lat=LAT)
    one = dict(lon=[0., 2.], lat=[1., 2.])
    for m in ('linear', 'nearest', 'cgrid_tracer', 'bgrid_tracer', 'bgrid_velocity'):
        c['2d-' + m] = dict(two, method=m)
    inv = 'linear_invdist_land_tracer'
    c['2d-invdist'] = dict(one, method=inv, points=[dict(x=0.5, y=1.75), dict(x=0, y=1), dict(x=2, y=1), dict(x=0, y=2), dict(x=2, y=2), dict(x=1, y=1), dict(x=2, y=1.25)])
    c['2d-invdist-off'] = dict(lon=[0., 1., 3.], lat=[0., 1., 2.], method=inv, points=[dict(x=2.5, y=1.75), dict(x=1.25, y=1.25), dict(x=0.25, y=1.5)])
    c['2d-invdist-t'] = dict(one, method=inv, time=[0., 2.], points=[dict(x=0.5, y=1.75, t=0.5), dict(x=0.5, y=1.75, t=2)])
    c['2d-linear-t'] = dict(two, method='linear', time=[0., 2.], box=dict(t=[0, 2]))
    c['2d-nearest-t'] = dict(two, method='nearest', time=[0., 2.], box=dict(t=[0, 2]))
    c['2d-linear-desc'] = dict(lon=LON, lat=[1., 0.5, -1.][::-1], method='linear', dtype='float32')
    for m, ix in (('linear', 'nemo'), ('linear', 'mitgcm'), ('linear', 'mom5'), ('linear', 'pop'),
                  ('nearest', 'nemo'), ('nearest', 'pop'), ('nearest', 'mom5'), ('cgrid_tracer', 'nemo'), ('cgrid_tracer', 'mitgcm'),
                  ('bgrid_tracer', 'nemo'), ('bgrid_tracer', 'pop'), ('bgrid_tracer', 'mom5'),
                  ('bgrid_velocity', 'nemo'), ('bgrid_velocity', 'pop'), ('bgrid_velocity', 'mom5'),
                  ('bgrid_w_velocity', 'nemo'), ('bgrid_w_velocity', 'pop'), ('bgrid_w_velocity', 'mom5'),
                  ('cgrid_velocity', 'nemo'), ('cgrid_velocity', 'mitgcm')):
        dep = [1., 2., 4.] if ix == 'mom5' else [0., 1., 3.]
        c['3d-%s-%s' % (m, ix)] = dict(lon=[0., 1., 2.5], lat=[-1., 1.], depth=dep, method=m, indexing=ix)
    c['3d-linear-down'] = dict(lon=[0., 1.], lat=[-1., 0.5, 1.], depth=[0., -1., -3.], method='linear')
    c['3d-nearest-down'] = dict(lon=[0., 1.], lat=[-1., 0.5, 1.], depth=[0., -1., -3.], method='nearest')
    c['3d-linear-t'] = dict(lon=[0., 1.], lat=[-1., 0.5, 1.], depth=[0., 1., 3.], method='linear', time=[0., 2.], box=dict(t=[0, 2]))
    c['3d-invdist'] = dict(lon=[0., 1.], lat=[0., 1.], depth=[0., 2.], method=inv, points=[dict(x=0.25, y=0.625, z=1.75), dict(x=1, y=0, z=0)])
    c['3d-invdist-b'] = dict(lon=[0., 1.], lat=[0., 1.], depth=[0., 2.], method=inv, points=[dict(x=0, y=1, z=0), dict(x=0, y=0, z=2)])
    for m in ('bgrid_tracer', 'bgrid_velocity', 'bgrid_w_velocity'):
        c['3d-%s-popshort' % m] = dict(lon=[0., 1., 2.5], lat=[-1., 1.], depth=[0., 1., 3., 4.], method=m, indexing='pop', short=True, time=[0., 2.], box=dict(t=[0, 2]))
    c['3d-pop-2lev'] = dict(lon=[0., 1.], lat=[-1., 1.], depth=[0., 2.], method='bgrid_w_velocity', indexing='pop')
    if tier == 'thorough':
        c['2d-linear-4'] = dict(lon=[0., 1., 2.5, 3.], lat=[-1., 0.5, 1., 4.], method='linear', hints=dict(xi='sym', yi='sym'))
        c['3d-linear-4'] = dict(lon=[0., 1., 2.5, 3.], lat=[-1., 0.5, 1.], depth=DEP, method='linear', hints=dict(xi='sym', yi='sym', zi='sym'))
        c['3d-nearest-4-t'] = dict(lon=[0., 1., 2.5, 3.], lat=[-1., 0.5, 1.], depth=DEP, method='nearest', time=[0., 2.], box=dict(t=[0, 2]))
        c['3d-invdist-2cells'] = dict(lon=[0., 1., 2.], lat=[0., 1.], depth=[0., 2.], method=inv, points=[dict(x=1.75, y=0.125, z=0.5)])
        for m in ('cgrid_tracer', 'bgrid_velocity', 'bgrid_w_velocity'):
            c['3d-%s-4-t' % m] = dict(lon=[0., 1., 2.5], lat=[-1., 0.5, 1.], depth=DEP, method=m, time=[0., 2.], box=dict(t=[0, 2]))
    return c


def _split(cfg):
    cfg = dict(cfg)
    cfg.pop('points', None)
    box = dict(cfg.pop('box', {}))
    hints = cfg.pop('hints', None)
    lon, lat, dep, tim = grid_arrays(cfg)
    box.setdefault('x', (lon.min(), lon.max()))
    box.setdefault('y', (lat.min(), lat.max()))
    if dep.size > 1:
        lo = dep.min()
        if cfg.get('indexing') == 'mom5':
            lo = 2 * dep[0] - dep[1] + Fraction(1, 100)
        box.setdefault('z', (lo, dep.max()))
    box.setdefault('t', float(tim[0]))
    return cfg, box, hints


def invdist(vals, dists):
    """vals: corner values, dists: squared distances"""
    land = [bool((v <= Fraction(1, 10 ** 6)) and (v >= Fraction(-1, 10 ** 6))) for v in vals]
    if all(land):
        return Fraction(0)
    num, den = 0, 0
    for v, d, la in zip(vals, dists, land):
        if bool(d <= Fraction(1, 10 ** 8)):
            return Fraction(0) if la else v
        if not la:
            num = num + v / d
            den = den + 1 / d
    return num / den


def snapshot_value(cfg, v, ci):
    """admissible values of one snapshot v[z][y][x] for the located cell ci"""
    xi, xsi, yi, eta, zi, zeta, nz = ci
    m, ix = cfg['method'], cfg.get('indexing', 'nemo')
    half = Fraction(1, 2)

    def near(i, r):
        out = []
        if bool(r <= half):
            out.append(i)
        if bool(r >= half):
            out.append(i + 1)
        return out
    if nz == 1:
        v = v[0]
        if m in ('linear', 'bgrid_velocity'):
            return [bilin(v, yi, xi, eta, xsi)]
        if m == 'nearest':
            return [v[b][a] for a in near(xi, xsi) for b in near(yi, eta)]
        if m in ('cgrid_tracer', 'bgrid_tracer'):
            return [v[yi + 1][xi + 1]]
        if m == 'linear_invdist_land_tracer':
            cs = [(j, i) for j in (0, 1) for i in (0, 1)]
            vals = [v[yi + j][xi + i] for j, i in cs]
            land = [bool((q <= Fraction(1, 10 ** 6)) and (q >= Fraction(-1, 10 ** 6))) for q in vals]
            if not any(land):
                return [bilin(v, yi, xi, eta, xsi)]
            return [invdist(vals, [(eta - j) * (eta - j) + (xsi - i) * (xsi - i) for j, i in cs])]
        raise AssertionError(m)
    top = zi == -1          # MOM5: above the first (bottom-of-cell) level
    bottom = ix == 'pop' and zi == nz - 2
    if m == 'bgrid_velocity':
        k = zi + 1 if ix == 'mom5' else zi
        return [bilin(v[k], yi, xi, eta, xsi)]
    if m in ('linear', 'bgrid_w_velocity', 'cgrid_velocity'):
        if m == 'linear':
            def h(k):
                return bilin(v[k], yi, xi, eta, xsi)
        elif ix == 'mitgcm':
            def h(k):
                return v[k][yi][xi]
        else:
            def h(k):
                return v[k][yi + 1][xi + 1]
        if top:
            return [zeta * h(0)]
        if bottom:
            return [(1 - zeta) * h(zi)]
        return [(1 - zeta) * h(zi) + zeta * h(zi + 1)]
    if top:
        zi, zeta = 0, 0
    if m == 'nearest':
        return [v[c][b][a] for a in near(xi, xsi) for b in near(yi, eta) for c in near(zi, zeta)]
    if m in ('cgrid_tracer', 'bgrid_tracer'):
        return [v[zi][yi + 1][xi + 1]]
    if m == 'linear_invdist_land_tracer':
        cs = [(k, j, i) for k in (0, 1) for j in (0, 1) for i in (0, 1)]
        vals = [v[zi + k][yi + j][xi + i] for k, j, i in cs]
        land = [bool((q <= Fraction(1, 10 ** 6)) and (q >= Fraction(-1, 10 ** 6))) for q in vals]
        if not any(land):
            return [(1 - zeta) * bilin(v[zi], yi, xi, eta, xsi) + zeta * bilin(v[zi + 1], yi, xi, eta, xsi)]
        return [invdist(vals, [(zeta - k) * (zeta - k) + (eta - j) * (eta - j) + (xsi - i) * (xsi - i) for k, j, i in cs])]
    raise AssertionError(m)


def expected(cfg, data, x, y, z, t):
    """list of admissible sample values"""
    lon, lat, dep, tim = grid_arrays(cfg)
    nz = dep.size
    out = []
    zc = [(-1, 0)] if nz == 1 else [(k, rel(dep, k, z)) for k in cells(dep, z)]
    if nz > 1 and not zc and cfg.get('indexing') == 'mom5':
        zc = [(-1, z / dep[0])]
    for xi in cells(lon, x):
        for yi in cells(lat, y):
            for zi, zeta in zc:
                ci = (xi, rel(lon, xi, x), yi, rel(lat, yi, y), zi, zeta, nz)
                if tim.size == 1:
                    out += snapshot_value(cfg, data[0], ci)
                else:
                    for k in cells(tim, t):
                        tau = rel(tim, k, t)
                        a, b = snapshot_value(cfg, data[k], ci), snapshot_value(cfg, data[k + 1], ci)
                        out += [p + (q - p) * tau for p, q in zip(a, b)]
    return out


def known_alternative(cfg, data, x, y, z, t):
    """values of the recorded finding '3d-nearest-pop-jit/value' (one level up in the lowest POP cell)"""
    if cfg['method'] != 'nearest' or cfg.get('indexing') != 'pop':
        return []
    lon, lat, dep, tim = grid_arrays(cfg)
    if not bool(z >= dep[-2]):
        return []
    k = dep.size - 3
    out = []
    for xi in cells(lon, x):
        for yi in cells(lat, y):
            out += snapshot_value(dict(cfg, indexing='nemo'), data[0], (xi, rel(lon, xi, x), yi, rel(lat, yi, y), k, rel(dep, k + 1, z), dep.size))
    return out


def _task(cfg0, mode):
    def run(ctx):
        cfg, box, hints = _split(cfg0)
        for pt in cfg0.get('points', [{}]):
            _explore(ctx, cfg, dict(box, **pt), hints, mode)
    return run


def _explore(ctx, cfg, box, hints, mode):
    ex = ctx.explorer()
    st = {}

    def body():
        inp = Inputs(cfg, box, hints=hints, land='invdist' in cfg['method'])
        st['inp'] = inp
        o = run_mode(cfg, inp, mode)
        e = expected(cfg, inp.data['P'], inp.x, inp.y, inp.z, inp.t) if o.ok else []
        return o, e
    for res, exc in ex.paths(body):
        inp = st['inp']
        if exc is not None:
            raise exc
        o, e = res
        key = '%s/%s' % (ctx.task, 'value' if o.ok else describe(o).split(':')[0])
        if not o.ok:
            oblig.prove(ctx, ex, False, key, 'in-domain sample fails: %s %s' % (describe(o), o.info or ''), inp.concrete(mode, fault=o.fault is not None), nice=inp.posvars())
            continue
        ctx.witness('value')
        alt = known_alternative(cfg, inp.data['P'], inp.x, inp.y, inp.z, inp.t)
        if alt:   # listed finding: anything else is a different violation
            oblig.prove_member(ctx, ex, o.vals[0], e + alt, key + '-other', '%s sample differs from the %s scheme' % (mode, cfg['method']),
                               inp.concrete(mode), nice=inp.posvars(), fixable=inp.posvars())
        oblig.prove_member(ctx, ex, o.vals[0], e, key, '%s sample differs from the %s scheme' % (mode, cfg['method']),
                           inp.concrete(mode), nice=inp.posvars(), fixable=inp.posvars())


def tasks(tier):
    for n, cfg in _cfgs(tier).items():
        for mode in ('jit', 'scipy'):
            yield '%s-%s' % (n, mode), _task(cfg, mode)


WITNESSES = {'': ['value']}


def execute(inp):
    real_outcome(inp)


def replay(inp):
    if inp.get('fault'):
        rep = asan.run('checks.s01', inp)
        return rep is not None, 'AddressSanitizer on the real kernel: %s' % rep
    r = real_outcome(inp)
    d = concrete_data(inp)['P']
    p = inp['pos']
    e = expected(inp['cfg'], d, p['x'], p['y'], p['z'], p['t'])
    if r[0] != 'ok':
        return True, 'real %s run gives error %s where the scheme defines %s' % (inp['mode'], spec.ERRNAME.get(r[1], r[1]), [float(v) for v in e])
    bad = not any(close(r[1][0], v) for v in e)
    return bad, 'real %s run gives %r, scheme defines %s at %s' % (inp['mode'], r[1][0], [float(v) for v in e], {k: float(v) for k, v in p.items()})
