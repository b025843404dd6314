"""S03: sampling between, outside and periodically beyond the snapshots of a field in time."""
from fractions import Fraction

import numpy as np
import z3

from lib import sym, oblig, spec, cases, asan
from lib.sampcheck import Inputs, run_mode, grid_arrays, describe, close, real_outcome, concrete_data
from lib.spec import cells, rel, bilin, TEX
from checks import s05

FUNCTIONS = ['parcels.field.Field.eval/time_index, Field.__init__ (time_periodic, allow_time_extrapolation)', 'index_search.h: search_time_index (LLVM IR)',
             'parcels.h: temporal_interpolation_structured_grid (LLVM IR)']
BOUNDS = dict(snapshots='1-4, irregular concrete times (including negative)', data='any reals in [-8,8]', time='any instant in a window of several periods around the snapshots',
              cached_index='any time index')
ASSUMPTIONS = ['exact real arithmetic', 'where period end meets period start, either the last or the first frame is accepted']


def _cfgs(tier):
    base = dict(lon=[0., 1.], lat=[0., 1.], method='linear', uvsep=True, fields=['P'])
    c = {}
    T3 = [-1., 0.5, 4.]
    h = dict(ti='sym')
    pos = dict(x=Fraction(1, 4), y=Fraction(1, 2))
    c['strict'] = dict(base, time=T3, extrap=False, box=dict(pos, t=[-5, 9]), hints=h)
    c['default'] = dict(base, time=T3, box=dict(pos, t=[-5, 9]), hints=h)
    c['extrap'] = dict(base, time=T3, extrap=True, box=dict(pos, t=[-5, 9]), hints=h)
    c['single'] = dict(base, time=[2.], box=dict(pos, t=[-5, 9]), hints=h)
    c['single-strict'] = dict(base, time=[2.], extrap=False, box=dict(pos, t=[-5, 9]), hints=h)
    c['periodic'] = dict(base, time=[0., 1., 4.], periodic=4., box=dict(pos, t=[-9, 13]), hints=h, tol=True)
    c['periodic-off'] = dict(base, time=[1., 2., 5.], periodic=4., box=dict(pos, t=[-8, 14]), hints=h)
    c['periodic-wrap'] = dict(base, time=[0., 1., 3.], periodic=5., box=dict(pos, t=[-6, 11]), hints=h)
    c['periodic-near'] = dict(base, method='nearest', time=[0., 2., 3.], periodic=3., box=dict(x=Fraction(1, 4), y=Fraction(3, 4), t=[-4, 7]), hints=h)
    c['extrap-3d'] = dict(base, depth=[0., 2.], time=T3, extrap=True, box=dict(pos, z=Fraction(1, 2), t=[-5, 9]), hints=h)
    c['strict-curv'] = dict(base, lon=[[0., 1.], [0., 1.]], lat=[[0., 0.], [1., 1.]], time=[0., 2.], extrap=False, box=dict(pos, t=[-2, 4]), hints=h)
    # velocity vectors
    UV, UVW = dict(fields=['U', 'V'], sample='UV', lon=[0., 1.], lat=[0., 1.]), dict(fields=['U', 'V', 'W'], sample='UVW', lon=[0., 1.], lat=[0., 1.])
    flat = np.array([[[0., 0.], [0., 0.]], [[2., 2.], [2., 2.]]]).tolist()
    T2 = [0.5, 2.]
    for tm, o in (('strict', dict(time=T2, extrap=False)), ('extrap', dict(time=T2, extrap=True)), ('per', dict(time=[0., 1., 4.], periodic=4.)), ('wrap', dict(time=[0., 2.], periodic=3.))):
        bt = [-2, 4] if tm in ('strict', 'extrap') else [-5, 9]
        b2, b3 = dict(pos, t=bt), dict(pos, z=Fraction(1, 2), t=bt)
        c['va-' + tm] = dict(UV, method='linear', box=b2, hints=h, **o)
        c['va3-' + tm] = dict(UVW, depth=[0., 2.], method='linear', box=b3, hints=h, **o)
        c['vc-' + tm] = dict(UV, method='cgrid_velocity', box=b2, hints=h, **o)
        c['vcz-' + tm] = dict(UVW, depth=[0., 2.], method='cgrid_velocity', box=b3, hints=h, **o)
        c['vcs-' + tm] = dict(UVW, depth=flat, method='cgrid_velocity', box=b3, hints=h, **o)
    if tier == 'thorough':
        c['strict-5'] = dict(base, time=[-3., -1., 0.5, 4., 6.], extrap=False, box=dict(pos, t=[-5, 9]), hints=h)
        c['periodic-5'] = dict(base, time=[-3., -1., 0.5, 4., 6.], periodic=9., box=dict(pos, t=[-24, 27]), hints=h)
        c['periodic-wrap4'] = dict(base, time=[0., 1., 3., 4.], periodic=7., box=dict(pos, t=[-16, 23]), hints=h)
    for k in c.values():
        k.pop('tol', None)
    return c


def _split(c0):
    return {k: v for k, v in c0.items() if k not in ('box', 'hints')}, c0['box'], c0['hints']


def snap(cfg, v, x, y, z):
    lon, lat, dep, tim = grid_arrays(cfg)
    if cfg['method'] == 'nearest':
        return (v[0][1][0],)
    if dep.size > 1:
        ze = rel(dep, 0, z)
        return ((1 - ze) * bilin(v[0], 0, 0, y, x) + ze * bilin(v[1], 0, 0, y, x),)
    return (bilin(v[0], 0, 0, y, x),)


def snapshot(cfg, data, k, x, y, z):
    if 'P' in data:
        return snap(cfg, data['P'][k], x, y, z)
    dep = grid_arrays(cfg)[2]
    return s05.vec(cfg, data, k, ((0, 0, 0), x, y, z / dep.max() if dep.size > 1 else 0), x, y)[0]


def blend(a, b, w):
    return tuple(p + (q - p) * w for p, q in zip(a, b))


def expected(cfg, data, x, y, z, t):
    """-> ('err',) or ('ok', [values])"""
    lon, lat, dep, tim = grid_arrays(cfg)
    n = tim.size
    per = cfg.get('periodic', False)
    S = [snapshot(cfg, data, k, x, y, z) for k in range(n)]
    T = list(tim)
    if per is not False:
        per = Fraction(per)
        if T[-1] - T[0] < per:
            T.append(T[0] + per)
            S.append(S[0])
        out = []
        q0 = -8
        for q in range(q0, 9):
            tt = t - q * per
            if bool(tt >= T[0]) and bool(tt <= T[-1]):
                for k in range(len(T) - 1):
                    if bool(tt >= T[k]) and bool(tt <= T[k + 1]):
                        out.append(blend(S[k], S[k + 1], (tt - T[k]) / (T[k + 1] - T[k])))
        return ('ok', out)
    ext = cfg.get('extrap')
    if ext is None:
        ext = n == 1
    if bool(t < T[0]):
        return ('ok', [S[0]]) if ext else ('err',)
    if bool(t > T[-1]):
        return ('ok', [S[-1]]) if ext else ('err',)
    if n == 1:
        return ('ok', [S[0]])
    for k in range(n - 1):
        if bool(t >= T[k]) and bool(t <= T[k + 1]):
            return ('ok', [blend(S[k], S[k + 1], (t - T[k]) / (T[k + 1] - T[k]))])


def _task(c0, mode):
    def run(ctx):
        cfg, box, hints = _split(c0)
        ex = ctx.explorer()
        st = {}

        def body():
            inp = Inputs(cfg, box, hints=hints)
            st['inp'] = inp
            e = expected(cfg, inp.data, inp.x, inp.y, inp.z, inp.t)
            o = run_mode(cfg, inp, mode, max_steps=20000 if 'P' in inp.data else 200000)
            return o, e
        for res, exc in ex.paths(body):
            inp = st['inp']
            if exc is not None:
                raise exc
            o, e = res
            got = describe(o)
            key = '%s/%s' % (ctx.task, got.split(':')[0])
            conc = inp.concrete(mode, fault=o.fault is not None)
            nice = inp.posvars()
            if o.fault is not None:
                oblig.prove(ctx, ex, False, key, 'sampling faults: %s' % o.fault, conc, nice=nice)
            elif e[0] == 'err':
                ctx.witness('error')
                oblig.prove(ctx, ex, got == TEX, key, 'time outside the snapshots: expected time-extrapolation error, got %s' % got, conc, nice=nice)
            elif not o.ok:
                oblig.prove(ctx, ex, False, key, 'time is covered by the field but %s (%s)' % (got, o.info), conc, nice=nice)
            else:
                ctx.witness('value')
                for i in range(len(o.vals)):
                    oblig.prove_member(ctx, ex, o.vals[i], [v[i] for v in e[1]], key, '%s sample differs from linear interpolation in time' % mode, conc, nice=nice, fixable=nice)
    return run


def tasks(tier):
    for n, cfg in _cfgs(tier).items():
        for mode in ('jit', 'scipy'):
            yield '%s-%s' % (n, mode), _task(cfg, mode)


WITNESSES = {'': ['value'], 'strict': ['error'], 'default': ['error']}


def execute(inp):
    return real_outcome(inp)


def replay(inp):
    if inp.get('fault'):
        rep = asan.run('checks.s03', inp)
        return rep is not None, 'AddressSanitizer on the real kernel: %s' % rep
    r = real_outcome(inp)
    p = inp['pos']
    e = expected(inp['cfg'], concrete_data(inp), p['x'], p['y'], p['z'], p['t'])
    if e[0] == 'err':
        return not (r[0] == 'err' and spec.ERRNAME.get(r[1]) == TEX), 'real %s run gives %s at time %s outside the snapshots' % (inp['mode'], r[:2], float(p['t']))
    if r[0] == 'err':
        return True, 'real %s run gives error %s at covered time %s' % (inp['mode'], spec.ERRNAME.get(r[1], r[1]), float(p['t']))
    return not any(all(close(a, b) for a, b in zip(r[1], v)) for v in e[1]), 'real %s run gives %r at time %s, expected %s' % (
        inp['mode'], r[1], float(p['t']), [[float(q) for q in v] for v in e[1]])
