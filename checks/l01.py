"""L01: deferred loading is invisible. However the data are split over files, wherever a run starts, in whatever direction it
goes, over consecutive runs, with time periodic or extrapolated fields, every sample a kernel takes (at time and at
time + dt) has the value the complete time series gives; leaving the time axis is reported, never sampled."""
import os
import sys
import tempfile
import types
from fractions import Fraction

import netCDF4
import numpy as np
import xarray as xr
import z3

from lib import sym, psim, scen
from lib.sym import Sym, symreal, symint
from checks import c01
from parcels import FieldSet, ParticleSet
from parcels import fieldfilebuffer
from parcels.field import DeferredArray
from parcels.particle import _Particle
from parcels.tools.statuscodes import TimeExtrapolationError

F = Fraction
FUNCTIONS = ['parcels.fieldset.FieldSet.computeTimeChunk, from_netcdf', 'parcels.grid.Grid.computeTimeChunk', 'parcels.field.Field.time_index, computeTimeChunk, eval, chunk_data',
             'parcels.fieldfilebuffer.NetcdfFileBuffer', 'parcels.include.index_search.h search_time_index; temporal interpolation of parcels.h (LLVM IR)',
             'parcels.particlesets.baseparticleset.BaseParticleSet.execute']
BOUNDS = dict(series='3-5 snapshots at uneven times, 1, 2 or 3 per file, one field or two fields on different time axes', runs='1-3 consecutive runs, forward and backward, any start time, any dt in [1,4] s, any length up to 9 s',
              particles='1-2, the second starting any time later', periodic='start times within two periods of the series')
ASSUMPTIONS = ['snapshot times and data are concrete (values are combined linearly; those chosen make every interval distinguishable)', 'exact real arithmetic for time',
               'runs do not start at the very end of a time axis that may not be extrapolated']
N = 8
SERIES = {'a': [0, 2, 3, 7, 9], 'b': [0, 4, 5], 'c': [0, 1, 6, 8], 'd': [0, 3, 6, 9]}
TR = {'n': np.int32}
for _i in range(N):
    for _v in 'tdabp':
        TR['%s%d' % (_v, _i)] = np.float64


def value(k, field='P', n=0):
    if k == n - 1:      # of a periodic series: the first snapshot again
        k = 0
    return 3 * k * k + k + 1 if field == 'P' else 100 - 7 * k * k


def _kernel(two, ahead=True):
    src = 'def Samp(particle, fieldset, time):\n'
    src += '    a = fieldset.P[time, particle.depth, particle.lat, particle.lon]\n'
    src += '    b = fieldset.P[time + particle.dt, particle.depth, particle.lat, particle.lon]\n' if ahead else '    b = a\n'
    src += '    p = fieldset.Q[time, particle.depth, particle.lat, particle.lon]\n' if two else '    p = 0.\n'
    for i in range(N):
        src += '    %s particle.n == %d:\n' % ('if' if i == 0 else 'elif', i)
        for v, x in (('t', 'time'), ('d', 'particle.dt'), ('a', 'a'), ('b', 'b'), ('p', 'p')):
            src += '        particle.%s%d = %s\n' % (v, i, x)
    src += '    particle.n += 1\n'
    fn = os.path.join(os.environ.get('VERIF_SCRATCH', tempfile.gettempdir()), 'l01_kernel_%d%d_%d.py' % (two, ahead, os.getpid()))
    open(fn, 'w').write(src)
    m = types.ModuleType('l01_kernel')
    import linecache
    linecache.checkcache(fn)
    exec(compile(src, fn, 'exec'), m.__dict__)
    return m.Samp


_OPEN = {}


class CachedX:
    """xarray with the few files kept open"""
    def __getattr__(self, n):
        return getattr(xr, n)

    def open_dataset(self, fn, *a, **k):
        key = (str(fn), repr(a), repr(sorted(k.items())))
        if key not in _OPEN:
            d = xr.open_dataset(fn, *a, **k)
            d = d.load()
            _OPEN[key] = d
        return _OPEN[key].copy()


def write_series(name, field, per, kind, nx=2):
    times = SERIES[name]
    d = tempfile.mkdtemp(prefix='l01-')
    files = []
    for s in range(0, len(times), per):
        ks = list(range(s, min(s + per, len(times))))
        fn = os.path.join(d, '%s%03d.nc' % (field, s))
        ds = netCDF4.Dataset(fn, 'w')
        ds.createDimension('t', len(ks))
        ds.createDimension('y', nx)
        ds.createDimension('x', nx)
        t = ds.createVariable('time', 'f8', ('t',))
        t.units = 'seconds since 2000-01-01 00:00:00'
        t[:] = [times[k] for k in ks]
        for c in 'yx':
            ds.createVariable(c, 'f4', (c,))[:] = np.arange(nx)
        v = ds.createVariable('v', 'f4', ('t', 'y', 'x'))
        for j, k in enumerate(ks):
            v[j] = np.full((nx, nx), value(k, field, len(times) if kind == 'periodic' else 0))
        ds.close()
        files.append(fn)
    return files


_S = {}


def sim(mode, real, series, per, kind, second, ahead=True):
    key = (mode, real, series, per, kind, second, ahead)
    if key in _S:
        return _S[key]
    dims = dict(time='time', lat='y', lon='x')
    kw = dict(mesh='flat', deferred_load=True, allow_time_extrapolation=kind == 'extra', time_periodic=SERIES[series][-1] - SERIES[series][0] if kind == 'periodic' else False)
    if kind == 'periodic':
        kw.pop('allow_time_extrapolation')
    names = ['P'] + (['Q'] if second else [])
    fs = FieldSet.from_netcdf({n: write_series(second if n == 'Q' else series, n, per, kind) for n in names}, {n: 'v' for n in names}, {n: dims for n in names}, **kw)
    for n in ('U', 'V'):
        fs.add_constant_field(n, 0., mesh='flat')
        getattr(fs, n).grid.time_origin = fs.P.grid.time_origin
    fs.time_origin = fs.P.grid.time_origin
    f = [getattr(fs, n) for n in names]
    assert all(x.grid.defer_load for x in f)
    S = (psim.RealSim if real else psim.PSim)(mode, _kernel(bool(second), ahead), dict(TR), fieldset=fs)
    S.snap = None
    _S[key] = S
    S.fields = f
    S.first = [(x, dict(x.__dict__), x.grid, dict(x.grid.__dict__), list(x.filebuffers)) for x in f]
    return S


def reset(S):
    for x, d, g, gd, fb in S.first:
        g.__dict__.clear()
        g.__dict__.update(gd)
    for x, d, g, gd, fb in S.first:
        x.__dict__.clear()
        x.__dict__.update(d)
        x.filebuffers = [None] * len(fb)
        x.data = DeferredArray()
        x.data.compute_shape(g.xdim, g.ydim, g.zdim, g.tdim, len(x.grid.timeslices))


class Series:
    """runs: list of (direction, longest duration)"""
    def __init__(self, series, per, kind, runs, second='', late=0, ahead=True, steps=4, dt=None, near=0):
        self.a = [series, per, kind, [list(r) for r in runs], second, late, ahead, steps, dt, near]
        self.series, self.per, self.kind, self.runs, self.second, self.late, self.ahead, self.steps, self.dt, self.near = self.a

    def spec(self):
        return ['Series'] + self.a

    def times(self):
        t = SERIES[self.series]
        return [x - t[0] for x in t]

    def inputs(self):
        C = sym.CTX
        t = self.times()
        per = self.kind == 'periodic'
        lo, hi = (-t[-1], 2 * t[-1]) if per else ((-4, t[-1] + 4) if self.kind == 'extra' else (0, self.inside(0)[1]))
        if per and self.near:
            lo, hi = t[-1] - self.near, t[-1] + self.near
        q = lambda n, a, b: symint(n, 4 * a, 4 * b) * F(1, 4)
        inp = dict(s=q('s', lo, hi), dt=[], run=[])
        for i, (sg, L) in enumerate(self.runs):
            d, r = q('dt%d' % i, 1, 4) if self.dt is None else F(self.dt), q('run%d' % i, 1, L)
            C.add((r <= d * self.steps).e)
            inp['dt'].append(d)
            inp['run'].append(r)
        if self.late:
            inp['late'] = q('late', F(1, 4), self.late)
            C.add((inp['late'] <= inp['run'][0]).e)
        return inp

    def run(self, mode, inp, c, real):
        if real:
            self.go(mode, inp, c, real)
            return
        saved = fieldfilebuffer.xr
        fieldfilebuffer.xr = CachedX()
        try:
            with c01.alloc(False):
                self.go(mode, inp, c, real)
        finally:
            fieldfilebuffer.xr = saved

    def inside(self, t):
        a = self.times()
        b = a if not self.second else SERIES[self.second]
        return 0, min(a[-1], b[-1])

    def oracle(self, t, field):
        """piecewise linear in t, one term (no branches)"""
        ts = self.times() if field == 'P' else SERIES[self.second]
        v = [value(k, field, len(ts) if self.kind == 'periodic' else 0) for k in range(len(ts))]
        T = ts[-1]
        pieces = []
        for m in range(-3, 4) if self.kind == 'periodic' else [0]:
            for k in range(len(ts) - 1):
                g = F(v[k + 1] - v[k], ts[k + 1] - ts[k])
                pieces.append((ts[k + 1] + m * T, v[k] - (ts[k] + m * T) * g, g))
        if not isinstance(t, Sym):
            t = F(float(t))
            r = next((c + g * t for hi, c, g in pieces if t <= hi), F(v[-1]))
            return F(v[0]) if t <= ts[0] and self.kind != 'periodic' else r
        x = sym.zreal(t)
        e = z3.RealVal(v[-1])
        for hi, c, g in reversed(pieces):
            e = z3.If(x <= hi, sym.rv(c) + sym.rv(g) * x, e)
        if self.kind != 'periodic':
            e = z3.If(x <= ts[0], z3.RealVal(v[0]), e)
        return Sym(z3.simplify(e))

    def go(self, mode, inp, c, real):
        C = sym.CTX
        S = sim(mode, real, self.series, self.per, self.kind, self.second, self.ahead)
        reset(S)
        if getattr(S, 'runner', None) is not None:
            S.runner.reset()
        _Particle.lastID = 0
        sg0 = self.runs[0][0]
        start = [inp['s']] + ([inp['s'] + inp['late'] * sg0] if self.late else [])
        n = len(start)

        def arr(v):
            a = np.empty(n, dtype=np.float64 if real else object)
            for i in range(n):
                a[i] = v[i]
            return a
        p = ParticleSet(S.fieldset, S.pclass, lon=arr([F(1, 2)] * n), lat=arr([F(1, 2)] * n), depth=arr([0] * n), time=arr(start), lonlatdepth_dtype=np.float64)
        p.kernel = S.kernel
        lo, hi = self.inside(None)
        cur = inp['s']
        for (sg, L), dt, r in zip(self.runs, inp['dt'], inp['run']):
            end = cur + r * sg
            fits = True
            if self.kind == 'strict':
                if sg > 0:
                    if not real:
                        C.add(z3.Or((end <= hi).e, (end >= hi + F(1, 4)).e))
                        C.add((cur <= hi - F(1, 100)).e)
                        if C.check() == z3.unsat:
                            raise sym.Infeasible()
                    fits = bool(end <= hi)
                else:
                    if not real:
                        C.add(z3.Or((end >= lo).e, (end <= lo - F(1, 4)).e))
                        C.add((cur >= lo + F(1, 100)).e)
                        if C.check() == z3.unsat:
                            raise sym.Infeasible()
                    fits = bool(end >= lo)
            d = p.collection._data
            for v in TR:
                d[v][:] = 0
            exc = None
            try:
                p.execute(S.kernel, runtime=r, dt=dt * sg, verbose_progress=False if real else None)
            except (RuntimeError, ValueError, TypeError, AttributeError, IndexError, psim.Fault, RecursionError) as e:
                exc = e
            d = p.collection._data
            if fits:
                c.true('raises', 'execute does not fail inside the time axis (got %s %r)' % (type(exc).__name__, exc), exc is None)
                c.witness('inside')
            else:
                c.true('extrapolation', 'leaving the time axis is reported (got %s %r)' % (type(exc).__name__, exc), isinstance(exc, TimeExtrapolationError))
                c.witness('leaving')
            for i in range(len(d['n'])):
                m = int(d['n'][i])
                for j in range(min(m, N)):
                    t, s = d['t%d' % j][i], d['d%d' % j][i]
                    c.eq('sample', 'sample %d at time' % j, d['a%d' % j][i], self.oracle(t, 'P'), tol=F(1, 10 ** 4))
                    if self.ahead:
                        c.eq('sample-dt', 'sample %d at time + dt' % j, d['b%d' % j][i], self.oracle(t + s, 'P'), tol=F(1, 10 ** 4))
                    if self.second:
                        c.eq('sample-2', 'sample %d of the second field' % j, d['p%d' % j][i], self.oracle(t, 'Q'), tol=F(1, 10 ** 4))
                if fits and exc is None:
                    c.true('end', 'the particle is executed to the end', abs(d['time'][i] - end) <= F(1, 1000))
                    c.true('executed', 'the kernel is called', m >= 1 or bool(abs(end - start[i]) <= F(1, 1000)))
            if exc is not None:
                return
            cur = end
            if len(self.runs) > 1:
                c.witness('again')


def scen_of(spec):
    return dict(Series=Series)[spec[0]](*spec[1:])


WITNESSES = {'-': ['inside']}
ORDER = lambda t: (0 if 'back' in t else 1 if 'two' in t or 'periodic' in t else 2, t)     # the longest first


def tasks(tier):
    q = tier != 'thorough'
    out = []

    def add(name, *a, **k):
        # the loading code is shared by the two modes: in quick, each of the longer scenarios in one direction per mode
        one = {'+': ['jit'], '-': ['scipy']} if q and name[1:-1] in ('back', 'perback', 'twofields', 'late', 'fine') else {}
        for mode in one.get(name[-1], ['scipy', 'jit']):
            out.append(('%s-%s' % (name, mode), lambda ctx, m=mode: scen.drive(ctx, Series(*a, **k), m, max_paths=60000)))
    for sg in (1, -1):
        o = '+' if sg > 0 else '-'
        add('-strict1' + o, 'b', 1, 'strict', [(sg, 5)], steps=2 if q else 4)
        add('-strict2' + o, 'a', 2, 'strict', [(sg, 9)], steps=2, dt=3 if q else None)
        add('-fine' + o, 'a', 1, 'strict', [(sg, 9)], dt=2, steps=4 if q else 5)
        add('-extra' + o, 'b', 1, 'extra', [(sg, 9)], steps=2, dt=3 if q else None)
        add('-periodic' + o, 'b', 1, 'periodic', [(sg, 9)], steps=2, dt=3 if q else None, near=2 if q else 0)
        add('-late' + o, 'b', 3, 'strict', [(sg, 5)], late=4, steps=2, dt=2 if q else None)
        add('-twofields' + o, 'a', 1, 'strict', [(sg, 6)], second='c', steps=2, dt=3 if q else None)
        add('-again' + o, 'c', 1, 'strict', [(sg, 4), (sg, 4)], dt=3 if q else 2, steps=1 if q else 2)
        add('-back' + o, 'c', 2, 'strict', [(sg, 4), (-sg, 4)], dt=3 if q else 2, steps=1 if q else 2)
        add('-perback' + o, 'b', 2, 'periodic', [(sg, 3 if q else 5), (-sg, 3 if q else 5)], dt=3, steps=1 if q else 2, near=2 if q else 0)
    return out


def replay(inputs):
    return scen.replay(scen_of(inputs['scen']), inputs)
