"""E01: ParticleSet.execute. Whatever the mix of output, callback and repeated-release intervals and of runtime, end
time, time step and direction, every particle is integrated from its own start to exactly the end without gap or
overlap, output and callbacks happen at every multiple of their interval with all particles at that time, repeated
releases start at every multiple of repeatdt with the original initial values, and consecutive executes continue
one another."""
from fractions import Fraction
from datetime import timedelta

import numpy as np
import z3

from lib import sym, psim, scen
from lib.sym import Sym, symreal, symint
from checks import c01
from parcels import FieldSet, ParticleSet
from parcels.particle import _Particle
from parcels.particlesets import baseparticleset

F = Fraction
FUNCTIONS = ['parcels.particlesets.baseparticleset.BaseParticleSet.execute', 'parcels.particlesets.particlesetsoa.ParticleSetSOA.__init__ (repeatdt), add, _impute_release_times',
             'parcels.kernel.Kernel.execute / execute_python / execute_jit; generated particle_loop (LLVM IR)']
BOUNDS = dict(times='start time any real in [-100,100], dt any real in [0.25, 16] in both directions; runtime, outputdt, callbackdt, repeatdt, particle start offsets are any multiples of dt/2 within the bound (up to 3-6 halves)',
              runs='1-2 consecutive calls of execute', particles='1-2 initial ones plus the repeated releases')
ASSUMPTIONS = ['exact real arithmetic for time', 'no deferred loading of fields (property L01)']
N = 7
TR = {'n': np.int32, 'v': np.float64, 'tag': np.int32}
for _i in range(N):
    TR['t%d' % _i] = np.float64
    TR['d%d' % _i] = np.float64


def Trace(particle, fieldset, time):
    if particle.n == 0:
        particle.t0 = time
        particle.d0 = particle.dt
    elif particle.n == 1:
        particle.t1 = time
        particle.d1 = particle.dt
    elif particle.n == 2:
        particle.t2 = time
        particle.d2 = particle.dt
    elif particle.n == 3:
        particle.t3 = time
        particle.d3 = particle.dt
    elif particle.n == 4:
        particle.t4 = time
        particle.d4 = particle.dt
    elif particle.n == 5:
        particle.t5 = time
        particle.d5 = particle.dt
    elif particle.n == 6:
        particle.t6 = time
        particle.d6 = particle.dt
    particle.n += 1
    particle.lon += 1
    particle.lat += 2
    particle.depth += 3
    particle.v += 4


_S = {}


def sim(mode, real, fs):
    k = (mode, real, fs)
    if k not in _S:
        fieldset = None
        if fs:
            z = np.zeros((2, 2), np.float32)
            fieldset = FieldSet.from_data({'U': z, 'V': z}, dict(lon=np.array([0., 1.], np.float32), lat=np.array([0., 1.], np.float32)), mesh='flat')
        S = (psim.RealSim if real else psim.PSim)(mode, Trace, dict(TR), fieldset=fieldset)
        _S[k] = S
    return _S[k]


class Out:
    """stands in for ParticleFile: records what execute asks it to write"""
    def __init__(self, outputdt):
        self.outputdt = outputdt
        self.calls = []
        self.tempwritedir_base = ''

    def write(self, pset, time, deleted_only=False):
        d = pset.collection._data
        self.calls.append((time, [(int(d['tag'][i]), d['time'][i], int(d['n'][i])) for i in range(len(d['lon']))], deleted_only))


class Exec:
    def __init__(self, sign, runs, out, cb, rep, offs, fs=True, end='runtime', np_=None):
        """runs: max run lengths (halves of dt); out/cb/rep: None or the maximal interval in halves; offs: maximal start offsets of the particles"""
        self.a = [sign, list(runs), out, cb, rep, list(offs), fs, end]
        self.sign, self.runs, self.out, self.cb, self.rep, self.offs, self.fs, self.end = self.a

    def spec(self):
        return ['Exec'] + self.a

    def inputs(self):
        inp = dict(h=symreal('h', F(1, 8), 8), s=symreal('s', -100, 100))
        inp['runs'] = [symint('run%d' % i, 1, r) for i, r in enumerate(self.runs)]
        for k, m in (('out', self.out), ('cb', self.cb), ('rep', self.rep)):
            if m:
                inp[k] = symint(k, 1, m)
        inp['off'] = [symint('off%d' % i, 0, m) if m else 0 for i, m in enumerate(self.offs)]
        for k in ('lon', 'lat', 'depth', 'v'):
            inp[k] = [symreal('%s%d' % (k, i), -10, 10) for i in range(len(self.offs))]
        return inp

    def run(self, mode, inp, c, real):
        if real:
            self.go(mode, inp, c, real)
            return
        with c01.alloc(False):
            self.go(mode, inp, c, real)

    def go(self, mode, inp, c, real):
        S = sim(mode, real, self.fs)
        sg, h = self.sign, inp['h']

        def K(v):
            if isinstance(v, Sym):
                return sym.CTX.concretize(v.asint())
            return int(v)
        dt = h * 2
        runs = [K(r) for r in inp['runs']]
        out, cb, rep = [K(inp[k]) if k in inp else None for k in ('out', 'cb', 'rep')]
        off = [K(o) for o in inp['off']]
        n0 = len(off)
        if rep and any(off):
            raise sym.Infeasible()
        if min(off) != 0:
            raise sym.Infeasible()

        def T(k):
            return inp['s'] + h * (sg * k)

        def arr(v):
            a = np.empty(n0, dtype=np.float64 if real else object)
            for i in range(n0):
                a[i] = v[i]
            return a
        _Particle.lastID = 0
        if getattr(S, 'runner', None) is not None:
            S.runner.reset()
        kw = dict(repeatdt=h * rep) if rep else {}
        p = ParticleSet(S.fieldset, S.pclass, lon=arr(inp['lon']), lat=arr(inp['lat']), depth=arr(inp['depth']), time=arr([T(o) for o in off]),
                        lonlatdepth_dtype=np.float64, v=arr(inp['v']), tag=np.arange(n0), **kw)
        p.kernel = S.kernel
        model = [dict(start=o, init=i) for i, o in enumerate(off)]
        S0, done = 0, -1
        cbs = []
        ctr = 0
        for ri, r in enumerate(runs):
            E = S0 + r
            o = Out(h * out) if out else None
            cbs = []
            kw = {}
            if self.end == 'runtime':
                kw['runtime'] = h * r
            else:
                kw['endtime'] = T(E)
            if cb:
                kw['callbackdt'] = h * cb
            exc = None
            try:
                p.execute(S.kernel, dt=dt * sg, output_file=o, verbose_progress=False if real else None,
                          postIterationCallbacks=[lambda: cbs.append([(int(q.tag), q.time, int(q.n)) for q in p])], **kw)
            except (RuntimeError, ValueError, TypeError, AttributeError, IndexError, psim.Fault) as e:
                exc = e
            c.true('raises', 'execute does not fail (got %r)' % (exc,), exc is None)
            if exc is not None:
                return
            rels = []
            if rep:
                rels = [k for k in range(rep, E + 1, rep) if k > S0]
                for k in rels:
                    model += [dict(start=k, init=i) for i in range(n0)]
            d = p.collection._data
            c.true('number', 'the set has the initial and the released particles (%d, expected %d)' % (len(p), len(model)), len(p) == len(model))
            if len(p) != len(model):
                return
            ids = [int(x) for x in d['id']]
            c.true('ids', 'ids are unique', len(set(ids)) == len(ids))
            order = sorted(range(len(ids)), key=lambda i: ids[i])
            for m, i in zip(model, order):
                self.particle(c, d, i, m, E, T, inp, h, sg)
            # what happens at which time
            marks = {k for k in range(S0, E + 1)}
            if out:
                want = sorted({k for k in marks if (k - S0) % out == 0} | {E})
                self.events(c, 'output', [x[0] for x in o.calls], want, T)
                for (tm, snap, dele), k in zip(self.dedup(o.calls), want):
                    self.snapshot(c, 'output', snap, k, model, T, d)
                c.true('no-delete', 'nothing is written as deleted', not any(x[2] is not False for x in o.calls))
            step = cb if cb else (min(x for x in (out, rep) if x) if (out or rep) else None)
            if step:
                want = [k for k in marks if k > S0 and (k - S0) % step == 0]
                c.true('callbacks', 'callbacks run once per interval (%d, expected %d)' % (len(cbs), len(want)), len(cbs) == len(want))
                for snap, k in zip(cbs, want):
                    self.snapshot(c, 'callback', snap, k, model, T, d)
            S0 = E
            if min(m['start'] for m in model) > S0:
                break
            late = [m for m in model if m['start'] > S0]
        c.witness('run')
        if len(model) > n0:
            c.witness('released')
        if any(o > 0 for o in off):
            c.witness('delayed')

    def dedup(self, calls):
        out = []
        for x in calls:
            if out and bool(out[-1][0] == x[0]):
                continue
            out.append(x)
        return out

    def events(self, c, key, times, want, T):
        t = []
        for x in times:
            if t and bool(abs(t[-1] - x) <= F(1, 10 ** 6)):
                continue
            t.append(x)
        c.true(key, '%s happens %d times (expected at %s halves of dt)' % (key, len(t), want), len(t) == len(want))
        for a, k in zip(t, want):
            c.eq(key, 'time of %s' % key, a, T(k))

    def snapshot(self, c, key, snap, k, model, T, d):
        present = [m for m in model if m['start'] <= k or m['start'] in self.initial(model)]
        c.true(key + '-particles', 'all particles released by then are present at a %s (%d, expected %d)' % (key, len(snap), len(present)), len(snap) == len(present))
        for tag, tm, n in snap:
            # started particles are at the time of the event
            ok = bool(n == 0) or bool(abs(tm - T(k)) <= F(1, 10 ** 6))
            c.true(key + '-time', 'every started particle is at the time of the %s' % key, ok)
        started = sum(1 for m in model if m['start'] < k)
        got = sum(1 for _, _, n in snap if n > 0)
        c.true(key + '-started', 'every particle released before the %s has been executed by then (%d, expected %d)' % (key, got, started), got == started)

    def initial(self, model):
        return {m['start'] for m in model[:len(self.offs)]}

    def particle(self, c, d, i, m, E, T, inp, h, sg):
        n = int(d['n'][i])
        k0 = m['start']
        c.true('tag', 'released particles carry the given variables', int(d['tag'][i]) == m['init'])
        for v, st in (('lon', 1), ('lat', 2), ('depth', 3), ('v', 4)):
            c.eq('initial-' + v, '%s starts at its given value (release %s, %d calls)' % (v, 'initial' if k0 in self.initial([m]) and k0 == 0 else 'later', n), d[v][i] - st * n, inp[v][m['init']])
        if k0 >= E:
            c.true('not-started', 'a particle is not executed before its start time', n == 0)
            c.eq('not-started', 'time of a particle that has not started', d['time'][i], T(k0))
            return
        c.true('executed', 'the particle is executed', n >= 1)
        c.eq('endtime', 'the particle ends at the end time', d['time'][i], T(E))
        if n == 0:
            return
        t = T(k0)
        for j in range(min(n, N)):
            c.eq('contiguous', 'call %d starts where the previous one ended' % j, d['t%d' % j][i], t)
            s = d['d%d' % j][i] * sg
            c.true('step', 'time step %d is positive and at most dt' % j, c_and(s > 0, s <= h * 2 + F(1, 10 ** 6)))
            t = t + d['d%d' % j][i]
        if n <= N:
            c.eq('end', 'the last call ends at the end time', t, T(E))
        if self.aligned(inp):
            c.true('full', 'all steps are dt when all intervals are multiples of dt (%d calls)' % n, n == (E - k0) // 2)

    def aligned(self, inp):
        vals = [inp[k] for k in ('out', 'cb', 'rep') if k in inp] + list(inp['runs']) + list(inp['off'])
        return all(int(sym.CTX.concretize(v.asint()) if isinstance(v, Sym) else v) % 2 == 0 for v in vals)


def c_and(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        f = lambda x: x.e if isinstance(x, Sym) else z3.BoolVal(bool(x))
        return Sym(z3.And(f(a), f(b)))
    return bool(a) and bool(b)


class RepTimes:
    """repeated releases need one common start time"""
    def spec(self):
        return ['RepTimes']

    def inputs(self):
        return dict(t=[symreal('t0', -10, 10), symreal('t1', -10, 10)], r=symreal('r', -5, 5))

    def run(self, mode, inp, c, real):
        if not real:
            sym.CTX.add(z3.Or(inp['t'][0].e == inp['t'][1].e, (abs(inp['t'][0] - inp['t'][1]) >= F(1, 8)).e))
            sym.CTX.add((abs(inp['r']) >= F(1, 8)).e)
        a = np.empty(2, dtype=np.float64 if real else object)
        a[0], a[1] = inp['t']
        S = sim('scipy', real, True)
        exc = None
        try:
            if real:
                ParticleSet(S.fieldset, S.pclass, lon=np.zeros(2), lat=np.zeros(2), time=a, repeatdt=inp['r'])
            else:
                with c01.alloc(False):
                    ParticleSet(S.fieldset, S.pclass, lon=np.zeros(2), lat=np.zeros(2), time=a, repeatdt=inp['r'])
        except Exception as e:
            exc = e
        bad = bool(inp['r'] <= 0) or not bool(inp['t'][0] == inp['t'][1])
        c.witness('bad' if bad else 'good')
        c.true('reptimes', 'a set with repeatdt is refused exactly when repeatdt is not positive or the start times differ (got %r)' % (exc,), isinstance(exc, ValueError) if bad else exc is None)


def scen_of(spec):
    return dict(Exec=Exec, RepTimes=RepTimes)[spec[0]](*spec[1:])


WITNESSES = {'-': ['run'], 'rep-': ['released'], 'reptimes': ['bad', 'good']}


def tasks(tier):
    q = tier != 'thorough'
    out = [('reptimes', lambda ctx: scen.drive(ctx, RepTimes(), 'scipy'))]

    def add(name, *a):
        for mode in ('scipy', 'jit'):
            for sg in (1, -1):
                out.append(('%s-%s%s' % (name, mode, '+' if sg > 0 else '-'), lambda ctx, m=mode, sg=sg: scen.drive(ctx, Exec(sg, *a), m, max_paths=60000)))
    add('-plain', [5], None, None, None, (0, 5))
    add('-out', [6], 4, None, None, (0, 3))
    add('-cb', [5], None, 4, None, (0, 3), True, 'endtime')
    add('-outcb', [5], 4, 4, None, (0,))
    add('rep-', [5], None, None, 4, (0, 0))
    add('rep-out', [5], 4, None, 4, (0,))
    add('rep-cb', [5], None, 4, 4, (0,))
    add('-two', [4, 3], None, None, None, (0, 6))
    add('-two-out', [3, 3], 3, None, None, (0, 4), True, 'endtime')
    add('rep-two', [4, 3], None, None, 3, (0,))
    add('-nofs', [4], 3, 3, None, (0, 3), False)
    if not q:
        add('-out8', [8], 6, None, None, (0, 5))
        add('-outcb3', [6], 5, 5, None, (0, 3))
        add('rep-all', [6], 5, 5, 5, (0, 0))
        add('rep-two-out', [4, 4], 4, None, 4, (0, 0))
        add('rep-three', [3, 3, 3], None, None, 5, (0,))
        add('-three', [3, 3, 3], 3, None, None, (0, 6))
        add('rep-nofs', [5], 4, None, 4, (0,), False)
    return out


def replay(inputs):
    return scen.replay(scen_of(inputs['scen']), inputs)
