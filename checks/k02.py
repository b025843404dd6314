"""K02: interrupted kernels. A kernel call that fails, asks to be repeated or deletes its particle affects that
particle only: its variables are rolled back to the values before the call, the matching recovery kernel is
called once with them and the particle then continues from where it was (or is removed, or - without a recovery
kernel - the matching exception is raised); all other particles end exactly as if it had not happened."""
from fractions import Fraction

import numpy as np
import z3

from lib import sym, psim, scen, npshim, cases
from lib.sym import Sym, symreal
from lib.scen import Claims
from parcels import FieldSet
from parcels.tools import statuscodes as sc
from parcels.tools.statuscodes import StateCode, OperationCode, ErrorCode

F = Fraction
FUNCTIONS = ['parcels.kernel.Kernel.execute / execute_python / execute_jit / remove_deleted_soa (Python)', 'parcels.tools.statuscodes recovery kernels', 'codegenerator.LoopGenerator: particle_loop with particle_backup (generated C, LLVM IR)',
             'ParticleSetSOA.error_particles, ParticleCollectionSOA.remove_multi_by_indices', 'ParticleAccessorSOA.update_next_dt']
BOUNDS = dict(particles='3 (each with its own behaviour out of ok / fail with each of 5 error codes / repeat with a halved dt / delete / stop)', steps='2 full time steps (up to 8 after halving), forward and backward',
              values='start time, dt, position and failure threshold any reals', recovery='repair and retry, delete, none (default exceptions)')
ASSUMPTIONS = ['exact real arithmetic']

VARS = dict(n=(np.int32, 0, 'once'), op=np.int32, x=(np.float64, 0, False), c=np.float64, h=np.float64, ht=np.float64, hx=np.float64, hn=np.float64, a=np.float64)


def Act(particle, fieldset, time):
    particle.n += 1
    particle.x = particle.x + math.fabs(particle.dt)
    particle.lon = particle.lon + 1
    if particle.x > particle.c:
        if particle.op == 1:
            return ErrorCode.ErrorOutOfBounds
        if particle.op == 3:
            particle.delete()
        if particle.op == 4:
            return ErrorCode.ErrorInterpolation
        if particle.op == 5:
            return ErrorCode.ErrorThroughSurface
        if particle.op == 6:
            return ErrorCode.ErrorTimeExtrapolation
        if particle.op == 7:
            return ErrorCode.Error
        if particle.op == 8:
            return OperationCode.StopExecution
        if particle.op == 9:
            return OperationCode.Delete
    if particle.op == 2:
        if math.fabs(particle.dt) > particle.c:
            particle.dt = particle.dt / 2
            return OperationCode.Repeat


def ActNext(particle, fieldset, time):
    particle.n += 1
    particle.x = particle.x + math.fabs(particle.dt)
    particle.lon = particle.lon + 1
    if particle.op == 1:
        particle.update_next_dt(particle.a)
        if particle.x > particle.c:
            return ErrorCode.ErrorOutOfBounds


def ActSample(particle, fieldset, time):
    particle.n += 1
    particle.x = particle.x + math.fabs(particle.dt)
    particle.lon = particle.lon + 1
    particle.a = fieldset.P[time, particle.depth, particle.lat, particle.x]


import math   # noqa  (used by the kernels)

EXC = {1: sc.OutOfBoundsError, 4: sc.InterpolationError, 5: sc.ThroughSurfaceError, 6: sc.OutOfTimeError, 7: sc.KernelError}
CODE = {1: ErrorCode.ErrorOutOfBounds, 4: ErrorCode.ErrorInterpolation, 5: ErrorCode.ErrorThroughSurface, 6: ErrorCode.ErrorTimeExtrapolation, 7: ErrorCode.Error}


def fix(particle, fieldset, time):
    particle.hn = particle.n
    particle.hx = particle.x
    particle.ht = time
    particle.h += 1
    particle.c += 1000


def fixsample(particle, fieldset, time):
    particle.hn = particle.n
    particle.hx = particle.x
    particle.ht = time
    particle.h += 1
    particle.x = -particle.x


def remove(particle, fieldset, time):
    particle.delete()


_S = {}


def sim(mode, kern, real, fs=None):
    k = (mode, kern.__name__, real)
    if k not in _S:
        _S[k] = (psim.RealSim if real else psim.PSim)(mode, kern, dict(VARS), fieldset=fs)
    return _S[k]


def ref(op, x, c, t, dt, end, s, recov):
    """independent reference: one particle on its own"""
    n, lon, h, log = 0, 0, 0, []
    dp = dt
    for _ in range(60):
        rem = (end - t) * s
        if bool(rem <= F(1, 10 ** 8)):
            return dict(gone=False, n=n, lon=lon, x=x, t=t, h=h, log=log, raised=None)
        ad = dp * s
        d = ad if bool(ad <= rem) else rem
        x2 = x + d
        if op in CODE and bool(x2 > c):
            dp = d * s
            r = recov.get(op)
            if r is None:
                return dict(gone=False, n=n, lon=lon, x=x, t=t, h=h, log=log, raised=op)
            if r == 'del':
                return dict(gone=True)
            log.append((n, x, t))
            h += 1
            c = c + 1000
            continue
        if op in (3, 9) and bool(x2 > c):
            return dict(gone=True)
        if op == 8 and bool(x2 > c):
            return dict(gone=False, n=n, lon=lon, x=x, t=t, h=h, log=log, raised='stop')
        if op == 2 and bool(d > c):
            dp = d * s / 2
            continue
        n, lon, x, t = n + 1, lon + 1, x2, t + d * s
    raise RuntimeError('reference did not terminate')


class Mix:
    """three particles with different behaviours and a recovery dictionary"""
    def __init__(self, ops, sign, rec, nsym=1):
        self.ops, self.sign, self.rec = tuple(ops), sign, dict(rec)

    def spec(self):
        return ['Mix', list(self.ops), self.sign, [[k, v] for k, v in self.rec.items()]]

    def inputs(self):
        s = self.sign
        C = sym.CTX
        dt = symreal('dt', F(1, 4), 4)
        base = symreal('base', -100, 100)
        xs, cs = [], []
        for i, o in enumerate(self.ops):
            x = symreal('x%d' % i, -4, 4)
            c = symreal('c%d' % i, -8, 20)
            if o == 2:
                C.add((c >= dt / 4).e)
                C.add((c >= F(1, 16)).e)
            elif o == 0:
                pass
            xs.append(x)
            cs.append(c)
        return dict(dt=dt * s, t0=base, x=xs, c=cs)

    def run(self, mode, inp, c, real):
        s, n = self.sign, len(self.ops)
        S = sim(mode, Act, real)
        dt, t0 = inp['dt'], inp['t0']
        end = t0 + dt * 2
        val = dict(time=[t0] * n, dt=[dt] * n, x=inp['x'], c=inp['c'], op=list(self.ops), lat=[10 + i for i in range(n)], lon=[0] * n,
                   n=[0] * n, h=[0] * n, ht=[0] * n, hx=[0] * n, hn=[0] * n)
        p = S.new(n, val)
        ids = [int(v) for v in p.collection._data['id']]
        fn = {'fix': fix, 'del': remove}
        rec = {CODE[k]: fn[v] for k, v in self.rec.items()}
        before = dict(rec)
        exc = None
        try:
            S.kernel.execute(p, endtime=end, dt=dt, recovery=rec if rec else None)
        except sc.KernelError as e:
            exc = e
        except psim.Fault as e:
            c.true('fault', 'no memory fault / endless loop: %s' % e, False)
            return
        except Exception as e:
            c.true('crash', 'kernel execution ends normally or with the documented exception, not %s: %s' % (type(e).__name__, str(e)[:100]), False)
            return
        c.true('dict', 'the recovery dictionary of the caller is unchanged', rec == before)
        recov = dict(self.rec)
        if 1 in recov and 5 not in recov:
            recov[5] = recov[1]
        refs = [ref(o, inp['x'][i], inp['c'][i], t0, dt, end, s, recov) for i, o in enumerate(self.ops)]
        raising = [EXC[r['raised']] for r in refs if not r['gone'] and r['raised'] in EXC]
        stopping = any(not r['gone'] and r['raised'] == 'stop' for r in refs)
        d = p.collection._data
        if raising and not stopping:
            c.witness('raised')
            c.true('raises', 'an unhandled error raises the matching exception (got %s)' % (type(exc).__name__ if exc else None), exc is not None and type(exc) in raising)
        elif not raising:
            c.true('noraise', 'no exception without an unhandled error (got %s)' % (type(exc).__name__ if exc else None), exc is None)
        if exc is not None or stopping:
            # execution was abandoned: every particle still has consistent data
            alive = [int(v) for v in d['id']]
            for i, r in enumerate(refs):
                if r['gone'] or r['raised'] or r['h'] or self.ops[i] == 2:
                    continue
                c.true('others', 'unaffected particle %d is kept' % i, ids[i] in alive)
                if ids[i] in alive:
                    self.same(c, d, alive.index(ids[i]), i, r)
            for i, r in enumerate(refs):
                if not r['gone'] and r['raised'] and not r['h'] and ids[i] in alive:
                    self.same(c, d, alive.index(ids[i]), i, r)
            if stopping:
                c.witness('stop')
            return
        want = [ids[i] for i, r in enumerate(refs) if not r['gone']]
        got = [int(v) for v in d['id']]
        c.true('survivors', 'exactly the deleted particles are removed, order kept: %s instead of %s' % (got, want), got == want)
        if got != want:
            return
        if len(want) < n:
            c.witness('deleted')
        for j, pid in enumerate(want):
            i = ids.index(pid)
            if refs[i]['h']:
                c.witness('recovered')
            if self.ops[i] == 2 and refs[i]['n'] > 2:
                c.witness('repeated')
            self.same(c, d, j, i, refs[i])
            c.true('state', 'particle %d is left in state Success' % i, int(d['state'][j]) in (StateCode.Success, StateCode.Evaluate))

    def same(self, c, d, j, i, r):
        w = 'particle %d (op %d)' % (i, self.ops[i])
        c.eq('n', w + ': number of completed calls', d['n'][j], r['n'])
        c.eq('x', w + ': variable x', d['x'][j], r['x'])
        c.eq('lon', w + ': lon', d['lon'][j], r['lon'])
        c.eq('lat', w + ': lat', d['lat'][j], 10 + i)
        c.eq('time', w + ': time', d['time'][j], r['t'])
        c.eq('h', w + ': number of recovery calls', d['h'][j], r['h'])
        if r['log']:
            n, x, t = r['log'][-1]
            c.eq('rollback', w + ': x seen by the recovery kernel', d['hx'][j], x)
            c.eq('rollback', w + ': n seen by the recovery kernel', d['hn'][j], n)
            c.eq('rollback', w + ': time given to the recovery kernel', d['ht'][j], t)


class NextErr:
    """update_next_dt in a call that then fails: rolled back with the call"""
    def __init__(self, sign):
        self.sign = sign

    def spec(self):
        return ['NextErr', self.sign]

    def inputs(self):
        s = self.sign
        dt = symreal('dt', F(1, 2), 2)
        a = symreal('a', F(1, 2), 2)
        sym.CTX.add(z3.Or((a == dt).e, (a * 2 == dt).e, (a == dt * 2).e))
        return dict(dt=dt * s, a=a * s, t0=symreal('t0', -50, 50), x=symreal('x', -4, 4), c=symreal('c', -8, 20))

    def run(self, mode, inp, c, real):
        s = self.sign
        S = sim(mode, ActNext, real)
        dt, t0, a = inp['dt'], inp['t0'], inp['a']
        end = t0 + dt * 3
        val = dict(time=[t0] * 2, dt=[dt] * 2, x=[inp['x'], 0], c=[inp['c'], 0], a=[a, 0], op=[1, 0], lon=[0, 0], lat=[10, 11], n=[0, 0], h=[0, 0])
        p = S.new(2, val)
        S.kernel.execute(p, endtime=end, dt=dt, recovery={ErrorCode.ErrorOutOfBounds: fix})
        d = p.collection._data
        # reference for particle 0
        n, x, t, cc, h, dp = 0, inp['x'], t0, inp['c'], 0, dt
        while True:
            rem = (end - t) * s
            if bool(rem <= F(1, 10 ** 8)):
                break
            dd = dp * s if bool(dp * s <= rem) else rem
            if bool(x + dd > cc):
                cc, h, dp = cc + 1000, h + 1, dd * s
                continue
            n, x, t, dp = n + 1, x + dd, t + dd * s, a
        if h:
            c.witness('recovered')
        for i, (rn, rx) in enumerate(((n, x), (3, dt * s * 3))):
            c.eq('next-n', 'number of calls of particle %d' % i, d['n'][i], rn)
            c.eq('next-x', 'x of particle %d' % i, d['x'][i], rx)
            c.eq('next-t', 'time of particle %d' % i, d['time'][i], end)


def fieldset():
    fs = FieldSet.from_data({'U': np.zeros((2, 2, 2), np.float32), 'V': np.zeros((2, 2, 2), np.float32), 'P': np.arange(8, dtype=np.float32).reshape(2, 2, 2)},
                            {'lon': [-8., 8.], 'lat': [-8., 8.], 'time': [0., 10.]}, mesh='flat')
    return fs


class Sample:
    """field sampling that fails inside the kernel (outside the domain / outside the time axis)"""
    def __init__(self, sign, what, rec):
        self.sign, self.what, self.rec = sign, what, rec

    def spec(self):
        return ['Sample', self.sign, self.what, self.rec]

    def inputs(self):
        dt = F(1)
        # both particles start in the domain; one may leave it (or the time axis)
        if self.what == 'space':
            return dict(dt=dt * self.sign, t0=symreal('t0', 3, 7), x=[symreal('x0', -6, 8), symreal('x1', -6, 5)])
        t0 = symreal('t0', F(17, 2), 12) if self.sign > 0 else symreal('t0', -2, F(3, 2))
        return dict(dt=dt * self.sign, t0=t0, x=[symreal('x0', -4, 4), 0])

    def run(self, mode, inp, c, real):
        s = self.sign
        if ('fs', mode, real) not in _S:
            _S['fs', mode, real] = fieldset()
        fs = _S['fs', mode, real]
        S = sim(mode, ActSample, real, fs)
        dt, t0 = inp['dt'], inp['t0']
        end = t0 + dt * 2
        tm = end + s
        tt = [t0, t0] if self.what == 'space' else [t0, tm]
        val = dict(time=tt, dt=[dt] * 2, x=inp['x'], lon=[0, 0], lat=[1, 2], n=[0, 0], h=[0, 0], depth=[0, 0])
        p = S.new(2, val)
        code = ErrorCode.ErrorOutOfBounds if self.what == 'space' else ErrorCode.ErrorTimeExtrapolation
        exc = None
        fs.computeTimeChunk(0, 1)
        rec = {'fix': {code: fixsample}, 'del': {code: remove}, 'none': None}[self.rec]
        try:
            S.kernel.execute(p, endtime=end, dt=dt, recovery=rec)
        except sc.KernelError as e:
            exc = e
        except psim.Fault as e:
            c.true('fault', 'no memory fault: %s' % e, False)
            return
        except Exception as e:
            c.true('crash', 'kernel execution ends normally or with the documented exception, not %s: %s' % (type(e).__name__, str(e)[:100]), False)
            return
        x0 = inp['x'][0]
        d = p.collection._data
        # reference for particle 0
        n, x, t, h, gone, raised = 0, x0, t0, 0, False, False
        for _ in range(10):
            if bool((end - t) * s <= F(1, 10 ** 8)):
                break
            x2 = x + 1
            if self.what == 'space':
                bad = bool(x2 > 8) or bool(x2 < -8)
            else:
                bad = bool(t > 10) or bool(t < 0)
            if bad:
                if self.rec == 'none':
                    raised = True
                    break
                if self.rec == 'del':
                    gone = True
                    break
                h += 1
                x = -x
                if h > 3:
                    return
                continue
            n, x, t = n + 1, x2, t + s
        if raised:
            c.witness('raised')
            want = sc.OutOfBoundsError if self.what == 'space' else sc.OutOfTimeError
            c.true('sample-raise', 'unhandled sampling error raises %s (got %s)' % (want.__name__, type(exc).__name__), type(exc) is want)
            j = 0
        else:
            c.true('sample-noraise', 'no exception otherwise (got %s)' % exc, exc is None)
            if exc is not None:
                return
            c.true('sample-survivors', 'exactly the failing particle is removed', len(p) == (1 if gone else 2))
            if len(p) != (1 if gone else 2):
                return
            j = 0
        last = len(p) - 1
        if not gone:
            if h:
                c.witness('recovered')
            c.eq('sample-n', 'completed calls', d['n'][0], n)
            c.eq('sample-x', 'x', d['x'][0], x)
            c.eq('sample-t', 'time', d['time'][0], t)
            c.eq('sample-h', 'recovery calls', d['h'][0], h)
        else:
            c.witness('deleted')
        if self.what == 'space':
            # the other particle is finished
            c.eq('sample-other', 'other particle: calls', d['n'][last], 2)
            c.eq('sample-other', 'other particle: x', d['x'][last], inp['x'][1] + 2)
            c.eq('sample-other', 'other particle: time', d['time'][last], end)


def scen_of(spec):
    if spec[0] == 'Mix':
        return Mix(spec[1], spec[2], {int(k): v for k, v in spec[3]})
    return dict(NextErr=NextErr, Sample=Sample)[spec[0]](*spec[1:])


WITNESSES = {'sample-': [], 'next': ['recovered']}


def tasks(tier):
    q = tier != 'thorough'
    out = []
    R1 = {1: 'fix'}
    mixes = [('fix', (1, 0, 3), R1), ('fixdel', (1, 1, 9), {1: 'del'}), ('rep', (2, 1, 0), R1), ('two', (1, 4, 0), {1: 'fix', 4: 'del'}),
             ('surf', (5, 0, 1), {1: 'fix'}), ('surf2', (5, 1), {1: 'fix', 5: 'del'}), ('dels', (3, 0, 3), {}), ('te', (6, 3, 0), {6: 'fix'}), ('err', (0, 7, 9), {7: 'del'}),
             ('stop', (8, 0), {}), ('stop2', (0, 8), {}), ('exc1', (0, 1), {}), ('exc4', (0, 4), {}), ('exc5', (5, 0), {}), ('exc6', (0, 6), {}), ('exc7', (7, 0), {}), ('exc4b', (4, 3), {1: 'fix'})]
    if not q:
        mixes += [('reprep', (0, 2, 2), {})]
        mixes += [('all%d%d%d' % (a, b, e), (a, b, e), {1: 'fix', 4: 'del', 5: 'fix', 6: 'del', 7: 'fix'}) for a in (0, 1, 2, 3) for b in (1, 2, 4, 9) for e in (0, 2, 3, 5, 7)]
    for mode in ('scipy', 'jit'):
        for s in (1, -1):
            n = '%s-%s' % (mode, 'fwd' if s > 0 else 'bwd')
            for name, ops, rec in mixes:
                if q and s < 0 and name not in ('fix', 'rep', 'dels'):
                    continue
                out.append(('mix-%s-%s' % (name, n), (lambda ctx, m=mode, s=s, o=ops, r=rec: scen.drive(ctx, Mix(o, s, r), m))))
            out.append(('next-' + n, (lambda ctx, m=mode, s=s: scen.drive(ctx, NextErr(s), m))))
            for what in ('space', 'time'):
                for rec in ('fix', 'del', 'none'):
                    if what == 'time' and rec == 'fix':
                        continue
                    if q and s < 0 and rec != 'del':
                        continue
                    out.append(('sample-%s-%s-%s' % (what, rec, n), (lambda ctx, m=mode, s=s, w=what, r=rec: scen.drive(ctx, Sample(s, w, r), m))))
    return out


def replay(inputs):
    return scen.replay(scen_of(inputs['scen']), inputs)
