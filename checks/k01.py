"""K01: time stepping. Every particle advances from its own start time to exactly the end time of the interval,
in contiguous kernel calls of one time step each in the direction of dt (only the last one shortened), particles
that have not started or are already past the end are left alone, and dt=0 means exactly one call without
advancing time. Same in both modes."""
from fractions import Fraction

import numpy as np
import z3

from lib import sym, psim, scen
from lib.sym import Sym, symreal
from parcels.tools.statuscodes import StateCode, OperationCode, ErrorCode

F = Fraction
FUNCTIONS = ['parcels.kernel.Kernel.execute / execute_python / execute_jit (Python)', 'codegenerator.LoopGenerator: particle_loop (generated C, LLVM IR)', 'ParticleSetSOA.error_particles / remove_indices', 'ParticleAccessorSOA.update_next_dt']
BOUNDS = dict(particles='2 (1-2 with symbolic start time)', steps='<= 3 (quick) / 4-5 (thorough) per interval, <= 2 consecutive intervals', times='any real start time, interval length and dt (both signs) with |t| <= 1000; a remainder of the interval modulo dt is either zero (<= 1e-10) or >= 1e-3',
              kernel='tracing kernel that records time and dt of each call; kernels that change dt (update_next_dt) or delete')
ASSUMPTIONS = ['exact real arithmetic for time']

TR = {'n': np.int32}
for _i in range(8):
    TR['t%d' % _i] = np.float64
    TR['d%d' % _i] = np.float64


def Trace(particle, fieldset, time):
    if particle.n == 0:
        particle.t0 = time
        particle.d0 = particle.dt
    elif particle.n == 1:
        particle.t1 = time
        particle.d1 = particle.dt
    elif particle.n == 2:
        particle.t2 = time
        particle.d2 = particle.dt
    elif particle.n == 3:
        particle.t3 = time
        particle.d3 = particle.dt
    elif particle.n == 4:
        particle.t4 = time
        particle.d4 = particle.dt
    elif particle.n == 5:
        particle.t5 = time
        particle.d5 = particle.dt
    elif particle.n == 6:
        particle.t6 = time
        particle.d6 = particle.dt
    particle.n += 1


def TraceNext(particle, fieldset, time):
    if particle.n == 0:
        particle.t0 = time
        particle.d0 = particle.dt
        particle.update_next_dt(particle.a)
    elif particle.n == 1:
        particle.t1 = time
        particle.d1 = particle.dt
    elif particle.n == 2:
        particle.t2 = time
        particle.d2 = particle.dt
    elif particle.n == 3:
        particle.t3 = time
        particle.d3 = particle.dt
    elif particle.n == 4:
        particle.t4 = time
        particle.d4 = particle.dt
    elif particle.n == 5:
        particle.t5 = time
        particle.d5 = particle.dt
    elif particle.n == 6:
        particle.t6 = time
        particle.d6 = particle.dt
    particle.n += 1


def TraceOne(particle, fieldset, time):
    if particle.n == particle.w:
        particle.update_next_dt(particle.a)
    if particle.n == 0:
        particle.t0 = time
        particle.d0 = particle.dt
    elif particle.n == 1:
        particle.t1 = time
        particle.d1 = particle.dt
    elif particle.n == 2:
        particle.t2 = time
        particle.d2 = particle.dt
    elif particle.n == 3:
        particle.t3 = time
        particle.d3 = particle.dt
    elif particle.n == 4:
        particle.t4 = time
        particle.d4 = particle.dt
    elif particle.n == 5:
        particle.t5 = time
        particle.d5 = particle.dt
    elif particle.n == 6:
        particle.t6 = time
        particle.d6 = particle.dt
    particle.n += 1


_S = {}


def sim(mode, kern, real=False, extra=None):
    k = (mode, kern.__name__, real)
    if k not in _S:
        v = dict(TR)
        v.update(extra or {})
        _S[k] = (psim.RealSim if real else psim.PSim)(mode, kern, v)
    return _S[k]


def clean_remainder(D, dt, nmax, s):
    """number of steps is at most nmax and the interval is (nearly) a multiple of dt or clearly not"""
    ok = []
    d = abs(dt) if not isinstance(dt, Sym) else dt * s
    for k in range(nmax + 1):
        lo, hi = d * k, d * (k + 1)
        ok.append(z3.Or((D == lo).e if isinstance(D == lo, Sym) else z3.BoolVal(bool(D == lo)),
                        z3.And(oz(D >= lo + F(1, 1000)), oz(D <= hi - F(1, 1000)))) if k < nmax else oz(D == lo))
    return z3.Or(*ok)


def oz(c):
    return c.e if isinstance(c, Sym) else z3.BoolVal(bool(c))


class Loop:
    def __init__(self, sign, nmax, second=0, dtv=None):
        self.sign, self.nmax, self.second, self.dtv = sign, nmax, second, dtv

    def spec(self):
        return ['Loop', self.sign, self.nmax, self.second, self.dtv]

    def inputs(self):
        s = self.sign
        C = sym.CTX
        dt = F(self.dtv) if self.dtv else symreal('dt', F(1, 100), 50) * s
        base = symreal('base', -500, 500)
        e1 = base
        if not self.second:
            # particle 0 starts anywhere before (or after) the end; particle 1 is already past / at the end
            t = [symreal('t0', -1000, 1000), symreal('t1', -1000, 1000)]
            C.add(clean_remainder((e1 - t[0]) * s, dt, self.nmax, s))
            C.add(z3.Or(oz((t[1] - e1) * s >= F(1, 1000)), oz(t[1] == e1)))
            return dict(dt=dt, e1=e1, t=t)
        # particle 0: k full steps and a last one of length r, then goes on to e2 (its dt stays r); particle 1 is released later
        k = sym.symint('k', 0, self.nmax - 1)
        k = C.concretize(k.e)
        r = symreal('r', F(1, 400), 50)
        C.add(z3.Or(oz(r == dt * s), oz(r <= dt * s - F(1, 1000))))
        D2 = symreal('D2', F(1, 100), 200)
        C.add(clean_remainder(D2, r, self.second, 1))
        q = symreal('q', 0, 200)
        C.add(oz(q <= D2))
        C.add(clean_remainder(D2 - q, dt * s, self.second, 1))
        return dict(dt=dt, e1=e1, t=[e1 - (dt * s * k + r) * s, e1 + q * s], e2=e1 + D2 * s)

    def run(self, mode, inp, c, real):
        s = self.sign
        S = sim(mode, Trace, real)
        z = [0, 0]
        val = dict(time=inp['t'], dt=[inp['dt']] * 2, lon=[1, 2], lat=[3, 4])
        for k in TR:
            val[k] = z
        p = S.new(2, val)
        d = p.collection._data
        dt = inp['dt']
        d['state'][:] = StateCode.Evaluate
        S.kernel.execute(p, endtime=inp['e1'], dt=dt)
        c.true('count', 'no particle disappears', len(p) == 2)
        self.interval(c, p, 0, inp['t'][0], inp['e1'], dt, 0, first=True)
        d = p.collection._data
        c.true('idle', 'a particle at or past the end time is not executed', int(d['n'][1]) == 0)
        c.eq('idle', 'time of a particle at or past the end is unchanged', d['time'][1], inp['t'][1])
        for k in ('lon', 'lat'):
            c.eqs('other', 'kernel loop leaves %s alone' % k, list(d[k]), val[k])
        if self.second:
            n0 = int(d['n'][0])
            S.kernel.execute(p, endtime=inp['e2'], dt=dt)
            d = p.collection._data
            if n0:
                self.interval(c, p, 0, inp['e1'], inp['e2'], dt, n0, first=False)
            e2 = inp['e2']
            self.interval(c, p, 1, inp['t'][1], e2, dt, 0, first=True)
            c.witness('second')
        else:
            c.witness('n%d' % int(d['n'][0]))

    def interval(self, c, p, i, t0, end, dt, n0, first):
        s = self.sign
        d = p.collection._data
        n = int(d['n'][i])
        D = (end - t0) * s
        if not bool(D >= F(1, 1000)):
            c.true('idle', 'no call for a particle at the end of its interval', n == n0)
            return
        c.true('called', 'a particle before the end time is executed', n > n0)
        if n <= n0:
            return
        t = t0
        ad = dt * s
        for k in range(n0, min(n, 7)):
            tk, dk = d['t%d' % k][i], d['d%d' % k][i]
            c.eq('contiguous', 'call %d starts where the previous one ended' % k, tk, t)
            c.true('direction', 'time step %d in direction of dt' % k, dk * s > 0)
            c.le('size', 'time step %d not longer than dt' % k, dk * s, ad)
            if first and k < n - 1:
                c.eq('fullstep', 'time step %d is dt' % k, dk, dt)
            t = t + dk
        if n <= 7:
            c.eq('end', 'the last call ends at the end time', t, end)
        c.eq('endtime', 'particle time is the end time', d['time'][i], end)
        c.true('state', 'particle is left in state Success', int(d['state'][i]) in (StateCode.Success, StateCode.Evaluate))
        if first:
            c.true('ncalls', 'no superfluous call', bool_and(ad * (n - n0 - 1) < D, ad * (n - n0) >= D - F(1, 10 ** 6)))


def bool_and(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return Sym(z3.And(oz(a), oz(b)))
    return bool(a) and bool(b)


class Zero:
    """dt=0: one call, time unchanged"""
    def spec(self):
        return ['Zero']

    def inputs(self):
        return dict(t=[symreal('t0', -1000, 1000), symreal('t1', -1000, 1000)], end=symreal('end', -1000, 1000))

    def run(self, mode, inp, c, real):
        S = sim(mode, Trace, real)
        val = dict(time=inp['t'], dt=[0, 0], lon=[1, 2])
        for k in TR:
            val[k] = [0, 0]
        p = S.new(2, val)
        S.kernel.execute(p, endtime=inp['end'], dt=0, execute_once=True)
        d = p.collection._data
        for i in range(2):
            c.true('once', 'dt=0 executes the kernel exactly once', int(d['n'][i]) == 1)
            c.eq('once', 'dt=0 does not advance time', d['time'][i], inp['t'][i])
            c.eq('once', 'kernel sees the particle time', d['t0'][i], inp['t'][i])
            c.eq('once', 'kernel sees dt=0', d['d0'][i], 0)
        c.witness('zero')


class Next:
    """update_next_dt: takes effect for the following call of that particle, and of no other particle"""
    def __init__(self, sign):
        self.sign = sign

    def spec(self):
        return ['Next', self.sign]

    def inputs(self):
        s = self.sign
        dt = symreal('dt', F(1, 4), 4)
        a = [symreal('a0', F(1, 8), 4), symreal('a1', F(1, 8), 4)]
        e = symreal('e', -100, 100)
        D = symreal('D', F(1, 4), 16)
        C = sym.CTX
        # two to four calls
        C.add(oz(D >= dt + F(1, 100)))
        for x in a:
            C.add(clean_remainder(D - dt, x, 3, 1))
        return dict(dt=dt * s, a=[x * s for x in a], e=e, D=D)

    def run(self, mode, inp, c, real):
        s = self.sign
        S = sim(mode, TraceNext, real, {'a': np.float64})
        t0 = inp['e'] - inp['D'] * s
        val = dict(time=[t0, t0], dt=[inp['dt']] * 2, a=inp['a'])
        for k in TR:
            val[k] = [0, 0]
        p = S.new(2, val)
        S.kernel.execute(p, endtime=inp['e'], dt=inp['dt'])
        d = p.collection._data
        for i in range(2):
            n = int(d['n'][i])
            c.true('next-calls', 'several calls', n >= 2)
            t = t0
            for k in range(min(n, 7)):
                c.eq('contiguous', 'call %d starts where the previous one ended' % k, d['t%d' % k][i], t)
                if k < n - 1:
                    c.eq('next-dt', 'time step %d' % k, d['d%d' % k][i], inp['dt'] if k == 0 else inp['a'][i])
                c.le('size', 'step %d not longer than requested' % k, d['d%d' % k][i] * s, (inp['dt'] if k == 0 else inp['a'][i]) * s)
                t = t + d['d%d' % k][i]
            c.eq('end', 'ends at the end time', t, inp['e'])
            c.eq('endtime', 'particle time is the end time', d['time'][i], inp['e'])
        c.witness('next')


class NextOne:
    """one call of one particle uses update_next_dt (also the last one of an interval); others never do; two intervals"""
    def __init__(self, sign, first, dmax=2):
        self.sign, self.first, self.dmax = sign, first, dmax

    def spec(self):
        return ['NextOne', self.sign, self.first, self.dmax]

    def steps(self, dt, a, w, D):
        """time steps of a particle over consecutive intervals of lengths D, up to where a shortened step is carried over"""
        C = sym.CTX
        cur, n, out, k0 = dt, 0, [], 0
        for L in D:
            left = L
            while True:
                g = oz(left >= cur + F(1, 100))
                e = oz(left == cur)
                C.add(z3.Or(g, e, z3.And(oz(left <= cur - F(1, 100)), oz(left >= F(1, 2)))))
                full = bool(left >= cur)
                st = cur if full else left
                out.append(st)
                upd = n == w
                n += 1
                left = left - st
                if upd:
                    cur = a
                elif not full:
                    if L is D[0]:   # (the shortened step is carried over: keep the number of its steps small)
                        C.add(clean_remainder(D[1], st, 4, 1))
                    return out
                if not full or bool(left == 0):
                    break
                if n > 6:
                    raise sym.Infeasible()
        return out

    def inputs(self):
        C = sym.CTX
        w = C.concretize(sym.symint('w', 0, 1 if self.dmax <= 2 else 2).e)
        dt, a = symreal('dt', 1, 4), symreal('a', 1, 4)
        D = [symreal('D0', F(1, 2), self.dmax), symreal('D1', F(1, 2), self.dmax)]
        inp = dict(dt=dt, a=a, D=D, w=w, base=symreal('base', -100, 100))
        inp['ref0'] = self.steps(dt, a, w, D)
        inp['ref1'] = self.steps(dt, a, -1, D)
        return inp

    def run(self, mode, inp, c, real):
        s = self.sign
        S = sim(mode, TraceOne, real, {'a': np.float64, 'w': np.int32})
        i0 = self.first     # index of the particle that sets its dt
        val = dict(time=[inp['base']] * 2, dt=[inp['dt'] * s] * 2, a=[inp['a'] * s] * 2, w=[inp['w'] if i == i0 else -1 for i in range(2)])
        for k in TR:
            val[k] = [0, 0]
        p = S.new(2, val)
        e = inp['base']
        for D in inp['D']:
            e = e + D * s
            S.kernel.execute(p, endtime=e, dt=inp['dt'] * s)
            d = p.collection._data
            for i in range(2):
                c.eq('endtime', 'particle time is the end time', d['time'][i], e)
        for i in range(2):
            ref = inp['ref0'] if i == i0 else inp['ref1']
            n = int(d['n'][i])
            c.true('next-calls', 'number of calls', n >= len(ref))
            t = inp['base']
            for k in range(min(n, len(ref), 7)):
                c.eq('contiguous', 'call %d starts where the previous one ended' % k, d['t%d' % k][i], t)
                c.eq('next-dt', 'time step %d' % k, d['d%d' % k][i], ref[k] * s)
                t = t + ref[k] * s
        c.witness('nextone')


def scen_of(spec):
    return dict(NextOne=NextOne, Loop=Loop, Zero=Zero, Next=Next)[spec[0]](*spec[1:])


WITNESSES = {'loop': ['n2'], 'second': ['second'], 'zero': ['zero'], 'next-': ['next'], 'nextone': ['nextone']}


def tasks(tier):
    q = tier != 'thorough'
    out = []
    for mode in ('scipy', 'jit'):
        for s in (1, -1):
            n = '%s-%s' % (mode, 'fwd' if s > 0 else 'bwd')
            out.append(('loop-' + n, (lambda ctx, m=mode, s=s: scen.drive(ctx, Loop(s, 3 if q else 5), m))))
            out.append(('second-' + n, (lambda ctx, m=mode, s=s: scen.drive(ctx, Loop(s, 2, 2 if q else 3), m))))
            for f in (0, 1):
                out.append(('nextone%d-%s' % (f, n), (lambda ctx, m=mode, s=s, f=f: scen.drive(ctx, NextOne(s, f, 2 if q else 3), m))))
            out.append(('next-' + n, (lambda ctx, m=mode, s=s: scen.drive(ctx, Next(s), m))))
        out.append(('zero-' + mode, (lambda ctx, m=mode: scen.drive(ctx, Zero(), m))))
    return out


def replay(inputs):
    return scen.replay(scen_of(inputs['scen']), inputs)
