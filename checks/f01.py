"""F01: trajectory output. Whatever sequence of outputs, deletions and releases happened, the exported file has exactly one
row per particle ever written, in id order, whose observations are the states of that particle at its successive outputs
(its last state when it is deleted), variables written 'once' hold the value at the first output, and nothing else is in
the file. Output completed before an interruption can be converted."""
import builtins
import os
import shutil
import sys
import tempfile
from fractions import Fraction

import netCDF4
import numpy as np
import z3
from numpy.lib import npyio

from lib import sym, psim, scen
from lib.sym import Sym, symreal, symint
from checks import c01
from parcels import FieldSet, ParticleSet, ScipyParticle, Variable, ParticleFile
from parcels import particlefile
from parcels.particle import _Particle
from parcels.tools.statuscodes import OperationCode
from parcels.scripts import convert_npydir_to_netcdf as converter

F = Fraction
FUNCTIONS = ['parcels.particlefile.ParticleFile (all methods)', 'parcels.particlesets.collectionsoa.ParticleCollectionSOA.toDictionary, _to_write_particles, _is_particle_started_yet',
             'parcels.kernel.Kernel.remove_deleted_soa', 'parcels.scripts.convert_npydir_to_netcdf', 'parcels.particlesets.baseparticleset.BaseParticleSet.execute with an output file']
BOUNDS = dict(histories='every sequence of 3 (thorough 4) operations out of: output, deletion of any subset while executing, write(deleted_only=True / list / booleans), adding a particle; any times, time steps of either sign and values at each',
              runs='ParticleSet.execute over up to 6 half time steps, output intervals, ages at deletion and start times symbolic, forward, backward and forward-then-backward',
              interruption='an interruption at any file operation (open, every write, rename) of a history', particles='2-3, ids starting at 0-2')
ASSUMPTIONS = ['netCDF4.Dataset stores and returns what is assigned (stand-in while exploring; the real library in replays)', 'numpy.save/load and the file system are the real ones',
               'particle times not within 1e-3 of the edges of the dt/2 window', 'without MPI', 'dt=0 runs that delete particles are left out']

SLOTS = {}


# ------------------------------------------------------------------ stand-in for the netCDF library
class FakeVar:
    def __init__(self, shape):
        self.__dict__['_d'] = np.full(shape, np.nan, dtype=object)

    def __setitem__(self, ix, v):
        v = np.asarray(v, dtype=object)
        d = self._d
        if d.ndim == 1 and v.ndim == 2 and v.shape[1] == 1:
            v = v[:, 0]
        d[ix] = v

    def __getitem__(self, ix):
        return self._d[ix]


class FakeDataset:
    made = {}

    def __init__(self, fname, mode='r', **k):
        self.__dict__['dims'] = {}
        self.__dict__['variables'] = {}
        self.__dict__['closed'] = False
        FakeDataset.made[os.path.abspath(str(fname))] = self

    def createDimension(self, n, size=None):
        self.dims[n] = size

    def createVariable(self, n, dt, dims=(), **k):
        dims = (dims,) if isinstance(dims, str) else dims
        v = FakeVar(tuple(int(self.dims[d]) for d in dims))
        self.variables[n] = v
        return v

    def close(self):
        self.__dict__['closed'] = True

    def __getitem__(self, n):
        return self.variables[n]


def _floatish(dt):
    try:
        return np.issubdtype(np.dtype(dt), np.floating)
    except TypeError:
        return True


def _zeros(shape, dtype=float, **k):
    return np.full(shape, 0.0, dtype=object) if _floatish(dtype) else np.zeros(shape, dtype=dtype, **k)


def _full(shape, fill, dtype=None, **k):
    if (dtype is None and isinstance(fill, float)) or (dtype is not None and _floatish(dtype)):
        return np.full(shape, fill, dtype=object)
    return np.full(shape, fill, dtype=dtype, **k)


class LazySorted:
    """np.unique of symbolic values: their number first, their order only when asked for"""
    def __init__(self, vals):
        self.v = vals

    def __len__(self):
        return len(self.v)

    size = property(lambda self: len(self.v))
    shape = property(lambda self: (len(self.v),))

    def __array__(self, *a, **k):
        return np.unique(np.array(self.v, dtype=object))

    def __iter__(self):
        return iter(self.__array__())

    def __getitem__(self, i):
        return self.__array__()[i]


def _unique(x, *a, **k):
    x = list(np.asarray(x, dtype=object).flat)
    if a or k or not any(isinstance(v, Sym) for v in x):
        return np.unique(np.array(x), *a, **k)
    out = []
    for v in x:
        if not any(bool(v == u) for u in out):
            out.append(v)
    return LazySorted(out)


class _NPF:
    def __init__(self, base):
        self.__dict__['_b'] = base
        self.__dict__['_o'] = dict(unique=_unique, zeros=_zeros, empty=_zeros, full=_full, ones=lambda s, dtype=float, **k: _zeros(s, dtype) + 1, int64=np.int64)

    def __getattr__(self, n):
        o = self.__dict__['_o']
        return o[n] if n in o else getattr(self.__dict__['_b'], n)


class Crash(BaseException):
    pass


class _File:
    def __init__(self, f, fs):
        self.f, self.fs = f, fs

    def write(self, b):
        if self.fs.tick():
            self.f.write(bytes(b)[:len(bytes(b)) // 2])
            self.f.close()
            raise Crash()
        return self.f.write(b)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()
        return False

    def __getattr__(self, n):
        return getattr(self.f, n)


class Storage:
    """scratch directory, library stand-ins and (optionally) an interruption at the k-th file operation"""
    def __init__(self, real, crash=None):
        self.real, self.crash, self.n = real, crash, 0

    def tick(self):
        if self.crash is None:
            return False
        self.n += 1
        if self.n - 1 == self.crash:
            self.crash = None
            return True
        return False

    def op(self, fn):
        def g(*a, **k):
            if self.tick():
                raise Crash()
            return fn(*a, **k)
        return g

    def open(self, name, mode='r', *a, **k):
        if 'r' in mode and '+' not in mode:
            return builtins.open(name, mode, *a, **k)
        if self.tick():
            raise Crash()
        return _File(builtins.open(name, mode, *a, **k), self)

    def __enter__(self):
        sym._PICK.clear()
        FakeDataset.made.clear()
        self.dir = tempfile.mkdtemp(prefix='f01-')
        self.undo = []

        def put(mod, n, v):
            had = n in mod.__dict__
            self.undo.append((mod, n, mod.__dict__.get(n), had))
            setattr(mod, n, v)
        if not self.real:
            put(netCDF4, 'Dataset', FakeDataset)
            for n, v in list(particlefile.__dict__.items()):
                if v is self.undo[0][2]:
                    put(particlefile, n, FakeDataset)
            put(particlefile, 'np', _NPF(particlefile.np))
        if self.crash is not None:
            put(particlefile, 'open', self.open)
            put(npyio, 'open', self.open)
            for n in ('replace', 'rename', 'remove', 'unlink'):
                put(os, n, self.op(getattr(os, n)))
        return self

    def __exit__(self, *a):
        for mod, n, v, had in reversed(self.undo):
            if had:
                setattr(mod, n, v)
            else:
                delattr(mod, n)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def read(self, fname):
        """{variable: list (rows) of lists} of the exported file; None where nothing is stored"""
        if not self.real:
            ds = FakeDataset.made.get(os.path.abspath(fname))
            if ds is None or not ds.closed:
                return None

            def val(x):
                return None if isinstance(x, float) and x != x else x
            return {n: ([[val(x) for x in r] for r in v._d] if v._d.ndim == 2 else [val(x) for x in v._d]) for n, v in ds.variables.items()}
        if not os.path.exists(fname):
            return None
        ds = netCDF4.Dataset(fname)
        out = {}
        for n, v in ds.variables.items():
            d = np.ma.masked_invalid(v[:]) if v.dtype.kind == 'f' else np.ma.asarray(v[:])
            out[n] = d.tolist()
        ds.close()
        return out


VAR = dict(lon='lon', lat='lat', depth='z', time='time', v='v')


def expect(c, key, data, recs, once):
    """recs: {id: [record, ...]}; once: {id: value}"""
    c.true(key + '-file', 'the output file exists', data is not None)
    if data is None:
        return
    ids = sorted(recs)
    tr = data['trajectory']
    c.true(key + '-rows', 'one row per particle written (%d, expected %d)' % (len(tr), len(ids)), len(tr) == len(ids))
    if len(tr) != len(ids):
        return
    width = max([len(r) for r in recs.values()] + [0])
    c.true(key + '-obs', 'as many columns as the longest trajectory', all(len(r) == width for r in tr))
    c.true(key + '-vars', 'variables that are not to be written are not in the file', 'h' not in data and 'id' not in data and 'depth' not in data)
    for row, i in enumerate(ids):
        rec = recs[i]
        for j in range(len(tr[row])):
            if j < len(rec):
                c.true(key + '-id', 'row %d, observation %d belongs to particle %d (got %r)' % (row, j, i, tr[row][j]), tr[row][j] is not None and int(tr[row][j]) == i)
                for k, out in VAR.items():
                    g = data[out][row][j]
                    if g is None:
                        c.true(key + '-' + k, '%s of observation %d is stored' % (k, j), False)
                    elif callable(rec[j][k]):
                        c.true(key + '-' + k, '%s of observation %d' % (k, j), rec[j][k](g))
                    else:
                        c.eq(key + '-' + k, '%s of observation %d' % (k, j), g, rec[j][k])
            else:
                c.true(key + '-rest', 'nothing is stored after the last observation', tr[row][j] is None and all(data[o][row][j] is None for o in VAR.values()))
        g = data['w'][row]
        if once[i] is None:
            c.true(key + '-once', 'a variable written once is empty before the first output', g is None)
        elif g is None:
            c.true(key + '-once', 'a variable written once is stored', False)
        else:
            c.eq(key + '-once', 'a variable written once has the value at the first output', g, once[i])


class PF(ScipyParticle):
    v = Variable('v', dtype=np.float64, initial=0)
    w = Variable('w', dtype=np.float64, initial=0, to_write='once')
    h = Variable('h', dtype=np.float64, initial=0, to_write=False)


_FS = []


def fieldset():
    if not _FS:
        z = np.zeros((2, 2), np.float32)
        _FS.append(FieldSet.from_data({'U': z, 'V': z}, dict(lon=np.array([0., 1.], np.float32), lat=np.array([0., 1.], np.float32)), mesh='flat'))
    return _FS[0]


def sabs(x):
    return Sym(z3.If(x.e >= 0, x.e, -x.e)) if isinstance(x, Sym) else abs(x)


def K(v):
    return sym.CTX.concretize(v.asint()) if isinstance(v, Sym) else int(v)


NAMES = ['traj.nc', 'once/traj', 'a.b/once_1.nc4']
STATE = ('lon', 'lat', 'depth', 'v', 'w')


class Hist:
    """ops: string of  w: output   x: deletion as Kernel.execute does it   d: write(deleted_only=True)   l: list of indices   b: booleans   a: add a particle;  ?: any of them"""
    def __init__(self, ops, n, ondelete=False, crash=0, names=1, base=0, sg=1):
        self.a = [ops, n, ondelete, crash, names, base, sg]
        self.ops, self.n, self.ondelete, self.crash, self.names, self.base, self.sg = self.a

    def spec(self):
        return ['Hist'] + self.a

    def inputs(self):
        C = sym.CTX
        L = len(self.ops)
        inp = dict(base=symint('base', 0, self.base), dt=[], t=[], ops=[], sub=[])
        m = self.n + self.ops.count('a') + self.ops.count('?')
        if self.crash:
            inp['crash'] = symint('crash', 0, self.crash)
        inp['name'] = symint('name', 0, self.names - 1)
        for k in range(L):
            inp['ops'].append(symint('op%d' % k, 0, 5) if self.ops[k] == '?' else 'wxdlba'.index(self.ops[k]))
            inp['sub'].append(symint('sub%d' % k, 0, (1 << m) - 1))
            inp['t'].append(symreal('t%d' % k, 1, 8))
            inp['dt'].append(symreal('dt%d' % k, F(1, 4), 4))
            for v in STATE + ('time',):
                inp['%s_%d' % (v, k)] = [symreal('%s%d_%d' % (v, k, i), -10, 10) for i in range(m)]
        return inp

    def run(self, mode, inp, c, real):
        crash = K(inp['crash']) if self.crash else None
        with Storage(real, crash) as st:
            if real:
                self.go(inp, c, real, st)
            else:
                with c01.alloc(False):
                    self.go(inp, c, real, st)

    def go(self, inp, c, real, st):
        C = sym.CTX
        _Particle.lastID = 0
        base = K(inp['base'])
        if base:
            ParticleSet(fieldset(), PF, lon=np.zeros(base), lat=np.zeros(base), lonlatdepth_dtype=np.float64)
        n = self.n
        z = np.zeros(n)
        p = ParticleSet(fieldset(), PF, lon=z, lat=z, depth=z, time=z, lonlatdepth_dtype=np.float64)
        alive = list(range(base, base + n))
        nxt = base + n
        if not real:
            for k in p.collection._data:
                p.collection._data[k] = p.collection._data[k].astype(object)
        name = os.path.join(st.dir, NAMES[K(inp['name'])])
        os.makedirs(os.path.dirname(name), exist_ok=True)
        fname = name if name.endswith(('.nc', '.nc4')) else name + '.nc'
        sg = self.sg
        recs, once, last = {}, {}, None
        before = ({}, {})
        crashed = False
        pf = None
        exc = None
        try:
            pf = ParticleFile(name, p, outputdt=1, write_ondelete=self.ondelete, convert_at_end=False)
            for k in range(len(self.ops)):
                op = 'wxdlba'[K(inp['ops'][k])]
                d = p.collection._data
                t, dt = inp['t'][k], inp['dt'][k] * sg
                now = {}
                for j, i in enumerate(alive):
                    s = {v: inp['%s_%d' % (v, k)][i - base] for v in STATE + ('time',)}
                    now[i] = s
                    for v in s:
                        d[v][j] = s[v]
                    d['dt'][j] = dt
                if op == 'a':
                    q = ParticleSet(fieldset(), PF, lon=np.zeros(1), lat=np.zeros(1), depth=np.zeros(1), time=np.zeros(1), lonlatdepth_dtype=np.float64)
                    if not real:
                        for x in q.collection._data:
                            q.collection._data[x] = q.collection._data[x].astype(object)
                    p.add(q)
                    alive.append(nxt)
                    nxt += 1
                    continue
                if not alive:
                    return
                before = ({i: list(r) for i, r in recs.items()}, dict(once))
                if op == 'w':
                    if last is None or not bool(last == t):
                        last = t
                        if not self.ondelete:
                            for i, s in now.items():
                                if not real:
                                    C.add((sabs(sabs(s['time'] - t) - inp['dt'][k] / 2) >= F(1, 500)).e)
                                    C.add(z3.Or((s['time'] == t).e, (sabs(s['time'] - t) >= F(1, 16)).e))
                                if bool(sabs(s['time'] - t) <= inp['dt'][k] / 2):
                                    recs.setdefault(i, []).append(s)
                                    once.setdefault(i, None)
                                    if once[i] is None and bool((s['time'] - t) * sg <= 0):
                                        once[i] = s['w']
                    pf.write(p, t)
                    continue
                # deletions; never at the time of the last output
                if last is not None:
                    if real:
                        if last == t:
                            return
                    else:
                        C.add((sabs(last - t) >= F(1, 16)).e)
                sub = K(inp['sub'][k])
                gone = [i for i in alive if sub >> (i - base) & 1]
                if not real:
                    for i in alive:
                        C.add(((now[i]['time'] - t) * sg <= -F(1, 16)).e)
                for j, i in enumerate(alive):
                    if i in gone:
                        d['state'][j] = int(OperationCode.Delete)
                for i in gone:
                    recs.setdefault(i, []).append(now[i])
                    if once.get(i) is None:
                        once[i] = now[i]['w']
                ix = [j for j, i in enumerate(alive) if i in gone]
                if op == 'x':
                    kernel().remove_deleted_soa(p, pf, t)
                elif op == 'd':
                    pf.write(p, t, deleted_only=True)
                    p.remove_indices(ix)
                elif op == 'l':
                    pf.write(p, t, deleted_only=ix)
                    p.remove_indices(ix)
                else:
                    pf.write(p, t, deleted_only=np.array([i in gone for i in alive], dtype=bool))
                    p.remove_indices(ix)
                alive = [i for i in alive if i not in gone]
                if gone:
                    c.witness('deleted')
        except Crash:
            crashed = True
        except (IndexError, ValueError, TypeError, KeyError, AttributeError, OSError) as e:
            exc = e
        c.true('raises', 'writing does not fail (got %r)' % (exc,), exc is None)
        if exc is not None or pf is None:
            return
        if not recs and not crashed:
            return
        try:
            if self.crash:
                st.crash = None
                info = os.path.join(pf.tempwritedir_base, '0', 'pset_info.npy')
                if not os.path.exists(info):
                    c.true('lost', 'after a completed write there is something to convert', not before[0])
                    return
                converter.convert_npydir_to_netcdf(pf.tempwritedir_base)
            else:
                pf.close()
        except (IndexError, ValueError, TypeError, KeyError, AttributeError, OSError, EOFError, RuntimeError) as e:
            exc = e
        c.true('export', 'exporting does not fail (got %r)' % (exc,), exc is None)
        if exc is not None:
            return
        data = st.read(fname)
        if not crashed:
            c.witness('exported')
            expect(c, 'hist', data, recs, once)
            if not self.crash:
                c.true('clean', 'the temporary files are removed', not os.path.exists(pf.tempwritedir_base))
            return
        c.witness('interrupted')
        got = sum(1 for r in (data or {}).get('trajectory', []) for x in r if x is not None)
        nb, na = sum(map(len, before[0].values())), sum(map(len, recs.values()))
        c.true('interrupted', 'a conversion after an interruption contains every completed write and at most the interrupted one (%d observations, expected %d or %d)' % (got, nb, na), got in (nb, na))
        if got == nb and nb:
            expect(c, 'interrupted', data, *before)
        elif got == na and na:
            expect(c, 'interrupted', data, recs, once)


_KER = []


def _nothing(particle, fieldset, time):
    particle.h = particle.h


def kernel():
    if not _KER:
        _KER.append(ParticleSet(fieldset(), PF, lon=[0], lat=[0]).Kernel(_nothing))
    return _KER[0]


# ------------------------------------------------------------------ whole runs
TR = dict(n=(np.int32, 0, False), kill=(np.int32, 100, False), v=np.float64, w=(np.float64, 0, 'once'), h=(np.float64, 0, False))


def Age(particle, fieldset, time):
    particle.n += 1
    particle.lon += 1
    particle.v += 2
    particle.w += 1
    if particle.n >= particle.kill:
        particle.delete()


_S = {}


def sim(mode, real):
    k = (mode, real)
    if k not in _S:
        _S[k] = (psim.RealSim if real else psim.PSim)(mode, Age, dict(TR), fieldset=fieldset())
    return _S[k]


class Run:
    """execute with an output file; lattice of dt"""
    def __init__(self, signs, runs, out, offs, kills, ondelete=False):
        self.a = [list(signs), list(runs), out, list(offs), list(kills), ondelete]
        self.signs, self.runs, self.out, self.offs, self.kills, self.ondelete = self.a

    def spec(self):
        return ['Run'] + self.a

    def inputs(self):
        inp = dict(dt=symreal('dt', F(1, 4), 16), s=symreal('s', -100, 100), base=symint('base', 0, 1))
        inp['runs'] = [symint('run%d' % i, 1, r) for i, r in enumerate(self.runs)]
        inp['out'] = symint('out', 1, self.out)
        inp['off'] = [symint('off%d' % i, 0, m) if m else 0 for i, m in enumerate(self.offs)]
        inp['kill'] = [symint('kill%d' % i, 1, m + 1) if m else 100 for i, m in enumerate(self.kills)]
        for k in ('lon', 'lat', 'depth', 'v', 'w'):
            inp[k] = [symreal('%s%d' % (k, i), -10, 10) for i in range(len(self.offs))]
        return inp

    def run(self, mode, inp, c, real):
        with Storage(real) as st:
            if real:
                self.go(mode, inp, c, real, st)
            else:
                with c01.alloc(False):
                    self.go(mode, inp, c, real, st)

    def go(self, mode, inp, c, real, st):
        S = sim(mode, real)
        dt = inp['dt']
        runs, off, kill = [[K(x) for x in inp[k]] for k in ('runs', 'off', 'kill')]
        out, base = K(inp['out']), K(inp['base'])
        n = len(off)
        if min(off) != 0:
            raise sym.Infeasible()
        s0 = self.signs[0]

        def T(k):
            return inp['s'] + dt * k

        def arr(v):
            a = np.empty(n, dtype=np.float64 if real else object)
            for i in range(n):
                a[i] = v[i]
            return a
        _Particle.lastID = 0
        if getattr(S, 'runner', None) is not None:
            S.runner.reset()
        if base:
            ParticleSet(S.fieldset, S.pclass, lon=np.zeros(base), lat=np.zeros(base), lonlatdepth_dtype=np.float64)
        p = ParticleSet(S.fieldset, S.pclass, lon=arr(inp['lon']), lat=arr(inp['lat']), depth=arr(inp['depth']), time=arr([T(s0 * o) for o in off]),
                        lonlatdepth_dtype=np.float64, v=arr(inp['v']), w=arr(inp['w']), kill=np.array(kill))
        p.kernel = S.kernel
        name = os.path.join(st.dir, 'traj.nc')
        recs, once = {}, {}
        part = [dict(i=base + i, k=s0 * o, n=0, alive=True, j=i) for i, o in enumerate(off)]

        def rec(q, tm):
            j = q['j']
            recs.setdefault(q['i'], []).append(dict(lon=inp['lon'][j] + q['n'], lat=inp['lat'][j], depth=inp['depth'][j], v=inp['v'][j] + 2 * q['n'], time=tm))
            once.setdefault(q['i'], inp['w'][j] + q['n'])
        cur, last = 0, None
        exc = None
        pf = ParticleFile(name, p, outputdt=dt * out, write_ondelete=self.ondelete, convert_at_end=False)
        for sg, r in zip(self.signs, runs):
            end = cur + sg * r
            try:
                p.execute(S.kernel, runtime=dt * r, dt=dt * sg, output_file=pf, verbose_progress=False if real else None)
            except (RuntimeError, ValueError, TypeError, AttributeError, IndexError, OSError, psim.Fault) as e:
                exc = e
                break
            for k in range(0, r + 1):
                now = cur + sg * k
                if k:
                    for q in part:
                        if q['alive'] and (q['k'] - now) * sg < 0:
                            q['n'] += 1
                            if q['n'] >= kill[q['j']]:
                                q['alive'] = False
                                lo, hi = T(now), T(now - sg)
                                rec(q, lambda g, a=lo, b=hi: close(g, a, b))
                                c.witness('deleted')
                            else:
                                q['k'] = now
                if (k % out == 0 or k == r) and now != last:
                    last = now
                    if not self.ondelete:
                        for q in part:
                            if q['alive'] and q['k'] == now:
                                rec(q, T(now))
            if not any(q['alive'] for q in part):
                break
            cur = end
        c.true('raises', 'execute with an output file does not fail (got %r)' % (exc,), exc is None)
        if exc is not None:
            return
        if not recs:
            return
        try:
            pf.close()
        except (IndexError, ValueError, TypeError, KeyError, AttributeError, OSError, RuntimeError) as e:
            exc = e
        c.true('export', 'exporting does not fail (got %r)' % (exc,), exc is None)
        if exc is None:
            c.witness('exported')
            expect(c, 'run', st.read(name), recs, once)


def close(g, a, b):
    """g is one of two times"""
    def one(x):
        d = g - x
        return (d <= F(1, 10 ** 5)) & (-d <= F(1, 10 ** 5))
    r = one(a), one(b)
    if any(isinstance(x, Sym) for x in r):
        return Sym(z3.Or(*[x.e if isinstance(x, Sym) else z3.BoolVal(bool(x)) for x in r]))
    return bool(r[0]) or bool(r[1])


def scen_of(spec):
    return dict(Hist=Hist, Run=Run)[spec[0]](*spec[1:])


WITNESSES = {'h-': ['exported', 'deleted'], 'crash-': ['interrupted'], 'run-': ['exported', 'deleted']}


def tasks(tier):
    q = tier != 'thorough'
    out = []

    def hist(name, *a, **k):
        out.append((name, lambda ctx: scen.drive(ctx, Hist(*a, **k), 'scipy', max_paths=200000)))
    for f in 'wxdlba':
        for g in 'wxdlba':
            hist('h-%s%sx' % (f, g), f + g + 'x', 2)
    for f in 'xdlba':
        hist('h-on-%s' % f, 'w' + f + '?', 2, ondelete=True)
    hist('h-names', 'wx', 2, names=3)
    hist('h-wx', 'wx', 2)
    out.sort(key=lambda t: t[0] != 'h-wwx')
    hist('h-three', 'wx', 3)
    hist('crash-wxw', 'wxw', 1, crash=40)
    hist('crash-ww', 'ww', 1, crash=40)
    hist('crash-on', 'xx', 2, ondelete=True, crash=40)

    def run(name, *a):
        for mode in ('scipy', 'jit'):
            out.append(('run-%s-%s' % (name, mode), lambda ctx, m=mode: scen.drive(ctx, Run(*a), m, max_paths=60000)))
    run('f', [1], [4 - q], 3, (0, 2 - q), (0, 3 - q))
    run('b', [-1], [4 - q], 3, (0, 2 - q), (3 - q, 0))
    run('fb', [1, -1], [2, 2], 2, (0,), (3,))
    run('ff', [1, 1], [2, 2], 2, (0, 3), (0, 2)) if not q else run('ff', [1, 1], [2, 1], 2, (0, 2), (0, 2))
    run('on', [1], [4], 2, (0, 1), (3, 3), True)
    if not q:
        for f in 'wxdlba':
            for g in 'wxdlba':
                for h in 'wxlba':
                    hist('h-%s%s%sx' % (f, g, h), f + g + h + 'x', 2)
                hist('h-%s%s3' % (f, g), f + g, 3)
        hist('crash-any', 'w??', 2, crash=40)
        run('f3', [1], [5], 4, (0, 2, 3), (4, 3, 0))
        run('fbf', [1, -1, 1], [2, 2, 2], 2, (0, 1), (4, 3))
    return out


def replay(inputs):
    return scen.replay(scen_of(inputs['scen']), inputs)
