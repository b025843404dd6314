"""C01: the particle collection. Whatever sequence of additions, removals, deletions and look-ups (by index, by id,
by boolean vector, by object) is applied, a ParticleSet contains exactly the particles a plain list of records would,
each with all of its own variables; ids are unique over all sets; every variable starts at its given or declared value;
sets do not influence each other."""
from fractions import Fraction
from operator import attrgetter

import numpy as np
import z3

from lib import sym, scen
from lib.sym import Sym, symreal, symint
from lib.npshim import NP_OVER
from parcels import ParticleSet, ScipyParticle, JITParticle, Variable, FieldSet, Field
from parcels.particle import _Particle
from parcels.particlesets import collectionsoa, collections as pcollections, particlesetsoa
from parcels.tools.statuscodes import OperationCode, StateCode

F = Fraction
FUNCTIONS = ['parcels.particlesets.collectionsoa.ParticleCollectionSOA (constructor, get_*, add_same, delete_*, remove_*, iterators, ParticleAccessorSOA)',
             'parcels.particlesets.particlesetsoa.ParticleSetSOA (constructor, add, remove_indices, remove_booleanvector, data_indices, error_particles)',
             'parcels.particle.ParticleType, Variable']
BOUNDS = dict(particles='sets of 0-4 particles (look-up up to 6); ids any distinct non-negative integers in any order',
              histories='every sequence of 2 operations on two sets (quick) and 3 (thorough), out of: add, remove by index / indices / ids / id / object / booleans, mark deleted and clean up',
              requests='up to 3 ids or indices, any values, with repetitions and unknown ids', values='any reals in [-100,100]')
ASSUMPTIONS = ['exact real arithmetic (float32 variables are compared with 1e-5 tolerance on replay)', 'without MPI']


class _I64Meta(type):
    def __call__(cls, x=0, *a):
        return x if isinstance(x, Sym) else np.int64(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, np.int64)

    def __eq__(cls, o):
        return o is cls or o is np.int64 or o is Sym or (isinstance(o, np.dtype) and o == np.dtype(np.int64))

    def __hash__(cls):
        return hash(np.int64)


class SInt64(metaclass=_I64Meta):
    """np.int64 for symbolic ids"""


_UN = [0]


def _uninit(shape, dtype=float, **k):
    """np.empty: arbitrary memory"""
    a = np.empty(shape, dtype=object)
    _UN[0] += 1
    a.fill(Sym(z3.Real('uninitialised%d' % _UN[0])))
    return a


def _garbage(shape, dtype=float, **k):
    a = np.empty(shape, dtype=dtype)
    if a.dtype != object:
        a.fill(77)
    return a


def _in1d(a, b, **k):
    b = list(b.values()) if isinstance(b, dict) else list(b)
    return np.array([any(bool(x == y) for y in b) for x in a], dtype=bool)


def _isin(a, b, invert=False, **k):
    r = _in1d(a, b)
    return ~r if invert else r


class _NPX(object):
    def __init__(self, base, real):
        self.__dict__['_b'] = base
        self.__dict__['_o'] = dict(empty=_garbage) if real else dict(empty=_uninit, int64=SInt64, in1d=_in1d, isin=_isin)

    def __getattr__(self, n):
        o = self.__dict__['_o']
        return o[n] if n in o else getattr(self.__dict__['_b'], n)


class alloc:
    """symbolic: np.empty returns unconstrained values in object arrays; real: np.empty returns dirty memory"""
    def __init__(self, real):
        self.real = real

    def __enter__(self):
        self.mods = [collectionsoa, pcollections, particlesetsoa]
        self.saved = [m.__dict__.get('np') for m in self.mods]
        for m, v in zip(self.mods, self.saved):
            if v is not None and (m is collectionsoa or not self.real):
                m.np = _NPX(v, self.real)

    def __exit__(self, *a):
        for m, v in zip(self.mods, self.saved):
            if v is not None:
                m.np = v


class PC(ScipyParticle):
    tag = Variable('tag', dtype=np.int32, initial=-5)
    v = Variable('v', dtype=np.float64, initial=2.5)
    w = Variable('w', dtype=np.float32, initial=attrgetter('lat'))


VARS = ('lon', 'lat', 'depth', 'time', 'v', 'w')


EMPTY = dict(e_id=[], e_lon=[], e_lat=[], e_depth=[], e_time=[], e_v=[])


def wrapid(x, real):
    return np.int64(x) if real else x


def mkset(inp, name, n, real, first_tag):
    """a real ParticleSet with n particles from the inputs; returns (pset, model)"""
    def arr(k, dt=np.float64):
        vals = inp['%s_%s' % (name, k)]
        if real:
            return np.array(vals, dtype=dt)
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = vals[i]
        return a
    tags = np.arange(first_tag, first_tag + n)
    base = _Particle.lastID
    p = ParticleSet(None, PC, lon=arr('lon'), lat=arr('lat'), depth=arr('depth'), time=arr('time'), lonlatdepth_dtype=np.float64,
                    pid_orig=arr('id', np.int64), tag=tags, v=arr('v'))
    m = []
    for i in range(n):
        r = dict(tag=first_tag + i, id=inp[name + '_id'][i] + base, w=inp[name + '_lat'][i], deleted=False)
        for k in ('lon', 'lat', 'depth', 'time', 'v'):
            r[k] = inp['%s_%s' % (name, k)][i]
        m.append(r)
    return p, m


def sym_set(inp, name, n):
    C = sym.CTX
    ids = [symint('%s_id%d' % (name, i), 0, 1000) for i in range(n)]
    for i in range(n):
        for j in range(i):
            C.add(ids[i].e != ids[j].e)
    inp[name + '_id'] = ids
    for k in ('lon', 'lat', 'depth', 'time', 'v'):
        inp['%s_%s' % (name, k)] = [symreal('%s_%s%d' % (name, k, i), -100, 100) for i in range(n)]


def compare(c, key, p, model, strict_order=None):
    """the set holds exactly the model's particles"""
    col = p.collection
    d = col._data
    n = len(model)
    c.true(key + '-len', 'len(pset) is the number of particles', len(p) == n and p.size == n and col.ncount == n)
    for k in list(VARS) + ['id', 'tag', 'state', 'dt', 'fileid']:
        c.true(key + '-arrays', 'every variable array has one entry per particle (%s)' % k, d[k].shape[0] == n)
    its = list(p)
    tags = [int(q.tag) for q in its]
    c.true(key + '-iter', 'iterating visits every particle once (got tags %s, expected %s)' % (tags, [r['tag'] for r in model]), sorted(tags) == sorted(r['tag'] for r in model))
    rev = [int(q.tag) for q in reversed(col)]
    c.true(key + '-reversed', 'reverse iteration is the opposite order', rev == tags[::-1])
    if sorted(tags) != sorted(r['tag'] for r in model):
        return
    by = {int(q.tag): q for q in its}
    for r in model:
        q = by[r['tag']]
        c.eq(key + '-id', 'id of particle %d' % r['tag'], q.id, r['id'])
        for k in VARS:
            c.eq(key + '-var', 'variable %s of particle %d' % (k, r['tag']), getattr(q, k), r[k], tol=F(1, 10 ** 5))
        c.true(key + '-state', 'deletion mark of particle %d' % r['tag'], (int(q.state) == OperationCode.Delete) == r['deleted'])
    if col._sorted:
        for i in range(n - 1):
            c.true(key + '-sorted', 'a collection flagged sorted has increasing ids', d['id'][i] <= d['id'][i + 1])


class Lookup:
    """by-id look-up, deletion and removal on one set"""
    def __init__(self, n, k, op, cont):
        self.n, self.k, self.op, self.cont = n, k, op, cont

    def spec(self):
        return ['Lookup', self.n, self.k, self.op, self.cont]

    def inputs(self):
        inp = {}
        sym_set(inp, 'a', self.n)
        inp['req'] = [symint('req%d' % i, 0, 1000) for i in range(self.k)]
        return inp

    def run(self, mode, inp, c, real):
        with alloc(real):
            self.go(inp, c, real)

    def go(self, inp, c, real):
        _Particle.lastID = 0
        p, model = mkset(inp, 'a', self.n, real, 0)
        col = p.collection
        req = [wrapid(x, real) for x in inp['req']]
        hit = [bool(any(bool(r['id'] == x) for x in req)) for r in model]
        known = [bool(any(bool(r['id'] == x) for r in model)) for x in req]
        if all(known):
            c.witness('known')
        else:
            c.witness('unknown')
        if self.cont == 'array':
            a = np.empty(len(req), dtype=np.int64 if real else object)
            for i, x in enumerate(req):
                a[i] = x
            req = a
        elif self.cont == 'dict':
            req = {i: x for i, x in enumerate(req)}
        exc = res = None
        try:
            if self.op == 'get':
                res = col.get_multi_by_IDs(req)
            elif self.op == 'remove':
                res = col.remove_multi_by_IDs(req)
            elif self.op == 'get1':
                res = col.get_single_by_ID(req[0])
            elif self.op == 'delete1':
                res = col.delete_by_ID(req[0])
            elif self.op == 'remove1':
                res = col.remove_single_by_ID(req[0])
        except Exception as e:
            exc = e
        if self.op in ('get', 'remove'):
            c.true('raises', 'looking up several ids does not fail (got %r)' % (exc,), exc is None)
            if exc is not None:
                return
            if self.op == 'get':
                got = sorted(int(q.tag) for q in res)
                c.true('found', 'get_multi_by_IDs returns the particles with these ids (got tags %s)' % got, got == [r['tag'] for r, h in zip(model, hit) if h])
                compare(c, 'after-get', p, model)
            else:
                compare(c, 'after-remove', p, [r for r, h in zip(model, hit) if not h])
            return
        if not known[0]:
            c.true('unknown-id', 'an unknown id raises an error (got %r)' % (exc,), isinstance(exc, (ValueError, IndexError)))
            compare(c, 'after-unknown', p, model)
            return
        c.true('raises', 'an existing id is found (got %r)' % (exc,), exc is None)
        if exc is not None:
            return
        if self.op == 'get1':
            c.true('found', 'get_single_by_ID returns the particle with that id', [int(res.tag)] == [r['tag'] for r, h in zip(model, hit) if h])
        elif self.op == 'delete1':
            for r, h in zip(model, hit):
                r['deleted'] = h
            compare(c, 'after-delete', p, model)
        else:
            compare(c, 'after-remove', p, [r for r, h in zip(model, hit) if not h])


OPS = ["add", "addswap", "index", "indices", "bool", "id", "ids", "clean", "addempty"]
PICKS = dict(add=1, addswap=1, addempty=1, index=4, id=4)


class History:
    def __init__(self, na, nb, ops):
        self.na, self.nb, self.ops = na, nb, list(ops)

    def spec(self):
        return ['History', self.na, self.nb, self.ops]

    def inputs(self):
        inp = {}
        sym_set(inp, 'a', self.na)
        sym_set(inp, 'b', self.nb)
        inp['pick'] = [symint('pick%d' % i, 0, PICKS.get(o, 2 ** (self.na + self.nb)) - 1) for i, o in enumerate(self.ops)]
        inp['overlap'] = symint('overlap', 0, 1)
        return inp

    def run(self, mode, inp, c, real):
        with alloc(real):
            self.go(inp, c, real)

    def go(self, inp, c, real):
        _Particle.lastID = 0
        pa, ma = mkset(inp, 'a', self.na, real, 0)
        # the second set may be numbered below or in between the first one's (e.g. a restart)
        if bool(inp['overlap'] == 1):
            _Particle.lastID = 0
            for r in ma:
                for i in range(self.nb):
                    if real:
                        if r['id'] == inp['b_id'][i]:
                            raise sym.Infeasible()
                    else:
                        sym.CTX.add(r['id'].e != inp['b_id'][i].e)
            if not real and sym.CTX.check() == z3.unsat:
                raise sym.Infeasible()
        pb, mb = mkset(inp, 'b', self.nb, real, 10)
        ids = [r['id'] for r in ma + mb]
        for i in range(len(ids)):
            for j in range(i):
                c.true('unique-ids', 'ids are unique over both sets', ids[i] != ids[j])
        for step, op in enumerate(self.ops):
            pick = inp['pick'][step]
            n = len(ma)
            pick = int(pick) if real else sym.CTX.concretize(pick.asint())
            order = [int(q.tag) for q in pa]
            by = {r['tag']: r for r in ma}
            if [t for t in order if t not in by] or len(order) != len(by):
                c.true('iter', 'iteration visits the particles of the set', False)
                return
            bits = [(pick >> i) & 1 for i in range(n)]
            sel = [i for i in range(n) if bits[i]]
            one = pick % n if n else None
            exc = None
            try:
                if op == 'add':
                    if pick or not mb:
                        continue
                    pa.add(pb) if step % 2 == 0 else pa.__iadd__(pb)
                    ma = ma + [dict(r) for r in mb]
                    compare(c, 'b-%s-%d' % (op, step), pb, mb)
                    # the added particles become the next fresh set
                    pb, mb = mkset(EMPTY, 'e', 0, real, 30)
                elif op == 'addswap':
                    if pick:
                        continue
                    pb.add(pa)
                    old = pa
                    pa, ma = pb, mb + [dict(r) for r in ma]
                    # change the source afterwards: the copy must not follow
                    for k in ('v', 'id'):
                        if len(old):
                            old.collection._data[k][0] = old.collection._data[k][0] + 1
                    pb, mb = mkset(EMPTY, 'e', 0, real, 30)
                elif op == 'addempty':
                    if pick:
                        continue
                    pe, me = mkset(EMPTY, 'e', 0, real, 50)
                    pe.add(pa)
                    compare(c, 'emptyplus-%d' % step, pe, ma)
                    pa.add(mkset(EMPTY, 'e', 0, real, 50)[0])
                    pe.remove_indices(list(range(len(ma))))
                    compare(c, 'emptied-%d' % step, pe, [])
                elif op == 'index':
                    if pick >= max(n, 1):
                        continue
                    if n:
                        pa.remove_indices(one)
                        ma = [r for r in ma if r['tag'] != order[one]]
                elif op == 'indices':
                    if pick >= 2 ** n:
                        continue
                    req = sel[::-1] + sel[:1]
                    pa.remove_indices(req if step % 2 else np.array(req, dtype=np.int64))
                    ma = [r for r in ma if r['tag'] not in [order[i] for i in sel]]
                elif op == 'bool':
                    if pick >= 2 ** n:
                        continue
                    pa.remove_booleanvector(np.array(bits, dtype=bool) if step % 2 else [bool(b) for b in bits])
                    ma = [r for r in ma if r['tag'] not in [order[i] for i in sel]]
                elif op == 'id':
                    if pick >= max(n, 1):
                        continue
                    if n:
                        pa.collection.remove_single_by_ID(pa.collection._data['id'][one])
                        ma = [r for r in ma if r['tag'] != order[one]]
                elif op == 'ids':
                    if pick >= 2 ** n:
                        continue
                    pa.collection.remove_multi_by_IDs([pa.collection._data['id'][i] for i in sel[::-1]])
                    ma = [r for r in ma if r['tag'] not in [order[i] for i in sel]]
                elif op == 'clean':
                    if pick >= 2 ** n:
                        continue
                    for i in sel:
                        if i % 2:
                            pa[i].delete()
                        else:
                            pa.collection.delete_by_ID(pa.collection._data['id'][i])
                    m2 = [dict(r, deleted=r['tag'] in [order[i] for i in sel]) for r in ma]
                    compare(c, 'marked-%d' % step, pa, m2)
                    found = sorted(int(x) for x in pa.data_indices('state', [OperationCode.Delete]))
                    c.true('data-indices', 'data_indices finds the marked particles (got %s)' % found, found == sel)
                    c.true('error-particles', 'error_particles are the ones not in state Success/Evaluate', sorted(int(q.tag) for q in pa.error_particles) == sorted(order[i] for i in sel)
                           and int(pa.num_error_particles) == len(sel))
                    pa.remove_indices(pa.data_indices('state', OperationCode.Delete))
                    ma = [r for r in ma if r['tag'] not in [order[i] for i in sel]]
            except Exception as e:
                exc = e
            c.true('raises-' + op, 'operation %s does not fail (got %r)' % (op, exc), exc is None)
            if exc is not None:
                return
            c.witness(op)
            compare(c, '%s-%d' % (op, step), pa, ma)
            if op not in ('add', 'addswap', 'addempty'):
                # order of the survivors
                now = [int(q.tag) for q in pa]
                c.true('order-' + op, 'the remaining particles keep their order', now == [t for t in order if t in now])
            compare(c, 'other-%d' % step, pb, mb)


def scen_of(spec):
    return dict(Lookup=Lookup, History=History, Init=Init)[spec[0]](*spec[1:])


class Init:
    """initial values of variables, and ids of successive sets"""
    def __init__(self, variant, sizes):
        self.variant, self.sizes = variant, list(sizes)

    def spec(self):
        return ['Init', self.variant, self.sizes]

    def inputs(self):
        inp = {}
        for j, n in enumerate(self.sizes):
            sym_set(inp, 's%d' % j, n)
        inp['u'] = symreal('u', -100, 100)
        return inp

    def cls(self, u, real):
        base = JITParticle if 'jit' in self.variant else ScipyParticle
        d = dict(c0=Variable('c0', dtype=np.float32, initial=u), c1=Variable('c1', dtype=np.int32, initial=7),
                 g_lon=Variable('g_lon', dtype=np.float32, initial=attrgetter('lon')), g_time=Variable('g_time', dtype=np.float64, initial=attrgetter('time')))
        if 'chain' in self.variant:
            # refers to a variable that comes later / has another width
            d['h64'] = Variable('h64', dtype=np.float64, initial=attrgetter('c0'))
            d['h32'] = Variable('h32', dtype=np.float32, initial=attrgetter('h64'))
            d['k64'] = Variable('k64', dtype=np.float64, initial=attrgetter('given'))
            d['given'] = Variable('given', dtype=np.float32, initial=-1)
        C = type('PI', (base,), d)
        if 'sub' in self.variant:
            C = type('PJ', (C,), dict(extra=Variable('extra', dtype=np.float32, initial=attrgetter('c0'))))
        return C

    def run(self, mode, inp, c, real):
        with alloc(real):
            self.go(inp, c, real)

    def go(self, inp, c, real):
        _Particle.lastID = 0
        cls = self.cls(inp['u'], real)
        seen = []
        for j, n in enumerate(self.sizes):
            def arr(k, dt=np.float64, j=j, n=n):
                a = np.empty(n, dtype=dt if real else object)
                for i in range(n):
                    a[i] = inp['s%d_%s' % (j, k)][i]
                return a
            kw = {}
            if 'chain' in self.variant:
                kw['given'] = arr('v')
            if 'pid' in self.variant and j % 2 == 0:
                kw['pid_orig'] = arr('id', np.int64)
            dt = np.float64 if j % 2 == 0 else np.float32
            p = ParticleSet(None, cls, lon=arr('lon'), lat=arr('lat'), depth=arr('depth'), time=arr('time'), lonlatdepth_dtype=dt, **kw)
            c.witness('set')
            d = p.collection._data
            tol = F(1, 10 ** 5)
            for i in range(n):
                def eq(v, want, what):
                    c.eq('init-' + v, 'initial %s of particle %d of set %d (%s)' % (v, i, j, what), d[v][i], want, tol=tol)
                for k in ('lon', 'lat', 'depth', 'time'):
                    eq(k, inp['s%d_%s' % (j, k)][i], 'given')
                eq('c0', inp['u'], 'declared')
                eq('c1', 7, 'declared')
                eq('g_lon', inp['s%d_lon' % j][i], "attrgetter('lon')")
                eq('g_time', inp['s%d_time' % j][i], "attrgetter('time')")
                eq('state', StateCode.Evaluate, 'built in')
                eq('fileid', -1, 'built in')
                for g in ('xi', 'yi', 'zi'):
                    c.eq('init-' + g, 'initial ' + g, d[g][i, 0], 0)
                c.eq('init-ti', 'initial ti', d['ti'][i, 0], -1)
                if 'chain' in self.variant:
                    eq('given', inp['s%d_v' % j][i], 'given')
                    eq('h64', inp['u'], "attrgetter('c0')")
                    eq('h32', inp['u'], "attrgetter('h64')")
                    eq('k64', inp['s%d_v' % j][i], "attrgetter('given')")
                if 'sub' in self.variant:
                    eq('extra', inp['u'], "attrgetter('c0')")
                for q in seen:
                    c.true('unique-ids', 'ids of successive sets are unique', d['id'][i] != q)
            seen += [d['id'][i] for i in range(n)]
            # the description of the variables handed to the kernels fits the stored arrays, also of the earlier sets
            p.expected = dt
            self.sets = getattr(self, 'sets', []) if j else []
            self.sets.append((p, dt))
            for q, t in self.sets:
                for v in q.collection.ptype.variables:
                    if v.name in ('lon', 'lat', 'depth'):
                        c.true('dtype', 'variable %s of a set created with %s keeps that type (now %s)' % (v.name, t.__name__, v.dtype), np.dtype(v.dtype if not hasattr(v.dtype, '_base') else v.dtype._base) == np.dtype(t))
        if 'write' in self.variant and len(self.sets) > 1:
            self.sets[0][0].set_variable_write_status('c0', False)
            for q, t in self.sets[1:]:
                c.true('write-status', 'set_variable_write_status of one set does not affect another', [v.to_write for v in q.collection.ptype.variables if v.name == 'c0'] == [True])
            c.true('write-status', 'set_variable_write_status takes effect', [v.to_write for v in self.sets[0][0].collection.ptype.variables if v.name == 'c0'] == [False])


WITNESSES = {'lookup': ['known', 'unknown'], 'init': ['set']}


def tasks(tier):
    q = tier != 'thorough'
    out = []

    def add(name, s):
        out.append((name, lambda ctx, s=s: scen.drive(ctx, s, 'scipy', modules=(collectionsoa,) if False else ())))
    for op in ('get', 'remove'):
        for n, k, cont in ([(0, 1, 'list'), (1, 1, 'list'), (3, 2, 'list'), (4, 2, 'array'), (3, 3, 'dict')] + ([] if q else [(4, 3, 'list'), (5, 2, 'list'), (4, 4, 'array')])):
            add('%s-%s-%d-%d-%s' % ('lookup' if n else 'look0', op, n, k, cont), Lookup(n, k, op, cont))
    for op in ('get1', 'delete1', 'remove1'):
        for n in (1, 3, 4):
            add('lookup-%s-%d' % (op, n), Lookup(n, 1, op, 'list'))
    ops = list(OPS)
    for a in ops:
        for b in ops:
            add('hist-%s-%s' % (a, b), History(2, 2, [a, b]))
    if not q:
        for a in ops:
            for b in ops:
                for d in ops:
                    add('hist3-%s-%s-%s' % (a, b, d), History(2, 2, [a, b, d]))
    for v in ('scipy', 'jit', 'scipy-chain', 'jit-chain-sub', 'scipy-pid-write', 'jit-sub-write'):
        for sizes in ((2, 2), (1, 0, 1), (0, 2, 1), (2, 0, 0)):
            add('init-%s-%s' % (v, ''.join(map(str, sizes))), Init(v, sizes))
    return out


def replay(inputs):
    return scen.replay(scen_of(inputs['scen']), inputs)
