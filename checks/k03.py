"""K03: a kernel computes the same in JIT and Scipy mode: the C code generated for any kernel of the supported
language subset leaves exactly the same particle variables, deletions and errors as running the Python kernel."""
from fractions import Fraction

import numpy as np
import z3

from lib import sym, psim, scen, samp
from lib.sym import Sym, symreal, symint
from parcels import FieldSet, Field
from parcels.field import SummedField
from parcels.tools import statuscodes as sc
from checks import k03_kernels as KK
from checks import k03_gen

F = Fraction
FUNCTIONS = ['parcels.compilation.codegenerator: IntrinsicTransformer, TupleSplitter, KernelGenerator, LoopGenerator (run for real on every kernel)', 'generated C kernels (LLVM IR)', 'parcels.kernel.Kernel (merging, execute_python)']
BOUNDS = dict(kernels='the kernels of checks/k03_kernels.py (arithmetic, comparisons, nested boolean operators, if/elif/else, while/break, local variables, tuples, arrays, math functions, constants, field and vector sampling in expressions and tests, return codes, deletion, concatenation)',
              values='all particle variables any reals in [-4,4] (divisors in [1/4,4]), integers in [-4,8]; field data any reals; one kernel call')
ASSUMPTIONS = ['exact real arithmetic; libm functions uninterpreted (same argument - same value)', 'a field in the right operand of and/or may be sampled although Python would short-circuit (inside the domain)']
VARS = dict(a=np.float64, b=np.float64, c=np.float64, d=np.float64, e=np.float64, f=np.float64, n=np.int32, m=np.int32,
            o1=np.float64, o2=np.float64, o3=np.float64, o4=np.float64)
USEFS = ('consts', 'sample', 'sampleif', 'sampleif2', 'sampleelif', 'samplenest', 'sampletwo', 'samplereuse', 'samplevec', 'samplesum', 'samplewhile')
INTS = {'intdiv', 'localint', 'inttypes', 'while0', 'while1', 'modulo', 'augment'}
_S = {}


def kernel(n):
    return getattr(KK, n) if hasattr(KK, n) else getattr(k03_gen.module('thorough'), n)


def num(v):
    """a truth value stored in a numeric variable is 0 or 1"""
    return int(v) if isinstance(v, (bool, np.bool_)) else v


def uses_fs(n):
    return n in USEFS or n.startswith('gs_')


def fieldset():
    g = dict(lon=[0., 2.], lat=[0., 2.])
    z = np.zeros((2, 2), np.float32)
    fs = FieldSet.from_data({'U': z + 1, 'V': z + 2, 'P': z + 3, 'Q': z + 4}, g, mesh='flat')
    fs.add_constant('c1', 2.5)
    fs.add_constant('c2', -1.25)
    fs.S = SummedField('S', [fs.P, fs.Q])
    return fs


def sims(names, real):
    k = (tuple(names), real)
    if k not in _S:
        fs = {m: (fieldset() if any(uses_fs(n) for n in names) else None) for m in ('scipy', 'jit')}
        out = {'fs': fs}
        for m in ('scipy', 'jit'):
            kw = {}
            if m == 'jit' and not real:
                kw['field_overlay'] = overlay
            out[m] = (psim.RealSim if real else psim.PSim)(m, [kernel(n) for n in names], dict(VARS), fieldset=fs[m], **kw)
        _S[k] = out
    return _S[k]


_DATA = {}


def overlay(pset, ov):
    if pset.fieldset is None:
        return
    for n, v in _DATA.items():
        samp.set_sym_data(getattr(pset.fieldset, n), v, 'jit', ov)


class Equal:
    def __init__(self, *names):
        self.names = names

    def spec(self):
        return ['Equal'] + list(self.names)

    def inputs(self):
        inp = {k: symreal(k, -4, 4) for k in 'abcd'}
        inp['e'], inp['f'] = symreal('e', F(1, 4), 4), symreal('f', F(1, 4), 4)
        if any(n in INTS for n in self.names):
            C = sym.CTX
            inp['n'] = C.concretize(symint('n', -2, 5).e)
            m = symint('m', -1, 3)
            C.add(m.e != 0)
            inp['m'] = C.concretize(m.e)
        else:
            inp['n'], inp['m'] = 3, 2
        inp['o'] = [symreal('o%d' % i, -4, 4) for i in (1, 2, 3, 4)]
        if any(uses_fs(n) and n != 'consts' for n in self.names):
            for nm in 'UVPQ':
                inp['d' + nm] = sym.symarray('d' + nm, (1, 2, 2), -4, 4)
        return inp

    def run(self, mode, inp, c, real):
        S = sims(self.names, real)
        res = {}
        _DATA.clear()
        for m in ('scipy', 'jit'):
            fs = S['fs'][m]
            for nm in 'UVPQ':
                if 'd' + nm in inp:
                    if real:
                        getattr(fs, nm).data = np.array(inp['d' + nm], dtype=np.float32)
                    elif m == 'scipy':
                        getattr(fs, nm).data = inp['d' + nm].copy()
                    else:
                        _DATA[nm] = inp['d' + nm]
            val = {k: [inp[k]] for k in 'abcdefnm'}
            val.update({'o%d' % (i + 1): [v] for i, v in enumerate(inp['o'])})
            val.update(time=[2], dt=[1], lon=[F(1, 2)], lat=[F(5, 4)], depth=[0])
            p = S[m].new(1, val)
            if fs is not None:
                fs.computeTimeChunk(0, 1)
            exc = None
            try:
                S[m].kernel.execute(p, endtime=3, dt=1)
            except (sc.KernelError, psim.Fault) as e:
                exc = e
            res[m] = (p, exc)
        (ps, es), (pj, ej) = res['scipy'], res['jit']
        c.true('error', 'same error in both modes (Scipy %s, JIT %s)' % (type(es).__name__, type(ej).__name__ + (': %s' % ej if isinstance(ej, psim.Fault) else '')), type(es) is type(ej))
        c.true('deleted', 'same deletion in both modes', len(ps) == len(pj))
        if len(ps) != len(pj) or len(ps) == 0 or type(es) is not type(ej):
            return
        c.witness('ran')
        ds, dj = ps.collection._data, pj.collection._data
        for v in list('abcdefnm') + ['o1', 'o2', 'o3', 'o4', 'lon', 'lat', 'depth', 'time']:
            c.eq('value-' + v, 'variable %s in JIT vs Scipy' % v, num(dj[v][0]), num(ds[v][0]), tol=F(1, 10 ** 4) if real else scen.TOL)


def scen_of(spec):
    return Equal(*spec[1:])


WITNESSES = {'k-': ['ran']}


def tasks(tier):
    names = [[n] for n in ('arith', 'power', 'intdiv', 'localint', 'augment', 'boolmix', 'boolmix2', 'boolmix3', 'chain', 'localvars', 'while0', 'while1', 'mathfun', 'mathfun2', 'absfun', 'consts', 'order',
                           'inttypes', 'sample', 'sampleif', 'sampleif2', 'sampleelif', 'samplenest', 'sampletwo', 'samplereuse', 'samplevec', 'samplesum', 'samplewhile', 'earlyret', 'deleter', 'err', 'stateset',
                           'movers', 'arrays', 'modulo', 'modfloat')]
    names += [['first', 'second'], ['second', 'first'], ['earlyret', 'movers'], ['chain', 'second'], ['sampleif', 'movers'], ['deleter', 'first'], ['first', 'err']]
    out = [('k-' + '+'.join(n), (lambda ctx, n=n: scen.drive(ctx, Equal(*n), 'both', modules=(KK,)))) for n in names]

    def after(ctx):
        sims(['arrays'], False)
        scen.drive(ctx, Equal('scalars_after'), 'both', modules=(KK,))
    out.append(('k-after-arrays', after))
    g = list(k03_gen.gen(tier))
    G = 8 if tier != "thorough" else 4

    def many(ctx, group):
        for n in group:
            scen.drive(ctx, Equal(n), 'both', modules=(KK, k03_gen.module('thorough')))
    for i in range(0, len(g), G):
        out.append(('k-gen%d' % (i // G), (lambda ctx, gr=g[i:i + G]: many(ctx, gr))))
    return out


def replay(inputs):
    if 'scalars_after' in inputs['scen']:
        sims(['arrays'], True)
    return scen.replay(scen_of(inputs['scen']), inputs)
