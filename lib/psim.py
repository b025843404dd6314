"""Symbolic ParticleSet harness: the real Kernel.execute / ParticleSet.execute run on particle sets whose
variables are symbolic.  Scipy mode interprets the real Python on object arrays.  In JIT mode each call of
Kernel.execute_jit goes through parcels' own argument marshalling with a recording stand-in for the compiled
function, and the LLVM IR of the generated C runs on those structures with the symbolic values in place."""
import ctypes
from fractions import Fraction

import numpy as np

from . import env  # noqa
from . import sym, npshim, cjit, llvmsym
from .sym import Sym, EngineError
from .llvmsym import MemFault, StepLimit
from parcels import ParticleSet, JITParticle, ScipyParticle, Variable
from parcels.kernel import Kernel
from parcels.particle import _Particle

SENT_END, SENT_DT = 12345.625, 0.328125


class Fault(Exception):
    """memory fault / runaway loop of the compiled code: an outcome"""


def make_class(mode, variables, name='PV'):
    """particle class with float64/int32 variables; variables: {name: dtype | (dtype, initial)}"""
    base = JITParticle if mode == 'jit' else ScipyParticle
    d = {}
    for n, t in variables.items():
        t, init, w = (tuple(t) + (0, True)[len(t) - 1:]) if isinstance(t, tuple) else (t, 0, True)
        d[n] = Variable(n, dtype=t, initial=init, to_write=w)
    return type(name, (base,), d)


def intlike(dt):
    return np.issubdtype(np.dtype(dt), np.integer)


def conc(v):
    """integer state -> python int (forks on symbolic ones)"""
    if isinstance(v, Sym):
        return sym.CTX.concretize(v.asint())
    return int(v)


class JitRunner:
    """stands in for Kernel.execute_jit on one kernel instance"""
    def __init__(self, kernel, field_overlay=None, max_steps=400000, hooks=None):
        self.kernel = kernel
        self.field_overlay = field_overlay
        self.max_steps = max_steps
        self.hooks = hooks
        self.globals = {}
        self.calls = 0

    def reset(self):
        self.globals = {}
        self.calls = 0

    def __call__(self, pset, endtime, dt):
        self.calls += 1
        col = pset.collection
        data = col._data
        saved = {}
        typed = {}
        for v in col.ptype.variables:
            a = data[v.name]
            saved[v.name] = a
            t = np.zeros(a.shape, dtype=v.dtype)
            typed[v.name] = t
            data[v.name] = t
        rec = []
        k = self.kernel
        k._function = lambda *args: rec.append(args)
        try:
            Kernel.execute_jit(k, pset, SENT_END, SENT_DT)
        finally:
            k._function = None
        if len(rec) != 1:
            raise EngineError('execute_jit called the C function %d times' % len(rec))
        args = rec[0]
        over = {}
        for i, a in enumerate(args):
            if isinstance(a, ctypes.c_double):
                if a.value == SENT_END:
                    over[i] = endtime if isinstance(endtime, Sym) else Fraction(endtime)
                elif a.value == SENT_DT:
                    over[i] = dt if isinstance(dt, Sym) else Fraction(dt)
        cap = cjit.Captured(k, pset, args, ('DOUBLE_COORD_VARIABLES',))
        ov = {}
        for n, t in typed.items():
            vals = saved[n]
            if t.size:
                conv = np.empty(t.shape, dtype=object)
                for ix in np.ndindex(*t.shape):
                    x = vals[ix]
                    if isinstance(x, Sym) or isinstance(x, Fraction):
                        conv[ix] = x
                    elif intlike(t.dtype):
                        conv[ix] = int(x)
                    elif isinstance(x, (int, np.integer)):
                        conv[ix] = Fraction(int(x))
                    else:
                        x = float(x)
                        conv[ix] = Fraction(x) if np.isfinite(x) else x
                cjit.overlay_array(ov, t, conv)
        if self.field_overlay:
            self.field_overlay(pset, ov)
        ex = llvmsym.Exec(cap.module, cap.mem, max_steps=self.max_steps, hooks=self.hooks)
        ex.start(ov)
        for n, v in self.globals.items():
            ex.ms.store(ex.gaddr[n], v, cap.module.globals[n][0])
        cargs = list(cap.cargs)
        for i, v in over.items():
            cargs[i] = v
        try:
            ex.call('@particle_loop', cargs)
        except (MemFault, StepLimit) as e:
            for n in typed:
                data[n] = saved[n]
            raise Fault(str(e))
        for n in ('@_next_dt', '@_next_dt_set'):
            if n in cap.module.globals:
                self.globals[n] = ex.ms.load(ex.gaddr[n], cap.module.globals[n][0])
        for n, t in typed.items():
            out = cjit.read_array(ex, t)
            if n == 'state':
                for ix in np.ndindex(*out.shape):
                    out[ix] = conc(out[ix])
            if saved[n].dtype == object:
                saved[n][...] = out     # in place, as the compiled code does
                data[n] = saved[n]
            else:
                data[n] = out
        self.last = ex


class PSim:
    """a kernel on a fieldset, run in one mode; `new()` gives a fresh symbolic particle set"""
    def __init__(self, mode, kernel, variables, fieldset=None, lonlatdepth_dtype=np.float64, field_overlay=None, max_steps=400000,
                 hooks=None, modules=()):
        self.mode, self.fieldset = mode, fieldset
        self.pclass = make_class(mode, variables)
        self.dtype = lonlatdepth_dtype
        self.modules = modules
        ks = kernel if isinstance(kernel, (list, tuple)) else [kernel]
        p = self._pset(1)
        k = p.Kernel(ks[0])
        for q in ks[1:]:
            k = k + p.Kernel(q)
        self.kernel = k
        self.runner = None
        if mode == 'jit':
            self.runner = JitRunner(k, field_overlay, max_steps, hooks)
            k.execute_jit = self.runner

    def _pset(self, n, **kw):
        _Particle.lastID = 0
        z = np.zeros(n)
        return ParticleSet(self.fieldset, self.pclass, lon=z, lat=z, depth=z, time=z, lonlatdepth_dtype=self.dtype, **kw)

    def new(self, n, values, real=False, **kw):
        """values: {variable: list}.  real=True: an ordinary (concrete, typed) particle set for replays"""
        p = self._pset(n, **kw)
        d = p.collection._data
        if not real:
            for k in list(d):
                d[k] = d[k].astype(object)
        for k, vals in values.items():
            for i, v in enumerate(vals):
                d[k][i] = float(v) if real and not intlike(d[k].dtype) else v
        if self.runner is not None:
            self.runner.reset()
        p.kernel = self.kernel
        return p


_REAL = {}


class RealSim:
    """the same particle set / kernel compiled and executed for real (replays)"""
    def __init__(self, mode, kernel, variables, fieldset=None, lonlatdepth_dtype=np.float64):
        self.mode, self.fieldset, self.dtype = mode, fieldset, lonlatdepth_dtype
        self.pclass = make_class(mode, variables)
        ks = kernel if isinstance(kernel, (list, tuple)) else [kernel]
        p = PSim._pset(self, 1)
        k = p.Kernel(ks[0])
        for q in ks[1:]:
            k = k + p.Kernel(q)
        self.kernel = k
        if mode == 'jit':
            from os import path
            from parcels.compilation.codecompiler import GNUCompiler
            from parcels.tools.global_statics import get_package_dir
            k.remove_lib()
            k.compile(compiler=GNUCompiler(cppargs=['-DDOUBLE_COORD_VARIABLES'], incdirs=[path.join(get_package_dir(), 'include'), '.']))
            k.load_lib()

    def new(self, n, values, **kw):
        self.runner = None
        return PSim.new(self, n, values, real=True, **kw)

    def _pset(self, n, **kw):
        return PSim._pset(self, n, **kw)


def col(pset, name):
    return list(pset.collection._data[name])
