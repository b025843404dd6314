"""Sampling harness: the same symbolic (grid, data, position, time, index hint) is pushed through
 (1) Scipy mode: the real Kernel.execute_python / Field code on symbolic scalars,
 (2) JIT mode:   the real generated C code + headers through the LLVM-IR executor,
 and the caller compares both with an independent specification."""
import numpy as np
import z3
from fractions import Fraction

from . import env  # noqa
from . import sym, npshim, cjit
from .sym import Sym, symreal, symint, symarray, EngineError, zreal
from .llvmsym import MemFault, StepLimit
import parcels
from parcels import FieldSet, Field, VectorField, ParticleSet, JITParticle, ScipyParticle, Variable
from parcels.grid import RectilinearZGrid, RectilinearSGrid, CurvilinearZGrid, CurvilinearSGrid
from parcels.tools.statuscodes import StateCode, OperationCode, ErrorCode


class PJ(JITParticle):
    p = Variable('p', dtype=np.float32, initial=0.)
    p2 = Variable('p2', dtype=np.float32, initial=0.)
    p3 = Variable('p3', dtype=np.float32, initial=0.)


class PS(ScipyParticle):
    p = Variable('p', dtype=np.float32, initial=0.)
    p2 = Variable('p2', dtype=np.float32, initial=0.)
    p3 = Variable('p3', dtype=np.float32, initial=0.)


def SampleP(particle, fieldset, time):
    particle.p = fieldset.P[time, particle.depth, particle.lat, particle.lon]


def SampleUV(particle, fieldset, time):
    (u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]
    particle.p = u
    particle.p2 = v


def SampleUVW(particle, fieldset, time):
    (u, v, w) = fieldset.UVW[time, particle.depth, particle.lat, particle.lon]
    particle.p = u
    particle.p2 = v
    particle.p3 = w


def SampleXYZ(particle, fieldset, time):
    particle.p = fieldset.X[time, particle.depth, particle.lat, particle.lon]
    particle.p2 = fieldset.Y[time, particle.depth, particle.lat, particle.lon]
    particle.p3 = fieldset.Z[time, particle.depth, particle.lat, particle.lon]


class Out:
    """observable outcome of one sampling: a status and (on success) values"""
    def __init__(self, state, vals=(), fault=None, info=None):
        self.state, self.vals, self.fault, self.info = state, vals, fault, info

    @property
    def ok(self):
        return self.fault is None and self.state in (StateCode.Success, StateCode.Evaluate)

    def __repr__(self):
        return 'Out(%s%s%s)' % (self.state, ' fault=%s' % self.fault if self.fault else '', '' if not self.ok else ' vals')


def objectify(pset):
    d = pset.collection._data
    for k in list(d):
        d[k] = d[k].astype(object)


class Target:
    """a ParticleSet + kernel on a fieldset, run symbolically in one mode"""
    def __init__(self, fieldset, kernel, mode, n=1, lonlatdepth_dtype=np.float32, outs=('p',), pclass=None, recapture=None):
        self.fieldset, self.mode, self.outs = fieldset, mode, outs
        if pclass is None:
            pclass = PJ if mode == 'jit' else PS
        z0 = fieldset_depth0(fieldset)
        self.pset = ParticleSet(fieldset, pclass, lon=np.zeros(n), lat=np.zeros(n), depth=np.zeros(n) + z0, time=np.zeros(n),
                                lonlatdepth_dtype=lonlatdepth_dtype)
        self.kernel = self.pset.Kernel(kernel)
        self.cap = None

    def capture(self):
        pc = self.pset.collection
        pc._data['dt'][:] = 0
        self.fieldset.computeTimeChunk(0, 1) if False else None
        self.cap = cjit.capture(self.kernel, self.pset, 0., 0.)

    # inputs: dict particle variable -> list of values ; 'hints': dict xi/yi/zi/ti -> (n, ngrid) values
    def run(self, part, hints=None, extra_overlay=None, endtime=0, dt=0, max_steps=300000, hooks=None):
        n = len(self.pset)
        if self.mode == 'jit':
            if self.cap is None:
                self.capture()
            d = self.pset.collection._data
            ov = {}
            for k, vals in part.items():
                cjit.overlay_array(ov, d[k], np.array(list(vals) + [None], dtype=object)[:-1])
            for k, v in (hints or {}).items():
                cjit.overlay_array(ov, d[k], v)
            cjit.overlay_array(ov, d['state'], np.array([StateCode.Evaluate] * n + [None], dtype=object)[:-1])
            if extra_overlay:
                ov.update(extra_overlay)
            try:
                ex = self.cap.run(ov, overrides={2: endtime, 3: dt}, max_steps=max_steps, hooks=hooks)
            except (MemFault, StepLimit) as e:
                return [Out(None, fault=e)] * n
            self.ex = ex
            st = cjit.read_array(ex, d['state'])
            vals = [cjit.read_array(ex, d[o]) for o in self.outs]
            return [Out(st[i], tuple(v[i] for v in vals)) for i in range(n)]
        else:
            d = self.pset.collection._data
            for k in list(d):
                if d[k].dtype != object:
                    d[k] = d[k].astype(object)
            for k in self.outs:
                d[k][:] = 0
            for k, vals in part.items():
                for i, v in enumerate(vals):
                    d[k][i] = v
            for k, v in (hints or {}).items():
                d[k][:, :] = v
            d['state'][:] = StateCode.Evaluate
            self.kernel.execute_python(self.pset, endtime, dt)
            r = []
            for i in range(n):
                info = d['exception'][i]
                if isinstance(info, sym.EngineError):
                    raise info
                r.append(Out(d['state'][i], tuple(d[o][i] for o in self.outs), info=info))
            return r


def fieldset_depth0(fs):
    return 0.


def set_sym_data(field, values, mode, overlay):
    """make field.data symbolic: object array in scipy mode, overlay in jit mode"""
    if mode == 'scipy':
        field.data = values
    else:
        for bid, ch in enumerate(field.data_chunks):
            if ch is None:
                continue
            cjit.overlay_array(overlay, ch, chunk_values(field, bid, values, ch.shape))


def chunk_values(field, bid, values, shape):
    if len(field.data_chunks) == 1:
        return values.reshape(shape)
    raise EngineError('chunked field: use explicit overlay')
