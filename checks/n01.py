"""N01: nested and summed fields. A NestedField has the value of the first of its fields whose domain contains the
position (an error other than out-of-bounds ends the search), and is out of bounds only outside all of them; a
SummedField has the sum of the values of all its fields and fails when any of them fails. Each field is sampled
on its own grid with its own unit conversion. Same for scalars and vectors and in both modes."""
from fractions import Fraction

import numpy as np
import z3

from lib import sym, psim, scen, samp
from lib.sym import symreal
from parcels import FieldSet, Field
from parcels.field import SummedField, NestedField, VectorField
from parcels.tools import statuscodes as sc
from parcels.tools.converters import UnitConverter

F = Fraction
FUNCTIONS = ['parcels.field.NestedField.__getitem__ / SummedField.__getitem__ / __add__ (Python)', 'parcels.field.Field.eval, VectorField.eval (Python)', 'codegenerator: Summed/Nested(Vector)FieldEvalNode (generated C, LLVM IR)',
             'parcels.fieldset.FieldSet.check_complete, get_fields; parcels.kernel.Kernel.execute_python / execute_jit']
BOUNDS = dict(fields='2-3 fields on different, overlapping and disjoint grids of 2 nodes per axis; 2D, 3D with depth, and time-dependent; with and without unit conversion',
              position='any position in and around the domains; 1e-3 or more from (or exactly on) their edges', data='all node values any reals in [-4,4]')
ASSUMPTIONS = ['exact real arithmetic']
VARS = dict(o1=np.float64, o2=np.float64, o3=np.float64, o4=np.float64)
#      lon0 lon1 lat0 lat1  z0 z1  t0 t1
BOX = [(1, 2, 1, 2, 1, 2, 0, 4), (0, 4, 0, 4, 0, 4, 0, 4), (3, 6, 0, 4, 0, 4, 0, 4)]
FAC = [1, 3, F(1, 2)]


class Tripled(UnitConverter):
    """value depends on the field and on the position"""
    def __init__(self, f):
        self.f = float(f)

    def to_target(self, value, x, y, z):
        return value * self.f

    def to_source(self, value, x, y, z):
        return value / self.f

    def ccode_to_target(self, x, y, z):
        return '%r' % self.f

    def ccode_to_source(self, x, y, z):
        return '%r' % (1 / self.f)


def kP(particle, fieldset, time):
    particle.o1 = fieldset.N[time, particle.depth, particle.lat, particle.lon]
    particle.o2 = 2 * fieldset.N[particle] - particle.o1


def kUV(particle, fieldset, time):
    (u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]
    particle.o1 = u
    particle.o2 = v
    particle.o4 = 1 - fieldset.U[time, particle.depth, particle.lat, particle.lon]


def kUVW(particle, fieldset, time):
    (u, v, w) = fieldset.UVW[time, particle.depth, particle.lat, particle.lon]
    particle.o1 = u
    particle.o2 = v
    particle.o3 = w


KERN = dict(P=(kP, 'P'), UV=(kUV, 'UV'), UVW=(kUVW, 'UVW'))
_S, _DATA = {}, {}


def build(kind, what, dims, boxes):
    names = KERN[what][1]
    parts = {}
    for n in names:
        fs = []
        for i, b in enumerate(boxes):
            x = BOX[b]
            shape = ((2,) if 't' in dims else ()) + ((2,) if 'z' in dims else ()) + (2, 2)
            kw = {}
            if 'z' in dims:
                kw['depth'] = np.array(x[4:6], dtype=np.float32)
            if 't' in dims:
                kw['time'] = np.array([0., 2.]) if i == 0 else np.array([0., 4.])
            f = Field('%s%d' % (n, i), np.ones(shape, np.float32), lon=np.array(x[0:2], np.float32), lat=np.array(x[2:4], np.float32), mesh='flat', **kw)
            if 'c' in dims:
                f.units = Tripled(FAC[i])
            fs.append(f)
        parts[n] = fs
    mk = NestedField if kind == 'nested' else SummedField
    if what == 'P':
        z = np.zeros((2, 2), np.float32)
        fset = FieldSet.from_data({'U': z, 'V': z}, dict(lon=[0., 1.], lat=[0., 1.]), mesh='flat')
        for f in parts['P']:
            fset.add_field(f)
        fset.add_field(mk('N', parts['P']), 'N') if False else setattr(fset, 'N', mk('N', parts['P']))
    else:
        fset = FieldSet(mk('U', parts['U']), mk('V', parts['V']), fields={'W': mk('W', parts['W'])} if 'W' in parts else None)
    return fset, parts


def overlay(pset, ov):
    for f, v in _DATA.items():
        samp.set_sym_data(f, v, 'jit', ov)


class Combined:
    def __init__(self, kind, what, dims, boxes):
        self.kind, self.what, self.dims, self.boxes = kind, what, dims, list(boxes)

    def spec(self):
        return ['Combined', self.kind, self.what, self.dims, self.boxes]

    def inputs(self):
        C = sym.CTX

        def pos(n, lo, hi, edges):
            v = symreal(n, lo, hi)
            for e in edges:
                C.add(z3.Or(v.e == e, (v >= e + F(1, 1000)).e, (v <= e - F(1, 1000)).e))
            return v
        bx = [BOX[b] for b in self.boxes]
        inp = dict(lon=pos('lon', -1, 7, {e for b in bx for e in b[0:2]}), lat=pos('lat', -1, 5, {e for b in bx for e in b[2:4]}))
        inp['depth'] = pos('depth', -1, 5, {e for b in bx for e in b[4:6]}) if 'z' in self.dims else F(0)
        inp['time'] = pos('time', -1, 5, (0, 2, 4)) if 't' in self.dims else F(1)
        shape = (2 if 't' in self.dims else 1, 2 if 'z' in self.dims else 1, 2, 2)
        for n in KERN[self.what][1]:
            for i in range(len(self.boxes)):
                inp['d%s%d' % (n, i)] = sym.symarray('d%s%d' % (n, i), shape if 'z' in self.dims else (shape[0], 2, 2), -4, 4)
        return inp

    def ref(self, inp):
        """'oob' | 'surface' | 'time' or the values"""
        names = KERN[self.what][1]
        x, y, z, t = inp['lon'], inp['lat'], inp['depth'], inp['time']
        out = []
        for i, b in enumerate(self.boxes):
            B = BOX[b]
            t1 = 2 if i == 0 else 4
            if 't' in self.dims and not (bool(t >= 0) and bool(t <= t1)):
                return 'time'
            r = None
            if not (bool(x >= B[0]) and bool(x <= B[1]) and bool(y >= B[2]) and bool(y <= B[3])):
                r = 'oob'
            elif 'z' in self.dims and bool(z < B[4]):
                return 'surface'
            elif 'z' in self.dims and bool(z > B[5]):
                r = 'oob'
            if r:
                if self.kind == 'summed':
                    return r
                continue
            xs, ys = (x - B[0]) / F(B[1] - B[0]), (y - B[2]) / F(B[3] - B[2])
            zs = (z - B[4]) / F(B[5] - B[4]) if 'z' in self.dims else 0
            ts = t / F(t1) if 't' in self.dims else 0

            def lin(d, ws):
                if not ws:
                    return d
                a = lin(d[0], ws[1:])
                return a if len(d) == 1 else a * (1 - ws[0]) + lin(d[1], ws[1:]) * ws[0]
            ws = [ts] + ([zs] if 'z' in self.dims else []) + [ys, xs]
            out.append([lin(inp['d%s%d' % (n, i)], ws) * (float(FAC[i]) if 'c' in self.dims else 1) for n in names])
            if self.kind == 'nested':
                return out[0]
        if self.kind == 'nested':
            return 'oob'
        return [sum(o[j] for o in out) for j in range(len(names))]

    def sim(self, mode, real):
        k = (mode, real, self.kind, self.what, self.dims, tuple(self.boxes))
        if k not in _S:
            fs, parts = build(self.kind, self.what, self.dims, self.boxes)
            kw = dict(field_overlay=overlay) if mode == 'jit' and not real else {}
            _S[k] = ((psim.RealSim if real else psim.PSim)(mode, KERN[self.what][0], dict(VARS), fieldset=fs, **kw), fs, parts)
        return _S[k]

    def run(self, mode, inp, c, real):
        S, fs, parts = self.sim(mode, real)
        ref = self.ref(inp)
        fs.computeTimeChunk(0, 1)
        _DATA.clear()
        for n, fl in parts.items():
            for i, f in enumerate(fl):
                v = inp['d%s%d' % (n, i)]
                if real:
                    f.data = np.array(v, dtype=np.float32)
                elif mode == 'scipy':
                    f.data = v.copy()
                else:
                    _DATA[f] = v
        val = dict(time=[inp['time']], dt=[1], lon=[inp['lon']], lat=[inp['lat']], depth=[inp['depth']], o1=[0], o2=[0], o3=[0], o4=[0])
        p = S.new(1, val)
        exc = None
        try:
            S.kernel.execute(p, endtime=inp['time'] + 1, dt=1)
        except (sc.KernelError, psim.Fault) as e:
            exc = e
        if isinstance(ref, str):
            want = dict(oob=sc.OutOfBoundsError, surface=sc.ThroughSurfaceError, time=sc.OutOfTimeError)[ref]
            c.witness(ref)
            c.true('error', 'sampling raises %s (got %s)' % (want.__name__, type(exc).__name__), type(exc) is want)
            return
        c.true('noerror', 'sampling inside the domain succeeds (got %s)' % type(exc).__name__, exc is None)
        if exc is not None:
            return
        c.witness('value')
        d = p.collection._data
        tol = F(1, 10 ** 4) if real else scen.TOL
        for j, n in enumerate(KERN[self.what][1]):
            c.eq('value-' + n, 'value of %s component %s' % (self.kind, n), d['o%d' % (j + 1)][0], ref[j], tol=tol)
        if self.what == 'P':
            c.eq('particle-key', 'twice the value sampled with [particle] minus the value', d['o2'][0], ref[0], tol=tol)
        if self.what == 'UV':
            c.eq('scalar-U', 'one minus U', d['o4'][0], 1 - ref[0], tol=tol)


def scen_of(spec):
    return Combined(*spec[1:])


WITNESSES = {'-': ['value', 'oob']}


def tasks(tier):
    q = tier != 'thorough'
    C = [('nested', 'P', '', (0, 1, 2)), ('nested', 'P', 'z', (0, 1)), ('nested', 'P', 't', (0, 1)), ('nested', 'UV', '', (0, 1)), ('nested', 'UV', 'c', (0, 1, 2)), ('nested', 'UVW', 'z', (0, 1)), ('nested', 'UVW', 'zc', (0, 1)),
         ('summed', 'P', '', (0, 1)), ('summed', 'P', 'z', (1, 2)), ('summed', 'P', 'c', (1, 1, 2)), ('summed', 'P', 't', (1, 2)), ('summed', 'UV', '', (1, 2)), ('summed', 'UV', 'c', (0, 1)), ('summed', 'UVW', 'zc', (1, 2))]
    if not q:
        C += [(k, w, d, b) for k in ('nested', 'summed') for w in ('P', 'UV', 'UVW') for d in ('', 'c', 'z', 't', 'zt') for b in ((0, 1), (1, 0), (0, 2), (1, 2), (0, 2, 1)) if (k, w, d, b) not in C and (w != 'UVW' or 'z' in d) and not (d == 'zt' and len(b) == 3)]
    out = []
    for mode in ('scipy', 'jit'):
        for k, w, d, b in C:
            out.append(('%s-%s-%s%s-%s' % (mode, k, w, d, ''.join(map(str, b))), (lambda ctx, m=mode, a=(k, w, d, b): scen.drive(ctx, Combined(*a), m))))
    return out


def replay(inputs):
    return scen.replay(scen_of(inputs['scen']), inputs)
