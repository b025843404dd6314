"""Shared driver for the sampling properties: explore one configuration symbolically, compare with a spec."""
import sys
from fractions import Fraction

import numpy as np
import z3

from . import sym, npshim, cjit, cases, oblig, spec
from .sym import Sym, symreal, symint, symarray
from .samp import Target, set_sym_data, Out
from . import samp
from parcels.tools.statuscodes import StateCode

_T = {}
ERR = spec.ERRNAME


def target(cfg, mode):
    key = (repr(sorted(cfg.items(), key=lambda kv: kv[0])), mode)
    t = _T.get(key)
    if t is None:
        fs = cases.make_fieldset(cfg)
        what = cfg.get('sample', 'P')
        t = Target(fs, cases.KERNELS[what], mode, lonlatdepth_dtype=np.dtype(cfg.get('dtype', 'float64')).type, outs=cases.OUTS[what])
        if mode == 'jit':
            t.capture()
        _T[key] = t
    return t


def grid_arrays(cfg):
    """exact values of the coordinates as parcels stores them (float32 / float64)"""
    def ex(v, dt):
        a = np.array(cases.tofloat(v), dtype=dt).astype(np.float64)
        return np.vectorize(lambda x: Fraction(float(x)), otypes=[object])(a)
    return (ex(cfg['lon'], np.float32), ex(cfg['lat'], np.float32), ex(cfg.get('depth', [0.]), np.float32),
            ex(cfg.get('time', [0.]), np.float64))


class Inputs:
    """symbolic inputs of one sampling"""
    def __init__(self, cfg, box, data_bound=8, hints=None, data=None, land=False):
        self.cfg = cfg
        sh = cases.data_shape(cfg)
        b = box

        def coord(n):
            v = b.get(n)
            if isinstance(v, (tuple, list)):
                return symreal(n, v[0], v[1])
            return Fraction(v) if v is not None else Fraction(0)
        self.x, self.y, self.z, self.t = coord('x'), coord('y'), coord('z'), coord('t')
        self.data = {}
        for name in cfg.get('fields', ['P']):
            if data is not None and name in data:
                self.data[name] = np.vectorize(lambda q: Fraction(q), otypes=[object])(np.array(data[name], dtype=object).reshape(sh))
            else:
                self.data[name] = symarray('d' + name, sh, -data_bound, data_bound)
        if land:
            for a in self.data.values():
                for v in a.flat:
                    sym.CTX.add(z3.Or(v.e == 0, v.e >= sym.real_const(0.25)))
        self.hints = {}
        nt, nz, ny, nx = cases.shape_of(cfg)
        hs = hints or {}
        for k, dim in (('xi', nx), ('yi', ny), ('zi', nz), ('ti', nt)):
            h = hs.get(k, 0)
            if h == 'sym':
                h = symint('h_' + k, 0, max(0, dim - 2) if k != 'ti' else dim - 1)
            elif isinstance(h, (tuple, list)):
                h = symint('h_' + k, h[0], h[1])
            self.hints[k] = h

    def posvars(self):
        return [v.e for v in (self.x, self.y, self.z, self.t) if isinstance(v, Sym)]

    def concrete(self, mode, **more):
        cfg = self.cfg

        def f(m):
            return dict(more, cfg=cfg, mode=mode,
                        pos={k: oblig.fval(m, getattr(self, k)) for k in 'xyzt'},
                        hints={k: oblig.fval(m, v) for k, v in self.hints.items()},
                        data={n: [oblig.fval(m, v) for v in a.flat] for n, a in self.data.items()})
        return f


def wrapped(cfg, a):
    """the frame parcels appends when the period is longer than the series"""
    per = cfg.get('periodic', False)
    if per is False or cfg['time'][-1] - cfg['time'][0] >= per:
        return a
    return np.concatenate((a, a[:1]), axis=0)


def run_mode(cfg, inp, mode, max_steps=200000):
    t = target(cfg, mode)
    ng = t.pset.collection._data['xi'].shape[1]
    hints = {k: np.array([[v] * ng], dtype=object) for k, v in inp.hints.items()}
    data = {n: wrapped(cfg, a) for n, a in inp.data.items()}
    part = dict(lon=[inp.x], lat=[inp.y], depth=[inp.z], time=[inp.t], dt=[0])
    if mode == 'jit':
        ov = {}
        for n, a in data.items():
            fld = getattr(t.fieldset, n)
            vals = a
            if fld.data.ndim == 3:
                vals = a.reshape((a.shape[0],) + a.shape[2:])
            set_sym_data(fld, vals, 'jit', ov)
        return t.run(part, hints, ov, endtime=inp.t, max_steps=max_steps)[0]
    with npshim.installed(samp):
        for n, a in data.items():
            fld = getattr(t.fieldset, n)
            vals = a if a.shape[1] > 1 else a.reshape((a.shape[0],) + a.shape[2:])
            fld.data = vals.copy()
        return t.run(part, hints, endtime=inp.t)[0]


def describe(o):
    if o.fault is not None:
        return 'fault: %s' % o.fault
    if o.ok:
        return 'value'
    return ERR.get(int(o.state), str(o.state))


def close(a, b, tol=2e-3):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))


def real_outcome(inp):
    return cases.real_sample(inp['cfg'], inp['data'], inp['pos'], inp['mode'], inp.get('hints'))


def concrete_data(inp):
    sh = cases.data_shape(inp['cfg'])
    return {n: np.array([Fraction(v) for v in d] + [None], dtype=object)[:-1].reshape(sh) for n, d in inp['data'].items()}
