"""Stand-ins for the C-implemented numeric library functions (numpy / math) so the real parcels
Python code can run on symbolic scalars.  Each stand-in computes the documented function on a Sym
and defers to the real library for concrete arguments."""
import builtins
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, uf, ssqrt, sfloor, strunc, is_special, spow


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Sym) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _isclose1(a, b, rtol, atol):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(a, Fraction):
            a = float(a)
        if isinstance(b, Fraction):
            b = float(b)
        return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    if is_special(a) or is_special(b):
        return False
    d = a - b
    ab = abs(b)
    t = ab * rtol + atol
    return bool((d <= t) & (-d <= t))


def isclose(a, b, rtol=1.e-5, atol=1.e-8, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        if isinstance(a, Fraction):
            a = float(a)
        if isinstance(b, Fraction):
            b = float(b)
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    if aa.shape == ():
        return _isclose1(aa.item(), bb.item(), rtol, atol)
    out = np.zeros(aa.shape, dtype=bool)
    for ix in np.ndindex(*aa.shape):
        out[ix] = _isclose1(aa[ix], bb[ix], rtol, atol)
    return out


def allclose(a, b, rtol=1.e-5, atol=1.e-8, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol)))


def _elementwise(fn):
    def g(x, *args, **kw):
        if isinstance(x, Sym):
            return fn(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            vals = [fn(v) for v in x.flat]
            out = np.array(vals)
            return out.reshape(x.shape)
        return None
    return g


def _isnan1(v):
    return (not isinstance(v, (Sym, Fraction))) and bool(np.isnan(v))


def isnan(x):
    if isinstance(x, Sym):
        return False
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([_isnan1(v) for v in x.flat], dtype=bool).reshape(x.shape)
    if isinstance(x, Fraction):
        return False
    return np.isnan(x)


def isinf(x):
    if isinstance(x, (Sym, Fraction)):
        return False
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([(not isinstance(v, (Sym, Fraction))) and bool(np.isinf(v)) for v in x.flat], dtype=bool).reshape(x.shape)
    return np.isinf(x)


def isfinite(x):
    if isinstance(x, (Sym, Fraction)):
        return True
    return np.logical_not(isnan(x)) & np.logical_not(isinf(x)) if isinstance(x, np.ndarray) and x.dtype == object else np.isfinite(x)


def sign(x):
    if isinstance(x, Sym):
        if x > 0:
            return 1
        if x < 0:
            return -1
        return 0
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([sign(v) for v in x.flat]).reshape(x.shape)
    if isinstance(x, Fraction):
        return (x > 0) - (x < 0)
    return np.sign(x)


def _np_unary(name, symfn):
    real = getattr(np, name)

    def f(x, *a, **k):
        if isinstance(x, (Sym, Fraction)):
            return symfn(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for ix in np.ndindex(*x.shape):
                out[ix] = symfn(x[ix])
            return out
        return real(x, *a, **k)
    f.__name__ = name
    return f


def _m_unary(name, symfn):
    real = getattr(math, name)

    def f(x, *a):
        if isinstance(x, (Sym, Fraction)):
            return symfn(x)
        return real(x, *a)
    f.__name__ = name
    return f


def _u(name):
    return lambda x: uf(name, x)


def _abs(x):
    return abs(x)


def _m_pow(x, y):
    if isinstance(x, (Sym, Fraction)) or isinstance(y, (Sym, Fraction)):
        return spow(x, y)
    return math.pow(x, y)


def _m_fmod(x, y):
    if isinstance(x, (Sym, Fraction)) or isinstance(y, (Sym, Fraction)):
        q = sym.sdiv(x, y)
        return x - strunc(q) * y
    return math.fmod(x, y)


def _m_atan2(x, y):
    if isinstance(x, (Sym, Fraction)) or isinstance(y, (Sym, Fraction)):
        return sym.uf('atan2', x, y)
    return math.atan2(x, y)


def _m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not has_sym(a) and not has_sym(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return bool(d <= abs(a) * rel_tol) or bool(d <= abs(b) * rel_tol) or bool(d <= abs_tol)


def _logical_not(x, *a, **k):
    if isinstance(x, Sym):
        return x.logical_not()
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([not bool(v) for v in x.flat], dtype=bool).reshape(x.shape)
    return np.logical_not(x, *a, **k)


class _FMeta(type):
    def __call__(cls, x=0.0, *a):
        if isinstance(x, Sym):
            return x if x.k == 'r' else Sym(x.real())
        if isinstance(x, Fraction):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        return cls._base(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base or (isinstance(o, np.dtype) and o == np.dtype(cls._base))

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._base)


class SFloat32(metaclass=_FMeta):
    _base = np.float32
    dtype = np.dtype(np.float32)


class SFloat64(metaclass=_FMeta):
    _base = np.float64
    dtype = np.dtype(np.float64)


class _BFMeta(_FMeta):
    def __instancecheck__(cls, o):
        return isinstance(o, float)


class SFloat(metaclass=_BFMeta):
    _base = float
    dtype = np.dtype(float)


def _maximum(a, b, *r, **k):
    if has_sym(a) or has_sym(b):
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        if aa.shape == ():
            x, y = aa.item(), bb.item()
            return x if x >= y else y
        out = np.empty(aa.shape, dtype=object)
        for ix in np.ndindex(*aa.shape):
            out[ix] = aa[ix] if aa[ix] >= bb[ix] else bb[ix]
        return out
    return np.maximum(a, b, *r, **k)


def _minimum(a, b, *r, **k):
    if has_sym(a) or has_sym(b):
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        if aa.shape == ():
            x, y = aa.item(), bb.item()
            return x if x <= y else y
        out = np.empty(aa.shape, dtype=object)
        for ix in np.ndindex(*aa.shape):
            out[ix] = aa[ix] if aa[ix] <= bb[ix] else bb[ix]
        return out
    return np.minimum(a, b, *r, **k)


NP_OVER = dict(isclose=isclose, allclose=allclose, isnan=isnan, isinf=isinf, isfinite=isfinite, sign=sign,
               sqrt=_np_unary('sqrt', ssqrt), cos=_np_unary('cos', _u('cos')), sin=_np_unary('sin', _u('sin')),
               tan=_np_unary('tan', _u('tan')), exp=_np_unary('exp', _u('exp')), log=_np_unary('log', _u('log')),
               arctan=_np_unary('arctan', _u('atan')), arccos=_np_unary('arccos', _u('acos')),
               floor=_np_unary('floor', sfloor), ceil=_np_unary('ceil', lambda x: -sfloor(-x)),
               abs=_np_unary('abs', _abs), absolute=_np_unary('absolute', _abs), fabs=_np_unary('fabs', _abs),
               logical_not=_logical_not, float32=SFloat32, float64=SFloat64,
               maximum=_maximum, minimum=_minimum)
MATH_OVER = dict(sqrt=_m_unary('sqrt', ssqrt), cos=_m_unary('cos', _u('cos')), sin=_m_unary('sin', _u('sin')),
                 tan=_m_unary('tan', _u('tan')), exp=_m_unary('exp', _u('exp')),
                 atan=_m_unary('atan', _u('atan')), acos=_m_unary('acos', _u('acos')), asin=_m_unary('asin', _u('asin')),
                 log=_m_unary('log', _u('log')), fabs=_m_unary('fabs', _abs), floor=_m_unary('floor', sfloor),
                 ceil=_m_unary('ceil', lambda x: -sfloor(-x)), trunc=_m_unary('trunc', strunc),
                 isnan=_m_unary('isnan', lambda x: False), isinf=_m_unary('isinf', lambda x: False),
                 radians=_m_unary('radians', lambda x: x * (math.pi / 180.)),
                 pow=_m_pow, fmod=_m_fmod, atan2=_m_atan2, isclose=_m_isclose)


class ModShim(types.ModuleType):
    def __init__(self, base, over):
        super().__init__(base.__name__)
        self.__dict__['_base'] = base
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_base'], name)


NP = ModShim(np, NP_OVER)
MATH = ModShim(math, MATH_OVER)
_IDMAP = {}
for _n, _v in NP_OVER.items():
    _IDMAP[id(getattr(np, _n))] = _v
for _n, _v in MATH_OVER.items():
    _IDMAP[id(getattr(math, _n))] = _v


class installed:
    """context manager: parcels' modules (and extra ones) see the stand-ins"""
    def __init__(self, *extra, shim_float=True, only=None):
        self.extra = extra
        self.shim_float = shim_float
        self.only = only
        self.saved = []

    def __enter__(self):
        mods = [m for n, m in list(sys.modules.items())
                if m is not None and (n == 'parcels' or n.startswith('parcels.')) and isinstance(m, types.ModuleType)]
        if self.only is not None:
            mods = [m for m in mods if m.__name__ in self.only]
        for m in mods + list(self.extra):
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith('__'):
                    continue
                new = None
                if v is np:
                    new = NP
                elif v is math:
                    new = MATH
                elif id(v) in _IDMAP and not isinstance(v, (bool, int, str)):
                    new = _IDMAP[id(v)]
                if new is not None:
                    self.saved.append((d, k, v, True))
                    d[k] = new
            if self.shim_float and 'float' not in d and m not in self.extra:
                self.saved.append((d, 'float', None, False))
                d['float'] = SFloat
        return self

    def __exit__(self, *a):
        for d, k, v, had in reversed(self.saved):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
        self.saved = []
        return False
