"""Symbolic scalars + path explorer (re-execution based) on top of z3.

Every value that depends on a symbolic input is a `Sym` (wrapping a z3 Real / Int / Bool
term).  Python control flow over a Sym calls Sym.__bool__, which asks the current Explorer
to decide the branch: both sides are kept when the solver finds both feasible, and the whole
program under test is re-executed for the other side later.  The set of explored paths
therefore covers all values of the symbolic inputs (within the stated assumptions).
"""
import math
import opcode
import sys
import time as _time
from fractions import Fraction

import numpy as np
import z3

z3.z3.Z3_DEBUG = False      # no argument assertions in the z3 bindings (speed)


class _Raw:
    def __getattr__(self, n):
        return getattr(z3.z3core, n).__defaults__[0].f


_L = _Raw()
_kind = _L.Z3_get_ast_kind
_MKA = {'+': _L.Z3_mk_add, '-': _L.Z3_mk_sub, '*': _L.Z3_mk_mul}
_C = z3.main_ctx()
_CR = _C.ref()
_A2 = z3.Ast * 2

NAN = float('nan')
INF = float('inf')


class EngineError(BaseException):
    """The engine cannot model something (never confused with an error of the code under test)."""


class Infeasible(BaseException):
    pass


class PathLimit(EngineError):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.sat = 0
        self.unsat = 0

    def as_dict(self):
        return dict(queries=self.queries, solver_s=round(self.solver_s, 3), unknown=self.unknown,
                    paths=self.paths, sat=self.sat, unsat=self.unsat)

    def add(self, d):
        for k in ('queries', 'solver_s', 'unknown', 'paths', 'sat', 'unsat'):
            setattr(self, k, getattr(self, k) + d.get(k, 0))


STATS = Stats()
CTX = None  # current Explorer


def frac(v):
    """exact rational of a python/numpy number"""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    return Fraction(float(v))


def rv(v):
    f = frac(v)
    return z3.RealVal(f) if False else z3.Q(f.numerator, f.denominator)


_rv_cache = {}


def real_const(v):
    f = frac(v)
    r = _rv_cache.get(f)
    if r is None:
        r = z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
        _rv_cache[f] = r
    return r


def is_special(v):
    return isinstance(v, (float, np.floating)) and (math.isnan(v) or math.isinf(v))


def num_of(e):
    """python number if z3 term is a literal else None"""
    if _kind(_CR, e.ast) != 0:     # not a numeral
        return None
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


_PICK = {}


def _unpick(n):
    return _PICK[n]


class Sym:
    __slots__ = ('e', 'k')

    def __reduce__(self):
        # pickled by reference within the process (code under test that stores values in files)
        n = self.e.get_id()
        _PICK[n] = self
        return _unpick, (n,)

    def __init__(self, e, k=None):
        self.e = e
        if k is None:
            s = e.sort().kind()
            k = 'r' if s == z3.Z3_REAL_SORT else ('i' if s == z3.Z3_INT_SORT else 'b')
        self.k = k

    # ---------------------------------------------------------------- helpers
    def real(self):
        if self.k == 'r':
            return self.e
        if self.k == 'i':
            return z3.ToReal(self.e)
        return z3.If(self.e, real_const(1), real_const(0))

    def asint(self):
        if self.k == 'i':
            return self.e
        if self.k == 'b':
            return z3.If(self.e, z3.IntVal(1), z3.IntVal(0))
        raise EngineError('asint of real')

    def __repr__(self):
        s = str(self.e)
        return 'Sym(%s)' % (s if len(s) < 60 else s[:60] + '...')

    def __hash__(self):
        return self.e.hash()

    # ---------------------------------------------------------------- arithmetic
    def __add__(self, o):
        return _arith('+', self, o)

    def __radd__(self, o):
        return _arith('+', o, self)

    def __sub__(self, o):
        return _arith('-', self, o)

    def __rsub__(self, o):
        return _arith('-', o, self)

    def __mul__(self, o):
        return _arith('*', self, o)

    def __rmul__(self, o):
        return _arith('*', o, self)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sdiv(o, self)

    def __floordiv__(self, o):
        return sfloordiv(self, o)

    def __rfloordiv__(self, o):
        return sfloordiv(o, self)

    def __mod__(self, o):
        if self.k == 'i' and isinstance(o, (int, np.integer)) and o > 0:
            return wrap(self.e % int(o))
        return self - sfloordiv(self, o) * o

    def __rmod__(self, o):
        return o - sfloordiv(o, self) * self

    def __divmod__(self, o):
        q = sfloordiv(self, o)
        return q, self - q * o

    def __rdivmod__(self, o):
        q = sfloordiv(o, self)
        return q, o - q * self

    def __neg__(self):
        return wrap(-(self.e if self.k != 'b' else self.asint()))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.k == 'b':
            return Sym(self.asint())
        if self >= 0:
            return self
        return -self

    def __pow__(self, n):
        return spow(self, n)

    def __rpow__(self, b):
        return spow(b, self)

    # ---------------------------------------------------------------- comparisons
    def __lt__(self, o):
        return _cmp('<', self, o)

    def __le__(self, o):
        return _cmp('<=', self, o)

    def __gt__(self, o):
        return _cmp('>', self, o)

    def __ge__(self, o):
        return _cmp('>=', self, o)

    def __eq__(self, o):
        return _cmp('==', self, o)

    def __ne__(self, o):
        return _cmp('!=', self, o)

    # ---------------------------------------------------------------- bool ops
    def __bool__(self):
        if self.k == 'b':
            return CTX.decide(self.e)
        return CTX.decide(self.e != 0)

    def __and__(self, o):
        return _blogic(z3.And, self, o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return _blogic(z3.Or, self, o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return _blogic(z3.Xor, self, o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        if self.k == 'b':
            return wrap(z3.Not(self.e))
        return -self - 1

    def logical_not(self):
        if self.k == 'b':
            return wrap(z3.Not(self.e))
        return self == 0

    # ---------------------------------------------------------------- conversions
    def __index__(self):
        if self.k == 'r':
            raise TypeError('symbolic real used as an index')
        return CTX.concretize(self.asint())

    def __int__(self):
        if self.k == 'r':
            v = CTX.trunc_quotient(self.e)
            if v is not None:
                return v
            return int(strunc(self)) if not isinstance(strunc(self), Sym) else CTX.concretize(strunc(self).e)
        return CTX.concretize(self.asint())

    def __float__(self):
        n = num_of(self.e)
        if n is not None:
            return float(n)
        if getattr(CTX, 'float_ok', False):
            # unique value on this path?
            return CTX.unique_float(self.e)
        f = sys._getframe(1)
        code = f.f_code.co_code
        if opcode.opname[code[f.f_lasti]] == 'BINARY_OP' and code[f.f_lasti + 1] in (6, 19):
            return 0.123456789    # "%f" % x : a message text, never a value
        raise EngineError('symbolic value realised as a float: %r' % self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    def __trunc__(self):
        return strunc(self)

    def __round__(self, n=None):
        if n is None or n == 0:
            return sfloor(self + Fraction(1, 2))
        raise EngineError('round')

    def is_integer(self):
        return self == sfloor(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return repr(self)

    # numpy object-array ufunc hooks
    def sqrt(self):
        return ssqrt(self)

    def cos(self):
        return uf('cos', self)

    def sin(self):
        return uf('sin', self)

    def tan(self):
        return uf('tan', self)

    def exp(self):
        return uf('exp', self)

    def log(self):
        return uf('log', self)

    def arctan(self):
        return uf('atan', self)

    def floor(self):
        return sfloor(self)

    def ceil(self):
        return -sfloor(-self)

    def rint(self):
        return sfloor(self + Fraction(1, 2))

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    @property
    def real_part(self):
        return self


def wrap(e):
    n = None
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return Sym(e, 'b')
    return Sym(e)


def lift(v):
    """-> z3 arithmetic term"""
    if isinstance(v, Sym):
        return v.e if v.k != 'b' else v.asint()
    if isinstance(v, (bool, np.bool_)):
        return z3.IntVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, (float, np.floating, Fraction)):
        if is_special(v):
            raise EngineError('special float in symbolic arithmetic')
        return real_const(v)
    if isinstance(v, np.ndarray) and v.shape == ():
        return lift(v.item())
    raise EngineError('cannot lift %r' % (type(v),))


def _coerce2(a, b):
    x, y = lift(a), lift(b)
    if x.sort().kind() != y.sort().kind():
        if z3.is_int(x):
            x = z3.ToReal(x)
        if z3.is_int(y):
            y = z3.ToReal(y)
    return x, y


def _f(v):
    return float(v)


_PLAIN = (Sym, int, Fraction)


def _operands(a, b):
    """z3 terms of one sort, their sort kind ('r', 'i') and their values when they are literals"""
    ta, tb = type(a), type(b)
    x, y = lift(a), lift(b)
    ka = ('r' if a.k == 'r' else 'i') if ta is Sym else ('i' if ta is int else None)
    kb = ('r' if b.k == 'r' else 'i') if tb is Sym else ('i' if tb is int else None)
    if ka is None:
        ka = 'i' if z3.is_int(x) else 'r'
    if kb is None:
        kb = 'i' if z3.is_int(y) else 'r'
    nx = a if ta is int else num_of(x)
    ny = b if tb is int else num_of(y)
    if ka != kb:
        if ka == 'i':
            x, ka = (z3.ToReal(x) if nx is None else real_const(nx)), 'r'
        else:
            y = z3.ToReal(y) if ny is None else real_const(ny)
    return x, y, ka, nx, ny


def _arith(op, a, b):
    if type(a) not in _PLAIN or type(b) not in _PLAIN:
        for o in (a, b):
            if isinstance(o, np.ndarray) and o.shape != ():
                return NotImplemented
            if not isinstance(o, (Sym, int, float, np.number, Fraction, np.bool_, np.ndarray)):
                return NotImplemented
        if is_special(a) or is_special(b):
            return _special_arith(op, a, b)
    x, y, k, nx, ny = _operands(a, b)
    if op == '+':
        if nx == 0:
            return _mk(y)
        if ny == 0:
            return _mk(x)
        f = _MKA['+']
    elif op == '-':
        if ny == 0:
            return _mk(x)
        if x.ast.value == y.ast.value:
            return _mk(z3.IntVal(0) if k == 'i' else real_const(0))
        f = _MKA['-']
    else:
        if nx == 0 or ny == 0:
            return _mk(z3.IntVal(0) if k == 'i' else real_const(0))
        if nx == 1:
            return _mk(y)
        if ny == 1:
            return _mk(x)
        f = _MKA['*']
    r = z3.ArithRef(f(_CR, 2, _A2(x.ast, y.ast)), _C)
    if nx is not None and ny is not None:
        return _mk(z3.simplify(r))
    return Sym(r, k)


def _mk(e):
    if z3.is_int_value(e):
        return e.as_long()
    return Sym(e)


def _special_arith(op, a, b):
    s, o, left = (a, b, True) if is_special(a) else (b, a, False)
    if isinstance(o, Sym):
        if math.isnan(s):
            return NAN
        if op in '+':
            return float(s)
        if op == '-':
            return float(s) if left else -float(s)
        if op == '*':
            if o > 0:
                return float(s)
            if o < 0:
                return -float(s)
            return NAN
    a, b = float(a), float(b)
    with np.errstate(all='ignore'):
        return float({'+': np.add, '-': np.subtract, '*': np.multiply}[op](a, b))


_MK = {'<': _L.Z3_mk_lt, '<=': _L.Z3_mk_le, '>': _L.Z3_mk_gt, '>=': _L.Z3_mk_ge, '==': _L.Z3_mk_eq}
_OPS = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
        '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}


def _cmp(op, a, b):
    for o in (a, b):
        if type(o) in _PLAIN:
            continue
        if isinstance(o, np.ndarray) and o.shape != ():
            return NotImplemented
        if o is None or not isinstance(o, (Sym, int, float, np.number, Fraction, np.bool_, np.ndarray)):
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
    if is_special(a) or is_special(b):
        fa = float(a) if is_special(a) else 0.
        fb = float(b) if is_special(b) else 0.
        return bool(_OPS[op](fa, fb))
    x, y, _, nx, ny = _operands(a, b)
    if nx is not None and ny is not None:
        return bool(_OPS[op](nx, ny))
    if x.ast.value == y.ast.value:
        return op in ('<=', '>=', '==')
    if op == '!=':
        return Sym(z3.Not(x == y), 'b')
    f = _MK[op]
    return Sym(z3.BoolRef(f(_CR, x.ast, y.ast), _C), 'b')


def _blogic(zop, a, b, conc):
    def tob(v):
        if isinstance(v, Sym):
            return v.e if v.k == 'b' else (v.e != 0)
        return z3.BoolVal(bool(v))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(a, Sym) and a.k == 'i' or isinstance(b, Sym) and b.k == 'i':
        # integer bit logic: concretise
        ia = int(a) if not isinstance(a, Sym) else CTX.concretize(a.asint())
        ib = int(b) if not isinstance(b, Sym) else CTX.concretize(b.asint())
        return conc(ia, ib)
    return wrap(z3.simplify(zop(tob(a), tob(b))))


def sdiv(a, b):
    """real division; den == 0 is a separate path that yields an IEEE special value"""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if is_special(a) or is_special(b):
            with np.errstate(all='ignore'):
                return float(np.float64(a) / np.float64(b))
        if frac(b) == 0:
            fa = frac(a)
            return NAN if fa == 0 else (INF if fa > 0 else -INF)
        return frac(a) / frac(b)
    if is_special(b):
        return NAN if math.isnan(b) else 0.
    if is_special(a):
        if math.isnan(a):
            return NAN
        return float(a) if (b >= 0) else -float(a)
    x, y = lift(a), lift(b)
    if z3.is_int(x):
        x = z3.ToReal(x)
    if z3.is_int(y):
        y = z3.ToReal(y)
    y = z3.simplify(y)
    ny = num_of(y)
    if ny is not None:
        if ny == 0:
            return _divzero(a)
        if ny == 1:
            return Sym(x)
        return Sym(x / y)
    nx = num_of(z3.simplify(x))
    if CTX.decide(y == 0):
        return _divzero(a)
    if nx == 0:
        return Sym(real_const(0))
    return CTX.quotient(x, y)


def _divzero(a):
    CTX.divzero += 1
    if not isinstance(a, Sym):
        fa = frac(a)
        return NAN if fa == 0 else (INF if fa > 0 else -INF)
    if a > 0:
        return INF
    if a < 0:
        return -INF
    return NAN


def sfloor(a):
    if not isinstance(a, Sym):
        return math.floor(frac(a))
    if a.k != 'r':
        return a
    return _mk(z3.ToInt(a.e))


def strunc(a):
    if not isinstance(a, Sym):
        return math.trunc(a)
    if a.k != 'r':
        return a
    if a >= 0:
        return _mk(z3.ToInt(a.e))
    return -_mk(z3.ToInt((-a).e))


def sfloordiv(a, b):
    ia = isinstance(a, (int, np.integer)) or (isinstance(a, Sym) and a.k == 'i')
    ib = isinstance(b, (int, np.integer)) or (isinstance(b, Sym) and b.k == 'i')
    if ia and ib and isinstance(b, (int, np.integer)) and b > 0:
        return _mk(lift(a) / z3.IntVal(int(b)))
    if (is_special(b) and not math.isnan(b)) and isinstance(a, Sym):
        if a >= 0:
            return 0. if b > 0 else -1.
        return -1. if b > 0 else 0.
    q = sdiv(a, b)
    if is_special(q):
        return q
    return sfloor(q)


def spow(b, n):
    if isinstance(n, (float, np.floating)) and float(n).is_integer():
        n = int(n)
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if isinstance(n, (int, np.integer)) and abs(n) <= 16:
        n = int(n)
        r = 1
        for _ in range(abs(n)):
            r = b * r
        return r if n >= 0 else sdiv(1, r)
    if isinstance(n, (float, np.floating, Fraction)) and frac(n) == Fraction(1, 2):
        return ssqrt(b)
    if isinstance(n, (float, np.floating, Fraction)) and frac(n) == Fraction(3, 2):
        return b * ssqrt(b)
    return uf('pow', b, n)


def ssqrt(a):
    if not isinstance(a, Sym):
        if is_special(a):
            return float(np.sqrt(a))
        f = frac(a)
        if f < 0:
            return NAN
        r = Fraction(math.isqrt(f.numerator), math.isqrt(f.denominator))
        if r * r == f:
            return r
        return Fraction(math.sqrt(f))
    if a < 0:
        return NAN
    return CTX.sqrt(a.real())


UFS = {}
REAL_UF = {'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'exp': math.exp, 'log': math.log,
           'atan': math.atan, 'acos': math.acos, 'asin': math.asin, 'pow': math.pow, 'atan2': math.atan2,
           'fmod': math.fmod, 'tanh': math.tanh, 'cosh': math.cosh, 'sinh': math.sinh}


def uf(name, *args):
    """libm function: uninterpreted, shared by the Python and the C executions, plus range axioms"""
    if not any(isinstance(a, Sym) for a in args):
        try:
            return Fraction(REAL_UF[name](*[float(a) for a in args]))
        except (ValueError, OverflowError):
            return NAN
    if any(is_special(a) for a in args):
        return NAN
    f = UFS.get((name, len(args)))
    if f is None:
        f = z3.Function('m_' + name, *([z3.RealSort()] * (len(args) + 1)))
        UFS[(name, len(args))] = f
    zargs = []
    for a in args:
        x = lift(a)
        if z3.is_int(x):
            x = z3.ToReal(x)
        zargs.append(round_coeffs(x))
    t = f(*zargs)
    CTX.note_uf(name, zargs, t)
    return Sym(t)


def _monic(x, digits=None):
    x = z3.simplify(x, som=True)
    p, atoms = polydict(x)
    ks = sorted((k for k in p if p[k] != 0), key=lambda k: (-len(k), k))
    if not ks:
        return x, Fraction(1)
    c = p[ks[0]]
    if c == 1:
        return (x if digits is None else round_coeffs(x, digits)), c
    x = z3.simplify(x / real_const(c), som=True)
    return (x if digits is None else round_coeffs(x, digits)), c


class Explorer:
    def __init__(self, max_paths=4000, timeout_ms=4000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.max_paths = max_paths
        self.trail = []      # [value, alt_pending]
        self.idx = 0
        self.deadline = deadline
        self.divzero = 0
        self.float_ok = False
        self.conds = []
        self._levels = []
        self.concretize_limit = 64

    # -- constraint bookkeeping -------------------------------------------------
    def _fresh_run(self):
        self.idx = 0
        self.divzero = 0
        self.conds = []
        self._dec = {}           # conditions decided on this path
        self._quot = {}
        self._sqrt = {}
        self._ufs = {}
        self._cnt = 0
        self._defs = []          # nonlinear definitions of quotients and roots
        self._defvars = set()
        self._taint = False      # a path condition mentions such a variable

    def _define(self, q, d):
        self._defs.append(d)
        self._defvars.add(q.decl().name())

    def mentions_def(self, e):
        if not self._defvars:
            return False
        seen, todo = set(), [e]
        while todo:
            a = todo.pop()
            i = a.get_id()
            if i in seen:
                continue
            seen.add(i)
            if a.num_args() == 0:
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in self._defvars:
                    return True
            else:
                todo.extend(a.children())
        return False

    @property
    def replaying(self):
        return self.idx < len(self.trail)

    def add(self, c):
        """assume c on this path (definitional or environment assumption)"""
        if isinstance(c, Sym):
            c = c.e
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            return
        if c is False:
            raise Infeasible()
        self.conds.append(c)
        if not self.replaying:
            self.solver.add(c)

    def assume(self, c):
        self.add(c)
        if not self.replaying and self.check() == z3.unsat:
            raise Infeasible()

    def check(self, *extra):
        t = _time.time()
        r = self.solver.check(*extra)
        STATS.queries += 1
        STATS.solver_s += _time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        elif r == z3.sat:
            STATS.sat += 1
        else:
            STATS.unsat += 1
        return r

    def quotient(self, x, y):
        # a/b = (ca/cb) * (a/ca)/(b/cb) with monic-ish numerator and denominator, so equal quotients share a variable
        x, cx = _monic(x)
        y, cy = _monic(y)
        key = (x.get_id(), y.get_id())
        hit = self._quot.get(key)
        if hit is None:
            self._cnt += 1
            q = z3.Real('q!%d' % self._cnt)
            self._define(q, q * y == x)
            hit = self._quot[key] = (x, y, q)
        c = cx / cy
        return Sym(hit[2] if c == 1 else real_const(c) * hit[2], 'r')

    def sqrt(self, x):
        x = z3.simplify(x, som=True)
        hit = self._sqrt.get(x.get_id())
        if hit is not None:
            return hit[1]
        self._cnt += 1
        q = z3.Real('s!%d' % self._cnt)
        self.add(q >= 0)
        self._define(q, q * q == x)
        s = Sym(q, 'r')
        self._sqrt[x.get_id()] = (x, s)
        return s

    def note_uf(self, name, zargs, t):
        if t.get_id() in self._ufs:
            return
        self._ufs[t.get_id()] = (name, zargs, t)
        if name in ('cos', 'sin'):
            self.add(z3.And(t >= -1, t <= 1))
            if name == 'cos':
                # cos(a) > 0 when |a| < pi/2  (sound: 1.57079 < pi/2)
                a = zargs[0]
                h = real_const(1.57079)
                self.add(z3.Implies(z3.And(a > -h, a < h), t > 0))
        elif name == 'exp':
            self.add(t > 0)

    # -- decisions --------------------------------------------------------------
    def decide(self, cond):
        i = cond.get_id()
        hit = self._dec.get(i)
        if hit is not None:
            return hit[1]
        c = z3.simplify(cond)
        if z3.is_true(c):
            v = True
        elif z3.is_false(c):
            v = False
        else:
            j, neg = c.get_id(), False
            if c.num_args() == 1 and z3.is_not(c):
                n = c.arg(0)
                j, neg = n.get_id(), True
            hit = self._dec.get(j)
            if hit is not None:
                v = hit[1] != neg
            else:
                v = self._decide(c)
                self._dec[j] = (n if neg else c, v != neg)
        self._dec[i] = (cond, v)
        return v

    def _decide(self, cond):
        if self.deadline and _time.time() > self.deadline:
            raise PathLimit('time budget exhausted')
        if not self._taint and self.mentions_def(cond):
            self._taint = True
        if self.replaying:
            val = self.trail[self.idx][0]
            self.idx += 1
            c = cond if val else z3.Not(cond)
            self.conds.append(c)
            if self.idx == len(self.trail) and self.trail[-1][2]:
                # flipped decision: its constraint has to be pushed now
                self.trail[-1][2] = False
                self.solver.add(c)
            return val
        ncond = z3.Not(cond)
        defs = self._defs if self._taint else []
        rt = self.check(cond, *defs)
        if rt == z3.unsat:
            # other side must be feasible
            self.trail.append([False, False, False])
            self.idx += 1
            self.solver.push()
            self.conds.append(ncond)
            return False
        rf = self.check(ncond, *defs)
        alt = rf != z3.unsat
        self.trail.append([True, alt, False])
        self.idx += 1
        self.solver.push()
        self.conds.append(cond)
        if alt:
            self.solver.add(cond)
        return True

    def trunc_quotient(self, e):
        """int(x/y) by linear comparisons (v*y <= x < (v+1)*y); None when e is not such a quotient"""
        e = z3.simplify(e)
        c = real_const(1)
        if z3.is_mul(e) and e.num_args() == 2 and num_of(e.arg(0)) is not None:
            c, e = e.arg(0), e.arg(1)
        hit = next(((x, y) for x, y, q in self._quot.values() if q.eq(e)), None)
        if hit is None:
            return None
        x, y = z3.simplify(c * hit[0]), hit[1]
        if not self.decide(y > 0):
            x, y = -x, -y

        def holds(v):
            v = int(v)
            if v > 0:
                return z3.And(v * y <= x, x < (v + 1) * y)
            if v < 0:
                return z3.And((v - 1) * y < x, x <= v * y)
            return z3.And(-y < x, x < y)

        def pick():
            m = self.solver.model()
            return math.trunc(model_value(m, x) / model_value(m, y))
        return self._concretize(holds, pick)

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return self._concretize(lambda v: e == v, lambda: self.solver.model().eval(e, model_completion=True).as_long())

    def _concretize(self, holds, pick):
        for _ in range(self.concretize_limit):
            if self.replaying:
                # value stored in the trail record
                rec = self.trail[self.idx]
                v = rec[3]
            else:
                if self.check() != z3.sat:
                    raise EngineError('cannot concretise (solver gave no model)')
                v = pick()
            before = len(self.trail)
            at = self.idx
            c = z3.simplify(holds(v))
            taken = z3.is_true(c) or (not z3.is_false(c) and self._decide(c))     # not from the cache: the record carries v
            if len(self.trail) > before:
                self.trail[at].append(v)
            if taken:
                return v
        raise PathLimit('too many values for a symbolic index')

    def unique_float(self, e):
        if self.check() != z3.sat:
            raise EngineError('no model')
        v = self.solver.model().eval(e, model_completion=True)
        if self.check(e != v) == z3.unsat:
            return float(num_of(v))
        raise EngineError('symbolic value realised as a float')

    # -- exploration --------------------------------------------------------------
    def paths(self, fn):
        """run fn() on every feasible path; yields (result, exception) with the solver positioned on the path"""
        global CTX
        n = 0
        self.solver.reset()
        self.trail = []
        while True:
            self._fresh_run()
            prev = CTX
            CTX = self
            res, exc = None, None
            skip = False
            try:
                res = fn()
            except Infeasible:
                skip = True
            except (KeyboardInterrupt, SystemExit, EngineError):
                CTX = prev
                raise
            except Exception as e:   # an error of the code under test is an outcome
                exc = e
            if not skip:
                n += 1
                STATS.paths += 1
                try:
                    yield res, exc
                finally:
                    CTX = prev
            CTX = prev
            # backtrack
            while self.trail and not self.trail[-1][1]:
                self.trail.pop()
                self.solver.pop()
            if not self.trail:
                return
            self.solver.pop()
            self.solver.push()
            last = self.trail[-1]
            last[0] = not last[0]
            last[1] = False
            last[2] = True
            if n >= self.max_paths:
                raise PathLimit('path limit %d' % self.max_paths)

    def path_cond(self):
        return list(self.conds) + list(self._defs)


def symreal(name, lo=None, hi=None):
    v = z3.Real(name)
    if lo is not None:
        CTX.add(v >= real_const(lo))
    if hi is not None:
        CTX.add(v <= real_const(hi))
    return Sym(v, 'r')


def symint(name, lo=None, hi=None):
    v = z3.Int(name)
    if lo is not None:
        CTX.add(v >= lo)
    if hi is not None:
        CTX.add(v <= hi)
    return Sym(v, 'i')


def symarray(name, shape, lo=None, hi=None):
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = symreal('%s_%s' % (name, '_'.join(map(str, ix))), lo, hi)
    return a


def polydict(e):
    """polynomial normal form: {monomial (sorted tuple of atom ids): rational coefficient}, plus the atoms"""
    atoms, memo = {}, {}

    def mul(p, q):
        out = {}
        for k1, c1 in p.items():
            for k2, c2 in q.items():
                k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
                out[k] = out.get(k, 0) + c1 * c2
        return out

    def poly(t):
        i = t.get_id()
        hit = memo.get(i)
        if hit is not None:
            return hit
        n = num_of(t)
        k = t.decl().kind()
        if n is not None:
            r = {(): Fraction(n)} if n != 0 else {}
        elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            r = {}
            for j, c in enumerate(t.children()):
                sg = -1 if (k == z3.Z3_OP_SUB and j) else 1
                for m, v in poly(c).items():
                    r[m] = r.get(m, 0) + sg * v
        elif k == z3.Z3_OP_UMINUS:
            r = {m: -v for m, v in poly(t.arg(0)).items()}
        elif k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                r = mul(r, poly(c))
        elif k == z3.Z3_OP_POWER and num_of(t.arg(1)) is not None and Fraction(num_of(t.arg(1))).denominator == 1 and 0 < num_of(t.arg(1)) < 20:
            b = poly(t.arg(0))
            r = {(): Fraction(1)}
            for _ in range(int(num_of(t.arg(1)))):
                r = mul(r, b)
        elif k == z3.Z3_OP_DIV and num_of(t.arg(1)) not in (None, 0):
            d = Fraction(num_of(t.arg(1)))
            r = {m: v / d for m, v in poly(t.arg(0)).items()}
        elif k == z3.Z3_OP_TO_REAL and num_of(t.arg(0)) is not None:
            r = {(): Fraction(num_of(t.arg(0)))}
        else:
            atoms[i] = t
            r = {(i,): Fraction(1)}
        memo[i] = r
        return r
    return {k: v for k, v in poly(z3.simplify(e)).items() if v != 0}, atoms


def same_poly(a, b, rel=Fraction(1, 10 ** 12)):
    """a and b are the same polynomial up to coefficient differences of relative size `rel` (rounding of constants)"""
    pa, _ka = polydict(a)
    pb, _kb = polydict(b)
    tiny = max([abs(c) for c in pa.values()] + [abs(c) for c in pb.values()] + [0]) / 10 ** 14
    for k in set(pa) | set(pb):
        x, y = pa.get(k, 0), pb.get(k, 0)
        if abs(x - y) > max(rel * max(abs(x), abs(y)), tiny):
            return False
    return True


def round_coeffs(e, digits=13):
    """e with its polynomial coefficients rounded to `digits` significant decimal digits"""
    p, atoms = polydict(e)
    r = None
    for k in sorted(p):
        c = p[k]
        if c == 0:
            continue
        c = Fraction('%.*e' % (digits - 1, float(c)))
        t = real_const(c)
        for v in k:
            t = t * atoms[v] if not (z3.is_int(atoms[v])) else t * z3.ToReal(atoms[v])
        r = t if r is None else r + t
    return z3.simplify(r, som=True) if r is not None else real_const(0)


def is_zero_poly(e):
    """decide e == 0 by polynomial normal form (z3 simplifier)"""
    s = z3.simplify(e, som=True, hoist_mul=False)
    n = num_of(s)
    return n is not None and n == 0


def zreal(v):
    x = lift(v)
    return z3.ToReal(x) if z3.is_int(x) else x


def model_value(m, e):
    v = m.eval(e, model_completion=True)
    n = num_of(v)
    if n is None:
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        raise EngineError('no numeral for %s' % e)
    return n
