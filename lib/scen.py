"""Scenario driver: one piece of code states the run and the claims; it is evaluated with symbolic inputs
(every path explored, every claim discharged by the solver) and, for counterexamples, with the concrete inputs
of the model on the real, untouched code."""
from fractions import Fraction
import sys
import time as _time

import numpy as np
import z3

from . import sym, npshim, oblig
from .sym import Sym

TOL = Fraction(1, 10 ** 6)


class Claims:
    def __init__(self):
        self.items = []
        self.wit = []

    def true(self, key, what, cond):
        self.items.append(('t', key, what, cond, None, None))

    def eq(self, key, what, a, b, tol=TOL):
        self.items.append(('e', key, what, a, b, tol))

    def eqs(self, key, what, a, b, tol=TOL):
        self.true(key, what + ' (length)', len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(key, '%s [%d]' % (what, i), x, y, tol)

    def witness(self, name):
        self.wit.append(name)

    def le(self, key, what, a, b, slack=Fraction(1, 10 ** 9)):
        self.true(key, what, a <= b + slack)


def _num(v):
    return isinstance(v, (int, float, Fraction, np.integer, np.floating, Sym)) and not isinstance(v, bool)


def flat(inp):
    for k, v in inp.items():
        if isinstance(v, (list, tuple)):
            for x in v:
                yield x
        elif isinstance(v, np.ndarray):
            for x in v.flat:
                yield x
        else:
            yield v


def concretise(m, v):
    if isinstance(v, (list, tuple)):
        return [concretise(m, x) for x in v]
    if isinstance(v, np.ndarray):
        return {'nd': [concretise(m, x) for x in v.flat], 'shape': list(v.shape)}
    if isinstance(v, Sym) and v.k == 'b':
        return bool(oblig.fval(m, v))
    return oblig.fval(m, v)


def real_value(v):
    """inputs of a replay: plain python numbers / numpy arrays"""
    if isinstance(v, dict) and 'nd' in v:
        return np.array([real_value(x) for x in v['nd']] or [], dtype=float).reshape(v['shape'])
    if isinstance(v, list):
        return [real_value(x) for x in v]
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 and False else float(v)
    return v


def drive(ctx, scen, mode, extra=None, max_paths=20000, modules=(), tag=''):
    """scen.inputs() -> dict of symbolic inputs; scen.run(mode, inputs, claims, real=False)"""
    ex = ctx.explorer(max_paths=max_paths)

    def fn():
        with npshim.installed(sys.modules[type(scen).__module__], *modules):
            inp = scen.inputs()
            if ex.check() == z3.unsat:
                raise sym.Infeasible()
            c = Claims()
            scen.run(mode, inp, c, False)
        return inp, c
    for res, exc in ex.paths(fn):
        if exc is not None:
            import traceback
            ctx.incon('%s: harness error %s: %s\n%s' % (ctx.task, type(exc).__name__, exc, ''.join(traceback.format_tb(exc.__traceback__)[-4:])))
            ctx.obligations += 1
            continue
        inp, c = res
        for w in c.wit:
            ctx.witness(w)
        vs = [v.e for v in flat(inp) if isinstance(v, Sym) and v.k == 'r']

        def conc(m, inp=inp):
            return dict(scen=scen.spec(), mode=mode, inputs={k: concretise(m, v) for k, v in inp.items()})
        for kind, key, what, a, b, tol in c.items:
            key = tag + key
            if kind == 't':
                if a is True or (isinstance(a, np.bool_) and bool(a)):
                    ctx.obligations += 1
                    ctx.discharged += 1
                    continue
                oblig.prove(ctx, ex, a, key, what, conc, nice=vs)
            else:
                if not _num(a) or not _num(b):
                    ok = a is b or (type(a) == type(b) and a == b)
                    oblig.prove(ctx, ex, bool(ok), key, what, conc, nice=vs)
                elif isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e):
                    ctx.obligations += 1
                    ctx.discharged += 1
                else:
                    oblig.prove_close(ctx, ex, a, b, key, what, conc, tol=tol, nice=vs, big=1e-2 if tol < 1e-2 else tol)


def holds(kind, a, b, tol):
    if kind == 't':
        return bool(a)
    if not _num(a) or not _num(b):
        return a is b or (type(a) == type(b) and a == b)
    a, b = float(a), float(b)
    if not np.isfinite(a) or not np.isfinite(b):
        return a == b or (a != a and b != b)
    return abs(a - b) <= float(tol) * (1 + abs(b))


def replay(scen, inputs, key=None):
    inp = {k: real_value(v) for k, v in inputs['inputs'].items()}
    c = Claims()
    scen.run(inputs['mode'], inp, c, True)
    for kind, k, what, a, b, tol in c.items:
        if not holds(kind, a, b, tol):
            shown = {q: v for q, v in inp.items() if not isinstance(v, np.ndarray)}
            return True, '%s [%s, %s]: got %s%s with %s' % (what, k, inputs['mode'], a, '' if kind == 't' else ', expected %s' % (b,), str(shown)[:400])
    return False, 'every claim holds on the real code'
