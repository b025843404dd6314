"""Discharging obligations on the current path and extracting concrete counterexamples."""
import time as _time
from fractions import Fraction

import z3

from . import sym
from .sym import Sym, zreal, real_const, STATS, num_of, model_value, is_special

TRUE = z3.BoolVal(True)


def zbool(c):
    if isinstance(c, Sym):
        return c.e if c.k == 'b' else c.e != 0
    if isinstance(c, bool):
        return z3.BoolVal(c)
    return c


def _solve(conds, timeout_ms, nl=False):
    t = _time.time()
    if nl:
        s = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver() if nl == 'nlsat' else z3.SolverFor('QF_NRA')
    else:
        s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*conds)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.queries += 1
    STATS.solver_s += _time.time() - t
    if r == z3.unsat:
        STATS.unsat += 1
        return r, None
    if r == z3.sat:
        STATS.sat += 1
        return r, s.model()
    STATS.unknown += 1
    return r, None


def pinned(ex, variables):
    """substitutions var -> value for the variables the path forces to a single value"""
    subs = []
    chk, mod = ex.check, lambda: ex.solver.model()
    if ex.check() != z3.sat:
        # the conditions over the positions alone
        names = {v.decl().name() for v in variables}
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*[c for c in ex.conds if _vars(c) <= names])

        def chk(*a):
            STATS.queries += 1
            return s.check(*a)
        mod = s.model
        if chk() != z3.sat:
            return subs
    m = mod()
    for v in variables:
        val = m.eval(v, model_completion=True)
        if num_of(val) is None:
            continue
        if chk(v != val) == z3.unsat:
            subs.append((v, val))
    return subs


def _vars(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        a = todo.pop()
        if a.get_id() in seen:
            continue
        seen.add(a.get_id())
        if a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(a.decl().name())
        todo.extend(a.children())
    return out


def renorm(ex, subs):
    """subs extended with the quotient variables that coincide once the pinned variables are substituted"""
    subs = list(subs)
    canon = {}
    for x, y, q in list(ex._quot.values()):
        x2, cx = sym._monic(z3.substitute(x, *subs), 12)
        y2, cy = sym._monic(z3.substitute(y, *subs), 12)
        ny = num_of(y2)
        c = cx / cy
        if num_of(x2) == 0:
            subs.append((q, real_const(0)))
        elif ny is not None and ny != 0:
            subs.append((q, z3.simplify(x2 * real_const(c / ny))))
        else:
            k = (x2.get_id(), y2.get_id())
            if k in canon:
                subs.append((q, z3.simplify(canon[k][0] * real_const(c))))
            else:
                canon[k] = (q / real_const(c), x2, y2)
    return subs


def recip_subs(ex, subs=()):
    """q -> numerator * (1/denominator) for every quotient variable, one reciprocal variable per monic denominator"""
    out, canon = list(subs), {}
    done = {v.get_id() for v, _ in subs}
    for x, y, q in list(ex._quot.values()):
        if q.get_id() in done:
            continue
        x2 = z3.substitute(x, *out) if out else x
        y2, cy = sym._monic(z3.substitute(y, *out) if out else y, 12)
        ny = num_of(y2)
        if ny is not None:
            if ny == 0:
                continue
            r = real_const(1 / Fraction(ny))
        else:
            k = y2.get_id()
            if k not in canon:
                canon[k] = (z3.Real('r!%d' % len(canon)), y2)
            r = canon[k][0]
        out.append((q, z3.simplify(x2 * r * real_const(1 / Fraction(cy)), som=True)))
    return out


def same(ex, a, b, subs=()):
    """a == b by polynomial normal form after expanding quotients over shared reciprocals"""
    if not ex._quot:
        return False
    rs = recip_subs(ex, subs)
    return bool(rs) and sym.same_poly(z3.substitute(a, *rs), z3.substitute(b, *rs))


def _uf_refine(ex, conds, m, timeout_ms):
    """make the model agree with the true libm functions; returns model or None"""
    ufs = list(ex._ufs.values())
    if not ufs:
        return m
    blocked = []
    for _ in range(6):
        fix = []
        ok = True
        for name, zargs, t in ufs:
            try:
                av = [model_value(m, a) for a in zargs]
                # keep arguments short
                av = [Fraction(a).limit_denominator(1 << 20) for a in av]
                tv = sym.REAL_UF[name](*[float(a) for a in av])
            except (ValueError, OverflowError, sym.EngineError):
                ok = False
                break
            for a, v in zip(zargs, av):
                fix.append(a == real_const(v))
            eps = abs(tv) * 1e-9 + 1e-12
            fix.append(z3.And(t >= real_const(tv - eps), t <= real_const(tv + eps)))
        if ok:
            r, m2 = _solve(conds + fix, timeout_ms)
            if r == z3.sat:
                return m2
            # nested applications: the argument itself depends on another value -> only fix innermost first
            r, m2 = _solve(conds + fix[:len(zargs) + 1], timeout_ms)
            if r == z3.sat:
                m = m2
                continue
        blk = [a == m.eval(a, model_completion=True) for _, zargs, _ in ufs for a in zargs]
        blocked.append(z3.Not(z3.And(*blk)))
        r, m = _solve(conds + blocked, timeout_ms)
        if r != z3.sat:
            return None
    return None


def find_model(ex, neg, nice=(), fixable=(), timeout_ms=8000):
    """('unsat'|'sat'|'unknown', model) for path AND neg; `nice` real vars preferably multiples of 1/64"""
    conds = ex.path_cond() + [neg]
    r = ex.check(neg)
    if r == z3.unsat:
        return 'unsat', None
    if ex._defs:
        r = ex.check(neg, *ex._defs)
        if r == z3.unsat:
            return 'unsat', None
    m = ex.solver.model() if r == z3.sat else None
    if r == z3.unknown:
        for nl in (True, 'nlsat'):
            r, m = _solve(conds, timeout_ms, nl=nl)
            if r != z3.unknown:
                break
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.unknown:
            # instantiate: fix positions at a few path models, the rest becomes easy
            blk = []
            for _ in range(4):
                r0 = ex.check(*(blk + ex._defs))
                if r0 != z3.sat:
                    break
                pm = ex.solver.model()
                fx = [v == pm.eval(v, model_completion=True) for v in fixable]
                if not fx:
                    break
                r, m = _solve(conds + fx, timeout_ms)
                if r == z3.sat:
                    break
                blk.append(z3.Not(z3.And(*fx)))
            if r != z3.sat:
                return 'unknown', None
    if nice:
        for q in (4, 64, 4096):
            ints = [z3.Int('nice!%d' % i) for i in range(len(nice))]
            extra = [v * q == z3.ToReal(i) for v, i in zip(nice, ints)]
            rr, mm = _solve(conds + extra, 2500)
            if rr == z3.sat:
                conds = conds + extra
                m = mm
                break
    if ex._ufs:
        m2 = _uf_refine(ex, conds, m, timeout_ms)
        if m2 is None:
            return 'unknown', None
        m = m2
    return 'sat', m


def prove(ctx, ex, claim, key, what, inputs, nice=(), fixable=(), info=None):
    """prove `claim` on the current path; otherwise register a counterexample. inputs(model)->dict"""
    ctx.obligations += 1
    claim = z3.simplify(zbool(claim))
    if z3.is_true(claim):
        ctx.discharged += 1
        return True
    r, m = find_model(ex, z3.Not(claim), nice, fixable)
    if r == 'unsat':
        ctx.discharged += 1
        return True
    if r == 'unknown':
        ctx.incon('%s: solver unknown' % key)
        return None
    ctx.violation(key, what, inputs(m))
    return False


def prove_close(ctx, ex, a, b, key, what, inputs, tol=1e-6, big=1e-2, nice=(), fixable=()):
    """prove |a-b| <= tol on the current path"""
    ctx.obligations += 1
    for v in (a, b):
        if is_special(v):
            if is_special(a) and is_special(b) and (a == b or (a != a and b != b)):
                ctx.discharged += 1
                return True
            r, m = find_model(ex, TRUE, nice, fixable)
            if r == 'sat':
                ctx.violation(key, what + ' (non-finite value)', inputs(m))
                return False
            ctx.incon('%s: no model for a non-finite value' % key)
            return None
    d = zreal(a) - zreal(b)
    if sym.same_poly(zreal(a), zreal(b)) or same(ex, zreal(a), zreal(b)):
        ctx.discharged += 1
        return True
    if fixable:
        subs = pinned(ex, fixable)
        if subs:
            if same(ex, zreal(a), zreal(b), subs):
                ctx.discharged += 1
                return True
            subs = renorm(ex, subs)
            d2 = z3.substitute(d, *subs)
            if sym.is_zero_poly(d2) or sym.same_poly(z3.substitute(zreal(a), *subs), z3.substitute(zreal(b), *subs)):
                ctx.discharged += 1
                return True
            d = z3.simplify(d2, som=True)
    res = 'unsat'
    for t in (big, tol):
        neg = z3.Or(d > real_const(t), d < real_const(-t))
        res, m = find_model(ex, neg, nice, fixable)
        if res == 'sat':
            ctx.violation(key, what, inputs(m))
            return False
    if res == 'unsat':
        ctx.discharged += 1
        return True
    ctx.incon('%s: solver unknown' % key)
    return None


def prove_member(ctx, ex, a, cands, key, what, inputs, tol=1e-6, nice=(), fixable=()):
    """prove that a equals (within tol) one of the admissible values"""
    ctx.obligations += 1
    if is_special(a):
        r, m = find_model(ex, TRUE, nice, fixable)
        if r == 'sat':
            ctx.violation(key, what + ' (non-finite value)', inputs(m))
        else:
            ctx.incon('%s: no model' % key)
        return False
    za = zreal(a)
    diffs = []
    for c in cands:
        if is_special(c):
            continue
        d = za - zreal(c)
        if sym.same_poly(za, zreal(c)) or same(ex, za, zreal(c)):
            ctx.discharged += 1
            return True
        diffs.append(d)
    subs = pinned(ex, fixable) if fixable else []
    if subs:
        if any(same(ex, za, zreal(c), subs) for c in cands if not is_special(c)):
            ctx.discharged += 1
            return True
        subs = renorm(ex, subs)
        za2 = z3.substitute(za, *subs)
        cs = [z3.substitute(zreal(c), *subs) for c in cands if not is_special(c)]
        for i, d in enumerate(diffs):
            d = z3.substitute(d, *subs)
            if sym.is_zero_poly(d) or sym.same_poly(za2, cs[i]):
                ctx.discharged += 1
                return True
            diffs[i] = z3.simplify(d, som=True)
    neg = z3.And(*[z3.Or(d > real_const(tol), d < real_const(-tol)) for d in diffs]) if diffs else TRUE
    neg2 = z3.And(*[z3.Or(d > real_const(1e-2), d < real_const(-1e-2)) for d in diffs]) if diffs else TRUE
    for ng in (neg2, neg):
        res, m = find_model(ex, ng, nice, fixable)
        if res == 'sat':
            ctx.violation(key, what, inputs(m))
            return False
    if res == 'unsat':
        ctx.discharged += 1
        return True
    ctx.incon('%s: solver unknown' % key)
    return None


def fval(m, s):
    """concrete Fraction/int/float of a (possibly symbolic) value in model m"""
    if isinstance(s, Sym):
        e = s.e if s.k != 'b' else s.asint()
        v = model_value(m, e)
        return Fraction(v) if s.k == 'r' else int(v)
    return s
