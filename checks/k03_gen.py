"""Bounded enumeration of kernels: every nesting of one operator (or statement) of the supported subset in every
position of another one.  gen(tier) returns {kernel name: source}."""


def _arith():
    # (name, fmt, left must be positive, right must be positive)
    ops = [('add', '(%s + %s)'), ('sub', '(%s - %s)'), ('mul', '(%s * %s)'), ('div', '(%s / %s)'), ('pow', '(%s ** %s)'), ('neg', '(-%s)'), ('fabs', 'math.fabs(%s)'), ('abs', 'abs(%s)'),
           ('min', 'min(%s, %s)'), ('max', 'max(%s, %s)'), ('cmp', '(%s > %s)'), ('mod', '(%s %% %s)')]
    P = 'particle.'

    def any_(n, i):
        f = dict(ops)[n]
        if n == 'pow':
            return f % (P + 'ab'[i], '2')
        if n == 'mod':
            return f % (P + 'ab'[i], '1.5')
        if f.count('%s') == 1:
            return f % (P + 'ab'[i])
        return f % (P + 'ab'[i], P + ('e' if n == 'div' else 'cd'[i]))

    def pos(n):
        return {'add': '(particle.e + particle.f)', 'sub': '(particle.e - -particle.f)', 'mul': '(particle.e * particle.f)', 'div': '(particle.e / particle.f)',
                'pow': '(particle.e ** 2)', 'fabs': 'math.fabs(particle.e)', 'abs': 'abs(particle.e)', 'min': 'min(particle.e, particle.f)', 'max': 'max(particle.e, particle.f)'}.get(n)
    out = []
    for o, f in ops:
        for i, _ in ops:
            if o == 'mod' or o == 'pow':
                out.append(f % (any_(i, 0), '2'))
                continue
            if f.count('%s') == 1:
                out.append(f % any_(i, 0))
                continue
            if o == 'div':
                out.append(f % (any_(i, 0), 'particle.f'))
                if pos(i):
                    out.append(f % ('particle.c', pos(i)))
                continue
            out.append(f % (any_(i, 0), 'particle.d'))
            out.append(f % ('particle.d', any_(i, 1)))
    return out


def _bool(depth3):
    leaves = ['particle.a > 0', 'particle.b <= 0.5', 'particle.c < particle.d', 'particle.d != 1']
    un = ['(not (%s))']
    bi = ['((%s) and (%s))', '((%s) or (%s))', '((%s) == (%s))', '((%s) != (%s))', '((%s) >= (%s))']
    inner = [f % leaves[0] for f in un] + [f % (leaves[0], leaves[1]) for f in bi] + ['(%s) and (%s) or (%s)' % (leaves[0], leaves[1], leaves[3])]
    inner2 = [f % leaves[2] for f in un] + [f % (leaves[2], leaves[3]) for f in bi]
    out = [u % i for u in un for i in inner]
    out += [b % (i, leaves[2]) for b in bi for i in inner]
    out += [b % (leaves[2], i) for b in bi for i in inner]
    if depth3:
        out += [b % (i, j) for b in bi for i in inner for j in inner2]
    return out


def _stmts(two):
    F = 'fieldset.P[time, particle.depth, particle.lat, particle.lon]'
    tests = {'p': 'particle.a > 0', 'f': F + ' > particle.b', 'ff': F + ' > 0 and fieldset.Q[particle] < particle.c', 'b': 'particle.a > 0 and (particle.b > 0 or particle.c > 0)',
             'v': '%s * fieldset.Q[particle] > particle.a' % F}
    simple = {'s': 'particle.o1 += 1', 'l': 'x = x + particle.d', 'fs': 'particle.o2 = %s' % F, 'fa': 'particle.o2 += 2 * %s' % F, 't': '(x, y) = (y, x)', 'tv': '(x, y) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]'}

    def blk(s, ind):
        return '\n'.join(' ' * ind + l for l in s.split('\n'))

    def comp(kind, t, body, other):
        if kind == 'if':
            return 'if %s:\n%s' % (t, blk(body, 4))
        if kind == 'ifelse':
            return 'if %s:\n%s\nelse:\n%s' % (t, blk(body, 4), blk(other, 4))
        if kind == 'elif':
            return 'if particle.o4 > 1:\n%s\nelif %s:\n%s\nelse:\n%s' % (blk(other, 4), t, blk(body, 4), blk('particle.o3 += 8', 4))
        return 'k = 0\nwhile %s:\n    k += 1\n    if k > 1:\n        break\n%s' % (t, blk(body, 4))
    out = {}
    for kind in ('if', 'ifelse', 'elif', 'while'):
        for tn, t in tests.items():
            for sn, s in simple.items():
                if not two and (len(out) + len(sn)) % 3 and tn in ('b', 'v', 'ff') and sn != 'fs':
                    continue
                out['%s_%s_%s' % (kind, tn, sn)] = comp(kind, t, s + '\nparticle.o3 += 1', 'particle.o1 = 4\n' + s)
    for k1 in ('if', 'ifelse', 'elif', 'while'):
        for k2 in ('if', 'ifelse', 'elif'):
            for tn in (('f', 'p') if two else ('f',)):
                out['%s_%s_%s' % (k1, k2, tn)] = comp(k1, tests[tn], comp(k2, tests['v' if tn == 'f' else 'f'], simple['fs'], 'particle.o2 = 3'), comp(k2, tests['p'], 'particle.o2 = 5', 'particle.o3 = 6')) + '\nparticle.o4 += 1'
    return out


def gen(tier):
    two = tier == 'thorough'
    out = {}

    def fn(name, lines):
        out[name] = 'def %s(particle, fieldset, time):\n%s\n\n\n' % (name, '\n'.join('    ' + x for l in lines for x in l.split('\n')))
    ar = _arith()
    for i in range(0, len(ar), 4):
        fn('ga%d' % (i // 4), ['particle.o%d = %s' % (j + 1, e) for j, e in enumerate(ar[i:i + 4])])
    bo = _bool(two)
    for i in range(0, len(bo), 4):
        fn('gb%d' % (i // 4), ['if %s:\n    particle.o%d = 10' % (e, j + 1) for j, e in enumerate(bo[i:i + 4])])
    for n, s in _stmts(two).items():
        fn('gs_' + n, ['x = particle.b', 'y = particle.c'] + s.split('\n') + ['particle.a = x - y'])
    return out


HEADER = '"""generated by k03_gen.gen: do not edit"""\nimport math   # noqa\n\n\n'


def module(tier):
    """the generated kernels as an imported module (kernels need a source file)"""
    import importlib.util
    import os
    import sys
    name = 'k03_generated_' + tier
    if name in sys.modules:
        return sys.modules[name]
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence', 'generated')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + '.py')
    text = HEADER + ''.join(gen(tier).values())
    if not (os.path.exists(p) and open(p).read() == text):
        q = '%s.%d' % (p, os.getpid())
        with open(q, 'w') as f:
            f.write(text)
        os.replace(q, p)
    spec = importlib.util.spec_from_file_location(name, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m
