"""Symbolic executor for LLVM IR (textual, clang 18, opaque pointers).

The generated kernel C code plus parcels' C headers are compiled by clang to IR on every run and
interpreted here on z3-backed scalars.  Floating point is modelled as exact real arithmetic
(plus IEEE inf/nan produced by division by zero / sqrt of negatives), integers as mathematical
integers (concrete ones wrap to their width).  Every memory access is checked against the set of
live objects; pointers are concrete, symbolic offsets are enumerated by forking.
"""
import bisect
import ctypes
import math
import os
import re
import struct
import subprocess
import tempfile
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import Sym, EngineError, is_special, sdiv, ssqrt, sfloor, strunc, uf, spow, NAN, INF


class MemFault(Exception):
    pass


class StepLimit(Exception):
    """the C code ran longer than the instruction budget on one path (candidate non-termination)"""


def compile_ir(ccode, includes, defines=(), std='-std=gnu11'):
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, 'k.c')
        open(src, 'w').write(ccode)
        ll = os.path.join(d, 'k.ll')
        cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-w', '-S', '-emit-llvm', std]
        cmd += ['-I' + i for i in includes] + ['-D' + x for x in defines] + [src, '-o', ll]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise EngineError('clang failed: ' + r.stderr[:2000])
        r = subprocess.run(['opt', '-S', '-passes=mem2reg', ll, '-o', ll + '2'], capture_output=True, text=True)
        if r.returncode:
            raise EngineError('opt failed: ' + r.stderr[:2000])
        return open(ll + '2').read()


# --------------------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'size', 'align', 'w', 'elts', 'offs', 'n')

    def __init__(self, k, size, align, w=0, elts=None, offs=None, n=0):
        self.k, self.size, self.align, self.w, self.elts, self.offs, self.n = k, size, align, w, elts, offs, n


I1, I8, I16, I32, I64 = (Ty('i', 1, 1, 1), Ty('i', 1, 1, 8), Ty('i', 2, 2, 16), Ty('i', 4, 4, 32), Ty('i', 8, 8, 64))
F32, F64, PTR, VOID = Ty('f', 4, 4, 32), Ty('f', 8, 8, 64), Ty('p', 8, 8, 64), Ty('v', 0, 1)
BASE = {'i1': I1, 'i8': I8, 'i16': I16, 'i32': I32, 'i64': I64, 'float': F32, 'double': F64, 'ptr': PTR, 'void': VOID}

TOK = re.compile(r'\s*(?:(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*")|([%@][-A-Za-z$._0-9]+|[%@]"[^"]*")|(0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|([A-Za-z_][-A-Za-z0-9_.]*)|(\.\.\.|[\[\]{}()<>,=*:!#]))')


def tokenize(s):
    out = []
    i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].strip().startswith(';'):
                break
            if s[i:].lstrip().startswith('"'):
                mm = re.match(r'\s*"[^"]*"', s[i:])
                out.append(mm.group().strip())
                i += mm.end()
                continue
            raise EngineError('tokenize: %r' % s[i:i + 60])
        out.append(m.group().strip())
        i = m.end()
    return out


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, *v):
        if self.peek() in v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        n = self.next()
        if n != v:
            raise EngineError('expected %s got %s in %s' % (v, n, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t in BASE:
            ty = BASE[t]
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = Ty('a', n * e.size, e.align, elts=e, n=n)
        elif t == '{':
            el = []
            if not self.accept('}'):
                while True:
                    el.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            ty = mkstruct(el)
        elif t.startswith('%'):
            ty = self.mod.types[t]
        elif t == '...':
            ty = VOID
        elif t == 'metadata':
            ty = VOID
        else:
            raise EngineError('type %s' % t)
        # function type: T (args)
        if self.peek() == '(' and ty.k != 'x':
            depth = 0
            save = self.i
            # only skip when used as a callee function type e.g. "i32 (ptr, ...) @printf"
            j = self.i
            while True:
                c = self.t[j]
                if c == '(':
                    depth += 1
                elif c == ')':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            self.i = j + 1
        return ty

    def attrs(self):
        while True:
            p = self.peek()
            if p in ('noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg',
                     'returned', 'inreg', 'fastcc', 'nsw', 'nuw', 'exact', 'inbounds', 'tail', 'fast', 'nnan', 'ninf', 'nsz',
                     'arcp', 'contract', 'reassoc', 'afn', 'volatile', 'disjoint', 'nneg'):
                self.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'memory'):
                self.i += 1
                if p == 'align':
                    self.i += 1
                else:
                    d = 0
                    while True:
                        c = self.next()
                        d += c == '('
                        d -= c == ')'
                        if d == 0:
                            break
            else:
                return

    def value(self, ty):
        """-> ('r',name) | ('c',value)"""
        t = self.next()
        if t.startswith('%'):
            return ('r', t)
        if t.startswith('@'):
            return ('g', t)
        if t == 'true':
            return ('c', True)
        if t == 'false':
            return ('c', False)
        if t == 'null':
            return ('c', 0)
        if t in ('undef', 'poison'):
            return ('u', ty)
        if t == 'zeroinitializer':
            return ('z', ty)
        if t.startswith('0x') and ty.k == 'f':
            v = struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0]
            return ('c', Fraction(v) if math.isfinite(v) else v)
        if ty.k == 'f':
            return ('c', Fraction(float(t)))
        if t in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast'):
            if t == 'getelementptr':
                self.attrs()
                self.expect('(')
                sty = self.type()
                self.expect(',')
                pty = self.type()
                base = self.value(pty)
                idx = []
                while self.accept(','):
                    ity = self.type()
                    idx.append(self.value(ity))
                self.expect(')')
                return ('gep', sty, base, idx)
            self.expect('(')
            a = self.type()
            v = self.value(a)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        try:
            v = int(t)
        except ValueError:
            raise EngineError('value %s in %s' % (t, ' '.join(self.t)))
        if ty.w == 1:
            return ('c', bool(v))
        return ('c', v)

    def const(self, ty):
        """global initialiser -> list of (off, ty, val)"""
        t = self.peek()
        if t == 'zeroinitializer':
            self.next()
            return [(0, ty, ('z', ty))]
        if t and t.startswith('c"'):
            self.next()
            raw = t[2:-1]
            bs = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), raw)
            return [(i, I8, ('c', ord(c))) for i, c in enumerate(bs)]
        if t == '[' and ty.k == 'a' or t == '{' and ty.k == 's':
            close = ']' if t == '[' else '}'
            self.next()
            out = []
            i = 0
            while not self.accept(close):
                ety = self.type()
                off = i * ety.size if ty.k == 'a' else ty.offs[i]
                for (o, tt, v) in self.const(ety):
                    out.append((off + o, tt, v))
                i += 1
                self.accept(',')
            return out
        return [(0, ty, self.value(ty))]


def mkstruct(el):
    off = 0
    offs = []
    al = 1
    for e in el:
        off = (off + e.align - 1) // e.align * e.align
        offs.append(off)
        off += e.size
        al = max(al, e.align)
    size = (off + al - 1) // al * al
    return Ty('s', size, al, elts=el, offs=offs)


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.blocks = {}
        self.entry = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        pend = []
        for ln in lines:
            m = re.match(r'^(%[-A-Za-z$._0-9]+) = type (.*)$', ln)
            if m:
                pend.append((m.group(1), m.group(2)))
        # resolve struct types (may refer to each other in any order)
        todo = pend
        while todo:
            rest = []
            for n, b in todo:
                if b.strip() == 'opaque':
                    self.types[n] = mkstruct([])
                    continue
                try:
                    self.types[n] = P(tokenize(b), self).type()
                except KeyError:
                    rest.append((n, b))
            if len(rest) == len(todo):
                raise EngineError('struct types')
            todo = rest
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('@'):
                m = re.match(r'^(@[-A-Za-z$._0-9]+) = (.*)$', ln)
                name, body = m.group(1), m.group(2)
                toks = tokenize(body)
                p = P(toks, self)
                ext = False
                while p.peek() not in ('global', 'constant'):
                    if p.peek() == 'external':
                        ext = True
                    p.next()
                p.next()
                ty = p.type()
                init = [] if ext else p.const(ty)
                self.globals[name] = (ty, init)
            elif ln.startswith('define'):
                i = self._func(lines, i)
            i += 1

    def _func(self, lines, i):
        head = lines[i]
        m = re.search(r'(@[-A-Za-z$._0-9]+)\(', head)
        name = m.group(1)
        pre = tokenize(head[len('define'):m.start()])
        p = P(pre, self)
        ret = VOID
        for j, t in enumerate(pre):
            if t in BASE or t.startswith('%') or t in '[{':
                p.i = j
                ret = p.type()
                break
        depth = 0
        k = m.end() - 1
        for e in range(k, len(head)):
            depth += head[e] == '('
            depth -= head[e] == ')'
            if depth == 0:
                break
        params = []
        p = P(tokenize(head[k + 1:e]), self)
        while p.peek():
            ty = p.type()
            p.attrs()
            if p.peek() and p.peek().startswith('%'):
                params.append((p.next(), ty))
            p.accept(',')
        f = Func(name, params, ret)
        cur = None
        i += 1
        first = True
        while lines[i] != '}':
            ln = lines[i]
            m = re.match(r'^([-A-Za-z$._0-9]+):', ln)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                if first:
                    f.entry = cur
                    first = False
            elif ln.strip() == '' or ln.strip().startswith(';'):
                pass
            else:
                if first:
                    # implicit entry label = number of params
                    cur = '%' + str(len(params))
                    f.entry = cur
                    f.blocks[cur] = []
                    first = False
                s = ln.strip()
                if s.startswith('switch'):
                    while not s.rstrip().endswith(']'):
                        i += 1
                        s += ' ' + lines[i].strip()
                s = re.sub(r', ![a-z.]+ !\d+', '', s)
                s = re.sub(r' #\d+', '', s)
                f.blocks[cur].append(self._instr(s))
            i += 1
        self.funcs[name] = f
        return i

    def _instr(self, s):
        toks = tokenize(s)
        p = P(toks, self)
        dst = None
        if len(toks) > 1 and toks[1] == '=':
            dst = p.next()
            p.next()
        p.attrs()
        op = p.next()
        p.attrs()
        if op in ('tail', 'notail', 'musttail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return ('bin', dst, op, ty, a, b)
        if op == 'fneg':
            ty = p.type()
            return ('fneg', dst, p.value(ty))
        if op in ('icmp', 'fcmp'):
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            b = p.value(ty)
            return (op, dst, pred, ty, a, b)
        if op in ('sext', 'zext', 'trunc', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr'):
            ty = p.type()
            v = p.value(ty)
            p.expect('to')
            ty2 = p.type()
            return ('cast', dst, op, ty, v, ty2)
        if op == 'load':
            ty = p.type()
            p.expect(',')
            p.type()
            return ('load', dst, ty, p.value(PTR))
        if op == 'store':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.type()
            return ('store', None, ty, v, p.value(PTR))
        if op == 'alloca':
            ty = p.type()
            n = ('c', 1)
            if p.accept(',') and p.peek() != 'align':
                ity = p.type()
                n = p.value(ity)
            return ('alloca', dst, ty, n)
        if op == 'getelementptr':
            ty = p.type()
            p.expect(',')
            p.type()
            b = p.value(PTR)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append(p.value(it))
            return ('gep', dst, ty, b, idx)
        if op == 'br':
            if p.accept('label'):
                return ('jmp', None, p.next())
            ty = p.type()
            c = p.value(ty)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            return ('br', None, c, a, p.next())
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t2 = p.type()
                cv = p.value(t2)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()))
            return ('switch', None, v, d, cases)
        if op == 'phi':
            ty = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(ty)
                p.expect(',')
                inc[p.next()] = v
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, inc)
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            ty = p.type()
            a = p.value(ty)
            p.expect(',')
            p.type()
            b = p.value(ty)
            return ('select', dst, c, a, b)
        if op == 'call':
            p.attrs()
            ty = p.type()
            callee = p.next()
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                p.attrs()
                if at is VOID:
                    # metadata operand
                    while p.peek() not in (',', ')'):
                        p.next()
                else:
                    args.append((at, p.value(at)))
                p.accept(',')
            return ('call', dst, ty, callee, args)
        if op == 'ret':
            ty = p.type()
            if ty is VOID:
                return ('ret', None, None)
            return ('ret', None, p.value(ty))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'freeze':
            ty = p.type()
            return ('mov', dst, p.value(ty))
        raise EngineError('instr %s' % s)


# --------------------------------------------------------------------------- memory
class Region:
    __slots__ = ('start', 'end', 'data', 'name', 'real')

    def __init__(self, start, data, size, name, real=None):
        self.start, self.end, self.data, self.name, self.real = start, start + size, data, name, real


class Memory:
    """external regions are snapshots of real process memory, rebased to disjoint virtual addresses
    (1 TB apart, so that an out-of-bounds access can never land in a neighbouring object);
    symbolic content lives in the overlay"""
    STACK = 1 << 62
    VBASE = 1 << 56
    GAP = 1 << 40

    def __init__(self):
        self.objs = {}      # real start -> [size, bytes, name]
        self.ext = None

    def add_ext(self, start, data, name):
        if len(data) == 0:
            return
        o = self.objs.get(start)
        if o is None or len(o[0]) < len(data):
            self.objs[start] = (data, name)
        self.ext = None

    def freeze(self):
        if self.ext is not None:
            return
        items = sorted(self.objs.items(), key=lambda kv: (kv[0], -len(kv[1][0])))
        keep = []
        for st, (data, name) in items:
            if keep and st + len(data) <= keep[-1][0] + len(keep[-1][1]):
                continue
            keep.append((st, data, name))
        self.ext = [Region(self.VBASE + i * self.GAP, d, len(d), n, st) for i, (st, d, n) in enumerate(keep)]
        self.starts = [r.start for r in self.ext]
        self.reals = [r.real for r in self.ext]

    def to_virtual(self, addr):
        """real address -> virtual (one-past-the-end allowed); unknown non-null addresses stay unmapped"""
        if addr == 0:
            return 0
        self.freeze()
        i = bisect.bisect_right(self.reals, addr) - 1
        if i >= 0:
            r = self.ext[i]
            if addr < r.real + (r.end - r.start):
                return r.start + (addr - r.real)
        return (1 << 61) + (addr & 0xffffffffffff)


class MemState:
    def __init__(self, mem):
        self.mem = mem
        mem.freeze()
        self.over = {}      # addr -> (value, size)
        self.live = []      # own regions
        self.lstarts = []
        self.top = Memory.STACK
        self.maxov = 8

    def alloc(self, size, name):
        a = self.top + 64
        self.top = (a + size + 63) // 64 * 64
        self.live.append(Region(a, None, size, name))
        self.lstarts.append(a)
        return a

    def find(self, addr, size):
        if addr >= Memory.STACK:
            st, rs = self.lstarts, self.live
        else:
            st, rs = self.mem.starts, self.mem.ext
        i = bisect.bisect_right(st, addr) - 1
        # regions may nest (array inside struct): look back a few
        j = i
        while j >= 0 and j > i - 4:
            r = rs[j]
            if r.start <= addr and addr + size <= r.end:
                return r
            j -= 1
        return None

    def describe(self, addr):
        best = None
        for r in (self.live if addr >= Memory.STACK else self.mem.ext):
            if r.start <= addr <= r.end + 4096:
                best = r
        for r in self.mem.ext:
            if addr < r.start and r.start - addr < 4096 and best is None:
                best = r
        if best is None:
            return 'unmapped address'
        return '%s byte offset %d of %d' % (best.name, addr - best.start, best.end - best.start)

    def load(self, addr, ty):
        size = ty.size
        r = self.find(addr, size)
        if r is None:
            raise MemFault('read of %d bytes outside any object: %s' % (size, self.describe(addr)))
        o = self.over.get(addr)
        if o is not None:
            if o[1] == size:
                v = o[0]
                if ty.k == 'i' and ty.w == 1 and not isinstance(v, (bool, Sym)):
                    v = bool(v)
                return v
            if isinstance(o[0], int) and ty.k == 'i' and size < o[1]:
                return wrapw(o[0], ty.w)
            raise EngineError('mixed-size access (%d vs %d)' % (o[1], size))
        for d in range(1, self.maxov):
            o = self.over.get(addr - d)
            if o is not None and o[1] > d:
                raise EngineError('overlapping access')
        if r.data is None:
            # uninitialised stack memory: an arbitrary value
            return fresh_value(ty)
        raw = r.data[addr - r.start: addr - r.start + size]
        v = decode(raw, ty)
        if ty.k == 'p':
            return self.mem.to_virtual(v)
        return v

    def store(self, addr, v, ty):
        size = ty.size
        r = self.find(addr, size)
        if r is None:
            raise MemFault('write of %d bytes outside any object: %s' % (size, self.describe(addr)))
        self.over[addr] = (v, size)

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        rs, rd = self.find(src, n), self.find(dst, n)
        if rs is None or rd is None:
            raise MemFault('memcpy outside any object')
        i = 0
        ents = []
        while i < n:
            o = self.over.get(src + i)
            if o is not None:
                ents.append((i, o))
                i += o[1]
            else:
                if rs.data is not None:
                    b = rs.data[src + i - rs.start]
                    ents.append((i, ('raw', b)))
                i += 1
        for i, o in ents:
            if o[0] == 'raw':
                # coalesced lazily: store raw byte
                self.over[dst + i] = (o[1] if o[1] < 128 else o[1] - 256, 1)
            else:
                self.over[dst + i] = o

    def memset(self, dst, val, n):
        if n == 0:
            return
        r = self.find(dst, n)
        if r is None:
            raise MemFault('memset outside any object')
        for a in range(dst, dst + n):
            self.over.pop(a, None)
        if r not in self.live:
            raise EngineError('memset of external memory')
        if r.data is None:
            r.data = bytearray(r.end - r.start)
        else:
            r.data = bytearray(r.data)
        r.data[dst - r.start:dst - r.start + n] = bytes([val & 255]) * n


_dec = {}


def decode(raw, ty):
    if ty.k == 'f':
        key = (bytes(raw))
        v = _dec.get(key)
        if v is None:
            f = struct.unpack('<f' if ty.size == 4 else '<d', raw)[0]
            v = Fraction(f) if math.isfinite(f) else f
            _dec[key] = v
        return v
    if ty.k == 'p':
        return int.from_bytes(raw, 'little')
    v = int.from_bytes(raw, 'little', signed=True)
    if ty.w == 1:
        return bool(v & 1)
    return v


_fresh = [0]


def fresh_value(ty):
    sym.CTX._cnt += 1
    n = 'undef!%d' % sym.CTX._cnt
    sym.CTX.undef = getattr(sym.CTX, 'undef', 0) + 1
    if ty.k == 'f':
        return Sym(z3.Real(n), 'r')
    if ty.k == 'i':
        return Sym(z3.Int(n), 'i')
    return 0


def wrapw(v, w):
    if w == 1:
        return bool(v & 1)
    m = 1 << w
    v &= m - 1
    return v - m if v >> (w - 1) else v


def toint(v):
    if isinstance(v, bool):
        return -1 if v else 0
    return v


class Exec:
    def __init__(self, module, mem, max_steps=400000, hooks=None):
        self.mod = module
        self.mem = mem
        self.max_steps = max_steps
        self.hooks = hooks or {}

    def start(self, overlay=None):
        self.ms = MemState(self.mem)
        self.steps = 0
        self.gaddr = {}
        self.called = set()
        for n, (ty, init) in self.mod.globals.items():
            a = self.ms.alloc(ty.size, n)
            self.gaddr[n] = a
        for n, (ty, init) in self.mod.globals.items():
            a = self.gaddr[n]
            r = self.ms.live[self.ms.lstarts.index(a)]
            r.data = bytes(ty.size)
            for off, t, v in init:
                if v[0] == 'z':
                    continue
                if v[0] in ('g', 'gep'):
                    self.ms.over[a + off] = (self.val(v, {}), t.size)
                    continue
                self.ms.over[a + off] = (v[1], t.size)
        if overlay:
            for a, (v, s) in overlay.items():
                self.ms.over[self.mem.to_virtual(a)] = (v, s)
        return self

    def val(self, v, env):
        k = v[0]
        if k == 'r':
            return env[v[1]]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.gaddr[v[1]]
        if k == 'u':
            return fresh_value(v[1])
        if k == 'z':
            return Fraction(0) if v[1].k == 'f' else 0
        if k == 'gep':
            return self.gep(v[1], self.val(v[2], env), [self.val(x, env) for x in v[3]])
        raise EngineError('val %s' % (v,))

    @staticmethod
    def cint(v):
        if isinstance(v, Sym):
            return sym.CTX.concretize(v.asint())
        return int(v)

    def gep(self, ty, base, idx):
        addr = self.cint(base)
        addr += self.cint(idx[0]) * ty.size
        for i in idx[1:]:
            if ty.k == 'a':
                ty = ty.elts
                addr += self.cint(i) * ty.size
            elif ty.k == 's':
                j = self.cint(i)
                addr += ty.offs[j]
                ty = ty.elts[j]
            else:
                raise EngineError('gep into scalar')
        return addr

    def call(self, name, args):
        f = self.mod.funcs.get(name)
        if name in self.hooks:
            return self.hooks[name](self, *args)
        if f is None:
            return self.extern(name, args)
        self.called.add(name)
        env = {}
        for (pn, _), a in zip(f.params, args):
            env[pn] = a
        blk = f.entry
        prev = None
        blocks = f.blocks
        ms = self.ms
        mark = len(ms.live)
        marktop = ms.top
        val = self.val
        while True:
            code = blocks[blk]
            n = 0
            # phis evaluate simultaneously
            if code[0][0] == 'phi':
                new = []
                while code[n][0] == 'phi':
                    new.append((code[n][1], val(code[n][2][prev], env)))
                    n += 1
                for d, v in new:
                    env[d] = v
            jumped = False
            for ins in code[n:]:
                self.steps += 1
                op = ins[0]
                if op == 'load':
                    env[ins[1]] = ms.load(self.cint(val(ins[3], env)), ins[2])
                elif op == 'store':
                    ms.store(self.cint(val(ins[4], env)), val(ins[3], env), ins[2])
                elif op == 'gep':
                    env[ins[1]] = self.gep(ins[2], val(ins[3], env), [val(x, env) for x in ins[4]])
                elif op == 'bin':
                    env[ins[1]] = self.binop(ins[2], ins[3], val(ins[4], env), val(ins[5], env))
                elif op == 'cast':
                    env[ins[1]] = self.cast(ins[2], ins[3], val(ins[4], env), ins[5])
                elif op == 'icmp':
                    env[ins[1]] = self.icmp(ins[2], ins[3], val(ins[4], env), val(ins[5], env))
                elif op == 'fcmp':
                    env[ins[1]] = self.fcmp(ins[2], val(ins[4], env), val(ins[5], env))
                elif op == 'br':
                    c = val(ins[2], env)
                    if isinstance(c, Sym):
                        c = bool(c)
                    prev, blk = blk, (ins[3] if c else ins[4])
                    jumped = True
                    break
                elif op == 'jmp':
                    prev, blk = blk, ins[2]
                    jumped = True
                    break
                elif op == 'fneg':
                    v = val(ins[2], env)
                    env[ins[1]] = -v
                elif op == 'select':
                    c = val(ins[2], env)
                    env[ins[1]] = val(ins[3], env) if bool(c) else val(ins[4], env)
                elif op == 'call':
                    r = self.call(ins[3], [val(a, env) for _, a in ins[4]])
                    if ins[1] is not None:
                        env[ins[1]] = r
                elif op == 'ret':
                    r = val(ins[2], env) if ins[2] is not None else None
                    if len(ms.live) > mark:
                        for rg in ms.live[mark:]:
                            pass
                        del ms.live[mark:]
                        del ms.lstarts[mark:]
                        # stack addresses are never reused: dangling pointers fault
                    return r
                elif op == 'switch':
                    v = val(ins[2], env)
                    tgt = ins[3]
                    for cv, lab in ins[4]:
                        if bool(v == cv):
                            tgt = lab
                            break
                    prev, blk = blk, tgt
                    jumped = True
                    break
                elif op == 'alloca':
                    n_ = self.cint(val(ins[3], env))
                    env[ins[1]] = ms.alloc(ins[2].size * n_, '%s:%s' % (name, ins[1]))
                elif op == 'mov':
                    env[ins[1]] = val(ins[2], env)
                elif op == 'unreachable':
                    raise MemFault('unreachable executed in %s' % name)
                else:
                    raise EngineError('op %s' % op)
            if not jumped:
                raise EngineError('fell off block')
            if self.steps > self.max_steps:
                raise StepLimit('more than %d instructions on one path (last in %s)' % (self.max_steps, name))

    def binop(self, op, ty, a, b):
        if ty.k == 'f':
            if op == 'fadd':
                return fop('+', a, b)
            if op == 'fsub':
                return fop('-', a, b)
            if op == 'fmul':
                return fop('*', a, b)
            if op == 'fdiv':
                return sdiv(a, b)
            raise EngineError(op)
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if ty.w == 1:
                a, b = int(a), int(b)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op in ('sdiv', 'srem'):
                if b == 0:
                    raise MemFault('integer division by zero')
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                r = q if op == 'sdiv' else a - q * b
            elif op in ('udiv', 'urem'):
                m = (1 << ty.w) - 1
                a, b = a & m, b & m
                if b == 0:
                    raise MemFault('integer division by zero')
                r = a // b if op == 'udiv' else a % b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'ashr':
                r = a >> b
            elif op == 'lshr':
                r = (a & ((1 << ty.w) - 1)) >> b
            else:
                raise EngineError(op)
            return wrapw(r, ty.w)
        if ty.w == 1 or (isinstance(a, Sym) and a.k == 'b') and (not sb or b.k == 'b'):
            def tb(x):
                if isinstance(x, Sym):
                    return x.e if x.k == 'b' else x.e != 0
                return z3.BoolVal(bool(x))
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if f:
                return sym.wrap(z3.simplify(f(tb(a), tb(b))))
        if op in ('and', 'or', 'xor'):
            def isb(x):
                return isinstance(x, Sym) and (x.k == 'b' or z3.is_app_of(x.e, z3.Z3_OP_ITE)) or (not isinstance(x, Sym) and x in (0, 1))
            if isb(a) and isb(b):
                ca = (a != 0)
                cb = (b != 0)
                r = {'and': lambda: ca & cb if isinstance(ca, Sym) else cb & ca,
                     'or': lambda: ca | cb if isinstance(ca, Sym) else cb | ca,
                     'xor': lambda: ca ^ cb if isinstance(ca, Sym) else cb ^ ca}[op]()
                return Sym(r.asint()) if isinstance(r, Sym) else int(r)
            a, b = self.cint(a), self.cint(b)
            return self.binop(op, ty, a, b)
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op in ('sdiv', 'srem'):
            if bool(b == 0):
                raise MemFault('integer division by zero')
            # truncated division
            pa = a if bool(a >= 0) else -a
            na = not (pa is a)
            pb = b if bool(b >= 0) else -b
            nb = not (pb is b)
            q = sym._mk(sym.lift(pa) / sym.lift(pb))
            if na != nb:
                q = -q
            return q if op == 'sdiv' else a - q * b
        if op == 'shl' and not sb:
            return a * (1 << b)
        return self.binop(op, ty, self.cint(a), self.cint(b))

    def cast(self, op, ty, v, ty2):
        if op in ('fptrunc', 'fpext', 'bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'fptrunc' and isinstance(v, Fraction) and getattr(self, 'round_const', False):
                return Fraction(float(np.float32(float(v))))
            return v
        if op == 'sext':
            if isinstance(v, bool):
                return -1 if v else 0
            if isinstance(v, Sym) and v.k == 'b':
                return Sym(z3.If(v.e, z3.IntVal(-1), z3.IntVal(0)))
            return v
        if op == 'zext':
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Sym):
                if v.k == 'b':
                    return Sym(v.asint())
                if ty.w <= 8:
                    return v
                return v if bool(v >= 0) else v + (1 << ty.w)
            return v & ((1 << ty.w) - 1)
        if op == 'trunc':
            if isinstance(v, Sym):
                if ty2.w == 1:
                    return v != 0
                return v
            return wrapw(int(v), ty2.w)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, Sym):
                return Sym(v.real(), 'r')
            if op == 'uitofp':
                v = int(v) & ((1 << ty.w) - 1)
            return Fraction(int(v))
        if op in ('fptosi', 'fptoui'):
            if is_special(v):
                return -(1 << (ty2.w - 1))
            r = strunc(v) if isinstance(v, Sym) else math.trunc(v)
            if not isinstance(r, Sym):
                if not -(1 << (ty2.w - 1)) <= r < (1 << (ty2.w - 1)):
                    return -(1 << (ty2.w - 1))
            return r
        raise EngineError(op)

    def icmp(self, pred, ty, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if ty.w == 1:
                a = Sym(a.asint()) if isinstance(a, Sym) else int(a)
                b = Sym(b.asint()) if isinstance(b, Sym) else int(b)
        else:
            if pred[0] == 'u':
                m = (1 << ty.w) - 1
                a, b = int(a) & m, int(b) & m
            elif ty.w == 1:
                a, b = int(a), int(b)
        o = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
        if isinstance(a, Sym) or isinstance(b, Sym):
            return sym._cmp(o, a, b)
        return sym._OPS[o](a, b)

    def fcmp(self, pred, a, b):
        nan = (is_special(a) and math.isnan(a)) or (is_special(b) and math.isnan(b))
        if pred == 'ord':
            return not nan
        if pred == 'uno':
            return nan
        if nan:
            return pred[0] == 'u'
        o = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        if isinstance(a, Sym) or isinstance(b, Sym):
            if is_special(a) or is_special(b):
                fa = a if is_special(a) else 0.
                fb = b if is_special(b) else 0.
                return sym._OPS[o](fa, fb)
            return sym._cmp(o, a, b)
        return sym._OPS[o](a, b)

    def extern(self, name, args):
        n = name[1:]
        m = re.match(r'llvm\.(\w+)\.', n)
        if n.startswith('llvm.'):
            base = n.split('.')[1]
            if base == 'memcpy' or base == 'memmove':
                self.ms.memcpy(self.cint(args[0]), self.cint(args[1]), self.cint(args[2]))
                return None
            if base == 'memset':
                self.ms.memset(self.cint(args[0]), self.cint(args[1]), self.cint(args[2]))
                return None
            if base in ('stacksave',):
                return 0
            if base in ('stackrestore', 'lifetime', 'dbg', 'assume'):
                return None
            n = {'fabs': 'fabs', 'floor': 'floor', 'sqrt': 'sqrt', 'pow': 'pow', 'cos': 'cos', 'sin': 'sin', 'exp': 'exp',
                 'log': 'log', 'minnum': 'fmin', 'maxnum': 'fmax', 'ceil': 'ceil', 'trunc': 'trunc', 'fmuladd': 'fmuladd', 'abs': 'abs'}.get(base, n)
        if n in ('fabs', 'fabsf'):
            v = args[0]
            if is_special(v):
                return abs(v)
            return abs(v)
        if n in ('sqrt', 'sqrtf'):
            return ssqrt(args[0])
        if n in ('floor', 'floorf'):
            v = args[0]
            if is_special(v):
                return v
            r = sfloor(v)
            return Sym(r.real(), 'r') if isinstance(r, Sym) else Fraction(r)
        if n == 'ceil':
            r = sfloor(-args[0])
            return Sym((-r).real(), 'r') if isinstance(r, Sym) else Fraction(-r)
        if n in ('fmin', 'fminf', 'fmax', 'fmaxf'):
            a, b = args
            if is_special(a) and math.isnan(a):
                return b
            if is_special(b) and math.isnan(b):
                return a
            lt = self.fcmp('olt', a, b)
            if n.startswith('fmin'):
                return a if bool(lt) else b
            return b if bool(lt) else a
        if n in ('abs', 'labs', 'llabs'):
            return abs(args[0])
        if n in ('pow', 'powf'):
            e = args[1]
            if isinstance(e, Fraction) and e.denominator == 1:
                e = int(e)
            b = args[0]
            if not isinstance(b, Sym) and not isinstance(e, Sym):
                if isinstance(e, int) and not is_special(b):
                    return Fraction(b) ** e if not (b == 0 and e < 0) else INF
                return uf('pow', b, e)
            return spow(b, e)
        if n in ('cos', 'sin', 'tan', 'exp', 'log', 'atan', 'acos', 'asin', 'atan2', 'tanh', 'cosh', 'sinh', 'cosf', 'sinf', 'expf', 'logf'):
            return uf(n.rstrip('f') if n.endswith('f') else n, *args)
        if n == 'fmod':
            q = sdiv(args[0], args[1])
            t = strunc(q) if isinstance(q, Sym) else math.trunc(q)
            return args[0] - t * args[1]
        if n in ('printf', 'fprintf', 'puts', 'putchar', 'fflush'):
            return 0
        if n == 'exit':
            raise MemFault('exit() called')
        raise EngineError('external function %s' % n)


def fop(op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if is_special(a) or is_special(b):
            with np.errstate(all='ignore'):
                return float({'+': np.add, '-': np.subtract, '*': np.multiply}[op](float(a), float(b)))
        return a + b if op == '+' else (a - b if op == '-' else a * b)
    return a + b if op == '+' else (a - b if op == '-' else a * b)
