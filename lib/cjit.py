"""Glue between the real parcels JIT machinery and the LLVM-IR executor.

`capture(kernel, pset, endtime, dt)` runs the real Kernel.execute_jit with the compiled C function
replaced by a recorder: parcels itself generates the C code, loads/contiguous-copies the chunks and
packs the ctypes structures, and we take the arguments it would have passed to C.  The IR of the
generated code is then executed symbolically on those very structures (memory snapshot) with
symbolic values overlaid on chosen array elements."""
import ctypes
import hashlib

import numpy as np

from . import llvmsym
from .llvmsym import Exec, Memory, Module, compile_ir
from .sym import Sym, EngineError

_mod_cache = {}


def ir_module(ccode, defines=('DOUBLE_COORD_VARIABLES',)):
    from parcels.tools.global_statics import get_package_dir
    import os
    key = hashlib.md5((ccode + repr(defines)).encode()).hexdigest()
    m = _mod_cache.get(key)
    if m is None:
        inc = os.path.join(get_package_dir(), 'include')
        m = Module(compile_ir(ccode, [inc, '.'], defines))
        _mod_cache[key] = m
    return m


def np_bytes(a):
    """(address, bytes) spanned by a numpy array"""
    lo, hi = np.byte_bounds(a) if hasattr(np, 'byte_bounds') else (a.ctypes.data, a.ctypes.data + a.nbytes)
    return lo, ctypes.string_at(lo, hi - lo)


def collect(mem, roots):
    """register every numpy array / ctypes object reachable from roots as a memory object"""
    seen = set()
    keep = []
    stack = [(r, n) for n, r in roots]
    while stack:
        o, name = stack.pop()
        if o is None or isinstance(o, (str, bytes, int, float, bool, type, Sym)) or callable(o) and not hasattr(o, '_fields_'):
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, np.ndarray):
            if o.dtype != object and o.nbytes:
                lo, b = np_bytes(o)
                mem.add_ext(lo, b, name)
            continue
        if isinstance(o, (ctypes.Structure, ctypes.Array, ctypes._SimpleCData, ctypes._Pointer)):
            mem.add_ext(ctypes.addressof(o), ctypes.string_at(ctypes.addressof(o), ctypes.sizeof(o)), name)
            if o._objects is not None:
                stack.append((o._objects, name))
            if isinstance(o, ctypes._Pointer):
                if hasattr(o, '_arr'):
                    stack.append((o._arr, name))
                if issubclass(o._type_, ctypes.Structure):
                    try:
                        stack.append((o.contents, name + '*'))
                    except ValueError:
                        pass
            if isinstance(o, ctypes.Structure):
                for f in o._fields_:
                    v = getattr(o, f[0])
                    if isinstance(v, (ctypes.Structure, ctypes.Array, ctypes._Pointer)):
                        stack.append((v, '%s.%s' % (name, f[0])))
            if isinstance(o, ctypes.Array) and isinstance(o[0] if len(o) else None, (ctypes._Pointer, ctypes.Structure)):
                for i in range(len(o)):
                    stack.append((o[i], '%s[%d]' % (name, i)))
            continue
        if isinstance(o, dict):
            for k, v in o.items():
                stack.append((v, '%s.%s' % (name, k)))
            continue
        if isinstance(o, (list, tuple, set)):
            for i, v in enumerate(o):
                stack.append((v, '%s[%d]' % (name, i)))
            continue
        if type(o).__module__.startswith('parcels'):
            d = getattr(o, '__dict__', None)
            if d:
                for k, v in d.items():
                    stack.append((v, '%s.%s' % (name, k)))
    return keep


class Captured:
    def __init__(self, kernel, pset, args, defines):
        self.kernel, self.pset = kernel, pset
        self.args = args
        self.module = ir_module(kernel.ccode, defines)
        self.mem = Memory()
        cargs = []
        roots = [('fieldset', pset.fieldset), ('pset', pset.collection)]
        for i, a in enumerate(args):
            if hasattr(a, '_obj'):
                cargs.append(('ptr', ctypes.addressof(a._obj)))
                roots.append(('arg%d' % i, a._obj))
            elif isinstance(a, ctypes._SimpleCData):
                v = a.value
                cargs.append(llvmsym.Fraction(v) if isinstance(v, float) else v)
            else:
                raise EngineError('argument %r' % (a,))
        # byref() objects inside
        self.keep = collect(self.mem, roots)
        self.cargs = [self.mem.to_virtual(a[1]) if isinstance(a, tuple) else a for a in cargs]

    def run(self, overlay, overrides=None, hooks=None, max_steps=400000):
        """execute particle_loop; returns Exec (inspect .ms).  overlay: {addr: (value,size)}"""
        args = list(self.cargs)
        for i, v in (overrides or {}).items():
            args[i] = v
        ex = Exec(self.module, self.mem, max_steps=max_steps, hooks=hooks)
        ex.start(overlay)
        ex.call('@particle_loop', args)
        return ex


def capture(kernel, pset, endtime, dt, defines=('DOUBLE_COORD_VARIABLES',)):
    rec = []

    def recorder(*args):
        rec.append(args)
    kernel._function = recorder
    kernel.execute_jit(pset, endtime, dt)
    if not rec:
        raise EngineError('execute_jit did not call the C function')
    return Captured(kernel, pset, rec[0], defines)


_CT = {np.dtype('float32'): llvmsym.F32, np.dtype('float64'): llvmsym.F64, np.dtype('int32'): llvmsym.I32, np.dtype('int64'): llvmsym.I64}


def overlay_array(overlay, arr, values):
    """plant values (same shape, Sym/numbers/None=keep) over the numpy array's memory"""
    it = np.asarray(values, dtype=object)
    base = arr.ctypes.data
    size = arr.dtype.itemsize
    for ix in np.ndindex(*arr.shape):
        v = it[ix] if it.shape == arr.shape else it[()]
        if v is None:
            continue
        off = sum(i * s for i, s in zip(ix, arr.strides))
        overlay[base + off] = (v, size)


def read_array(ex, arr):
    out = np.empty(arr.shape, dtype=object)
    ty = _CT[arr.dtype]
    for ix in np.ndindex(*arr.shape):
        off = sum(i * s for i, s in zip(ix, arr.strides))
        out[ix] = ex.ms.load(ex.mem.to_virtual(arr.ctypes.data + off), ty)
    return out
