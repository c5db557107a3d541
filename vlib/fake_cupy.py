"""cupy for machines without a GPU: numpy arrays, and raw kernels compiled
with g++ against an execution model of thread blocks (``cuda/emu.h``).

Every launch is executed under several thread orders; results which depend on
the order are reported as a race.  Arguments live in buffers with guard
elements; empty arrays are poisoned."""
import atexit
import ctypes
import hashlib
import mmap
import os
import shutil
import subprocess
import sys
import tempfile
import types

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = tempfile.mkdtemp(prefix="cuemu-")
OWNER = os.getpid()
GUARD = 256
# (order, rotation): threads in order, in reverse, starting elsewhere; 2 and 3
# run each warp as far as it gets before the next one
ORDERS = [(0, 0), (1, 0), (0, 37), (1, 500), (2, 0), (3, 0)]
COUNT = {"launches": 0, "switches": 0, "schedules": 0}


@atexit.register
def clean():
    if os.getpid() == OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)


# the stacks of the threads of a block, shared by all kernels
STACKS = mmap.mmap(-1, 1024 * 48 * 1024,
                   flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
STACK_ADDR = ctypes.c_void_p(ctypes.addressof(
    ctypes.c_char.from_buffer(STACKS)))


class CompileException(Exception):
    pass


class KernelError(Exception):
    """ the kernel did something undefined """


def get_typename(dtype):
    return {"f4": "float", "f8": "double", "i4": "int", "i8": "long long",
            "u4": "unsigned int", "c8": "complex<float>",
            "c16": "complex<double>", "b1": "bool"}[np.dtype(dtype).str[1:]]


LIBS = {}
FLAGS = ["-std=c++17", "-O1", "-w", "-fPIC", "-fno-strict-aliasing"]


def gcc(*args):
    return subprocess.run(["g++"] + FLAGS + list(args),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def runtime():
    """ the scheduler and precompiled headers """
    shutil.copytree(os.path.join(HERE, "cuda"), os.path.join(SCRATCH, "inc"))
    inc = os.path.join(SCRATCH, "inc")
    so = os.path.join(inc, "libemu.so")
    for args in (["-shared", os.path.join(inc, "emu_rt.cpp"), "-o", so],
                 ["-x", "c++-header", os.path.join(inc, "emu.h"), "-o",
                  os.path.join(inc, "emu.h.gch")]):
        r = gcc(*args)
        if r.returncode != 0:
            raise RuntimeError(r.stdout)
    ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)


def build(code, name):
    if isinstance(code, bytes):
        code = code.decode()
    key = hashlib.sha1((code + name).encode()).hexdigest()
    if key not in LIBS:
        inc = os.path.join(SCRATCH, "inc")
        fd, src = tempfile.mkstemp(suffix=".cpp", dir=SCRATCH)
        so = src[:-3] + "so"
        with os.fdopen(fd, "w") as f:
            f.write(code + "\n#define EMU_KERNEL %s\n#include \"emu.inc\"\n"
                    % name)
        r = gcc("-shared", "-include", "emu.h", "-I", inc, src, "-o", so)
        os.unlink(src)
        if r.returncode != 0:
            raise CompileException("\n".join(
                x for x in r.stdout.splitlines() if "error" in x)[:600])
        LIBS[key] = ctypes.CDLL(so)
        os.unlink(so)
    return LIBS[key]


class Guarded(object):
    def __init__(self, a):
        self.a = a
        n = a.nbytes
        self.buf = np.full(n + 2 * GUARD + 16, 0xff, "u1")
        self.off = GUARD + (-(self.buf.ctypes.data + GUARD)) % 16
        self.buf[self.off:self.off + n] = np.frombuffer(
            a.tobytes(order="A") if a.flags.forc else
            np.ascontiguousarray(a).tobytes(), "u1")
        self.n = n
        strides = a.strides if a.flags.forc else \
            np.ascontiguousarray(a).strides
        self.view = np.ndarray(a.shape, a.dtype, self.buf, self.off, strides)
        fields = [("data", ctypes.c_void_p), ("size", ctypes.c_ssize_t),
                  ("shape", ctypes.c_ssize_t * max(a.ndim, 1)),
                  ("strides", ctypes.c_ssize_t * max(a.ndim, 1))]
        t = type("CArray", (ctypes.Structure,), {"_fields_": fields})
        self.c = t()
        self.c.data = self.buf.ctypes.data + self.off
        self.c.size = a.size
        for i in range(a.ndim):
            self.c.shape[i] = a.shape[i]
            self.c.strides[i] = strides[i]

    def intact(self):
        return (self.buf[:self.off] == 0xff).all() and \
            (self.buf[self.off + self.n:] == 0xff).all()


class RawKernel(object):
    def __init__(self, code, name):
        self.code = code.decode() if isinstance(code, bytes) else code
        self.name, self.lib = name, None

    def __call__(self, grid, block, args):
        if self.lib is None:
            self.lib = build(self.code, self.name)
            self.lib.emu_launch.restype = ctypes.c_char_p
        for g in tuple(grid) + tuple(block):
            if int(g) != g or g < 1:
                raise KernelError("invalid launch %s %s" % (grid, block))
        first = None
        for rev, rot in ORDERS:
            gs, ptrs, keep = [], [], []
            for a in args:
                if isinstance(a, np.ndarray):
                    g = Guarded(a)
                    gs.append(g)
                    ptrs.append(ctypes.cast(ctypes.pointer(g.c),
                                            ctypes.c_void_p))
                else:
                    v = ctypes.c_int64(int(a))
                    keep.append(v)
                    ptrs.append(ctypes.cast(ctypes.pointer(v),
                                            ctypes.c_void_p))
            arr = (ctypes.c_void_p * len(ptrs))(*[p.value for p in ptrs])
            n = ctypes.c_long()
            e = self.lib.emu_launch((ctypes.c_uint * 3)(*grid),
                                    (ctypes.c_uint * 3)(*block), arr, rev,
                                    rot, ctypes.byref(n), STACK_ADDR)
            COUNT["switches"] += n.value
            COUNT["schedules"] += 1
            if e:
                raise KernelError("%s: %s" % (self.name, e.decode()))
            for g in gs:
                if not g.intact():
                    raise KernelError("%s writes outside an array" %
                                      self.name)
            out = [g.buf[g.off:g.off + g.n].tobytes() for g in gs]
            if first is None:
                first = out
                res = gs
            elif first != out:
                raise KernelError("%s: the result depends on the order of "
                                  "the threads" % self.name)
        COUNT["launches"] += 1
        for g in res:
            if g.a.flags.writeable:
                if g.a.tobytes() != g.view.tobytes():
                    g.a[...] = g.view
            elif g.a.tobytes() != g.view.tobytes():
                raise KernelError("%s writes into an input" % self.name)


def poisoned(shape, dtype=float):
    a = np.empty(shape, dtype)
    a.view("u1").fill(0xff) if a.size and a.ndim else None
    return a


def install():
    runtime()
    m = types.ModuleType("cupy")
    for k in ("ndarray", "asarray", "array", "arange", "zeros", "ones",
              "result_type", "float32", "float64", "complex64",
              "complex128", "int32", "ascontiguousarray", "unique"):
        setattr(m, k, getattr(np, k))
    m.empty = poisoned
    m.empty_like = lambda a: poisoned(a.shape, a.dtype)
    m.asnumpy = np.asarray
    m.RawKernel = RawKernel
    core = types.ModuleType("cupy.core")
    scalar = types.ModuleType("cupy.core._scalar")
    scalar.get_typename = get_typename
    cuda = types.ModuleType("cupy.cuda")
    comp = types.ModuleType("cupy.cuda.compiler")
    comp.CompileException = CompileException
    m.core, core._scalar, m.cuda, cuda.compiler = core, scalar, cuda, comp
    for n, x in (("cupy", m), ("cupy.core", core),
                 ("cupy.core._scalar", scalar), ("cupy.cuda", cuda),
                 ("cupy.cuda.compiler", comp)):
        sys.modules[n] = x
    return m
