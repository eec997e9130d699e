"""A stand-in for cupy: arrays are numpy arrays and raw kernels are compiled
for the CPU with the CUDA emulation in gpu/cupy/carray.cuh."""
import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile
import types

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = [0]
ERRORS = []
LAUNCHES = []
DIR = None


class CompileException(Exception):
    pass


class Arg(ctypes.Structure):
    _fields_ = [("data", ctypes.c_void_p), ("ndim", ctypes.c_int64),
                ("itemsize", ctypes.c_int64), ("shape", ctypes.c_int64*8),
                ("strides", ctypes.c_int64*8), ("value", ctypes.c_int64)]


def _compile(code, name):
    global DIR
    if DIR is None:
        DIR = os.environ.get("VF_GPU_DIR") or tempfile.mkdtemp(prefix="vf-gpu-")
    os.makedirs(DIR, exist_ok=True)
    key = hashlib.sha1((name + code).encode()).hexdigest()[:20]
    lib = os.path.join(DIR, key + ".so")
    if not os.path.exists(lib):
        src = os.path.join(DIR, "%s-%d.cc" % (key, os.getpid()))
        tmp = src + ".so"
        with open(src, "w") as f:
            f.write(code + "\nEMU_ENTRY(%s)\n" % name)
        p = subprocess.run(["g++", "-std=c++17", "-O0", "-w", "-fPIC",
                            "-shared", "-fno-strict-aliasing",
                            "-I", os.path.join(HERE, "gpu"), src, "-o", tmp],
                           stdin=subprocess.DEVNULL, capture_output=True,
                           text=True)
        os.unlink(src)
        if p.returncode:
            raise CompileException(p.stderr[-1500:])
        os.replace(tmp, lib)
    return ctypes.CDLL(lib)


class RawKernel:
    def __init__(self, code, name, options=(), backend="nvrtc", **kw):
        self.code = code.decode() if isinstance(code, bytes) else code
        self.name = name
        self.lib = None

    def __call__(self, grid, block, args, **kw):
        if self.lib is None:
            self.lib = _compile(self.code, self.name)
        n = len(args)
        pack = (Arg*max(n, 1))()
        for p, a in zip(pack, args):
            if isinstance(a, np.ndarray):
                p.data = a.ctypes.data or 1
                p.ndim, p.itemsize = a.ndim, a.itemsize
                for i in range(a.ndim):
                    p.shape[i], p.strides[i] = a.shape[i], a.strides[i]
            else:
                p.data, p.value = None, int(a)
        g, b = ((ctypes.c_uint*3)(*(tuple(int(v) for v in x) +
                                    (1, 1, 1))[:3]) for x in (grid, block))
        msg = ctypes.create_string_buffer(2000)
        LAUNCHES.append((tuple(g), tuple(b)))
        self.lib.emu_launch(g, b, n, pack, ctypes.c_uint64(SEED[0]), msg,
                            2000)
        ERRORS.extend(x for x in msg.value.decode().split(";") if x)


def get_typename(dtype):
    return {"float32": "float", "float64": "double", "int32": "int",
            "int64": "long long", "complex64": "complex<float>",
            "complex128": "complex<double>"}[np.dtype(dtype).name]


GUARD = 1 << 16
_bufs = []


def empty(shape, dtype=float, order="C"):
    """Uninitialised memory (garbage) between two guard zones."""
    n = int(np.prod(shape, dtype=np.int64))*np.dtype(dtype).itemsize
    buf = np.empty(n + 2*GUARD, np.uint8)
    buf[:] = 0xa5
    buf[GUARD:GUARD + n] = 0xff
    _bufs.append((buf, n))
    return buf[GUARD:GUARD + n].view(dtype).reshape(shape, order=order)


def check_guards():
    for buf, n in _bufs:
        if (buf[:GUARD] != 0xa5).any() or (buf[GUARD + n:] != 0xa5).any():
            ERRORS.append("write outside an array")
    del _bufs[:]


def install():
    if "cupy" in sys.modules:
        return sys.modules["cupy"]
    cp = types.ModuleType("cupy")
    core, scalar = types.ModuleType("cupy.core"), \
        types.ModuleType("cupy.core._scalar")
    cuda, comp = types.ModuleType("cupy.cuda"), \
        types.ModuleType("cupy.cuda.compiler")
    for k in dir(np):
        if not k.startswith("_"):
            setattr(cp, k, getattr(np, k))
    cp.empty, cp.RawKernel = empty, RawKernel
    cp.asnumpy = np.asarray
    scalar.get_typename = get_typename
    comp.CompileException = CompileException
    cp.core, core._scalar, cp.cuda, cuda.compiler = core, scalar, cuda, comp
    sys.modules.update({"cupy": cp, "cupy.core": core,
                        "cupy.core._scalar": scalar, "cupy.cuda": cuda,
                        "cupy.cuda.compiler": comp})
    return cp
