"""ctypes calls of /repo's Fortran kernels in a shared library, positional, by reference."""
import ctypes, os, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fbuild


class Kern:
    def __init__(self, outdir, dirs, flags="-O2 -DFFTW=1 -frecursive -finit-real=nan -finit-derived", **kw):
        self.path = fbuild.build_so(dirs, outdir, flags, **kw)
        self.l = ctypes.CDLL(self.path, mode=1 | 0x100)  # RTLD_LAZY | RTLD_GLOBAL
        self.n = 0

    def has(self, name):
        return hasattr(self.l, name)

    def __call__(self, name, *a):
        f = getattr(self.l, name if name.startswith("__") else name.lower() + "_")
        f.restype = None
        keep, args, hidden = [], [], []
        for v in a:
            if isinstance(v, np.ndarray):
                assert v.flags.f_contiguous
                args.append(v.ctypes.data_as(ctypes.c_void_p))
                keep.append(v)
                continue
            if isinstance(v, (bool, np.bool_)):
                v = ctypes.c_int64(1 if v else 0)
            elif isinstance(v, np.int32):
                v = ctypes.c_int32(int(v))
            elif isinstance(v, (int, np.int64)):
                v = ctypes.c_int64(int(v))
            elif isinstance(v, (float, np.float64)):
                v = ctypes.c_double(float(v))
            elif isinstance(v, bytes):
                hidden.append(ctypes.c_size_t(len(v)))
                v = ctypes.create_string_buffer(v)
            keep.append(v)
            args.append(ctypes.byref(v))
        self.n += 1
        f(*args, *hidden)

    def var(self, mod, name, ctype=ctypes.c_double):
        return ctype.in_dll(self.l, f"__{mod}_MOD_{name}")

    def setr(self, mod, name, v):
        self.var(mod, name).value = v

    def seti(self, mod, name, v):
        self.var(mod, name, ctypes.c_int64).value = v


def bspline(n, t):
    """centred cardinal B-spline of order n at distance t (in cells), for n = 0..3"""
    a = np.abs(t)
    if n == 0:
        return np.where(a < 0.5, 1.0, np.where(a == 0.5, 0.5, 0.0))
    if n == 1:
        return np.maximum(0.0, 1 - a)
    if n == 2:
        return np.where(a <= 0.5, 0.75 - a * a, np.where(a < 1.5, 0.5 * (1.5 - a) ** 2, 0.0))
    if n == 3:
        return np.where(a <= 1, 2 / 3. - a * a * (1 - a / 2), np.where(a < 2, (2 - a) ** 3 / 6., 0.0))
    raise ValueError(n)


def shape(n, x, lo, hi):
    """S[p,i] = weight of node i in lo..hi (inclusive) for a particle at x[p] (grid units)"""
    g = np.arange(lo, hi + 1)
    return bspline(n, np.asarray(x)[:, None] - g[None, :])
