"""The C library of the current tree, compiled into a scratch directory and called through ctypes with the
argument conventions of c_code.pyf.  Arrays are followed by a guard zone whose content is checked."""
import os
import atexit
import shutil
import subprocess
import tempfile
import ctypes as ct
import numpy as np

REPO = os.environ.get('VF_REPO', '/repo')
GUARD = 64
_lib = None


def lib():
    global _lib
    if _lib is None:
        d = tempfile.mkdtemp(prefix='vf_clib_')
        atexit.register(shutil.rmtree, d, True)
        so = os.path.join(d, 'c_functions.so')
        subprocess.run(['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', so,
                        os.path.join(REPO, 'source/c_library/c_functions.c'), '-lm'], check=True, capture_output=True)
        _lib = ct.CDLL(so)
    return _lib


class OutOfBounds(Exception):
    pass


class Buf(object):
    """array with guard zones on both sides; poison is what a stray read would see"""

    def __init__(self, a, dtype, poison=None):
        a = np.ascontiguousarray(a, dtype).ravel()
        self.n = a.size
        self.full = np.empty(self.n + 2 * GUARD, dtype)
        self.poison = poison if poison is not None else (1.25e77 if dtype == np.float64 else 1234567)
        self.full[:] = self.poison
        self.full[GUARD:GUARD + self.n] = a
        self.view = self.full[GUARD:GUARD + self.n]
        self.ptr = ct.c_void_p(self.full.ctypes.data + GUARD * self.full.itemsize)

    def check(self, what):
        if np.any(self.full[:GUARD] != self.poison) or np.any(self.full[GUARD + self.n:] != self.poison):
            raise OutOfBounds('%s written outside its %d elements' % (what, self.n))


F, I = np.float64, np.intc


def _zi(n):
    return np.full(n, -777, I)


def findcross(y, v, poison=None):
    y = Buf(y, F, poison)
    ind, info = Buf(_zi(y.n), I), Buf(_zi(1), I)
    lib().findcross(y.ptr, ct.c_double(v), ind.ptr, ct.c_int(y.n), info.ptr)
    for b, w in ((y, 'y'), (ind, 'ind'), (info, 'info')):
        b.check(w)
    return ind.view.copy(), int(info.view[0])


def findrfc(y, h, poison=None):
    y = Buf(y, F, poison)
    ind, info = Buf(_zi(y.n), I), Buf(_zi(1), I)
    lib().findrfc(y.ptr, ct.c_double(h), ind.ptr, ct.c_int(y.n), info.ptr)
    for b, w in ((y, 'y'), (ind, 'ind'), (info, 'info')):
        b.check(w)
    return ind.view.copy(), int(info.view[0])


def findrfc3_astm(x, poison=None):
    x = Buf(x, F, poison)
    out, nout = Buf(np.zeros(3 * x.n), F), Buf(_zi(2), I)
    lib().findrfc3_astm(x.ptr, out.ptr, ct.c_int(x.n), nout.ptr)
    for b, w in ((x, 'array_ext'), (out, 'array_out'), (nout, 'nout')):
        b.check(w)
    return out.view.reshape(-1, 3).copy(), nout.view.copy()


def findrfc5_astm(x, t, poison=None):
    x, t = Buf(x, F, poison), Buf(t, F, poison)
    out, nout = Buf(np.zeros(5 * x.n), F), Buf(_zi(2), I)
    lib().findrfc5_astm(x.ptr, t.ptr, out.ptr, ct.c_int(x.n), nout.ptr)
    for b, w in ((x, 'array_ext'), (t, 'array_t'), (out, 'array_out'), (nout, 'nout')):
        b.check(w)
    return out.view.reshape(-1, 5).copy(), nout.view.copy()


def disufq(rA, iA, w, kw, h, g, nmin, nmax, m, n):
    b = [Buf(np.zeros(n * m), F), Buf(np.zeros(n * m), F)] + [Buf(q, F) for q in (rA, iA, w, kw)]
    lib().disufq(*[x.ptr for x in b], ct.c_double(h), ct.c_double(g), *[ct.c_int(int(q)) for q in (nmin, nmax, m, n)])
    for x in b:
        x.check('disufq array')
    return b[0].view.copy(), b[1].view.copy()


def disufq2(rA, iA, w, kw, h, g, nmin, nmax, m, n):
    b = [Buf(np.zeros(n * m), F) for _ in range(4)] + [Buf(q, F) for q in (rA, iA, w, kw)]
    lib().disufq2(*[x.ptr for x in b], ct.c_double(h), ct.c_double(g), *[ct.c_int(int(q)) for q in (nmin, nmax, m, n)])
    for x in b:
        x.check('disufq2 array')
    return tuple(x.view.copy() for x in b[:4])
