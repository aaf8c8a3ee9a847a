"""Symbolic numpy: arrays are (shape, element function); shapes may be symbolic."""
import itertools
import math
from fractions import Fraction
import z3
from . import core
from .core import (S, C, Forall, Unsupported, lift, conc, ite, land, lor, lnot, implies, vdiv, vpow, vsqrt, fn1,
                   vmax, vmin, vabs, vsign, tobool, veq, kind_of, is_inf, is_nan)


# ------------------------------------------------------------------ dtypes
class Dtype(object):
    def __init__(self, name, k):
        self.name, self.k = name, k
        self.kind = {'i': 'i', 'r': 'f', 'b': 'b', 'c': 'c', 'o': 'O'}[k]
        self.char = {'i': 'l', 'r': 'd', 'b': '?', 'c': 'D', 'o': 'O'}[k]

    def __call__(self, x=0, *a, **kw):
        if isinstance(x, (SArr, list, tuple)):
            return asarray(x).astype(self)
        return cast_scalar(x, self.k)

    def __eq__(self, o):
        try:
            return self.k == kind_from_dtype(o)
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    @property
    def type(self):
        return self

    def __repr__(self):
        return 'dtype(%s)' % self.name


DT = {'i': Dtype('int64', 'i'), 'r': Dtype('float64', 'r'), 'b': Dtype('bool', 'b'),
      'c': Dtype('complex128', 'c'), 'o': Dtype('object', 'o')}
BUILTIN_KIND = {}        # filled by load.py: shadow builtins -> kind


def kind_from_dtype(t):
    if t is None:
        return 'r'
    if isinstance(t, Dtype):
        return t.k
    try:
        if t in BUILTIN_KIND:
            return BUILTIN_KIND[t]
    except TypeError:
        pass
    if t is float:
        return 'r'
    if t is int:
        return 'i'
    if t is bool:
        return 'b'
    if t is complex:
        return 'c'
    if isinstance(t, str):
        if t.startswith(('float', 'd', 'f')):
            return 'r'
        if t.startswith(('int', 'i', 'uint', 'l')):
            return 'i'
        if t.startswith(('bool', '?')):
            return 'b'
        if t.startswith(('complex', 'D')):
            return 'c'
    raise Unsupported('dtype %r' % (t,))


def cast_scalar(x, k):
    x = conc(x)
    if isinstance(x, SArr):
        x = x.item()
    if k == 'r':
        if isinstance(x, C):
            return x.re
        if isinstance(x, float):
            return x
        if isinstance(x, S):
            return x.real()
        if isinstance(x, str):
            return conc(float(x))
        return Fraction(x)
    if k == 'i':
        if isinstance(x, S):
            if x.k == 'r':
                i = core.as_int(x.e)
                if i is not None:
                    return S(i)
                return S(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
            return x.to_int()
        if isinstance(x, C):
            raise TypeError('int of complex')
        return int(x)
    if k == 'b':
        return tobool(x)
    if k == 'c':
        return C.of(x)
    return x


# ------------------------------------------------------------------ indices
def sx(x):
    """simplified index (int or S int)"""
    if isinstance(x, S):
        return core.back(z3.simplify(x.to_int().e))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Fraction):
        if x.denominator != 1:
            raise IndexError('non-integer index')
        return int(x)
    return x


def ikey(idx):
    return tuple(i if isinstance(i, int) else ("e", i.e.get_id()) for i in idx)


def memo(f):
    cache, keep = {}, []

    def g(idx):
        k = ikey(idx)
        r = cache.get(k)
        if r is None:
            r = (f(idx),)
            cache[k] = r
            keep.append(idx)
        return r[0]
    return g


def dim_eq(a, b):
    """provably equal dimensions"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a_, b_ = lift(a), lift(b)
    if z3.eq(a_.e, b_.e):
        return True
    return core.decide(S(a_.e == b_.e)) is True


def is_one(d):
    return isinstance(d, int) and d == 1


def bshape(shapes):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0 or is_one(s[j]):
                continue
            if is_one(d):
                d = s[j]
            elif dim_eq(d, s[j]):
                pass
            else:
                # symbolic dims: equal, or one of them 1, or an error
                if isinstance(d, int) and isinstance(s[j], int):
                    raise ValueError('operands could not be broadcast together')
                if bool(S(lift(d).e == lift(s[j]).e)):
                    continue
                raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bindex(shape, idx):
    """index into an operand of the given shape for broadcast index idx"""
    off = len(idx) - len(shape)
    return tuple(0 if is_one(shape[j]) else idx[off + j] for j in range(len(shape)))


def prod(shape):
    r = 1
    for s in shape:
        r = r * s
    return sx(r)


class Store(object):
    __slots__ = ('fn', 'k', 'shape', 'ver', 'nm', 'born', 'native')

    def __init__(self, fn, k, shape, nm=None):
        self.fn, self.k, self.shape, self.ver, self.nm = fn, k, tuple(shape), 0, nm
        self.born = core.CUR.steps if core.CUR is not None else 0


CANON = [S(z3.Int('cix%d' % i)) for i in range(6)]


class Sel(object):
    """a mask selection of a base shape"""

    def __init__(self, shape, maskfn):
        p = core.CUR
        self.shape, self.mask = shape, maskfn
        nm = p.fresh('sel')
        self.count = S(z3.Int('cnt_' + nm))
        n = prod(shape)
        p.assume(self.count >= 0)
        p.assume(self.count <= n)
        self.pos = None
        if len(shape) == 1:
            P = z3.Function('pos_' + nm, z3.IntSort(), z3.IntSort())
            R = z3.Function('rank_' + nm, z3.IntSort(), z3.IntSort())
            self.pos = lambda j: S(P(lift(j).e))
            self.rank = lambda j: S(R(lift(j).e))
            m, n = self.count, shape[0]
            p.assume(Forall(1, lambda j: implies(land(j >= 0, j < m), land(
                S(P(j.e)) >= 0, S(P(j.e)) < n, tobool(maskfn((S(P(j.e)),))), S(R(P(j.e))) == j))))
            p.assume(Forall(2, lambda j, k: implies(land(j >= 0, j < k, k < m), S(P(j.e)) < S(P(k.e)))))
            p.assume(Forall(1, lambda i: implies(land(i >= 0, i < n, tobool(maskfn((i,)))), land(
                S(R(i.e)) >= 0, S(R(i.e)) < m, S(P(R(i.e))) == i))))
        else:
            i = tuple(CANON[:len(shape)])


    def back(self, v, i):
        """v, known to be used only where mask(i) holds, with pos(rank(i)) written as i"""
        if not isinstance(v, S):
            return v
        i = lift(i)
        return S(z3.substitute(v.e, (self.pos(self.rank(i)).e, i.e)))


class ComposedSel(Sel):
    """positions (in the base of s1) of the entries of s1 that s2 selects"""

    def __init__(self, s1, s2):
        self.s1, self.s2, self.shape, self.count = s1, s2, s1.shape, s2.count
        self.pos = lambda j: s1.pos(s2.pos(j))
        self.rank = lambda i: s2.rank(s1.rank(i))
        self.mask = lambda ix: land(tobool(s1.mask(ix)), s1.back(lift(tobool(s2.mask((s1.rank(ix[0]),)))), ix[0]))

    def back(self, v, i):
        return self.s1.back(self.s2.back(v, self.s1.rank(i)), i)


def get_sel(mask):
    """Sel for a boolean array (shared between structurally equal masks)"""
    p = core.CUR
    f = mask.snap()
    shape = mask.shape
    i = tuple(CANON[:len(shape)])
    e = lift(tobool(f(i))).e
    dims = tuple(d if isinstance(d, int) else ("e", d.e.get_id()) for d in shape)
    raw = ('rawsel', dims, e.get_id())
    if raw in p.defs:
        return p.defs[raw][0]
    se = z3.simplify(e)
    key = ('sel', dims, se.get_id())
    if key not in p.defs:
        p.defs[key] = (Sel(shape, lambda ix: tobool(f(ix))), e, shape, se)
    p.defs[raw] = (p.defs[key][0], e, shape)
    return p.defs[key][0]


class SArr(object):
    __vf_array__ = True
    __array_priority__ = 2000

    def __init__(self, store, shape, imap=None, sel=None, full=None):
        self.st = store
        self.shape_ = tuple(shape)
        self.imap = imap
        self.sel = sel           # Sel when this is a compressed selection
        self.full = full         # full-index element function of a selection

    # -- construction ----------------------------------------------------------
    @staticmethod
    def new(fn, k, shape, sel=None, full=None):
        return SArr(Store(memo(fn), k, shape), shape, None, sel, memo(full) if full else None)

    @staticmethod
    def from_flat(vals, shape, k=None):
        vals = [conc(v) for v in vals]
        if k is None:
            ks = [kind_of(v) for v in vals]
            k = join_kinds(ks) if ks else 'r'
        vals = [cast_scalar(v, k) if k != 'o' else v for v in vals]
        shape = tuple(shape)

        def fn(idx):
            flat = 0
            for i, d in zip(idx, shape):
                flat = flat * d + i
            flat = sx(flat)
            if isinstance(flat, int):
                return vals[flat]
            r = vals[-1] if vals else 0
            for j in range(len(vals) - 2, -1, -1):
                r = ite(flat == j, vals[j], r)
            return r
        return SArr(Store(fn, k, shape), shape)

    # -- attributes ----------------------------------------------------------
    @property
    def k(self):
        return self.st.k

    @property
    def dtype(self):
        return DT[self.st.k]

    @property
    def shape(self):
        return self.shape_

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        if self.sel is not None:
            raise Unsupported('reshape of a selection')
        self.st_fix(r)

    def st_fix(self, r):
        self.shape_, self.imap, self.st = r.shape_, r.imap, r.st

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        return prod(self.shape_)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return self.view(self.shape_[::-1], lambda ix: ix[::-1])

    @property
    def real(self):
        if self.k != 'c':
            return self
        return ew(lambda z: C.of(z).re, self)

    @real.setter
    def real(self, v):
        self[...] = ew(lambda z, r: C(r, C.of(z).im), self, v)

    @property
    def imag(self):
        if self.k != 'c':
            return ew(lambda z: Fraction(0), self)
        return ew(lambda z: C.of(z).im, self)

    @imag.setter
    def imag(self, v):
        self[...] = ew(lambda z, r: C(C.of(z).re, r), self, v)

    @property
    def flat(self):
        if self.ndim == 2 and not (isinstance(self.shape[0], int) and isinstance(self.shape[1], int)):
            return Flat(self)
        return self.ravel()

    @flat.setter
    def flat(self, v):
        self.ravel()[...] = v

    @property
    def itemsize(self):
        return 8

    # -- raw access ------------------------------------------------------------
    def get(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        idx = tuple(sx(i) for i in idx)
        if self.imap is not None:
            idx = tuple(sx(i) for i in self.imap(idx))
        return self.st.fn(idx)

    def snap(self):
        f, m = self.st.fn, self.imap
        if m is None:
            return lambda ix: f(tuple(sx(i) for i in ix))
        return lambda ix: f(tuple(sx(i) for i in m(tuple(sx(i) for i in ix))))

    def view(self, shape, imap):
        m0 = self.imap
        m = imap if m0 is None else (lambda ix: m0(tuple(sx(i) for i in imap(ix))))
        return SArr(self.st, shape, m)

    def store_fn(self, newfn, k=None):
        """replace content (only for identity views)"""
        self.st.fn = memo(newfn)
        self.st.ver += 1

    # -- conversion -----------------------------------------------------------
    def item(self, *a):
        if a:
            return self.ravel()[a[0]]
        if not (isinstance(self.size, int) and self.size == 1):
            raise ValueError('can only convert an array of size 1')
        return self.get(*([0] * self.ndim))

    def __vf_scalar__(self):
        return self.item()

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        if not isinstance(self.shape[0], int):
            raise Unsupported('tolist of symbolic-length array')
        return [self[i].tolist() if self.ndim > 1 else self.get(i) for i in range(self.shape[0])]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported('iteration over symbolic-length array')
        return iter([self[i] for i in range(n)])

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported('builtin len of symbolic-length array')

    def __bool__(self):
        if isinstance(self.size, int):
            if self.size == 1:
                return bool(tobool(self.item()))
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        if bool(S(lift(self.size).e == 1)):
            return bool(tobool(self.get(*([0] * self.ndim))))
        if bool(S(lift(self.size).e == 0)):
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        v = self.item()
        if isinstance(v, int):
            return v
        return lift(v).__index__()

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SArr(%s,%s)' % (self.k, self.shape_)

    # -- elementwise arithmetic ------------------------------------------------
    def __add__(self, o):
        return self._shift(arith('add', self, o), o, 1)

    def _shift(self, r, o, sg):
        if self.k == 'i' and self.ndim == 1 and isinstance(r, SArr) and r.k == 'i' and not isinstance(o, (SArr, list, tuple)):
            set_member(r, shifted(member(self), sg * o))
        return r

    def __radd__(self, o):
        return self._shift(arith('add', o, self), o, 1)

    def __sub__(self, o):
        return self._shift(arith('sub', self, o), o, -1)

    def __rsub__(self, o):
        return arith('sub', o, self)

    def __mul__(self, o):
        return arith('mul', self, o)

    def __rmul__(self, o):
        return arith('mul', o, self)

    def __truediv__(self, o):
        return arith('div', self, o)

    def __rtruediv__(self, o):
        return arith('div', o, self)

    def __floordiv__(self, o):
        return arith('fdiv', self, o)

    def __rfloordiv__(self, o):
        return arith('fdiv', o, self)

    def __mod__(self, o):
        return arith('mod', self, o)

    def __rmod__(self, o):
        return arith('mod', o, self)

    def __pow__(self, o):
        return arith('pow', self, o)

    def __rpow__(self, o):
        return arith('pow', o, self)

    def __neg__(self):
        return ew(lambda a: -a, self)

    def __pos__(self):
        return ew(lambda a: a, self)

    def __abs__(self):
        return ew(vabs, self)

    def __invert__(self):
        return ew(lambda a: lnot(a) if kind_of(a) == 'b' else ~a, self)

    def __and__(self, o):
        return arith('and', self, o)

    __rand__ = __and__

    def __or__(self, o):
        return arith('or', self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return arith('xor', self, o)

    def __lshift__(self, o):
        return ew(lambda a, b: a << b, self, o)

    def __rlshift__(self, o):
        return ew(lambda a, b: b << a, self, o)

    def __rshift__(self, o):
        return ew(lambda a, b: a >> b, self, o)

    def __rrshift__(self, o):
        return ew(lambda a, b: b >> a, self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def _inp(self, op, o):
        r = self + o if op == 'add' else self - o if op == 'sub' else arith(op, self, o)
        m = member(r)
        if r.k != self.k and not (self.k == 'r' and r.k in 'ib') and not (self.k == 'c') and not (self.k == 'i' and r.k == 'b'):
            raise TypeError('Cannot cast ufunc output from %s to %s' % (r.dtype, self.dtype))
        if len(r.shape) != self.ndim:
            raise ValueError('non-broadcastable output operand')
        self[...] = r
        if self.imap is None:
            set_member(self, m)
        return self

    def __iadd__(self, o):
        return self._inp('add', o)

    def __isub__(self, o):
        return self._inp('sub', o)

    def __imul__(self, o):
        return self._inp('mul', o)

    def __itruediv__(self, o):
        return self._inp('div', o)

    def __ifloordiv__(self, o):
        return self._inp('fdiv', o)

    def __imod__(self, o):
        return self._inp('mod', o)

    def __ipow__(self, o):
        return self._inp('pow', o)

    def __iand__(self, o):
        return self._inp('and', o)

    def __ior__(self, o):
        return self._inp('or', o)

    def __lt__(self, o):
        return arith('lt', self, o)

    def __le__(self, o):
        return arith('le', self, o)

    def __gt__(self, o):
        return arith('gt', self, o)

    def __ge__(self, o):
        return arith('ge', self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return arith('eq', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return arith('ne', self, o)

    # -- indexing ---------------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    # -- methods ------------------------------------------------------------------
    def copy(self, *a, **kw):
        f = self.snap()
        return SArr.new(f, self.k, self.shape, self.sel, self.full)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo_):
        return self.copy()

    def astype(self, t, *a, **kw):
        k = kind_from_dtype(t)
        r = ew(lambda x: cast_scalar(x, k), self)
        r.st.k = k
        return r

    def ravel(self, *a, **kw):
        return self.reshape(-1, order=a[0] if a else kw.get('order', 'C'))

    def flatten(self, *a, **kw):
        return self.reshape(-1, order=a[0] if a else kw.get('order', 'C')).copy()

    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], SArr) and s[0].ndim == 1:
            s = (s[0].tolist(),)
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        o = kw.get('order', 'C')
        if o == 'F':
            return reshape(self.T, s[::-1]).T
        if o not in ('C', None, 'A'):
            raise Unsupported('reshape order')
        return reshape(self, s)

    def squeeze(self, axis=None):
        keep = [j for j, d in enumerate(self.shape) if not is_one(d)]
        sh = tuple(self.shape[j] for j in keep)
        nd = self.ndim

        def im(ix):
            out = [0] * nd
            for a, j in zip(ix, keep):
                out[j] = a
            return tuple(out)
        return self.view(sh, im)

    def transpose(self, *a):
        if not a:
            return self.T
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = tuple(a[0])
        sh = tuple(self.shape[j] for j in a)

        def im(ix):
            out = [0] * len(a)
            for x, j in zip(ix, a):
                out[j] = x
            return tuple(out)
        return self.view(sh, im)

    def conj(self):
        return ew(lambda z: z.conj() if isinstance(z, C) else z, self)

    conjugate = conj

    def sum(self, axis=None, **kw):
        return np_sum(self, axis)

    def prod(self, axis=None, **kw):
        return np_prod(self, axis)

    def mean(self, axis=None, **kw):
        return mean(self, axis)

    def max(self, axis=None, **kw):
        return amax(self, axis)

    def min(self, axis=None, **kw):
        return amin(self, axis)

    def ptp(self, axis=None, **kw):
        return amax(self, axis) - amin(self, axis)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def argmin(self, axis=None):
        return argmin(self, axis)

    def any(self, axis=None, **kw):
        return np_any(self, axis)

    def all(self, axis=None, **kw):
        return np_all(self, axis)

    def cumsum(self, axis=None, **kw):
        return cumsum(self, axis)

    def argsort(self, axis=-1, **kw):
        return argsort(self)

    def sort(self, *a, **kw):
        if not isinstance(self.size, int):
            r = self[argsort(self)]
            self[...] = r
            return
        raise Unsupported('sort')

    def nonzero(self):
        return nonzero(self)

    def clip(self, a, b):
        return clip(self, a, b)

    def take(self, i, axis=None, **kw):
        return take(self, i, axis)

    def put(self, i, v):
        put(self, i, v)

    def compress(self, m, axis=None, **kw):
        if self.ndim != 1:
            raise Unsupported('compress n-d')
        return self[asarray(m)]

    def searchsorted(self, v, **kw):
        return searchsorted(self, v, **kw)

    def choose(self, cs, **kw):
        return choose(self, cs)

    def fill(self, v):
        self[...] = v

    def round(self, *a):
        return round_(self, *a)

    def dot(self, o):
        return dot(self, o)

    def diagonal(self):
        n = self.shape[0]
        return self.view((n,), lambda ix: (ix[0], ix[0]))

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def tobytes(self):
        raise Unsupported('tobytes')

    def std(self, *a, **k):
        return np_sqrt_(self.var(*a, **k))

    def var(self, *a, **k):
        if a or k:
            raise Unsupported('var')
        d = self - self.mean()
        return (d * d).mean()

    def repeat(self, *a, **k):
        return repeat(self, *a, **k)

    def cumprod(self, *a, **k):
        return cumprod(self, *a, **k)


def join_kinds(ks):
    ks = [k for k in ks if k]
    if any(k == 'o' for k in ks):
        return 'o'
    for k in 'crib':
        if k in ks:
            return k
    return 'o'


# ------------------------------------------------------------------ elementwise
def ew(f, *args, **kw):
    """apply the scalar function f elementwise with broadcasting"""
    kind = kw.get('kind')
    args = [asarray(a) if isinstance(a, (list, tuple)) else conc(a) for a in args]
    arrs = [a for a in args if isinstance(a, SArr)]
    if not arrs:
        r = f(*args)
        if isinstance(r, SArr):
            raise Unsupported('nested arrays')
        return r
    shape = bshape([a.shape for a in arrs])
    fns = [a.snap() if isinstance(a, SArr) else a for a in args]
    shs = [a.shape if isinstance(a, SArr) else None for a in args]

    def fn(idx):
        return f(*[g(bindex(s, idx)) if s is not None else g for g, s in zip(fns, shs)])
    # selections
    sels = [a.sel for a in arrs if not (isinstance(a.size, int) and a.size == 1)]
    sel = full = None
    if sels and sels[0] is not None and all(s is sels[0] for s in sels):
        sel = sels[0]
        fulls = [(a.full if a.sel is not None else None) if isinstance(a, SArr) else None for a in args]

        def full(idx):
            vs = []
            for a, g, s, fu in zip(args, fns, shs, fulls):
                if s is None:
                    vs.append(g)
                elif fu is not None:
                    vs.append(fu(idx))
                else:
                    vs.append(g(tuple(0 for _ in s)))
            return f(*vs)
    if kind is None:
        kind = probe(fn, shape) if sel is None or sel.pos is not None else probe(full, sel.shape)
    r = SArr.new(fn, kind, shape, sel, full)
    return r


def probe(fn, shape):
    """kind of the elements"""
    idx = tuple(0 if isinstance(d, int) and d <= 1 else CANON[j] for j, d in enumerate(shape))
    if all(isinstance(d, int) for d in shape):
        n = 1
        for d in shape:
            n *= d
        if n == 0:
            idx = tuple(CANON[:len(shape)])
            try:
                v = fn(idx)
            except Exception:
                return 'r'
            return kind_of(v) or 'o'
        if n <= 12:
            ks = [kind_of(fn(ix)) or 'o' for ix in itertools.product(*[range(d) for d in shape])]
            return join_kinds(ks)
    v = fn(idx)
    return kind_of(v) or 'o'


def _fdivide(a, b):
    a, b = conc(a), conc(b)
    if isinstance(b, (int, Fraction)) and b == 0:
        if isinstance(a, (int, Fraction)):
            return float('nan') if a == 0 else math.copysign(float('inf'), a)
    if isinstance(a, (C, S, int, Fraction)) or isinstance(b, (C, S)):
        return vdiv(a, b)
    return vdiv(a, b)


def _cmp(f):
    def g(a, b):
        a, b = conc(a), conc(b)
        return f(a, b)
    return g


def _land2(a, b):
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return land(a, b)
    return a & b


def _lor2(a, b):
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return lor(a, b)
    return a | b


def _add(a, b):
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return lor(a, b)
    return a + b


OPS = {'add': _add, 'sub': lambda a, b: a - b,
       'mul': lambda a, b: land(a, b) if kind_of(a) == 'b' and kind_of(b) == 'b' else a * b,
       'div': _fdivide, 'fdiv': lambda a, b: a // b, 'mod': lambda a, b: a % b, 'pow': vpow,
       'and': _land2, 'or': _lor2, 'xor': lambda a, b: a ^ b,
       'lt': _cmp(lambda a, b: a < b), 'le': _cmp(lambda a, b: a <= b), 'gt': _cmp(lambda a, b: a > b),
       'ge': _cmp(lambda a, b: a >= b), 'eq': _cmp(veq), 'ne': _cmp(lambda a, b: lnot(veq(a, b)))}


def arith(op, a, b):
    for x in (a, b):
        if not isinstance(x, (SArr, S, C, int, Fraction, float, complex, list, tuple)):
            if hasattr(x, '__vf_obj__') or x is None or isinstance(x, str) or callable(x):
                return NotImplemented
            return NotImplemented
    return ew(OPS[op], a, b)


# ------------------------------------------------------------------ creation
def asarray(x, dtype=None, **kw):
    if isinstance(x, Poly1d):
        x = x.coeffs
    if isinstance(x, SArr):
        return x if dtype is None or x.k == kind_from_dtype(dtype) else x.astype(dtype)
    if isinstance(x, SRange):
        return arange(x.start, x.stop, x.step)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, SymIter):
        p = core.ctx()
        k0 = p.fresh_int('k')
        p.assume(land(k0 >= 0, lift(k0) < x.n))          # callers guarantee n > 0
        e = asarray(x.at(k0))
        r = SArr.new(lambda ix: asarray(x.at(ix[0])).get(*ix[1:]) if e.ndim else asarray(x.at(ix[0])).item(),
                     e.k, (x.n,) + e.shape)
        return r if dtype is None else r.astype(dtype)
    if hasattr(x, '__vf_scalar__') and not isinstance(x, S):
        x = x.__vf_scalar__()
    if isinstance(x, (S, C, int, Fraction, float, complex)):
        if isinstance(x, complex):
            x = C.of(x)
        x = conc(x)
        k = kind_from_dtype(dtype) if dtype is not None else kind_of(x)
        return SArr.from_flat([x], (), k)
    if isinstance(x, (list, tuple)):
        items = [asarray(i) for i in x]
        if not items:
            return SArr.from_flat([], (0,), 'r' if dtype is None else kind_from_dtype(dtype))
        r = stack(items)
        return r if dtype is None else r.astype(dtype)
    if x is None or isinstance(x, str) or callable(x):
        return SArr.from_flat([x], (), 'o') if False else _bad(x)
    if hasattr(x, '__iter__'):
        return asarray(list(x), dtype)
    return _bad(x)


def _bad(x):
    raise Unsupported('asarray of %r' % (type(x),))


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    r = asarray(x, dtype)
    if r is x:
        r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def stack(items, axis=0):
    items = [asarray(i) for i in items]
    sh = items[0].shape
    for i in items[1:]:
        if len(i.shape) != len(sh) or not all(dim_eq(a, b) for a, b in zip(i.shape, sh)):
            raise ValueError('setting an array element with a sequence / shape mismatch')
    k = join_kinds([i.k for i in items])
    fns = [i.snap() for i in items]
    if axis < 0:
        axis += len(sh) + 1

    def fn(idx):
        j, rest = idx[axis], idx[:axis] + idx[axis + 1:]
        if isinstance(j, int):
            return cast_scalar(fns[j](rest), k) if k != 'o' else fns[j](rest)
        r = fns[-1](rest)
        for q in range(len(fns) - 2, -1, -1):
            r = ite(j == q, fns[q](rest), r)
        return r
    return SArr.new(fn, k, sh[:axis] + (len(items),) + sh[axis:])


def _shape(s):
    if isinstance(s, SArr):
        s = s.tolist() if s.ndim else s.item()
    if isinstance(s, (int, S, Fraction)):
        return (sx(s),)
    return tuple(sx(i) for i in s)


def full_(shape, fill_value, dtype=None, **kw):
    v = fill_value
    if isinstance(v, SArr):
        r = empty(shape, v.dtype if dtype is None else dtype)
        r[...] = v
        return r
    k = kind_of(conc(v)) if dtype is None else kind_from_dtype(dtype)
    v = cast_scalar(v, k)
    return SArr.new(lambda ix: v, k, _shape(shape))


def zeros(shape, dtype=None, **kw):
    return full_(shape, 0, dtype if dtype is not None else DT['r'])


def ones(shape, dtype=None, **kw):
    return full_(shape, 1, dtype if dtype is not None else DT['r'])


def empty(shape, dtype=None, **kw):
    """uninitialised content: arbitrary values"""
    k = kind_from_dtype(dtype)
    p = core.CUR
    shape = _shape(shape)
    if k == 'c':
        f, g = z3.Function(p.fresh('emptyr'), *([z3.IntSort()] * len(shape) + [z3.RealSort()])), \
            z3.Function(p.fresh('emptyi'), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
        return SArr.new(lambda ix: C(S(f(*[lift(i).e for i in ix])), S(g(*[lift(i).e for i in ix]))), k, shape)
    return SArr.new(fresh_elems('empty', k, len(shape)), k, shape)


def fresh_elems(nm, k, nd):
    p = core.CUR
    srt = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}.get(k)
    if k == 'c':
        f1, f2 = fresh_elems(nm + 're', 'r', nd), fresh_elems(nm + 'im', 'r', nd)
        return lambda ix: C(f1(ix), f2(ix))
    if nd == 0:
        v = S(z3.Const(p.fresh(nm), srt))
        return lambda ix: v
    f = z3.Function(p.fresh(nm), *([z3.IntSort()] * nd + [srt]))
    return lambda ix: S(f(*[lift(i).e for i in ix]))


def _like(x, v, dtype, shape=None):
    x = asarray(x)
    k = x.k if dtype is None else kind_from_dtype(dtype)
    v = cast_scalar(v, k)
    return SArr.new(lambda ix: v, k, x.shape, x.sel, (lambda ix: v) if x.sel else None)


def zeros_like(x, dtype=None, **kw):
    return _like(x, 0, dtype)


def ones_like(x, dtype=None, **kw):
    return _like(x, 1, dtype)


def full_like(x, fill_value, dtype=None, **kw):
    return _like(x, fill_value, dtype)


def empty_like(x, dtype=None, **kw):
    x = asarray(x)
    return empty(x.shape, x.dtype if dtype is None else dtype)


def atleast_1d(*xs):
    r = []
    for x in xs:
        x = asarray(x)
        r.append(x.view((1,), lambda ix: ()) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in xs:
        x = asarray(x)
        if x.ndim == 0:
            x = x.view((1, 1), lambda ix: ())
        elif x.ndim == 1:
            x = x.view((1, x.shape[0]), lambda ix: (ix[1],))
        r.append(x)
    return r[0] if len(r) == 1 else r


class SymIter(object):
    """symbolic iteration space / list of symbolic length: element k for k in [0, n)"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __iter__(self):
        raise Unsupported('iteration over a list of symbolic length')


def memo1(f):
    d = {}

    def g(k):
        key = k if isinstance(k, int) else ("e", lift(k).e.get_id())
        if key not in d:
            d[key] = (k, f(k))
        return d[key][1]
    return g


class SRange(object):
    """range with symbolic bounds"""

    def __init__(self, *a):
        a = [sx(i) if not isinstance(i, SArr) else sx(i.item()) for i in a]
        self.start, self.stop, self.step = 0, None, 1
        if len(a) == 1:
            self.stop = a[0]
        elif len(a) == 2:
            self.start, self.stop = a
        else:
            self.start, self.stop, self.step = a
        if not isinstance(self.step, int):
            raise Unsupported('symbolic step')

    def __len__(self):
        raise Unsupported('len of symbolic range')


def make_range(*a):
    if all(isinstance(i, int) for i in a):
        return range(*a)
    r = SRange(*a)
    if all(isinstance(i, int) for i in (r.start, r.stop)):
        return range(r.start, r.stop, r.step)
    return r


def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    step = 1 if step is None else step
    start, stop, step = [conc(x.item() if isinstance(x, SArr) else x) for x in (start, stop, step)]
    ks = [kind_of(x) for x in (start, stop, step)]
    k = 'i' if all(q in 'ib' for q in ks) else 'r'
    if all(not isinstance(x, S) for x in (start, stop, step)):
        n = max(0, math.ceil(vdiv(stop - start, step)))
    elif k == 'i' and isinstance(step, int):
        d = (stop - start)
        n = -((-d) // step) if step > 0 else -((d) // (-step))
        n = sx(vmax(n, 0))
        if not isinstance(n, int):
            dd = core.decide(lift(-((-d) // step)) >= 0) if step > 0 else None
            if dd:
                n = sx(-((-d) // step)) if step != 1 else sx(d)
    else:
        q = vdiv(stop - start, step)
        n = ite(q > 0, -core.floor_(lift(-q)), 0)
    k2 = kind_from_dtype(dtype) if dtype is not None else k
    return SArr.new(lambda ix: cast_scalar(start + step * ix[0], k2), k2, (n,))


def linspace(a, b, n=50, endpoint=True, retstep=False, **kw):
    a, b = conc(a), conc(b)
    n = sx(cast_scalar(n, 'i'))
    if isinstance(a, SArr):
        a = a.item()
    if isinstance(b, SArr):
        b = b.item()
    den = (n - 1) if endpoint else n
    if isinstance(den, int) and den <= 0:
        r = full_((n,), cast_scalar(a, 'r'))
        return (r, float('nan')) if retstep else r
    step = vdiv(b - a, den)
    r = SArr.new(lambda ix: cast_scalar(a + step * ix[0], 'r'), 'r', (n,))
    return (r, step) if retstep else r


# ------------------------------------------------------------------ indexing
def norm_index(i, n, what='index'):
    """python index semantics, IndexError when out of range"""
    i = sx(i)
    p = core.CUR
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return i + n if i < 0 else i
        raise IndexError('index %d is out of bounds for axis with size %d' % (i, n))
    if p.native:
        ok = land(lift(i) >= 0, lift(i) < n)
        p.ensure('bounds: ' + p.where(), ok)
        return i
    if isinstance(i, int):
        ok = (lift(n) > i) if i >= 0 else (lift(n) >= -i)
        if not bool(ok):
            raise IndexError('index out of bounds')
        return sx(n + i) if i < 0 else i
    ok = land(lift(i) < n, lift(i) >= -n)
    if p.univ and p.decide(ok) is None:
        if p.provable(land(lift(i) >= 0, lift(i) < n)):
            p.assume(land(lift(i) >= 0, lift(i) < n))
            return i
    d = core.decide(i >= 0)
    if not (core.decide(ok) or bool(ok)):
        raise IndexError('index out of bounds')
    if d is None:
        d = core.decide(i >= 0)
    if d is True:
        return i
    if d is False:
        return sx(i + n)
    return sx(ite(i < 0, i + n, i))


def _p_where(self):
    import sys
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith('<repo>'):
            return '%s:%s' % (f.f_code.co_name, fn[6:].split('/')[-1])
        f = f.f_back
    return '?'


core.Path.where = _p_where


class Flat(object):
    """a.flat of a matrix of symbolic size; a.flat[::n+1] is the diagonal of a square matrix"""

    def __init__(self, a):
        self.a = a

    def _diag(self, key):
        a = self.a
        if isinstance(key, slice) and key.start in (None, 0) and key.stop is None and key.step is not None and dim_eq(a.shape[0], a.shape[1]) \
                and dim_eq(sx(lift(key.step)), sx(lift(a.shape[0]) + 1)):
            return a.diagonal()

    def __setitem__(self, key, v):
        d = self._diag(key)
        if d is None:
            self.a.ravel()[key] = v
        else:
            f = self.a.snap()
            v = asarray(v).copy()
            if v.ndim == 0 or not dim_eq(v.shape[-1], d.shape[0]):
                v = broadcast_to(v, (d.shape[0],))
            g = v.snap()
            self.a[...] = SArr.new(lambda ix: ite(_ieq(ix[0], ix[1]), g((ix[0],)), f(ix)), self.a.k, self.a.shape)

    def __getitem__(self, key):
        d = self._diag(key)
        return self.a.ravel()[key] if d is None else d.copy()

    def __getattr__(self, n):
        return getattr(self.a.ravel(), n)

    def __len__(self):
        return len(self.a.ravel())

    def __iter__(self):
        return iter(self.a.ravel())


def norm_slice(s, n):
    """-> start, step, length (numpy semantics)"""
    step = 1 if s.step is None else sx(s.step)
    if not isinstance(step, int):
        raise Unsupported('symbolic slice step')
    a, b = s.start, s.stop
    a = None if a is None else (sx(a.item()) if isinstance(a, SArr) else sx(a))
    b = None if b is None else (sx(b.item()) if isinstance(b, SArr) else sx(b))
    if all(isinstance(q, int) or q is None for q in (a, b)) and isinstance(n, int):
        r = range(*slice(a, b, step).indices(n))
        return r.start, step, len(r)

    def clip_(v, lo, hi, neg):
        if isinstance(v, int):
            if v < 0:
                w = sx(n + v)
                return _mx(w, lo)
            return _mn(v, hi)
        d = core.decide(v >= 0)
        if d is True:
            return _mn(v, hi)
        if d is False:
            return _mx(sx(v + n), lo)
        return sx(ite(v < 0, vmax(lift(v + n), lo), vmin(lift(v), hi)))
    if step > 0:
        start = 0 if a is None else clip_(a, 0, n, False)
        stop = n if b is None else clip_(b, 0, n, False)
        d = sx(lift(stop) - start) if not (isinstance(stop, int) and isinstance(start, int)) else stop - start
        ln = d if step == 1 else sx((lift(d) + (step - 1)) // step)
        return start, step, _mx(ln, 0)
    start = sx(lift(n) - 1) if a is None else clip_(a, -1, sx(lift(n) - 1), True)
    stop = -1 if b is None else clip_(b, -1, sx(lift(n) - 1), True)
    d = sx(lift(start) - stop)
    ln = d if step == -1 else sx((lift(d) + (-step - 1)) // (-step))
    return start, step, _mx(ln, 0)


def _mn(v, hi):
    if isinstance(v, int) and isinstance(hi, int):
        return min(v, hi)
    d = core.decide(lift(v) <= hi)
    if d is True:
        return v
    if d is False:
        return hi
    return sx(ite(lift(v) <= hi, v, hi))


def _mx(v, lo):
    if isinstance(v, int) and isinstance(lo, int):
        return max(v, lo)
    d = core.decide(lift(v) >= lo)
    if d is True:
        return v
    if d is False:
        return lo
    return sx(ite(lift(v) >= lo, v, lo))


def resolve(shape, key):
    """-> (out_shape, map(out_idx)->base_idx, sel) ; sel set for pure mask selections"""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    for j, q in enumerate(key):
        if isinstance(q, list):
            key[j] = asarray(q) if q else SArr.from_flat([], (0,), 'i')
        elif isinstance(q, (range,)):
            key[j] = asarray(list(q))
        elif isinstance(q, Fraction):
            raise IndexError('only integers, slices (`:`), ellipsis are valid indices')
        elif isinstance(q, S) and q.k == 'r':
            raise IndexError('only integers, slices (`:`), ellipsis are valid indices')
        elif isinstance(q, SArr) and q.ndim == 0:
            key[j] = q.item()
        elif isinstance(q, SArr) and q.k == 'r' and not (isinstance(q.size, int) and q.size == 0):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
    # whole-array boolean mask
    if len(key) == 1 and isinstance(key[0], SArr) and key[0].k == 'b':
        m = key[0]
        if m.ndim == len(shape):
            if m.ndim == 1 and isinstance(m.shape[0], int):
                vals = [m.get(i) for i in range(m.shape[0])]
                if all(isinstance(v, bool) for v in vals):
                    ids = [i for i, v in enumerate(vals) if v]
                    key = [SArr.from_flat(ids, (len(ids),), 'i')]
                    return resolve(shape, tuple(key))
            for a, b in zip(m.shape, shape):
                if not dim_eq(a, b):
                    raise IndexError('boolean index did not match')
            sel = get_sel(m)
            if sel.pos is not None:
                return (sel.count,), (lambda ix: (sel.pos(ix[0]),)), sel
            return (sel.count,), (lambda ix: _nopos()), sel
    if len(key) == 1 and ispos(key[0]) and len(shape) == 1 and dim_eq(shape[0], key[0].sel.shape[0]):
        sel = key[0].sel
        return (sel.count,), (lambda ix: (sel.pos(ix[0]),)), sel
    for j, q in enumerate(key):
        if isinstance(q, SArr) and q.k == 'b':
            key[j] = flatnonzero(q)
            if q.ndim != 1:
                raise Unsupported('n-d boolean index among others')
        elif isinstance(q, bool) or (isinstance(q, S) and q.k == 'b'):
            raise Unsupported('scalar boolean index')
    nn = sum(1 for q in key if q is not None and q is not Ellipsis)
    if Ellipsis in [q for q in key if q is None or q is Ellipsis]:
        j = [i for i, q in enumerate(key) if q is Ellipsis][0]
        key[j:j + 1] = [slice(None)] * (len(shape) - nn)
    else:
        key += [slice(None)] * (len(shape) - nn)
    if sum(1 for q in key if q is not None) > len(shape):
        raise IndexError('too many indices for array')
    adv = [q for q in key if isinstance(q, SArr)]
    dims, d = [], 0
    comps = []       # per base dim: ('int', v) ('sl', start, step, outpos) ('adv', fn)
    out = []
    if adv:
        ashape = bshape([q.shape for q in adv])
        pos = [j for j, q in enumerate(key) if isinstance(q, SArr) or not (isinstance(q, slice) or q is None)]
        contiguous = all(b - a == 1 for a, b in zip(pos, pos[1:]))
        apos = None
    seen_adv = False
    lead = adv and not contiguous
    if lead:
        out += list(ashape)
        aoff = 0
        seen_adv = True
    for q in key:
        if q is None:
            out.append(1)
            continue
        n = shape[d]
        if isinstance(q, slice):
            st, sp, ln = norm_slice(q, n)
            comps.append(('sl', st, sp, len(out)))
            out.append(ln)
        elif isinstance(q, SArr):
            if not seen_adv:
                aoff = len(out)
                out += list(ashape)
                seen_adv = True
            comps.append(('adv', adv_index(q, n), q.shape))
        elif isinstance(q, (int, S)):
            if adv and not seen_adv and contiguous:
                aoff = len(out)
                out += list(ashape)
                seen_adv = True
            comps.append(('int', norm_index(q, n)))
        else:
            raise Unsupported('index %r' % (type(q),))
        d += 1

    def im(ix):
        r = []
        for c in comps:
            if c[0] == 'int':
                r.append(c[1])
            elif c[0] == 'sl':
                o = ix[c[3]]
                if isinstance(c[1], int) and c[1] == 0 and c[2] == 1:
                    r.append(o)
                else:
                    r.append(sx(c[1] + c[2] * o))
            else:
                sub = ix[aoff:aoff + len(ashape)]
                r.append(c[1](bindex(c[2], sub)))
        return tuple(r)
    return tuple(out), im, None


def _nopos():
    raise Unsupported('positional access to an n-d mask selection')


def adv_index(q, n):
    """index function of an integer index array, with range check"""
    f = q.snap()
    p = core.CUR
    if isinstance(q.size, int) and q.size <= 64:
        tab = {}
        for ix in itertools.product(*[range(d) for d in q.shape]):
            tab[ix] = norm_index(f(ix), n)

        def g(ix):
            if all(isinstance(i, int) for i in ix):
                return tab[tuple(ix)]
            v = f(ix)
            return sx(ite(lift(v) < 0, v + n, v))
        return g
    if ispos(q) and dim_eq(q.sel.shape[0], n):
        return lambda ix: sx(f(ix))

    def ok(ix):
        v = lift(f(ix))
        return land(v < n, v >= -n if not (isinstance(n, int)) else v >= -n)
    if not forall_fork(q.shape, ok):
        raise IndexError('index out of bounds')
    nonneg = quick_forall(q.shape, lambda ix: lift(f(ix)) >= 0)
    if nonneg:
        return lambda ix: sx(f(ix))
    return lambda ix: sx(ite(lift(f(ix)) < 0, lift(f(ix)) + n, f(ix)))


def in_shape(ix, shape):
    return land(*[land(lift(i) >= 0, lift(i) < d) for i, d in zip(ix, shape)])


def quick_forall(shape, pred, timeout=4):
    """True when pred is provable for every index (no fork)"""
    p = core.CUR
    sk = [p.fresh_int('q') for _ in shape]
    g = implies(in_shape(sk, shape), pred(tuple(sk)))
    if isinstance(g, bool):
        return g
    st, _, _ = core.prove(p.pc, p.univ, p.idx + [s.e for s in sk], g.e, timeout, ring=False)
    return st == 'proved'


def forall_fork(shape, pred):
    """truth of (for all indices: pred); forks when open.  Adds the facts to the path."""
    return bool(forall_bool(shape, pred))


def forall_bool(shape, pred):
    p = core.CUR
    if all(isinstance(d, int) for d in shape) and math.prod(shape) <= 64:
        return land(*[tobool(pred(ix)) for ix in itertools.product(*[range(d) for d in shape])])
    key = None
    b = p.fresh_bool('all')

    def q(path, d):
        if d:
            path.assume(Forall(len(shape), lambda *ix: implies(in_shape(ix, shape), tobool(pred(ix)))))
        else:
            sk = [path.fresh_int('w') for _ in shape]
            path.idx.extend(s.e for s in sk)
            path.assume(in_shape(sk, shape))
            path.assume(lnot(tobool(pred(tuple(sk)))))
            if not path.replaying and not path.feasible(z3.BoolVal(True)):
                raise core.PathEnd('infeasible')
    if not p.replaying and quick_forall(shape, pred, 3):
        # settle it now: the negative branch is infeasible
        p.assume(b)
        pos = p.pos
        b.q = q
        p.run.settled = getattr(p.run, 'settled', {})
        p.run.settled[(p.fresh_key())] = True
        q(p, True)
        return True
    if p.replaying and getattr(p.run, 'settled', {}).get(p.fresh_key()):
        p.assume(b)
        q(p, True)
        return True
    b.q = q
    return b


def _fresh_key(self):
    return (tuple(self.taken), self.nfresh if False else len(self.pc), len(self.univ))


core.Path.fresh_key = _fresh_key


def getitem(a, key):
    shape, im, sel = resolve(a.shape, key)
    adv = has_adv(key)
    if sel is not None:
        if ispos(a) and sel.pos is not None:
            return idxsel(ComposedSel(a.sel, sel))
        f = a.snap()
        return SArr.new(lambda ix: f(im(ix)), a.k, shape, sel, f)
    if not shape and not adv_ellipsis(key):
        return a.get(im(()))
    if adv:
        f = a.snap()
        return SArr.new(lambda ix: f(im(ix)), a.k, shape)
    # basic slicing keeps selections only for trivial keys
    r = a.view(shape, im)
    if a.sel is not None and is_trivial(key):
        r.sel, r.full = a.sel, a.full
    return r


def is_trivial(key):
    key = key if isinstance(key, tuple) else (key,)
    return all(k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in key)


def adv_ellipsis(key):
    return key is Ellipsis or (isinstance(key, tuple) and any(k is Ellipsis for k in key))


def has_adv(key):
    key = key if isinstance(key, tuple) else (key,)
    return any(isinstance(k, (SArr, list)) and not (isinstance(k, SArr) and k.ndim == 0) for k in key)


def setitem(a, key, v):
    if a.imap is None and a.ndim == 1 and isinstance(key, SArr) and key.k == 'i' and not isinstance(key.size, int) and isinstance(v, (int, Fraction, float, S, bool)):
        m = member(key)
        if m is not None:            # the same value at every listed position
            n = a.shape[0]
            p, old = core.CUR, a.st.fn
            c = cast_scalar(v, a.k)
            q = p.fresh_int('at')
            p.idx.append(q.e)
            if not p.provable(implies(m(q), land(q >= 0, q < n)), 8):
                raise Unsupported('positions that may be out of range')
            a.sel = a.full = None
            a.st.fn = memo(lambda ix: ite(m(ix[0]), c, old(ix)))
            a.st.ver += 1
            return
    shape, im, sel = resolve(a.shape, key)
    k = a.k
    if isinstance(v, (list, tuple)):
        v = asarray(v)
    v = conc(v)
    old = a.st.fn
    m0 = a.imap
    if sel is not None:
        if m0 is not None:
            t = a.copy()
            setitem(t, key, v)
            setitem(a, tuple([slice(None)] * a.ndim), t)
            return
        if isinstance(v, SArr) and v.sel is sel:
            fu = v.full
            new = lambda ix: ite(sel.mask(ix), cast_scalar(fu(ix), k), old(ix))
        elif isinstance(v, SArr) and not (isinstance(v.size, int) and v.size == 1):
            if sel.pos is None:
                raise Unsupported('masked assignment of an unrelated array')
            fv = v.snap()
            if not dim_eq(v.shape[0], sel.count):
                if not bool(S(lift(v.shape[0]).e == sel.count.e)):
                    raise ValueError('cannot assign %s input values to output values' % (v.shape,))
            new = lambda ix: ite(sel.mask(ix), sel.back(cast_scalar(fv((sel.rank(ix[0]),)), k), ix[0]), old(ix))
        else:
            c = cast_scalar(v.item() if isinstance(v, SArr) else v, k)
            new = lambda ix: ite(sel.mask(ix), c, old(ix))
        a.st.fn = memo(new)
        a.st.ver += 1
        if a.full is not None:
            a.sel = a.full = None
        return
    if isinstance(v, SArr):
        fv, vs = v.snap(), v.shape
        while len(vs) > len(shape) and is_one(vs[0]):
            fv0 = fv
            vs = vs[1:]
            fv = (lambda g: lambda ix: g((0,) + tuple(ix)))(fv0)
        if len(vs) > len(shape):
            raise ValueError('could not broadcast input array into shape')
        b = bshape([vs, shape])
        for x, y in zip(b, shape):
            if not dim_eq(x, y):
                if is_one(y) or not bool(S(lift(x).e == lift(y).e)):
                    raise ValueError('could not broadcast input array into shape')
        val = lambda ix: cast_scalar(fv(bindex(vs, ix)), k)
    else:
        if v is None or isinstance(v, str):
            raise TypeError('float() argument')
        c = cast_scalar(v, k) if k != 'o' else v
        val = lambda ix: c
    ax = axis_sel(a, key)
    if ax is not None and m0 is None:
        d, sl = ax
        a.sel = a.full = None
        r = lambda ix: tuple(sl.rank(q) if j == d else q for j, q in enumerate(ix))
        a.st.fn = memo(lambda ix: ite(tobool(sl.mask((ix[d],))), backc(sl, val(r(ix)), ix[d]), old(ix)))
        a.st.ver += 1
        return
    base = (lambda ix: im(ix)) if m0 is None else (lambda ix: m0(im(ix)))
    fullcover = m0 is None and is_trivial(key)
    if fullcover:
        if a.sel is not None and isinstance(v, SArr) and v.sel is a.sel:
            fu = v.full
            a.full = memo(lambda ix: cast_scalar(fu(ix), k))
        elif a.sel is not None and not isinstance(v, SArr):
            a.full = lambda ix: c
        else:
            a.sel = a.full = None
        a.st.fn = memo(lambda ix: val(ix))
        a.st.ver += 1
        return
    a.sel = a.full = None
    inv = invert(a, key, shape, im, m0)
    a.st.fn = memo(lambda ix: _upd(inv, val, old, ix))
    a.st.ver += 1


def axis_sel(a, key):
    """(axis, selection) for keys like a[:, mask-positions]"""
    key = key if isinstance(key, tuple) else (key,)
    if len(key) != a.ndim or a.ndim < 2:
        return None
    hit = [j for j, k in enumerate(key) if ispos(k) or isinstance(k, SArr) and k.k == 'b' and k.ndim == 1]
    if len(hit) != 1 or any(j not in hit and k != slice(None) for j, k in enumerate(key) if not isinstance(k, SArr)) or \
            any(isinstance(k, SArr) and j not in hit for j, k in enumerate(key)):
        return None
    k = key[hit[0]]
    sel = k.sel if ispos(k) else get_sel(k)
    if sel.pos is None or not dim_eq(sel.shape[0], a.shape[hit[0]]):
        return None
    return hit[0], sel


def backc(sel, v, i):
    if isinstance(v, C):
        return C(sel.back(v.re, i), sel.back(v.im, i))
    return sel.back(v, i)


def _upd(inv, val, old, ix):
    hit, oix = inv(ix)
    if hit is False:
        return old(ix)
    if hit is True:
        return val(oix)
    return ite(hit, val(oix), old(ix))


def invert(a, key, shape, im, m0):
    """base index -> (is it written?, output index).  Affine index maps only."""
    base = (lambda ix: im(ix)) if m0 is None else (lambda ix: m0(im(ix)))
    nd = len(shape)
    probes = tuple(CANON[:nd])
    p = base(probes)
    # every base coordinate is const or affine a*c + b in exactly one probe
    comps = []
    used = set()
    for q in p:
        if isinstance(q, int):
            comps.append(('c', q))
            continue
        e = z3.simplify(q.e)
        hit = [j for j in range(nd) if contains(e, CANON[j].e)]
        if not hit:
            comps.append(('c', S(e)))
        elif len(hit) == 1:
            j = hit[0]
            b0 = core.back(z3.simplify(z3.substitute(e, (CANON[j].e, z3.IntVal(0)))))
            b1 = core.back(z3.simplify(z3.substitute(e, (CANON[j].e, z3.IntVal(1)))))
            a1 = sx(lift(b1) - b0)
            chk = z3.simplify(e - (lift(a1).e * CANON[j].e + lift(b0).e))
            if isinstance(a1, int) and z3.is_int_value(chk) and chk.as_long() == 0 and j not in used:
                used.add(j)
                comps.append(('a', j, a1, b0))
            else:
                return invert_table(base, shape)
        else:
            return invert_table(base, shape)
    for j in range(nd):
        if j not in used and not is_one(shape[j]):
            return invert_table(base, shape)

    def inv(ix):
        hit, out = True, [0] * nd
        for c, i in zip(comps, ix):
            if c[0] == 'c':
                hit = land(hit, _ieq(i, c[1]))
            else:
                _, j, a1, b0 = c
                d = sx(lift(i) - b0)
                if a1 == 1:
                    o = d
                elif a1 == -1:
                    o = sx(-lift(d)) if isinstance(d, S) else -d
                else:
                    o = sx(lift(d) // a1) if isinstance(d, S) else d // a1
                    hit = land(hit, _ieq(sx(o * a1), d))
                out[j] = o
                hit = land(hit, _cle(0, o), _clt(o, shape[j]))
            if hit is False:
                return False, None
        return hit, tuple(out)
    return inv


def _ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = z3.simplify(lift(a).e == lift(b).e)
    return core.back(e)


def _cle(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return core.back(z3.simplify(lift(a).e <= lift(b).e))


def _clt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return core.back(z3.simplify(lift(a).e < lift(b).e))


def contains(e, v):
    return any(z3.eq(x, v) for x in core.walk([e]))


def invert_table(base, shape):
    """scatter through an index array: last write wins"""
    if all(isinstance(d, int) for d in shape) and math.prod(shape) <= 64:
        items = [(ix, base(ix)) for ix in itertools.product(*[range(d) for d in shape])]

        def inv(ix):
            raise _Multi()
        def inv2(ix):
            # chain handled by returning nested condition through val; use table
            return ('table', items)
        return _TableInv(items)
    if len(shape) == 1:
        # injective scatter with inverse function (skolem): exists j: base(j)==i
        p = core.CUR
        R = z3.Function(p.fresh('inv'), *([z3.IntSort()] * (len(base((CANON[0],))) + 1)))
        n = shape[0]
        inj = quick_forall((n, n), lambda ij: implies(lift(ij[0]) != ij[1], lnot(land(
            *[lift(x) == y for x, y in zip(base((ij[0],)), base((ij[1],)))]))))
        if not inj:
            raise Unsupported('scatter with possibly repeated indices')
        p.assume(Forall(1, lambda j: implies(land(j >= 0, j < n), S(R(*[lift(x).e for x in base((j,))])) == j)))

        def inv(ix):
            o = S(R(*[lift(x).e for x in ix]))
            b = base((o,))
            return land(o >= 0, o < n, *[lift(x) == y for x, y in zip(b, ix)]), (o,)
        return inv
    raise Unsupported('general scatter')


class _Multi(Exception):
    pass


class _TableInv(object):
    def __init__(self, items):
        self.items = items


def _upd_table(items, val, old, ix):
    r = old(ix)
    for o, b in items:
        hit = land(*[_ieq(x, y) for x, y in zip(ix, b)])
        if hit is False:
            continue
        r = val(o) if hit is True else ite(hit, val(o), r)
    return r


_upd_orig = _upd


def _upd(inv, val, old, ix):      # noqa: F811
    if isinstance(inv, _TableInv):
        return _upd_table(inv.items, val, old, ix)
    return _upd_orig(inv, val, old, ix)


class IdxSel(SArr):
    """result of flatnonzero: positions of a mask"""


def ispos(q):
    """still the positions of its mask (not changed in place)"""
    return isinstance(q, IdxSel) and q.st.ver == 0 and q.imap is None and q.sel is not None


def member(a):
    """condition on an integer to be an element of the 1-d array, or None when it is not known"""
    m = getattr(a, 'mem', None)
    if m is not None and m[0] == a.st.ver and m[2] is a.st and a.imap is None:
        return m[1]
    if ispos(a) and len(a.sel.shape) == 1:
        n, mask = a.sel.shape[0], a.sel.mask
        return lambda i: land(lift(i) >= 0, lift(i) < n, tobool(mask((i,))))
    if isinstance(a, SArr) and a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 12:
        f = a.snap()
        return lambda i: lor(*[f((j,)) == i for j in range(a.shape[0])])
    return None


def set_member(a, m):
    if m is not None:
        a.mem = (a.st.ver, m, a.st)
    return a


def shifted(m, c):
    return None if m is None else (lambda i: m(lift(i) - c))


def unique(x, **kw):
    if kw:
        raise Unsupported('unique with options')
    x = asarray(x)
    x = x if x.ndim == 1 else x.ravel()
    if x.k not in 'i':
        raise Unsupported('unique of reals')
    if isinstance(x.shape[0], int) and x.shape[0] <= 1:
        return x.copy()
    p = core.CUR
    n, f, m = x.shape[0], x.snap(), member(x)
    cnt = p.fresh_int('nuniq')
    U = z3.Function(p.fresh('uniq'), z3.IntSort(), z3.IntSort())
    W = z3.Function(p.fresh('uniqsrc'), z3.IntSort(), z3.IntSort())
    R = z3.Function(p.fresh('uniqpos'), z3.IntSort(), z3.IntSort())
    u, w, r = (lambda i: S(U(lift(i).e))), (lambda i: S(W(lift(i).e))), (lambda i: S(R(lift(i).e)))
    p.assume(land(cnt >= 0, cnt <= n, implies(lift(n) >= 1, cnt >= 1)))
    p.assume(Forall(2, lambda i, j: implies(land(lift(i) >= 0, lift(i) < j, lift(j) < cnt), u(i) < u(j))))
    p.assume(Forall(1, lambda i: implies(land(lift(i) >= 0, lift(i) < cnt), land(w(i) >= 0, w(i) < n, u(i) == f((w(i),)),
                                                                                True if m is None else m(u(i))))))
    p.assume(Forall(1, lambda i: implies(land(lift(i) >= 0, lift(i) < n), land(r(i) >= 0, r(i) < cnt, u(r(i)) == f((i,))))))
    return set_member(SArr.new(lambda ix: u(ix[0]), 'i', (cnt,)), m)


def flatnonzero(m):
    m = asarray(m)
    if m.ndim != 1:
        m = m.ravel()
    if m.k != 'b':
        m = m != 0
    if isinstance(m.shape[0], int):
        vals = [m.get(i) for i in range(m.shape[0])]
        if all(isinstance(v, bool) for v in vals):
            ids = [i for i, v in enumerate(vals) if v]
            return SArr.from_flat(ids, (len(ids),), 'i')
    sel = get_sel(m)
    return idxsel(sel)


def idxsel(sel):
    r = IdxSel(Store(memo(lambda ix: sel.pos(ix[0])), 'i', (sel.count,)), (sel.count,))
    r.sel = sel
    r.full = lambda ix: ix[0]
    return r


def nonzero(m):
    m = asarray(m)
    if m.ndim == 1:
        return (flatnonzero(m),)
    raise Unsupported('nonzero of n-d array')


def reshape(a, s):
    s = [sx(i) for i in s]
    size = a.size
    if any(isinstance(i, int) and i == -1 for i in s):
        rest = 1
        for i in s:
            if not (isinstance(i, int) and i == -1):
                rest = rest * i
        j = [q for q, i in enumerate(s) if isinstance(i, int) and i == -1][0]
        if isinstance(rest, int) and rest == 1:
            s[j] = size
        elif isinstance(size, int) and isinstance(rest, int):
            s[j] = size // rest
        else:
            s[j] = sx(lift(size) // rest)
    s = tuple(s)
    if not dim_eq(prod(s), size):
        if isinstance(prod(s), int) and isinstance(size, int):
            raise ValueError('cannot reshape array of size %s into shape %s' % (size, s))
        if not bool(S(lift(prod(s)).e == lift(size).e)):
            raise ValueError('cannot reshape array')
    if len(s) == a.ndim and all(dim_eq(x, y) for x, y in zip(s, a.shape)):
        r = a.view(a.shape, lambda ix: ix) if a.imap is not None else SArr(a.st, a.shape)
        r.sel, r.full = a.sel, a.full
        return r
    os = a.shape
    # only drop/insert unit dims
    o1 = [j for j, d in enumerate(os) if not is_one(d)]
    s1 = [j for j, d in enumerate(s) if not is_one(d)]
    if len(o1) == len(s1) and all(dim_eq(os[x], s[y]) for x, y in zip(o1, s1)):
        nd = len(os)

        def im(ix):
            out = [0] * nd
            for x, y in zip(o1, s1):
                out[x] = ix[y]
            return tuple(out)
        return a.view(s, im)

    def im2(ix):
        flat = 0
        for i, d in zip(ix, s):
            flat = sx(flat * d + i)
        out = []
        for d in reversed(os[1:]):
            if isinstance(flat, int) and isinstance(d, int):
                out.append(flat % d)
                flat = flat // d
            else:
                out.append(sx(lift(flat) % d))
                flat = sx(lift(flat) // d)
        out.append(flat)
        return tuple(reversed(out))
    if not all(isinstance(d, int) for d in os) and a.ndim > 1:
        # flattening keeps symbolic div/mod
        pass
    return a.view(s, im2)


# ------------------------------------------------------------------ reductions
def _axis(a, axis):
    return axis + a.ndim if axis < 0 else axis


def reduce_(a, axis, f, sym, empty_=None):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            if isinstance(a.size, int):
                vals = [a.get(ix) for ix in itertools.product(*[range(d) for d in a.shape])]
                return f(vals)
            a = a.ravel()
        n = a.shape[0]
        if isinstance(n, int):
            return f([a.get(i) for i in range(n)])
        return sym(a)
    if isinstance(axis, tuple):
        for x in sorted([_axis(a, q) for q in axis], reverse=True):
            a = asarray(reduce_(a, x, f, sym))
        return a if a.ndim else a.item()
    axis = _axis(a, axis)
    if axis >= a.ndim or axis < 0:
        raise ValueError('axis out of bounds')
    if a.ndim == 1:
        return reduce_(a, None, f, sym)
    n = a.shape[axis]
    sh = a.shape[:axis] + a.shape[axis + 1:]
    g = a.snap()
    if isinstance(n, int):
        fn = lambda ix: f([g(ix[:axis] + (i,) + ix[axis:]) for i in range(n)])
        return SArr.new(fn, probe(fn, sh), sh)

    def fn(ix):
        return sym(SArr.new(lambda j: g(ix[:axis] + (j[0],) + ix[axis:]), a.k, (n,)))
    return SArr.new(fn, probe(fn, sh), sh)


def _sumlist(v):
    r = 0
    for x in v:
        r = r + x
    return conc(r)


def sum_sym(a):
    """sum of a symbolic-length 1-d array: uninterpreted, identical summands share the symbol"""
    p = core.CUR
    f = a.snap()
    e = f((CANON[0],))
    if a.sel is not None:
        fu = a.full
        ind = a.sel
        g = lambda ix: ite(ind.mask(ix), cast_scalar(fu(ix), 'r' if a.k != 'i' else 'i'), 0)
        return sum_sym(SArr.new(g, a.k, ind.shape)) if len(ind.shape) == 1 else _nopos()
    if isinstance(e, C):
        return C(sum_sym(a.real), sum_sym(a.imag))
    ee = z3.simplify(lift(e).to_int().e)
    n = a.shape[0]
    key = ('sum', lift(n).e.get_id(), ee.get_id())
    if key not in p.defs:
        srt = z3.IntSort() if lift(e).k in 'ib' else z3.RealSort()
        ps = z3.Function(p.fresh('psum'), z3.IntSort(), srt)
        ff = lambda i: lift(f((i,))).to_int()
        P = lambda i: S(ps(lift(i).e))
        p.assume(P(0) == 0)
        p.assume(Forall(1, lambda i: implies(land(i >= 0, i < n), P(i + 1) == P(i) + ff(i))))
        tot = S(ps(lift(n).e))
        p.defs[key] = (tot, ee, n, ff, P)
        p.sums = getattr(p, 'sums', [])
        p.sums.append((tot, n, ff, P))
    return p.defs[key][0]


def np_sum(a, axis=None, **kw):
    r = reduce_(a, axis, _sumlist, sum_sym)
    if kw.get('keepdims'):
        r = expand_dims(r, axis)
    return r


def np_prod(a, axis=None, **kw):
    def f(v):
        r = 1
        for x in v:
            r = r * x
        return conc(r)

    def sym(a):
        raise Unsupported('product over symbolic length')
    return reduce_(a, axis, f, sym)


def mean(a, axis=None, **kw):
    a = asarray(a)
    s = np_sum(a, axis)
    n = a.size if axis is None else a.shape[_axis(a, axis)]
    return ew(vdiv, s, n)


def _extreme(sign):
    def f(v):
        if not v:
            raise ValueError('zero-size array to reduction operation')
        r = v[0]
        for x in v[1:]:
            r = vmax(r, x) if sign > 0 else vmin(r, x)
        return r

    def sym(a):
        p = core.CUR
        n = a.shape[0]
        if not bool(lift(n) > 0):
            raise ValueError('zero-size array to reduction operation')
        m, kk = arg_extreme(a, sign)
        return m
    return f, sym


def arg_extreme(a, sign):
    p = core.CUR
    f = a.snap()
    n = a.shape[0]
    ee = z3.simplify(lift(f((CANON[0],))).to_int().e)
    key = ('ext', sign, lift(n).e.get_id(), ee.get_id())
    if key not in p.defs:
        kk = p.fresh_int('argx')
        p.idx.append(kk.e)
        p.assume(land(kk >= 0, kk < n))
        g = lambda i: lift(f((i,))).to_int()
        m = g(kk)
        mm = S(z3.Const(p.fresh('ext'), m.e.sort()))
        p.assume(mm == m)
        if sign > 0:
            p.assume(Forall(1, lambda i: implies(land(i >= 0, i < n), land(g(i) <= mm, implies(i < kk, g(i) < mm)))))
        else:
            p.assume(Forall(1, lambda i: implies(land(i >= 0, i < n), land(g(i) >= mm, implies(i < kk, g(i) > mm)))))
        p.defs[key] = (mm, kk, ee, n)
    return p.defs[key][:2]


def np_sqrt_(x):
    return vsqrt(x)


def amax(a, axis=None, **kw):
    return reduce_(a, axis, *_extreme(1))


def amin(a, axis=None, **kw):
    return reduce_(a, axis, *_extreme(-1))


def _argx(sign):
    def f(v):
        if not v:
            raise ValueError('attempt to get argmax of an empty sequence')
        bi, b = 0, v[0]
        for i, x in enumerate(v[1:], 1):
            c = (x > b) if sign > 0 else (x < b)
            bi, b = ite(c, i, bi), ite(c, x, b)
        return bi

    def sym(a):
        if not bool(lift(a.shape[0]) > 0):
            raise ValueError('attempt to get argmax of an empty sequence')
        return arg_extreme(a, sign)[1]
    return f, sym


def argmax(a, axis=None, **kw):
    return reduce_(a, axis, *_argx(1))


def argmin(a, axis=None, **kw):
    return reduce_(a, axis, *_argx(-1))


def np_any(a, axis=None, **kw):
    if isinstance(a, bool):
        return a
    if isinstance(a, S):
        return tobool(a)
    a = asarray(a)
    if axis is None:
        f = a.snap()
        if a.sel is not None:
            fu, mk = a.full, a.sel
            return lnot(forall_bool(mk.shape, lambda ix: implies(mk.mask(ix), lnot(tobool(fu(ix)))))) \
                if False else _any(mk.shape, lambda ix: land(mk.mask(ix), tobool(fu(ix))))
        return _any(a.shape, lambda ix: tobool(f(ix)))
    return reduce_(a, axis, lambda v: lor(*[tobool(x) for x in v]), lambda b: np_any(b))


def _any(shape, pred):
    b = forall_bool(shape, lambda ix: lnot(pred(ix)))
    if isinstance(b, bool):
        return not b
    r = S(z3.Not(b.e))
    q = b.q
    if q is not None:
        r.q = lambda path, d: q(path, not d)
    return r


def np_all(a, axis=None, **kw):
    if isinstance(a, bool):
        return a
    if isinstance(a, S):
        return tobool(a)
    a = asarray(a)
    if axis is None:
        f = a.snap()
        if a.sel is not None:
            fu, mk = a.full, a.sel
            return forall_bool(mk.shape, lambda ix: implies(mk.mask(ix), tobool(fu(ix))))
        return forall_bool(a.shape, lambda ix: tobool(f(ix)))
    return reduce_(a, axis, lambda v: land(*[tobool(x) for x in v]), lambda b: np_all(b))


def count_nonzero(a, axis=None):
    return np_sum(ew(lambda x: ite(tobool(x), 1, 0), a), axis)


def cumsum(a, axis=None, **kw):
    a = asarray(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    axis = _axis(a, axis)
    n = a.shape[axis]
    f = a.snap()
    k = 'i' if a.k in 'ib' else a.k
    if isinstance(n, int):
        def fn(ix):
            i = ix[axis]
            if isinstance(i, int):
                r = 0
                for j in range(i + 1):
                    r = r + f(ix[:axis] + (j,) + ix[axis + 1:])
                return cast_scalar(r, k)
            r = fn(ix[:axis] + (n - 1,) + ix[axis + 1:])
            for j in range(n - 2, -1, -1):
                r = ite(i == j, fn(ix[:axis] + (j,) + ix[axis + 1:]), r)
            return r
        return SArr.new(fn, k, a.shape)
    if a.ndim == 1:
        sum_sym_key = sum_sym(a)
        p = core.CUR
        for tot, n2, ff, P in p.sums:
            if tot is sum_sym_key:
                return SArr.new(lambda ix: P(lift(ix[0]) + 1), k, a.shape)
    raise Unsupported('cumsum along symbolic axis of n-d array')


def cumprod(a, axis=None):
    a = asarray(a)
    vals = a.tolist()
    out, r = [], 1
    for v in vals:
        r = r * v
        out.append(r)
    return SArr.from_flat(out, (len(out),))


def diff(a, n=1, axis=-1):
    a = asarray(a)
    for _ in range(n):
        ax = _axis(a, axis)
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[ax], s2[ax] = slice(1, None), slice(None, -1)
        x, y = a[tuple(s1)], a[tuple(s2)]
        a = (x != y) if a.k == 'b' else x - y
    return a


def argsort(a, axis=-1, kind=None, **kw):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('argsort n-d')
    p = core.CUR
    n = a.shape[0]
    f = a.snap()
    if isinstance(n, int) and n <= 1:
        return arange(n)
    # strictly increasing already: the identity
    if isinstance(n, int):
        if n <= 16 and all(p.provable(lift(f((i,))) < f((i + 1,))) for i in range(n - 1)):
            return arange(n)
    else:
        q = p.fresh_int('q')
        if p.provable(implies(land(q >= 0, q < lift(n) - 1), lift(f((q,))) < f((q + 1,)))):
            return arange(n)
    P = z3.Function(p.fresh('perm'), z3.IntSort(), z3.IntSort())
    Q = z3.Function(p.fresh('iperm'), z3.IntSort(), z3.IntSort())
    pf, qf = (lambda i: S(P(lift(i).e))), (lambda i: S(Q(lift(i).e)))
    facts = [Forall(1, lambda i: implies(land(i >= 0, i < n), land(pf(i) >= 0, pf(i) < n, qf(pf(i)) == i,
                                                                   qf(i) >= 0, qf(i) < n, pf(qf(i)) == i))),
             Forall(2, lambda i, j: implies(land(i >= 0, i < j, j < n), lift(f((pf(i),))) <= f((pf(j),))))]
    for x in facts:
        p.assume(x)
    p.__dict__.setdefault('perms', []).append((pf, qf))
    return SArr.new(lambda ix: pf(ix[0]), 'i', (n,))


def sort(a, axis=-1, **kw):
    a = asarray(a)
    return a[argsort(a)]


# ------------------------------------------------------------------ joining
def concatenate(items, axis=0, **kw):
    items = [asarray(i) for i in items]
    if axis is None:
        items = [i.ravel() for i in items]
        axis = 0
    if any(i.ndim == 0 for i in items):
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    nd = items[0].ndim
    if any(i.ndim != nd for i in items):
        raise ValueError('all the input array dimensions must match')
    axis = axis + nd if axis < 0 else axis
    k = join_kinds([i.k for i in items if not (isinstance(i.size, int) and i.size == 0 and len(items) > 1)] or [items[0].k])
    offs, o = [], 0
    for i in items:
        offs.append(o)
        o = sx(o + i.shape[axis]) if not isinstance(o, int) or not isinstance(i.shape[axis], int) else o + i.shape[axis]
    fns = [i.snap() for i in items]
    ends = offs[1:] + [o]
    use = [j for j in range(len(items)) if not (isinstance(items[j].shape[axis], int) and items[j].shape[axis] == 0)]

    def fn(ix):
        i = ix[axis]
        r = None
        for j in reversed(use):
            v = lambda j=j: cast_scalar(fns[j](ix[:axis] + (sx(i - offs[j]) if isinstance(i, int) and isinstance(
                offs[j], int) else sx(lift(i) - offs[j]),) + ix[axis + 1:]), k)
            if r is None:
                if isinstance(i, int) and isinstance(offs[j], int) and i < offs[j]:
                    continue
                r = v()
            else:
                c = _clt(i, ends[j])
                if c is False:
                    continue
                if c is True:
                    r = v()
                else:
                    r = ite(c, v(), r)
        return r
    sh = list(items[0].shape)
    sh[axis] = o
    for d in range(nd):
        if d != axis:
            for i in items[1:]:
                if not dim_eq(i.shape[d], sh[d]):
                    if not (isinstance(i.size, int) and i.size == 0):
                        raise ValueError('all the input array dimensions must match exactly')
    r = SArr.new(fn, k, tuple(sh))
    if nd == 1 and k == 'i':
        ms = [member(i) for i in items]
        if all(m is not None for m in ms):
            set_member(r, lambda i: lor(*[m(i) for m in ms]))
    return r


def hstack(items):
    items = [atleast_1d(i) for i in items]
    return concatenate(items, 0 if items[0].ndim == 1 else 1)


def vstack(items):
    return concatenate([atleast_2d(i) for i in items], 0)


def column_stack(items):
    return stack([asarray(i) for i in items], axis=1)


class RClass(object):
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for q in key:
            if isinstance(q, slice):
                st = 0 if q.start is None else q.start
                if isinstance(q.step, C):
                    parts.append(linspace(st, q.stop, int(q.step.im)))
                else:
                    parts.append(arange(st, q.stop, q.step))
            elif isinstance(q, str):
                raise Unsupported('r_ with string')
            else:
                parts.append(atleast_1d(q))
        return concatenate(parts)


class CClass(object):
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        cols = []
        for q in key:
            q = asarray(q)
            cols.append(q[:, None] if q.ndim == 1 else (q.reshape(1, 1) if q.ndim == 0 else q))
        return concatenate(cols, axis=1)


class SClass(object):
    def __getitem__(self, key):
        return key


def tile(a, reps):
    a = asarray(a)
    if a.ndim == 1 and isinstance(reps, tuple) and len(reps) == 2 and reps[1] == 1:
        return a.view((sx(reps[0]), a.shape[0]), lambda ix: (ix[1],)).copy()
    raise Unsupported('tile')


def broadcast_arrays(*xs, **kw):
    xs = [asarray(x) for x in xs]
    sh = bshape([x.shape for x in xs])
    return [bto(x, sh) for x in xs]


def bto(x, sh):
    x = asarray(x)
    s0 = x.shape
    r = x.view(sh, lambda ix: bindex(s0, ix))
    if x.sel is not None and len(sh) == 1:
        r.sel, r.full = x.sel, x.full
    return r


def expand_dims(a, axis):
    a = asarray(a)
    axis = axis + a.ndim + 1 if axis < 0 else axis
    return a[tuple([slice(None)] * axis + [None])]


def squeeze(a, axis=None):
    return asarray(a).squeeze(axis)


# ------------------------------------------------------------------ functions
def uf1(name):
    def g(x, *a, **kw):
        def f(v):
            if isinstance(v, C):
                return cfun(name, v)
            return fn1(name, v)
        return ew(f, x)
    g.__name__ = name
    return g


def cfun(name, z):
    if name == 'exp':
        m = fn1('exp', z.re)
        return C(m * fn1('cos', z.im), m * fn1('sin', z.im))
    if name == 'sin':
        return C(fn1('sin', z.re) * fn1('cosh', z.im), fn1('cos', z.re) * fn1('sinh', z.im))
    if name == 'cos':
        return C(fn1('cos', z.re) * fn1('cosh', z.im), -(fn1('sin', z.re) * fn1('sinh', z.im)))
    raise Unsupported('complex ' + name)


def sqrt(x, *a, **kw):
    return ew(vsqrt, x)


def square(x):
    return ew(lambda v: v * v, x)


def power(a, b, *x):
    return ew(vpow, a, b)


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab

    def f(c, a, b):
        r = ite(tobool(c), a, b)
        return r
    ks = [kind_of(conc(x)) if not isinstance(x, (list, tuple)) else asarray(x).k for x in ab]
    k = join_kinds(ks)
    return ew(lambda c, a, b: cast_scalar(f(c, a, b), k) if k != 'o' else f(c, a, b), c, a, b) \
        if any(isinstance(x, (SArr, list, tuple)) for x in (c, a, b)) else asarray(f(c, a, b))


def maximum(a, b, **kw):
    return ew(vmax, a, b)


def minimum(a, b, **kw):
    return ew(vmin, a, b)


def clip(a, lo, hi, **kw):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def _floor(x):
    x = conc(x)
    if isinstance(x, S):
        return core.floor_(x).real() if x.k != 'i' else x.real()
    if isinstance(x, float):
        return x
    return Fraction(math.floor(x))


def _ceil(x):
    return -_floor(-x)


def floor(x):
    r = ew(_floor, x)
    if isinstance(r, SArr) and isinstance(r.size, int) and 0 < r.size <= 8 and r.st.fn is not None and core.CUR is not None:
        import itertools
        vals = []
        for ix in itertools.product(*[range(d) for d in r.shape]):
            e = lift(r.get(*ix))
            k = None
            if not isinstance(conc(e), (int, Fraction)):
                t = z3.simplify(z3.ToInt(e.real().e))
                k = core.CUR.unique_value(t)
            vals.append(lift(k).real() if k is not None else r.get(*ix))
        return SArr.from_flat(vals, r.shape, r.k)
    return r


def ceil(x):
    return ew(_ceil, x)


def trunc(x):
    return ew(lambda v: cast_scalar(cast_scalar(v, 'i'), 'r'), x)


def _round(v):
    """half to even"""
    if isinstance(v, S):
        if v.k == 'i':
            return v
        f = core.floor_(v)
        d = v - f
        up = lor(d > Fraction(1, 2), land(d == Fraction(1, 2), f % 2 == 1))
        return ite(up, (f + 1).real(), f.real())
    return Fraction(round(v)) if isinstance(v, Fraction) else v


def round_(x, decimals=0, **kw):
    if decimals:
        raise Unsupported('round decimals')
    return ew(_round, x)


def mod(a, b):
    return ew(OPS['mod'], a, b)


def absolute(x):
    return ew(vabs, x)


def sign(x):
    return ew(vsign, x)


def cases(v, p):
    """predicate on a value that may be a case distinction with infinite or undefined cases"""
    if isinstance(v, C):
        return lor(cases(v.re, p), cases(v.im, p))
    if isinstance(v, S) and v.k == 'r':
        if core.inf_case(v.e):
            c, a, b = v.e.children()
            return ite(S(c), cases(core.uninf(a), p), cases(core.uninf(b), p))
        v = core.uninf(v.e)
    return bool(p(v))


def isfinite(x):
    return ew(lambda v: lnot(cases(v, lambda q: is_inf(q) or is_nan(q))), x)


def isnan(x):
    if core.CUR is not None and getattr(core.CUR, 'missing', None) is not None:
        return ew(lambda v: S(core.CUR.missing(lift(v).real().e)), x)
    return ew(lambda v: cases(v, is_nan), x)


def isinf(x):
    return ew(lambda v: cases(v, is_inf), x)


def angle(z, deg=False):
    return ew(lambda v: arctan2_(v.im, v.re) if isinstance(v, C) else ite(lift(v) >= 0, Fraction(0), S(core.PI)), z)


def arctan2_(y, x):
    return S(core.uf('arctan2', 2)(core.z3real(y), core.z3real(x)))


def arctan2(y, x):
    return ew(arctan2_, y, x)


def hypot(a, b):
    return ew(lambda x, y: vsqrt(x * x + y * y), a, b)


def deg2rad(x):
    return ew(lambda v: v * S(core.PI) / 180, x)


def rad2deg(x):
    return ew(lambda v: v * 180 / S(core.PI), x)


def real(x):
    return ew(lambda v: v.re if isinstance(v, C) else v, x)


def imag(x):
    return ew(lambda v: v.im if isinstance(v, C) else v * 0, x)


def conj(x):
    return ew(lambda v: v.conj() if isinstance(v, C) else v, x)


def logical(op):
    def g(a, b, *x):
        f = {'and': lambda a, b: land(tobool(a), tobool(b)), 'or': lambda a, b: lor(tobool(a), tobool(b)),
             'xor': lambda a, b: S(z3.Xor(lift(tobool(a)).e, lift(tobool(b)).e))}[op]
        return ew(f, a, b)
    return g


def logical_not(a):
    return ew(lambda x: lnot(tobool(x)), a)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return np_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return np_sum(a * b[None, :], 1)
    if a.ndim == 1 and b.ndim == 2:
        return np_sum(a[:, None] * b, 0)
    if a.ndim == 2 and b.ndim == 2:
        return np_sum(a[:, :, None] * b[None, :, :], 1)
    raise Unsupported('dot')


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return a[:, None] * b[None, :]


def extract(c, a):
    c, a = asarray(c), asarray(a)
    if c.k != 'b':
        c = c != 0
    if c.ndim != 1 and a.ndim == c.ndim:
        return a[c]
    return a.ravel()[c.ravel()]


def place(a, mask, v):
    mask = asarray(mask)
    v = asarray(v)
    if isinstance(v.size, int) and v.size == 1:
        a[mask] = v.item()
    else:
        a[mask] = v


def putmask(a, mask, v):
    mask = asarray(mask)
    if not isinstance(v, SArr):
        a[mask] = v
        return
    if len(v.shape) != len(a.shape) or not all(dim_eq(x, y) for x, y in zip(v.shape, a.shape)):
        raise Unsupported('putmask with repeated values')
    f, m, old = v.snap(), mask.snap(), a.snap()
    a[...] = SArr.new(lambda ix: ite(tobool(m(ix)), f(ix), old(ix)), v.k, a.shape)


_ORDER = 'birc'


def result_type(*xs):
    ks = []
    for x in xs:
        if isinstance(x, (Dtype, str)) or isinstance(x, type) or (not isinstance(x, (SArr, S, C)) and callable(x)):
            ks.append(kind_from_dtype(x))
        else:
            ks.append(asarray(x).k if isinstance(x, (list, tuple, SArr)) else kind_of(conc(x)))
    if 'o' in ks:
        raise Unsupported('result_type of objects')
    return DT[max(ks, key=_ORDER.index)]


def mintypecode(cs, *a):
    return DT[max([kind_from_dtype(c) for c in cs] + ['r'], key=_ORDER.index)]


def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        raise Unsupported('searchsorted with a sorter')
    a = asarray(a)
    if a.ndim != 1:
        raise ValueError('object too deep for desired array')
    if isinstance(v, (list, tuple)):
        v = asarray(v)
    n = a.shape[0]
    f = a.snap()
    left = side == 'left'
    below = (lambda x, y: lift(x) < y) if left else (lambda x, y: lift(x) <= y)
    if isinstance(n, int) and n <= 8:
        def g(x):
            r = 0
            for i in range(n):
                r = r + ite(below(f((i,)), x), 1, 0)
            return r
        return ew(g, v)
    p = core.CUR
    F = z3.Function(p.fresh('ssort'), z3.RealSort(), z3.IntSort())
    at_ = lambda x: S(F(lift(x).real().e))
    p.__dict__.setdefault('ssorts', []).append(at_)

    def fact(x):
        k = at_(x)
        return land(k >= 0, k <= n, implies(k > 0, below(f((k - 1,)), x)), implies(k < n, lnot(below(f((k,)), x))))
    if not isinstance(v, SArr):
        p.assume(fact(v))
        p.idx.append(at_(v).e)
        return at_(v)
    g, shape = (v.full, v.sel.shape) if v.sel is not None else (v.snap(), v.shape)
    if all(isinstance(d, int) for d in shape) and int(np_prod(list(shape)) if shape else 1) <= 16:
        import itertools
        for ix in itertools.product(*[range(d) for d in shape]):
            p.assume(fact(g(ix)))
    else:
        p.assume(Forall(len(shape), lambda *ix: implies(land(*[land(lift(i) >= 0, lift(i) < d) for i, d in zip(ix, shape)]), fact(g(ix)))))
    return ew(at_, v)


def bincount(x, weights=None, minlength=0):
    x = asarray(x)
    n = x.shape[0]
    if x.ndim != 1 or not isinstance(n, int):
        raise Unsupported('bincount of a symbolic number of values')
    xs = [x.get(i) for i in range(n)]
    ws = [1] * n if weights is None else [lift(asarray(weights).get(i)).real() for i in range(n)]
    if not core.CUR.provable(land(*[land(lift(i) >= 0, lift(i) < minlength) for i in xs])):
        raise Unsupported('bincount of unknown length')
    return SArr.new(lambda ix: _sumlist([ite(lift(i) == ix[0], w, 0) for i, w in zip(xs, ws)]), 'i' if weights is None else 'r', (sx(minlength),))


def choose(i, choices, **kw):
    m = len(choices)

    def pick(k, *vs):
        r = vs[-1]
        for j in range(m - 2, -1, -1):
            r = ite(lift(k) == j, vs[j], r)
        return r
    return ew(pick, i, *choices)


def take(a, i, axis=None, **kw):
    a = asarray(a)
    if axis is None:
        return a.ravel()[i]
    axis = _axis(a, axis)
    return a[tuple([slice(None)] * axis + [i])]


def put(a, i, v, **kw):
    if a.ndim != 1:
        a = a.reshape(-1)
    a[i] = v


def delete(a, i, axis=None):
    raise Unsupported('delete')


def trapz(y, x=None, dx=1, axis=-1):
    y = asarray(y)
    if y.ndim != 1:
        raise Unsupported('trapz n-d')
    if x is None:
        d = dx
    else:
        d = diff(asarray(x))
    return np_sum(d * (y[1:] + y[:-1]) / 2)


def polyval(p, x):
    p = asarray(p)
    y = ew(lambda v: v * 0, x)
    for c in p.tolist():
        y = y * x + c
    return y


def _pcoef(a):
    if isinstance(a, Poly1d):
        return list(a._c)
    a = atleast_1d(a)
    if a.ndim != 1 or not isinstance(sx(a.shape[0]), int):
        raise Unsupported('polynomial with a symbolic number of coefficients')
    return list(a.tolist())


def _parr(cs, *src):
    return Poly1d(cs) if any(isinstance(q, Poly1d) for q in src) else array(cs)


def polyadd(a, b):
    x, y = _pcoef(a), _pcoef(b)
    n = max(len(x), len(y))
    return _parr([p + q for p, q in zip([0] * (n - len(x)) + x, [0] * (n - len(y)) + y)], a, b)


def polysub(a, b):
    x, y = _pcoef(a), _pcoef(b)
    n = max(len(x), len(y))
    return _parr([p - q for p, q in zip([0] * (n - len(x)) + x, [0] * (n - len(y)) + y)], a, b)


def polymul(a, b):
    x, y = list(Poly1d(a)._c), list(Poly1d(b)._c)
    return _parr(_convolve(x, y), a, b)


def _convolve(x, y):
    r = [0] * (len(x) + len(y) - 1)
    for i, p in enumerate(x):
        for j, q in enumerate(y):
            r[i + j] = r[i + j] + p * q
    return r


def convolve(a, b, mode='full'):
    x, y = _pcoef(a), _pcoef(b)
    r = _convolve(x, y)
    if mode == 'valid':
        m = min(len(x), len(y))
        r = r[m - 1:len(r) - m + 1]
    elif mode == 'same':
        n, m = max(len(x), len(y)), min(len(x), len(y))
        r = r[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode != 'full':
        raise Unsupported('convolve mode')
    return array(r)


def trim_zeros(a, trim='fb'):
    cs = _pcoef(a)
    while cs and 'f' in trim.lower() and bool(core.veq(cs[0], 0)):
        cs.pop(0)
    while cs and 'b' in trim.lower() and bool(core.veq(cs[-1], 0)):
        cs.pop()
    return array(cs) if cs else zeros(0)


class Poly1d(object):
    """numpy.poly1d with a known number of symbolic coefficients (leading zeros removed, as numpy does)"""
    __vf_obj__ = True
    variable = 'x'

    def __init__(self, c, r=False, variable=None):
        if r:
            raise Unsupported('poly1d from roots')
        if isinstance(c, Poly1d):
            c = c.coeffs
        c = atleast_1d(c)
        if c.ndim != 1 or not isinstance(sx(c.shape[0]), int):
            raise Unsupported('poly1d with a symbolic number of coefficients')
        cs = list(c.tolist())
        while cs and bool(core.veq(cs[0], 0)):
            cs.pop(0)
        self._k = c.k
        self._c = cs or [0]

    @property
    def coeffs(self):
        return array(list(self._c)) if self._k != 'r' else array([lift(x).real() for x in self._c])
    c = coef = coefficients = coeffs

    @property
    def order(self):
        return len(self._c) - 1
    o = order

    def __len__(self):
        return self.order

    def __call__(self, x):
        if isinstance(x, Poly1d):
            raise Unsupported('composition of poly1d')
        return polyval(self.coeffs, x if isinstance(x, SArr) or core.is_num(conc(x)) else asarray(x))

    def __getitem__(self, i):
        i = conc(i)
        return self._c[self.order - i] if 0 <= i <= self.order else 0

    def __eq__(self, o):
        o = Poly1d(o)
        return len(o._c) == len(self._c) and land(*[core.veq(a, b) for a, b in zip(self._c, o._c)])

    def __ne__(self, o):
        return core.lnot(self == o)
    __hash__ = None

    def __neg__(self):
        return Poly1d([-x for x in self._c])

    def __pos__(self):
        return self

    @staticmethod
    def _pair(a, b):
        a, b = list(Poly1d(a)._c), list(Poly1d(b)._c)
        n = max(len(a), len(b))
        return [0] * (n - len(a)) + a, [0] * (n - len(b)) + b

    def __add__(self, o):
        return Poly1d([x + y for x, y in zip(*self._pair(self, o))])
    __radd__ = __add__

    def __sub__(self, o):
        return Poly1d([x - y for x, y in zip(*self._pair(self, o))])

    def __rsub__(self, o):
        return Poly1d(o) - self

    def __mul__(self, o):
        if core.is_num(conc(o)):
            return Poly1d([x * o for x in self._c])
        o = Poly1d(o)
        r = [0] * (len(self._c) + len(o._c) - 1)
        for i, x in enumerate(self._c):
            for j, y in enumerate(o._c):
                r[i + j] = r[i + j] + x * y
        return Poly1d(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not core.is_num(conc(o)):
            raise Unsupported('division of poly1d')
        return Poly1d([vdiv(x, o) for x in self._c])

    def __pow__(self, n):
        r = Poly1d([1])
        for _ in range(int(n)):
            r = r * self
        return r

    def deriv(self, m=1):
        c = self._c
        for _ in range(int(conc(m))):
            n = len(c) - 1
            c = [x * (n - i) for i, x in enumerate(c[:-1])] or [0]
        return Poly1d(c)

    def integ(self, m=1, k=0):
        if conc(m) != 1:
            raise Unsupported('poly1d.integ')
        n = len(self._c)
        return Poly1d([vdiv(x, n - i) for i, x in enumerate(self._c)] + [k])

    @property
    def r(self):
        c = self._c
        if len(c) == 1:
            return zeros(0)
        if len(c) == 2:
            return array([vdiv(-c[1], c[0])])
        if len(c) != 3:
            raise Unsupported('roots of a polynomial of high order')
        d = c[1] * c[1] - 4 * c[0] * c[2]
        if bool(d >= 0):
            q = vsqrt(d)
            return array([vdiv(-c[1] + q, 2 * c[0]), vdiv(-c[1] - q, 2 * c[0])])
        q = vsqrt(-d)
        m = vdiv(-c[1], 2 * c[0])
        h = vdiv(q, 2 * c[0])
        return array([core.C(m, h), core.C(m, -h)])
    roots = r


def meshgrid(*xs, **kw):
    if kw.get('indexing', 'xy') != 'xy' or len(xs) != 2:
        raise Unsupported('meshgrid')
    x, y = asarray(xs[0]), asarray(xs[1])
    sh = (y.shape[0], x.shape[0])
    return [x.view(sh, lambda ix: (ix[1],)).copy(), y.view(sh, lambda ix: (ix[0],)).copy()]


def eye(n, *a, **kw):
    return SArr.new(lambda ix: ite(_ieq(ix[0], ix[1]), Fraction(1), Fraction(0)), 'r', (sx(n), sx(n)))


def triu(m, k=0):
    m = asarray(m)
    f = m.snap()
    z = cast_scalar(0, m.k)
    return SArr.new(lambda ix: ite(_cle(sx(lift(ix[0]) + k), ix[1]), f(ix), z), m.k, m.shape)


def tril(m, k=0):
    m = asarray(m)
    f = m.snap()
    z = cast_scalar(0, m.k)
    return SArr.new(lambda ix: ite(_cle(ix[1], sx(lift(ix[0]) + k)), f(ix), z), m.k, m.shape)


def fliplr(a):
    return a[:, ::-1]


def flipud(a):
    return a[::-1]


def diag(a, k=0):
    a = asarray(a)
    if a.ndim == 2:
        return a.diagonal()
    f = a.snap()
    n = a.shape[0]
    return SArr.new(lambda ix: ite(_ieq(ix[0], ix[1]), f((ix[0],)), cast_scalar(0, a.k)), a.k, (n, n))


def roll(a, s, axis=None):
    raise Unsupported('roll')


def unwrap(*a, **k):
    raise Unsupported('unwrap')


def ndim(a):
    if isinstance(a, str):
        return 0
    if isinstance(a, (list, tuple)) and a and all(isinstance(x, (str, int)) for x in a):
        return 1
    return asarray(a).ndim


def shape_(a):
    return asarray(a).shape


def size_(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]


def ravel(a, *x, **kw):
    return asarray(a).ravel(*x, **kw)


def repeat(a, k, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    axis = _axis(a, axis)
    k = conc(asarray(k).item()) if isinstance(k, SArr) and k.size == 1 else conc(k)
    if isinstance(k, SArr):
        raise Unsupported('repeat with several counts')
    n = a.shape[axis]
    f = a.snap()
    sh = a.shape[:axis] + (sx(lift(n) * k),) + a.shape[axis + 1:]
    return SArr.new(lambda ix: f(ix[:axis] + (0 if is_one(n) else (ix[axis] // k if isinstance(ix[axis], int) and isinstance(k, int) else lift(ix[axis]) // k),) + ix[axis + 1:]), a.k, sh)


def iscomplex(a):
    raise Unsupported('iscomplex')


def iscomplexobj(a):
    return kind_of(a) == 'c'


def isscalar(a):
    return isinstance(a, (S, C, int, Fraction, float, str))


def isin(a, b):
    b = asarray(b).ravel().tolist()
    return ew(lambda x: lor(*[veq(x, y) for y in b]), a)


def heaviside(x, h):
    return ew(lambda a, b: ite(a < 0, Fraction(0), ite(a > 0, Fraction(1), b)), x, h)


def sinc(x):
    return ew(lambda v: ite(v == 0, Fraction(1), vdiv(fn1('sin', v * S(core.PI)), v * S(core.PI))), x)


def vectorize(f, *a, **kw):
    def g(*args):
        return ew(f, *args)
    return g


def allclose(a, b, *r, **k):
    raise Unsupported('allclose')


def nan_to_num(x, *a, **k):
    return x


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = asarray(xp), asarray(fp)
    n = xp.shape[0]
    if period is not None or not isinstance(n, int) or n > 12 or n < 1 or xp.ndim != 1 or fp.ndim != 1:
        raise Unsupported('interp in a table of symbolic size')
    if not core.CUR.provable(land(*[xp.get(i) < xp.get(i + 1) for i in range(n - 1)])):
        raise Unsupported('interp in a table that is not increasing')
    X, F = [xp.get(i) for i in range(n)], [fp.get(i) for i in range(n)]
    lo, hi = F[0] if left is None else left, F[-1] if right is None else right

    def g(t):
        t = lift(t)
        r = F[-1]
        for i in range(n - 2, -1, -1):
            r = ite(t < X[i + 1], F[i] + vdiv(F[i + 1] - F[i], X[i + 1] - X[i]) * (t - X[i]), r)
        return ite(t < X[0], lo, ite(t > X[-1], hi, r))
    return ew(g, x)


class ErrState(object):
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Finfo(object):
    def __init__(self, *a):
        self.eps = Fraction(repr(2.220446049250313e-16))
        self.max = Fraction(repr(1.7976931348623157e+308))
        self.tiny = Fraction(repr(2.2250738585072014e-308))
        self.min = -self.max
        self.machar = self
        self.xmax = self.max


class StubAttr(object):
    """an unmodelled library object; any use of it is outside the subset"""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return StubAttr(self._n + '.' + k)

    def __call__(self, *a, **k):
        raise Unsupported('call of unmodelled ' + self._n)

    def __getitem__(self, k):
        raise Unsupported('unmodelled ' + self._n)

    def __bool__(self):
        raise Unsupported('unmodelled ' + self._n)


class NP(object):
    ndarray = SArr
    newaxis = None
    inf = Inf = Infinity = float('inf')
    nan = NaN = NAN = float('nan')
    euler_gamma = Fraction('0.57721566490153286060')
    float64 = float_ = float32 = double = DT['r']
    int64 = int_ = int32 = int8 = intp = uint64 = uint32 = int16 = DT['i']
    bool_ = DT['b']
    complex128 = complex_ = complexfloating = DT['c']
    integer, floating = DT['i'], DT['r']
    r_, c_, s_ = RClass(), CClass(), SClass()
    errstate = ErrState
    finfo = Finfo

    @property
    def pi(self):
        return S(core.PI)

    @property
    def e(self):
        return fn1('exp', 1)

    def dtype(self, t):
        return DT[kind_from_dtype(t)]

    def issubdtype(self, a, b):
        return kind_from_dtype(a) == kind_from_dtype(b)

    def seterr(self, **k):
        return {}

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return StubAttr('numpy.' + k)


NPOBJ = NP()
for _n, _f in dict(
        asarray=asarray, array=array, atleast_1d=atleast_1d, atleast_2d=atleast_2d, zeros=zeros, ones=ones,
        empty=empty, full=full_, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
        full_like=full_like, arange=arange, linspace=linspace, flatnonzero=flatnonzero, nonzero=nonzero,
        where=where, sum=np_sum, prod=np_prod, mean=mean, max=amax, min=amin, amax=amax, amin=amin, argmax=argmax,
        argmin=argmin, any=np_any, all=np_all, cumsum=cumsum, cumprod=cumprod, diff=diff, argsort=argsort,
        sort=sort, concatenate=concatenate, hstack=hstack, vstack=vstack, column_stack=column_stack, stack=stack,
        tile=tile, broadcast_arrays=broadcast_arrays, broadcast_to=bto, expand_dims=expand_dims, squeeze=squeeze,
        sqrt=sqrt, square=square, power=power, maximum=maximum, minimum=minimum, fmax=maximum, fmin=minimum,
        clip=clip, floor=floor, ceil=ceil, trunc=trunc, fix=trunc, round=round_, around=round_, round_=round_,
        rint=round_, mod=mod, remainder=mod, abs=absolute, absolute=absolute, fabs=absolute, sign=sign,
        unique=unique, isfinite=isfinite, isnan=isnan, isinf=isinf, angle=angle, arctan2=arctan2, hypot=hypot, deg2rad=deg2rad,
        rad2deg=rad2deg, degrees=rad2deg, radians=deg2rad, real=real, imag=imag, conj=conj, conjugate=conj,
        logical_and=logical('and'), logical_or=logical('or'), logical_xor=logical('xor'), logical_not=logical_not,
        dot=dot, outer=outer, extract=extract, place=place, putmask=putmask, result_type=result_type, mintypecode=mintypecode, take=take, put=put, searchsorted=searchsorted, bincount=bincount, interp=interp, ptp=lambda a, axis=None, **kw: amax(a, axis) - amin(a, axis), choose=choose, delete=delete, trapz=trapz,
        polyval=polyval, polyadd=polyadd, polysub=polysub, polymul=polymul, convolve=convolve, trim_zeros=trim_zeros, meshgrid=meshgrid, eye=eye, identity=eye, triu=triu, tril=tril, fliplr=fliplr,
        flipud=flipud, diag=diag, ndim=ndim, shape=shape_, size=size_, ravel=ravel, iscomplexobj=iscomplexobj,
        isscalar=isscalar, isin=isin, heaviside=heaviside, sinc=sinc, vectorize=vectorize,
        count_nonzero=count_nonzero, nan_to_num=nan_to_num, reshape=lambda a, s, *o, **k: asarray(a).reshape(s, **(dict(order=o[0]) if o else k)), repeat=repeat,
        transpose=lambda a, *s: asarray(a).transpose(*s), copy=lambda a: asarray(a).copy(),
        add=lambda a, b: ew(OPS['add'], a, b), subtract=lambda a, b: ew(OPS['sub'], a, b),
        multiply=lambda a, b: ew(OPS['mul'], a, b), divide=lambda a, b: ew(OPS['div'], a, b),
        true_divide=lambda a, b: ew(OPS['div'], a, b), negative=lambda a: ew(lambda x: -x, a),
        floor_divide=lambda a, b: ew(OPS['fdiv'], a, b),
        less=lambda a, b: ew(OPS['lt'], a, b), less_equal=lambda a, b: ew(OPS['le'], a, b),
        greater=lambda a, b: ew(OPS['gt'], a, b), greater_equal=lambda a, b: ew(OPS['ge'], a, b),
        equal=lambda a, b: ew(OPS['eq'], a, b), not_equal=lambda a, b: ew(OPS['ne'], a, b),
        bitwise_and=lambda a, b: ew(OPS['and'], a, b), bitwise_or=lambda a, b: ew(OPS['or'], a, b),
        bitwise_xor=lambda a, b: ew(OPS['xor'], a, b), left_shift=lambda a, b: ew(lambda x, y: x << y, a, b),
        right_shift=lambda a, b: ew(lambda x, y: x >> y, a, b), bitwise_not=lambda a: ew(lambda x: lnot(x) if kind_of(x) == 'b' else ~x, a),
        invert=lambda a: ew(lambda x: lnot(x) if kind_of(x) == 'b' else ~x, a),
        atleast_3d=None, alltrue=np_all, sometrue=np_any,
        exp=uf1('exp'), log=uf1('log'), sin=uf1('sin'), cos=uf1('cos'), tan=uf1('tan'), sinh=uf1('sinh'),
        cosh=uf1('cosh'), tanh=uf1('tanh'), arctan=uf1('arctan'), arcsin=uf1('arcsin'), arccos=uf1('arccos'),
        cbrt=uf1('cbrt'), poly1d=Poly1d, isrealobj=lambda x: not iscomplexobj(x), disp=lambda *a, **k: None,
        arctanh=uf1('arctanh'), arcsinh=uf1('arcsinh'), expm1=uf1('expm1'), log1p=uf1('log1p'),
).items():
    if _f is not None:
        setattr(NP, _n, staticmethod(_f))
NP.log10 = staticmethod(lambda x: ew(lambda v: vdiv(fn1('log', v), fn1('log', 10)), x))
NP.log2 = staticmethod(lambda x: ew(lambda v: vdiv(fn1('log', v), fn1('log', 2)), x))


class _Ufunc(object):
    def __init__(self, f, red):
        self.f, self.reduce = f, red

    def __call__(self, *a, **k):
        return self.f(*a)


def _red(f):
    def r(xs, axis=0, **kw):
        if isinstance(xs, (list, tuple)):
            xs = list(xs)
            v = xs[0]
            for x in xs[1:]:
                v = f(v, x)
            return v
        return reduce_(xs, axis, lambda vs: _fold(f, vs), lambda a: _nopos())
    return r


def _fold(f, vs):
    v = vs[0]
    for x in vs[1:]:
        v = f(v, x)
    return v


for _n in ('logical_and', 'logical_or', 'maximum', 'minimum', 'multiply', 'add'):
    _f = NP.__dict__[_n].__func__
    setattr(NP, _n, _Ufunc(_f, _red(_f)))
NP.logical_and.reduce = _red(logical('and'))


def _accum(f, kind=None):
    def g(a, axis=0, **kw):
        a = asarray(a)
        n = a.shape[axis]
        if not isinstance(n, int):
            raise Unsupported('accumulate over a symbolic range')
        if axis not in (0, -a.ndim):
            raise Unsupported('accumulate along another axis')
        rows = []
        for i in range(n):
            rows.append(a[i] if not rows else f(rows[-1], a[i]))
        if not rows:
            return a.copy()
        if a.ndim == 1:
            if n <= 12 and a.k == 'b':
                rows = [bool(q) for q in rows]      # one path per outcome (a running any / all has n + 1)
            return SArr.from_flat(rows, (n,))
        return stack(rows, axis=0)
    return g


for _n in ('logical_and', 'logical_or', 'maximum', 'minimum', 'multiply', 'add'):
    _u = getattr(NP, _n)
    _u.accumulate = _accum(_u)
