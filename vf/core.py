"""Deductive engine: symbolic scalars, path exploration by re-execution, obligations.

The real source of /repo is executed (see load.py) over symbolic values.  Every
conditional on a symbolic value forks the path; every path is enumerated; every
obligation is discharged by an SMT solver for all values of the symbols.
Numbers are mathematical: int = Z, float = R (exact), complex = R x R.
"""
import os
import time
import subprocess
import tempfile
from fractions import Fraction
import z3


class Unsupported(BaseException):
    """The code uses a construct outside the verifier's subset."""


class PathEnd(BaseException):
    """The current path ends here (infeasible, or loop body closed)."""


class Restart(BaseException):
    """Loop metadata changed: exploration has to start over."""


class Budget(Unsupported):
    pass


CUR = None          # current path context


def ctx():
    return CUR


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
INFC = z3.Real('INF')
NANC = z3.Real('NAN')
PI = z3.Real('pi')
UFS = {}             # name -> z3 function (transcendentals)


def uf(name, n=1):
    if name not in UFS:
        UFS[name] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return UFS[name]


def is_num(x):
    return isinstance(x, (int, Fraction, float, S)) and not isinstance(x, C)


def is_inf(x):
    return isinstance(x, float) and (x == float('inf') or x == float('-inf'))


def is_nan(x):
    return isinstance(x, float) and x != x


def conc(x):
    """Normalise a concrete number (float -> Fraction, numpy scalar -> python)."""
    if isinstance(x, bool) or isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return x
        return Fraction(repr(x))
    return x


def z3num(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x:
            return NANC
        if x == float('inf'):
            return INFC
        if x == float('-inf'):
            return -INFC
        return z3.RealVal(Fraction(repr(x)))
    raise Unsupported('not a number: %r' % (type(x),))


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, C):
        raise Unsupported('complex where real expected')
    if hasattr(x, '__vf_scalar__'):
        return lift(x.__vf_scalar__())
    return S(z3num(x))


def kind_of(x):
    if isinstance(x, S):
        return x.k
    if isinstance(x, C):
        return 'c'
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, (Fraction, float)):
        return 'r'
    if hasattr(x, 'dtype') and hasattr(x, 'shape'):
        return x.k
    return None


def unify(a, b):
    """z3 expressions of a and b in a common sort."""
    a, b = lift(a), lift(b)
    if a.k == b.k:
        return a.e, b.e
    if a.k == 'b':
        a = a.to_int()
    if b.k == 'b':
        b = b.to_int()
    if a.k == b.k:
        return a.e, b.e
    return a.real().e, b.real().e


def back(e):
    """S from z3 expression, folding literals into Python numbers."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return S(e)


def _isarr(o):
    return hasattr(o, '__vf_array__')


class S(object):
    """Symbolic scalar: z3 Int, Real or Bool."""
    __slots__ = ('e', 'k', 'q')
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, e, q=None):
        self.e = e
        self.q = q
        if z3.is_bool(e):
            self.k = 'b'
        elif z3.is_int(e):
            self.k = 'i'
        else:
            self.k = 'r'

    def real(self):
        if self.k == 'r':
            return self
        if self.k == 'b':
            return S(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))
        return S(z3.ToReal(self.e))

    def to_int(self):
        if self.k == 'b':
            return S(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
        return self

    # -- numpy scalar look ---------------------------------------------------
    @property
    def dtype(self):
        from . import snp
        return snp.DT[self.k]

    @property
    def real_(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conj(self):
        return self

    conjugate = conj

    def ravel(self, *a):
        from . import snp
        return snp.asarray(self).ravel()

    flatten = ravel

    def reshape(self, *a):
        from . import snp
        return snp.asarray(self).reshape(*a)

    def astype(self, t):
        from . import snp
        return snp.cast_scalar(self, snp.kind_from_dtype(t))

    def max(self, *a, **k):
        return self

    min = sum = mean = max

    def any(self, *a, **k):
        return self if self.k == 'b' else self != 0

    all = any

    def tolist(self):
        return self

    def squeeze(self):
        return self

    def __getitem__(self, key):
        from . import snp
        return snp.asarray(self)[key]

    # -- arithmetic ------------------------------------------------------------
    def _bin(self, o, f, rev=False):
        if isinstance(o, C) or _isarr(o):
            return NotImplemented
        if not isinstance(o, (S, int, Fraction, float)):
            o2 = getattr(o, '__vf_scalar__', None)
            if o2 is None:
                return NotImplemented
            o = o2()
        if is_inf(o) or is_nan(o):
            return None
        a, b = unify(o, self) if rev else unify(self, o)
        if z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return S(f(a, b))

    def _dist(self, o, op):
        """op distributed over the cases of an operand that may be infinite; None when neither can"""
        if self.k == 'r' and inf_case(self.e):
            c, a, b = self.e.children()
            return ite(S(c), op(uninf(a), o), op(uninf(b), o))
        if isinstance(o, S) and o.k == 'r' and inf_case(o.e):
            c, a, b = o.e.children()
            return ite(S(c), op(self, uninf(a)), op(self, uninf(b)))

    def __add__(self, o):
        r = self._dist(o, lambda x, y: x + y)
        if r is not None:
            return r
        r = self._bin(o, lambda a, b: a + b)
        return conc(o) if r is None else r

    __radd__ = __add__

    def __sub__(self, o):
        r = self._dist(o, lambda x, y: x - y)
        if r is not None:
            return r
        r = self._bin(o, lambda a, b: a - b)
        return -o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: a - b, True)
        return o if r is None else r

    def __mul__(self, o):
        r = self._dist(o, lambda x, y: x * y)
        if r is not None:
            return r
        r = self._bin(o, lambda a, b: a * b)
        if r is None:
            if is_nan(o):
                return o
            if decide(self > 0):
                return o
            if decide(self < 0):
                return -o
            return S(z3.If(self.real().e > 0, z3num(o), z3.If(self.real().e < 0, z3num(-o), NANC)))
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_inf(o):
            return Fraction(0)
        if _isarr(o) or isinstance(o, C):
            return NotImplemented
        o = conc(o)
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool) and o == 0:
            return S(uf('div0')(self.real().e))
        r = self._bin(o, lambda a, b: _rdiv(a, b))
        return o if r is None else r

    def __rtruediv__(self, o):
        r = self._bin(o, lambda a, b: _rdiv(a, b), True)
        return self.__rmul__(o) if r is None else r

    def __floordiv__(self, o):
        if lift(o).k == 'r' or self.k == 'r':
            q = self / o
            return floor_(q).astype_real()
        return self._bin(o, _fdiv)

    def __rfloordiv__(self, o):
        return lift(o).__floordiv__(self)

    def __mod__(self, o):
        if _isarr(o):
            return NotImplemented
        o = lift(o)
        if o.k == 'r' or self.k == 'r':
            return self - lift(o) * floor_(self / o)
        return self._bin(o, _fmod)

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    def astype_real(self):
        return self.real()

    def __neg__(self):
        if self.k == 'r' and inf_case(self.e):
            c, a, b = self.e.children()
            return ite(S(c), -uninf(a), -uninf(b))
        return S(-self.to_int().e)

    def __pos__(self):
        return self

    def __abs__(self):
        e = self.to_int().e
        return S(z3.If(e >= 0, e, -e))

    def __pow__(self, o):
        return vpow(self, o)

    def __rpow__(self, o):
        return vpow(o, self)

    # -- comparison ----------------------------------------------------------
    def _cmp(self, o, f, ifpos, ifneg):
        if o is None or isinstance(o, str):
            return None
        if _isarr(o) or isinstance(o, C):
            return NotImplemented
        if is_inf(o):
            return ifpos if o > 0 else ifneg
        if is_nan(o):
            return False
        if not isinstance(o, (S, int, Fraction, float)):
            return NotImplemented
        a, b = unify(self, o)
        if z3.is_bool(a) and f is not _eq and f is not _ne:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return S(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        r = self._cmp(o, _eq, False, False)
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, _ne, True, True)
        return True if r is None else r

    def __hash__(self):
        return self.e.hash()

    # -- logic -----------------------------------------------------------------
    def _log(self, o, f):
        if _isarr(o):
            return NotImplemented
        o = lift(o)
        if self.k != 'b' or o.k != 'b':
            return bitop(f, self, o)
        if f == 'and':
            return S(z3.And(self.e, o.e))
        if f == 'or':
            return S(z3.Or(self.e, o.e))
        return S(z3.Xor(self.e, o.e))

    def __and__(self, o):
        return self._log(o, 'and')

    __rand__ = __and__

    def __or__(self, o):
        return self._log(o, 'or')

    __ror__ = __or__

    def __xor__(self, o):
        return self._log(o, 'xor')

    __rxor__ = __xor__

    def __invert__(self):
        if self.k != 'b':
            r = bv_of(self)
            if r is not None:
                return of_bv(~r)
            return -self - 1
        return S(z3.Not(self.e))

    def __lshift__(self, o):
        return shift(self, o, True)

    def __rlshift__(self, o):
        return shift(o, self, True)

    def __rshift__(self, o):
        return shift(self, o, False)

    def __rrshift__(self, o):
        return shift(o, self, False)

    def __bool__(self):
        e = self.e if self.k == 'b' else (self.e != 0)
        return CUR.branch(e, self.q if self.k == 'b' else None)

    def __int__(self):
        raise Unsupported('int() of symbolic value')

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        v = CUR.unique_value(e) if CUR is not None else None
        if v is not None:
            return v
        raise Unsupported('symbolic value used as a concrete index')

    def __float__(self):
        raise Unsupported('float() of symbolic value')

    def __repr__(self):
        return 'S(%s)' % (self.e,)

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __iter__(self):
        raise TypeError('iteration over a 0-d array')


def _eq(a, b):
    return a == b


def _ne(a, b):
    return a != b


def _factors(e):
    """numeral and list of the other factors of a product"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long()), []
    if z3.is_mul(e):
        c, fs = Fraction(1), []
        for x in e.children():
            k, f = _factors(x)
            c, fs = c * k, fs + f
        return c, fs
    return Fraction(1), [e]


def _cancel(a, b):
    """a / b with the variable b = c * v cancelled, None when b is not of this form or v does not divide a"""
    if CUR is None:
        return None
    d = z3.simplify(b)
    c, fs = _factors(d)
    if len(fs) != 1 or not z3.is_const(fs[0]) or c == 0 or z3.is_rational_value(fs[0]):
        return None
    v = fs[0]
    w = walk([a])
    if len(w) > 300 or not any(x.eq(v) for x in w):
        return None
    n = z3.simplify(a, som=True)
    out = []
    for t in (n.children() if z3.is_add(n) else [n]):
        k, f = _factors(t)
        for q, x in enumerate(f):
            if x.eq(v):
                f = f[:q] + f[q + 1:]
                break
        else:
            if k != 0:
                return None
        r = z3.RealVal(str(k / c))
        for x in f:
            r = r * x
        out.append(r)
    if CUR.decide(S(v != 0)) is not True:
        return None
    return z3.simplify(z3.Sum(out) if len(out) > 1 else out[0])


def _rdiv(a, b):
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    r = _cancel(a, b)
    return a / b if r is None else r


def _fdiv(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    return z3.If(b > 0, a / b, (-a) / (-b))


def _fmod(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - b * _fdiv(a, b)


def as_int(e, depth=0):
    """the integer term equal to a real term built from integers only, or None"""
    if depth > 30:
        return None
    if e.sort() == z3.IntSort():
        return e
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if not z3.is_app(e):
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k == z3.Z3_OP_ITE:
        a = as_int(e.arg(1), depth + 1)
        b = as_int(e.arg(2), depth + 1) if a is not None else None
        return z3.If(e.arg(0), a, b) if b is not None else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        cs = [as_int(c, depth + 1) for c in e.children()]
        if any(c is None for c in cs):
            return None
        r = cs[0]
        for c in cs[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r - c if k == z3.Z3_OP_SUB else r * c
        return -r if k == z3.Z3_OP_UMINUS else r
    return None


def floor_(x):
    """floor of a real, as an integer-valued S of kind i"""
    if isinstance(x, S):
        if x.k == 'i':
            return x
        i = as_int(x.real().e)
        if i is not None:
            return S(i)
        return S(z3.ToInt(x.real().e))
    import math
    return math.floor(x)


BVMAP = {}
BVW = 64


def bv_of(x):
    """two's complement 64-bit pattern of an integer, None when it has no known pattern"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.BitVecVal(x, BVW)
    e = lift(x).to_int().e
    m = BVMAP.get(e.get_id())
    if m is not None:
        return m[1]
    if z3.is_int_value(e):
        return z3.BitVecVal(e.as_long(), BVW)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = bv_of(S(e.arg(1))), bv_of(S(e.arg(2)))
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    return None


def of_bv(b):
    """the integer with the given 64-bit pattern"""
    e = z3.BV2Int(b, is_signed=True)
    BVMAP[e.get_id()] = (e, b)
    return S(e)


def bvs(*xs):
    """patterns of the operands when at least one of them is known as a pattern"""
    r = [bv_of(x) for x in xs]
    if all(q is None or isinstance(x, int) for q, x in zip(r, xs)):
        return None
    return [z3.Int2BV(lift(x).to_int().e, BVW) if q is None else q for q, x in zip(r, xs)]


def bitop(f, a, b):
    """bitwise op on symbolic ints through 64-bit vectors"""
    r = bvs(a, b)
    if r is None:
        r = [z3.Int2BV(lift(x).to_int().e, BVW) for x in (a, b)]
    av, bv = r
    return of_bv({'and': lambda: av & bv, 'or': lambda: av | bv, 'xor': lambda: av ^ bv}[f]())


def shift(a, o, left):
    if isinstance(a, (int,)) and isinstance(o, int):
        return a << o if left else a >> o
    if _isarr(a) or _isarr(o):
        return NotImplemented
    r = bvs(a, o)
    if r is None and isinstance(o, S):
        r = [z3.Int2BV(lift(x).to_int().e, BVW) for x in (a, o)]
    if r is not None:
        return of_bv(r[0] << r[1] if left else r[0] >> r[1])
    if left:
        return lift(a) * (1 << o)
    return lift(a) // (1 << o)


class C(object):
    """complex number re + i im (re, im real S or concrete)"""
    __slots__ = ('re', 'im')
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, re, im=0):
        self.re = conc(re)
        self.im = conc(im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def dtype(self):
        from . import snp
        return snp.DT['c']

    def conj(self):
        return C(self.re, -self.im)

    conjugate = conj

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, complex):
            return C(x.real, x.imag)
        return C(x, 0)

    def _ok(self, o):
        return isinstance(o, (C, S, int, Fraction, float, complex))

    def __add__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = C.of(o)
        return C(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = C.of(o)
        return C(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return C.of(o) - self

    def __mul__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = C.of(o)
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        if not isinstance(o, (C, complex)):
            return C(vdiv(self.re, o), vdiv(self.im, o))
        o = C.of(o)
        d = o.re * o.re + o.im * o.im
        n = self * o.conj()
        return C(vdiv(n.re, d), vdiv(n.im, d))

    def __rtruediv__(self, o):
        return C.of(o) / self

    def __neg__(self):
        return C(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return vsqrt(self.re * self.re + self.im * self.im)

    def __pow__(self, o):
        return vpow(self, o)

    def __eq__(self, o):
        if not self._ok(o):
            return False
        o = C.of(o)
        return land(veq(self.re, o.re), veq(self.im, o.im))

    def __ne__(self, o):
        r = self.__eq__(o)
        return lnot(r)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return 'C(%s,%s)' % (self.re, self.im)


# -- generic helpers usable on concrete or symbolic scalars -------------------
def veq(a, b):
    if isinstance(a, C) or isinstance(b, C):
        return C.of(a) == C.of(b)
    return a == b


def land(*xs):
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    if any(x is False for x in xs):
        return False
    return S(z3.And(*[lift(x).e for x in xs])) if len(xs) > 1 else xs[0]


def lor(*xs):
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    if any(x is True for x in xs):
        return True
    return S(z3.Or(*[lift(x).e for x in xs])) if len(xs) > 1 else xs[0]


def lnot(x):
    if isinstance(x, bool):
        return not x
    return S(z3.Not(lift(x).e))


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    return S(lift(a).e == lift(b).e)


def ite(c, a, b):
    """if-then-else value (no fork)"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, C) or isinstance(b, C):
        a, b = C.of(a), C.of(b)
        return C(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if a is b:
        return a
    c = lift(c)
    if c.k != 'b':
        c = c != 0
    if z3.is_true(c.e):
        return a
    if z3.is_false(c.e):
        return b
    x, y = unify(a, b)
    if z3.eq(x, y):
        return a
    return S(z3.If(c.e, x, y))


def tobool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, S):
        return x if x.k == 'b' else x != 0
    if isinstance(x, C):
        return x != 0
    return x != 0


def vdiv(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return Fraction(a) / Fraction(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            return conc(float(a) / float(b))
    if isinstance(b, S) and z3.is_app_of(b.e, z3.Z3_OP_ITE) and isinstance(a, (int, Fraction, S)):
        c, x, y = b.e.children()
        if y.eq(INFC):
            return ite(S(c), vdiv(a, S(x)), 0)
        if x.eq(INFC):
            return ite(S(c), 0, vdiv(a, S(y)))
    return a / b


def _isqrt_frac(q):
    import math
    n, d = q.numerator, q.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def vsqrt(x):
    x = conc(x)
    if isinstance(x, C):
        return csqrt(x)
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        if x >= 0:
            r = _isqrt_frac(Fraction(x))
            if r is not None:
                return r
    if isinstance(x, float):
        return x if x > 0 else float('nan')
    return S(uf('sqrt')(z3real(x)))


def csqrt(x):
    raise Unsupported('complex sqrt')


def z3real(x):
    return lift(x).real().e


def vpow(a, b):
    a, b = conc(a), conc(b)
    if _isarr(a) or _isarr(b):
        from . import snp
        return snp.power(a, b)
    if hasattr(a, '__vf_obj__') or (not is_num(a) and not isinstance(a, C)):
        return a ** b
    if isinstance(b, Fraction) and b.denominator == 1:
        k = b.numerator
        isreal = True
    elif isinstance(b, int) and not isinstance(b, bool):
        k = b
        isreal = False
    else:
        k = None
    if k is None and isinstance(a, (int, Fraction)) and not isinstance(a, bool) and a == 0 and isinstance(b, Fraction) and b > 0:
        return Fraction(0)
    if k is not None:
        if isinstance(a, (int, Fraction)) and not isinstance(a, bool):
            if k < 0 and a == 0:
                return float('inf')
            r = Fraction(a) ** k
            if isinstance(a, int) and not isreal and k >= 0:
                return int(r)
            return r
        if isinstance(a, float):
            return conc(float(a) ** k)
        if isinstance(a, S) and a.k == 'b':
            a = a.to_int()
        if abs(k) <= 16 or isinstance(a, C):
            r = Fraction(1) if isreal and not isinstance(a, C) else 1
            if k == 0:
                return r if isinstance(a, C) or a.k == 'r' or isreal else 1
            r = a
            for _ in range(abs(k) - 1):
                r = r * a
            if isreal and isinstance(r, S):
                r = r.real()
            if k < 0:
                r = vdiv(1, r)
            return r
    if isinstance(a, C) or isinstance(b, C):
        raise Unsupported('complex power')
    if isinstance(b, Fraction) and b == Fraction(1, 2):
        return vsqrt(a)
    if isinstance(b, Fraction) and b == Fraction(-1, 2):
        return vdiv(1, vsqrt(a))
    if isinstance(a, (int, Fraction)) and a == 1:
        return Fraction(1)
    if isinstance(b, float) or isinstance(a, float):
        raise Unsupported('power with inf')
    if isinstance(a, (int, Fraction)) and a == 10 and False:
        pass
    return S(uf('pow', 2)(z3real(a), z3real(b)))


def has_inf(e):
    """an infinite or undefined value among the cases of e"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return has_inf(e.arg(1)) or has_inf(e.arg(2))
    return e.eq(INFC) or e.eq(NANC) or (z3.is_app(e) and e.num_args() > 0 and e.arg(0).eq(INFC) and e.eq(-INFC))


_INF = {}


def inf_case(e):
    """e is a case distinction one of whose cases is infinite or undefined"""
    if not z3.is_app_of(e, z3.Z3_OP_ITE):
        return False
    k = e.get_id()
    if k not in _INF:
        if len(_INF) > 20000:
            _INF.clear()
        a, b = e.arg(1), e.arg(2)
        _INF[k] = (any(inf_case(x) if z3.is_app_of(x, z3.Z3_OP_ITE) else has_inf(x) for x in (a, b)), e)
    return _INF[k][0]


def uninf(e):
    if e.eq(INFC):
        return float('inf')
    if e.eq(-INFC):
        return float('-inf')
    if e.eq(NANC):
        return float('nan')
    return S(e)


def fn1(name, x):
    """transcendental application"""
    x = conc(x)
    if isinstance(x, S) and x.k == 'r' and inf_case(x.e):
        c, a, b = x.e.children()
        return ite(S(c), fn1(name, uninf(a)), fn1(name, uninf(b)))
    if isinstance(x, float):
        import math
        if x != x:
            return S(NANC)
        if name == 'exp':
            return Fraction(0) if x < 0 else x
        if name == 'tanh':
            return Fraction(1) if x > 0 else Fraction(-1)
        if name == 'log':
            return x
        if name == 'arctan' and x == x:
            return S(PI / 2) if x > 0 else S(-PI / 2)
        raise Unsupported('%s(inf)' % name)
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        if x == 0:
            z = {'exp': 1, 'sin': 0, 'cos': 1, 'tan': 0, 'sinh': 0, 'cosh': 1, 'tanh': 0,
                 'arctan': 0, 'arcsin': 0, 'arctanh': 0, 'arcsinh': 0, 'log1p': 0, 'expm1': 0}
            if name in z:
                return Fraction(z[name])
            if name == 'log':
                return float('-inf')
        if x == 1 and name == 'log':
            return Fraction(0)
        if x == 1 and name == 'arccos':
            return Fraction(0)
    if name == 'expm1':
        return fn1('exp', x) - 1
    if name == 'log1p':
        return fn1('log', x + 1)
    if name == 'tan':
        return vdiv(fn1('sin', x), fn1('cos', x))
    return S(uf(name)(z3real(x)))


def vmax(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return max(a, b)
    if is_inf(a) or is_inf(b):
        return max_inf(a, b)
    return ite(a >= b, a, b)


def max_inf(a, b):
    if is_inf(a):
        return a if a > 0 else b
    return b if b > 0 else a


def vmin(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return min(a, b)
    if is_inf(a):
        return b if a > 0 else a
    if is_inf(b):
        return a if b > 0 else b
    return ite(a <= b, a, b)


def vabs(a):
    if isinstance(a, bool):
        return int(a)
    return abs(a)


def vsign(a):
    if isinstance(a, (int, Fraction)):
        s = (a > 0) - (a < 0)
        return Fraction(s) if isinstance(a, Fraction) else s
    one = Fraction(1) if a.k == 'r' else 1
    return ite(a > 0, one, ite(a < 0, -one, one * 0))


# --------------------------------------------------------------------------
# quantified facts
# --------------------------------------------------------------------------
class Forall(object):
    """for all integer tuples (i1..ik): body(i1..ik)  (body returns bool/S)"""

    def __init__(self, arity, body, guard=None):
        self.arity, self.body, self.guard = arity, body, guard

    def at(self, idx):
        b = self.body(*idx)
        if self.guard is not None:
            b = implies(self.guard(*idx), b)
        return b

    def template(self):
        """the body at fresh variables; built when the fact is assumed: arrays it mentions may be written later"""
        t = self.__dict__.get('tmpl')
        if t is None:
            vs = [z3.Int('tm!%d' % i) for i in range(self.arity)]
            t = self.tmpl = (vs, self.at([S(x) for x in vs]))
        return t

    def inst(self, terms):
        """instance at z3 integer terms, through a template built once"""
        vs, b = self.template()
        if isinstance(b, bool):
            return b
        e = lift(b).e
        return z3.substitute(e, *zip(vs, terms))


# --------------------------------------------------------------------------
# path context
# --------------------------------------------------------------------------
class Result(object):
    def __init__(self, name, status, **kw):
        self.name, self.status = name, status
        self.__dict__.update(kw)


class Path(object):
    """State of one path of one contract."""

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.pc = []             # z3 Bools
        self.univ = []           # Forall facts
        self.idx = []            # index terms for instantiation
        self.nfresh = 0
        self.loopstack = []
        self.inputs = {}         # name -> descriptor for model extraction
        self.native = 0
        self.steps = 0
        self.defs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', run.feas_ms)
        self.memo = {}

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    def fresh(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)

    def assume(self, f):
        if isinstance(f, Forall):
            f.template()
            self.univ.append(f)
            return
        if isinstance(f, bool):
            if not f:
                raise PathEnd('assume False')
            return
        e = lift(f).e
        if z3.is_and(e):
            for c in e.children():
                self.assume(S(c))
            return
        self.pc.append(e)
        self.solver.add(e)

    def check_time(self):
        if time.time() > self.run.deadline:
            raise Budget('time budget of the contract exhausted')

    def feasible(self, e):
        self.check_time()
        r = self.solver.check(e)
        return r != z3.unsat

    def branch(self, e, q=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.feasible(e) and self.qfeasible(e, q, True)
            f = self.feasible(z3.Not(e)) and self.qfeasible(e, q, False)
            if t and f:
                d = True
                self.run.work.append(self.taken + [False])
                self.run.nforks += 1
                if self.run.nforks > self.run.max_forks:
                    raise Budget('too many paths')
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd('infeasible')
        self.pos += 1
        self.taken.append(d)
        self.assume(S(e if d else z3.Not(e)))
        if q is not None:
            q(self, d)
        return d

    def qfeasible(self, e, q, d):
        return True

    def decide(self, c):
        """True/False when the path condition settles c, else None (no fork)."""
        if isinstance(c, bool):
            return c
        e = z3.simplify(lift(c).e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = (e.get_id(), len(self.pc))
        if key in self.memo:
            return self.memo[key][0]
        r = None
        if self.solver.check(z3.Not(e)) == z3.unsat:
            r = True
        elif self.solver.check(e) == z3.unsat:
            r = False
        self.memo[key] = (r, e)
        return r

    def provable(self, c, timeout=3):
        """c follows from the path condition, quantified facts included (no fork)"""
        d = self.decide(c)
        if d is not None or not self.univ:
            return bool(d)
        return prove(self.pc, self.univ, self.idx, lift(c).e, timeout, ring=False)[0] == 'proved'

    def unique_value(self, e):
        if self.solver.check() != z3.sat:
            return None
        v = self.solver.model().eval(e, model_completion=True)
        if z3.is_int_value(v) and self.solver.check(e != v) == z3.unsat:
            return v.as_long()
        return None

    # -- obligations ------------------------------------------------------------
    def ensure(self, name, goal, hints=(), use=True):
        """Prove goal under the current path condition."""
        if isinstance(goal, Forall):
            sk = [self.fresh_int('k') for _ in range(goal.arity)]
            self.idx.extend(s.e for s in sk)
            g = goal.at(sk)
            self.ensure(name, g, hints, use=False)
            if use:
                self.assume(goal)
            return
        if self.replaying:
            if use:
                self.assume(goal)
            return
        self.run.obligation(self, name, goal, hints)
        if use:
            self.assume(goal)

    def fresh_int(self, base='i'):
        return S(z3.Int(self.fresh(base)))

    def fresh_real(self, base='x'):
        return S(z3.Real(self.fresh(base)))

    def fresh_bool(self, base='b'):
        return S(z3.Bool(self.fresh(base)))


def decide(c):
    return CUR.decide(c)


# --------------------------------------------------------------------------
# axioms for transcendental terms
# --------------------------------------------------------------------------
def walk(exprs):
    seen, out = set(), []
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(e)
        if z3.is_app(e):
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())
    return out


TRANS = {'sqrt', 'exp', 'log', 'sin', 'cos', 'sinh', 'cosh', 'tanh', 'arctan', 'arcsin', 'arccos',
         'arctanh', 'arcsinh', 'arccosh', 'pow', 'arctan2', 'erf', 'cbrt'}


from z3 import z3core as _zc                                     # noqa: E402


class _LIB(object):
    """raw entry points of the solver library (no per-call error check)"""


for _f in ('Z3_get_func_decl_id', 'Z3_get_decl_kind', 'Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_get_app_num_args',
           'Z3_get_app_decl', 'Z3_get_app_arg', 'Z3_get_sort_kind', 'Z3_get_sort'):
    setattr(_LIB, _f, staticmethod(getattr(_zc, _f).__defaults__[0].f))
_CTX = z3.main_ctx().ref()
_INFO = {}
_DECL = {}


def _declinfo(d):
    i = _LIB.Z3_get_func_decl_id(_CTX, d)
    r = _DECL.get(i)
    if r is None:
        k = _LIB.Z3_get_decl_kind(_CTX, d)
        nm = None
        if k == z3.Z3_OP_UNINTERPRETED:
            ref = z3.FuncDeclRef(d, z3.main_ctx())
            nm = ref.name()
            _DECL[(i, 'ref')] = ref
        r = _DECL[i] = (k, nm)
        if nm is None:
            _DECL[(i, 'ref')] = z3.FuncDeclRef(d, z3.main_ctx())
    return r


def info(e):
    """(symbol names, integer arguments of uninterpreted functions, transcendental terms) of e, cached"""
    c = _INFO.get(e.get_id())
    if c is not None:
        return c[1]
    syms, ints, trans = set(), {}, []
    seen = set()
    stack = [e.as_ast()]
    L = _LIB
    while stack:
        a = stack.pop()
        i = L.Z3_get_ast_id(_CTX, a)
        if i in seen:
            continue
        seen.add(i)
        k = L.Z3_get_ast_kind(_CTX, a)
        if k == 3:
            q = z3.QuantifierRef(a, z3.main_ctx())
            b = q.body()
            _INFO[('q', i)] = (q, b)
            stack.append(b.as_ast())
            continue
        if k != 1:
            continue
        n = L.Z3_get_app_num_args(_CTX, a)
        dk, nm = _declinfo(L.Z3_get_app_decl(_CTX, a))
        for j in range(n):
            stack.append(L.Z3_get_app_arg(_CTX, a, j))
        if nm is not None:
            syms.add(nm)
            if n:
                if nm in TRANS:
                    x = z3.ExprRef.__new__(z3.ArithRef)
                    z3.ExprRef.__init__(x, a, z3.main_ctx())
                    if not has_var(x):
                        trans.append(x)
                for j in range(n):
                    b = L.Z3_get_app_arg(_CTX, a, j)
                    if L.Z3_get_sort_kind(_CTX, L.Z3_get_sort(_CTX, b)) == z3.Z3_INT_SORT:
                        bi = L.Z3_get_ast_id(_CTX, b)
                        if bi not in ints:
                            x = z3.z3._to_expr_ref(b, z3.main_ctx())
                            if not has_var(x):
                                ints[bi] = x
        elif dk == z3.Z3_OP_SELECT:
            x = z3.z3._to_expr_ref(L.Z3_get_app_arg(_CTX, a, 1), z3.main_ctx())
            if z3.is_int(x) and not has_var(x):
                ints[x.get_id()] = x
    if len(_INFO) > 200000:
        _INFO.clear()
    r = (frozenset(syms), list(ints.values()), trans)
    _INFO[e.get_id()] = (e, r)
    return r


def has_var(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


def axioms(exprs, rounds=2, pairs=True):
    """ground instances of the trusted facts about elementary functions"""
    ax, done = [], set()
    terms = {}
    cur = list(exprs)
    usepi = False
    for _ in range(rounds):
        new = []
        for top in cur:
            sy, _, tr = info(top)
            if 'pi' in sy:
                usepi = True
            for e in tr:
                nm = e.decl().name()
                if e.get_id() in done:
                    continue
                done.add(e.get_id())
                terms.setdefault(nm, []).append(e)
                x = e.arg(0)
                F = UFS.get
                if nm == 'sqrt':
                    new += [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)), z3.Implies(x > 0, e > 0)]
                elif nm == 'exp':
                    new += [e > 0, e >= 1 + x, z3.Implies(x <= 0, e <= 1), z3.Implies(x < 0, e < 1)]
                    if z3.is_app(x) and x.decl().name() == 'log':
                        new.append(z3.Implies(x.arg(0) > 0, e == x.arg(0)))
                elif nm == 'log':
                    new += [z3.Implies(x > 0, e <= x - 1), z3.Implies(x > 1, e > 0),
                            z3.Implies(z3.And(x > 0, x < 1), e < 0), z3.Implies(x == 1, e == 0)]
                    if z3.is_app(x) and x.decl().name() == 'exp':
                        new.append(e == x.arg(0))
                elif nm in ('sin', 'cos'):
                    s, c = uf('sin')(x), uf('cos')(x)
                    new += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
                            z3.Implies(x == 0, z3.And(s == 0, c == 1))]
                elif nm in ('sinh', 'cosh'):
                    s, c = uf('sinh')(x), uf('cosh')(x)
                    new += [c * c - s * s == 1, c >= 1, z3.Implies(x > 0, s > x), z3.Implies(x < 0, s < x),
                            z3.Implies(x == 0, z3.And(s == 0, c == 1))]
                elif nm == 'tanh':
                    new += [e < 1, e > -1, z3.Implies(x > 0, z3.And(e > 0, e < x)),
                            z3.Implies(x < 0, z3.And(e < 0, e > x)), z3.Implies(x == 0, e == 0)]
                elif nm == 'arctan':
                    usepi = True
                    new += [e < PI / 2, e > -PI / 2, z3.Implies(x > 0, e > 0), z3.Implies(x < 0, e < 0)]
                elif nm == 'arccos':
                    usepi = True
                    new += [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(e >= 0, e <= PI, uf('cos')(e) == x))]
                elif nm == 'arctan2':
                    usepi = True
                    y, xx = e.arg(0), e.arg(1)
                    r = uf('sqrt')(xx * xx + y * y)
                    new += [e <= PI, e > -PI, r * uf('cos')(e) == xx, r * uf('sin')(e) == y]
                elif nm == 'cbrt':
                    new += [e * e * e == x, z3.Implies(x > 0, e > 0), z3.Implies(x < 0, e < 0), z3.Implies(x == 0, e == 0)]
                elif nm == 'pow':
                    b = e.arg(1)
                    new += [z3.Implies(x > 0, e > 0), z3.Implies(b == 0, e == 1), z3.Implies(b == 1, e == x),
                            z3.Implies(x == 1, e == 1), z3.Implies(z3.And(x == 0, b > 0), e == 0)]
        ax += new
        cur = new
        if not new:
            break
    if pairs:
        for nm in ('exp', 'log', 'tanh', 'sinh', 'arctan', 'sqrt', 'arctanh', 'arcsinh'):
            ts = terms.get(nm, [])
            if 1 < len(ts) <= 8:
                for i in range(len(ts)):
                    for j in range(i):
                        a, b = ts[i].arg(0), ts[j].arg(0)
                        g = z3.And(a > 0, b > 0) if nm in ('log', 'sqrt') else z3.BoolVal(True)
                        ax.append(z3.Implies(g, z3.And((a < b) == (ts[i] < ts[j]), (a == b) == (ts[i] == ts[j]))))
    if usepi:
        ax += [PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416')]
    return ax


# --------------------------------------------------------------------------
# proving
# --------------------------------------------------------------------------
import os
TRACE = bool(os.environ.get('VF_TRACE'))
STAT = {'z3': 0, 'cvc5': 0, 'simplify': 0, 'ring': 0, 'time': 0.0}


def int_args(exprs):
    """integer terms used as arguments of uninterpreted functions (array indices)"""
    out = {}
    for e in exprs:
        for a in info(e)[1]:
            out[a.get_id()] = a
    return list(out.values())


def instantiate(univ, terms, limit=1500):
    import itertools
    out = []
    for u in univ:
        n = 0
        for tup in itertools.product(terms, repeat=u.arity):
            n += 1
            if n > limit:
                break
            b = u.inst(tup)
            if isinstance(b, bool):
                if b:
                    continue
                out.append(z3.BoolVal(False))
            else:
                out.append(b)
    return out


def relevant(pc, goal):
    """pc closed under symbol sharing with the goal (cone of influence)"""
    def syms(e):
        return info(e)[0]
    S_ = set(syms(goal))
    rest = [(p, syms(p)) for p in pc]
    out = []
    ch = True
    while ch:
        ch = False
        keep = []
        for p, s in rest:
            if s & S_ or not s:
                out.append(p)
                if not s <= S_:
                    S_ |= s
                    ch = True
            else:
                keep.append((p, s))
        rest = keep
    return out


def cvc5_check(assertions, timeout):
    s = z3.Solver()
    s.add(*assertions)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', fn],
                           capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(fn)


def prove(pc, univ, idx, goal, timeout=20, hints=(), ring=True):
    """-> (status, backend, model or None); status in proved / refuted / unknown"""
    t0 = time.time()
    try:
        g = z3.simplify(goal)
        if z3.is_true(g):
            STAT['simplify'] += 1
            return 'proved', 'simplify', None
        pc = list(pc) + list(hints)
        if ring and z3.is_eq(g) and z3.is_real(g.arg(0)) and find_if(g) is None:
            from . import ring as rg
            if rg.prove_eq(pc, g, quick=True):
                STAT['ring'] += 1
                return 'proved', 'ring', None
        # expand universally quantified facts at the ground index terms
        extra = []
        if univ:
            terms = {}
            for t in list(idx)[-6:] + int_args([goal]):
                t = z3.simplify(t)
                terms.setdefault(t.get_id(), t)
            if len(terms) <= 12:
                # goal-directed first: few instances, quick when they suffice
                e1 = instantiate(univ, list(terms.values()))
                t1 = {}
                for t in int_args(e1):
                    t = z3.simplify(t)
                    if t.get_id() not in terms:
                        t1.setdefault(t.get_id(), t)
                if len(t1) <= 16:
                    e1 += instantiate([u for u in univ if u.arity == 1], list(t1.values()))
                base = pc + e1
                s = z3.Solver()
                s.set('timeout', int(min(3, timeout * .25) * 1000))
                s.add(*base)
                s.add(z3.Not(goal))
                s.add(*axioms(base + [goal]))
                if s.check() == z3.unsat:
                    STAT['z3'] += 1
                    return 'proved', 'z3', None
            for t in list(idx) + int_args(pc):
                t = z3.simplify(t)
                terms.setdefault(t.get_id(), t)
            extra = instantiate(univ, list(terms.values())[:60])
            t2 = {}
            for t in int_args(extra):
                t = z3.simplify(t)
                if t.get_id() not in terms:
                    t2.setdefault(t.get_id(), t)
            t2 = list(t2.values())
            if t2 and len(t2) <= 60:
                one = [u for u in univ if u.arity == 1]
                extra += instantiate(one, t2)
        base = pc + extra
        small = relevant(base, goal)
        neg = z3.Not(goal)
        last = None
        if ring:
            from . import ring as rg
            if univ:
                lits = goal.children() if z3.is_or(goal) else [goal]
                eqs = [l for l in lits if z3.is_eq(l) and z3.is_real(l.arg(0))]
                if len(eqs) == 1:
                    more = [z3.simplify(z3.Not(l)) for l in lits if not l.eq(eqs[0])]
                    g2 = ground_rewrite(base + more, eqs[0])
                    if g2 is not None and (z3.is_true(g2) or split_ring(rg, small + more, g2, 12)):
                        STAT['ring'] += 1
                        return 'proved', 'ring', None
            if split_ring(rg, small, goal, 12):
                STAT['ring'] += 1
                return 'proved', 'ring', None
            sub = const_subst(small)
            if sub:
                g2 = z3.simplify(z3.substitute(goal, *sub))
                if z3.is_true(g2) or split_ring(rg, [z3.substitute(c, *sub) for c in small], g2, 12):
                    STAT['ring'] += 1
                    return 'proved', 'ring', None
        ax = axioms(small + [goal])
        for attempt, (fs, tmo) in enumerate([(small + ax, timeout * 0.4), (base + axioms(base + [goal]), timeout * 0.4),
                                             ([], timeout * 0.6)]):
            if attempt == 2:
                r = cvc5_check(small + ax + [neg], tmo)
                if r == 'unsat':
                    STAT['cvc5'] += 1
                    return 'proved', 'cvc5', None
                break
            if attempt == 1 and len(base) == len(small) and last == z3.unknown:
                s = z3.SolverFor('QF_UFNIRA') if False else z3.Then('simplify', 'solve-eqs', 'smt').solver()
            else:
                s = z3.Solver()
            s.set('timeout', int(tmo * 1000))
            s.add(*fs)
            s.add(neg)
            last = s.check()
            if last == z3.unsat:
                STAT['z3'] += 1
                return 'proved', 'z3', None
            if last == z3.sat and attempt == 0 and len(base) != len(small):
                continue
            if last == z3.sat:
                return 'refuted', 'z3', s.model()
        if last == z3.unknown and ring and find_if(goal) is not None:
            if split_all(rg, small, goal, 12, time.time() + timeout * 1.5):
                STAT['ring'] += 1
                return 'proved', 'ring', None
        return 'unknown', None, None
    finally:
        STAT['time'] += time.time() - t0


def split_all(rg, pc, goal, depth, deadline):
    """case analysis on the conditions of if-then-else terms, leaves by the normaliser or z3"""
    if z3.is_true(goal):
        return True
    if time.time() > deadline:
        return False
    if z3.is_and(goal):
        return all(split_all(rg, pc, g, depth, deadline) for g in goal.children())
    if z3.is_or(goal):
        flat = []
        for c in goal.children():
            flat += c.children() if z3.is_or(c) else [c]
        part = [(c, not (z3.is_eq(c) or find_if(c) is not None)) for c in flat]
        lits, rest = [c for c, q in part if q], [c for c, q in part if not q]
        if lits and rest:
            return split_all(rg, pc + [z3.simplify(z3.Not(l)) for l in lits], z3.Or(*rest) if len(rest) > 1 else rest[0], depth, deadline)
    c = find_if(goal)
    if c is None or depth == 0:
        for e in (goal.children() if z3.is_or(goal) else [goal]):
            if z3.is_eq(e) and rg.prove_eq(pc, e):
                return True
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*pc)
        s.add(*axioms(pc + [goal]))
        s.add(z3.Not(goal))
        return s.check() == z3.unsat
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*pc)
    for lit, val_ in ((c, True), (z3.Not(c), False)):
        if s.check(lit) == z3.unsat:
            continue
        g = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(val_))), **SIMP)
        if not split_all(rg, pc + [lit], g, depth - 1, deadline):
            return False
    return True


def find_if(e):
    """an innermost real/int-sorted if-then-else condition in e"""
    for x in walk([e]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(x):
            c = x.arg(0)
            if not any(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(y) for y in walk([c])):
                while z3.is_and(c) or z3.is_or(c) or z3.is_not(c) or z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                    c = c.arg(0)
                return c
    return None


def split_ring(rg, pc, goal, depth, deadline=None, inner=False):
    """equational proof, splitting on the conditions of if-then-else terms"""
    if deadline is None:
        deadline = time.time() + 15
    if z3.is_true(goal):
        return True
    if time.time() > deadline:
        return False
    if z3.is_and(goal):
        return all(split_ring(rg, pc, g, depth, deadline, inner) for g in goal.children())
    eqs = [goal]
    if z3.is_or(goal):
        flat = []
        for c in goal.children():
            flat += c.children() if z3.is_or(c) else [c]
        eqs = [c for c in flat if z3.is_eq(c)]
        lits = [c for c in flat if not z3.is_eq(c)]
        if lits:
            pc = pc + [z3.simplify(z3.Not(l)) for l in lits]
            goal = z3.Or(*eqs) if len(eqs) > 1 else eqs[0] if eqs else goal
    if not eqs or not all(z3.is_eq(e) and not z3.is_bool(e.arg(0)) for e in eqs):
        return False
    c = find_if(goal)
    if c is None:
        if any(rg.prove_eq(pc, e) for e in eqs):
            return True
        if not inner:
            return False
        if len(eqs) == 1 and z3.is_real(goal.arg(0)):
            g2 = ground_rewrite(pc, goal)
            if g2 is not None and (z3.is_true(g2) or find_if(g2) is None and rg.prove_eq(pc, g2)):
                return True
        s = z3.Solver()
        s.set('timeout', 700)
        s.add(*pc)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat
    if depth == 0:
        return False
    s = z3.Solver()
    s.set('timeout', 100)
    s.set('arith.nl', False)
    s.add(*pc)
    for lit, val_ in ((c, True), (z3.Not(c), False)):
        if s.check(lit) == z3.unsat:
            continue
        g = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(val_))))
        pc2 = pc + [lit]
        sub = solve_const(lit) if val_ else None
        if sub is not None:
            g = z3.simplify(z3.substitute(g, sub))
            pc2 = [z3.substitute(x, sub) for x in pc2]
        if not split_ring(rg, pc2, g, depth - 1, deadline, True):
            return False
    return True


def solve_const(lit):
    """linear integer equality solved for an unknown with coefficient 1 or -1"""
    if not (z3.is_eq(lit) and z3.is_int(lit.arg(0))):
        return None
    t = z3.simplify(lit.arg(0) - lit.arg(1), som=True)
    adds = t.children() if z3.is_add(t) else [t]
    best = None
    for a in adds:
        c, x = 1, a
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_int_value(a.arg(0)):
            c, x = a.arg(0).as_long(), a.arg(1)
        if c in (1, -1) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            rest = [b for b in adds if not b.eq(a)]
            if any(occurs(x, b) for b in rest):
                continue
            r = z3.Sum(*rest) if rest else z3.IntVal(0)
            cand = (x, z3.simplify(-r if c == 1 else r))
            if best is None or x.get_id() > best[0].get_id():
                best = cand
    return best


def occurs(x, t):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(x):
            return True
        todo.extend(u.children())
    return False


def ufapps(t, out=None):
    """real applications of uninterpreted functions"""
    out = {} if out is None else out
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        if u.num_args() and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(u):
            out[u.get_id()] = u
        todo.extend(u.children())
    return out


def ground_rewrite(base, goal, rounds=3):
    """goal rewritten by the (conditional) ground equations for its function applications whose conditions hold"""
    flat = []
    for f in base:
        f = z3.simplify(f)
        flat += f.children() if z3.is_and(f) else [f]
    rules, ints = {}, []
    goal = z3.simplify(goal)
    keep = [goal]
    for f in flat:
        lits = f.children() if z3.is_or(f) else [f]
        if len(lits) > 8:
            continue
        for k, l in enumerate(lits):
            if z3.is_eq(l) and z3.is_real(l.arg(0)):
                for a, b in ((l.arg(0), l.arg(1)), (l.arg(1), l.arg(0))):
                    if z3.is_app(a) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(a, b):
                        rules.setdefault(a.get_id(), []).append((a, b, lits[:k] + lits[k + 1:]))
                        keep.append(a)
        if not any(z3.is_real(x) for l in lits for x in (l.children()[0].children() if z3.is_not(l) else l.children())):
            ints.append(f)
    s = z3.Solver()
    s.set('timeout', 200)
    s.set('arith.nl', False)
    s.add(*ints)
    done = set()
    hit = False
    for _ in range(rounds):
        sub = []
        for i, a in ufapps(goal).items():
            if i in done:
                continue
            for _a, b, conds in rules.get(i, ()):
                if any(u in done for u in ufapps(b)):
                    continue
                if all(s.check(c) == z3.unsat for c in conds):
                    sub.append((a, b))
                    done.add(i)
                    break
        if not sub:
            break
        hit = True
        keep.append(sub)
        goal = z3.simplify(z3.substitute(goal, *sub))
    return goal if hit else None


def const_subst(pc):
    """values of constants that the path fixes"""
    out = []
    for c in pc:
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if z3.is_rational_value(a) or z3.is_int_value(a):
                a, b = b, a
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_rational_value(b) or z3.is_int_value(b)) \
                    and a.sort() == b.sort():
                out.append((a, b))
    return out


SIMP = dict(algebraic_number_evaluator=False, som=False)


class Run(object):
    """Exploration of one contract (all paths)."""

    def __init__(self, name, fn, budget=120, timeout=15, feas_ms=1500, max_forks=400, loops=None):
        self.name, self.fn = name, fn
        self.timeout, self.feas_ms, self.max_forks = timeout, feas_ms, max_forks
        self.deadline = time.time() + budget
        self.results = []        # (name, status, backend, model-inputs, goal text)
        self.work = []
        self.nforks = 0
        self.npaths = 0
        self.nraised = 0
        self.unsupported = []
        self.seeds = []          # concrete inputs taken from path models
        self.loopmeta = {}
        self.ghost = None
        self.functions = {}
        self.stop_on_fail = 3
        self.cache = {}

    def obligation(self, path, name, goal, hints=()):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        else:
            goal = lift(goal)
            goal = goal.e if goal.k == 'b' else goal.e != 0
        nfail = sum(1 for r in self.results if r.status != 'proved')
        if nfail >= self.stop_on_fail:
            return
        hs = [lift(h).e if not z3.is_expr(h) else h for h in hints]
        tmo = self.timeout if nfail == 0 else min(self.timeout, 6)
        t0 = time.time()
        st, be, model = prove(path.pc, path.univ, path.idx, goal, tmo, hs)
        if TRACE:
            print('%6.2fs %s %s %s' % (time.time() - t0, st, be, name), flush=True)
        inputs = None
        if st != 'proved':
            if model is not None:
                inputs = extract(path.inputs, model)
            else:
                # any model of the path is still a useful candidate
                inputs = path_model(path)
        self.results.append(Result(name, st, backend=be, inputs=inputs,
                                   goal=str(goal)[:600] if st != 'proved' else '',
                                   pc=[str(p)[:200] for p in path.pc[-12:]] if st != 'proved' else None))

    def explore(self):
        global CUR
        while True:
            try:
                self._explore()
                return self
            except Restart:
                self.results, self.work, self.seeds = [], [], []
                self.nforks = self.npaths = self.nraised = 0
                continue
            finally:
                CUR = None

    def _explore(self):
        global CUR
        self.work = [[]]
        while self.work:
            prefix = self.work.pop()
            CUR = Path(self, prefix)
            try:
                self.fn(CUR)
                self.npaths += 1
            except PathEnd:
                self.npaths += 1
            except Restart:
                raise
            except Unsupported as ex:
                self.unsupported.append('%s: %s' % (type(ex).__name__, ex))
                import traceback
                self.unsupported_tb = traceback.format_exc()
                if len(self.unsupported) > 3 or isinstance(ex, Budget):
                    return
            except Exception as ex:
                if model_signature(ex):
                    self.unsupported.append('arguments the model of a library function does not know: %s' % ex)
                    continue
                # raised by the code: only counts when the path is possible under the quantified facts too
                if CUR.univ and prove(CUR.pc, CUR.univ, CUR.idx, z3.BoolVal(False), 8)[0] == 'proved':
                    self.npaths += 1
                    continue
                self.err_inputs = path_model(CUR)
                raise
            if len(self.seeds) < 60 and time.time() < self.deadline:
                m = path_model(CUR)
                if m:
                    self.seeds.append(m)


def model_signature(ex):
    """a TypeError about the arguments of one of the engine's own stand-ins for library functions"""
    import re
    import sys
    import linecache
    tb, last = ex.__traceback__, None
    while tb is not None:
        last, tb = tb, tb.tb_next
    fname = last.tb_frame.f_code.co_filename
    # an internal error of the engine (nothing it raises on purpose to mimic the library) is a limit of the engine
    if '/vf/' in fname and isinstance(ex, (TypeError, AttributeError, KeyError, NameError, AssertionError, RecursionError, z3.Z3Exception)) \
            and 'raise' not in linecache.getline(fname, last.tb_lineno):
        return True
    if isinstance(ex, AttributeError) and re.match(r"'(SArr|S|C|NP|IdxSel|Poly1d|SRange|Dtype|NPOBJ|SymIter|StubAttr)' object has no attribute", str(ex)):
        return True
    if not isinstance(ex, TypeError):
        return False
    m = re.match(r"([\w.<>]+)\(\) (got an unexpected|got multiple|missing|takes)", str(ex))
    if not m:
        return False
    if '/vf/' in fname:
        return True
    first = m.group(1).split('.')[0]
    return any(first in vars(sys.modules[q]) for q in ('vf.snp', 'vf.load', 'vf.core') if q in sys.modules)


def path_model(path):
    if not path.inputs:
        return None
    try:
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*path.pc)
        s.add(*axioms(path.pc))
        if s.check() == z3.sat:
            return extract(path.inputs, s.model())
    except z3.Z3Exception:
        pass
    return None


def val(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError('no value for %s' % e)


def extract(inputs, model):
    out = {}
    try:
        for k, d in inputs.items():
            t = d[0]
            if t == 'scalar':
                out[k] = val(model, d[1]) if z3.is_expr(d[1]) else float(d[1])
            elif t == 'const':
                out[k] = d[1]
            elif t == 'array':
                f, shape = d[1], d[2]
                dims = [val(model, lift(s).e) if not isinstance(s, int) else s for s in shape]
                if any(x > 200 for x in dims):
                    return None
                import itertools
                def cell(ix):
                    v = f(tuple(ix))
                    return val(model, lift(v).e) if isinstance(v, S) else float(v)
                def build(pre, rest):
                    if not rest:
                        return cell(pre)
                    return [build(pre + [i], rest[1:]) for i in range(rest[0])]
                out[k] = build([], dims)
        return out
    except Exception:
        return None
