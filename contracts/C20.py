"""C20 second-order corrections: the C and the numba routine equal the defining double sum"""
from vf.api import *
from vf import cfront

P = cfront.Ptr
G = {'inf': float('inf')}
META = {'assumptions': ['machine arithmetic treated as real arithmetic', 'finite depth: 0 < w strictly increasing, kw > 0, no divisor of the kernels vanishes, and the '
                        'hyperbolic sine of the diagonal is cut at 2 kw h >= 600 (where it is below 1e-258)',
                        'the number of frequencies is arbitrary; the number of rows m is 1 (the only value the package uses), in deep water also 2']}
NB = 'wafo._misc_numba'


def tanh(x):
    return fn1('tanh', x)


def divisor(w1, k1, w2, k2, h, g):
    return 1 - vdiv(g * (k1 + k2), (w1 + w2) * (w1 + w2)) * tanh((k1 + k2) * h)


def group(w, k, h, g):
    t = tanh(k * h)
    return vdiv(g * (t + k * h * (1 - t * t)), 2 * w)


def qtf(w1, k1, w2, k2, h, g):
    """quadratic transfer function of Marthinsen and Winterstein; the difference kernel has the second wave with negative frequency and wave number"""
    a = vdiv(g * k1 * k2, w1 * w2)
    b = vdiv(w1 * w1 + w2 * w2 + w1 * w2, 2 * g)
    c = vdiv(g * (w1 * k2 * k2 + w2 * k1 * k1), 2 * w1 * w2 * (w1 + w2))
    return vdiv(a - b + c, divisor(w1, k1, w2, k2, h, g)) - vdiv(a, 2) + b


def mean_kernel(w, k, h, g, cut=True):
    """limit of the difference kernel for equal frequencies, by the group velocity"""
    cg = group(w, k, h, g)
    a, b = vdiv(g * k * k, 2 * w * w), vdiv(w * w, 2 * g)
    s = vdiv(k, fn1('sinh', 2 * k * h))
    s = ite(k * h < 300, s, 0) if cut else s
    return vdiv(a - b + vdiv(g * k, w * cg), 1 - vdiv(g * h, cg * cg)) - s


class Sums(object):
    """the defining double sum, row by row: Z(i, q) before row i, R(i, j, q) in row i before column j.
    part: real/imaginary; kinds: which effects are collected"""

    def __init__(self, name, v, a, deep, part, sums, diffs):
        self.Z = z3.Function('Z' + name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.R = z3.Function('R' + name, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.rA, self.iA, self.w, self.kw, self.h, self.g, self.a0, self.b0, self.m, self.n = a
        self.deep, self.part, self.sums, self.diffs, self.v = deep, part, sums, diffs, v
        self.done = set()

    def z(self, i, q):
        return S(self.Z(lift(i).e, lift(q).e))

    def r(self, i, j, q):
        return S(self.R(lift(i).e, lift(j).e, lift(q).e))

    def amp(self, i, c):
        return self.rA.get(i * self.m + c), self.iA.get(i * self.m + c)

    def kernels(self, i, j):
        w, k = self.w, self.kw
        if self.deep:
            return vdiv(k.get(i) + k.get(j), 2), -vdiv(vabs(k.get(j) - k.get(i)), 2)
        return qtf(w.get(i), k.get(i), w.get(j), k.get(j), self.h, self.g), qtf(w.get(i), k.get(i), -w.get(j), -k.get(j), self.h, self.g)

    def diag(self, i, q):
        """pairs (i, i)"""
        out = 0
        for c in range(self.m):
            x, y = self.amp(i, c)
            if self.sums:
                e = self.kernels(i, i)[0]
                sq = x * x - y * y if self.part == 0 else 2 * x * y
                out = out + ite(lift(q) == 2 * i * self.m + c, 2 * sq * e, 0)
            if self.diffs and not self.deep and self.part == 0:
                out = out + ite(lift(q) == c, 2 * (x * x + y * y) * mean_kernel(self.w.get(i), self.kw.get(i), self.h, self.g), 0)
        return out

    def pair(self, i, j, q):
        """pairs i < j, both orders"""
        out = 0
        e, d = self.kernels(i, j)
        for c in range(self.m):
            x1, y1 = self.amp(i, c)
            x2, y2 = self.amp(j, c)
            if self.sums:
                out = out + ite(lift(q) == (i + j) * self.m + c, 4 * e * (x1 * x2 - y1 * y2 if self.part == 0 else x1 * y2 + y1 * x2), 0)
            if self.diffs:
                out = out + ite(lift(q) == (j - i) * self.m + c, 4 * d * (x1 * x2 + y1 * y2 if self.part == 0 else x1 * y2 - y1 * x2), 0)
        return out

    def regular(self, i, j):
        """no divisor vanishes"""
        if self.deep:
            return
        w, k, h, g = self.w, self.kw, self.h, self.g
        x = w.get(i), k.get(i)
        cg = group(x[0], x[1], h, g)
        self.v.assume(land(lift(x[0]) > 0, lift(x[1]) > 0))
        ds = [cg, 1 - vdiv(g * h, cg * cg), divisor(x[0], x[1], x[0], x[1], h, g)]
        if j is not None:
            y = w.get(j), k.get(j)
            self.v.assume(land(lift(y[0]) > 0, lift(y[1]) > 0))
            self.v.assume(implies(lift(i) != j, lift(x[0]) - y[0] != 0))
            ds = [divisor(x[0], x[1], y[0], y[1], h, g), divisor(x[0], x[1], -y[0], -y[1], h, g)]
        for d in ds:
            self.v.assume(lift(d) != 0)

    def define(self, i, j=None):
        """the definition, at row i (column j)"""
        v = self.v
        self.regular(i, None if j is None else j - 1)
        if j is None:
            v.assume(Forall(1, lambda q: implies(lift(i) == self.a0 - 1, self.z(i, q) == 0)))
            v.assume(Forall(1, lambda q: implies(lift(i) >= self.a0, self.z(i, q) == self.r(i - 1, vmax(self.b0, i), q))))
        else:
            v.assume(Forall(1, lambda q: implies(lift(j) == i + 1, self.r(i, j, q) == self.z(i, q) + self.diag(i, q))))
            v.assume(Forall(1, lambda q: implies(lift(j) > i + 1, self.r(i, j, q) == self.r(i, j - 1, q) + self.pair(i, j - 1, q))))


def loops(fn, c, base, outs, deep, get):
    """invariants: each output holds the partial sum"""
    def arrays(L):
        return [getattr(L, o) for o in outs]

    def inv_ix(L):
        i = L.ix if c else G['a'] - 1 + L._k
        r = [('row', land(lift(i) >= G['a'] - 1, lor(lift(i) <= G['b'], lift(i) == G['a'] - 1)))]
        for nm, o, s in zip(outs, arrays(L), get()):
            s.define(i)
            r.append(('%s holds the rows before' % nm, Forall(1, lambda q, o=o, s=s: implies(land(lift(q) >= 0, lift(q) < G['n'] * G['m']), at(o, q) == s.z(i, q)))))
        return r

    def inv_jy(L):
        i = L.ix
        j = L.jy if c else i + 1 + L._k
        r = [('column', land(lift(i) >= G['a'] - 1, lift(i) < G['b'], lift(j) > i, lift(j) <= vmax(G['b'], i + 1)))]
        for nm, o, s in zip(outs, arrays(L), get()):
            s.define(i, j)
            s.define(i)
            r.append(('%s holds the columns before' % nm, Forall(1, lambda q, o=o, s=s: implies(land(lift(q) >= 0, lift(q) < G['n'] * G['m']), at(o, q) == s.r(i, j, q)))))
        return r
    d = (lambda f: f) if c else (lambda f: None)
    return {(fn, base): LoopSpec(inv_ix, dec=d(lambda L: G['b'] - L.ix), names=(), writes=outs),
            (fn, base + 2): LoopSpec(inv_jy, dec=d(lambda L: G['b'] - L.jy), names=(), writes=outs)}


def zero_loop(outs):
    def inv(L):
        N = G['n'] * G['m']
        return [('position', land(L.ix >= 0, lift(L.ix) <= N))] + [
            ('%s cleared so far' % o, Forall(1, lambda q, o=o: implies(land(lift(q) >= 0, lift(q) < L.ix), at(getattr(L, o), q) == 0))) for o in outs]
    return LoopSpec(inv, dec=lambda L: G['n'] * G['m'] - L.ix, names=(), writes=outs)


def args(v, m, deep):
    n = v.int('n', 1)
    a, b = v.int('nmin', 1 if deep else 2), v.int('nmax', 0)
    v.assume(2 * b <= n)
    G.update(n=n, m=m, a=a, b=b)
    h, g = v.real('h', gt=10000) if deep else v.real('h', gt=0, hi=10000), v.real('g', gt=0)
    q = n // 2 + 1
    w, k = v.array('w', q), v.array('kw', q)
    if deep:
        v.assume(v.forall2(q, q, lambda i, j: implies(lift(i) < j, k.get(i) <= k.get(j))))
    else:
        v.assume(v.forall(q, lambda i: implies(lift(i) > 0, land(w.get(i) > 0, k.get(i) > 0))))
        v.assume(v.forall2(q, q, lambda i, j: implies(lift(i) < j, w.get(i) < w.get(j))))
    return v.array('rA', n * m), v.array('iA', n * m), w, k, h, g, a, b, m, n


def finish(v, outs, sums, n, m, b, a):
    q = v.index(n * m, 'q')
    end = vmax(b, a - 1)
    for (nm, o), s in zip(outs, sums):
        v.ensure('%s equals the double sum' % nm, o.get(q) == s.z(end, q))


for _deep in (True, False):
    for _m in (1, 2) if _deep else (1,):
        _n = ' (%s, %d row%s)' % ('deep water' if _deep else 'finite depth', _m, 's' if _m > 1 else '')
        _f = '_deep_water_disufq' if _deep else '_finite_water_disufq'

        @contract('C20', 'numba disufq' + _n, [NB + ':disufq', NB + ':' + _f], conc='disufq', native=True, budget=600,
                  loops=loops(_f, False, 0, ('rvec', 'ivec'), _deep, lambda: G['sums']))
        def nu(v, m=_m, deep=_deep):
            a = args(v, m, deep)
            G['sums'] = [Sums('re', v, a, deep, 0, True, True), Sums('im', v, a, deep, 1, True, True)]
            r, i = v.call(NB, 'disufq', *a)
            v.ensure('sizes', land(r.shape[0] == a[-1] * m, i.shape[0] == a[-1] * m))
            finish(v, [('rvec', r), ('ivec', i)], G['sums'], a[-1], m, a[7], a[6])

        for _two in (False, True):
            _o = ('rsvec', 'isvec', 'rdvec', 'idvec') if _two else ('rvec', 'ivec')
            _c = 'disufq2' if _two else 'disufq'
            _b = 1 if _deep else 5

            @contract('C20', 'C ' + _c + _n, ['c_functions.c:' + _c], conc='disufq', native=True, budget=600,
                      loops=dict(list(loops(_c, True, _b, _o, _deep, lambda: G['sums']).items()) + [((_c, 0), zero_loop(_o))]))
            def cc(v, m=_m, deep=_deep, two=_two, outs=_o, c=_c):
                a = args(v, m, deep)
                kinds = [(0, True, False), (1, True, False), (0, False, True), (1, False, True)] if two else [(0, True, True), (1, True, True)]
                G['sums'] = [Sums('%d' % k, v, a, deep, *kd) for k, kd in enumerate(kinds)]
                arr = [v.array('out%d' % k, a[-1] * m) for k in range(len(outs))]
                cfront.cfile().get(c)(*([P(o) for o in arr] + [P(x) for x in a[:4]] + list(a[4:])))
                finish(v, list(zip(outs, arr)), G['sums'], a[-1], m, a[7], a[6])


SC = 'wafo.spectrum.core'
G['finding'] = ('qtf(method="winterstein") at finite depth evaluates tanh(k1+-k2) * h where the kernel has tanh((k1+-k2)*h)')


def grid(v, n, deep):
    """frequencies and the wave numbers w2k returns for them"""
    w, k = v.array('w', n), v.array('k', n)
    v.assume(v.forall(n, lambda i: land(w.get(i) > 0, k.get(i) > 0)))

    def w2k(w_, theta=0, h=None, g=None, rtol=None, atol=None):
        return k, 0 * k
    v.override(SC, 'w2k', w2k)
    v.override(SC, '_TINY', 0)
    return w, k


@contract('C20', 'qtf, deep water', [SC + ':qtf'], conc='qtf')
def qtf_deep(v):
    n, g = v.int('n', 1), v.real('g', gt=0)
    w, k = grid(v, n, True)
    hs, hd, di = v.call(SC, 'qtf', w, G['inf'], g)
    i, j = v.index(n, 'i'), v.index(n, 'j')
    v.ensure('sum kernel', hs.get(i, j) == vdiv(k.get(i) + k.get(j), 4))
    v.ensure('difference kernel', hd.get(i, j) == -vdiv(vabs(k.get(i) - k.get(j)), 4))
    v.ensure('diagonal', di.get(i) == 0)


for _meth in ('langley', 'winterstein'):
    @contract('C20', 'qtf, finite depth, ' + _meth, [SC + ':qtf'], conc='qtf')
    def qtf_fin(v, meth=_meth):
        n, g, h = v.int('n', 1), v.real('g', gt=0), v.real('h', gt=0)
        w, k = grid(v, n, False)
        hs, hd, di = v.call(SC, 'qtf', w, h, g, meth)
        i, j = v.index(n, 'i'), v.index(n, 'j')
        x = w.get(j), k.get(j), w.get(i), k.get(i)
        y = x[:2] + (-x[2], -x[3])
        v.ensure('shape', land(hs.shape[0] == n, hs.shape[1] == n, hd.shape[0] == n, hd.shape[1] == n))
        v.assume(lift(divisor(*(x + (h, g)))) != 0)
        v.assume(lift(divisor(*(y + (h, g)))) != 0)
        for z in (x, y):
            s, t = z[0] + z[2], (z[1] + z[3]) * h
            v.assume(s * s * fn1('cosh', t) - g * (z[1] + z[3]) * fn1('sinh', t) != 0)
            v.assume(fn1('cosh', t) > 0)
        if meth == 'langley':
            v.ensure('sum kernel', hs.get(i, j) == vdiv(qtf(*(x + (h, g))), 2))
        cg = group(x[2], x[3], h, g)
        v.assume(lift(cg) != 0)
        v.assume(1 - vdiv(g * h, cg * cg) != 0)
        m = vdiv(mean_kernel(x[2], x[3], h, g, False), 2)
        v.ensure('mean kernel', di.get(i) == m)
        if v.case(lift(i) == j):
            v.ensure('mean kernel on the diagonal', hd.get(i, j) == m)
        elif meth == 'langley':
            v.assume(w.get(i) - w.get(j) != 0)
            v.ensure('difference kernel', hd.get(i, j) == vdiv(qtf(*(y + (h, g))), 2))
