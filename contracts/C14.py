"""C14 polynomial algebra"""
from vf.api import *
P = 'wafo.polynomial'
META = {'assumptions': ['numpy polyadd, polymul, polyval and poly1d are modelled by the definition of polynomial arithmetic',
                        'coefficients are real numbers']}
N = 6          # bound on the number of coefficients where the degree is enumerated


def poly(v, nm, n):
    return [v.real('%s%d' % (nm, i)) for i in range(n)]


def val(c, x):
    r = 0
    for q in c:
        r = r * x + q
    return r


def coefs(a):
    return list(a._c) if isinstance(a, snp.Poly1d) else a.tolist()


def cheb(c, y, kind=1):
    """sum of c[i] T_{n-1-i}(y) (kind 1) or U (kind 2), from the recurrence"""
    n = len(c)
    t = [lift(1).real(), kind * y]
    while len(t) < n:
        t.append(2 * y * t[-1] - t[-2])
    return snp._sumlist([q * t[n - 1 - i] for i, q in enumerate(c)])


def dcheb(c, y):
    """derivative with respect to y"""
    n = len(c)
    t, d = [lift(1).real(), y], [lift(0).real(), lift(1).real()]
    while len(t) < n:
        t.append(2 * y * t[-1] - t[-2])
        d.append(2 * t[-2] + 2 * y * d[-1] - d[-2])
    return snp._sumlist([q * d[n - 1 - i] for i, q in enumerate(c)])


def dval(c, x):
    n = len(c)
    return val([q * (n - 1 - i) for i, q in enumerate(c[:-1])], x) if n > 1 else 0


# ---- differentiation and integration, every degree --------------------------------------------------
@contract('C14', 'polyder: coefficients of every degree', [P + ':polyder'], conc='power')
def d1(v):
    n = v.int('n', 2)
    p = v.array('p', n)
    r = v.call(P, 'polyder', p)
    i = v.index(n - 1)
    v.ensure('one coefficient less', r.shape[0] == n - 1)
    v.ensure('coefficient times exponent', r.get(i) == (n - 1 - i) * p.get(i))
    m = v.int('m', 1)
    q = v.array('q', n, m)
    r = v.call(P, 'polyder', q)
    j = v.index(m)
    v.ensure('columns', land(r.shape[0] == n - 1, r.shape[1] == m, r.get(i, j) == (n - 1 - i) * q.get(i, j)))
    v.ensure('order zero', v.call(P, 'polyder', p, 0).get(i) == p.get(i))
    v.ensure('negative order refused', v.raises(ValueError, v.get(P, 'polyder'), p, -1))
    v.ensure('input unchanged', p.get(i) == p.f0((i,)))


@contract('C14', 'polyder: repeated', [P + ':polyder'], conc='power')
def d2(v):
    n = v.int('n', 4)
    p = v.array('p', n)
    r2, r3 = v.call(P, 'polyder', p, 2), v.call(P, 'polyder', p, 3)
    i, j = v.index(n - 2), v.index(n - 3)
    v.ensure('second derivative', land(r2.shape[0] == n - 2, r2.get(i) == (n - 2 - i) * (n - 1 - i) * p.get(i)))
    v.ensure('third derivative', land(r3.shape[0] == n - 3, r3.get(j) == (n - 3 - j) * (n - 2 - j) * (n - 1 - j) * p.get(j)))


@contract('C14', 'polyint: coefficients of every degree', [P + ':polyint'], conc='power')
def i1(v):
    n = v.int('n', 1)
    p = v.array('p', n)
    k = v.real('k')
    r = v.call(P, 'polyint', p, 1, k)
    i = v.index(n)
    v.ensure('one coefficient more', r.shape[0] == n + 1)
    v.ensure('coefficient over exponent', (n - i) * r.get(i) == p.get(i))
    v.ensure('constant', r.get(n) == k)
    v.ensure('default constant', v.call(P, 'polyint', p).get(n) == 0)
    d = v.call(P, 'polyder', r)
    v.ensure('derivative of the integral', land(d.shape[0] == n, d.get(i) == p.get(i)))
    m = v.int('m', 2)
    q = v.array('q', n, m)
    r = v.call(P, 'polyint', q)
    j = v.index(m)
    v.ensure('columns', land(r.shape[0] == n + 1, r.shape[1] == m, (n - i) * r.get(i, j) == q.get(i, j), r.get(n, j) == 0))
    v.ensure('order zero', v.call(P, 'polyint', p, 0).get(i) == p.get(i))
    v.ensure('negative order refused', v.raises(ValueError, v.get(P, 'polyint'), p, -1))


@contract('C14', 'polyint: repeated', [P + ':polyint'], conc='power')
def i2(v):
    n = v.int('n', 1)
    p = v.array('p', n)
    k = poly(v, 'k', 2)
    r = v.call(P, 'polyint', p, 2, k)
    i = v.index(n)
    v.ensure('second integral', land(r.shape[0] == n + 2, (n - i) * (n + 1 - i) * r.get(i) == p.get(i)))
    v.ensure('constants', land(r.get(n) == k[0], r.get(n + 1) == k[1]))
    r = v.call(P, 'polyint', p, 2, k[0])
    v.ensure('one constant for both', land(r.get(n) == k[0], r.get(n + 1) == k[0]))
    v.ensure('too few constants', v.raises(ValueError, v.get(P, 'polyint'), p, 3, k))


# ---- transformations of a polynomial, degrees up to N-1 ----------------------------------------------
for _n in range(1, N):
    @contract('C14', 'polyreloc and polyrescl: %d coefficients' % _n, [P + ':polyreloc', P + ':polyrescl'], conc='power', bound='up to %d coefficients' % (N - 1))
    def rl(v, n=_n):
        p = poly(v, 'p', n)
        t, x, y = v.real('t'), v.real('x'), v.real('y')
        a = snp.array([lift(q).real() for q in p])
        r = v.call(P, 'polyreloc', a, x, y)
        v.ensure('moved', land(r.shape[0] == n, val(r.tolist(), t) == val(p, t - x) + y))
        r = v.call(P, 'polyreloc', a, x)
        v.ensure('default height', val(r.tolist(), t) == val(p, t - x))
        v.ensure('input unchanged', land(*[g == q for g, q in zip(a.tolist(), p)]))
        v.assume(x != 0)
        r = v.call(P, 'polyrescl', a, x, y)
        v.ensure('scaled', land(r.shape[0] == n, val(r.tolist(), x * t) == y * val(p, t)))
        r = v.call(P, 'polyrescl', a, x)
        v.ensure('default scale', val(r.tolist(), x * t) == val(p, t))
        m = v.int('m', 2)
        q = v.array('q', n, m)
        j = v.index(m)
        r, s = v.call(P, 'polyreloc', q, x, y), v.call(P, 'polyrescl', q, x, y)
        v.ensure('columns', land(val([r.get(i, j) for i in range(n)], t) == val([q.get(i, j) for i in range(n)], t - x) + y,
                                 val([s.get(i, j) for i in range(n)], x * t) == y * val([q.get(i, j) for i in range(n)], t)))

    @contract('C14', 'polyshift and polyishift: %d coefficients' % _n, [P + ':polyshift', P + ':polyishift', P + ':polyreloc', P + ':polyrescl'], conc='power',
              bound='up to %d coefficients' % (N - 1))
    def sh(v, n=_n):
        p = poly(v, 'p', n)
        t, a, b = v.real('t'), v.real('a'), v.real('b')
        v.assume(a < b)
        arr = snp.array([lift(q).real() for q in p])
        y = vdiv(2 * t - a - b, b - a)
        r = v.call(P, 'polyishift', arr, a, b)
        v.ensure('polyishift: variable in [-1,1]', val(r.tolist(), y) == val(p, t))
        r = v.call(P, 'polyshift', arr, a, b)
        v.ensure('polyshift: variable in [a,b]', val(r.tolist(), t) == val(p, y))

    @contract('C14', 'Chebyshev value and conversion: %d coefficients' % _n, [P + ':chebval', P + ':_chebval', P + ':cheb2poly', P + ':map_from_interval'],
              conc='cheb', bound='up to %d coefficients' % (N - 1), budget=120)
    def cv(v, n=_n):
        c = poly(v, 'c', n)
        a, b = v.real('a'), v.real('b')
        v.assume(a < b)
        m = v.int('m', 1)
        x = v.array('x', m)
        i = v.index(m)
        y = vdiv(2 * x.get(i) - a - b, b - a)
        arr = snp.array([lift(q).real() for q in c])
        z = v.array('z', m)
        for kind in (1, 2):
            r = v.call(P, '_chebval', z, arr, kind)
            v.ensure('Clenshaw sum, kind %d' % kind, r.get(i) == cheb(c, z.get(i), kind))
        r = v.call(P, '_chebval', z, arr)
        v.ensure('Clenshaw sum, default kind', r.get(i) == cheb(c, z.get(i), 1))
        v.ensure('interval', v.call(P, 'map_from_interval', x, a, b).get(i) == y)
        v.ensure('interval inverse', v.call(P, 'map_to_interval', v.call(P, 'map_from_interval', x, a, b), a, b).get(i) == x.get(i))

        def clen(yy, ck, kind=1):
            v.ensure('coefficients handed on', land(len(ck.tolist()) == n, *[g == q for g, q in zip(ck.tolist(), c)]))
            F = core.uf('clenshaw%d' % int(kind), 1)
            return snp.ew(lambda q: S(F(lift(q).real().e)), yy)
        v.override(P, '_chebval', clen)
        F1, F2 = core.uf('clenshaw1', 1), core.uf('clenshaw2', 1)
        yc = v.call(P, 'map_from_interval', x, a, b).get(i)
        r = v.call(P, 'chebval', x, arr, a, b)
        v.ensure('value at the mapped point', r.get(i) == S(F1(lift(yc).real().e)))
        r = v.call(P, 'chebval', x, arr, a, b, 2)
        v.ensure('value of the second kind', r.get(i) == S(F2(lift(yc).real().e)))
        for fill in (v.real('fill'), 0, 2):
            r = v.call(P, 'chebval', x, arr, a, b, fill=fill)
            v.ensure('fill value outside', r.get(i) == ite(vabs(yc) <= 1, S(F1(lift(yc).real().e)), fill))

    @contract('C14', 'cheb2poly: %d coefficients' % _n, [P + ':cheb2poly', P + ':polytrim'], conc='cheb', bound='up to %d coefficients' % (N - 1), budget=120)
    def c2(v, n=_n):
        c = poly(v, 'c', n)
        a, b, t = v.real('a'), v.real('b'), v.real('t')
        v.assume(a < b)
        if n > 3:
            v.assume(land(*[q != 0 for q in c[:n - 2]]))
        r = v.call(P, 'cheb2poly', snp.array([lift(q).real() for q in c]), a, b)
        y = vdiv(2 * t - a - b, b - a)
        v.ensure('same polynomial', val(r.tolist(), t) == cheb(c, y))

    @contract('C14', 'chebder and chebint: %d coefficients' % _n, [P + ':chebder', P + ':chebint'], conc='cheb', bound='up to %d coefficients' % (N - 1))
    def cd(v, n=_n):
        c = poly(v, 'c', n)
        a, b, y = v.real('a'), v.real('b'), v.real('y')
        v.assume(a < b)
        arr = snp.array([lift(q).real() for q in c])
        r = v.call(P, 'chebder', arr, a, b).tolist()
        v.ensure('derivative', cheb(r, y) * (b - a) == 2 * dcheb(c, y))
        r = v.call(P, 'chebint', arr, a, b).tolist()
        v.ensure('derivative of the integral', dcheb(r, y) * 2 == (b - a) * cheb(c, y))
        v.ensure('integral from a', cheb(r, lift(-1).real()) == 0)

    @contract('C14', 'orthogonal polynomials: %d coefficients' % _n, [P + ':orthoval', P + ':ortho2poly'], conc='ortho', bound='up to %d coefficients' % (N - 1))
    def ov(v, n=_n):
        p = snp.array([[lift(q).real() for q in poly(v, nm, n)] for nm in ('c', 'al', 'be')])
        c, al, be = p.tolist()
        m = v.int('m', 1)
        x = v.array('x', m)
        i = v.index(m)
        t = x.get(i)
        f = [lift(1).real()]
        for k in range(1, n):
            f.append((t - al[k]) * f[-1] - (be[k] * f[-2] if k > 1 else 0))
        ref = snp._sumlist([q * g for q, g in zip(c, f)])
        r = v.call(P, 'orthoval', p, x)
        v.ensure('sum of the orthogonal polynomials', r.get(i) == ref)
        r = v.call(P, 'ortho2poly', p)
        v.ensure('same polynomial in powers', val(coefs(r), t) == ref)

    if _n <= 4:
        @contract('C14', 'polytrim: %d coefficients' % _n, [P + ':polytrim'], conc='power', bound='up to 4 coefficients')
        def pt(v, n=_n):
            p = poly(v, 'p', n)
            lead = 0
            while lead < n and bool(p[lead] == 0):
                lead += 1
            a = snp.array([lift(q).real() for q in p])
            r = v.call(P, 'polytrim', a)
            if isinstance(snp.sx(r.shape[0]), int):
                v.ensure('without the leading zeros', land(r.shape[0] == n - lead, *[g == q for g, q in zip(r.tolist(), p[lead:])]))
            else:
                v.ensure('number of coefficients', r.shape[0] == n - lead)
                v.ensure('without the leading zeros', land(*[r.get(j) == p[lead + j] for j in range(n - lead)]))


@contract('C14', 'poly1d arguments', [P + ':polyder', P + ':polyint', P + ':polyreloc', P + ':polyrescl', P + ':polytrim'], conc='power')
def p1(v):
    c = poly(v, 'c', 3)
    v.assume(c[0] != 0)
    p = snp.Poly1d(snp.array([lift(q).real() for q in c]))
    x, t = v.real('x'), v.real('t')
    v.assume(x != 0)
    for nm, r, ref in (('polyder', v.call(P, 'polyder', p), 2 * c[0] * t + c[1]),
                       ('polyint', v.call(P, 'polyint', p), vdiv(c[0], 3) * t * t * t + vdiv(c[1], 2) * t * t + c[2] * t),
                       ('polyreloc', v.call(P, 'polyreloc', p, x), val(c, t - x)),
                       ('polyrescl', v.call(P, 'polyrescl', p, x), val(c, vdiv(t, x))),
                       ('polytrim', v.call(P, 'polytrim', p), val(c, t))):
        v.ensure(nm + ' gives a poly1d', isinstance(r, snp.Poly1d))
        v.ensure(nm + ' value', val(coefs(r), t) == ref)


for _n in (1, 2, 3):
    @contract('C14', 'Cheb1d: %d coefficients' % _n, [P + ':Cheb1d', P + ':chebder', P + ':chebint'], conc='cheb1d', bound='up to 3 coefficients')
    def ch(v, n=_n):
        c, d = poly(v, 'c', n), poly(v, 'd', 2)
        a, b, y = v.real('a'), v.real('b'), v.real('y')
        v.assume(a < b)
        K = v.get(P, 'Cheb1d')
        f = K(snp.array([lift(q).real() for q in c]), a, b)
        g = K(snp.array([lift(q).real() for q in d]), a, b)
        co = lambda q: q.coeffs.tolist()
        v.ensure('same function', cheb(co(f), y) == cheb(c, y))
        v.ensure('interval kept', land(*[q.a == a and q.b == b for q in (f + g, -f, f.deriv(), f.integ())]))
        v.ensure('sum', cheb(co(f + g), y) == cheb(c, y) + cheb(d, y))
        v.ensure('difference', cheb(co(f - g), y) == cheb(c, y) - cheb(d, y))
        v.ensure('negative', cheb(co(-f), y) == -cheb(c, y))
        v.ensure('derivative', cheb(co(f.deriv()), y) * (b - a) == 2 * dcheb(c, y))
        v.ensure('integral', dcheb(co(f.integ()), y) * 2 == (b - a) * cheb(c, y))
