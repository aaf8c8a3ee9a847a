"""C17 transformation of processes"""
from vf.api import *
M = 'wafo.misc'
META = {'assumptions': ['numpy.interp interpolates linearly in an increasing table (its documentation)',
                        'points outside the table: known finding (KNOWN-FINDING of C17), the contracts assume points inside (half a step per derivative inside its ends)',
                        'tables finer than tranproc\'s own limit (more points than range * 10**(7/derivatives)) are resampled first and not covered']}


def table(v, n, tab=None):
    a, h = v.real('a'), v.real('h', gt=0)
    x = SArr.new(lambda ix: a + lift(ix[0]).real() * h, 'r', (snp.sx(n),)).copy()
    f = v.array('f', n)
    return a, h, x, f


@contract('C17', 'trangood: an equally spaced table is returned as it is', [M + ':trangood'], conc='good')
def tg1(v):
    n = v.int('n', 2)
    a, h, x, f = table(v, n)
    lo, hi = v.real('lo'), v.real('hi')
    v.assume(land(lo >= a, hi <= a + (lift(n).real() - 1) * h))
    xo, fo = v.call(M, 'trangood', x, f, min_x=lo, max_x=hi)
    i = v.index(n)
    v.ensure('size', land(xo.shape[0] == n, fo.shape[0] == n))
    v.ensure('table', land(xo.get(i) == a + lift(i).real() * h, fo.get(i) == f.f0((i,))))
    v.ensure('input unchanged', land(x.get(i) == a + lift(i).real() * h, f.get(i) == f.f0((i,))))


@contract('C17', 'trangood: duplicate abscissae and matrices are refused', [M + ':trangood'], conc='good')
def tg2(v):
    n = v.int('n', 2)
    x, f = v.array('x', n), v.array('f', n)
    i, j = v.index(n), v.index(n)
    v.assume(land(i < j, x.get(i) == x.get(j)))
    x2 = v.array('x2', 2, n)
    v.ensure('x must be a vector', v.raises(ValueError, v.get(M, 'trangood'), x2, f))
    v.ensure('f must be a vector', v.raises(ValueError, v.get(M, 'trangood'), f, x2))


@contract('C17', 'trangood: extension to the right', [M + ':trangood'], conc='good')
def tg3(v):
    n = v.int('n', 2)
    a, h, x, f = table(v, n)
    hi = v.real('hi')
    last = a + (lift(n).real() - 1) * h
    v.assume(hi > last)
    xo, fo = v.call(M, 'trangood', x, f, max_x=hi)
    m = lift(xo.shape[0])
    i = v.index(m)
    v.ensure('as many values as abscissae', fo.shape[0] == m)
    v.ensure('longer', m >= n)
    v.ensure('equally spaced', xo.get(i) == a + lift(i).real() * h)
    v.ensure('old values', implies(i < n, fo.get(i) == f.f0((i,))))
    e = f.f0((lift(n) - 1,))
    v.ensure('on the straight line', implies(i >= n, fo.get(i) == e + (e - f.f0((lift(n) - 2,))) * (lift(i).real() - lift(n).real() + 1)))
    v.ensure('reaches the requested end', xo.get(m - 1) >= hi)


@contract('C17', 'trangood: extension to the left', [M + ':trangood'], conc='good')
def tg4(v):
    n = v.int('n', 2)
    a, h, x, f = table(v, n)
    lo = v.real('lo')
    v.assume(lo < a)
    xo, fo = v.call(M, 'trangood', x, f, min_x=lo)
    m = lift(xo.shape[0])
    i, k = v.index(m), v.index(n)
    new = m - n
    v.ensure('as many values as abscissae', fo.shape[0] == m)
    v.ensure('old table at the end', land(m >= n, xo.get(new + k) == a + lift(k).real() * h, fo.get(new + k) == f.f0((k,))))
    v.ensure('new abscissae before the old ones', implies(i < new, xo.get(i) < a))
    v.ensure('on the straight line', implies(i < new, (fo.get(i) - f.f0((0,))) * h == (f.f0((1,)) - f.f0((0,))) * (xo.get(i) - a)))


for _n, _m in ((2, 3), (2, 4), (3, 4), (3, 6), (4, 5), (4, 3), (4, 2), (5, 3)):
    @contract('C17', 'trangood: resampling %d points to %d' % (_n, _m), [M + ':trangood'], conc='good', bound='tables of up to 5 points resampled to up to 6')
    def tg5(v, n=_n, m=_m):
        x, f = v.array('x', n), v.array('f', n)
        v.assume(land(*[x.get(i) < x.get(i + 1) for i in range(n - 1)]))
        kw = dict(min_n=m) if m > n else dict(max_n=m)
        xo, fo = v.call(M, 'trangood', x, f, **kw)
        L = x.get(n - 1) - x.get(0)
        v.ensure('number of points', land(xo.shape[0] == m, fo.shape[0] == m))
        for i in range(m):
            t = x.get(0) + L * Q(i, m - 1)
            v.ensure('equally spaced over the same range', xo.get(i) == t)
            for j in range(n - 1):
                v.ensure('linear interpolation', implies(land(x.get(j) <= t, t <= x.get(j + 1)),
                                                         (fo.get(i) - f.get(j)) * (x.get(j + 1) - x.get(j)) == (f.get(j + 1) - f.get(j)) * (t - x.get(j))))


@contract('C17', 'trangood: duplicates', [M + ':trangood'], conc='good', bound='tables of 3 points')
def tg6(v):
    x, f = v.array('x', 3), v.array('f', 3)
    v.assume(lor(x.get(0) == x.get(1), x.get(0) == x.get(2), x.get(1) == x.get(2)))
    v.p.idx += [z3.IntVal(i) for i in range(3)]
    v.ensure('refused', v.raises(ValueError, v.get(M, 'trangood'), x, f))


def chain(d, xi):
    """Faa di Bruno's formula up to fourth order; d[k] = k-th derivative of f, xi[k] = (k+1)-th derivative of x"""
    r = [d[0] * xi[0]]
    if len(xi) > 1:
        r.append(d[1] * xi[0] * xi[0] + d[0] * xi[1])
    if len(xi) > 2:
        r.append(d[2] * xi[0] * xi[0] * xi[0] + 3 * d[1] * xi[0] * xi[1] + d[0] * xi[2])
    if len(xi) > 3:
        r.append(d[3] * xi[0] * xi[0] * xi[0] * xi[0] + 6 * d[2] * xi[0] * xi[0] * xi[1] + d[1] * (3 * xi[1] * xi[1] + 4 * xi[0] * xi[2]) + d[0] * xi[3])
    return r


for _k in (0, 1, 2, 3, 4):
    @contract('C17', 'tranproc: %d derivatives' % _k, [M + ':tranproc'], conc='proc', bound='tables of %d points (any number of points transformed)' % (_k + 3))
    def tp(v, k=_k):
        n = k + 3
        a, h, x, f = table(v, n)
        m = v.int('m', 1)
        u = v.array('u', m)      # position in steps
        v.assume(v.forall(m, lambda i: land(u.get(i) >= Q(k, 2), u.get(i) <= n - 1 - Q(k, 2))))
        t = SArr.new(lambda ix: a + u.f0(ix) * h, 'r', (m,)).copy()
        xi = [v.array('x%d' % (q + 1), m) for q in range(k)]
        ten = {0: 10 ** 7, 1: 10 ** 7, 2: 3162, 3: 215, 4: 56}[k]     # at most 10**(7/k)
        if k > 1:
            v.lemma(vpow(10, Q(7, k)) >= ten)
        v.assume(h * ten >= n)

        def good(xx, ff, min_n=None, min_x=None, max_x=None, max_n=None):
            """trangood by its contract: an equally spaced table covering the points is returned as it is"""
            nn = xx.shape[0]
            v.ensure('table equally spaced', land(*[xx.get(q + 1) - xx.get(q) == h for q in range(nn - 1)]))
            v.ensure('table covers the points', land(min_x >= xx.get(0), max_x <= xx.get(nn - 1)))
            v.ensure('table not thinned', max_n >= nn)
            return xx.copy(), ff.copy()
        v.override(M, 'trangood', good)
        r = v.call(M, 'tranproc', x, f, t, *xi)
        ys = [r] if k == 0 else list(r)
        v.ensure('one result per derivative', len(ys) == k + 1)
        i = v.index(m)
        # difference quotients of the table and their linear interpolation
        tab = [f.f0((q,)) for q in range(n)]
        ders, s = [], u.get(i)
        for q in range(k + 1):
            val = tab[-1]
            for c in range(len(tab) - 2, -1, -1):
                val = ite(s < c + 1, tab[c] + (tab[c + 1] - tab[c]) * (s - c), val)
            ders.append(val)
            tab = [(tab[c + 1] - tab[c]) / h for c in range(len(tab) - 1)]
            s = s - Q(1, 2)
        v.ensure('linear interpolation', ys[0].get(i) == ders[0])
        for q, ref in enumerate(chain(ders[1:], [z.get(i) for z in xi]) if k else []):
            v.ensure('chain rule, order %d' % (q + 1), ys[q + 1].get(i) == ref)
        v.ensure('input unchanged', land(t.get(i) == a + u.get(i) * h, *[x.get(q) == a + q * h for q in range(n)]))
