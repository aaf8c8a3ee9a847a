"""C15 piecewise polynomials and monotone interpolation"""
from vf.api import *
I = 'wafo.interpolate'
META = {'assumptions': ['numpy.searchsorted returns the insertion point of its documentation',
                        'wafo.polynomial is used through the real code (its own contracts are C14)',
                        'scipy.interpolate.BPoly (Pchip, CubicHermiteSpline) and the sparse solver (SmoothSpline) are external: bounded search only']}


def val(c, x):
    r = 0
    for q in c:
        r = r * x + q
    return r


def increasing(v, a, n):
    v.assume(Forall(2, lambda i, j: implies(land(lift(i) >= 0, lift(i) < j, lift(j) < n), a.get(i) < a.get(j))))


def pp(v, order, fill=0, n=None, **kw):
    n = v.int('n', 1) if n is None else n
    b = v.array('breaks', n + 1)
    increasing(v, b, n + 1)
    c = v.array('coeffs', order, n)
    return n, b, c, v.get(I, 'PPform')(c, b, fill=fill, **kw)


for _k in (1, 2, 3, 4):
    @contract('C15', 'PPform evaluation: order %d' % _k, [I + ':PPform.__init__', I + ':PPform.__call__'], conc='ppform', bound='order up to 4 (any number of pieces and points)')
    def ev(v, k=_k):
        fill = v.real('fill')
        n, b, c, f = pp(v, k, fill)
        m = v.int('m', 1)
        x = v.array('x', m)
        r = f(x)
        i, j = v.index(m), v.index(n)
        t = x.get(i)
        v.located(t)
        v.ensure('shape', r.shape[0] == m)
        v.ensure('outside', implies(lor(t < b.get(0), t > b.get(n)), r.get(i) == fill))
        cols = [c.get(q, j) for q in range(k)]
        v.ensure('piece containing the point', implies(land(b.get(j) < t, t < b.get(j + 1)), r.get(i) == val(cols, t - b.get(j))))
        v.ensure('first break', implies(t == b.get(0), r.get(i) == c.get(k - 1, 0)))
        v.ensure('last break', implies(t == b.get(n), r.get(i) == val([c.get(q, n - 1) for q in range(k)], t - b.get(n - 1))))
        prev = [c.get(q, j - 1) for q in range(k)]
        v.ensure('inner break', implies(land(j > 0, t == b.get(j)), lor(r.get(i) == val(prev, t - b.get(j - 1)), r.get(i) == c.get(k - 1, j))))
        v.ensure('input unchanged', land(x.get(i) == x.f0((i,)), b.get(j) == b.f0((j,)), *[c.get(q, j) == c.f0((q, j)) for q in range(k)]))


if 1:
    @contract('C15', 'PPform evaluation with its own limits', [I + ':PPform.__init__', I + ':PPform.__call__'], conc='ppform')
    def ev2(v):
        lo, hi = v.real('lo'), v.real('hi')
        n, b, c, f = pp(v, 2, 7, a=lo, b=hi)
        m = v.int('m', 1)
        x = v.array('x', m)
        r = f(x)
        i, j = v.index(m), v.index(n)
        t = x.get(i)
        v.located(t)
        out = lor(t < lo, t > hi)
        v.ensure('outside', implies(out, r.get(i) == 7))
        v.ensure('piece containing the point', implies(land(lnot(out), b.get(j) < t, t < b.get(j + 1)), r.get(i) == c.get(0, j) * (t - b.get(j)) + c.get(1, j)))
        v.ensure('first piece before the breaks', implies(land(lnot(out), t < b.get(0)), r.get(i) == c.get(0, 0) * (t - b.get(0)) + c.get(1, 0)))
        v.ensure('last piece after the breaks', implies(land(lnot(out), t > b.get(n)), r.get(i) == c.get(0, n - 1) * (t - b.get(n - 1)) + c.get(1, n - 1)))


for _k in (1, 2, 3, 4):
    @contract('C15', 'PPform derivative and antiderivative: order %d' % _k, [I + ':PPform.derivative', I + ':PPform.integrate'], conc='ppform',
              bound='order up to 4 (any number of pieces)')
    def di(v, k=_k):
        fill, lo, hi = v.real('fill'), v.real('lo'), v.real('hi')
        n, b, c, f = pp(v, k, fill, a=lo, b=hi)
        t = v.real('t')
        j = v.index(n)
        if k > 1:
            g = f.derivative()
            v.ensure('derivative: breaks, limits and fill value', land(g.breaks.get(j) == b.get(j), g.breaks.shape[0] == n + 1, g.a == lo, g.b == hi, g.fill == fill, g.order == k - 1))
            ref = [c.get(q, j) * (k - 1 - q) for q in range(k - 1)]
            v.ensure('derivative of each piece', land(g.coeffs.shape[0] == k - 1, g.coeffs.shape[1] == n, val([g.coeffs.get(q, j) for q in range(k - 1)], t) == val(ref, t)))
        h = f.integrate()
        v.ensure('integral: breaks, limits and fill value', land(h.breaks.get(j) == b.get(j), h.breaks.shape[0] == n + 1, h.a == lo, h.b == hi, h.fill == fill, h.order == k + 1))
        cols = lambda p: [h.coeffs.get(q, p) for q in range(k + 1)]
        der = [cols(j)[q] * (k - q) for q in range(k)]
        v.ensure('integral: derivative of each piece', land(h.coeffs.shape[0] == k + 1, h.coeffs.shape[1] == n, val(der, t) == val([c.get(q, j) for q in range(k)], t)))
        v.ensure('integral: zero at the first break', h.coeffs.get(k, 0) == 0)
        v.p.idx.append(z3.simplify((j + 1).e))
        v.ensure('integral: continuous', implies(j + 1 < n, h.coeffs.get(k, j + 1) == val(cols(j), b.get(j + 1) - b.get(j))))
        v.ensure('input unchanged', land(b.get(j) == b.f0((j,)), *[c.get(q, j) == c.f0((q, j)) for q in range(k)]))


for _k in (1, 2, 3, 4):
  for _out in (True, False):
    @contract('C15', 'PPform linear extrapolation: order %d%s' % (_k, '' if _out else ', in place'), [I + ':PPform.linear_extrapolate'], conc='ppform', bound='order up to 4 (any number of pieces)')
    def ex(v, k=_k, out=_out):
        if 1:
            n, b, c, f = pp(v, k)
            g = f.linear_extrapolate()
            if not out:
                v.ensure('nothing returned', f.linear_extrapolate(output=False) is None)
                nb = g.breaks.shape[0]
                v.ensure('same pieces', land(f.breaks.shape[0] == nb, f.coeffs.shape[0] == g.coeffs.shape[0], f.coeffs.shape[1] == nb - 1, f.order == g.order))
                v.ensure('same limits', bool(f.a == g.a and f.b == g.b))
                j = v.index(nb)
                v.ensure('same breaks', f.breaks.get(j) == g.breaks.get(j))
                v.ensure('same coefficients', implies(j < nb - 1, land(*[f.coeffs.get(q, j) == g.coeffs.get(q, j) for q in range(g.order)])))
                return
            j = v.index(n)
            m = v.int('m', 1)
            x = v.array('x', m)
            r = g(x)
            i = v.index(m)
            t = x.get(i)
            v.located(t)
            y = r.get(i)
            cl, cr = [c.get(q, 0) for q in range(k)], [c.get(q, n - 1) for q in range(k)]
            s0 = cl[-2] if k > 1 else 0
            h = b.get(n) - b.get(n - 1)
            s1 = val([cr[q] * (k - 1 - q) for q in range(k - 1)], h)
            v.p.idx += [z3.simplify((j + 1).e)]
            v.ensure_under('inside unchanged', land(b.get(j) < t, t < b.get(j + 1)), y == val([c.get(q, j) for q in range(k)], t - b.get(j)), t, [j])
            v.ensure_under('line to the left', t < b.get(0), y == cl[-1] + s0 * (t - b.get(0)))
            v.ensure_under('line to the right', t > b.get(n), y == val(cr, h) + s1 * (t - b.get(n)), t, [n])


# ---- slopes --------------------------------------------------------------------------------------------
def data(v, lo=3):
    n = v.int('n', lo)
    x, y = v.array('x', n), v.array('y', n)
    increasing(v, x, n)
    dx = lambda i: x.get(i + 1) - x.get(i)
    s = lambda i: vdiv(y.get(i + 1) - y.get(i), dx(i))
    return n, x, y, dx, s


@contract('C15', 'slopes: documented formulas', [I + ':slopes', I + ':_catmull_rom_slope', I + ':_cardinal_slope', I + ':_parabola_slope', I + ':_secant_slope'], conc='slopes')
def sf(v):
    n, x, y, dx, s = data(v)
    ten = v.real('tension')
    i = v.index(n - 2) + 1
    v.p.idx += [z3.simplify(q.e) for q in (i, i - 1, i + 1, lift(n) - 1, lift(n) - 2)]
    chord = vdiv(y.get(i + 1) - y.get(i - 1), x.get(i + 1) - x.get(i - 1))
    para = vdiv(s(i - 1) * dx(i) + s(i) * dx(i - 1), dx(i) + dx(i - 1))
    for m, ref, kw in (('Catmull-Rom', chord, {}), ('Cardinal', (1 - ten) * chord, dict(tension=ten)), ('parabola', para, {}), ('secant', (s(i - 1) + s(i)) * Q(1, 2), {})):
        r = v.call(I, 'slopes', x, y, m, **kw)
        v.ensure(m + ' inside', land(r.shape[0] == n, r.get(i) == ref))
        f = (1 - ten) if m == 'Cardinal' else 1
        if m == 'parabola':
            v.ensure(m + ' at the ends', land(r.get(0) + r.get(1) == 2 * s(0), r.get(n - 1) + r.get(n - 2) == 2 * s(n - 2)))
        else:
            v.ensure(m + ' at the ends', land(r.get(0) == f * s(0), r.get(n - 1) == f * s(n - 2)))
    v.ensure('data unchanged', land(x.get(i) == x.f0((i,)), y.get(i) == y.f0((i,))))


@contract('C15', 'slopes: x not increasing is refused', [I + ':slopes'], conc='slopes')
def sr(v):
    n = v.int('n', 2)
    x, y = v.array('x', n), v.array('y', n)
    k = v.index(n - 1)
    v.assume(x.get(k + 1) <= x.get(k))
    v.ensure('refused', v.raises(ValueError, v.get(I, 'slopes'), x, y, 'secant'))


for _m, _c in (('pchip', 3), ('steffen', 2)):
    @contract('C15', 'slopes: %s keeps monotone data monotone' % _m, [I + ':slopes', I + ':_%s_slope' % _m, I + ':_edge_case'], conc='slopes', budget=200)
    def sm(v, m=_m, c=_c):
        n, x, y, dx, s = data(v)
        r = v.call(I, 'slopes', x, y, m)
        i = v.index(n - 2) + 1
        v.p.idx += [z3.simplify(q.e) for q in (i, i - 1, i + 1, lift(n) - 1, lift(n) - 2, lift(n) - 3)]
        g = r.get(i)
        a, b = s(i - 1), s(i)
        v.ensure('zero between secants of different sign', implies(a * b <= 0, g == 0))
        v.ensure('sign of the secants', land(g * a >= 0, g * b >= 0))
        v.ensure('within the monotonicity region', land(vabs(g) <= c * vabs(a), vabs(g) <= c * vabs(b)))
        for e, q in ((0, 0), (n - 1, n - 2)):
            v.ensure('end slope', land(r.get(e) * s(q) >= 0, vabs(r.get(e)) <= 3 * vabs(s(q))))


@contract('C15', 'slopes: stineman between the secants', [I + ':slopes', I + ':_stineman_slope'], conc='slopes', budget=200)
def ss(v):
    n, x, y, dx, s = data(v)
    r = v.call(I, 'slopes', x, y)
    i = v.index(n - 2) + 1
    v.p.idx += [z3.simplify(q.e) for q in (i, i - 1, i + 1, lift(n) - 1, lift(n) - 2, lift(n) - 3)]
    a, b, h, g = s(i - 1), s(i), dx(i - 1), dx(i)
    w1, w2 = g * (1 + b * b), h * (1 + a * a)
    v.ensure('size', r.shape[0] == n)
    v.ensure('steps', land(h > 0, g > 0))
    v.ensure_under('weighted mean of the secants', land(h > 0, g > 0), r.get(i) * (w1 + w2) == a * w1 + b * w2)
    for e, q, f in ((0, 0, 1), (n - 1, n - 2, n - 2)):
        d = s(q) - r.get(f)
        v.ensure_under('end slope', land(h > 0, g > 0), r.get(e) == ite(s(q) * d >= 0, s(q) + d, s(q) + vdiv(vabs(s(q)) * d, vabs(s(q)) + vabs(d))), terms=[r.get(f), s(q)])


@contract('C15', 'stineman_interp: definition', [I + ':stineman_interp'], conc='stineman', budget=200)
def si(v):
    n, x, y, dx, s = data(v, 2)
    yp = v.array('yp', n)
    m = v.int('m', 1)
    xi = v.array('xi', m)
    r = v.call(I, 'stineman_interp', xi, x, y, yp)
    i, k = v.index(m), v.index(n - 1)
    t = xi.get(i)
    v.located(t)
    v.p.idx += [z3.simplify(q.e) for q in (k + 1, lift(n) - 1, lift(n) - 2)]
    x0, x1, y0, y1, sl = x.get(k), x.get(k + 1), y.get(k), y.get(k + 1), s(k)
    out = r.get(i)
    yo = y0 + sl * (t - x0)
    d1, d2 = (yp.get(k) - sl) * (t - x0), (yp.get(k + 1) - sl) * (t - x1)
    inside = land(x0 < t, t < x1)
    v.ensure_under('both sides bend the same way', land(inside, d1 * d2 > 0), out == yo + vdiv(d1 * d2, d1 + d2), t, [k], inside)
    v.ensure_under('inflection', land(inside, d1 * d2 < 0), out == yo + vdiv(d1 * d2 * (2 * t - x0 - x1), (d1 - d2) * (x1 - x0)), t, [k], inside)
    v.ensure_under('straight', land(inside, d1 * d2 == 0), out == yo, t, [k], inside)
    v.ensure_under('passes through the data, left end', t == x0, out == y0, t, [k - 1, 0])
    v.ensure_under('passes through the data, right end', t == x1, out == y1, t, [k, n - 2])
    j = v.index(n)
    v.ensure('data unchanged', land(x.get(j) == x.f0((j,)), y.get(j) == y.f0((j,)), yp.get(j) == yp.f0((j,)), xi.get(i) == xi.f0((i,))))


@contract('C15', 'stineman_interp stays between monotone data', [I + ':stineman_interp'], conc='stineman')
def sb(v):
    """lemma over the definition: slopes of the sign of the secant keep the value between the ends of the interval"""
    h, sl, p0, p1, u = v.real('h', gt=0), v.real('s'), v.real('p0'), v.real('p1'), v.real('u')
    v.assume(land(u > 0, u < h, sl > 0, p0 >= 0, p1 >= 0))
    d1, d2 = (p0 - sl) * u, (p1 - sl) * (u - h)
    yo = sl * u
    top = sl * h
    if v.case(d1 * d2 > 0):
        q = v.real('q')
        v.assume(q * (d1 + d2) == d1 * d2)
        if v.case(d1 > 0):
            v.ensure('bend upwards (harmonic mean of positive bends)', land(q > 0, q < d2))
            v.ensure('at most the top', yo + q <= top)
        else:
            v.ensure('bend downwards', land(q < 0, q > d1))
            v.ensure('at least the bottom', yo + q >= 0)
    elif v.case(land(d1 < 0, d2 > 0)):
        q = v.real('q')
        v.assume(q * (d1 - d2) * h == d1 * d2 * (2 * u - h))
        w = v.real('w')
        v.assume(w * (d1 - d2) == d1 * d2)          # w: harmonic mean of the two bends
        v.ensure('harmonic mean', land(w > 0, w < d2, w < -d1))
        v.ensure('bend', q * h == w * (2 * u - h))
        v.ensure('between', land(yo + q >= 0, yo + q <= top))
