import numpy as np
import lib
import wafo.polynomial as wp
LITERALS = ['src/wafo/polynomial.py']
BUDGET = 12
TOL = 1e-7


def val(c, x):
    r = 0 * x
    for q in c:
        r = r * x + q
    return r


def tn(n, y, kind=1):
    t = [1 + 0 * y, kind * y]
    while len(t) <= n:
        t.append(2 * y * t[-1] - t[-2])
    return t[n]


def cheb(c, y, kind=1):
    n = len(c)
    return sum(q * tn(n - 1 - i, y, kind) for i, q in enumerate(c))


def close(a, b, scale=1.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= TOL * (1 + np.abs(scale) + np.abs(b))))


def coefs(rng, lits, hi=7):
    n = int(rng.integers(1, hi))
    p = rng.integers(-4, 5, n).astype(float)
    if rng.random() < .5:
        p = p + rng.normal(size=n).round(2)
    if rng.random() < .3:
        p[:int(rng.integers(0, n + 1))] = 0
    if lits and rng.random() < .1:
        p[int(rng.integers(0, n))] = float(np.clip(rng.choice(lits), -100, 100))
    return p.tolist()


def g(rng, i, lits):
    a = float(rng.choice([-1, 0, 1, -3, .5]))
    b = a + float(rng.choice([2, 1, .5, 4]))
    if rng.random() < .2:
        a, b = -1., 1.
    return dict(p=coefs(rng, lits), q=coefs(rng, lits), a=a, b=b, x=float(rng.choice([0, 1, -2, .5, 3])), y=float(rng.choice([0, 1, -2, .5])),
                m=int(rng.integers(0, 5)), k=rng.integers(-3, 4, 4).astype(float).tolist(), cols=int(rng.integers(1, 4)), ints=bool(rng.random() < .3))


def get(d, nm='p'):
    p = d.get(nm)
    if p is None:
        p = [d['%s%d' % (nm, i)] for i in range(9) if '%s%d' % (nm, i) in d]
    p = [float(q) for q in np.atleast_1d(p)]
    if not p or max(map(abs, p)) > 1e3:
        raise lib.Skip
    return p


T = np.array([-1.5, -1., -.4, 0., .3, 1., 2.])


def der(c, m):
    c = list(c)
    for _ in range(m):
        n = len(c)
        c = [q * (n - 1 - i) for i, q in enumerate(c[:-1])]
    return c


def power(d):
    p0 = get(d)
    p = np.array(p0)
    if d.get('ints'):
        p = p.astype(int)
        p0 = p.tolist()
    keep = p.copy()
    x, y = float(d.get('x') or 0), float(d.get('y') or 0)
    a, b = d.get('a'), d.get('b')
    if a is None or b is None or not (-50 < a < b < 50) or b - a < .1:
        a, b = -1., 3.
    if max(abs(x), abs(y)) > 50:
        raise lib.Skip
    m = int(d.get('m') or 0) % 5
    M = 10 * sum(abs(q) for q in p0) * 4 ** len(p0)
    for nm, arg in (('array', p), ('list', p0), ('poly1d', np.poly1d(p0))):
        if nm == 'poly1d' and p0[0] == 0:
            continue
        r = wp.polyder(arg, m)
        if len(p0) > m and not close(val(np.atleast_1d(r), T), val(der(p0, m), T), M):
            return 'polyder(%r as %s, %d) = %r' % (p0, nm, m, r)
        if nm == 'poly1d' and not isinstance(r, np.poly1d):
            return 'polyder of a poly1d is a %s' % type(r)
        k = (d.get('k') or [1., 2., 3., 4.])[:m]
        r = np.atleast_1d(wp.polyint(arg, m, k if m else None))
        if len(r) != len(p0) + m or not close(der(r.tolist(), m), p0, M) or not close([der(r.tolist(), m - 1 - i)[-1] for i in range(m)], k, M):
            return 'polyint(%r as %s, %d, %r) = %r' % (p0, nm, m, k, r)
        r = np.atleast_1d(wp.polyint(arg))
        if len(r) != len(p0) + 1 or not close(der(r.tolist(), 1), p0, M) or r[-1] != 0:
            return 'polyint(%r as %s) = %r' % (p0, nm, r)
        r = wp.polyreloc(arg, x, y)
        if not close(val(np.atleast_1d(r), T), val(p0, T - x) + y, M * (1 + abs(x)) ** len(p0)):
            return 'polyreloc(%r as %s, %r, %r) = %r' % (p0, nm, x, y, r)
        r = wp.polyreloc(arg, x)
        if not close(val(np.atleast_1d(r), T), val(p0, T - x), M * (1 + abs(x)) ** len(p0)):
            return 'polyreloc(%r as %s, %r) = %r' % (p0, nm, x, r)
        if abs(x) > .2:
            r = wp.polyrescl(arg, x, y)
            if not close(val(np.atleast_1d(r), T), y * val(p0, T / x), M * (1 + 1 / abs(x)) ** len(p0)):
                return 'polyrescl(%r as %s, %r, %r) = %r' % (p0, nm, x, y, r)
            r = wp.polyrescl(arg, x)
            if not close(val(np.atleast_1d(r), T), val(p0, T / x), M * (1 + 1 / abs(x)) ** len(p0)):
                return 'polyrescl(%r as %s, %r) = %r' % (p0, nm, x, r)
        Y = (2 * T - a - b) / (b - a)
        Ms = M * (1 + np.abs(Y).max()) ** len(p0) * (1 + abs(a) + abs(b) + 2 / (b - a)) ** len(p0)
        r = wp.polyishift(arg, a, b)
        if not close(val(np.atleast_1d(r), Y), val(p0, T), Ms):
            return 'polyishift(%r as %s, %r, %r) = %r' % (p0, nm, a, b, r)
        r = wp.polyshift(arg, a, b)
        if not close(val(np.atleast_1d(r), T), val(p0, Y), Ms):
            return 'polyshift(%r as %s, %r, %r) = %r' % (p0, nm, a, b, r)
        r = np.atleast_1d(wp.polytrim(arg))
        lead = next((i for i, q in enumerate(p0) if q != 0), len(p0))
        if nm != 'poly1d' and r.tolist() != p0[lead:]:
            return 'polytrim(%r) = %r' % (p0, r)
    for f in (wp.polyder, wp.polyint):
        try:
            f(p, -1)
            return '%s accepts a negative order' % f.__name__
        except ValueError:
            pass
    # columns
    nc = int(d.get('cols') or 1)
    c = np.array([np.roll(p, j) * (j + 1) for j in range(nc)]).T
    for nm, r, ref in (('polyder', wp.polyder(c, m) if len(p0) > m else None, [der(q.tolist(), m) for q in c.T]),
                       ('polyreloc', wp.polyreloc(c, x, y), [np.atleast_1d(wp.polyreloc(q, x, y)) for q in c.T]),
                       ('polyrescl', wp.polyrescl(c, x or 1., y), [np.atleast_1d(wp.polyrescl(q, x or 1., y)) for q in c.T]),
                       ('polyint', wp.polyint(c, m), [np.atleast_1d(wp.polyint(q, m)) for q in c.T])):
        if r is not None and nc > 1 and not close(r, np.array(ref).T, M * (1 + abs(x) + 1 / max(.1, abs(x))) ** len(p0)):
            return '%s of the columns %r = %r, expected %r' % (nm, c.tolist(), r.tolist(), np.array(ref).T.tolist())
    if nc > 1 and len(p0) > 1:
        z = c.copy()
        lead = m % len(p0)
        z[:lead] = 0
        z[lead, -1] = 3
        z[lead, 0] = 0
        r = wp.polytrim(z)
        if not np.array_equal(r, z[lead:]):
            return 'polytrim(%r) = %r' % (z.tolist(), r.tolist())
    if not np.array_equal(p, keep) or p.dtype != keep.dtype:
        return 'the coefficients were changed'


def kcheb(d):
    c = get(d, 'p' if d.get('p') is not None else 'c')
    a, b = d.get('a'), d.get('b')
    if a is None or b is None or not (-50 < a < b < 50) or b - a < .1:
        a, b = -1., 3.
    n = len(c)
    arr = np.array(c)
    keep = arr.copy()
    x = np.linspace(a - .3 * (b - a), b + .3 * (b - a), 9)
    y = (2 * x - a - b) / (b - a)
    M = 10 * sum(map(abs, c)) * 6 ** n * (1 + abs(a) + abs(b) + 2 / (b - a)) ** n
    for kind in (1, 2):
        if not close(wp.chebval(x, arr, a, b, kind), cheb(c, y, kind), M):
            return 'chebval(%r, %r, %r, %r, %d)' % (x.tolist(), c, a, b, kind)
        for fill in (0, -1., np.nan):
            r = wp.chebval(x, arr, a, b, kind, fill)
            ref = np.where(np.abs(y) <= 1, cheb(c, y, kind), fill)
            edge = np.abs(np.abs(y) - 1) < 1e-9
            if not close(np.nan_to_num(r[~edge], nan=77.), np.nan_to_num(ref[~edge], nan=77.), M):
                return 'chebval(%r, %r, %r, %r, %d, fill=%r) = %r, expected %r' % (x.tolist(), c, a, b, kind, fill, r.tolist(), ref.tolist())
        for m in range(n + 2):
            r = np.ravel(wp.chebpoly(m, T, kind))
            if not close(r, tn(m, T, kind), 4. ** m):
                return 'chebpoly(%d, x, %d) = %r, expected %r' % (m, kind, r.tolist(), tn(m, T, kind).tolist())
            r = wp.chebpoly(m, kind=kind)
            if len(r) != m + 1 or not close(val(r, T), tn(m, T, kind), 4. ** m):
                return 'chebpoly(%d, kind=%d) = %r' % (m, kind, r.tolist())
            if m:
                r = wp.chebroot(m, kind)
                if len(r) != m or np.any(np.diff(r) <= 0) or not close(tn(m, r, kind), 0 * r):
                    return 'chebroot(%d, %d) = %r' % (m, kind, r.tolist())
                r = wp.chebextr(m)
                if len(r) != m + 1 or np.any(np.diff(r) <= 0) or not close(np.abs(tn(m, r)), 1 + 0 * r):
                    return 'chebextr(%d) = %r' % (m, r.tolist())
    r = np.atleast_1d(wp.cheb2poly(arr.copy(), a, b))
    if not close(val(r, x), cheb(c, y), M):
        return 'cheb2poly(%r, %r, %r) = %r' % (c, a, b, r.tolist())
    r = wp.poly2cheb(arr, a, b)
    if not close(cheb(r, y), val(c, x), M):
        return 'poly2cheb(%r, %r, %r) = %r' % (c, a, b, r.tolist())
    p = np.polynomial.chebyshev.Chebyshev(c[::-1], domain=[a, b])
    r = wp.chebder(arr, a, b)
    if not close(cheb(r, y), p.deriv()(x), M):
        return 'chebder(%r, %r, %r) = %r' % (c, a, b, r.tolist())
    r = wp.chebint(arr, a, b)
    if not close(cheb(r, y), p.integ(lbnd=a)(x), M):
        return 'chebint(%r, %r, %r) = %r' % (c, a, b, r.tolist())
    for mm in (n, n + 2):
        r = wp.chebfit(lambda t: cheb(c, (2 * t - a - b) / (b - a)), mm, a, b)
        if len(r) != mm or not close(cheb(r, y), cheb(c, y), M):
            return 'chebfit of the series %r on [%r, %r] with %d points = %r' % (c, a, b, mm, r.tolist())
        r = wp.chebfit(cheb(c, wp.chebroot(mm)), n=mm + 1)
        if len(r) != mm or not close(cheb(r, y), cheb(c, y), M):
            return 'chebfit of the values of %r in %d points = %r' % (c, mm, r.tolist())
        r = wp.chebfit_dct(lambda t: cheb(c, (2 * t - a - b) / (b - a)), mm, (a, b))
        if r.shape != (mm,) or not close(cheb(r[::-1], y), cheb(c, y), M):
            return 'chebfit_dct of the series %r on [%r, %r] with %d points = %r' % (c, a, b, mm, r.tolist())
    v = np.array(c)
    if not close(wp.idct(wp.dct(v)), v, M) or not close(wp.dct(wp.idct(v)), v, M):
        return 'idct is not the inverse of dct for %r' % c
    if not close(wp.map_to_interval(wp.map_from_interval(x, a, b), a, b), x) or not close(wp.map_from_interval(x, a, b), y):
        return 'map_from_interval(%r, %r, %r)' % (x.tolist(), a, b)
    if not np.array_equal(arr, keep):
        return 'the coefficients were changed'


def gnd(rng, i, lits):
    nd = int(rng.integers(1, 4))
    return dict(shape=[int(q) for q in rng.integers(1, 4, nd)], seed=int(rng.integers(0, 1 << 30)), extra=[int(q) for q in rng.integers(0, 3, nd)])


def knd(d):
    sh = d.get('shape')
    if not sh:
        raise lib.Skip
    rng = np.random.default_rng(int(d.get('seed') or 0))
    c = rng.integers(-3, 4, sh).astype(float)
    nd = len(sh)
    pts = [rng.uniform(-1, 1, 5) for _ in sh]

    def f(*x):
        r = 0.
        for ix in np.ndindex(*sh):
            t = c[ix]
            for k, q in zip(ix, x):
                t = t * tn(k, q)
            r = r + t
        return r + 0 * x[0]
    if not close(wp.chebvalnd(c, *pts), f(*pts), 100):
        return 'chebvalnd(%r, %r)' % (c.tolist(), [q.tolist() for q in pts])
    g = np.meshgrid(*pts, indexing='ij')
    if not close(wp.chebgridnd(c, *pts), f(*g), 100):
        return 'chebgridnd(%r, %r)' % (c.tolist(), [q.tolist() for q in pts])
    deg = [s - 1 for s in sh]
    v = wp.chebvandernd(deg, *pts)
    if v.shape != (5, c.size) or not close(v @ c.ravel(), f(*pts), 100):
        return 'chebvandernd(%r, %r)' % (deg, [q.tolist() for q in pts])
    n = [s + e for s, e in zip(sh, d.get('extra') or [0] * nd)]
    r = wp.chebfit_dct(f, n=tuple(n))
    ref = np.zeros(n)
    ref[tuple(slice(0, s) for s in sh)] = c
    if not close(r, ref, 10):
        return 'chebfit_dct of the series %r with %r points = %r' % (c.tolist(), n, r.round(6).tolist())
    dom = [(-1., 3.), (0., 1.), (2., 5.)][:nd]
    r = wp.chebfit_dct(lambda *x: f(*[(2 * q - s[0] - s[1]) / (s[1] - s[0]) for q, s in zip(x, dom)]), n=tuple(n), domain=np.ravel(dom))
    if not close(r, ref, 10):
        return 'chebfit_dct of the series %r with %r points on %r = %r' % (c.tolist(), n, dom, r.round(6).tolist())
    gx = np.meshgrid(*[wp.chebroot(s + 3) for s in sh], indexing='ij')
    w = rng.uniform(.5, 2, gx[0].shape)
    for kw in ({}, dict(w=w)):
        r = wp.chebfitnd(gx, f(*gx), deg, **kw)
        if not close(r, c, 10):
            return 'chebfitnd of the series %r%s = %r' % (c.tolist(), ' with weights' if kw else '', r.round(6).tolist())
    r = wp.chebfitnd(gx, f(*gx), deg, full=True)[0]
    if not close(r, c, 10):
        return 'chebfitnd (full) of the series %r = %r' % (c.tolist(), r.round(6).tolist())
    r, s = wp.chebfitnd(gx, w, deg), wp.chebfitnd(gx, w, deg, w=1 / w)
    for z, wt in ((r, 1.), (s, 1 / w)):          # normal equations of the (weighted) fit
        g2 = wp.chebvandernd(deg, *[q.ravel() for q in gx])
        e = ((w - f_of(z, gx)) * np.square(wt)).ravel()
        if not close(g2.T @ e, np.zeros(c.size), 10):
            return 'chebfitnd is not the least squares fit of %r (degrees %r)' % (w.tolist(), deg)


def f_of(c, x):
    r = 0.
    for ix in np.ndindex(*c.shape):
        t = c[ix]
        for k, q in zip(ix, x):
            t = t * tn(k, q)
        r = r + t
    return r


def ortho(d):
    c = get(d, 'p' if d.get('p') is not None else 'c')
    n = len(c)
    rng = np.random.default_rng(n + int(100 * abs(c[0])))
    p = np.array([c, rng.integers(-2, 3, n), rng.integers(-2, 3, n)], float)
    if n == 1:
        x = T
        if not close(wp.orthoval(p, x), c[0] + 0 * x):
            return 'orthoval(%r)' % p.tolist()
    f = [1 + 0 * T]
    for k in range(1, n):
        f.append((T - p[1, k]) * f[-1] - (p[2, k] * f[-2] if k > 1 else 0))
    ref = sum(q * h for q, h in zip(c, f))
    M = 10 * sum(map(abs, c)) * 6 ** n
    keep = p.copy()
    if not close(wp.orthoval(p, T), ref, M):
        return 'orthoval(%r, %r)' % (p.tolist(), T.tolist())
    r = wp.ortho2poly(p)
    if not close(val(np.atleast_1d(r), T), ref, M):
        return 'ortho2poly(%r) = %r' % (p.tolist(), r)
    if not np.array_equal(p, keep):
        return 'the coefficients were changed'
    x = np.linspace(-1, 2, n + 4)
    if n > 1:
        q = wp.orthofit(x, val(c, x), n - 1)
        if not close(wp.orthoval(q, T), val(c, T), M):
            return 'orthofit(x, values of %r, %d) = %r' % (c, n - 1, q.tolist())
        yy = rng.normal(size=len(x))
        q = wp.orthoval(wp.orthofit(x, yy, n - 1), x)
        if not close(np.vander(x, n).T @ (yy - q), np.zeros(n), 100):
            return 'orthofit(%r, %r, %d) is not the least squares fit' % (x.tolist(), yy.tolist(), n - 1)
    m = len(c) // 2
    if n > 2 and m and all(abs(q) > .3 for q in c):
        try:
            num, den = wp.padefit(c, m)
        except np.linalg.LinAlgError:
            return None
        s = np.polymul(den.coeffs, np.array(c))[::-1][:n]
        t = np.zeros(n)
        h = np.atleast_1d(num)[::-1]
        t[:len(h)] = h[:n]
        if np.abs(den.coeffs).max() < 1e3 and not close(s, t, 1e3):
            return 'padefit(%r, %d) = %r / %r' % (c, m, num, den)


def cheb1d(d):
    c, e = get(d, 'p' if d.get('p') is not None else 'c'), get(d, 'q' if d.get('q') is not None else 'd')
    a, b = d.get('a'), d.get('b')
    if a is None or b is None or not (-50 < a < b < 50) or b - a < .1:
        a, b = -1., 3.
    x = np.linspace(a, b, 5)
    y = (2 * x - a - b) / (b - a)
    M = 10 * (sum(map(abs, c)) + sum(map(abs, e))) * 6 ** (len(c) + len(e)) * (1 + 2 / (b - a))
    f, h = wp.Cheb1d(c, a, b), wp.Cheb1d(e, a, b)
    rf, rh = cheb(c, y), cheb(e, y)
    for nm, r, ref in (('value', f, rf), ('sum', f + h, rf + rh), ('difference', f - h, rf - rh), ('negative', -f, -rf),
                       ('derivative', f.deriv(), cheb(wp.chebder(np.array(c), a, b), y)), ('integral', f.integ(), cheb(wp.chebint(np.array(c), a, b), y)),
                       ('second derivative', f.deriv(2), np.polynomial.chebyshev.Chebyshev(c[::-1], domain=[a, b]).deriv(2)(x)),
                       ('number added', 2 + f, rf + 2), ('number subtracted from', 2 - f, 2 - rf)):
        if r.a != a or r.b != b or not close(r(x), ref, M):
            return 'Cheb1d(%r, %r, %r), %r: %s is wrong' % (c, a, b, e, nm)
    same = np.trim_zeros(c, 'f') == np.trim_zeros(e, 'f')
    if bool(f == h) != same or bool(f != h) == same:
        return 'Cheb1d(%r) == Cheb1d(%r) is %s' % (c, e, f == h)


CHECKS = {'power': (g, power, 600), 'cheb': (g, kcheb, 150), 'ortho': (g, ortho, 300), 'cheb1d': (g, cheb1d, 250), 'nd': (gnd, knd, 150)}
