import numpy as np
import lib
import wafo.interpolate as wi
LITERALS = ['src/wafo/interpolate.py']
BUDGET = 12


def close(a, b, tol=1e-8, scale=1.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + abs(scale) + np.abs(b))))


def grid(rng, n):
    x = np.cumsum(rng.choice([.5, 1., 2., .3], n)) + float(rng.integers(-4, 3))
    return x


def gpp(rng, i, lits):
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    return dict(breaks=grid(rng, n + 1).tolist(), coeffs=rng.integers(-3, 4, (k, n)).astype(float).tolist(), fill=float(rng.choice([0, -1, 9.])),
                ints=bool(rng.random() < .3), cont=bool(rng.random() < .5), lim=bool(rng.random() < .3))


def kpp(d):
    b, c = np.array(d.get('breaks') or [], float), np.array(d.get('coeffs') or [[]], float)
    if b.ndim != 1 or c.ndim != 2 or len(b) != c.shape[1] + 1 or len(b) < 2 or np.any(np.diff(b) < 1e-3) or np.abs(b).max() > 1e3 or np.abs(c).max() > 1e3:
        raise lib.Skip
    n, k = c.shape[1], c.shape[0]
    fill = float(d.get('fill') or 0)
    if d.get('cont'):
        for j in range(1, n):
            c[-1, j] = np.polyval(c[:, j - 1], b[j] - b[j - 1])
    cc, bb = (c.astype(int), b) if d.get('ints') and not d.get('cont') else (c, b)
    c = np.array(cc, float)
    keep = cc.copy(), bb.copy()
    lo, hi = (b[0] - 1, b[-1] + 2) if d.get('lim') else (b[0], b[-1])
    f = wi.PPform(cc, bb, fill=fill, **(dict(a=lo, b=hi) if d.get('lim') else {}))
    x = np.sort(np.concatenate([b, b[:-1] + .3 * np.diff(b), b[:-1] + .9 * np.diff(b), [b[0] - .5, b[0] - 3, b[-1] + .5, b[-1] + 4]]))

    def ref(cf, t, side, lo=lo, hi=hi):
        if t < lo or t > hi:
            return fill
        j = int(np.clip(np.searchsorted(b, t, side) - 1, 0, n - 1))
        return float(np.polyval(cf[:, j], t - b[j]))

    def cmp(g, cf, nm, **kw):
        y = g(x)
        for t, q in zip(x, y):
            if not (close(q, ref(cf, t, 'left', **kw), 1e-7, 10) or close(q, ref(cf, t, 'right', **kw), 1e-7, 10)):
                return '%s of PPform(%r, %r) at %r is %r, expected %r' % (nm, cf.tolist(), b.tolist(), t, q, ref(cf, t, 'right', **kw))
        if not close(g(x.reshape(1, -1)).ravel(), y) or not close(g(float(x[2])), y[2]):
            return '%s: shape of the argument matters' % nm
    r = cmp(f, c, 'value')
    if r:
        return r
    if k > 1:
        dc = np.array([c[q] * (k - 1 - q) for q in range(k - 1)])
        r = cmp(f.derivative(), dc, 'derivative')
        if r:
            return r
    ic = np.array([c[q] / (k - q) for q in range(k)] + [np.zeros(n)])
    for j in range(1, n):
        ic[-1, j] = np.polyval(ic[:, j - 1], b[j] - b[j - 1])
    r = cmp(f.integrate(), ic, 'integral')
    if r:
        return r
    p = np.random.default_rng(n).permutation(n + 1)
    if not close(wi.PPform(cc, b[p], sort=True, fill=fill)(x), wi.PPform(cc, b, fill=fill)(x)):
        return 'sort=True'
    for inplace in (False, True):
        g = wi.PPform(cc, bb, fill=fill)
        if inplace:
            if g.linear_extrapolate(output=False) is not None:
                return 'linear_extrapolate(output=False) returns something'
        else:
            h, g = g, g.linear_extrapolate()
            if not np.array_equal(h.breaks, b) or h.a != b[0] or h.b != b[-1]:
                return 'linear_extrapolate() changed the object'
        for nm, t, q in zip(('left', 'left', 'right', 'right'), (b[0] - .5, b[0] - 3, b[-1] + .5, b[-1] + 4), g(np.array([b[0] - .5, b[0] - 3, b[-1] + .5, b[-1] + 4]))):
            if nm == 'left':
                e = c[-1, 0] + (c[-2, 0] if k > 1 else 0) * (t - b[0])
            else:
                s = b[-1] - b[-2]
                e = np.polyval(c[:, -1], s) + np.polyval(np.polyder(c[:, -1]) if k > 1 else [0.], s) * (t - b[-1])
            if not close(q, e, 1e-7, 1e2):
                return 'linear extrapolation of PPform(%r, %r) at %r is %r, expected %r' % (c.tolist(), b.tolist(), t, q, e)
        m = (b[0] < x) & (x < b[-1])
        if not close(g(x[m]), wi.PPform(cc, bb, fill=fill)(x[m]), 1e-7):
            return 'linear extrapolation changes the values inside'
    if not np.array_equal(keep[0], cc) or not np.array_equal(keep[1], bb):
        return 'the input was changed'


def gs(rng, i, lits):
    n = int(rng.integers(3, 9))
    y = rng.integers(-3, 4, n).astype(float)
    if rng.random() < .5:
        y = np.sort(y)
        if rng.random() < .4:
            y = y[::-1]
    if rng.random() < .3:
        y = y + rng.normal(size=n).round(2)
    if rng.random() < .2:
        y = np.cumsum(rng.choice([0, .01, 1, 10], n))
    return dict(x=grid(rng, n).tolist(), y=y.tolist(), tension=float(rng.choice([0, .3, 1])), scale=bool(rng.random() < .3))


def xy(d):
    x, y = np.array(d.get('x') or [], float), np.array(d.get('y') or [], float)
    if x.ndim != 1 or len(x) < 3 or x.shape != y.shape or np.any(np.diff(x) < 1e-3) or np.abs(x).max() > 1e4 or np.abs(y).max() > 1e4:
        raise lib.Skip
    return x, y


METHODS = ['Catmull-Rom', 'Cardinal', 'parabola', 'secant', 'akima', 'pchip', 'stineman', 'steffen', 'fritsch']


def kslopes(d):
    x, y = xy(d)
    x0, y0 = x.copy(), y.copy()
    h, s = np.diff(x), np.diff(y) / np.diff(x)
    ten = float(d.get('tension') or 0)
    n = len(x)
    sc = np.abs(s).max()
    for m in METHODS:
        r = wi.slopes(x, y, m, tension=ten)
        if r.shape != (n,) or not np.all(np.isfinite(r)):
            return 'slopes(%r, %r, %r) = %r' % (x.tolist(), y.tolist(), m, r.tolist())
        ch = (y[2:] - y[:-2]) / (x[2:] - x[:-2])
        pa = (s[:-1] * h[1:] + s[1:] * h[:-1]) / (h[1:] + h[:-1])
        wa, wb = h[1:] * (1 + s[1:] ** 2), h[:-1] * (1 + s[:-1] ** 2)
        ref = {'Catmull-Rom': ch, 'Cardinal': (1 - ten) * ch, 'parabola': pa, 'secant': (s[1:] + s[:-1]) / 2, 'stineman': (wa * s[:-1] + wb * s[1:]) / (wa + wb),
               'steffen': (np.sign(s[:-1]) + np.sign(s[1:])) * np.minimum(np.minimum(abs(s[:-1]), abs(s[1:])), .5 * abs(pa))}.get(m)
        if m in ('pchip', 'fritsch'):
            with np.errstate(all='ignore'):
                w1, w2 = 2 * h[1:] + h[:-1], h[1:] + 2 * h[:-1]
                ref = np.where(s[1:] * s[:-1] > 0, (w1 + w2) / (w1 / s[:-1] + w2 / s[1:]), 0)
        if ref is not None and not close(r[1:-1], ref, 1e-7, sc):
            return 'slopes(%r, %r, %r, tension=%r) = %r, expected inside %r' % (x.tolist(), y.tolist(), m, ten, r.tolist(), ref.tolist())
        if m == 'akima' and np.abs(np.diff(s)).max() < 1e-9 and not close(r, s[0] + 0 * r, 1e-6):
            return 'akima slopes of a line: %r' % r.tolist()
        if m in ('pchip', 'steffen'):
            e = np.concatenate([s[:1], s]), np.concatenate([s, s[-1:]])
            for q in e:
                if np.any(r * q < -1e-9) or np.any(np.abs(r) > (3 + 1e-9) * np.abs(q) + 1e-12):
                    return 'slopes(%r, %r, %r) = %r leave the monotonicity region' % (x.tolist(), y.tolist(), m, r.tolist())
        if m == 'stineman' and (r[0] * s[0] < -1e-12 or r[-1] * s[-1] < -1e-12):
            return 'slopes(%r, %r, %r) = %r' % (x.tolist(), y.tolist(), m, r.tolist())
        r1 = wi.slopes(x, y, m, tension=ten, monotone=True)
        for k in range(n - 1):
            if s[k] == 0:
                ok = r1[k] == 0 and r1[k + 1] == 0
            else:
                a, b = r1[k] / s[k], r1[k + 1] / s[k]
                ok = a >= -1e-12 and b >= -1e-12 and a * a + b * b <= 9 + 1e-6
            if not ok:
                return 'slopes(%r, %r, %r, monotone=True) = %r leave the monotonicity region in interval %d' % (x.tolist(), y.tolist(), m, r1.tolist(), k)
        if m in ('Catmull-Rom', 'Cardinal', 'parabola', 'secant') and not close(wi.slopes(x, y, m, tension=ten, scale=True), r, 1e-7, sc):
            return 'slopes(%r, %r, %r, scale=True)' % (x.tolist(), y.tolist(), m)
        r2 = wi.slopes(x, -y, m, tension=ten)
        if not close(r2, -r, 1e-7, sc):
            return 'slopes(%r, %r, %r) is not odd in y: %r and %r' % (x.tolist(), y.tolist(), m, r.tolist(), r2.tolist())
        r2 = wi.slopes(-x[::-1], y[::-1], m, tension=ten)
        if not close(-r2[::-1], r, 1e-7, sc):
            return 'slopes(%r, %r, %r) depends on the direction: %r and %r' % (x.tolist(), y.tolist(), m, r.tolist(), (-r2[::-1]).tolist())
    bad = x.copy()
    bad[1] = bad[0]
    try:
        wi.slopes(bad, y, 'secant')
        return 'repeated x accepted'
    except ValueError:
        pass
    if not np.array_equal(x, x0) or not np.array_equal(y, y0):
        return 'the data were changed'


def kst(d):
    x, y = xy(d)
    x0, y0 = x.copy(), y.copy()
    h = np.diff(x)
    s = np.diff(y) / h
    t = np.sort(np.concatenate([x] + [x[:-1] + f * h for f in (.1, .5, .8)]))
    rng = np.random.default_rng(len(x))
    for yp in (None, rng.normal(size=len(x)), s[np.r_[0, np.arange(len(s))]], np.zeros(len(x))):
        r = wi.stineman_interp(t, x, y, yp)
        q = wi.slopes(x, y) if yp is None else yp
        obj = wi.StinemanInterp(x, y, yp)
        if not close(obj(t), r):
            return 'StinemanInterp differs from stineman_interp'
        for u, v in zip(t, r):
            j = int(np.clip(np.searchsorted(x, u, 'right') - 1, 0, len(x) - 2))
            yo = y[j] + s[j] * (u - x[j])
            a, b = (q[j] - s[j]) * (u - x[j]), (q[j + 1] - s[j]) * (u - x[j + 1])
            if u == x[j] or u == x[j + 1]:
                e = y[j] if u == x[j] else y[j + 1]
            elif a * b > 0:
                e = yo + a * b / (a + b)
            elif a * b < 0:
                e = yo + a * b * (2 * u - x[j] - x[j + 1]) / ((a - b) * h[j])
            else:
                e = yo
            if not close(v, e, 1e-6, np.abs(y).max()):
                return 'stineman_interp(%r, %r, %r, %r) = %r, expected %r' % (u, x.tolist(), y.tolist(), None if yp is None else yp.tolist(), v, e)
    up = np.all(np.diff(y) >= 0)
    for m in ('stineman', 'pchip', 'steffen'):
        r = wi.StinemanInterp(x, y, method=m)(t)
        if up and m != 'stineman' and np.any(np.diff(r) < -1e-9 * (1 + np.abs(y).max())):
            return 'StinemanInterp(%r, %r, method=%r) is not monotone' % (x.tolist(), y.tolist(), m)
    from scipy.interpolate import CubicHermiteSpline as CH, PchipInterpolator as PI
    for m in ('pchip', 'steffen', 'secant'):
        yp = wi.slopes(x, y, m)
        for cls in (wi.Pchip, wi.CubicHermiteSpline):
            for o in (cls(x, y, method=m), cls(x, y, yp)):
                if not close(o(t), CH(x, y, yp)(t), 1e-7, np.abs(y).max()) or not close(o(x), y, 1e-9):
                    return '%s(%r, %r, method=%r)' % (cls.__name__, x.tolist(), y.tolist(), m)
                if up and m != 'secant' and np.any(np.diff(o(t)) < -1e-9 * (1 + np.abs(y).max())):
                    return '%s(%r, %r, method=%r) is not monotone' % (cls.__name__, x.tolist(), y.tolist(), m)
    if not close(wi.Pchip(x, y)(t), PI(x, y)(t), 1e-7, np.abs(y).max()):
        return 'Pchip(%r, %r) differs from the pchip of scipy' % (x.tolist(), y.tolist())
    if not close(wi.CubicHermiteSpline(x, y)(x), y, 1e-9):
        return 'CubicHermiteSpline does not pass through the data'
    if not np.array_equal(x, x0) or not np.array_equal(y, y0):
        return 'the data were changed'


def ksp(d):
    x, y = xy(d)
    x0, y0 = x.copy(), y.copy()
    n = len(x)
    h = np.diff(x)
    t = np.concatenate([x, x[:-1] + .4 * h])
    from scipy.interpolate import CubicSpline
    ref = CubicSpline(x, y, bc_type='natural')
    f = wi.SmoothSpline(x, y, p=1)
    if not close(f(t), ref(t), 1e-6, np.abs(y).max()) or not close(f.derivative()(t), ref(t, 1), 1e-5, np.abs(y).max()):
        return 'SmoothSpline(%r, %r, p=1) is not the natural cubic spline' % (x.tolist(), y.tolist())
    for u, e in ((x[0], -1.), (x[-1], 1.)):
        if not close(f(u + 2 * e), ref(u) + 2 * e * ref(u, 1), 1e-6, np.abs(y).max()):
            return 'SmoothSpline(%r, %r, p=1) is not extrapolated linearly' % (x.tolist(), y.tolist())
    f = wi.SmoothSpline(x, y, p=0)
    if not close(f(t), np.polyval(np.polyfit(x, y, 1), t), 1e-5, np.abs(y).max()):
        return 'SmoothSpline(%r, %r, p=0) is not the regression line' % (x.tolist(), y.tolist())
    # minimiser of p sum(y - f)^2 / v + (1 - p) int f''^2
    Q, R = np.zeros((n, n - 2)), np.zeros((n - 2, n - 2))
    for j in range(n - 2):
        Q[j, j], Q[j + 1, j], Q[j + 2, j] = 1 / h[j], -1 / h[j] - 1 / h[j + 1], 1 / h[j + 1]
        R[j, j] = (h[j] + h[j + 1]) / 3
        if j + 1 < n - 2:
            R[j, j + 1] = R[j + 1, j] = h[j + 1] / 6
    for p in (.3, .9):
        for var in (1, np.linspace(1, 2, n)):
            D = np.diag(var * np.ones(n))
            c = np.linalg.solve(R * p + (1 - p) * Q.T @ D @ Q, Q.T @ y)
            e = y - (1 - p) * D @ Q @ c
            r = wi.SmoothSpline(x, y, p=p, var=var, lin_extrap=False)(x)
            if not close(r, e, 1e-6, np.abs(y).max()):
                return 'SmoothSpline(%r, %r, p=%r, var=%r)(x) = %r, expected %r' % (x.tolist(), y.tolist(), p, np.ravel(var).tolist(), r.tolist(), e.tolist())
    q = np.random.default_rng(n).permutation(n)
    if not close(wi.SmoothSpline(x[q], y[q], p=.5)(t), wi.SmoothSpline(x, y, p=.5)(t), 1e-7, np.abs(y).max()):
        return 'SmoothSpline depends on the order of the points'
    f = wi.SmoothSpline(x[:2], y[:2])
    if not close(f(t), y[0] + (t - x[0]) * (y[1] - y[0]) / (x[1] - x[0]), 1e-7, np.abs(y).max()):
        return 'SmoothSpline of two points is not their line'
    for a, b in ((x[[0, 0, 1]], y[:3]), (x[:1], y[:1]), (x, y[:-1])):
        try:
            wi.SmoothSpline(a, b)
            return 'SmoothSpline(%r, %r) accepted' % (a.tolist(), b.tolist())
        except ValueError:
            pass
    z = np.polyval(y[:3], np.arange(20.) / 5)
    for dv in (0, 1, 2):
        r = wi.savitzky_golay(z, 7, 3, deriv=dv)
        # the window is fitted in its own coordinate running from right to left
        e = np.polyval(np.polyder(y[:3], dv) if dv else y[:3], np.arange(20.) / 5) / 5 ** dv / (1, 1, 2)[dv] * (-1) ** dv
        if r.shape != z.shape or not (close(r[3:-3], e[3:-3], 1e-6, np.abs(z).max()) or close(r[3:-3], e[3:-3] * (-1) ** dv, 1e-6, np.abs(z).max())):
            return 'savitzky_golay of the polynomial %r, derivative %d: %r, expected %r' % (y[:3].tolist(), dv, r.tolist(), e.tolist())
    if not np.array_equal(x, x0) or not np.array_equal(y, y0):
        return 'the data were changed'


CHECKS = {'ppform': (gpp, kpp, 300), 'slopes': (gs, kslopes, 300), 'stineman': (gs, kst, 150), 'spline': (gs, ksp, 120)}
