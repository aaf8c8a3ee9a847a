import warnings
import numpy as np
import lib
import wafo.transform.models as tm
import wafo.transform.core as tc
LITERALS = ['src/wafo/transform/models.py', 'src/wafo/transform/core.py']
BUDGET = 20
warnings.simplefilter('ignore')
np.seterr(all='ignore')
X0 = [-2., -.3, 0., 1e-3, .7, 2.5]


def par(d):
    m, s, ym, ys = (float(d.get(k, q)) for k, q in (('mean', 0), ('sigma', 1), ('ymean', 0), ('ysigma', 1)))
    if s <= 0 or ys <= 0 or not 1e-4 < s < 1e4 or not 1e-4 < ys < 1e4 or abs(m) > 1e4 or abs(ym) > 1e4:
        raise lib.Skip
    return m, s, ym, ys


def rpar(rng):
    return dict(mean=float(rng.choice([0, 0, 1.5, -7])), sigma=float(rng.choice([1, 1, 2.5, .3])), ymean=float(rng.choice([0, 0, .7])),
                ysigma=float(rng.choice([1, 1, 2])))


def close(a, b, tol=1e-8, ref=1.):
    return np.allclose(a, b, rtol=tol, atol=tol * ref)


def common(g, u, m, s, ym, ys):
    """u: normalised x values with g increasing on them; dist2gauss and trdata agree with the transform"""
    x = s * u + m
    y = g.dat2gauss(x)
    if np.shape(y) != np.shape(x) or not np.array_equal(g(x), y):
        return 'shape or __call__ of the transform'
    u2 = np.sort(u)
    if len(u2) > 1:
        e = u2 - (g.dat2gauss(s * u2 + m) - ym) / ys
        if not close(g.dist2gauss(s * u2 + m), np.sum((e[1:]**2 + e[:-1]**2) / 2 * np.diff(u2)), 1e-7):
            return 'dist2gauss is not the integrated squared departure'
        t = g.trdata(s * u2 + m)
        if not close(t.data, (g.dat2gauss(s * u2 + m) - ym) / ys) or not close(t.args, s * u2 + m) or t.mean != m or t.sigma != s:
            return 'trdata does not tabulate the transform'


def g_linear(rng, i, lits):
    n = int(rng.integers(1, 6))
    return dict(rpar(rng), x=(rng.normal(size=n) * 3).tolist())


def k_linear(d):
    m, s, ym, ys = par(d)
    x = np.array(d.get('x', X0), float)
    if not len(x):
        raise lib.Skip
    g = tm.TrLinear(mean=m, sigma=s, ymean=ym, ysigma=ys)
    h = tm.TrLinear(m, s**2, .2, 3.5)
    if not close((h.mean, h.sigma, h.skew, h.kurt, h.ymean, h.ysigma), (m, s, .2, 3.5, 0, 1)) or g.sigma != s:
        return 'reported parameters'
    x0 = x.copy()
    y = g.dat2gauss(x)
    if not close(y, (x - m) / s * ys + ym):
        return 'dat2gauss(%r) = %r' % (x, y)
    if not close(g.gauss2dat(y), x, ref=abs(m) + s) or not close(g.gauss2dat(x), (x - ym) / ys * s + m, ref=abs(m) + s):
        return 'gauss2dat'
    a = g.dat2gauss(x, x + 1, x * 2)
    b = g.gauss2dat(x, x + 1, x * 2)
    if not (close(a[0], y) and close(a[1], (x + 1) * ys / s) and close(a[2], x * 2 * ys / s) and close(b[1], (x + 1) * s / ys) and close(b[2], 2 * x * s / ys)):
        return 'derivatives'
    if not np.array_equal(x, x0):
        return 'input changed'
    return common(g, (np.unique(x) - m) / s, m, s, ym, ys)


def g_ochi(rng, i, lits):
    sk = float(rng.choice([0, .1, .3, .8, 1.5, 2.5, 2.82, 1e-4])) * (1 if rng.random() < .6 else -1)
    return dict(rpar(rng), skew=sk, x=(rng.normal(size=int(rng.integers(1, 6))) * 2).tolist())


def k_ochi(d):
    m, s, ym, ys = par(d)
    sk = float(d.get('skew', {1: .3, -1: -.3, 0: 0.}[d.get('pos', 1)]))
    if abs(sk) > 2.82842712:
        try:
            if abs(sk) > 2.8285:
                tm.TrOchi(skew=sk)
                return 'skewness %g accepted' % sk
        except ValueError:
            pass
        raise lib.Skip
    g = tm.TrOchi(mean=m, sigma=s, ymean=ym, ysigma=ys, skew=sk)
    ga, gb, s2, m2 = g._get_par()
    a = gb / 3
    if (g.mean, g.sigma, g.skew) != (m, s, sk):
        return 'reported parameters'
    if not close(ga, 1.28 * a) or not close(s2**2 - 2 * a**2 * s2**4, 1) or not close(2 * a * s2**4 * (3 - 8 * a**2 * s2**2), sk, 1e-6):
        return 'parameters %r of TrOchi(skew=%g) do not solve the defining equations' % ((ga, gb, s2, m2), sk)
    u = np.array(d['x'] if 'x' in d and len(d['x']) else X0, float)
    u = u[np.abs(u) < 50]
    if not len(u):
        raise lib.Skip
    x = s * u + m
    x0 = x.copy()
    y = g.dat2gauss(x)
    u = (x - m) / s
    f = lambda c: -np.expm1(-c * u) / c if c else u
    ref = ys * (np.where(u >= 0, f(ga), f(gb)) - m2) / s2 + ym
    if not close(y, ref, 1e-8, np.max(np.abs(ref)) + 1):
        return 'TrOchi(skew=%g).dat2gauss(%r) = %r, expected %r' % (sk, x, y, ref)
    ok = np.abs(-np.where(u >= 0, ga, gb) * u) < 8
    z = g.gauss2dat(y)
    if not close(z[ok], x[ok], 1e-6, abs(m) + s):
        return 'TrOchi(skew=%g).gauss2dat(dat2gauss(%r)) = %r' % (sk, x, z)
    if not np.array_equal(x, x0) or not np.array_equal(y, g.dat2gauss(x)):
        return 'input changed'
    xs = np.unique(x[ok])
    if np.any(np.diff(g.dat2gauss(xs))[np.diff(xs) > 1e-6 * s] <= 0):
        return 'not increasing'
    x2 = np.array([x, x])
    if np.shape(g.dat2gauss(x2)) != x2.shape or not close(g.dat2gauss(x2)[1], y):
        return 'transform of a 2-d array'
    for q in (g.dat2gauss, g.gauss2dat):
        try:
            q(x, x)
            return 'derivatives are not refused'
        except ValueError:
            pass
    return common(g, np.unique(u[ok]), m, s, ym, ys) if ok.any() else None


def coef(sk, e, pardef):
    if e <= 0:
        return sk / 6, e / 24
    if pardef == 2:
        c4 = (np.sqrt(1 + 1.5 * e) - 1) / 18
        return sk / (6 * (1 + 6 * c4)), c4
    c3 = sk / 6 * (1 - .015 * abs(sk) + .3 * sk**2) / (1 + .2 * e)
    return c3, .1 * ((1 + 1.25 * e)**(1. / 3) - 1) * (1 - 1.43 * sk**2 / e)**(1 - .1 * (e + 3)**.8)


def g_hermite(rng, i, lits):
    e = float(rng.choice([0, .04, .5, 2, 8, -.1, -.5, 1e-3, 10.]))
    lim = np.sqrt(max(2 * e / 3, 0)) if e > 0 else .5
    sk = float(rng.choice([0, .16, .5 * lim, -.8 * lim, lim * .99]))
    if e > 0:
        sk = float(np.clip(sk, -.99 * lim, .99 * lim))
    return dict(rpar(rng), skew=sk, kurt=3 + e, pardef=int(rng.choice([1, 1, 2])), x=(rng.normal(size=int(rng.integers(1, 6))) * 1.5).tolist())


def k_hermite(d):
    m, s, ym, ys = par(d)
    e = float(d['kurt']) - 3 if 'kurt' in d else float(d.get('e', .04))
    sk, pd = float(d.get('skew', .16)), int(d.get('pardef', 1)) or 1
    if abs(sk) > 3 or not -2.5 < e < 20 or e > 0 and sk**2 > (2 * e / 3 if pd == 1 else 8 * (e + 3) / 9) or 0 < e < 1e-9:
        raise lib.Skip
    u = np.array(d['x'] if 'x' in d and len(d['x']) else X0, float)
    u = u[np.abs(u) < 5]
    if not len(u):
        raise lib.Skip
    g = tm.TrHermite(mean=m, sigma=s, ymean=ym, ysigma=ys, skew=sk, kurt=3 + e, pardef=pd)
    e = (3 + e) - 3
    if (g.mean, g.sigma, g.skew, g.kurt, g.pardef) != (m, s, sk, 3 + e, pd):
        return 'reported parameters'
    c3, c4 = coef(sk, e, pd)
    if e > 0:
        K = 1 / np.sqrt(1 + 2 * c3**2 + 6 * c4**2)
        P = lambda t: K * (t + c3 * (t**2 - 1) + c4 * (t**3 - 3 * t))
        dP = np.poly1d([3 * c4, 2 * c3, 1 - 3 * c4])
    else:
        P = lambda t: t - c3 * (t**2 - 1) - c4 * (t**3 - 3 * t)
        dP = np.poly1d([-3 * c4, -2 * c3, 1 + 3 * c4])
    r = dP.r
    inc = not np.any(np.abs(np.imag(r)) < 1e-6 * (1 + np.abs(r)))
    poly, other = (g.gauss2dat, g.dat2gauss) if e > 0 else (g.dat2gauss, g.gauss2dat)
    a = (ym, ys, m, s) if e > 0 else (m, s, ym, ys)
    q = a[1] * u + a[0]
    if inc or e > 0:
        z = poly(q)
        if not close(z, a[3] * P(u) + a[2], 1e-6, abs(a[2]) + a[3]):
            return 'TrHermite(skew=%g, kurt=%g, pardef=%d): polynomial at %r is %r, expected %r' % (sk, 3 + e, pd, u, (z - a[2]) / a[3], P(u))
    if inc:
        w = other(z)
        if not close(w, q, 1e-4, abs(a[0]) + a[1]):
            return 'TrHermite(skew=%g, kurt=%g, pardef=%d): round trip of %r gives %r' % (sk, 3 + e, pd, q, w)
        us = np.linspace(-3, 3, 13)
        if np.any(np.diff(g.dat2gauss(s * us + m)) <= 0):
            return 'not increasing'
        if g._x_limit is not None:
            return 'monotone polynomial reported as not monotone'
        return common(g, np.unique(u), m, s, ym, ys)
    elif g._x_limit is None and not np.any(np.abs(np.imag(r)) > 1e-12):
        return 'TrHermite(skew=%g, kurt=%g): polynomial is not increasing but no limit is set' % (sk, 3 + e)
    elif g._x_limit is not None and not np.any(np.abs(np.imag(r)) > 1e-12):
        lim = np.sort(np.ravel(g._x_limit))
        rr = np.real(r) if e <= 0 else P(np.real(r))
        if not close(lim, np.sort(s * rr + m), 1e-6, abs(m) + s):
            return 'limits of the invertible range %r, expected %r' % (lim, s * rr + m)


def g_solve(rng, i, lits):
    k = int(rng.choice([1, 2, 2, 3, 3, 3]))
    c = rng.normal(size=k + 1)
    if k == 2:
        c[1] = abs(c[1])
    if k == 3 and rng.random() < .5:
        c[0], c[2] = abs(c[0]) * .1, abs(c[2])
    return dict(c=c.tolist(), x=(rng.normal(size=int(rng.integers(1, 5))) * 2).tolist())


def k_solve(d):
    c = d.get('c')
    if c is None:
        c = [d[k] for k in ('c0', 'c1', 'c2', 'c3') if k in d]
    c = np.array(c, float)
    x = np.array(d['x'], float)
    if not len(x) or abs(c[0]) < 1e-6 or np.max(np.abs(c)) > 1e4 or np.max(np.abs(x)) > 1e4:
        raise lib.Skip
    p = np.poly1d(c)
    g = tm.TrHermite()
    if p.order == 2:
        ok = (c[1]**2 - 4 * c[0] * (c[2] - x) >= 0)
        if c[1] <= 0 or not ok.any():
            raise lib.Skip
        x = x[ok]
    if p.order == 1:
        if g._poly_inv(np.poly1d([1., 0]), x) is not x and not np.array_equal(g._poly_inv(np.poly1d([1., 0]), x), x):
            return 'linear polynomial'
        return
    r = g._poly_inv(p, x)
    sc = np.abs(c[0]) * np.abs(r)**p.order + np.polyval(np.abs(c), np.abs(r)) + np.abs(x)
    if np.shape(r) != x.shape or not np.all(np.abs(p(r) - x) <= 1e-4 * sc):
        return 'solution %r of %r = %r gives %r' % (r, c, x, p(r))
    if p.order == 2 and np.any(2 * c[0] * r + c[1] < -1e-6 * sc):
        return 'solution on the decreasing branch'


def g_tab(rng, i, lits):
    return dict(a=float(rng.normal() * 3), b=float(10**rng.uniform(-1, 1)), n=int(rng.integers(5, 40)), given=bool(rng.random() < .3),
                ymean=float(rng.choice([0, .3])), ysigma=float(rng.choice([1, 1.5])), c=float(rng.choice([0, .02, .1])))


def k_tab(d):
    n = max(int(d.get('n', 20)), 5)
    a, b, c, ym, ys = (float(d.get(k, q)) for k, q in (('a', 1.), ('b', 2.), ('c', .05), ('ymean', 0.), ('ysigma', 1.)))
    if n > 1000 or abs(a) > 100 or not .01 < b < 100 or abs(ym) > 1 or not .1 < ys < 2:
        raise lib.Skip
    if c and n < 20:
        raise lib.Skip
    y = np.linspace(-5, 5, n)
    x = a + b * (y + c * y**2 * np.sign(y))
    kw = dict(ymean=ym, ysigma=ys)
    if d.get('given'):
        kw.update(mean=a + .1, sigma=b * 1.1)
    g = tc.TrData(y, x, **kw)
    G = lambda q: np.interp(q, y, x)
    tol0 = 1e-6 if c == 0 else 5e-2
    if d.get('given'):
        if (g.mean, g.sigma) != (a + .1, b * 1.1):
            return 'given parameters'
    elif not close(g.mean, G(ym), tol0, abs(a) + b) or not close(g.sigma, (G(ym + ys) - G(ym - ys)) / 2, tol0, abs(a) + b):
        return 'default mean and sigma %r %r' % (g.mean, g.sigma)
    if (g.ymean, g.ysigma) != (ym, ys):
        return 'Gaussian parameters'
    u = np.linspace(-4.5, 4.5, 7)
    if n > 6 and c == 0:
        q = a + b * u
        if not close(g.dat2gauss(q), u, 1e-6) or not close(g.gauss2dat(u), q, 1e-6, abs(a) + b):
            return 'table look-up'
        r = g.dat2gauss(q, u)
        if not close(r[1], u / b, 1e-5, 1 / b):
            return 'derivative'
    tol = 1e-6 if c == 0 else 5e-2
    k = slice(None) if c == 0 else slice(2, -2)
    if not close(g.dat2gauss(x[k]), y[k], tol) or not close(g.gauss2dat(y[k]), x[k], tol, abs(a) + b):
        return 'table nodes'


CHECKS = {k: (globals()['g_' + k], globals()['k_' + k]) for k in ('linear', 'ochi', 'hermite', 'solve', 'tab')}
