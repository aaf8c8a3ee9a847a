import warnings
import numpy as np
import lib
from wafo import misc
from wafo.transform.core import TrData
LITERALS = ['src/wafo/misc.py']
BUDGET = 12


def close(a, b, tol=1e-7, scale=1.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + abs(scale) + np.abs(b))))


def gproc(rng, i, lits):
    k = int(rng.integers(0, 5))
    n = k + int(rng.integers(2, 9))
    m = int(rng.integers(1, 6))
    u = rng.random(m) * (n - 1 - k) + k / 2.
    if rng.random() < .4:
        u[0] = k / 2.
    if rng.random() < .4:
        u[-1] = n - 1 - k / 2.
    if rng.random() < .3:
        u = np.clip(np.round(u), k / 2., n - 1 - k / 2.)
    f = np.cumsum(rng.integers(1, 4, n)) if rng.random() < .3 else rng.integers(-5, 6, n)
    return dict(k=k, a=float(rng.integers(-3, 3)), h=float(rng.choice([.5, 1., 2., .25])), f=f.astype(float).tolist(), u=u.tolist(),
                xi=rng.integers(-3, 4, (k, m)).astype(float).tolist(), shuffle=False)


def kproc(d):
    if 'h' not in d or not d.get('f') or not d.get('u'):
        raise lib.Skip
    k = int(d['k']) if 'k' in d else sum(1 for q in range(1, 5) if 'x%d' % q in d)
    xi = d.get('xi') if 'xi' in d else [d['x%d' % (q + 1)] for q in range(k)]
    a, h, f, u = float(d.get('a', 0)), float(d['h']), np.array(d['f'], float), np.array(d['u'], float)
    n, m = len(f), len(u)
    xi = [np.array(z, float) for z in xi]
    if h * {0: 1e7, 1: 1e7, 2: 3162, 3: 215, 4: 56}[k] < n or h > 1e4 or abs(a) > 1e4 or n < k + 2 or np.any(u < k / 2.) or np.any(u > n - 1 - k / 2.) or any(len(z) != m for z in xi) \
            or h < 1e-2:
        raise lib.Skip
    # the end points of the tables of the derivatives are computed with rounding: stay strictly inside
    u = np.clip(u, k / 2. + 1e-9, n - 1 - k / 2. - 1e-9) if k else u
    x = a + h * np.arange(n)
    t = np.clip(a + h * u, x[0], x[-1])
    keep = x.copy(), f.copy(), t.copy(), [z.copy() for z in xi]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = misc.tranproc(x, f, t, *xi)
    ys = [r] if k == 0 else list(r)
    if len(ys) != k + 1:
        return 'tranproc with %d derivatives returned %d values' % (k, len(ys))
    tabs, ders = (x, f), []
    for q in range(k + 1):
        ders.append(np.interp(t, *tabs))
        tabs = (tabs[0][1:] + tabs[0][:-1]) / 2, np.diff(tabs[1]) / h
    D = ders
    ref = [D[0]]
    if k > 0:
        ref.append(D[1] * xi[0])
    if k > 1:
        ref.append(D[2] * xi[0] ** 2 + D[1] * xi[1])
    if k > 2:
        ref.append(D[3] * xi[0] ** 3 + 3 * D[2] * xi[0] * xi[1] + D[1] * xi[2])
    if k > 3:
        ref.append(D[4] * xi[0] ** 4 + 6 * D[3] * xi[0] ** 2 * xi[1] + D[2] * (3 * xi[1] ** 2 + 4 * xi[0] * xi[2]) + D[1] * xi[3])
    for q, (y, z) in enumerate(zip(ys, ref)):
        if not close(y, z, 1e-6, 100 / h ** q):
            return 'tranproc(%r, %r, %r, %r): result %d is %r, the chain rule gives %r' % (x.tolist(), f.tolist(), t.tolist(), [z_.tolist() for z_ in xi], q, np.asarray(y).tolist(), z.tolist())
    if not (np.array_equal(x, keep[0]) and np.array_equal(f, keep[1]) and np.array_equal(t, keep[2]) and all(np.array_equal(p, q) for p, q in zip(xi, keep[3]))):
        return 'tranproc changes its arguments'
    if k < 2 and n > 2 and np.all(np.diff(f) > 0):
        tr = TrData(f, x)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            y = tr.dat2gauss(t, *xi)
        if not all(close(p, q) for p, q in zip([y] if k == 0 else y, ys)):
            return 'TrData.dat2gauss differs from tranproc'


def ggood(rng, i, lits):
    n = int(rng.integers(2, 7))
    eq = rng.random() < .5
    x = float(rng.integers(-3, 3)) + (np.arange(n) * float(rng.choice([.5, 1., 2.])) if eq else np.cumsum(rng.choice([.5, 1., 2., .3], n)))
    r = rng.random
    return dict(x=x.tolist(), f=rng.integers(-5, 6, n).astype(float).tolist(), min_n=int(rng.integers(2, 9)) if r() < .4 else None, max_n=int(rng.integers(2, 6)) if r() < .2 else None,
                lo=float(rng.choice([.1, 1., 2.5, 3., 7.])) if r() < .4 else None, hi=float(rng.choice([.1, .5, 1., 2.5, 3., 7.])) if r() < .5 else None,
                perm=rng.permutation(n).tolist(), dup=bool(r() < .15))


def kgood(d):
    x, f = np.array(d.get('x') or [], float), np.array(d.get('f') or [], float)
    n = len(x)
    if n < 2 or len(f) != n or np.any(np.diff(x) < 1e-3) or np.abs(x).max() > 1e4 or np.abs(f).max() > 1e6 or (d.get('perm') and len(d['perm']) != n):
        raise lib.Skip
    p = np.array(d.get('perm') or range(n), int)
    if d.get('dup'):
        y = x.copy()
        y[-1] = y[0]
        try:
            misc.trangood(y[p], f)
        except ValueError:
            pass
        else:
            return 'trangood accepted duplicate abscissae %r' % y[p].tolist()
    kw = {}
    if d.get('min_n'):
        kw['min_n'] = int(d['min_n'])
    if d.get('max_n'):
        kw['max_n'] = int(d['max_n'])
    if d.get('lo') and 'perm' in d:
        kw['min_x'] = x[0] - d['lo']
    if d.get('hi') and 'perm' in d:
        kw['max_x'] = x[-1] + d['hi']
    a, b = x[p], f[p]
    keep = a.copy(), b.copy()
    xo, fo = misc.trangood(a, b, **kw)
    what = 'trangood(%r, %r, %r) = %r, %r: ' % (x[p].tolist(), f[p].tolist(), kw, np.asarray(xo).tolist(), np.asarray(fo).tolist())
    if not (np.array_equal(a, keep[0]) and np.array_equal(b, keep[1])):
        return what + 'arguments changed'
    if len(xo) != len(fo) or np.any(np.diff(xo) <= 0):
        return what + 'abscissae not increasing'
    lo_n, hi_n = max(kw.get('min_n', n), 2), max(kw.get('max_n', 10 ** 9), 2)
    eq = np.all(np.abs(np.diff(x, 2)) <= 1e-12 * (x[-1] - x[0]))
    if lo_n <= n <= hi_n and eq:
        tx, tf = x, f
    else:
        tx = np.linspace(x[0], x[-1], min(lo_n, hi_n))
        tf = np.interp(tx, x, f)
    m, s = len(tx), len(xo)
    h = tx[1] - tx[0]
    left = int(np.sum(xo < tx[0] - h / 2))
    right = s - left - m
    if right < 0 or not close(xo[left:left + m], tx) or not close(fo[left:left + m], tf):
        return what + 'the table is not among the points'
    if not close(fo[:left], tf[0] + (xo[:left] - tx[0]) * (tf[1] - tf[0]) / h, 1e-7, 100) or not close(fo[left + m:], tf[-1] + (xo[left + m:] - tx[-1]) * (tf[-1] - tf[-2]) / h, 1e-7, 100):
        return what + 'extension not on the straight line'
    if not close(xo[left:], tx[0] + h * np.arange(s - left)):
        return what + 'not equally spaced to the right'
    if ('max_x' in kw and (right < 1 or xo[-1] < kw['max_x'] - 1e-9 or right > d['hi'] / h + 2)) or ('max_x' not in kw and right > (0 if tx is x else 1)):   # rounding may leave the last resampled point short of the end
        return what + 'wrong range to the right'
    if 'min_x' not in kw and left > (0 if tx is x else 1):
        return what + 'extended to the left'


CHECKS = {'proc': (gproc, kproc), 'good': (ggood, kgood)}
