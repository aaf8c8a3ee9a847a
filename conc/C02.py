import os
os.environ['NUMBA_BOUNDSCHECK'] = '1'
import numpy as np
import lib
import asan
import clibc
import wafo.misc as wm
import wafo._misc_numba as nb
wm.clib = clibc
LITERALS = ['source/c_library/c_functions.c', 'src/wafo/_misc_numba.py']
BUDGET = 20


def series(rng, n, kind):
    if kind == 0:
        return rng.integers(-2, 3, n).astype(float)
    if kind == 1:
        return rng.normal(size=n)
    if kind == 2:          # alternating and growing / decaying: everything stays on the stack
        a = np.linspace(1, 5, n) if rng.random() < .5 else np.linspace(5, 1, n)
        return a * (-1.)**np.arange(n)
    if kind == 3:
        return np.zeros(n)
    return np.sign(rng.normal(size=n)) * rng.integers(0, 3, n)


def turning(rng, n, kind):
    """alternating sequence"""
    u = np.abs(series(rng, n, kind)) + .5
    return u * (-1.)**(np.arange(n) + int(rng.integers(2)))


def rep(*a):
    out = []
    for x in a:
        if isinstance(x, (list, np.ndarray)):
            out += ['%.17g' % q for q in x]
        else:
            out.append(str(x))
    return ' '.join(out)


def g_cross(rng, i, lits):
    n = i if i < 4 else int(rng.integers(0, 30))
    return dict(y=series(rng, n, int(rng.integers(5))).tolist(), v=float(rng.integers(-1, 2)))


def k_cross(d):
    y = np.array(d['y'], float)
    n = len(y)
    w, err = asan.run(rep('findcross', n, d.get('v', 0.), y))
    if err:
        return 'findcross n=%d: %s' % (n, err)
    if int(w[0]) < 0 or int(w[0]) > n:
        return 'findcross reports %s crossings of %d samples' % (w[0], n)
    r = nb.findcross(np.sign(y - d.get('v', 0.)).astype(np.int8))
    if len(r) > n:
        return 'numba findcross'


def g_rfc(rng, i, lits):
    n = 2 + i if i < 6 else int(rng.integers(2, 40))
    y = turning(rng, n, int(rng.integers(5))) if rng.random() < .8 else series(rng, n, int(rng.integers(5)))
    return dict(y=y.tolist(), h=float(rng.choice([0., .1, 1., 2., -1.])))


def k_rfc(d):
    y = np.array(d['y'], float)
    n = len(y)
    if n < 2:
        raise lib.Skip
    w, err = asan.run(rep('findrfc', n, d['h'], y))
    if err:
        return 'findrfc n=%d: %s' % (n, err)
    if 'too-many' in w or any(not 0 <= int(q) < n for q in w[1:]):
        return 'findrfc returns %s for %d turning points' % (w, n)
    y1 = y[int(y[0] > y[1]):]
    if len(y1) >= 2:
        for m in (2, 0, 1):
            h = abs(d['h'])
            r = nb.findrfc(y1, h, m)
            if len(r) > len(y1) or np.any(r < 0) or np.any(r >= len(y1)):
                return 'numba findrfc method %d returns %r' % (m, r)
    for m in ('clib', 2, 0):
        r = wm.findrfc(y, abs(d['h']), m)
        if np.any(r < 0) or np.any(r >= n):
            return 'findrfc method %r returns %r' % (m, r)


def g_astm(rng, i, lits):
    n = i if i < 6 else int(rng.integers(0, 40))
    k = int(rng.integers(5))
    if i == 7:
        n, k = 17000, 2
    if i > 8 and i % 5 == 0 and lits:
        q = abs(int(lits[rng.integers(len(lits))]))
        n = min(q + 1, 40000)
    x = series(rng, n, k) if rng.random() < .5 else turning(rng, n, k)
    if i == 7:
        x = np.linspace(5, 1, n) * (-1.)**np.arange(n)
    return dict(x=x.tolist())


def k_astm(d):
    x = np.array(d['x'], float)
    n = len(x)
    t = np.array(d['t'], float) if 't' in d else np.arange(n) * 1.
    if len(t) != n:
        raise lib.Skip
    for c in (3, 5):
        w, err = asan.run(rep('findrfc%d_astm' % c, n, x, t))
        if err:
            return 'findrfc%d_astm n=%d: %s' % (c, n, err)
    if nb.findrfc_astm(x).shape[1:] != (3,) or nb.findrfc_astm(x, t).shape[1:] != (5,):
        return 'shape'


def g_duf(rng, i, lits):
    n = 2 * int(rng.integers(1, 9)) + int(rng.random() < .2)
    m = int(rng.integers(1, 4))
    nmax = int(rng.integers(0, n // 2 + 1)) if i % 3 else n // 2
    return dict(n=n, m=m, nmin=int(rng.integers(1, n // 2 + 2)) if i % 2 else 1, nmax=nmax, h=float(rng.choice([1e4 + 1, 30., 1e5, 9999.])),
                g=9.81, s=int(rng.integers(1000)))


def k_duf(d):
    n, m, nmin, nmax = [int(d[k]) for k in ('n', 'm', 'nmin', 'nmax')]
    if not (1 <= n < 400 and 1 <= m < 10 and nmin >= 1 and 0 <= nmax and 2 * nmax <= n):
        raise lib.Skip
    rng = np.random.default_rng(d.get('s', 0))
    rA, iA = rng.normal(size=n * m), rng.normal(size=n * m)
    w = np.arange(n // 2 + 1) * .3
    kw = w * w / 9.81 + .01 * w
    for f in ('disufq', 'disufq2'):
        _, err = asan.run(rep(f, n, m, nmin, nmax, d['h'], d.get('g', 9.81), rA, iA, w, kw))
        if err:
            return '%s n=%d m=%d nmin=%d nmax=%d: %s' % (f, n, m, nmin, nmax, err)
    if m >= 1:
        try:
            nb.disufq(rA, iA, w, kw, float(d['h']), 9.81, nmin, nmax, m, n)
        except ZeroDivisionError:
            pass


CHECKS = dict(findcross=(g_cross, k_cross, 150), findrfc=(g_rfc, k_rfc, 150), astm=(g_astm, k_astm, 80), disufq=(g_duf, k_duf, 80))
