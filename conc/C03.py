import os
os.environ['NUMBA_BOUNDSCHECK'] = '1'
import numpy as np
import lib
import clibc
import wafo.misc as wm
import wafo._misc_numba as nb
wm.clib = clibc
LITERALS = ['source/c_library/c_functions.c', 'src/wafo/_misc_numba.py:_make_findrfc,_findrfc,findrfc', 'src/wafo/misc.py:findrfc']


def rfc_ref(y, h):
    """y starts with a minimum; pairs (position, position) in order of the maxima"""
    n = len(y)
    nc = n // 2
    out = []
    for i in range(nc):
        M = y[2 * i + 1]
        lo, p = y[2 * i], 2 * i
        j = i - 1
        while j >= 0 and y[2 * j + 1] <= M:
            if y[2 * j] < lo:
                lo, p = y[2 * j], 2 * j
            j -= 1
        r = next((j for j in range(i + 1, nc) if y[2 * j + 1] >= M), None)
        pair, low = (p, 2 * i + 1), lo
        if r is not None:
            q = min(range(i + 1, r + 1), key=lambda b: (y[2 * b], -b))
            if y[2 * q] > lo:
                pair, low = (2 * i + 1, 2 * q), y[2 * q]
        if M - low >= h:
            out += list(pair)
    return out


def tps(rng, i, lits):
    n = 2 + i if i < 8 else int(rng.integers(2, 30))
    if rng.random() < .5:
        u = rng.integers(1, 5, n).astype(float)
    elif rng.random() < .3 and lits:
        u = np.abs(np.array([lits[k] for k in rng.integers(len(lits), size=n)])) % 50 + .25
    else:
        u = rng.random(n) * 4 + .01
    # random walk of alternating steps: nested cycles of all sizes
    y = np.cumsum(u * (-1.)**(np.arange(n) + int(rng.integers(2))))
    return y


def thr(rng, y):
    d = np.abs(np.subtract.outer(y, y)).ravel()
    return float(rng.choice([0., .5, 1., 2., float(d[rng.integers(len(d))]), float(np.median(d))]))


def g_k(rng, i, lits):
    y = tps(rng, i, lits)
    return dict(y=y.tolist(), h=thr(rng, y))


def istp(y):
    d = np.diff(y)
    return len(y) >= 2 and np.all(d != 0) and np.all(d[1:] * d[:-1] < 0)


def k_k(d):
    y, h = np.array(d['y'], float), float(d['h'])
    if not istp(y):
        raise lib.Skip
    ts = int(y[0] > y[1])
    z = y[ts:]
    ref = [k + ts for k in rfc_ref(z, h)]
    if len(ref) != len(set(ref)):
        return 'reference: duplicated'
    if len(z) >= 2:
        ind, m = clibc.findrfc(y, h)
        if m != len(ref) or list(ind[:m]) != ref:
            return 'C findrfc(%r, %r) = %r, expected %r' % (y.tolist(), h, ind[:m].tolist(), ref)
        r = nb.findrfc(z, h, 2)
        if list(r + ts) != ref:
            return 'numba findrfc(%r, %r, 2) = %r, expected %r' % (z.tolist(), h, r.tolist(), ref)


def g_p(rng, i, lits):
    y = tps(rng, i, lits)
    return dict(x=y.tolist(), h=thr(rng, y))


def k_p(d):
    y, h = np.array(d['x'], float), float(d['h'])
    if not istp(y):
        raise lib.Skip
    ts = int(y[0] > y[1])
    ref = sorted(k + ts for k in rfc_ref(y[ts:], h)) if len(y) - ts >= 2 else []
    for m in ('clib', 'numba', 2):
        y0 = y.copy()
        r = wm.findrfc(y, h, m)
        if list(r) != ref:
            return 'findrfc(%r, %r, %r) = %r, expected %r' % (y.tolist(), h, m, list(r), ref)
        if np.any(y != y0):
            return 'input changed'
        if len(ref) and np.any(np.diff(r) <= 0):
            return 'not increasing %r' % r


def filt_ref(y, h, m):
    c1 = (lambda a, b: a <= b) if m == 0 else (lambda a, b: a < b)
    """turning points of the hysteresis (play) operator with threshold h, starting from y[0]"""
    t = [0]
    ext, z = 0, 0
    for s in range(1, len(y)):
        if z == 0:
            if c1(y[s], y[0] - h):
                z, ext = -1, s
            elif c1(y[0] + h, y[s]):
                z, ext = 1, s
            continue
        back = c1(y[s], y[ext] - h) if z == 1 else c1(y[ext] + h, y[s])
        if back:
            t.append(ext)
            z, ext = -z, s
        elif (z == 1 and y[s] >= y[ext]) or (z == -1 and y[s] <= y[ext]):
            ext = s
    last = abs(y[ext] - y[t[-1]])
    if (h < last) if m == 0 else (h <= last):
        t.append(ext)
    return t


def k_f(d):
    y, h = np.array(d['y'], float), float(d['h'])
    if not istp(y) or h < 0:
        raise lib.Skip
    for m in (0, 1):
        r = list(nb.findrfc(y, h, m))
        if r[0] != 0 or any(a >= b for a, b in zip(r, r[1:])) or any(not 0 <= a < len(y) for a in r):
            return 'method %d: indices %r' % (m, r)
        v = np.diff(y[r])
        if np.any(np.abs(v) < h - 1e-12) or np.any(v[1:] * v[:-1] > 0):
            return 'method %d: findrfc(%r, %r) keeps %r with ranges %r' % (m, y.tolist(), h, r, v)
        ref = filt_ref(y, h, m)
        if r != ref:
            return 'method %d: findrfc(%r, %r) = %r, expected %r' % (m, y.tolist(), h, r, ref)
        ts = int(y[0] > y[1])
        if len(y) - ts >= 2:
            q = list(wm.findrfc(y, h, m))
            e = [k + ts for k in filt_ref(y[ts:], h, m)]
            if q != e:
                return 'misc.findrfc(%r, %r, method=%d) = %r, expected %r' % (y.tolist(), h, m, q, e)


CHECKS = dict(kernels=(g_k, k_k, 400), findrfc=(g_p, k_p, 300), filter=(g_k, k_f, 300))
