import numpy as np
import lib
import clibc
import wafo.misc as wm
import wafo._misc_numba as nb

wm.clib = clibc             # the C source of the current tree, not a previously built extension
LITERALS = ['src/wafo/misc.py:findcross,_findcross,ecross', 'src/wafo/_misc_numba.py:findcross,_findcross']
KINDS = [None, 'du', 'all', 'd', 'u', 'dw', 'uw', 'tw', 'cw']


def crossings(x, v):
    """definition: sample i+1 is strictly on another side than the last sample <= i that is off the level"""
    out, side = [], 0
    for i, q in enumerate(x):
        s = int(q > v) - int(q < v)
        if s != 0:
            if i > 0 and s != side:
                out.append((i - 1, s))
            side = s
    return out


def select(c, kind):
    if kind in (None, 'du', 'all'):
        return [i for i, s in c]
    if kind in 'du':
        return [i for i, s in c if s == (-1 if kind == 'd' else 1)]
    first = -1 if kind in ('dw', 'tw') else 1
    c = list(c)
    while c and c[0][1] != first:
        c = c[1:]
    odd = kind in ('dw', 'uw')
    if c and len(c) % 2 != (1 if odd else 0):
        c = c[:-1]
    return [i for i, s in c]


def seq(rng, lits, n=None):
    n = int(rng.integers(1, 14)) if n is None else n
    r = rng.random()
    if r < .6:
        return [float(q) for q in rng.integers(-1, 2, n)]
    if r < .8:
        return [float(q) for q in rng.integers(-2, 3, n)]
    return [float(q) for q in rng.normal(size=n)]


def g_k(rng, i, lits):
    if i < 364:                      # all sequences over {-1,0,1} up to length 5
        k, L, base = i, 1, 3
        while k >= base:
            k -= base
            L += 1
            base *= 3
        if L <= 5:
            return dict(y=[float(k // 3**j % 3 - 1) for j in range(L)], v=0.0)
    n = 300 if rng.random() < .02 else None
    return dict(y=seq(rng, lits, n), v=0.0 if rng.random() < .7 else float(rng.integers(-1, 2)))


def k_k(d):
    y, v = [float(q) for q in d['y']], float(d.get('v', 0))
    if len(y) < 1 or len(y) > 5000:
        raise lib.Skip
    want = [i for i, s in crossings(y, v)]
    ind, m = clibc.findcross(y, v)
    if m != len(want) or ind[:m].tolist() != want:
        return 'C findcross(%r, %r) = %r, expected %r' % (y, v, ind[:m].tolist(), want)
    xn = np.int8(np.sign(np.array(y) - v))
    got = nb.findcross(xn)
    if got.tolist() != want:
        return 'numba findcross(%r) = %r, expected %r' % (xn.tolist(), got.tolist(), want)


def g_f(rng, i, lits):
    d = g_k(rng, i // 3 if i % 2 else 10**6, lits)
    return dict(x=d['y'], v=d['v'], kind=KINDS[int(rng.integers(len(KINDS)))])


def k_f(d):
    x, v = [float(q) for q in d['x']], float(d.get('v', 0))
    if len(x) < 1 or len(x) > 5000:
        raise lib.Skip
    for kind in ([d['kind']] if 'kind' in d else KINDS):
        want = select(crossings(x, v), kind)
        for method in ('clib', 'numba'):
            x0 = np.array(x)
            got = wm.findcross(x0, v, kind, method)
            if not np.array_equal(x0, x):
                return 'findcross changed its input'
            if np.asarray(got).tolist() != want:
                return 'findcross(%r, %r, %r, %r) = %r, expected %r' % (x, v, kind, method, np.asarray(got).tolist(), want)
    if len(x) > 1 and crossings(x, v):
        try:
            wm.findcross(x, v, 'sideways')
            return 'unknown kind accepted'
        except ValueError:
            pass


def g_e(rng, i, lits):
    n = int(rng.integers(2, 10))
    t = np.cumsum(rng.integers(1, 5, n) * .5) + rng.integers(-3, 3)
    return dict(t=t.tolist(), f=seq(rng, lits, n), v=0.0 if rng.random() < .5 else float(rng.normal()))


def k_e(d):
    t, f, v = np.array(d['t'], float), np.array(d['f'], float), float(d['v'])
    n = min(len(t), len(f))
    if n < 2 or n > 5000:
        raise lib.Skip
    t, f = t[:n], f[:n]
    ind = np.array([i for i in range(n - 1) if (f[i] - v) * (f[i + 1] - v) <= 0 and f[i] != f[i + 1]], int)
    got = wm.ecross(t, f, ind, v)
    for k, i in enumerate(ind):
        want = t[i] + (v - f[i]) / (f[i + 1] - f[i]) * (t[i + 1] - t[i])
        if not abs(got[k] - want) <= 1e-9 * (1 + abs(t[i]) + abs(t[i + 1])):
            return 'ecross at %d: %r, expected %r' % (i, got[k], want)
    if np.shape(got) != ind.shape:
        return 'ecross shape'


CHECKS = dict(kernels=(g_k, k_k, 900), findcross=(g_f, k_f, 900), ecross=(g_e, k_e, 300))
BUDGET = 15
