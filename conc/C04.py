import os
os.environ['NUMBA_BOUNDSCHECK'] = '1'
import numpy as np
import lib
import clibc
import wafo.misc as wm
import wafo._misc_numba as nb
import wafo.objects as wo
wm.clib = clibc
LITERALS = ['source/c_library/c_functions.c', 'src/wafo/_misc_numba.py:_findrfc3_astm,_findrfc5_astm,findrfc_astm', 'src/wafo/misc.py:findrfc_astm']


def ref(x, t):
    """ASTM E1049 rules with half cycles at the start, as documented"""
    rows, st = [], []
    row = lambda p, q, c: rows.append((abs(x[p] - x[q]) / 2, (x[p] + x[q]) / 2, c, t[p], (t[q] - t[p]) * 2))
    for i in range(len(x)):
        st.append(i)
        while len(st) >= 3 and abs(x[st[-2]] - x[st[-3]]) <= abs(x[st[-1]] - x[st[-2]]):
            if len(st) == 3:
                row(st[0], st[1], .5)
                st.pop(0)
            else:
                row(st[-3], st[-2], 1.)
                del st[-3:-1]
    for p, q in zip(st, st[1:]):
        row(p, q, .5)
    return np.array(rows).reshape(-1, 5)


def gen(rng, i, lits):
    n = i if i < 8 else int(rng.integers(1, 40))
    r = rng.random()
    if r < .5:
        u = rng.integers(1, 6, n).astype(float)
    elif r < .6 and lits:
        u = np.abs(np.array([lits[k] for k in rng.integers(len(lits), size=n)])) % 50 + .25
    else:
        u = rng.random(n) * 4 + .01
    if rng.random() < .3:
        u = np.sort(u)[::int(rng.choice([-1, 1]))].copy()
    if n > 4 and rng.random() < .3:
        k = int(rng.integers(2, n - 1))
        u[:k] = np.sort(u[:k])
        u[k:] = -np.sort(-u[k:])
    x = np.cumsum(u * (-1.)**(np.arange(n) + int(rng.integers(2))))
    if n and rng.random() < .3:
        x += -x[-1] if rng.random() < .5 else -x[0]
    return dict(x=x.tolist(), t=np.cumsum(rng.random(n)).tolist())


def chk(d):
    x, t = np.array(d['x'], float), np.array(d['t'], float)
    dx = np.diff(x)
    if len(t) != len(x) or np.any(dx == 0) or np.any(dx[1:] * dx[:-1] > 0):
        raise lib.Skip
    n = len(x)
    e = ref(x, t)
    x0, t0 = x.copy(), t.copy()
    got = {'numba 3': nb.findrfc_astm(x), 'numba 5': nb.findrfc_astm(x, t), 'misc': wm.findrfc_astm(x)}
    if n:
        o, c = clibc.findrfc3_astm(x)
        got['C 3'] = o[:n - c[0]]
        o, c = clibc.findrfc5_astm(x, t)
        got['C 5'] = o[:n - c[0]]
        got['TurningPoints'] = wo.TurningPoints(x, args=t).cycle_astm()
    if np.any(x != x0) or np.any(t != t0):
        return 'input changed'
    for k, o in got.items():
        o = np.asarray(o)
        if o.shape[0] != len(e):
            return '%s: %d rows, expected %d for %r' % (k, o.shape[0], len(e), x.tolist())
        if o.size and np.max(np.abs(o - e[:, :o.shape[1]])) > 1e-9 * (1 + np.max(np.abs(x)) + np.max(np.abs(t))):
            return '%s: %r -> %r, expected %r' % (k, x.tolist(), o.tolist(), e[:, :o.shape[1]].tolist())
        if n > 1 and abs(o[:, 2].sum() - (n - 1) / 2) > 1e-9:
            return '%s: counts add up to %r for %d ranges' % (k, o[:, 2].sum(), n - 1)
        if n > 1 and abs(o[:, 0].max() - (x.max() - x.min()) / 2) > 1e-9 * (1 + np.max(np.abs(x))):
            return '%s: largest amplitude %r' % (k, o[:, 0].max())


CHECKS = dict(astm=(gen, chk, 600))
