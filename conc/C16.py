import itertools
import numpy as np
import lib
from wafo.kdetools import gridding as gr
LITERALS = ['src/wafo/kdetools/gridding.py']
BUDGET = 12


def close(a, b, tol=1e-9, scale=1.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + abs(scale) + np.abs(b))))


def hats(data, x, y):
    """reference: sum over the points of the product of hat functions, per volume (first two axes exchanged)"""
    d, inc = x.shape
    dx = x[:, 1] - x[:, 0]
    h = [np.maximum(0, 1 - np.abs((data[m][None, :] - x[m][:, None]) / dx[m])) for m in range(d)]
    out = np.zeros((inc,) * d)
    for js in itertools.product(range(inc), repeat=d):
        out[js] = np.sum(y * np.prod([h[m][js[m]] for m in range(d)], axis=0))
    if d > 1:
        out = np.swapaxes(out, 0, 1)
    return out


def gcount(rng, i, lits):
    d = int(rng.integers(1, 4))
    n, inc = int(rng.integers(1, 9)), int(rng.integers(2, 6 if d > 1 else 12))
    dx = rng.choice([.25, .5, 1., 2., 4.], d)
    x0 = rng.integers(-4, 4, d).astype(float)
    u = rng.random((d, n)) * (inc - 1)
    at = rng.random((d, n))
    u = np.where(at < .3, np.round(u), u)
    u = np.where(at > .9, inc - 1, u)
    return dict(x0=x0.tolist(), dx=dx.tolist(), inc=inc, u=u.tolist(), w=None if rng.random() < .3 else (rng.integers(0, 5, n).astype(float)).tolist(),
                out=float(rng.choice([0, 0, 0, .2, -.2])), scalar=bool(rng.random() < .2))


def kcount(d):
    if 'u' not in d:
        raise lib.Skip
    x0, dx, u, inc = np.array(d['x0'], float), np.array(d['dx'], float), np.array(d['u'], float), int(d['inc'])
    x = x0[:, None] + dx[:, None] * np.arange(inc)
    data = x0[:, None] + dx[:, None] * u
    k = len(x0)
    w = None if d.get('w') is None else np.array(d['w'], float)
    args = (data, x) if k > 1 else (data[0], x[0])
    if d.get('out'):
        bad = data.copy()
        m = int(abs(u).sum()) % k
        bad[m, -1] = x[m, -1] + d['out'] * dx[m] if d['out'] > 0 else x[m, 0] + d['out'] * dx[m]
        try:
            r = gr.gridcount(bad if k > 1 else bad[0], x if k > 1 else x[0])
        except ValueError:
            pass
        else:
            return 'gridcount accepted data %r outside the grid %r (returned %r)' % (bad.tolist(), x.tolist(), np.asarray(r).tolist())
        try:
            r = gr.gridcount(data, np.vstack([x, x[:1]]))
        except ValueError:
            pass
        else:
            return 'gridcount accepted %d dimensional data on a %d dimensional grid' % (k, k + 1)
    keep = data.copy(), x.copy()
    ww = np.ones(data.shape[1]) if w is None else w
    if d.get('scalar'):
        ww = np.full(data.shape[1], 2.5)
        c = gr.gridcount(args[0].copy(), args[1].copy(), 2.5)
    elif w is None:
        c = gr.gridcount(args[0].copy(), args[1].copy())
    else:
        c = gr.gridcount(args[0].copy(), args[1].copy(), w.copy())
    ref = hats(data, x, ww)
    if not close(c, ref, 1e-9, np.abs(ww).sum()):
        return 'gridcount(%r, %r, %r) = %r, hat functions give %r' % (data.tolist(), x.tolist(), ww.tolist(), np.asarray(c).tolist(), ref.tolist())
    if np.any(np.asarray(c) < -1e-12):
        return 'negative count'
    a = args[0].copy()
    gr.gridcount(a, args[1].copy(), ww)
    if not np.array_equal(a, args[0]):
        return 'gridcount changes the data'


def gaccum(rng, i, lits):
    n, m = int(rng.integers(1, 10)), int(rng.integers(1, 6))
    return dict(pos=rng.integers(0, m, n).tolist(), pos2=rng.integers(0, 4, n).tolist(), a=rng.integers(-4, 5, n).astype(float).tolist(), m=m + int(rng.integers(0, 3)))


def kaccum(d):
    if not d.get('pos') or not d.get('a'):
        raise lib.Skip
    pos, a, m = np.array(d['pos'], int), np.array(d['a'], float), int(d['m'])
    ref = np.zeros(m)
    for p, q in zip(pos, a):
        ref[p] += q
    t = 1 + pos.max()
    for nm, f in (('accumsum', gr.accumsum), ('accum', gr.accum)):
        kw = {} if nm == 'accumsum' else {'func': None}
        r = f(pos.copy(), a.copy(), shape=(m,), **kw)
        if not close(r, ref):
            return '%s(%r, %r, shape=(%d,)) = %r, expected %r' % (nm, pos.tolist(), a.tolist(), m, np.asarray(r).tolist(), ref.tolist())
        r = f(pos.copy(), a.copy(), **kw)
        if not close(r, ref[:t]):
            return '%s(%r, %r) = %r, expected %r' % (nm, pos.tolist(), a.tolist(), np.asarray(r).tolist(), ref[:t].tolist())
    r = gr.accumsum_sparse(pos.copy(), a.copy(), shape=(m,)).toarray().ravel()
    if not close(r, ref):
        return 'accumsum_sparse(%r, %r, (%d,)) = %r, expected %r' % (pos.tolist(), a.tolist(), m, r.tolist(), ref.tolist())
    p2 = np.array(d['pos2'], int)
    ref2, mx = np.zeros((m, 4)), np.full((m, 4), -7.)
    for p, q, z in zip(pos, p2, a):
        ref2[p, q] += z
        mx[p, q] = max(mx[p, q], z)
    key = np.vstack([pos, p2]).T
    r = gr.accum(key, a, shape=(m, 4))
    if not close(r, ref2):
        return 'accum(%r, %r) = %r, expected %r' % (key.tolist(), a.tolist(), r.tolist(), ref2.tolist())
    r = gr.accum(key, a, func=np.max, shape=(m, 4), fill_value=-7)
    if not close(r, mx):
        return 'accum(%r, %r, max) = %r, expected %r' % (key.tolist(), a.tolist(), r.tolist(), mx.tolist())
    r = gr.accumsum_sparse(key, a, shape=(m, 4)).toarray()
    if not close(r, ref2):
        return 'accumsum_sparse(%r, %r) = %r, expected %r' % (key.tolist(), a.tolist(), r.tolist(), ref2.tolist())


CHECKS = {'count': (gcount, kcount), 'accum': (gaccum, kaccum)}
