import numpy as np
import lib
import wafo.misc as wm
LITERALS = ['src/wafo/misc.py:lazywhere,lazyselect,piecewise,argsreduce']
BUDGET = 10


def shp(rng):
    return [int(q) for q in rng.integers(1, 4, int(rng.integers(1, 4)))]


def g_any(rng, i, lits):
    sh = shp(rng)
    p = rng.choice([.5, .5, 0., 1.])
    d = dict(shape=sh, c=(rng.random(sh) < p).tolist(), d=(rng.random(sh) < .5).tolist(), mode=int(rng.integers(0, 4)), ints=bool(rng.random() < .3),
             fill=[0, 3, -1.5, float('nan')][int(rng.integers(0, 4))])
    d['x'] = rng.normal(size=sh).round(2).tolist()
    d['y'] = rng.normal(size=sh[-1:] if rng.random() < .5 else sh).round(2).tolist()
    return d


def unpack(d):
    c = np.array(d.get('c', [True, False]), bool)
    if c.size == 0:
        raise lib.Skip
    e = np.array(d.get('d', np.zeros(c.shape)), bool)
    x = np.array(d.get('x', np.arange(c.size).reshape(c.shape)), float)
    y = np.array(d.get('y', 1.), float)
    try:
        np.broadcast_arrays(c, e, x, y)
    except ValueError:
        raise lib.Skip
    if np.broadcast(x, y).shape != c.shape or e.shape != c.shape:
        raise lib.Skip
    if d.get('ints'):
        x = np.round(10 * x).astype(int)
    fill = d.get('fill', 0)
    return c, e, x, y, 0 if fill is None else fill


def mk(k, log, c, x, y):
    """elementwise function recording the arguments it sees"""
    def f(a, b):
        log.append((k, np.array(a), np.array(b)))
        return a * k + b / 4
    return f


def seen(log, k, c, x, y):
    X, Y = np.broadcast_arrays(x, y)
    for q, a, b in log:
        if q == k and (a.shape != (c.sum(),) or not np.array_equal(a, X[c]) or not np.array_equal(b, Y[c])):
            return 'function %d was evaluated on %r, %r instead of the elements of its condition %r, %r' % (k, a, b, X[c], Y[c])


def same(r, ref):
    return np.shape(r) == np.shape(ref) and np.array_equal(r, ref, equal_nan=True)


def k_where(d):
    c, e, x, y, fill = unpack(d)
    log = []
    f, g = mk(2, log, c, x, y), mk(-3, log, c, x, y)
    x0, y0, c0 = x.copy(), y.copy(), c.copy()
    r = wm.lazywhere(c, (x, y), f, fill)
    X, Y = np.broadcast_arrays(x, y)
    F, G = X * 2 + Y / 4, X * -3 + Y / 4
    if not same(r, np.where(c, F, fill)):
        return 'lazywhere(%r, (%r, %r), f, %r) = %r, expected %r' % (c, x, y, fill, r, np.where(c, F, fill))
    m = seen(log, 2, c, x, y)
    if m:
        return m
    r = wm.lazywhere(c, (x, y), f, f2=g)
    if not same(r, np.where(c, F, G)):
        return 'lazywhere(%r, (%r, %r), f, f2) = %r, expected %r' % (c, x, y, r, np.where(c, F, G))
    if not (same(x, x0) and same(y, y0) and same(c, c0)):
        return 'input changed'
    for a in ((c, (x, y), f), (c, (x, y), f, 1, g)):
        try:
            wm.lazywhere(*a)
            return 'fill value and second function are not checked'
        except ValueError:
            pass
    return seen(log, -3, ~c, x, y)


def k_select(d):
    c, e, x, y, fill = unpack(d)
    log = []
    f, g = mk(2, log, c, x, y), mk(-3, log, c, x, y)
    X, Y = np.broadcast_arrays(x, y)
    F, G = X * 2 + Y / 4, X * -3 + Y / 4
    if isinstance(fill, float):
        fill = 2.5
    r = wm.lazyselect([c, e], [f, g], (x, y), fill)
    ref = np.select([c, e], [F, G], fill)
    if not same(r, ref):
        return 'lazyselect(%r, .., (%r, %r), %r) = %r, expected %r' % ([c, e], x, y, fill, r, ref)
    if not same(wm.lazyselect([False, e], [f, g], (x, y)), np.select([False & c, e], [F, G], 0.)) or \
            not same(wm.lazyselect([True], [f], (x, y)), F):
        return 'constant conditions of lazyselect'
    v = wm.valarray(c.shape, 2.5)
    if not same(v, np.full(c.shape, 2.5)) or not same(wm.valarray((2,)), np.full(2, np.nan)):
        return 'valarray'
    log2 = []
    wm.lazyselect([c, e], [mk(2, log2, c, x, y), mk(-3, log2, c, x, y)], (x, y), fill)
    return seen(log2, 2, c, x, y) or seen(log2, -3, e, x, y)


def k_piece(d):
    c, e, x, y, fill = unpack(d)
    x = x.astype(float)
    e = e & ~c
    log = []
    f, g, h = mk(2, log, c, x, y), mk(-3, log, c, x, y), mk(7, log, c, x, y)
    X, Y = np.broadcast_arrays(x, y)
    F, G, H = (X * k + Y / 4 for k in (2, -3, 7))
    for r, ref, nm in ((wm.piecewise([c, e], [f, g], (x, y)), np.where(c, F, np.where(e, G, 0)), 'two functions'),
                       (wm.piecewise([c, e], [f, g, h], (x, y)), np.where(c, F, np.where(e, G, H)), 'default function'),
                       (wm.piecewise([c, e], [f, 2.5, h], (x, y)), np.where(c, F, np.where(e, 2.5, H)), 'constant'),
                       (wm.piecewise([c, e], [f, g, -1.5], (x, y)), np.where(c, F, np.where(e, G, -1.5)), 'constant default'),
                       (wm.piecewise([c], [f], (x, y), fill), np.where(c, F, fill), 'fill value'),
                       (wm.piecewise([c, e], [1.5, 2.5]), np.where(c, 1.5, np.where(e, 2.5, 0)), 'constants only'),
                       (wm.piecewise([c, e], [1, 2, 3]), np.where(c, 1, np.where(e, 2, 3)), 'integer constants'),
                       (wm.piecewise([c], [lambda a, b, q=0: a * b + q], x if x.shape == c.shape else X, fill, (3.,), q=4), np.where(c, X * 3 + 4, fill), 'extra arguments')):
        if not same(r, ref):
            return 'piecewise (%s) with conditions %r, %r, x=%r, y=%r: %r, expected %r' % (nm, c, e, x, y, r, ref)
    for a in (([c], [f, g, h], (x, y)), ([c, e], [f], (x, y))):
        try:
            wm.piecewise(*a)
            return 'number of functions is not checked'
        except ValueError:
            pass
    return seen(log, 2, c, x, y) or seen(log, -3, e, x, y) or seen(log, 7, ~c & ~e, x, y)


def k_reduce(d):
    c, e, x, y, fill = unpack(d)
    X, Y = np.broadcast_arrays(x, y)
    r = wm.argsreduce(c, x, y, 2.5)
    if len(r) != 3 or not same(r[0], (x + np.zeros(c.shape, int))[c]) or not same(r[1], Y[c]) or not same(r[2], np.full(c.sum(), 2.5)):
        return 'argsreduce(%r, %r, %r, 2.5) = %r' % (c, x, y, r)
    r = wm.argsreduce(c, X)
    if len(r) != 1 or not same(r[0], X[c]):
        return 'argsreduce with one argument'


CHECKS = {'where': (g_any, k_where, 300), 'select': (g_any, k_select, 300), 'piece': (g_any, k_piece, 300), 'reduce': (g_any, k_reduce, 200)}
