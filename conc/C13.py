import numpy as np
import lib
import wafo.misc as wm
LITERALS = ['src/wafo/misc.py:findoutliers']
BUDGET = 10


def g(rng, i, lits):
    n = int(rng.integers(3, 12))
    x = rng.integers(-2, 3, n).astype(float)
    if rng.random() < .3:
        x[:int(rng.integers(1, n + 1))] = x[0]
    if rng.random() < .3:
        x[-int(rng.integers(1, n + 1)):] = x[-1]
    if rng.random() < .4:
        x[int(rng.integers(0, n))] = np.nan
    if rng.random() < .3:
        x = x + rng.normal(size=n).round(2) * .1
    if rng.random() < .1:
        x = np.round(10 * np.cos(np.arange(n) / 9.), 3)
    d = dict(x=x.tolist(), zcrit=[0, .15, 1.][int(rng.integers(0, 3))], n=n)
    if rng.random() < .7:
        d['dcrit'], d['ddcrit'] = float(rng.choice([.5, 1, 2, 3, 50])), float(rng.choice([.5, 1, 2, 4, 50]))
    return d


def k(d):
    x = np.array(d.get('x') or [], float)
    if x.ndim != 1 or x.size < 3:
        raise lib.Skip
    zc, dc, dd = d.get('zcrit') or 0, d.get('dcrit'), d.get('ddcrit')
    if zc < 0:
        raise lib.Skip
    if d.get('ints'):
        x = x.astype(int)
    x0 = x.copy()
    kw = {} if dc is None else dict(dcrit=dc)
    if dd is not None:
        kw['ddcrit'] = dd
    ind, indg = wm.findoutliers(x, zc, **kw)
    z = np.where(np.isnan(x0), 0, x0)
    s = 1.5 * z.std()
    dc = s if dc is None else dc
    dd = s if dd is None else dd
    dx = [z[j + 1] - z[j] for j in range(len(z) - 1)]
    ddx = [dx[j + 1] - dx[j] for j in range(len(dx) - 1)]
    if min([abs(abs(q) - t) for q, t in [(q, dc) for q in dx] + [(q, zc) for q in dx] + [(q, dd) for q in ddx]]) < 1e-12 and \
            ('dcrit' not in kw or np.any(z != np.round(z))):
        raise lib.Skip
    out = set()
    for j, q in enumerate(dx):
        if q > dc:
            out.add(j + 1)
        if q < -dc:
            out.add(j)
        if abs(q) <= zc:
            out |= {p for p in range(j - 1, j + 3) if 0 <= p < len(z)}
    for j, q in enumerate(ddx):
        if q > dd:
            out.add(j + 1)
        if q < -dd:
            out.add(j)
    if sorted(out) != list(ind):
        return 'findoutliers(%r, %r, %r): outliers %r, expected %r' % (x0.tolist(), zc, kw, list(ind), sorted(out))
    rest = [j for j in range(len(z)) if j not in out]
    if rest != list(indg):
        return 'findoutliers(%r, %r, %r): good points %r, expected %r' % (x0.tolist(), zc, kw, list(indg), rest)
    if not np.array_equal(x, x0, equal_nan=True):
        return 'the input was changed'
    for m in range(3):
        try:
            wm.findoutliers(x[:m])
            return 'a vector of %d elements was accepted' % m
        except ValueError:
            pass


CHECKS = {'outliers': (g, k, 800)}
