"""C16 linear binning"""
from vf.api import *
G = 'wafo.kdetools.gridding'
META = {'assumptions': ['numpy.bincount adds the weights of the listed positions (its documentation)',
                        'data and grid are real numbers (floating point rounding of the cell index is not modelled)']}


def hat(t):
    return vmax(0, 1 - vabs(t))


def grid1(v, inc, nm=''):
    x0, dx = v.real('x0' + nm), v.real('dx' + nm, gt=0)
    x = SArr.new(lambda ix: x0 + lift(ix[0]).real() * dx, 'r', (snp.sx(inc),))
    return x0, dx, x.copy()


def record(v, n, nc):
    """accumsum replaced by its contract: the sum over the points of the values at the listed positions"""
    calls = []

    def acc(accmap, a, shape=None):
        accmap, a = snp.asarray(accmap).ravel(), snp.asarray(a).ravel()
        if not v.p.provable(land(lift(accmap.shape[0]) == n, lift(a.shape[0]) == n)):
            raise Unsupported('accumulation of something else than one value per point')
        v.ensure('size of the accumulated array', (shape[0] if isinstance(shape, (tuple, list)) else snp.asarray(shape).ravel().get(0)) == nc)
        F = z3.Function(v.p.fresh('acc'), z3.IntSort(), z3.RealSort())
        calls.append((accmap.snap(), a.snap(), lambda j: S(F(lift(j).e))))
        return SArr.new(lambda ix: S(F(lift(ix[0]).e)), 'r', (snp.sx(nc),))
    v.override(G, 'accumsum', acc)
    return calls


@contract('C16', 'gridcount, one dimension, any number of points', [G + ':gridcount', G + ':_gridcount_1d'], conc='count')
def g1(v):
    inc, n = v.int('inc', 2), v.int('n', 1)
    x0, dx, x = grid1(v, inc)
    data, y = v.array('data', n), v.array('y', n)
    v.assume(v.forall(n, lambda i: land(data.get(i) >= x0, data.get(i) <= x0 + (lift(inc).real() - 1) * dx)))
    calls = record(v, n, inc)
    r = v.call(G, 'gridcount', data, x, y)
    i, j = v.index(n), v.index(inc)
    v.ensure('one count per grid point', r.shape[0] == inc)
    v.ensure('sum of the accumulated arrays per volume', r.get(j) * dx == snp._sumlist([A(j) for _, _, A in calls]))
    t = data.get(i)
    pos = [b((i,)) for b, _, _ in calls]
    vals = [a((i,)) for _, a, _ in calls]
    q = v.p.fresh_int('cell')
    v.p.idx.append(q.e)
    for p in pos:
        v.ensure('positions on the grid', land(p >= 0, p < inc))
    v.ensure('weight of a point at a grid point', snp._sumlist([ite(lift(p) == j, a, 0) for p, a in zip(pos, vals)]) == dx * y.get(i) * hat(vdiv(t - x0 - lift(j).real() * dx, dx)))
    v.ensure('total weight of a point', snp._sumlist(vals) == dx * y.get(i))
    v.ensure('first moment of a point', snp._sumlist([a * (x0 + lift(p).real() * dx) for p, a in zip(pos, vals)]) == dx * y.get(i) * t)
    v.ensure('non-negative', implies(y.get(i) >= 0, land(*[a >= 0 for a in vals])))
    v.ensure('data unchanged', data.get(i) == data.f0((i,)))


@contract('C16', 'gridcount, one dimension, default weight', [G + ':gridcount', G + ':_gridcount_1d'], conc='count')
def g1d(v):
    inc, n = v.int('inc', 2), v.int('n', 1)
    x0, dx, x = grid1(v, inc)
    data = v.array('data', n)
    v.assume(v.forall(n, lambda i: land(data.get(i) >= x0, data.get(i) <= x0 + (lift(inc).real() - 1) * dx)))
    calls = record(v, n, inc)
    r = v.call(G, 'gridcount', data, x)
    i, j = v.index(n), v.index(inc)
    v.ensure('sum of the accumulated arrays per volume', r.get(j) * dx == snp._sumlist([A(j) for _, _, A in calls]))
    t = data.get(i)
    pos = [b((i,)) for b, _, _ in calls]
    vals = [a((i,)) for _, a, _ in calls]
    v.ensure('weight of a point at a grid point', snp._sumlist([ite(lift(p) == j, a, 0) for p, a in zip(pos, vals)]) == dx * hat(vdiv(t - x0 - lift(j).real() * dx, dx)))


@contract('C16', 'gridcount: data outside the grid are refused', [G + ':gridcount'], conc='count')
def g1e(v):
    inc, n = v.int('inc', 2), v.int('n', 1)
    x0, dx, x = grid1(v, inc)
    data = v.array('data', n)
    k = v.index(n)
    v.assume(lor(data.get(k) < x0, data.get(k) > x0 + (lift(inc).real() - 1) * dx))
    record(v, n, inc)
    v.ensure('refused', v.raises(ValueError, v.get(G, 'gridcount'), data, x))


@contract('C16', 'gridcount: dimensions must match', [G + ':gridcount'], conc='count')
def g1f(v):
    inc, n = v.int('inc', 2), v.int('n', 1)
    data, x = v.array('data', 2, n), v.array('x', 3, inc)
    record(v, n, inc)
    v.ensure('refused', v.raises(ValueError, v.get(G, 'gridcount'), data, x))


for _d, _inc in ((2, 2), (2, 3), (2, 4), (3, 2), (3, 3)):
    @contract('C16', 'gridcount, %d dimensions, %d grid points each' % (_d, _inc), [G + ':gridcount', G + ':_gridcount_nd', G + ':bitget'], conc='count',
              bound='one data point anywhere on fixed grids of 2 dimensions with 2 to 4 and 3 dimensions with 2 or 3 grid points each', budget=240)
    def gn(v, d=_d, inc=_inc):
        import itertools
        n = 1
        gs = [(Q(a), Q(b)) for a, b in ((0, 1), (-1, 2), (3, Q(1, 2)))[:d]]
        x = snp.array([[g[0] + k * g[1] for k in range(inc)] for g in gs])
        pt, w = [v.real('data%d' % m, lo=gs[m][0], hi=gs[m][0] + (inc - 1) * gs[m][1]) for m in range(d)], v.real('y0')
        # one path per cell (the upper end of the grid apart)
        cell = []
        for m in range(d):
            k = 0
            while k < inc - 1 and not v.case(pt[m] < gs[m][0] + (k + 1) * gs[m][1]):
                k += 1
            cell.append(min(k, inc - 2))
        data, y = snp.array([[q] for q in pt]), snp.array([w])
        calls = record(v, n, inc ** d)
        r = v.call(G, 'gridcount', data, x, y)
        vol = 1
        for g in gs:
            vol = vol * g[1]
        i = 0
        v.ensure('shape', land(*[lift(q) == inc for q in r.shape]))
        pos = [b((i,)) for b, _, _ in calls]
        vals = [a((i,)) for _, a, _ in calls]
        for p in pos:
            v.ensure('positions on the grid', land(p >= 0, p < inc ** d))
        f = [vdiv(data.get(m, i) - gs[m][0], gs[m][1]) - cell[m] for m in range(d)]
        for js in itertools.product(range(inc), repeat=d):
            flat = sum(q * inc ** m for m, q in enumerate(js))
            tr = (js[1], js[0]) + js[2:]
            v.ensure('sum of the accumulated arrays per volume', r.get(*tr) * vol == snp._sumlist([A(flat) for _, _, A in calls]))
            ref = y.get(i) * vol
            for m in range(d):
                ref = ref * (1 - f[m] if js[m] == cell[m] else f[m] if js[m] == cell[m] + 1 else 0)
            v.ensure('weight of a point at a grid point', snp._sumlist([ite(lift(p) == flat, a, 0) for p, a in zip(pos, vals)]) == ref)
        v.ensure('total weight of a point', snp._sumlist(vals) == vol * y.get(i))
        v.ensure('data unchanged', land(*[data.get(m, i) == pt[m] for m in range(d)]))


for _n in (1, 2, 3):
    @contract('C16', 'accumsum of %d values' % _n, [G + ':accumsum'], conc='accum', bound='up to 3 values')
    def as_(v, n=_n):
        m = v.int('m', 1)
        a, b = v.array('a', n), v.array('b', n, k='i')
        v.assume(land(*[land(b.get(i) >= 0, b.get(i) < m) for i in range(n)]))
        j = v.index(m)
        r = v.call(G, 'accumsum', b, a, shape=(m,))
        v.ensure('size', r.shape[0] == m)
        v.ensure('sum of the values sent to a position', r.get(j) == snp._sumlist([ite(b.get(i) == j, a.get(i), 0) for i in range(n)]))
