"""C03 rainflow filter"""
from vf.api import *
from vf import cfront
from contracts.rainflow import Rfc, loops

META = {}
P = cfront.Ptr
G = {}
cur = lambda: G


def seq(f, ts):
    return lambda k: f((snp.sx(lift(k) + ts),))


for _ts in (0, 1):
    @contract('C03', 'C kernel, first is a %s' % ('min', 'max')[_ts], ['c_functions.c:findrfc'], conc='kernels', native=True,
              loops=loops(cur, 'findrfc', True), budget=200)
    def c_c(v, _ts=_ts):
        n = v.int('n', 2 + _ts)
        y, h = v.array('y', n), v.real('h')
        v.assume(y.get(0) > y.get(1) if _ts else y.get(0) <= y.get(1))
        ind, info = v.array('ind0', n, k='i'), v.array('info0', 1, k='i')
        G.clear()
        G['ts'], G['g'] = _ts, Rfc(v, seq(y.f0, _ts), n - _ts, h)
        g = G['g']
        cfront.cfile().get('findrfc')(P(y), h, P(ind), n, P(info))
        m = info.get(0)
        bad = land(n - _ts > 2, lor(land(g.y(0) > g.y(1), g.y(1) > g.y(2)), land(g.y(0) < g.y(1), g.y(1) < g.y(2))))
        if bool(bad):
            v.ensure('refused', m == -1)
        else:
            for nm, f in g.facts(lambda k: ind.get(k), m, g.NC, _ts):
                v.ensure(nm, f)
        i = v.index(n)
        v.ensure('input unchanged', y.get(i) == y.f0((i,)))


@contract('C03', 'numba kernel', ['wafo._misc_numba:_findrfc', 'wafo._misc_numba:findrfc'], conc='kernels', native=True,
          loops=loops(cur, '_findrfc', False), budget=200)
def c_nb(v):
    n = v.int('n', 2)
    y, h = v.array('y', n), v.real('h')
    G.clear()
    G['ts'], G['g'] = 0, Rfc(v, seq(y.f0, 0), n, h)
    g = G['g']
    r = v.call('wafo._misc_numba', 'findrfc', y, h, 2)
    for nm, f in g.facts(lambda k: r.get(k), r.shape[0], g.NC):
        v.ensure(nm, f)
    i = v.index(n)
    v.ensure('input unchanged', y.get(i) == y.f0((i,)))


# ---- the filter of rfcfilter.m (methods 0 and 1)
def dr(z, x):
    return ite(z == 1, x, -x)


def filter_loops(m):
    def inv(L):
        y, h, k = lambda q: G['y'](lift(q)), G['h'], L._k
        j, z, t0 = L.j, L.z0, L.t0
        t = lambda a: at(L.t, a)
        cmp1 = (lambda a, b: a <= b) if m == 0 else (lambda a, b: a < b)
        cmp2 = (lambda a, b: a < b) if m == 0 else (lambda a, b: a <= b)
        tj = t(j)
        ok = lambda a: ite((j - a) % 2 == 1, -z, z)
        return [
            ('state', land(lor(z == 0, z == 1, z == -1), lift(j) >= 0, L.t0 >= 0, lift(L.t0) <= k, L.y0 == y(t0), t(0) == 0, tj >= 0, lift(tj) <= k,
                           ite(z == 0, land(j == 0, t0 == 0), lift(t0) > tj), implies(lift(k) > 0, land(lift(j) <= k - 1, lor(z != 0, h > 0))),
                           implies(lift(k) == 0, land(j == 0, z == 0)))),
            ('the current excursion exceeds the threshold', implies(z != 0, cmp1(h, dr(z, L.y0 - y(tj))))),
            ('entries increase', Forall(1, lambda a: implies(land(lift(a) >= 0, lift(a) < j), land(t(a) >= 0, t(a) < t(a + 1), t(a + 1) <= tj)))),
            ('kept ranges exceed the threshold and alternate', Forall(1, lambda a: implies(
                land(lift(a) >= 0, lift(a) < j), cmp1(h, dr(ok(a), y(t(a + 1)) - y(t(a))))))),
            ('no reversal since the extreme', Forall(1, lambda s: implies(
                land(lift(s) > t0, lift(s) <= k, z != 0), land(dr(z, L.y0 - y(s)) >= 0, cmp2(dr(z, L.y0 - y(s)), h))))),
            ('open segment between its ends', Forall(1, lambda s: implies(
                land(lift(s) >= tj, lift(s) <= k, lift(j) >= 1), land(dr(z, y(s) - y(tj)) >= 0, dr(z, L.y0 - y(s)) >= 0)))),
            ('no missed reversal in the open segment', Forall(2, lambda p, q: implies(
                land(lift(p) >= tj, lift(p) < q, lift(q) <= k, lift(j) >= 1), dr(z, y(p) - y(q)) <= h))),
            ('closed segments between their ends', Forall(2, lambda a, s: implies(
                land(lift(a) >= 1, lift(a) < j, lift(s) >= t(a), lift(s) <= t(a + 1)),
                land(dr(ok(a), y(s) - y(t(a))) >= 0, dr(ok(a), y(t(a + 1)) - y(s)) >= 0)))),
            ('no missed reversal in the closed segments', Forall(3, lambda a, p, q: implies(
                land(lift(a) >= 1, lift(a) < j, lift(p) >= t(a), lift(p) < q, lift(q) <= t(a + 1)), dr(ok(a), y(p) - y(q)) <= h))),
        ]
    return {('local_findrfc', 0): LoopSpec(inv, names=('j', 'z0', 't0', 'y0', 't'), kinds={'z1': 'i', 't1': 'i', 'y1': 'r'})}


for _m in (0, 1):
    @contract('C03', 'numba filter method %d' % _m, ['wafo._misc_numba:_make_findrfc', 'wafo._misc_numba:findrfc'], conc='filter', native=True,
              loops=filter_loops(_m), budget=200)
    def c_filt(v, _m=_m):
        n = v.int('n', 2)
        y, h = v.array('y', n), v.real('h', 0)
        G.clear()
        G['y'], G['h'] = seq(y.f0, 0), h
        Y = G['y']
        v.assume(Y(0) != Y(1))          # the input is a sequence of turning points
        r = v.call('wafo._misc_numba', 'findrfc', y, h, _m)
        m = r.shape[0]
        t = lambda a: r.get(snp.sx(lift(a)))
        v.ensure('entries', land(m >= 1, m <= n, t(0) == 0))
        v.ensure('entries increase and stay inside', Forall(1, lambda a: implies(land(lift(a) >= 0, lift(a) + 1 < m), land(t(a) >= 0, t(a) < t(a + 1), t(a + 1) < n))))
        d = lambda a: Y(t(lift(a) + 1)) - Y(t(a))
        v.ensure('kept ranges reach the threshold', Forall(1, lambda a: implies(land(lift(a) >= 0, lift(a) + 1 < m), lor(d(a) >= h, d(a) <= -h))))
        v.ensure('kept points alternate', Forall(1, lambda a: implies(land(lift(a) >= 0, lift(a) + 2 < m), lor(land(d(a) >= h, d(a + 1) <= -h), land(d(a) <= -h, d(a + 1) >= h)))))
        btw = lambda a, s: lor(land(Y(t(a)) <= Y(s), Y(s) <= Y(t(lift(a) + 1))), land(Y(t(a)) >= Y(s), Y(s) >= Y(t(lift(a) + 1))))
        v.ensure('kept points are the extremes of the signal between them', Forall(2, lambda a, s: implies(
            land(lift(a) >= 1, lift(a) + 1 < m, lift(s) >= t(a), lift(s) <= t(lift(a) + 1)), btw(a, s))))
        v.ensure('no cycle of range above the threshold is dropped', Forall(3, lambda a, p, q: implies(
            land(lift(a) >= 1, lift(a) + 1 < m, lift(p) >= t(a), lift(p) < q, lift(q) <= t(lift(a) + 1)),
            ite(Y(t(a)) <= Y(t(lift(a) + 1)), Y(p) - Y(q) <= h, Y(q) - Y(p) <= h))))


# ---- the definition gives every turning point to at most one cycle
@contract('C03', 'no turning point belongs to two cycles', ['c_functions.c:findrfc', 'wafo._misc_numba:_findrfc'], conc='kernels', budget=120)
def c_uniq(v):
    n = v.int('n', 2)
    y, h = v.array('y', n), v.real('h')
    g = Rfc(v, seq(y.f0, 0), n, h)
    i, k = v.p.fresh_int('i'), v.p.fresh_int('k')
    v.assume(land(lift(i) >= 0, i < k, lift(k) < g.NC))
    a, b = (lambda q: g.ia(q)), (lambda q: g.ib(q))
    pts = [i, k, a(i), a(k), g.r(i), g.r(k), b(i), b(k), g.lm(k), g.lm(i)]
    g.use(i, *pts)
    g.use(k, *pts)
    for q in (g.r(i), g.r(k)):
        g.use(q, i, k)
    v.ensure('distinct minima', g.low(i) != g.low(k))


# ---- the public function, against the kernels' contracts
def kernel(v, y, h):
    y = snp.asarray(y)
    n = y.shape[0]
    f = y.snap()
    v.ensure('kernel precondition: two turning points or more, starting with a minimum', land(lift(n) >= 2, f((0,)) <= f((1,))))
    G['g'] = g = Rfc(v, seq(f, 0), n, h)
    m = v.p.fresh_int('m')
    ind = v.array(v.p.fresh('ind'), n, k='i')
    for _, fact in g.facts(lambda k: ind.get(k), m, g.NC):
        v.assume(fact)
    G['ind'], G['m'] = ind, m
    return ind, m


class CLib(object):
    def __init__(self, v):
        self.v = v

    def findrfc(self, y, h):
        return kernel(self.v, y, h)


for _method in ('clib', 'numba', 2):
    @contract('C03', 'findrfc method=%s' % (_method,), ['wafo.misc:findrfc'], conc='findrfc')
    def c_pub(v, _method=_method):
        n = v.int('n', 2)
        x, h = v.array('x', n), v.real('h')
        G.clear()
        v.assume(x.get(0) != x.get(1))
        v.assume(v.forall(n - 2, lambda i: lor(land(x.get(i) < x.get(i + 1), x.get(i + 1) > x.get(i + 2)),
                                               land(x.get(i) > x.get(i + 1), x.get(i + 1) < x.get(i + 2)))))

        def nb(y, h, method=0):
            v.ensure('the rainflow kernel is selected', lift(method) == 2)
            ind, m = kernel(v, y, h)
            return ind[:m]
        v.override('wafo.misc', 'clib', CLib(v))
        v.override('wafo._misc_numba', 'findrfc', nb)
        r = v.call('wafo.misc', 'findrfc', x, h, _method)
        X = lambda k: x.get(snp.sx(lift(k)))
        ts = ite(X(0) > X(1), 1, 0)
        if 'g' not in G:
            v.ensure('nothing returned', lift(r.shape[0]) == 0)
            v.ensure('only when there is no cycle', n - ts < 2)
            return
        g, ind, m = G['g'], G['ind'], G['m']
        i = v.index(n)
        v.ensure('the kernel sees the sequence from its first minimum', land(g.n == n - ts, implies(lift(i) < g.n, g.y(i) == X(ts + i))))
        v.ensure('the kernel sees the threshold', g.h == h)
        v.ensure('two points per kept cycle', lift(r.shape[0]) == 2 * g.cnt(g.NC))
        k = v.index(r.shape[0] - 1)
        v.ensure('in order', at(r, k) <= at(r, k + 1))
        t = v.p.fresh_int('t')
        if v.case(lift(r.shape[0]) > 0):
            k, q = v.index(r.shape[0]), v.index(m)
            for _, qf in getattr(v.p, 'perms', [])[-1:]:
                v.ensure('all points of kept cycles', land(qf(q) >= 0, qf(q) < r.shape[0], r.get(qf(q)) == ind.get(q) + ts))
            v.assume(v.forall(m, lambda c: t != ind.get(c)))
            v.ensure('only points of kept cycles', at(r, k) != t + ts)
