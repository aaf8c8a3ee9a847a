"""C01 level crossings"""
from vf.api import *
from vf import cfront
from contracts.crossing import Ghost, sgn, loops

META = {}
GH = {}
cur = lambda: GH['g']


@contract('C01', 'C routine', ['c_functions.c:findcross'], conc='kernels', native=True, budget=150,
          loops=loops(cur, lambda L: L.i, lambda L: L.i, 'findcross'))
def c_c(v):
    n = v.int('n', 1)
    y = v.array('y', n)
    lev = v.real('v')
    ind, info = v.array('ind0', n, k='i'), v.array('info0', 1, k='i')
    GH['g'] = g = Ghost(v, lambda i: y.f0((snp.sx(lift(i)),)), n, lev)
    P = cfront.Ptr
    cfront.cfile().get('findcross')(P(y), lev, P(ind), n, P(info))
    m = info.get(0)
    for nm, f in g.facts(lambda k: ind.get(k), m, n - 1):
        v.ensure(nm, f)
    i = v.index(n)
    v.ensure('input unchanged', y.get(i) == y.f0((i,)))


@contract('C01', 'numba routine', ['wafo._misc_numba:_findcross', 'wafo._misc_numba:findcross'], conc='kernels', native=True, budget=150,
          loops=loops(cur, lambda L: 1 + L._k, lambda L: L.start + L._k, '_findcross'))
def c_nb(v):
    n = v.int('n', 1)
    y = v.array('y', n, k='i')
    GH['g'] = g = Ghost(v, lambda i: y.f0((snp.sx(lift(i)),)), n, 0)
    r = v.call('wafo._misc_numba', 'findcross', y)
    m = r.shape[0]
    for nm, f in g.facts(lambda k: r.get(k), m, n - 1):
        v.ensure(nm, f)
    i = v.index(n)
    v.ensure('input unchanged', y.get(i) == y.f0((i,)))


# ---- the public function, against the contracts of the two kernels
def kernel(v, y):
    y = snp.asarray(y)
    n = y.shape[0]
    v.ensure('kernel precondition: at least one sample', lift(n) >= 1)
    f = y.snap()
    g = Ghost(v, lambda i: f((snp.sx(lift(i)),)), n, 0)
    m = v.p.fresh_int('m')
    ind = v.array(v.p.fresh('ind'), n, k='i')
    for _, fact in g.facts(lambda k: ind.get(k), m, n - 1):
        v.assume(fact)
    GH['g'], GH['ind'], GH['m'] = g, ind, m
    return ind, m


class CLib(object):
    def __init__(self, v):
        self.v = v

    def findcross(self, y, lev):
        self.v.ensure('kernel called at level zero', lift(lev) == 0)
        return kernel(self.v, y)


def public(kind, method):
    @contract('C01', 'findcross kind=%s method=%s' % (kind, method), ['wafo.misc:findcross', 'wafo.misc:_findcross'],
              conc='findcross')
    def c(v):
        n = v.int('n', 1)
        x = v.array('x', n)
        lev = v.real('v')
        v.note('kind', kind)
        GH.clear()

        def nb(y):
            ind, m = kernel(v, y)
            return ind[:m]
        v.override('wafo.misc', 'clib', CLib(v))
        v.override('wafo._misc_numba', 'findcross', nb)
        r = v.call('wafo.misc', 'findcross', x, lev, kind, method)
        g, ind, m = GH['g'], GH['ind'], GH['m']
        i = v.index(n)
        v.ensure('the kernel sees the side of every sample', g.sg(i) == sgn(at(x, i) - lev))
        L = r.shape[0]
        down0 = g.d0 < 0
        if kind in (None, 'du', 'all'):
            first, step, size = 0, 1, m
        elif kind in ('d', 'u'):
            first, step = ite(down0 if kind == 'd' else lnot(down0), 0, 1), 2
            size = vmax(0, (m - first + 1) // 2)
        else:
            first, step = ite(down0 if kind in ('dw', 'tw') else lnot(down0), 0, 1), 1
            rest = vmax(0, m - first)
            odd = kind in ('dw', 'uw')
            size = ite(rest % 2 == (1 if odd else 0), rest, vmax(0, rest - 1))
        v.ensure('number of crossings', L == size)
        j = v.index(L)
        v.ensure('selected crossings', land(first + step * j < m, at(r, j) == ind.get(first + step * j)))
        X = lambda q: x.get(snp.sx(lift(q)))
        if kind == 'd':
            v.ensure('down-crossings', X(at(r, j) + 1) < lev)
        if kind == 'u':
            v.ensure('up-crossings', X(at(r, j) + 1) > lev)
        if kind in ('dw', 'tw', 'uw', 'cw') and L > 0:
            v.ensure('first direction', X(at(r, 0) + 1) < lev if kind in ('dw', 'tw') else X(at(r, 0) + 1) > lev)
            v.ensure('last direction', X(at(r, L - 1) + 1) < lev if kind in ('dw', 'cw') else X(at(r, L - 1) + 1) > lev)


for _k in (None, 'du', 'all', 'd', 'u', 'dw', 'uw', 'tw', 'cw'):
    public(_k, 'clib')
for _k in (None, 'd', 'uw'):
    public(_k, 'numba')


@contract('C01', 'unknown kind is refused', ['wafo.misc:findcross'], conc='findcross')
def c_unknown(v):
    n = v.int('n', 2)
    x = v.array('x', n)
    GH.clear()
    v.override('wafo.misc', 'clib', CLib(v))
    bad = v.raises(ValueError, v.get('wafo.misc', 'findcross'), x, 0, 'sideways')
    v.ensure('refused', lor(bad, GH['m'] == 0))


@contract('C01', 'ecross', ['wafo.misc:ecross'], conc='ecross')
def c_ecross(v):
    n, m = v.int('n', 2), v.int('m', 0)
    t, f = v.array('t', n), v.array('f', n)
    ind = v.array('ind', m, k='i')
    lev = v.real('v')
    v.assume(v.forall(m, lambda k: land(ind.get(k) >= 0, ind.get(k) < n - 1, (f.get(ind.get(k)) - lev) * (f.get(ind.get(k) + 1) - lev) <= 0,
                                        f.get(ind.get(k)) != f.get(ind.get(k) + 1), t.get(ind.get(k)) <= t.get(ind.get(k) + 1))))
    r = v.call('wafo.misc', 'ecross', t, f, ind, lev)
    v.ensure('length', r.shape[0] == m)
    k = v.index(m)
    i = ind.get(k)
    T, F = lambda q: t.get(snp.sx(lift(q))), lambda q: f.get(snp.sx(lift(q)))
    R = at(r, k)
    v.ensure('on the straight line through the two samples', (R - T(i)) * (F(i + 1) - F(i)) == (lev - F(i)) * (T(i + 1) - T(i)))
    d = F(i + 1) - F(i)
    s = (lev - F(i)) / d
    v.ensure('fraction', land(s >= 0, s <= 1))
    v.ensure('affine', R == T(i) + s * (T(i + 1) - T(i)))
    v.ensure('between the two samples', land(R >= T(i), R <= T(i + 1)))
