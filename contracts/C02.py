"""C02 the compiled routines stay inside their arrays and terminate

The array accesses themselves are the obligations: every subscript executed by the (translated) C code and by the
numba functions must be in range, and every loop has a decreasing variant."""
from vf.api import *
from vf import cfront

META = {}
P = cfront.Ptr
G = {}


def C(fn):
    return cfront.cfile().get(fn)


# ---- level crossings, any length including zero
def cross_loops(fn, c):
    def inv0(L):
        n = G['n']
        p = L.i if c else 1 + L._k
        return [('first loop', land(lift(p) >= 1, lift(p) <= vmax(n, 1), L.ix == 0, L.dcross == 0, L.start == p - 1))]

    def inv1(L):
        n = G['n']
        p = L.i if c else L.start + L._k
        return [('position', land(lift(p) >= L.start, L.start >= 0, lift(p) <= n - 1, L.start <= n - 1)),
                ('room for the next crossing', land(L.ix >= 0, lift(L.ix) <= p))]
    return {(fn, 0): LoopSpec(inv0, dec=(lambda L: G['n'] - L.i) if c else None, names=('ix', 'dcross', 'start')),
            (fn, 1): LoopSpec(inv1, dec=(lambda L: G['n'] - L.i) if c else None, names=('ix', 'start'))}


@contract('C02', 'C findcross', ['c_functions.c:findcross'], conc='findcross', native=True, loops=cross_loops('findcross', True))
def c_cross(v):
    G['n'] = n = v.int('n', 0)
    y, lev = v.array('y', n), v.real('v')
    ind, info = v.array('ind0', n, k='i'), v.array('info0', 1, k='i')
    C('findcross')(P(y), lev, P(ind), n, P(info))
    v.ensure('number of entries', land(info.get(0) >= 0, info.get(0) <= n))


@contract('C02', 'numba findcross', ['wafo._misc_numba:_findcross', 'wafo._misc_numba:findcross'], conc='findcross', native=True,
          loops=cross_loops('_findcross', False))
def c_ncross(v):
    G['n'] = n = v.int('n', 0)
    y = v.array('y', n, k='i')
    r = v.call('wafo._misc_numba', 'findcross', y)
    v.ensure('number of entries', land(r.shape[0] >= 0, r.shape[0] <= n))


# ---- rainflow filter
def rfc_loops(fn, c):
    ii = (lambda L: L.i) if c else (lambda L: L._k)
    nc = (lambda L: L.NC) if c else (lambda L: L.nc)
    ts = (lambda L: L.Tstart) if c else (lambda L: L.t_start)

    def out(L, upto):
        return [('room for two more entries', land(L.ix >= 0, lift(L.ix) <= 2 * lift(upto))),
                ('entries are positions of turning points', Forall(1, lambda k: implies(
                    land(lift(k) >= 0, lift(k) < L.ix), land(at(L.ind, k) >= 0, at(L.ind, k) < G['n']))))]

    def inv0(L):
        return [('position', land(lift(ii(L)) >= 0, lift(ii(L)) <= nc(L)))] + out(L, ii(L))

    def inv1(L):
        return [('search backwards', land(lift(L.j) >= -1, L.j < L.i, L.i < nc(L), L.i >= 0,
                                          L.Tmi >= 0, L.Tmi <= ts(L) + 2 * L.i))]

    def inv2(L):
        i = L.i
        return [('search forwards', land(L.j > i, L.j <= nc(L), i >= 0, i < nc(L), L.Tpl >= 0,
                                         implies(2 * i + 2 < L.n, lift(L.Tpl) <= ts(L) + L.n - 1)))]
    names = ('ix', 'ind')
    return {(fn, 0): LoopSpec(inv0, dec=(lambda L: nc(L) - ii(L)), names=names),
            (fn, 1): LoopSpec(inv1, dec=lambda L: L.j + 1, names=('j', 'Tmi')),
            (fn, 2): LoopSpec(inv2, dec=lambda L: nc(L) - L.j, names=('j', 'Tpl'))}


@contract('C02', 'C findrfc', ['c_functions.c:findrfc'], conc='findrfc', native=True, loops=rfc_loops('findrfc', True), budget=120)
def c_rfc(v):
    G['n'] = n = v.int('n', 2)
    y, h = v.array('y', n), v.real('h')
    ind, info = v.array('ind0', n, k='i'), v.array('info0', 1, k='i')
    C('findrfc')(P(y), h, P(ind), n, P(info))
    m = info.get(0)
    v.ensure('number of entries', land(m >= -1, m <= n))
    v.ensure('entries are positions', Forall(1, lambda k: implies(land(lift(k) >= 0, lift(k) < m),
                                                                 land(ind.get(k) >= 0, ind.get(k) < n))))


@contract('C02', 'numba findrfc', ['wafo._misc_numba:_findrfc', 'wafo._misc_numba:findrfc'], conc='findrfc', native=True,
          loops=rfc_loops('_findrfc', False), budget=120)
def c_nrfc(v):
    G['n'] = n = v.int('n', 0)
    y, h = v.array('y', n), v.real('h')
    r = v.call('wafo._misc_numba', 'findrfc', y, h, 2)
    v.ensure('number of entries', land(r.shape[0] >= 0, r.shape[0] <= n))
    k = v.index(r.shape[0])
    v.ensure('entries are positions', land(at(r, k) >= 0, at(r, k) < n))


def filt_loops():
    def inv(L):
        return [('state', land(L.j >= 0, lor(L.z0 == 0, L.z0 == 1, L.z0 == -1), L.t0 >= 0, L.t0 <= L._k,
                               implies(L.z0 == 0, L.j == 0), implies(L._k > 0, lift(L.j) <= L._k - 1),
                               implies(lift(L._k) == 0, land(L.j == 0, L.z0 == 0)))),
                ('entries', Forall(1, lambda k: implies(land(lift(k) >= 0, lift(k) <= L.j),
                                                        land(at(L.t, k) >= 0, lift(at(L.t, k)) <= L._k))))]
    return {('local_findrfc', 0): LoopSpec(inv, names=('j', 'z0', 't0', 't'), kinds={'z1': 'i', 't1': 'i', 'y1': 'r'})}


for _m in (0, 1):
    @contract('C02', 'numba findrfc method %d' % _m, ['wafo._misc_numba:_make_findrfc', 'wafo._misc_numba:findrfc'], conc='findrfc',
              native=True, loops=filt_loops(), budget=120)
    def c_filt(v, _m=_m):
        G['n'] = n = v.int('n', 2)
        y, h = v.array('y', n), v.real('h', 0)
        r = v.call('wafo._misc_numba', 'findrfc', y, h, _m)
        v.ensure('number of entries', land(r.shape[0] >= 1, r.shape[0] <= n))
        k = v.index(r.shape[0])
        v.ensure('entries are positions', land(at(r, k) >= 0, at(r, k) < n))


# ---- ASTM rainflow
def astm_loops(fn, c, cols):
    i = (lambda L: L.index) if c else (lambda L: L._k)

    def rows(L):
        """cells written so far"""
        return L.po.off if c else cols * L.po

    def inv0(L):
        return [('position', land(lift(i(L)) >= 0, lift(i(L)) <= G['n'])),
                ('values waiting and rows written fit', land(L.j >= -1, rows(L) >= 0, implies(lift(i(L)) == 0, rows(L) == 0),
                                                             rows(L) + cols * (L.j + 1) <= cols * lift(i(L)))),
                ('one value waits', implies(lift(i(L)) > 0, L.j >= 0)),
                ('input pointer', L.pr.off == i(L) if c else True)] + \
            ([('time pointer', L.pt.off == i(L))] if c and cols == 5 else [])

    def inv1(L):
        cnt = i(L) + 1 if c else L.i + 1
        return [('values waiting and rows written fit', land(L.j >= 0, rows(L) >= 0, lift(cnt) <= G['n'],
                                                             rows(L) + cols * (L.j + 1) <= cols * lift(cnt)))]

    def inv2(L):
        return [('position', land(lift(i(L)) >= 0, lor(lift(i(L)) <= L.j, lift(i(L)) == 0), L.j >= -1, L.j < G['n'])),
                ('rows left', land(rows(L) >= 0, implies(L.j >= 0, rows(L) + cols * (L.j + 1 - i(L)) <= cols * G['n'])))]
    return {(fn, 0): LoopSpec(inv0, dec=lambda L: G['n'] - i(L), names=('j', 'po')),
            (fn, 1): LoopSpec(inv1, dec=lambda L: L.j, names=('j', 'po')),
            (fn, 2): LoopSpec(inv2, dec=(lambda L: L.j - i(L)) if c else None, names=('j', 'po'))}


for _c in (3, 5):
    @contract('C02', 'C findrfc%d_astm' % _c, ['c_functions.c:findrfc%d_astm' % _c], conc='astm', native=True,
              loops=astm_loops('findrfc%d_astm' % _c, True, _c), budget=120)
    def c_astm(v, _c=_c):
        G['n'] = n = v.int('n', 0)
        x, t, out, nout = v.array('x', n), v.array('t', n), v.array('out0', _c * n), v.array('nout0', 2, k='i')
        a = [P(x), P(out), n, P(nout)] if _c == 3 else [P(x), P(t), P(out), n, P(nout)]
        C('findrfc%d_astm' % _c)(*a)
        v.ensure('returns', True)

    @contract('C02', 'numba findrfc%d_astm' % _c, ['wafo._misc_numba:_findrfc%d_astm' % _c, 'wafo._misc_numba:findrfc_astm'], conc='astm',
              native=True, loops=astm_loops('_findrfc%d_astm' % _c, False, _c), budget=120)
    def c_nastm(v, _c=_c):
        G['n'] = n = v.int('n', 0)
        x, t = v.array('x', n), v.array('t', n)
        r = v.call('wafo._misc_numba', 'findrfc_astm', x, *([t] if _c == 5 else []))
        v.ensure('columns', r.shape[1] == _c)


# ---- second order wave interaction sums
def duf_loops(fn, c, base, m=None):
    """four nested loops starting at loop number base: ix, i, jy, i"""
    N = lambda: (G['n'], G['m'], G['nmin'], G['nmax'])

    def ix(L, inner=False):
        return L.ix if (c or inner) else G['nmin'] - 1 + L._k

    def inv_ix(L):
        n, m, a, b = N()
        return [('frequency', land(lift(ix(L)) >= a - 1, lor(lift(ix(L)) <= b, lift(ix(L)) == a - 1)))]

    def inv_d(L):
        n, m, a, b = N()
        i = L.i if c else L._k
        x = L.ix
        return [('diagonal', land(lift(x) >= a - 1, lift(x) < b, lift(i) >= 0, lift(i) <= m, L.ixi == x * m + i,
                                  L.iz1 == 2 * x * m + i))]

    def inv_jy(L):
        n, m, a, b = N()
        j = L.jy if c else L.ix + 1 + L._k
        return [('second frequency', land(lift(L.ix) >= a - 1, L.ix < b, lift(j) > L.ix, lift(j) <= vmax(b, L.ix + 1)))]

    def inv_o(L):
        n, m, a, b = N()
        i = L.i if c else L._k
        x, j = L.ix, L.jy
        return [('pair', land(lift(x) >= a - 1, lift(x) < j, lift(j) < b, lift(i) >= 0, lift(i) <= m, L.ixi == x * m + i, L.jyi == j * m + i,
                              L.iz1 == x * m + j * m + i, L.iv1 == j * m - x * m + i))]
    d = (lambda f: f) if c else (lambda f: None)
    return {(fn, base): LoopSpec(inv_ix, dec=d(lambda L: G['nmax'] - L.ix), names=()),
            (fn, base + 1): LoopSpec(inv_d, dec=d(lambda L: G['m'] - L.i), names=('ixi', 'iz1')),
            (fn, base + 2): LoopSpec(inv_jy, dec=d(lambda L: G['nmax'] - L.jy), names=()),
            (fn, base + 3): LoopSpec(inv_o, dec=d(lambda L: G['m'] - L.i), names=('ixi', 'jyi', 'iz1', 'iv1'))}


def duf_args(v):
    n, m = v.int('n', 1), v.int('m', 1)
    nmin, nmax = v.int('nmin', 1), v.int('nmax', 0)
    v.assume(2 * nmax <= n)
    G.update(n=n, m=m, nmin=nmin, nmax=nmax)
    h, g = v.real('h'), v.real('g')
    q = n // 2 + 1
    return (v.array('rA', n * m), v.array('iA', n * m), v.array('w', q), v.array('kw', q), h, g, nmin, nmax, m, n)


def init_loop():
    return LoopSpec(lambda L: [('position', land(L.ix >= 0, lift(L.ix) <= G['n'] * G['m']))], dec=lambda L: G['n'] * G['m'] - L.ix, names=())


for _f in ('disufq', 'disufq2'):
    @contract('C02', 'C ' + _f, ['c_functions.c:' + _f], conc='disufq', native=True,
              loops=dict([((_f, 0), init_loop())] + list(duf_loops(_f, True, 1).items()) + list(duf_loops(_f, True, 5).items())), budget=200)
    def c_duf(v, _f=_f):
        a = duf_args(v)
        nm = a[-1] * a[-2]
        outs = [v.array('out%d' % k, nm) for k in range(2 if _f == 'disufq' else 4)]
        C(_f)(*([P(o) for o in outs] + [P(x) for x in a[:4]] + list(a[4:])))
        v.ensure('returns', True)


@contract('C02', 'numba disufq', ['wafo._misc_numba:disufq', 'wafo._misc_numba:_deep_water_disufq', 'wafo._misc_numba:_finite_water_disufq'],
          conc='disufq', native=True, loops=dict(list(duf_loops('_deep_water_disufq', False, 0).items()) +
                                                 list(duf_loops('_finite_water_disufq', False, 0).items())), budget=200)
def c_nduf(v):
    a = duf_args(v)
    r, i = v.call('wafo._misc_numba', 'disufq', *a)
    v.ensure('sizes', land(r.shape[0] == a[-1] * a[-2], i.shape[0] == a[-1] * a[-2]))
