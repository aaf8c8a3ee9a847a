"""C06 turning points, troughs and crests, wave parameters"""
from vf.api import *
from contracts.crossing import Ghost, sgn
W, O = 'wafo.misc', 'wafo.objects'
META = {'assumptions': [
    'findcross is used by its contract (decided by C01)',
    'findrfc is used by a contract: increasing positions inside the sequence, an even number of them, values alternating from a minimum (C03 decides which positions are returned; that the values alternate is checked there on concrete inputs only)',
    'the first two samples of the signal given to findtp differ']}
G = {}


def idx(a):
    return lambda k: a.get(snp.sx(lift(k)))


def kernel(v):
    """contract of findcross(x, level, kind)"""
    def findcross(x, lev=0, kind=None, method='clib'):
        x = snp.asarray(x).ravel()
        n = x.shape[0]
        v.ensure('findcross needs a sample', lift(n) >= 1)
        f = x.snap()
        g = Ghost(v, lambda i: f((snp.sx(lift(i)),)), n, lev)
        m = v.p.fresh_int('m')
        ind = v.array(v.p.fresh('ind'), m, k='i')
        for _, fact in g.facts(idx(ind), m, n - 1):
            v.assume(fact)
        G.update(g=g, ind=ind, m=m)
        if kind is None:
            v.assume(lift(m) >= 0)
            return ind
        down0 = g.d0 < 0
        if kind in ('d', 'u'):
            raise Unsupported('kind')
        fd = bool(down0)
        if fd != (kind in ('dw', 'tw')):
            ind = ind[1:]
        odd = bool(lift(ind.shape[0]) % 2 == 1)
        if odd != (kind in ('dw', 'uw')):
            ind = ind[:-1]
        return ind
    return findcross


def use_sides(v, g, m):
    """the side is the parity of the number of crossings so far; no crossing strictly between two listed ones"""
    n = g.n
    v.induct('side and number of crossings', 0, n, lambda i: land(
        g.cnt(i) >= 0, implies(g.cnt(i) > 0, g.side(i) == ite(g.cnt(i) % 2 == 1, g.d0, -g.d0)),
        implies(g.cnt(i) == 0, lor(g.side(i) == 0, g.side(i) == -g.d0))))


def extrema_facts(x, n, e, m, d):
    """contract of findextrema: e(k), k < m; d: direction after the first extreme"""
    dirk = lambda k: ite(lift(k) % 2 == 0, d, -d)
    r = lambda k: land(lift(k) >= 0, lift(k) < m)
    return [
        ('count', land(lift(m) >= 0, lift(m) <= vmax(n - 2, 0), lor(d == 1, d == -1))),
        ('interior samples in order', Forall(1, lambda k: implies(r(k), land(e(k) >= 1, e(k) <= n - 2, implies(lift(k) + 1 < m, e(k) < e(lift(k) + 1)))))),
        ('order', Forall(2, lambda k, l: implies(land(r(k), r(l), lift(k) < l), e(k) < e(l)))),
        ('extremes', Forall(1, lambda k: implies(r(k), land(dirk(k) * (x(e(k) + 1) - x(e(k))) > 0, dirk(k) * (x(e(k) - 1) - x(e(k))) >= 0)))),
        ('values alternate', Forall(1, lambda k: implies(land(r(k), lift(k) + 1 < m), dirk(k) * (x(e(lift(k) + 1)) - x(e(k))) > 0))),
        ('first stretch', implies(land(lift(m) > 0, x(0) != x(1)), d * (x(0) - x(e(0))) > 0)),
        ('last stretch', implies(lift(m) > 0, dirk(lift(m) - 1) * (x(n - 1) - x(e(lift(m) - 1))) > 0)),
    ]


@contract('C06', 'findextrema', ['wafo.misc:findextrema'], conc='extrema', budget=120)
def c1(v):
    n = v.int('n', 2)
    x = v.array('x', n)
    G.clear()
    v.override(W, 'findcross', kernel(v))
    r = v.call(W, 'findextrema', x)
    g, ind, m = G['g'], idx(G['ind']), G['m']
    X = idx(x)
    i = v.index(n)
    v.ensure('differences', implies(i < n - 1, g.y(i) == X(i + 1) - X(i)))
    v.assume(v.forall(n - 1, lambda i: g.y(i) == X(i + 1) - X(i)))
    v.ensure('number', r.shape[0] == m)
    e = idx(r)
    k = v.index(m)
    v.ensure('one after the crossing of the difference', e(k) == ind(k) + 1)
    v.assume(v.forall(m, lambda k: e(k) == ind(k) + 1))
    use_sides(v, g, m)
    dirk = lambda k: ite(lift(k) % 2 == 0, g.d0, -g.d0)
    i = v.index(n)
    v.assume(land(i >= 1, i <= n - 2))
    peak = lor(land(X(i - 1) < X(i), X(i) > X(i + 1)), land(X(i - 1) > X(i), X(i) < X(i + 1)))
    v.ensure('sides around', implies(peak, land(g.sg(i - 1) != 0, g.side(i - 1) == g.sg(i - 1), g.cross(i - 1))))
    c = g.cnt(i - 1)
    v.ensure('every strict local extreme is listed', implies(peak, land(c >= 0, c < m, e(c) == i)))
    # monotone between consecutive extremes
    last = bool(k == m - 1)
    end = n if last else e(k + 1) + 1
    v.ensure('here', land(g.cnt(ind(k)) == k, g.sg(ind(k) + 1) == dirk(k), ind(k) >= 0, ind(k) < n - 2 + 1))
    if not last:
        v.ensure('next', land(g.cnt(ind(k + 1)) == k + 1, ind(k) < ind(k + 1)))
    v.induct('crossings never decrease', ind(k) + 1, n - 1, lambda i: g.cnt(i) >= k + 1)
    if last:
        v.ensure('final count', g.cnt(n - 2) == m)
        v.induct('count after', 0, n - 1, lambda i: implies(lift(i) >= ind(k) + 1, g.cnt(i) == k + 1))
    else:
        v.induct('count between', ind(k) + 1, ind(k + 1) + 1, lambda i: land(
            g.cnt(i) >= k + 1, implies(g.cnt(i) > k + 1, land(ind(k + 1) < i))))
    v.induct('monotone stretch', e(k) + 1, end, lambda i: dirk(k) * (X(i) - X(e(k))) > 0)
    if bool(k == 0):
        v.ensure('first', land(g.cnt(ind(0)) == 0))
        v.induct('count before', 0, ind(0) + 1, lambda i: land(g.cnt(i) >= 0, implies(g.cnt(i) > 0, ind(0) < i)))
        v.induct('monotone start', 1, e(0) + 1, lambda i: implies(X(0) != X(1), land(g.d0 * (X(0) - X(i)) > 0, g.side(i - 1) == -g.d0)))
    # facts at the arbitrary k; the general form is the universal closure
    f = extrema_facts(X, n, e, m, g.d0)
    v.ensure('extreme', land(dirk(k) * (X(e(k) + 1) - X(e(k))) > 0, dirk(k) * (X(e(k) - 1) - X(e(k))) >= 0, e(k) >= 1, e(k) <= n - 2))
    v.induct('order', k + 1, m, lambda l: e(k) < e(l))
    if not last:
        v.ensure('order', e(k) < e(k + 1))
        v.ensure('values alternate', dirk(k) * (X(e(k + 1)) - X(e(k))) > 0)
    else:
        v.ensure('last stretch', dirk(k) * (X(n - 1) - X(e(k))) > 0)
    if bool(k == 0):
        v.ensure('first stretch', implies(X(0) != X(1), g.d0 * (X(0) - X(e(0))) > 0))
    v.ensure('input unchanged', X(i) == x.f0((i,)))


def k_extrema(v):
    def findextrema(x):
        x = snp.asarray(x).ravel()
        n = x.shape[0]
        v.ensure('findextrema needs two samples', lift(n) >= 2)
        f = x.snap()
        m = v.p.fresh_int('m')
        e = v.array(v.p.fresh('ext'), m, k='i')
        d = v.p.fresh_int('d')
        for _, fact in extrema_facts(lambda i: f((snp.sx(lift(i)),)), n, idx(e), m, d):
            v.assume(fact)
        G.update(e=e, m=m, d=d)
        return e
    return findextrema


def k_rfc(v):
    def findrfc(tp, h=0, method='clib'):
        y = idx(snp.asarray(tp))
        n = tp.shape[0]
        c = v.p.fresh_int('c')
        r = v.array(v.p.fresh('rfc'), 2 * c, k='i')
        v.assume(land(c >= 0, 2 * c <= n))
        q = idx(r)
        v.assume(v.forall(2 * c, lambda k: land(q(k) >= 0, q(k) < n, implies(k + 1 < 2 * c, land(
            q(k) < q(k + 1), ite(k % 2 == 0, y(q(k)) < y(q(k + 1)), y(q(k)) > y(q(k + 1))))))))
        G.update(rfc=r, c=c, h=h, tp=snp.asarray(tp), method=method)
        return r
    return findrfc


def c2(v, kind, filt):
    n = v.int('n', 2)
    x = v.array('x', n)
    v.assume(x.get(0) != x.get(1))
    h = v.real('h', gt=0) if filt else 0
    v.note('kind', kind)
    G.clear()
    v.override(W, 'findextrema', k_extrema(v))
    v.override(W, 'findrfc', k_rfc(v))
    r = v.call(W, 'findtp', x, h, kind)
    X = idx(x)
    e, m, d = idx(G['e']), G['m'], G['d']
    if r is None:
        v.ensure('nothing only when there are fewer than two extremes', m < 2)
        return
    v.ensure('two extremes or more', m >= 2)
    # the turning points before filtering
    pre = 1 if kind == 'astm' or bool(d == -1) else 0
    T = m + pre + 1
    tp = lambda k: ite(lift(k) < pre, 0, ite(lift(k) == T - 1, n - 1, e(vmax(vmin(lift(k) - pre, m - 1), 0))))
    L = r.shape[0]
    R = idx(r)
    if filt:
        c, q = G['c'], idx(G['rfc'])
        k = v.index(T)
        v.ensure('all turning points are filtered', land(G['tp'].shape[0] == T, G['tp'].get(k) == X(tp(k)), lift(G['h']) == h))
        v.assume(v.forall(T, lambda k: idx(G['tp'])(k) == X(tp(k))))
        sel, N = (lambda k: tp(q(k))), 2 * c
        fmax = False
    else:
        sel, N = tp, T
        fmax = kind == 'astm' and bool(d == 1)
    first, size = 0, N
    if kind in ('mw', 'Mw'):
        first = 1 if (fmax != (kind == 'Mw')) else 0
        size = ite((N - first) % 2 == 1, N - first, N - first - 1)
        if filt:
            size = ite(lift(N) == 0, 0, size)
    v.ensure('number of turning points', L == size)
    k = v.index(L)
    v.ensure('selected turning points', R(k) == sel(k + first))
    v.assume(v.forall(L, lambda k: R(k) == sel(k + first)))
    v.ensure('inside the signal', land(R(k) >= 0, R(k) < n))
    v.assume(k + 1 < L)
    v.ensure('in time order', R(k) < R(k + 1))
    up = (k + first + (1 if fmax else 0)) % 2 == 0
    v.ensure('minima and maxima alternate', ite(up, X(R(k)) < X(R(k + 1)), X(R(k)) > X(R(k + 1))))
    if kind in ('mw', 'Mw'):
        v.ensure('first and last of the requested kind', land((X(R(0)) < X(R(1))) if kind == 'mw' else (X(R(0)) > X(R(1))), L % 2 == 1))
    v.ensure('input unchanged', X(k) == x.f0((k,)))


for _k in (None, 'astm', 'mw', 'Mw'):
    for _f in (0, 1):
        @contract('C06', 'findtp kind=%s%s' % (_k, ' filtered' if _f else ''), ['wafo.misc:findtp'], conc='tp', budget=120)
        def c2k(v, _k=_k, _f=_f):
            c2(v, _k, _f)


@contract('C06', 'findtp negative threshold', ['wafo.misc:findtp'], conc='tp')
def c2n(v):
    n = v.int('n', 0)
    x, h = v.array('x', n), v.real('h', lt=0)
    r = v.call(W, 'findtp', x, h)
    i = v.index(n)
    v.ensure('every sample', land(r.shape[0] == n, r.get(i) == i))


# ---- troughs and crests ----------------------------------------------------------
def ext(v, X, j, a, b, down):
    """j is the (first) extreme position in (a, b]"""
    return lambda q: land(lift(j) > a, lift(j) <= b, implies(land(lift(q) > a, lift(q) <= b), X(j) <= X(q) if down else X(j) >= X(q)))


def tc_inv(L):
    X, vi, n_c = idx(L.x), idx(L.v_ind), L.n_c
    ind, k = idx(L.ind), lift(L._k)
    dn = G['down']
    def body(j, q):
        a, b = vi(j), vi(lift(j) + 1)
        p = a + ind(j) + 1
        mn = lift(j) % 2 == (0 if dn else 1)
        return implies(land(lift(j) >= 0, lift(j) < 2 * k, lift(j) + 1 < n_c), land(
            ind(j) >= 0, p <= b, implies(land(lift(q) >= 0, a + 1 + q <= b), ite(mn, X(p) <= X(a + 1 + q), X(p) >= X(a + 1 + q)))))
    return [('position', land(k >= 0, 2 * k <= n_c - 1)), ('extremes so far', Forall(2, body))]


def c3(v, kind, down):
    n = v.int('n', 1)
    x, lev = v.array('x', n), v.real('v')
    v.note('kind', kind)
    G.clear()
    G['down'] = down
    fc = kernel(v)

    def findcross(x, l=0, kind=None, method='clib'):
        r = fc(x, l, kind, method)
        v.ensure('level', lift(l) == lev)
        G['z'] = r
        d0 = G['g'].d0
        sel = d0 if kind is None or (bool(d0 < 0) == (kind in ('dw', 'tw'))) else -d0
        v.assume((sel < 0) if down else (sel > 0))
        return r
    v.override(W, 'findcross', findcross)
    tc, z = v.call(W, 'findtc', x, lev, kind)
    zi, X, N = idx(G['z']), idx(x), G['z'].shape[0]
    if not bool(lift(N) > 2):
        v.ensure('no waves', land(tc.shape[0] == 0, z.shape[0] == 0))
        return
    v.ensure('crossings', z.shape[0] == N)
    v.ensure('one extreme between consecutive crossings', tc.shape[0] == N - 1)
    j = v.index(N - 1)
    q = v.index(n)
    T = idx(tc)
    v.ensure('crossing positions', land(idx(z)(j) == zi(j), idx(z)(j + 1) == zi(j + 1)))
    mn = j % 2 == (0 if down else 1)
    v.ensure('after its crossing and not after the next', land(T(j) > zi(j), T(j) <= zi(j + 1), T(j) < n))
    v.ensure('trough after a down-crossing, crest after an up-crossing', ite(mn, X(zi(j) + 1) < lev, X(zi(j) + 1) > lev))
    w = zi(j) + 1 + q
    v.ensure('the extreme sample of the stretch', implies(w <= zi(j + 1), ite(mn, X(T(j)) <= X(w), X(T(j)) >= X(w))))
    v.ensure('beyond the level', ite(mn, X(T(j)) < lev, X(T(j)) > lev))
    v.ensure('input unchanged', X(q) == x.f0((q,)))


for _k in (None, 'dw', 'uw', 'tw', 'cw'):
    for _d in (True, False):
        if _k is None or _d == (_k in ('dw', 'tw')):
            @contract('C06', 'findtc kind=%s %s first' % (_k, 'down' if _d else 'up'), ['wafo.misc:findtc'], conc='tc', budget=150,
                      loops={('findtc', 0): LoopSpec(tc_inv, names=('ind', 'x', 'v_ind', 'n_c'))})
            def c3k(v, _k=_k, _d=_d):
                c3(v, _k, _d)


# ---- wave parameters --------------------------------------------------------------------
def series(v):
    n = v.int('n', 3)
    x, t = v.array('x', n), v.array('t', n)
    cls = v.get(O, 'TimeSeries')
    ts = cls.__new__(cls)
    ts.data, ts.args = x, t
    return ts, x, t, n


def waves(v, x, n):
    """contracts of findtc(x, 0, 'tw') and ecross for the crossing positions z and extremes tc"""
    m = v.int('m', 2)                    # number of down-crossings
    z, tc = v.array('z', 2 * m, k='i'), v.array('tc', 2 * m - 1, k='i')
    Z, T = idx(z), idx(tc)
    v.assume(v.forall(2 * m, lambda j: land(Z(j) >= 0, Z(j) < n - 1, implies(j < 2 * m - 1, land(Z(j) < Z(j + 1), T(j) > Z(j), T(j) <= Z(j + 1))))))
    fcr = z3.Function('tcross', z3.IntSort(), z3.RealSort())
    cr = lambda i: S(fcr(lift(i).e))

    def findtc(y, v_=None, kind=None, **kw):
        v_ = kw.get('v', v_)
        i = v.index(n)
        v.ensure('troughs and crests of the signal about zero, from trough to trough', land(lift(v_) == 0, kind == 'tw', y.shape[0] == n, y.get(i) == x.get(i)))
        return tc, z

    def ecross(t, f, ind, v_=0, **kw):
        lev = kw.get('v', v_)
        i = v.index(n)
        v.ensure('crossing times of the signal', land(lift(lev) == 0, f.get(i) == x.get(i), t.get(i) == G['t'].get(i)))
        a = snp.asarray(ind)
        f_ = a.snap()
        return SArr.new(lambda ix: cr(f_(ix)), 'r', a.shape)
    v.override(O, 'findtc', findtc)
    v.override(O, 'ecross', ecross)
    return m, Z, T, cr


def names(v, X, tt, m, Z, T, cr, dT, k):
    """the quantities of wave k (crest 2k+1 between troughs 2k and 2k+2)"""
    Ac = X(T(2 * k + 1))
    nz = lambda q: ite(q == 0, dT, q)
    return dict(Ac=Ac, At=-X(T(2 * k)), At2=-X(T(2 * k + 2)), Hd=Ac - X(T(2 * k)), Hu=Ac - X(T(2 * k + 2)),
                Tu=cr(Z(2 * k + 3)) - cr(Z(2 * k + 1)), Td=cr(Z(2 * k + 2)) - cr(Z(2 * k)),
                Tcf=nz(tt(T(2 * k + 1)) - cr(Z(2 * k + 1))), Tcb=nz(cr(Z(2 * k + 2)) - tt(T(2 * k + 1))))


@contract('C06', 'wave_parameters', [O + ':TimeSeries.wave_parameters'], conc='waves', budget=120)
def c4(v):
    ts, x, t, n = series(v)
    G.clear()
    G['t'] = t
    m, Z, T, cr = waves(v, x, n)
    r = ts.wave_parameters()
    dT = (t.get(n - 1) - t.get(0)) / (n - 1)
    k = v.index(m - 1)
    q = names(v, idx(x), idx(t), m, Z, T, cr, dT, k)
    for nm in ('Ac', 'Hu', 'Hd', 'Tu', 'Td', 'Tcf', 'Tcb'):
        v.ensure(nm, land(r[nm].shape[0] == m - 1, r[nm].get(k) == q[nm]))
    v.ensure('At', land(r['At'].shape[0] == m, r['At'].get(k) == q['At'], r['At'].get(k + 1) == q['At2']))
    v.ensure('no others', set(r) == {'Ac', 'At', 'Hu', 'Hd', 'Tu', 'Td', 'Tcf', 'Tcb'})
    i = v.index(n)
    v.ensure('series unchanged', land(x.get(i) == x.f0((i,)), t.get(i) == t.f0((i,))))


DEF = dict(maxVcfVcb=0, Vcf=1, Vcb=-1, Scf=2, Scb=-2, StHd=3, StHu=-3)
for _kind in DEF:
    @contract('C06', 'wave_height_steepness ' + _kind, [O + ':TimeSeries.wave_height_steepness'], conc='waves', budget=120)
    def c5(v, _kind=_kind):
        ts, x, t, n = series(v)
        G.clear()
        G['t'] = t
        v.note('kind', _kind)
        m, Z, T, cr = waves(v, x, n)
        g = v.real('g', gt=0)
        dT = (t.get(n - 1) - t.get(0)) / (n - 1)
        v.assume(dT > 0)
        k = v.index(m - 1)
        q = names(v, idx(x), idx(t), m, Z, T, cr, dT, k)
        # crests lie between their crossings
        nzp = lambda k: (lambda w: land(w['Tcf'] > 0, w['Tcb'] > 0, w['Tu'] > 0, w['Td'] > 0))(names(v, idx(x), idx(t), m, Z, T, cr, dT, k))
        v.assume(v.forall(m - 1, nzp))
        s, H = ts.wave_height_steepness(_kind, g=g)
        v.ensure('one value per wave', land(s.shape[0] == m - 1, H.shape[0] == m - 1))
        s, H = s.get(k), H.get(k)
        d = DEF[_kind]
        pi = S(PI)
        if d == 0:
            f = q['Tcf'] < q['Tcb']
            ref, h = ite(f, q['Ac'] / q['Tcf'], q['Ac'] / q['Tcb']), ite(f, q['Hd'], q['Hu'])
        else:
            h = q['Hd'] if d > 0 else q['Hu']
            per, half = (q['Td'], q['Tcf']) if d > 0 else (q['Tu'], q['Tcb'])
            ref = {1: q['Ac'] / half, 2: 2 * pi * q['Ac'] / (g * per * half), 3: 2 * pi * h / (g * per * per)}[abs(d)]
        v.ensure('height', H == h)
        v.ensure('steepness', s == ref)
        v.ensure('number instead of name', True)
        i = v.index(n)
        v.ensure('series unchanged', land(x.get(i) == x.f0((i,)), t.get(i) == t.f0((i,))))


@contract('C06', 'turning point objects', [O + ':TimeSeries.turning_points', O + ':TimeSeries.trough_crest'], conc='objects')
def c6(v):
    ts, x, t, n = series(v)
    m = v.int('m', 1)
    a = v.array('a', m, k='i')
    h, lev = v.real('h'), v.real('lev')
    v.assume(v.forall(m, lambda k: land(a.get(k) >= 0, a.get(k) < n)))
    i = v.index(n)

    class Rec(object):
        def __init__(self, data=None, args=None, **kw):
            self.data, self.args = data, args

    def findtp(y, hh=0, kind=None, method='clib'):
        v.ensure('all of the signal', land(y.get(i) == x.get(i), y.shape[0] == n, lift(hh) == vmax(h, 0), kind == 'mw'))
        return a

    def findtc(y, vv=None, kind=None):
        v.ensure('all of the signal', land(y.get(i) == x.get(i), y.shape[0] == n, lift(vv) == lev, kind == 'tw'))
        return a, None
    v.override(O, 'findtp', findtp)
    v.override(O, 'findtc', findtc)
    v.override(O, 'TurningPoints', Rec)
    k = v.index(m)
    for r in (ts.turning_points(h, 'mw'), ts.trough_crest(lev, 'tw')):
        v.ensure('samples and their times', land(r.data.shape[0] == m, r.args.shape[0] == m, r.data.get(k) == idx(x)(a.get(k)), r.args.get(k) == idx(t)(a.get(k))))


for _p in ('d2d', 'u2u', 'd2u', 'u2d'):
    @contract('C06', 'wave_periods ' + _p, [O + ':TimeSeries.wave_periods', O + ':TimeSeries._default_index', O + ':TimeSeries._get_start_index',
                                            O + ':TimeSeries._get_step'], conc='periods', budget=60)
    def c7(v, _p=_p):
        ts, x, t, n = series(v)
        lev = v.real('v')
        G.clear()
        v.note('pdef', _p)
        fc = kernel(v)

        def findcross(y, l=0, kind=None, method='clib'):
            v.ensure('level', land(lift(l) == lev, kind is None))
            i = v.index(n)
            v.ensure('all of the signal', land(y.get(i) == x.get(i), y.shape[0] == n))
            r = fc(y, l, kind)
            # two crossings or more, the first one upwards and its sample strictly below the second's (recorded finding otherwise)
            v.assume(land(r.shape[0] >= 2, G['g'].d0 == 1, idx(x)(idx(r)(0)) <= lev, idx(x)(idx(r)(1)) >= lev))
            return r
        fcr = z3.Function('tcross', z3.IntSort(), z3.RealSort())
        cr = lambda i: S(fcr(lift(i).e))

        def ecross(tt, f, ind, v_=0, **kw):
            l = kw.get('v', v_)
            i = v.index(n)
            v.ensure('crossing times of the signal', land(lift(l) == lev, f.get(i) == x.get(i), tt.get(i) == t.get(i)))
            a = snp.asarray(ind)
            f_ = a.snap()
            return SArr.new(lambda ix: cr(f_(ix)), 'r', a.shape)
        v.override(O, 'findcross', findcross)
        v.override(O, 'ecross', ecross)
        T, ix = ts.wave_periods(lev, _p)
        z, m = idx(G['ind']), G['m']
        v.ensure('crossings', ix.shape[0] == m)
        st, dist = (1 if _p[0] == 'd' else 0), (2 if _p[0] == _p[2] else 1)
        c = vmax(0, (m - dist - st + 1) // 2)
        v.ensure('number of periods', T.shape[0] == c)
        k = v.index(c)
        a, b = z(st + 2 * k), z(st + 2 * k + dist)
        v.ensure('time between the crossings', T.get(k) == cr(b) - cr(a))
        X = idx(x)
        side = lambda q, ch: (X(q + 1) < lev) if ch == 'd' else (X(q + 1) > lev)
        v.ensure('of the requested directions', land(side(a, _p[0]), side(b, _p[2])))
