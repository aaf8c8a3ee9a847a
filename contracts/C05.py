"""C05 cycle pairs: amplitudes, damage, level crossings, cycle matrix"""
from vf.api import *
O = 'wafo.objects'
META = {'assumptions': [
    'level_crossings: that the sum of signs over the sorted extremes up to a level equals the number of minima minus the number of maxima up to that level (reindexing of a finite sum by the sorting permutation) is used without proof',
    'pow(x, beta) is the same real function in damage and in the specification']}


class Rec(object):
    """stands for the data holder classes: keeps data and args as given"""
    def __init__(self, data=None, args=None, **kw):
        self.data, self.args, self.kw = data, args, kw
        self.__dict__.update({k: v for k, v in kw.items() if k not in ('data', 'args')})


def cp(v, n):
    d, a = v.array('data', n), v.array('args', n)
    cls = v.get(O, 'CyclePairs')
    s = cls.__new__(cls)
    s.data, s.args, s.time, s.mean, s.sigma, s.kind = d, a, v.real('time', gt=0), None, None, 'min2max'
    return s, d, a


@contract('C05', 'amplitudes', [O + ':CyclePairs.amplitudes'], conc='pairs')
def c1(v):
    n = v.int('n', 0)
    s, d, a = cp(v, n)
    r = s.amplitudes()
    i = v.index(n)
    v.ensure('length', r.shape[0] == n)
    v.ensure('half the signed distance', 2 * r.get(i) == d.get(i) - a.get(i))
    v.ensure('data unchanged', land(d.get(i) == d.f0((i,)), a.get(i) == a.f0((i,))))


for _nb in (1, 2):
    @contract('C05', 'damage %d' % _nb, [O + ':CyclePairs.damage'], conc='pairs', budget=60)
    def c2(v, _nb=_nb):
        n = v.int('n', 0)
        s, d, a = cp(v, n)
        K = v.real('K')
        b = v.array('beta', _nb)
        r = s.damage(b, K)
        v.ensure('one value per exponent', r.shape[0] == _nb)
        for q in range(_nb):
            bq = b.get(q)
            ref = v.refsum(n, lambda i: vpow(vabs((d.get(i) - a.get(i)) / 2), bq), (1, K))
            v.ensure('damage %d' % q, r.get(q) == K * ref)
        r1 = s.damage(b)
        ref = v.refsum(n, lambda i: vpow(vabs((d.get(i) - a.get(i)) / 2), b.get(0)), (1,))
        v.ensure('material constant is one by default', r1.get(0) == ref)


@contract('C05', 'minima and maxima', [O + ':CyclePairs.get_minima_and_maxima'], conc='pairs')
def c3(v):
    n = v.int('n', 0)
    s, d, a = cp(v, n)
    if bool(v.boolean('up')):
        v.assume(v.forall(n, lambda i: a.get(i) <= d.get(i)))
    else:
        v.assume(v.forall(n, lambda i: a.get(i) > d.get(i)))
    m, M = s.get_minima_and_maxima()
    v.full_selections()
    v.ensure('every pair', land(m.shape[0] == n, M.shape[0] == n))
    i = v.index(n)
    v.ensure('the lower one', m.get(i) == vmin(d.get(i), a.get(i)))
    v.ensure('the higher one', M.get(i) == vmax(d.get(i), a.get(i)))


@contract('C05', 'cycle pairs', [O + ':TurningPoints.cycle_pairs'], conc='tp', budget=60)
def c4(v):
    n = v.int('n', 2)
    x, t = v.array('x', n), v.array('t', n)
    v.assume(v.forall(n - 1, lambda i: x.get(i) != x.get(i + 1)))
    v.assume(v.forall(n - 2, lambda i: iff(x.get(i) < x.get(i + 1), x.get(i + 1) > x.get(i + 2))))
    cls = v.get(O, 'TurningPoints')
    tp = cls.__new__(cls)
    tp.data, tp.args, tp.mean, tp.sigma = x, t, None, None
    v.override(O, 'CyclePairs', Rec)
    for kind in ('min2max', 'max2min'):
        r = tp.cycle_pairs(kind=kind)
        M, m = r.data, r.args
        st = 0 if bool((x.get(0) < x.get(1)) if kind == 'min2max' else (x.get(0) > x.get(1))) else 1
        c = (n - st) // 2
        v.ensure(kind + ' number of cycles', land(M.shape[0] == c, m.shape[0] == c))
        i = v.index(c)
        a, b = x.get(2 * i + st), x.get(2 * i + st + 1)
        v.ensure(kind + ' consecutive turning points', land(m.get(i) == (a if kind == 'min2max' else b), M.get(i) == (b if kind == 'min2max' else a)))
        v.ensure(kind + ' minimum below maximum', implies(land(*[iff(x.get(0) < x.get(1), x.get(2 * i + d) < x.get(2 * i + d + 1)) for d in (0,)]), True))
        v.ensure(kind + ' duration', r.time == t.get(n - 1) - t.get(0))
        v.ensure(kind + ' name', r.kw['kind'] == kind)


def c5(v, ddef):
    n = v.int('n', 0)
    s, d, a = cp(v, n)
    lo, hi = v.real('lo'), v.real('hi')
    v.assume(lo < hi)
    N = v.int('N', 2)
    dl = (hi - lo) / (N - 1)
    u = lambda k: lo + dl * k
    v.assume(v.forall(n, lambda i: land(a.get(i) >= lo, a.get(i) <= hi, d.get(i) >= lo, d.get(i) <= hi)))
    for ddef in (ddef,):
        p, q = s._discretize_cycle_pairs((lo, hi, N), ddef)
        v.ensure('one class pair per cycle', land(p.shape[0] == n, q.shape[0] == n))
        i = v.index(n)
        pi, qi, x, y = p.get(i), q.get(i), a.get(i), d.get(i)
        v.ensure('classes of the matrix', land(pi >= 0, pi <= N - 1, qi >= 0, qi <= N - 1))
        X, Y = (x - lo) / dl, (y - lo) / dl
        mn, mx = (lambda k, X: lor(land(k <= X, X < k + 1), land(k == N - 2, X >= N - 2))), (lambda k, X: lor(land(k >= X, X > k - 1), land(k == 1, X <= 1)))
        down = bool(x > y)
        if ddef == 1:
            goal = land(mx(pi, X), mn(qi, Y)) if down else land(mn(pi, X), mx(qi, Y))
        elif ddef == -1:
            goal = land(mn(pi, X), mx(qi, Y)) if down else land(mx(pi, X), mn(qi, Y))
        else:
            goal = land(vabs(X - pi) <= Q(1, 2), vabs(Y - qi) <= Q(1, 2))
        v.ensure_gen({1: 'trough down, peak up', -1: 'trough up, peak down', 0: 'nearest'}[ddef], goal, [(x > y, down)], [X, Y],
                     lambda X, Y: land(N >= 2, X >= 0, X <= N - 1, Y >= 0, Y <= N - 1))
        v.ensure('pairs unchanged', land(d.get(i) == d.f0((i,)), a.get(i) == a.f0((i,))))



for _d in (1, 0, -1):
    @contract('C05', 'cycle matrix classes %d' % _d, [O + ':CyclePairs._discretize_cycle_pairs'], conc='cmat', budget=120)
    def c5d(v, _d=_d):
        c5(v, _d)


def cm_inv(L):
    c = G['cnt']
    k = L._k
    return [('size', land(L.F.shape[0] == G['N'], L.F.shape[1] == G['N'])),
            ('the matrix counts the pairs so far', Forall(2, lambda i, j: implies(
                land(i >= 0, i < G['N'], j >= 0, j < G['N']),
                implies(implies(lift(k) < G['n'], c(lift(k) + 1, i, j) == c(k, i, j) + ite(land(G['p'](k) == i, G['q'](k) == j), 1, 0)), L.F.get(i, j) == c(k, i, j)))))]


G = {}


@contract('C05', 'cycle matrix counts', [O + ':CyclePairs._dcp2cmat'], conc='cmat', native=True, loops={('_dcp2cmat', 0): LoopSpec(cm_inv, names=('F',))})
def c6(v):
    n, N = v.int('n', 0), v.int('N', 1)
    s, d, a = cp(v, n)
    p, q = v.array('p', n, k='i'), v.array('q', n, k='i')
    v.assume(v.forall(n, lambda i: land(p.get(i) >= 0, p.get(i) < N, q.get(i) >= 0, q.get(i) < N)))
    I = z3.IntSort()
    f = z3.Function('pairs', I, I, I, I)
    c = lambda k, i, j: S(f(lift(k).e, lift(i).e, lift(j).e))
    G.clear()
    G.update(cnt=c, N=N, n=n, p=lambda k: p.get(snp.sx(lift(k))), q=lambda k: q.get(snp.sx(lift(k))))
    # pairs(k, i, j): how many of the first k pairs are (i, j)
    v.assume(Forall(2, lambda i, j: c(0, i, j) == 0))
    v.assume(Forall(3, lambda k, i, j: implies(land(k >= 0, k < n), c(k + 1, i, j) == c(k, i, j) + ite(land(p.get(k) == i, q.get(k) == j), 1, 0))))
    F = s._dcp2cmat((p, q), N)
    i, j = v.index(N), v.index(N)
    v.ensure('number of pairs of the class', F.get(i, j) == c(n, i, j))


# ---- level crossings ---------------------------------------------------------
def lc_inv(L):
    """E: sorted values, g: group (distinct level) of a sorted position, en(l): end of group l, PS[r]: running sums of row r"""
    J, ii, x, n = lift(L._k) + 1, L.ii, L.extr, L.n
    E, g, en, PS, use = G['E'], G['g'], G['en'], G['PS'], G['use']
    H = True
    for t in (use(J), use(J - 1), G['useg'](ii), G['useg'](ii - 1)):
        G['v'].assume(t)                 # instances of the definitions
    f = [('position', land(lift(n) >= 1, x.shape[1] == n, lift(L._k) >= 0, J <= n)),
         ('sorted', Forall(1, lambda j: implies(land(j >= 0, j < n), land(*[L.extremes.get(r, j) == G['R'][r](j) for r in range(4)])))),
         ('group', implies(True, land(lift(ii) >= 0, lift(ii) < J, ii == g(J - 1), x.get(0, ii) == E(J - 1)))),
         ('finished levels', Forall(1, lambda l: implies(land(l >= 0, l < ii), land(
             x.get(0, l) == E(en(l) - 1), *[x.get(r, l) == PS[r](en(l)) - PS[r](en(l - 1)) for r in (1, 2, 3)])))),
         ('open level', implies(True, land(*[x.get(r, ii) == PS[r](J) - PS[r](en(ii - 1)) for r in (1, 2, 3)])))]
    return f


def lc(v, kind):
    n = v.int('n', 1)
    s, d, a = cp(v, n)
    m, M = v.array('m', n), v.array('M', n)
    v.assume(v.forall(n, lambda i: m.get(i) < M.get(i)))
    s.get_minima_and_maxima = lambda: (m, M)
    v.override(O, 'LevelCrossings', Rec)
    I, R = z3.IntSort(), z3.RealSort()
    fn = lambda nm, srt: (lambda h: (lambda k: S(h(lift(k).e))))(z3.Function(nm, I, srt))
    g, en, PS = fn('grp', I), fn('endgrp', I), [None] + [fn('PS%d' % r, R) for r in (1, 2, 3)]
    pf = lambda j: v.p.perms[0][0](j)
    ext = [lambda i: ite(i < n, M.get(i), m.get(i - n)), lambda i: ite(i < n, -1, 1), lambda i: ite(i < n, 1, 0), lambda i: ite(i < n, 0, 1)]
    Rr = [lambda j, e=e: e(pf(j)) for e in ext]
    E = Rr[0]
    N = 2 * n
    # definitions: running sums of the rows, number of the distinct level of a sorted position, end of the run of equal values
    use = lambda j: land(implies(land(lift(j) >= 0, lift(j) < N), land(*[PS[r](lift(j) + 1) == PS[r](j) + Rr[r](j) for r in (1, 2, 3)])),
                         implies(land(lift(j) >= 1, lift(j) < N), land(
                             g(j) == g(lift(j) - 1) + ite(E(j) == E(lift(j) - 1), 0, 1), implies(E(j) != E(lift(j) - 1), en(g(lift(j) - 1)) == j))))
    useg = lambda l: implies(land(lift(l) >= 0, lift(l) <= g(N - 1)), land(
        en(l) >= 1, en(l) <= N, en(lift(l) - 1) < en(l), g(en(l) - 1) == l, E(en(lift(l) - 1)) == E(en(l) - 1), implies(en(l) < N, E(en(l)) != E(en(l) - 1))))
    G.clear()
    G.update(v=v, E=E, g=g, en=en, PS=PS, use=use, useg=useg, R=Rr, N=N)
    v.assume(land(g(0) == 0, en(-1) == 0, *[PS[r](0) == 0 for r in (1, 2, 3)]))
    v.assume(en(g(N - 1)) == N)
    r = s.level_crossings(kind)
    v.assume(Forall(1, use))
    v.assume(Forall(1, useg))
    nx = g(N - 1) + 1
    cnt, u = r.data, r.args
    v.ensure('one count per distinct level', land(cnt.shape[0] == nx, u.shape[0] == nx))
    v.induct('signs', 0, N + 1, lambda j: land(PS[1](j) == PS[3](j) - PS[2](j)))
    for tot, k, ff, P in getattr(v.p, 'sums', []):
        v.induct('running count', 1, nx + 1, lambda l: P(l) == PS[1](en(l - 1)))
    l = v.index(nx)
    st, e = en(l - 1), en(l)
    j = v.index(N)
    e2 = en(l + 1)
    for q in (useg(l), useg(l - 1), useg(l + 1)):
        v.assume(q)
    srt = lambda i, j: v.ensure('sorted', implies(land(lift(i) >= 0, lift(i) < j, lift(j) < N), E(i) <= E(j)))
    v.ensure('signs of the run', land(PS[1](e) == PS[3](e) - PS[2](e), PS[1](st) == PS[3](st) - PS[2](st)))
    for tot, k, ff, P in getattr(v.p, 'sums', []):
        v.ensure('running count here', P(l + 1) == PS[1](e))
    v.ensure('levels are extremes', u.get(l) == E(e - 1))
    v.ensure('next level', implies(l + 1 < nx, u.get(l + 1) == E(e2 - 1)))
    srt(e - 1, e), srt(e, e2 - 1), srt(st - 1, st), srt(st, e - 1)
    v.ensure('levels ascend', implies(l + 1 < nx, u.get(l) < u.get(l + 1)))
    srt(j, e - 1), srt(e, j), srt(j, st - 1), srt(st, j)
    v.ensure('the run starts after a smaller value', implies(st >= 1, E(st - 1) < E(st)))
    v.ensure('one value per run', E(st) == E(e - 1))
    v.ensure('extremes up to the level', iff(j < e, E(j) <= u.get(l)))
    v.ensure('extremes below the level', iff(j < st, E(j) < u.get(l)))
    mn, mx = PS[3], PS[2]
    if kind == 1:
        v.ensure('minima below minus maxima up to the level', cnt.get(l) == mn(st) - mx(e))
    elif kind == 2:
        v.ensure('minima below minus maxima below the level', cnt.get(l) == mn(st) - mx(st))
    elif kind == 3:
        v.ensure('minima up to minus maxima below the level', cnt.get(l) == mn(e) - mx(st))
    else:
        v.ensure('minima up to minus maxima up to the level', implies(lor(l < nx - 1), cnt.get(l) == mn(e) - mx(e)))
        v.ensure('the highest level repeats the one before', implies(land(nx >= 2, l == nx - 1), cnt.get(l) == cnt.get(l - 1)))


for _k in (1, 2, 3, 4):
    @contract('C05', 'level crossings %d' % _k, [O + ':CyclePairs.level_crossings'], conc='lc', budget=200,
              loops={('level_crossings', 0): LoopSpec(lc_inv, names=('ii', 'extr', 'extremes', 'n'))})
    def c7(v, _k=_k):
        lc(v, _k)
