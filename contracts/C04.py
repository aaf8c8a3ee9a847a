"""C04 ASTM rainflow counting"""
from vf.api import *
from vf import cfront

META = {'assumptions': ['bounded (harness inputs, up to 40 points): the largest amplitude is half the total range, and row-by-row equality of the C and numba tables; each table satisfies the same contract by proof']}
P = cfront.Ptr
G = {}


def loops(fn, c, cols):
    """In(x): an arbitrary predicate that holds for every value of the sequence (so: the ends of a counted range are values of it)"""
    cnt1 = (lambda L: L.cNr1) if c else (lambda L: L.c_nr1)
    ii = (lambda L: L.index) if c else (lambda L: L._k)
    A = lambda L: (lambda k: at(L.a, k))
    T = lambda L: (lambda k: at(L.t, k))

    def row(L):
        if c:
            return lambda p, q: L.po.arr.get(snp.sx(cols * lift(p) + q))
        return lambda p, q: L.array_out.get(p, q)

    def rows(L):
        return lift(L.po.off) // cols if c else L.po

    def table(L, upto):
        full = lift(cnt1(L)) - 1
        o, In, Tm = row(L), G['In'], G['Tm']
        F, CS = G['F'], G['CS']
        inst = land(*[CS(upto + d + 1) == CS(upto + d) + F(upto + d) for d in (-1, 0)])
        f = [('the counts add up', implies(land(CS(0) == 0, inst, same(lambda p: o(p, 2), upto)),
                                           2 * CS(upto) == upto + full)),
             ('rows', land(upto >= 0, L.po.off == cols * upto if c else True)),
             ('every counted range joins two values of the sequence', Forall(1, lambda p: implies(
                 land(lift(p) >= 0, lift(p) < upto),
                 land(o(p, 0) > 0, In(o(p, 1) + o(p, 0)), In(o(p, 1) - o(p, 0)), lor(o(p, 2) == Q(1, 2), o(p, 2) == 1)))))]
        if cols == 5:
            f.append(('every counted range starts and ends at times of the sequence', Forall(1, lambda p: implies(
                land(lift(p) >= 0, lift(p) < upto), land(Tm(o(p, 3)), Tm(o(p, 3) + o(p, 4) / 2))))))
        return f

    def stack(L, j, i):
        a, t, x = A(L), T(L), G['x']
        f = [('the last value is on top', implies(lift(j) >= 0, land(lift(j) < G['n'], a(j) == x(lift(i) - 1)))),
             ('values waiting are values of the sequence', Forall(1, lambda k: implies(
                 land(lift(k) >= 0, lift(k) <= j), land(G['In'](a(k)), G['Tm'](t(k)) if cols == 5 else True)))),
             ('values waiting alternate', Forall(1, lambda k: implies(
                 land(lift(k) >= 1, lift(k) < j), lor(land(a(k) > a(k - 1), a(k) > a(k + 1)), land(a(k) < a(k - 1), a(k) < a(k + 1)))))),
             ('the last range has the last direction', implies(lift(j) >= 1, land(
                 iff(a(j) > a(j - 1), x(lift(i) - 1) > x(lift(i) - 2)), iff(a(j) < a(j - 1), x(lift(i) - 1) < x(lift(i) - 2))))),
             ('the range before it is not empty', implies(lift(j) >= 2, land(a(j - 1) != a(j - 2), implies(lift(j) >= 3, a(j - 2) != a(j - 3)))))]
        return f

    def decreasing(L, upto):
        a = A(L)
        return ('ranges waiting decrease', Forall(1, lambda k: implies(
            land(lift(k) >= 1, lift(k) < upto), vabs(a(k) - a(k - 1)) > vabs(a(k + 1) - a(k)))))

    def inv0(L):
        i = ii(L)
        f = [('position', land(lift(i) >= 0, lift(i) <= G['n'], L.j >= -1, ite(lift(i) == 0, L.j == -1, lift(L.j) >= 0), implies(lift(i) >= 2, lift(L.j) >= 1))),
             ('every value is counted once or waits', land(cnt1(L) >= 1, lift(cnt1(L)) - 1 + rows(L) + L.j + 1 == i))]
        f += table(L, rows(L)) + stack(L, L.j, i) + [decreasing(L, L.j)]
        if c:
            f.append(('input pointer', land(L.pr.off == i, L.pt.off == i if cols == 5 else True)))
        return f

    def inv1(L):
        i = (L.index if c else L.i) + 1
        return [('position', land(lift(i) >= 1, lift(i) <= G['n'], lift(L.j) >= 0, implies(lift(i) >= 2, lift(L.j) >= 1))),
                ('every value is counted once or waits', land(cnt1(L) >= 1, lift(cnt1(L)) - 1 + rows(L) + L.j + 1 == i))] + \
            table(L, rows(L)) + stack(L, L.j, i) + [decreasing(L, L.j - 1)]

    def inv2(L):
        i = ii(L)
        return [('position', land(lift(i) >= 0, lor(lift(i) <= L.j, lift(i) == 0), L.j >= -1, L.j < G['n'], implies(G['n'] > 0, L.j >= 0))),
                ('every range is counted once', implies(L.j >= 0, lift(cnt1(L)) - 1 + rows(L) + L.j - i + 1 == G['n']))] + \
            table(L, rows(L)) + [s for s in stack(L, L.j, G['n'])[1:3]]
    return {(fn, 0): LoopSpec(inv0, dec=(lambda L: G['n'] - L.index) if c else None, names=('j', 'po', 'a')),
            (fn, 1): LoopSpec(inv1, dec=lambda L: L.j, names=('j', 'po', 'a')),
            (fn, 2): LoopSpec(inv2, dec=(lambda L: L.j - L.index) if c else None, names=('j', 'po', 'a'))}


def same(col, upto):
    """the column is F on [0, upto)"""
    p = z3.Int('pq')
    f = G['F'](S(p))
    return S(z3.ForAll([p], implies(land(S(p) >= 0, S(p) < upto), col(S(p)) == f).e, patterns=[f.e]))


def setup(v):
    n = v.int('n', 0)
    x, t = v.array('x', n), v.array('t', n)
    In = z3.Function('In', z3.RealSort(), z3.BoolSort())
    Tm = z3.Function('Tm', z3.RealSort(), z3.BoolSort())
    F, CS = z3.Function('Fcount', z3.IntSort(), z3.RealSort()), z3.Function('SumCount', z3.IntSort(), z3.RealSort())
    G.clear()
    # prophecy of the count column and its prefix sums: whatever the final column F is, SumCount is its running sum
    G.update(F=lambda k: S(F(lift(k).e)), CS=lambda k: S(CS(lift(k).e)))
    v.assume(G['CS'](0) == 0)
    v.assume(Forall(1, lambda k: G['CS'](lift(k) + 1) == G['CS'](k) + G['F'](k)))
    G.update(n=n, x=lambda k: x.f0((snp.sx(lift(k)),)), In=lambda r: S(In(core.z3real(r))), Tm=lambda r: S(Tm(core.z3real(r))))
    v.assume(v.forall(n, lambda i: land(G['In'](x.get(i)), G['Tm'](t.get(i)))))
    v.assume(v.forall(n - 1, lambda i: x.get(i) != x.get(i + 1)))
    v.assume(v.forall(n - 2, lambda i: iff(x.get(i) < x.get(i + 1), x.get(i + 1) > x.get(i + 2))))
    return n, x, t


def post(v, n, o, size, cols, cnr):
    """the returned table: size rows"""
    In, Tm = G['In'], G['Tm']
    v.ensure('rows: every range counted once (a full cycle counts two)', lift(size) + (cnr - 1) == n - 1 if n > 0 else lift(size) == 0)
    v.ensure('the counts add up to half the number of ranges', implies(same(lambda p: o(p, 2), size), 2 * G['CS'](size) == n - 1 if n > 0 else True))
    p = v.index(size)
    v.ensure('counts are half or full', lor(o(p, 2) == Q(1, 2), o(p, 2) == 1))
    v.ensure('ends of the range are values of the sequence', land(o(p, 0) > 0, In(o(p, 1) + o(p, 0)), In(o(p, 1) - o(p, 0))))
    if cols == 5:
        v.ensure('times of the sequence', land(Tm(o(p, 3)), Tm(o(p, 3) + o(p, 4) / 2)))


for _c in (3, 5):
    @contract('C04', 'C table %d' % _c, ['c_functions.c:findrfc%d_astm' % _c], conc='astm', native=True, budget=200,
              loops=loops('findrfc%d_astm' % _c, True, _c))
    def c_c(v, _c=_c):
        n, x, t = setup(v)
        out, nout = v.array('out0', _c * n), v.array('nout0', 2, k='i')
        cfront.cfile().get('findrfc%d_astm' % _c)(*([P(x)] + ([P(t)] if _c == 5 else []) + [P(out), n, P(nout)]))
        heap = [m for m in v.p.__dict__.get('malloc', []) if bool(m)]
        if heap:
            return                      # out of memory: nothing is counted
        size = n - nout.get(0) if n > 0 else 0
        post(v, n, lambda p, q: out.get(snp.sx(_c * lift(p) + q)), size, _c, nout.get(0))
        i = v.index(n)
        v.ensure('input unchanged', land(x.get(i) == x.f0((i,)), t.get(i) == t.f0((i,))))

    @contract('C04', 'numba table %d' % _c, ['wafo._misc_numba:_findrfc%d_astm' % _c, 'wafo._misc_numba:findrfc_astm'], conc='astm', native=True,
              budget=200, loops=loops('_findrfc%d_astm' % _c, False, _c))
    def c_n(v, _c=_c):
        n, x, t = setup(v)
        r = v.call('wafo._misc_numba', 'findrfc_astm', x, *([t] if _c == 5 else []))
        v.ensure('columns', r.shape[1] == _c)
        size = r.shape[0]
        p = v.index(size)
        In, Tm = G['In'], G['Tm']
        o = lambda p, q: r.get(p, q)
        v.ensure('the counts add up to half the number of ranges', implies(same(lambda p: o(p, 2), size), 2 * G['CS'](size) == n - 1 if n > 0 else True))
        v.ensure('counts are half or full', lor(o(p, 2) == Q(1, 2), o(p, 2) == 1))
        v.ensure('ends of the range are values of the sequence', land(o(p, 0) > 0, In(o(p, 1) + o(p, 0)), In(o(p, 1) - o(p, 0))))
        if _c == 5:
            v.ensure('times of the sequence', land(Tm(o(p, 3)), Tm(o(p, 3) + o(p, 4) / 2)))
        i = v.index(n)
        v.ensure('input unchanged', land(x.get(i) == x.f0((i,)), t.get(i) == t.f0((i,))))
