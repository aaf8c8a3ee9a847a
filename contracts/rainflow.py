"""ghost definition of rainflow cycles (Rychlik): the maximum 2i+1 is paired with the higher of the lowest minima reached
before the signal exceeds it, going back and going forward; going forward must meet a maximum at least as high"""
from vf.api import *


class Rfc(object):
    def __init__(self, v, y, n, h, tag=''):
        """y(k): turning points, y(0) a minimum; n of them"""
        I = z3.IntSort()
        self.y, self.n, self.h = y, n, h
        self.NC = lift(n) // 2
        for nm in ('lm', 'ia', 'r', 'ib', 'cnt', 'own'):
            f = z3.Function(nm + tag, I, I)
            setattr(self, nm, lambda i, f=f: S(f(lift(i).e)))
        M, m, NC = self.M, self.m, self.NC
        lm, ia, r, ib = self.lm, self.ia, self.r, self.ib
        rng = lambda i: land(lift(i) >= 0, lift(i) < NC)
        v.assume(self.cnt(0) == 0)
        self.v = v
        self.ax1 = lambda i: implies(rng(i), land(
            lm(i) >= -1, lm(i) < i, implies(lm(i) >= 0, M(lm(i)) > M(i)), ia(i) > lm(i), ia(i) <= i,
            r(i) > i, r(i) <= NC, implies(r(i) < NC, land(M(r(i)) >= M(i), ib(i) > i, ib(i) <= r(i))),
            self.cnt(i + 1) == self.cnt(i) + ite(self.keep(i), 1, 0), self.cnt(i) >= 0, self.cnt(i) <= i,
            implies(self.keep(i), self.own(self.cnt(i)) == i)))
        self.ax2 = lambda i, j: implies(land(rng(i), lift(j) >= 0, lift(j) < NC), land(
            implies(land(lift(j) > lm(i), lift(j) < i), M(j) <= M(i)),
            implies(land(lift(j) > lm(i), lift(j) <= i), m(ia(i)) <= m(j)),
            implies(land(lift(j) > ia(i), lift(j) <= i), m(ia(i)) < m(j)),
            implies(land(lift(j) > i, lift(j) < r(i)), M(j) < M(i)),
            implies(land(r(i) < NC, lift(j) > i, lift(j) <= r(i)), m(ib(i)) <= m(j)),
            implies(land(r(i) < NC, lift(j) > ib(i), lift(j) <= r(i)), m(ib(i)) < m(j))))
        v.assume(Forall(1, self.ax1))
        v.assume(Forall(2, self.ax2))

    def use(self, i, *js):
        """instances of the definition"""
        i = lift(i)
        self.v.assume(self.ax1(i))
        for j in js:
            self.v.assume(self.ax2(i, lift(j)))

    def M(self, i):
        return self.y(2 * lift(i) + 1)

    def m(self, i):
        return self.y(2 * lift(i))

    def right(self, i):
        return land(self.r(i) < self.NC, self.m(self.ib(i)) > self.m(self.ia(i)))

    def low(self, i):
        """position of the minimum the maximum i is paired with"""
        return ite(self.right(i), 2 * self.ib(i), 2 * self.ia(i))

    def keep(self, i):
        return self.M(i) - ite(self.right(i), self.m(self.ib(i)), self.m(self.ia(i))) >= self.h

    def first(self, i):
        return ite(self.right(i), 2 * lift(i) + 1, 2 * self.ia(i))

    def second(self, i):
        return ite(self.right(i), 2 * self.ib(i), 2 * lift(i) + 1)

    def facts(self, ind, size, p, ts=0):
        """what the entries say about the maxima before p"""
        owner = self.own
        return [
            ('two entries per kept cycle', land(size == 2 * self.cnt(p), lift(size) >= 0, lift(size) <= 2 * lift(p))),
            ('every kept cycle is listed, in order', Forall(1, lambda q: implies(
                land(lift(q) >= 0, lift(q) < p, self.keep(q)),
                land(2 * self.cnt(q) + 1 < size, self.cnt(q) >= 0, ind(2 * self.cnt(q)) == ts + self.first(q),
                     ind(2 * self.cnt(q) + 1) == ts + self.second(q))))),
            ('every entry belongs to a kept cycle', Forall(1, lambda c: implies(
                land(lift(c) >= 0, 2 * lift(c) + 1 < size),
                land(owner(c) >= 0, owner(c) < p, self.keep(owner(c)), self.cnt(owner(c)) == c,
                     ind(2 * c) == ts + self.first(owner(c)), ind(2 * c + 1) == ts + self.second(owner(c)))))),
            ]


def loops(G, fn, c):
    ii = (lambda L: L.i) if c else (lambda L: L._k)
    ts = lambda L: G()['ts']

    def inv0(L):
        g = G()['g']
        i = lift(ii(L))
        g.use(i)
        g.use(i - 1, i)
        return [('position', land(lift(ii(L)) >= 0, lift(ii(L)) <= g.NC))] + g.facts(lambda k: at(L.ind, k), L.ix, ii(L), ts(L))

    def inv1(L):
        g = G()['g']
        i, j = L.i, L.j
        g.use(i, j, lift(j) + 1, i)
        return [('search back', land(lift(i) >= 0, i < g.NC, lift(j) >= g.lm(i), lift(j) < i, lift(j) >= -1)),
                ('lowest so far', ite(lift(j) < g.ia(i), land(L.xminus == g.m(g.ia(i)), L.Tmi == ts(L) + 2 * g.ia(i)), L.xminus > g.m(g.ia(i))))]

    def inv2(L):
        g = G()['g']
        i, j = L.i, L.j
        g.use(i, j, lift(j) + 1, lift(i) + 1)
        return [('search forward', land(lift(i) >= 0, i < g.NC, lift(j) > i, lift(j) <= g.r(i))),
                ('lowest so far', implies(g.r(i) < g.NC, ite(g.ib(i) <= j, land(L.xplus == g.m(g.ib(i)), L.Tpl == ts(L) + 2 * g.ib(i)),
                                                           L.xplus >= g.m(g.ib(i)))))]
    nc = lambda: G()['g'].NC
    return {(fn, 0): LoopSpec(inv0, dec=(lambda L: nc() - L.i) if c else None, names=('ix', 'ind')),
            (fn, 1): LoopSpec(inv1, dec=lambda L: L.j + 1, names=('j', 'xminus', 'Tmi')),
            (fn, 2): LoopSpec(inv2, dec=lambda L: nc() - L.j, names=('j', 'xplus', 'Tpl'))}
