"""ghost definition of level crossings shared by several properties"""
from vf.api import *


def sgn(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


class Ghost(object):
    """side(i): sign of the last sample at or before i that is off the level (0: none);
    cross(i): sample i+1 is strictly on the other side than all samples up to i; cnt(i): crossings before i;
    d0: direction of the first crossing"""

    def __init__(self, v, y, n, lev, tag=''):
        I = z3.IntSort()
        self.fs, self.fc = z3.Function('side' + tag, I, I), z3.Function('cnt' + tag, I, I)
        self.y, self.n, self.lev = y, n, lev
        self.d0 = S(z3.Int('d0' + tag))
        v.assume(lor(self.d0 == 1, self.d0 == -1))
        v.assume(self.side(0) == self.sg(0))
        v.assume(implies(self.side(0) != 0, self.d0 == -self.side(0)))
        v.assume(self.cnt(0) == 0)
        v.assume(Forall(1, lambda i: implies(land(lift(i) >= 0, lift(i) < n - 1), land(
            self.side(i + 1) == ite(self.sg(i + 1) != 0, self.sg(i + 1), self.side(i)),
            self.cnt(i + 1) == self.cnt(i) + ite(self.cross(i), 1, 0),
            implies(land(self.side(i) == 0, self.sg(i + 1) != 0), self.sg(i + 1) == self.d0)))))

        # consequence of the definition (i = 0 and i > 0)
        v.assume(Forall(1, lambda i: implies(land(lift(i) >= 0, lift(i) < n), lor(self.sg(i) == 0, self.sg(i) == self.side(i)))))

    def sg(self, i):
        return sgn(self.y(i) - self.lev)

    def side(self, i):
        return S(self.fs(lift(i).e))

    def cnt(self, i):
        return S(self.fc(lift(i).e))

    def cross(self, i):
        return land(self.sg(i + 1) != 0, self.sg(i + 1) != self.side(i))

    def facts(self, ind, m, p):
        """what the first m entries of ind say about the crossings before p"""
        return [
            ('the number of entries is the number of crossings so far', land(m == self.cnt(p), m >= 0, lift(m) <= p)),
            ('every entry is a crossing, in order', Forall(1, lambda k: implies(
                land(lift(k) >= 0, lift(k) < m),
                land(ind(k) >= 0, ind(k) < p, self.cross(ind(k)), self.cnt(ind(k)) == k)))),
            ('entries increase', Forall(1, lambda k: implies(land(lift(k) >= 0, lift(k) + 1 < m), ind(k) < ind(k + 1)))),
            ('every crossing is an entry', Forall(1, lambda c: implies(
                land(lift(c) >= 0, lift(c) < p, self.cross(c)),
                land(self.cnt(c) >= 0, self.cnt(c) < m, ind(self.cnt(c)) == c)))),
            ('directions alternate', Forall(1, lambda k: implies(
                land(lift(k) >= 0, lift(k) < m), self.sg(ind(k) + 1) == ite(lift(k) % 2 == 0, self.d0, -self.d0)))),
        ]


def loops(G, nxt0, nxt1, fn):
    """invariants of the two loops of the crossing automaton; G() is the ghost of the current path"""
    def inv0(L):
        g, p = G(), nxt0(L)
        return [('first loop', land(lift(p) >= 1, lift(p) <= vmax(g.n, 1), L.ix == 0, L.dcross == 0, L.start == p - 1)),
                ('on the level so far', Forall(1, lambda j: implies(land(lift(j) >= 0, lift(j) < p), g.y(j) == g.lev))),
                ('ghost', land(g.side(p - 1) == 0, g.cnt(p - 1) == 0))]

    def inv1(L):
        g, p = G(), nxt1(L)
        ind = lambda k: at(L.ind, k)
        return [('position', land(lift(p) >= L.start, lift(p) >= 0, lor(lift(p) <= g.n - 1, p == L.start), lift(p) <= g.n - 1)),
                ('state', land(L.dcross == g.side(p), lor(L.dcross == 0, L.dcross == ite(lift(L.ix) % 2 == 1, g.d0, -g.d0)),
                               implies(L.dcross == 0, land(L.ix == 0, lift(p) >= g.n - 1))))] + \
            [(n, f) for n, f in g.facts(ind, L.ix, p)] + \
            [('last entry', implies(L.ix > 0, lift(p) > 0))]
    return {(fn, 0): LoopSpec(inv0, dec=lambda L: G().n - nxt0(L), names=('ix', 'dcross', 'start')),
            (fn, 1): LoopSpec(inv1, dec=lambda L: G().n - nxt1(L), names=('ix', 'dcross', 'start', 'ind'))}
