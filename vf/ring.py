"""Equational back end.

An equality between terms of the exp-log-trig field is decided by a normal form:
quotients of Laurent polynomials with rational exponents over atoms.  exp, log, pow,
sqrt, sinh, cosh and tanh are expanded with their field identities; sin(x)^2 is
replaced by 1-cos(x)^2.  Every division adds the side obligation that the divisor is
non-zero, every root/log the obligation that its argument is positive; the side
obligations are discharged by z3 under the path condition."""
from fractions import Fraction
import z3

LIMIT = 4000
ONE = {(): Fraction(1)}


class TooBig(Exception):
    pass


class NoRing(Exception):
    pass


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    if len(r) > LIMIT:
        raise TooBig
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, k in b:
        k2 = d.get(v, 0) + k
        if k2:
            d[v] = k2
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def minv(a, q=-1):
    return tuple((v, k * q) for v, k in a)


class Norm(object):
    def __init__(self):
        self.ids = {}
        self.info = []           # atom -> dict(kind, ...)
        self.memo = {}
        self.keep = []
        self.nonzero = []        # z3 terms that must be non-zero
        self.positive = []       # z3 terms that must be > 0
        self.rules = {}          # atom -> poly for atom**2

    # -- atoms ------------------------------------------------------------------
    def new(self, key, **kw):
        if key not in self.ids:
            self.ids[key] = len(self.info)
            self.info.append(kw)
        return self.ids[key]

    def atom(self, e):
        self.keep.append(e)
        return self.new(('t', e.get_id()), kind='t', e=e)

    def var(self, a, k=1):
        return {((a, Fraction(k)),): Fraction(1)}

    # -- polynomials ------------------------------------------------------------
    def pmul(self, p, q):
        if len(p) * len(q) > 80000:
            raise TooBig
        r = {}
        red = False
        for m, c in p.items():
            for n, d in q.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
                    if self.rules and any(a in self.rules and e >= self.rules[a][0] for a, e in k):
                        red = True
        if len(r) > LIMIT:
            raise TooBig
        return self.reduce(r) if red else r

    def reduce(self, p):
        for _ in range(60):
            hit = None
            for m in p:
                for a, e in m:
                    if a in self.rules and e >= self.rules[a][0]:
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, a, e = hit
            c = p.pop(m)
            deg, rep = self.rules[a]
            rest = mmul(m, ((a, -Fraction(deg)),))
            p = padd(p, self.pmul({rest: c}, rep))
        return p

    def ppow(self, p, k):
        r = ONE
        for _ in range(k):
            r = self.pmul(r, p)
        return r

    # quotients (n, d)
    def qmul(self, x, y):
        return self.cancel(self.pmul(x[0], y[0]), self.pmul(x[1], y[1]))

    def cancel(self, n, d):
        if not n:
            return {}, ONE
        if len(d) == 1:
            (m, c), = d.items()
            iv = minv(m)
            return {mmul(k, iv): v / c for k, v in n.items()}, ONE
        # proportional?
        if len(n) == len(d):
            it = iter(n.items())
            m0, c0 = next(iter(sorted(n.items())))
            m1, c1 = next(iter(sorted(d.items())))
            sh = mmul(m0, minv(m1))
            f = c0 / c1
            if all(n.get(mmul(k, sh)) == v * f for k, v in d.items()):
                return {sh: f}, ONE
        return n, d

    def qadd(self, x, y, s=1):
        if x[1] == y[1]:
            return self.cancel(padd(x[0], y[0], s), x[1])
        return self.cancel(padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), s), self.pmul(x[1], y[1]))

    def qinv(self, x):
        return self.cancel(x[1], x[0])

    def key(self, q):
        return (tuple(sorted(q[0].items())), tuple(sorted(q[1].items())))

    # -- terms --------------------------------------------------------------------
    def nf(self, e):
        i = e.get_id()
        if i not in self.memo:
            self.memo[i] = self._nf(e)
            self.keep.append(e)
        return self.memo[i]

    def _nf(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): v} if v else {}), ONE
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return ({(): v} if v else {}), ONE
        if not z3.is_app(e):
            raise NoRing
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = self.nf(e.arg(0))
            for j in range(1, e.num_args()):
                r = self.qadd(r, self.nf(e.arg(j)), 1 if k == z3.Z3_OP_ADD else -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.nf(e.arg(0))
            return padd({}, n, -1), d
        if k == z3.Z3_OP_MUL:
            r = self.nf(e.arg(0))
            for j in range(1, e.num_args()):
                r = self.qmul(r, self.nf(e.arg(j)))
            return r
        if k == z3.Z3_OP_DIV:
            x, y = self.nf(e.arg(0)), self.nf(e.arg(1))
            if not y[0]:
                raise NoRing
            if not (len(y[0]) == 1 and () in y[0] and y[1] == ONE):
                self.nonzero.append(e.arg(1))
            return self.qmul(x, self.qinv(y))
        if k == z3.Z3_OP_TO_REAL:
            return self.nf(e.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args():
            nm = e.decl().name()
            if nm in ('exp', 'log', 'pow', 'sqrt', 'sinh', 'cosh', 'tanh', 'sin', 'cos') and z3.is_real(e):
                return self.fun(nm, e)
        return self.var(self.atom(e)), ONE

    def qexp(self, q):
        """exp of a quotient"""
        n, d = q
        if d == ONE:
            out = {(): Fraction(1)}
            mono = ()
            coef = Fraction(1)
            for m, c in n.items():
                if m == ():
                    a = self.new(('exp1',), kind='pos')
                    mono = mmul(mono, ((a, c),))
                    continue
                # exp(c*log(atom)*...) with m == log-atom alone: atom**c
                if len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]]['kind'] == 'log':
                    mono = mmul(mono, self.info[m[0][0]]['arg_pow'](c))
                    continue
                a = self.new(('exp', m), kind='pos', log=m)
                mono = mmul(mono, ((a, c),))
            rest = []
            for a, k in mono:
                if self.info[a]['kind'] == 'num':       # whole powers of numbers are numbers
                    ip = k.numerator // k.denominator
                    coef *= Fraction(self.info[a]['val']) ** ip
                    k -= ip
                if k:
                    rest.append((a, k))
            return {tuple(rest): coef}, ONE
        a = self.new(('expq', self.key(q)), kind='pos', logq=q)
        return self.var(a), ONE

    def qlog(self, q, e):
        """log of a quotient (argument positive)"""
        n, d = q
        if len(n) == 1 and d == ONE:
            (m, c), = n.items()
            if c > 0:
                r = ({}, ONE)
                if c != 1:
                    r = self.qadd(r, self.log_const(c))
                for a, k in m:
                    r = self.qadd(r, self.qmul(({(): k}, ONE), self.log_atom(a)))
                return r
        b = self.base(q)
        return self.log_atom(b)

    def log_const(self, c):
        r = ({}, ONE)
        for pr, k in factor(c):
            a = self.new(('num', pr), kind='num', val=pr)
            r = self.qadd(r, self.qmul(({(): Fraction(k)}, ONE), self.log_atom(a)))
        return r

    def log_atom(self, a):
        inf = self.info[a]
        if inf['kind'] == 'pos' and 'log' in inf:
            return {inf['log']: Fraction(1)}, ONE
        if inf['kind'] == 'pos' and 'logq' in inf:
            return inf['logq']
        if inf['kind'] == 'pos' and self.ids.get(('exp1',)) == a:
            return ONE, ONE
        if inf['kind'] == 't':
            self.positive.append(inf['e'])
        la = self.new(('log', a), kind='log', arg_pow=lambda c, a=a: ((a, Fraction(c)),))
        return self.var(la), ONE

    def base(self, q):
        """atom standing for the positive quantity q (non-monomial)"""
        key = ('base', self.key(q))
        if key not in self.ids:
            a = self.new(key, kind='base', q=q)
            if q[1] == ONE:
                self.rules[a] = (1, q[0])
        return self.ids[key]

    def qpow(self, q, c):
        """q**c, rational c, q > 0 (side condition recorded by the caller)"""
        c = Fraction(c)
        n, d = q
        if c.denominator == 1:
            if c >= 0:
                return self.cancel(self.ppow(n, int(c)), self.ppow(d, int(c)))
            return self.cancel(self.ppow(d, int(-c)), self.ppow(n, int(-c)))
        if len(n) == 1 and d == ONE:
            (m, co), = n.items()
            if co > 0:
                mono = ()
                for a, k in m:
                    if self.info[a]['kind'] == 't':
                        self.positive.append(self.info[a]['e'])
                    mono = mmul(mono, ((a, k * c),))
                coef = Fraction(1)
                for pr, k in factor(co):
                    ek = Fraction(k) * c
                    ip = ek.numerator // ek.denominator
                    coef *= Fraction(pr) ** ip
                    fr = ek - ip
                    if fr:
                        a = self.new(('num', pr), kind='num', val=pr)
                        self.rules[a] = (1, {(): Fraction(pr)})
                        mono = mmul(mono, ((a, fr),))
                return self.reduce({mono: coef}), ONE
        # common monomial content of n and d
        b = self.base(q)
        ip = c.numerator // c.denominator
        fr = c - ip
        r = self.qpow(q, ip)
        return self.qmul(r, ({((b, fr),): Fraction(1)}, ONE))

    def fun(self, nm, e):
        x = e.arg(0)
        if nm == 'exp':
            return self.qexp(self.nf(x))
        if nm == 'log':
            self.positive.append(x)
            return self.qlog(self.nf(x), x)
        if nm == 'sqrt':
            self.positive.append(x)
            return self.qpow(self.nf(x), Fraction(1, 2))
        if nm == 'pow':
            q = self.nf(x)
            b = self.nf(e.arg(1))
            self.positive.append(x)
            if b[1] == ONE and len(b[0]) <= 1 and (not b[0] or () in b[0]):
                return self.qpow(q, b[0].get((), Fraction(0)))
            return self.qexp(self.qmul(b, self.qlog(q, x)))
        if nm in ('sinh', 'cosh', 'tanh'):
            E = self.qexp(self.nf(x))
            I = self.qinv(E)
            s = self.qadd(E, I, -1)
            c = self.qadd(E, I, 1)
            h = ({(): Fraction(1, 2)}, ONE)
            if nm == 'sinh':
                return self.qmul(s, h)
            if nm == 'cosh':
                return self.qmul(c, h)
            return self.qmul(s, self.qinv(c))
        # sin, cos: atoms over the normal form of the argument, odd/even
        q = self.nf(x)
        neg = False
        if q[0]:
            m0 = sorted(q[0].items())[0]
            if m0[1] < 0:
                neg = True
                q = (padd({}, q[0], -1), q[1])
        else:
            return (({}, ONE) if nm == 'sin' else (ONE, ONE))
        kk = self.key(q)
        s = self.new(('sin', kk), kind='trig')
        c = self.new(('cos', kk), kind='trig')
        self.rules[s] = (2, padd(ONE, self.var(c, 2), -1))
        if nm == 'cos':
            return self.var(c), ONE
        return ({((s, Fraction(1)),): Fraction(-1 if neg else 1)}, ONE)


def factor(c):
    out = []
    for v, sgn in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        while v > 1 and p < 2000:
            k = 0
            while v % p == 0:
                v //= p
                k += 1
            if k:
                out.append((p, k * sgn))
            p += 1
        if v > 1:
            out.append((v, sgn))
    return out


def prove_eq(pc, goal, budget=3.0, depth=0, quick=False):
    """goal: conjunction of equalities of reals; True when each follows from the field
    identities and all side conditions are discharged."""
    if z3.is_and(goal):
        return all(prove_eq(pc, g, budget, depth, quick) for g in goal.children())
    if not (z3.is_eq(goal) and (z3.is_real(goal.arg(0)) or z3.is_int(goal.arg(0)))):
        return False
    N = Norm()
    try:
        x, y = N.nf(goal.arg(0)), N.nf(goal.arg(1))
        diff = N.reduce(padd(N.pmul(x[0], y[1]), N.pmul(y[0], x[1]), -1))
        # negative powers of algebraic atoms (non-zero: they were divided by) hide their defining relation
        for _ in range(4):
            low = {}
            for m in diff:
                for at, ex in m:
                    if at in N.rules and ex < 0:
                        low[at] = min(low.get(at, 0), ex)
            if not low:
                break
            for at, ex in low.items():
                diff = N.reduce(N.pmul(diff, N.var(at, -ex)))
    except (TooBig, NoRing, RecursionError, ZeroDivisionError, KeyError):
        return False
    if diff:
        return False
    side = [(d, d != 0) for d in N.nonzero] + [(p, p > 0) for p in N.positive]
    if side:
        from .core import axioms
        seen = set()
        lits = {}
        for f in pc:
            f = z3.simplify(f)
            for g in (f.children() if z3.is_and(f) else [f]):
                h = g.arg(0) if z3.is_not(g) else g
                if z3.is_app(h) and h.num_args() == 2:
                    for t in h.children():
                        if not z3.is_rational_value(t) and not z3.is_int_value(t):
                            lits.setdefault(t.get_id(), []).append(g)
        N.keep.append(lits)
        s = None

        def direct(t, cond):
            """cond follows from the literals about the term t alone"""
            t = z3.simplify(t)
            fs = lits.get(t.get_id())
            if not fs:
                return False
            q = z3.Solver()
            q.set('timeout', 300)
            q.add(*fs)
            q.add(z3.Not(z3.simplify(cond)))
            return q.check() == z3.unsat

        def nonzero(t):
            if z3.is_rational_value(t) or z3.is_int_value(t):
                return t.as_fraction() != 0 if z3.is_rational_value(t) else t.as_long() != 0
            if z3.is_app_of(t, z3.Z3_OP_TO_REAL) or z3.is_app_of(t, z3.Z3_OP_UMINUS):
                return nonzero(t.arg(0))
            if z3.is_mul(t):
                return all(nonzero(x) for x in t.children())
            if z3.is_div(t):
                return nonzero(t.arg(0))       # its divisor has its own obligation
            if direct(t, t != 0):
                return True
            if depth == 0 and any(prove_eq(pc, t == u, budget, 1, True) or prove_eq(pc, t == -u, budget, 1, True) for u in stated()):
                return True
            return by_solver(t, t != 0)

        def stated():
            """terms the path condition states not to vanish (recent ones)"""
            out = []
            for f in reversed(list(pc)):
                f = z3.simplify(f)
                if z3.is_not(f) and z3.is_eq(f.arg(0)) and z3.is_real(f.arg(0).arg(0)):
                    x, y = f.arg(0).children()
                    if not (z3.is_const(x) and z3.is_const(y)):
                        out.append(z3.simplify(x - y))
            return out[:8]

        def positive(t):
            if z3.is_rational_value(t) or z3.is_int_value(t):
                return t.as_fraction() > 0 if z3.is_rational_value(t) else t.as_long() > 0
            if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
                return positive(t.arg(0))
            if direct(t, t > 0) or by_solver(t, t > 0):
                return True
            return depth == 0 and any(prove_eq(pc, t == u, budget, 1, True) for u in strict())

        def strict():
            """terms the path condition states to be positive (recent ones)"""
            out = []
            for f in reversed(list(pc)):
                f = z3.simplify(f)
                for g in (f.children() if z3.is_and(f) else [f]):
                    ng = z3.is_not(g)
                    h = g.arg(0) if ng else g
                    if not (z3.is_app(h) and h.num_args() == 2 and z3.is_real(h.arg(0))):
                        continue
                    x, y = h.children()
                    if z3.is_gt(h) and not ng or z3.is_le(h) and ng:
                        d = x - y
                    elif z3.is_lt(h) and not ng or z3.is_ge(h) and ng:
                        d = y - x
                    else:
                        continue
                    if z3.is_const(x) and (z3.is_const(y) or z3.is_rational_value(y)):
                        continue
                    out.append(d)
            return out[:12]

        def by_solver(t, cond):
            nonlocal s
            if s is None:
                s = z3.Solver()
                s.set('timeout', 300 if quick else 4000)
                s.add(*pc)
                s.add(*axioms(list(pc) + [d for d, _ in side]))
            s.push()
            s.add(z3.Not(cond))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                s.add(cond)
            return r == z3.unsat

        for k, (d, cond) in enumerate(side):
            if cond.get_id() in seen:
                continue
            seen.add(cond.get_id())
            if not (nonzero(d) if k < len(N.nonzero) else positive(d)):
                return False
    return True
