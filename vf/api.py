"""What the contract files use."""
from fractions import Fraction
import z3
from . import core, snp, load
from .core import (S, C, Forall, Unsupported, PathEnd, lift, conc, land, lor, lnot, implies, iff, ite, vdiv, vpow,
                   vsqrt, vabs, vmax, vmin, fn1, PI, tobool, veq)
from .snp import SArr
from .load import LoopSpec

CONTRACTS = {}          # property -> list of contract descriptors
Q = Fraction


class Contract(object):
    def __init__(self, prop, name, functions, fn, opts):
        self.prop, self.name, self.functions, self.fn, self.opts = prop, name, functions, fn, opts


def contract(prop, name, functions, **opts):
    def d(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, functions, fn, opts))
        return fn
    return d


class V(object):
    """verification context handed to a contract (one per path)"""

    def __init__(self, path, eng):
        self.p, self.eng = path, eng

    # -- symbolic inputs -----------------------------------------------------
    def int(self, nm, lo=None, hi=None):
        x = S(z3.Int(nm))
        if lo is not None:
            self.p.assume(x >= lo)
        if hi is not None:
            self.p.assume(x <= hi)
        self.p.inputs[nm] = ('scalar', x.e)
        return x

    def real(self, nm, lo=None, hi=None, gt=None, lt=None, ne=None):
        x = S(z3.Real(nm))
        if lo is not None:
            self.p.assume(x >= lo)
        if hi is not None:
            self.p.assume(x <= hi)
        if gt is not None:
            self.p.assume(x > gt)
        if lt is not None:
            self.p.assume(x < lt)
        if ne is not None:
            self.p.assume(x != ne)
        self.p.inputs[nm] = ('scalar', x.e)
        return x

    def boolean(self, nm):
        x = S(z3.Bool(nm))
        self.p.inputs[nm] = ('scalar', x.e)
        return x

    def array(self, nm, *shape, **kw):
        k = kw.get('k', 'r')
        shape = tuple(snp.sx(s) for s in shape)
        srt = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}
        if k == 'c':
            f = z3.Function(nm + '_re', *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
            g = z3.Function(nm + '_im', *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
            fn = lambda ix: C(S(f(*[lift(i).e for i in ix])), S(g(*[lift(i).e for i in ix])))
        else:
            f = z3.Function(nm, *([z3.IntSort()] * len(shape) + [srt[k]]))
            fn = lambda ix: S(f(*[lift(i).e for i in ix]))
            self.p.inputs[nm] = ('array', fn, shape)
        a = SArr.new(fn, k, shape)
        a.st.nm = nm
        a.f0 = a.snap()
        return a

    def vec(self, nm, n, **kw):
        """concrete-length vector of symbolic values"""
        return self.array(nm, n, **kw)

    def note(self, nm, v):
        self.p.inputs[nm] = ('const', v)

    # -- logic -----------------------------------------------------------------
    def assume(self, f):
        self.p.assume(f)

    def forall(self, n, body):
        """assume-able/ensure-able: for all i in [0,n): body(i)"""
        return Forall(1, lambda i: implies(land(lift(i) >= 0, lift(i) < n), body(i)))

    def forall2(self, n, m, body):
        return Forall(2, lambda i, j: implies(land(lift(i) >= 0, lift(i) < n, lift(j) >= 0, lift(j) < m), body(i, j)))

    def index(self, n, nm='i'):
        """arbitrary index in [0,n)"""
        i = self.p.fresh_int(nm)
        self.p.idx.append(i.e)
        self.p.assume(land(i >= 0, i < n))
        return i

    def ensure(self, name, goal, hints=()):
        self.p.ensure(name, goal, hints)

    def lemma(self, f):
        """trusted mathematical fact (instance)"""
        self.p.assume(f)

    def case(self, c):
        return bool(c)

    def get(self, modname, fname=None):
        m = self.eng.module(modname)
        if fname is None:
            return m
        o = m
        for part in fname.split('.'):
            o = getattr(o, part)
        return o

    def call(self, modname, fname, *a, **k):
        return self.get(modname, fname)(*a, **k)

    def override(self, modname, name, obj):
        """replace a definition by its contract for this path"""
        m = self.eng.find_module(modname)
        m.g.pop(name, None)
        self.eng.overrides[(modname, name)] = obj

    def raises(self, exc, fn, *a, **k):
        """-> True when the call raises exc on this path"""
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def induct(self, name, lo, hi, pred):
        """pred(i) for lo <= i < hi by induction"""
        self.ensure(name + ' (base)', implies(lift(lo) < hi, pred(lo)))
        i = self.p.fresh_int('ind')
        self.p.idx.append(i.e)
        self.ensure(name + ' (step)', implies(land(i >= lo, i + 1 < hi, pred(i)), pred(i + 1)))
        self.p.assume(Forall(1, lambda i: implies(land(lift(i) >= lo, lift(i) < hi), pred(i))))

    def full_selections(self):
        """selections whose mask is provably true everywhere select everything, in order (and nothing when it is
        provably false everywhere)"""
        for k, d in list(self.p.defs.items()):
            if not (isinstance(k, tuple) and k[0] == 'sel'):
                continue
            sel = d[0]
            if getattr(sel, 'is_full', False):
                continue
            if len(sel.shape) == 1 and snp.quick_forall(sel.shape, lambda ix: core.tobool(sel.mask(ix))):
                sel.is_full = True
                self.p.assume(sel.count == sel.shape[0])
                self.p.assume(self.forall(sel.shape[0], lambda i: land(sel.pos(i) == i, sel.rank(i) == i)))
            elif snp.quick_forall(sel.shape, lambda ix: lnot(core.tobool(sel.mask(ix)))):
                self.p.assume(sel.count == 0)

    def refsum(self, n, f, scale=(1,)):
        """the sum of f(i) over [0,n); linked by induction with every sum the code has formed over the same
        range whose terms are provably f(i) times one of the scales"""
        ref = snp.sum_sym(SArr.new(lambda ix: f(ix[0]), 'r', (snp.sx(n),))) if not isinstance(snp.sx(n), int) else \
            snp._sumlist([f(i) for i in range(snp.sx(n))])
        for tot, m, ff, P in list(getattr(self.p, 'sums', [])):
            if tot is ref or not self.p.provable(lift(m) == n):
                continue
            i = self.p.fresh_int('s')
            self.p.idx.append(i.e)
            for c in scale:
                if self.p.provable(implies(land(i >= 0, i < n), ff(i) == c * f(i)), 5):
                    self.p.assume(tot == c * ref)
                    break
        return ref

    def ensure_gen(self, name, goal, known=(), terms=(), facts=None):
        """prove goal by generalisation: conditions settled on this path are replaced by their value, the given
        terms by arbitrary reals satisfying facts(*reals) (proved first for the terms themselves)"""
        if self.p.univ and not self.p.replaying and core.prove(self.p.pc, self.p.univ, self.p.idx, z3.BoolVal(False), 3, ring=False)[0] == 'proved':
            return                       # this path is impossible
        e = lift(goal).e
        for c, d in known:
            self.ensure(name + ' (case)', c if d else lnot(c))
            e = z3.substitute(e, (lift(c).e, z3.BoolVal(d)))
        e = z3.simplify(e)
        new = []
        for t in terms:
            r = self.p.fresh_real('gen')
            new.append(r)
            e = z3.substitute(e, (z3.simplify(lift(t).real().e), r.e))
        if facts is not None:
            self.ensure(name + ' (facts)', facts(*terms))
        p = self.p
        pc, univ = p.pc, p.univ
        p.pc, p.univ = ([lift(facts(*new)).e] if facts is not None else []), []
        try:
            p.ensure(name, S(e), use=False)
        finally:
            p.pc, p.univ = pc, univ

    def located(self, t):
        """the insertion points of t found by the searchsorted calls so far become index terms"""
        for f in self.p.__dict__.get('ssorts', []):
            self.p.idx += [z3.simplify(q.e) for q in (f(t), f(t) - 1, f(t) + 1, f(t) - 2)]

    def ensure_under(self, name, hyp, goal, point=None, near=(), where=None, terms=()):
        """prove hyp -> goal: the conditions inside the goal that hyp settles are replaced by their value first,
        the insertion points of `point` by one of the indices near + 0..3 where hyp says so, and the given terms
        by arbitrary reals"""
        p = self.p
        if p.replaying:
            p.ensure(name, implies(hyp, goal))
            return
        pc, univ, idx = p.pc, p.univ, p.idx
        h = lift(hyp).e
        full = list(pc) + [h]
        subs, known, keep = [], {}, []
        for f in (p.__dict__.get('ssorts', []) if point is not None else []):
            for c in [lift(q) + d for q in near for d in range(4)]:
                if core.prove(list(pc) + [lift(where if where is not None else hyp).e], univ, idx, f(point).e == c.e, 5, ring=False)[0] == 'proved':
                    subs.append((f(point).e, c.e))
                    break

        def settle(e):
            e = z3.simplify(z3.substitute(e, *subs) if subs else e)
            keep.append(e)
            while True:
                conds = [c for c in _conditions(e) if known.get(c.get_id(), 0) is not None]
                if not conds:
                    return e
                c = conds[0]
                keep.append(c)
                if c.get_id() not in known:
                    known[c.get_id()] = None
                    for val in (True, False):
                        g = c if val else z3.Not(c)
                        if (core.prove([h], [], [], g, 1, ring=False) if _has_real(c) else core.prove(full, univ, idx, g, 1.5, ring=False))[0] == 'proved':
                            known[c.get_id()] = val
                            break
                val = known[c.get_id()]
                if val is not None:
                    e = z3.simplify(z3.substitute(e, (c, z3.BoolVal(val))))
                    keep.append(e)
        e = settle(lift(goal).e)
        for t in terms:
            e = z3.substitute(e, (settle(lift(t).real().e), p.fresh_real('gen').e))
        ways = ([([], [], [])] if terms else []) + [([h], [], []), (full, univ, idx)]
        p.pc, p.univ, p.idx = ways[-1]
        try:
            for w in ways[:-1]:
                if core.prove(w[0], w[1], w[2], e, 6)[0] == 'proved':
                    p.pc, p.univ, p.idx = w
                    break
            p.ensure(name, S(e), use=False)
        finally:
            p.pc, p.univ, p.idx = pc, univ, idx
        p.assume(implies(hyp, goal))

    def native(self, on=True):
        self.p.native = 1 if on else 0


def _has_real(e):
    return e.sort() == z3.RealSort() or any(_has_real(c) for c in e.children())


def _conditions(e):
    """conditions of if-then-else terms in e that contain no if-then-else themselves (innermost first)"""
    out, seen = [], {}

    def has(x):
        k = x.get_id()
        if k in seen:
            return seen[k]
        sub = [has(c) for c in x.children()]
        r = any(sub)
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            if not sub[0]:
                out.append(x.arg(0))
            r = True
        seen[k] = r
        return r
    has(e)
    return out


def at(a, *ix):
    """element of array-or-scalar"""
    if type(a).__name__ == 'Ptr':
        return a.arr.get(snp.sx(lift(a.off + ix[0])))
    if isinstance(a, SArr):
        if a.ndim == 0:
            return a.item()
        return a.get(*ix)
    return conc(a)
