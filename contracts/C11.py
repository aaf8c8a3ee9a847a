"""C11 conditional evaluation"""
from vf.api import *
M = 'wafo.misc'
META = {'assumptions': ['the functions handed in act elementwise on their array arguments',
                        'element types: floating point values (casts between integer widths are not modelled)']}


class Fn(object):
    """an arbitrary elementwise function that may only see elements for which its predicate holds"""
    __vf_obj__ = True

    def __init__(self, v, nm, arity, kw=None):
        self.v, self.nm, self.n = v, nm, arity
        self.F, self.P = core.uf(nm, arity), z3.Function('ok_' + nm, *([z3.RealSort()] * arity + [z3.BoolSort()]))
        self.kw, self.seen = kw, 0

    def __call__(self, *args, **kw):
        v = self.v
        v.ensure(self.nm + ': number of arguments', len(args) == self.n)
        if self.kw is not None:
            v.ensure(self.nm + ': keyword arguments', kw == self.kw)
        self.seen += 1
        arrs = [a for a in args if isinstance(a, SArr)]
        sel = arrs[0].sel if arrs else None
        if sel is not None:
            ix = tuple(v.index(d) for d in sel.shape)
            vals = [a.full(ix) if isinstance(a, SArr) else a for a in args]
            v.ensure(self.nm + ': evaluated only where its condition holds',
                     implies(core.tobool(sel.mask(ix)), self.ok(*vals)))
        elif arrs:
            j = v.index(arrs[0].shape[0])
            v.ensure(self.nm + ': evaluated only where its condition holds', self.ok(*[a.get(j) if isinstance(a, SArr) else a for a in args]))
        return snp.ew(lambda *q: self.at(*q), *args)

    def ok(self, *q):
        return S(self.P(*[lift(x).real().e for x in q]))

    def at(self, *q):
        return S(self.F(*[lift(x).real().e for x in q]))


def setup(v, shape):
    """arrays x, y broadcasting to the shape, and an element index"""
    if len(shape) == 1:
        x, y = v.array('x', *shape), v.array('y', *shape)
        gx, gy = (lambda ix: x.get(*ix)), (lambda ix: y.get(*ix))
    else:
        x, y = v.array('x', shape[0], 1), v.array('y', shape[1])
        gx, gy = (lambda ix: x.get(ix[0], 0)), (lambda ix: y.get(ix[1]))
    ix = tuple(v.index(d) for d in shape)
    return x, y, gx, gy, ix


def cond(v, nm, shape):
    return v.array(nm, *shape, k='b')


def requires(v, f, shape, c, vals, neg=()):
    """f may be evaluated where c holds (and no condition of neg does)"""
    v.assume(Forall(len(shape), lambda *ix: implies(land(snp.in_shape(ix, shape), core.tobool(c(ix)), *[lnot(core.tobool(q(ix))) for q in neg]),
                                                     f.ok(*vals(ix)))))


for _nd in (1, 2):
    def dims(v, nd=_nd):
        return (v.int('n', 1),) if nd == 1 else (v.int('n', 2), v.int('m', 2))

    def same(a, shape):
        return land(len(a.shape) == len(shape), *[p == q for p, q in zip(a.shape, shape)])

    @contract('C11', 'lazywhere with a fill value (%d-d)' % _nd, [M + ':lazywhere'], conc='where')
    def w1(v, dims=dims):
        sh = dims(v)
        x, y, gx, gy, ix = setup(v, sh)
        c = cond(v, 'c', sh)
        f = Fn(v, 'f', 2)
        requires(v, f, sh, lambda q: c.get(*q), lambda q: (gx(q), gy(q)))
        for fill in (v.real('fill'), 0, 3):
            r = v.call(M, 'lazywhere', c, (x, y), f, fill)
            v.ensure('shape', same(r, sh))
            v.ensure('value', r.get(*ix) == ite(c.get(*ix), f.at(gx(ix), gy(ix)), fill))
        v.ensure('input unchanged', land(gx(ix) == x.f0((ix[0],) if len(sh) == 1 else (ix[0], 0)), iff(c.get(*ix), c.f0(ix))))

    @contract('C11', 'lazywhere with two functions (%d-d)' % _nd, [M + ':lazywhere'], conc='where')
    def w2(v, dims=dims):
        sh = dims(v)
        x, y, gx, gy, ix = setup(v, sh)
        c = cond(v, 'c', sh)
        f, g = Fn(v, 'f', 2), Fn(v, 'g', 2)
        requires(v, f, sh, lambda q: c.get(*q), lambda q: (gx(q), gy(q)))
        requires(v, g, sh, lambda q: lnot(c.get(*q)), lambda q: (gx(q), gy(q)))
        r = v.call(M, 'lazywhere', c, (x, y), f, f2=g)
        v.ensure('shape', same(r, sh))
        v.ensure('value', r.get(*ix) == ite(c.get(*ix), f.at(gx(ix), gy(ix)), g.at(gx(ix), gy(ix))))
        v.ensure('fill value and second function exclude each other', v.raises(ValueError, v.get(M, 'lazywhere'), c, (x, y), f, 1, g))
        v.ensure('one of them is needed', v.raises(ValueError, v.get(M, 'lazywhere'), c, (x, y), f))

    @contract('C11', 'lazyselect (%d-d)' % _nd, [M + ':lazyselect', M + ':valarray'], conc='select')
    def s1(v, dims=dims):
        sh = dims(v)
        x, y, gx, gy, ix = setup(v, sh)
        c, d = cond(v, 'c', sh), cond(v, 'd', sh)
        f, g = Fn(v, 'f', 2), Fn(v, 'g', 2)
        requires(v, f, sh, lambda q: c.get(*q), lambda q: (gx(q), gy(q)))
        requires(v, g, sh, lambda q: d.get(*q), lambda q: (gx(q), gy(q)))
        D = v.real('default')
        r = v.call(M, 'lazyselect', [c, d], [f, g], (x, y), D)
        v.ensure('shape', same(r, sh))
        v.ensure('first true condition', r.get(*ix) == ite(c.get(*ix), f.at(gx(ix), gy(ix)), ite(d.get(*ix), g.at(gx(ix), gy(ix)), D)))
        r = v.call(M, 'lazyselect', [False, d], [f, g], (x, y))
        v.ensure('constant condition and default zero', r.get(*ix) == ite(d.get(*ix), g.at(gx(ix), gy(ix)), 0))

    def psetup(v, sh):
        x, y, gx, gy, ix = setup(v, sh)
        c, d = cond(v, 'c', sh), cond(v, 'd', sh)
        f, g, h = Fn(v, 'f', 2), Fn(v, 'g', 2), Fn(v, 'h', 2)
        val = lambda q: (gx(q), gy(q))
        requires(v, f, sh, lambda q: c.get(*q), val)
        requires(v, g, sh, lambda q: d.get(*q), val)
        requires(v, h, sh, lambda q: lnot(lor(c.get(*q), d.get(*q))), val)
        return x, y, c, d, f, g, h, [q.at(*val(ix)) for q in (f, g, h)], c.get(*ix), d.get(*ix), ix

    @contract('C11', 'piecewise of two functions (%d-d)' % _nd, [M + ':piecewise'], conc='piece')
    def p1(v, dims=dims, psetup=psetup):
        sh = dims(v)
        x, y, c, d, f, g, h, (F, G, H), C_, D_, ix = psetup(v, sh)
        r = v.call(M, 'piecewise', [c, d], [f, g], (x, y))
        v.ensure('shape', same(r, sh))
        v.ensure('two functions', implies(lnot(land(C_, D_)), r.get(*ix) == ite(C_, F, ite(D_, G, 0))))
        v.ensure('overlapping conditions take one of their functions', lor(*[r.get(*ix) == q for q in (F, G, 0)]))

    @contract('C11', 'piecewise with a fill value (%d-d)' % _nd, [M + ':piecewise'], conc='piece')
    def p4(v, dims=dims, psetup=psetup):
        sh = dims(v)
        x, y, c, d, f, g, h, (F, G, H), C_, D_, ix = psetup(v, sh)
        fill = v.real('fill')
        r = v.call(M, 'piecewise', [c], [f], (x, y), fill)
        v.ensure('fill value', r.get(*ix) == ite(C_, F, fill))
        v.ensure('wrong number of functions', land(v.raises(ValueError, v.get(M, 'piecewise'), [c], [f, g, h], (x, y)),
                                                   v.raises(ValueError, v.get(M, 'piecewise'), [c, d], [f], (x, y))))

    @contract('C11', 'piecewise with a default function (%d-d)' % _nd, [M + ':piecewise'], conc='piece')
    def p5(v, dims=dims, psetup=psetup):
        sh = dims(v)
        x, y, c, d, f, g, h, (F, G, H), C_, D_, ix = psetup(v, sh)
        r = v.call(M, 'piecewise', [c, d], [f, g, h], (x, y))
        v.ensure('default function', implies(lnot(land(C_, D_)), r.get(*ix) == ite(C_, F, ite(D_, G, H))))

    @contract('C11', 'piecewise with a constant default (%d-d)' % _nd, [M + ':piecewise'], conc='piece')
    def p6(v, dims=dims, psetup=psetup):
        sh = dims(v)
        x, y, c, d, f, g, h, (F, G, H), C_, D_, ix = psetup(v, sh)
        k = v.real('k')
        r = v.call(M, 'piecewise', [c], [f, k], (x, y))
        v.ensure('constant default', r.get(*ix) == ite(C_, F, k))

    @contract('C11', 'piecewise of constants (%d-d)' % _nd, [M + ':piecewise'], conc='piece')
    def p2(v, dims=dims):
        sh = dims(v)
        c, d = cond(v, 'c', sh), cond(v, 'd', sh)
        ix = tuple(v.index(q) for q in sh)
        a, b = v.real('a'), v.real('b')
        r = v.call(M, 'piecewise', [c, d], [a, b])
        v.ensure('shape', same(r, sh))
        v.ensure('values', implies(lnot(land(c.get(*ix), d.get(*ix))), r.get(*ix) == ite(c.get(*ix), a, ite(d.get(*ix), b, 0))))

    @contract('C11', 'argsreduce (%d-d)' % _nd, [M + ':argsreduce'], conc='reduce')
    def a1(v, dims=dims):
        sh = dims(v)
        x, y, gx, gy, ix = setup(v, sh)
        c = cond(v, 'c', sh)
        k = v.real('k')
        r = v.call(M, 'argsreduce', c, x, y, k)
        v.ensure('one array for each argument', len(r) == 3)
        if len(sh) == 1:
            sel = snp.get_sel(c)
            j = v.index(sel.count)
            v.ensure('sizes', land(*[q.shape[0] == sel.count for q in r]))
            p = sel.pos(j)
            v.ensure('elements in order', land(r[0].get(j) == x.get(p), r[1].get(j) == y.get(p), r[2].get(j) == k))
        else:
            full = [q.full for q in r]
            v.ensure('selected by the condition', all(q.sel is r[0].sel and q.sel is not None for q in r))
            v.ensure('selection is the condition', iff(core.tobool(r[0].sel.mask(ix)), c.get(*ix)))
            v.ensure('elements', implies(c.get(*ix), land(full[0](ix) == gx(ix), full[1](ix) == gy(ix), full[2](ix) == k)))
        r = v.call(M, 'argsreduce', c, x)
        v.ensure('one argument', len(r) == 1)


@contract('C11', 'piecewise extra arguments', [M + ':piecewise'], conc='piece')
def p3(v):
    n = v.int('n', 1)
    x = v.array('x', n)
    c = cond(v, 'c', (n,))
    a = v.real('a')
    f = Fn(v, 'f', 2, kw={'b': 5})
    i = v.index(n)
    requires(v, f, (n,), lambda q: c.get(*q), lambda q: (x.get(*q), a))
    r = v.call(M, 'piecewise', [c], [f], x, args=(a,), b=5)
    v.ensure('single array and extra arguments', land(r.shape[0] == n, r.get(i) == ite(c.get(i), f.at(x.get(i), a), 0)))


@contract('C11', 'valarray', [M + ':valarray'], conc='select')
def v1(v):
    n, m = v.int('n', 1), v.int('m', 1)
    x = v.real('value')
    r = v.call(M, 'valarray', (n, m), x)
    i, j = v.index(n), v.index(m)
    v.ensure('constant array', land(r.shape[0] == n, r.shape[1] == m, r.get(i, j) == x))
