"""C13 outlier search"""
from vf.api import *
M = 'wafo.misc'
META = {'assumptions': ['missing values are modelled by an arbitrary predicate on the samples',
                        'with default thresholds the standard deviation is the one numpy computes (exact square root)']}


def check(v, mode):
    n = v.int('n', 3)
    x = v.array('x', n)
    v.p.missing = z3.Function('missing', z3.RealSort(), z3.BoolSort()) if mode == 'given' else None
    miss = lambda i: S(v.p.missing(x.f0((i,)).e)) if mode == 'given' else False
    z = lambda i: ite(miss(i), 0, x.f0((i,)))
    zc = v.real('zcrit')
    v.assume(zc >= 0)
    kw = {}
    if mode == 'default':
        dc = dd = Fraction(3, 2) * x.std()
    else:
        dc, dd = v.real('dcrit'), v.real('ddcrit')
        kw = dict(dcrit=dc, ddcrit=dd)
    ind, indg = v.call(M, 'findoutliers', x, zc, **kw)
    dx = lambda i: z(i + 1) - z(i)
    ddx = lambda i: dx(i + 1) - dx(i)
    at1 = lambda i: land(i >= 0, i < n - 1)
    at2 = lambda i: land(i >= 0, i < n - 2)
    small = lambda i: land(at1(i), vabs(dx(i)) <= zc)
    i = v.index(n)
    outlier = lor(land(at1(i - 1), dx(i - 1) > dc), land(at1(i), dx(i) < -dc),
                  land(at2(i - 1), ddx(i - 1) > dd), land(at2(i), ddx(i) < -dd),
                  small(i - 1), small(i), small(i - 2), small(i + 1))
    mi, mg = snp.member(ind), snp.member(indg)
    if mi is None or mg is None:
        raise Unsupported('index sets of unknown membership')
    for q in (i - 2, i - 1, i + 1, i + 2):
        v.p.idx.append(lift(q).e)
    v.ensure('outliers are the points meeting a criterion', iff(mi(i), outlier))
    v.ensure('the rest are the other points', iff(mg(i), lnot(outlier)))
    j = v.int('j')
    v.p.idx.append(j.e)
    v.ensure('indices in range', implies(lor(mi(j), mg(j)), land(j >= 0, j < n)))
    for nm, a in (('outliers', ind), ('rest', indg)):
        p, q = v.int('p'), v.int('q')
        v.p.idx += [p.e, q.e]
        v.ensure(nm + ' increasing, each once', implies(land(p >= 0, p < q, q < a.shape[0]), a.get(p) < a.get(q)))
        v.ensure(nm + ' listed are members', implies(land(p >= 0, p < a.shape[0]), snp.member(a)(a.get(p))))
    v.ensure('input unchanged', x.get(i) == x.f0((i,)))


for _m in ('given', 'default'):
    @contract('C13', 'findoutliers with %s thresholds' % _m, [M + ':findoutliers'], conc='outliers', budget=250)
    def c(v, m=_m):
        check(v, m)


@contract('C13', 'findoutliers: short vectors are refused', [M + ':findoutliers'], conc='outliers')
def c2(v):
    for n in (0, 1, 2):
        v.ensure('%d elements' % n, v.raises(ValueError, v.get(M, 'findoutliers'), v.array('x', n)))
