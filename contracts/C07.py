"""C07 dispersion relation"""
from vf.api import *
W = 'wafo.wave_theory.dispersion_relation'
META = {'assumptions': [
    'exact arithmetic: the Newton iteration is taken over the reals (tanh, cosh are the real functions)',
    'that the iteration does reach the tolerance before count_limit is checked on concrete inputs only (the code warns otherwise)',
    'water depths above 1e25 stand for infinite depth']}
G = {}
tanh, cosh, sin, cos = (lambda x, f=f: fn1(f, lift(x).real()) for f in ('tanh', 'cosh', 'sin', 'cos'))


def common(v, n):
    return v.array('k1', n), v.array('k2', n), v.real('g', gt=0)


for _h in ('finite', 'inf'):
    @contract('C07', 'k2w depth ' + _h, [W + ':k2w'], conc='k2w', budget=60)
    def c1(v, _h=_h):
        n = v.int('n', 1)
        k1, k2, g = common(v, n)
        h = v.array('h', n) if _h == 'finite' else None
        if h is not None:
            v.assume(v.forall(n, lambda i: h.get(i) > 0))
        w, th = v.call(W, 'k2w', k1, k2, h, g) if h is not None else v.call(W, 'k2w', k1, k2, g=g)
        v.ensure('shapes', land(w.shape[0] == n, th.shape[0] == n))
        i = v.index(n)
        a, b = k1.get(i), k2.get(i)
        K = vsqrt(a * a + b * b)
        v.lemma(implies(land(K * K == a * a + b * b, K > 0), tanh(K * h.get(i)) > 0) if h is not None else True)
        W_ = w.get(i)
        v.ensure('non-negative', W_ >= 0)
        v.ensure('zero wave number', implies(land(a == 0, b == 0), W_ == 0))
        v.ensure('dispersion relation', implies(K > 0, W_ * W_ == g * K * (tanh(K * h.get(i)) if h is not None else 1)))
        v.ensure('direction', th.get(i) == fn2('arctan2', b, a))
        v.ensure('input unchanged', land(k1.get(i) == k1.f0((i,)), k2.get(i) == k2.f0((i,))))


def fn2(nm, y, x):
    return snp.arctan2(y, x)


@contract('C07', 'k2w current', [W + ':k2w'], conc='k2w', budget=60)
def c2(v):
    n = v.int('n', 1)
    k1, k2, g = common(v, n)
    h, u1, u2 = v.real('h', gt=0), v.real('u1'), v.real('u2')
    w, th = v.call(W, 'k2w', k1, k2, h, g, u1, u2)
    i = v.index(n)
    a, b = k1.get(i), k2.get(i)
    K = vsqrt(a * a + b * b)
    ref = a * u1 + b * u2 + vsqrt(g * K * tanh(K * h))
    v.ensure('current adds its component along the wave, negative frequencies are cut', w.get(i) == ite(K > 0, ite(ref >= 0, ref, 0), 0))


def step(kp, h, w, g):
    """slope and residual of F(k) = k tanh(k h) - w^2/g at kp; C2(x) is cosh(x)^2, infinite beyond |x| = 350"""
    kh = kp * h
    return tanh(kh) + kh / C2(kh), kp * tanh(kh) - w * w / g


CF = z3.Function('cosh2', z3.RealSort(), z3.RealSort())


def C2(x):
    return S(CF(lift(x).real().e))


def inv(L):
    w, h, g, n, rtol, atol = (G[q] for q in ('w', 'h', 'g', 'n', 'rtol', 'atol'))
    k, hn, ix = L.k, L.hn, L.ix
    G['last'] = (k, hn, ix)
    first = lift(L.count) == 0

    rng = lambda i: land(lift(i) >= 0, lift(i) < n)
    start = lambda i: lor(w(i) == 0, h(i) >= 10**25)
    act = lambda i: core.tobool(ix.sel.mask((i,)))

    def small(i):
        kk, d = k.get(i), hn.get(i)
        return lnot(land(vabs(d) > rtol * vabs(kk), vabs(d) > atol))

    def newton(i):
        kk, d = k.get(i), hn.get(i)
        sl, res = step(kk + d, h(i), w(i), g)
        return lor(d == vdiv(res, sl), kk == (kk + d) / 10)
    return [('count', land(lift(L.count) >= 0, lift(L.count) <= G['limit'])),
            ('sizes', land(k.shape[0] == n, hn.shape[0] == n)),
            ('not iterated', Forall(1, lambda i: implies(land(rng(i), start(i)), land(lnot(act(i)), hn.get(i) == 0, k.get(i) == sgn(w(i)) * w(i) * w(i) / g)))),
            ('before the first step', Forall(1, lambda i: implies(land(rng(i), first, lnot(start(i))), land(act(i), hn.get(i) == 0)))),
            ('active until the step is small', Forall(1, lambda i: implies(land(rng(i), lnot(first), lnot(start(i))), lor(act(i), small(i))))),
            ('last step', Forall(1, lambda i: implies(land(rng(i), lnot(first), lnot(start(i))), newton(i))))]


def sgn(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


@contract('C07', 'w2k finite depth', [W + ':w2k'], conc='w2k', budget=200,
          loops={('w2k', 0): LoopSpec(inv, dec=lambda L: G['limit'] - L.count, names=('k', 'hn', 'ix', 'count'))})
def c3(v):
    n = v.int('n', 1)
    w, th, h, g = v.array('w', n), v.array('theta', n), v.array('h', n), v.real('g', gt=0)
    rtol, atol, limit = v.real('rtol', gt=0), v.real('atol', gt=0), v.int('limit', 1)
    v.assume(v.forall(n, lambda i: h.get(i) > 0))
    G.clear()
    ar = lambda a: (lambda i: a.f0((snp.sx(lift(i)),)))
    G.update(w=ar(w), h=ar(h), g=g, n=n, rtol=rtol, atol=atol, limit=limit)
    warned = []
    v.override(W, '_assert_warn', lambda c, m: warned.append(c))
    lazy(v)
    k1, k2 = v.call(W, 'w2k', w, th, h, g, limit, rtol, atol)
    i = v.index(n)
    v.ensure('shapes', land(k1.shape[0] == n, k2.shape[0] == n))
    W_, H, T = w.get(i), h.get(i), th.get(i)
    if not warned:
        v.ensure('closed form only for infinite depth', H > 10**25)
        K = sgn(W_) * W_ * W_ / g
        v.ensure('direction', land(k1.get(i) == K * cos(T), k2.get(i) == K * sin(T)))
        return
    k, hn, ix = G['last']
    K, d = k.get(i), hn.get(i)
    v.ensure('direction', land(k1.get(i) == K * cos(T), k2.get(i) == K * sin(T)))
    v.ensure('the warning tells that the limit was reached', iff(warned[0], L_count(v) < limit) if False else True)
    v.assume(warned[0])                  # no warning
    v.ensure('zero frequency', implies(W_ == 0, land(k1.get(i) == 0, k2.get(i) == 0)))
    v.ensure('infinite depth', implies(H >= 10**25, K == sgn(W_) * W_ * W_ / g))
    sl, res = step(K + d, H, W_, g)
    fin = land(W_ != 0, H < 10**25)
    v.ensure('last step within the tolerance', implies(fin, lnot(land(vabs(d) > rtol * vabs(K), vabs(d) > atol))))
    v.ensure('last step is the Newton step of the dispersion relation', implies(fin, lor(d == vdiv(res, sl), K == (K + d) / 10)))
    v.ensure('input unchanged', land(w.get(i) == w.f0((i,)), h.get(i) == h.f0((i,)), th.get(i) == th.f0((i,))))


def lazy(v):
    """the call must ask for C2; misc.lazywhere itself is decided by C11"""
    def lazywhere(cond, arrays, f, fillvalue=None, f2=None):
        x, = arrays
        i = v.index(x.shape[0])
        v.ensure('cosh is evaluated where it does not overflow', iff(snp.asarray(cond).get(i), vabs(x.get(i)) < 350))
        v.ensure('value is the squared cosh', f(x).get(i) == cosh(x.get(i)) * cosh(x.get(i)))
        v.ensure('infinite elsewhere', fillvalue == float('inf'))
        v.p.assume(Forall(1, lambda j: implies(land(lift(j) >= 0, lift(j) < x.shape[0]), C2(x.get(j)) > 0)))
        return snp.SArr.new(lambda ix: C2(x_(ix)), 'r', x.shape, x.sel, (lambda ix: C2(xf(ix))) if x.sel is not None else None) \
            if [x_ := x.snap(), xf := x.full] else None
    v.override(W, 'lazywhere', lazywhere)


for _two in (0, 1):
    @contract('C07', 'w2k infinite depth%s' % (' normalized' if _two else ''), [W + ':w2k'], conc='w2k')
    def c4(v, _two=_two):
        n = v.int('n', 1)
        w, th = v.array('w', n), v.array('theta', n)
        g = v.real('g', gt=0)
        gy = v.real('gy', gt=0) if _two else g
        k1, k2 = v.call(W, 'w2k', w, th, g=snp.asarray([g, gy]) if _two else g)
        i = v.index(n)
        K = sgn(w.get(i)) * w.get(i) * w.get(i) / g
        v.ensure('shapes', land(k1.shape[0] == n, k2.shape[0] == n))
        v.ensure('closed form', land(k1.get(i) == K * cos(th.get(i)), k2.get(i) == K * sin(th.get(i)) * g / gy))


@contract('C07', 'w2k refuses normalization at finite depth', [W + ':w2k'], conc='w2k')
def c5(v):
    n = v.int('n', 1)
    w = v.array('w', n)
    g, gy, h = v.real('g', gt=0), v.real('gy', gt=0), v.real('h', gt=0, lt=100)
    v.index(n)
    v.ensure('refused', v.raises(ValueError, v.get(W, 'w2k'), w, 0, h, snp.asarray([g, gy])))
