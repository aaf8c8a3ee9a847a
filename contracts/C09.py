"""C09 transformations between the Gaussian and the real process"""
from vf.api import *
T = 'wafo.transform.models'
K = 'wafo.transform.core'
META = {'assumptions': ['scipy.optimize.brentq returns a root inside its bracket (bracket with a sign change is an obligation)',
                        'numpy.poly1d evaluates and differentiates its polynomial; its roots of order 2 are those of the quadratic formula']}
exp, log, cbrt, cos = (lambda x, f=f: fn1(f, lift(x).real()) for f in ('exp', 'log', 'cbrt', 'cos'))


def stats(v, cls, **kw):
    m, s, ym, ys = v.real('mean'), v.real('sigma', gt=0), v.real('ymean'), v.real('ysigma', gt=0)
    return m, s, ym, ys, v.get(T, cls)(mean=m, sigma=s, ymean=ym, ysigma=ys, **kw)


@contract('C09', 'common parameters', [K + ':TrCommon.__init__'], conc='linear')
def t0(v):
    m, var, sk, ku = v.real('mean'), v.real('var', gt=0), v.real('skew'), v.real('kurt')
    g = v.get(T, 'TrLinear')(m, var, sk, ku)
    v.ensure('reported parameters', land(g.mean == m, g.sigma * g.sigma == var, g.sigma > 0, g.skew == sk, g.kurt == ku,
                                         g.ymean == 0, g.ysigma == 1))
    s = v.real('sigma', gt=0)
    g = v.get(T, 'TrLinear')(m, var, sk, ku, sigma=s)
    v.ensure('given sigma', g.sigma == s)
    g = v.get(T, 'TrLinear')()
    v.ensure('default', land(g.mean == 0, g.sigma == 1, g.skew == Q(16, 100), g.kurt == Q(304, 100)))


@contract('C09', 'linear', [T + ':TrLinear._dat2gauss', T + ':TrLinear._gauss2dat', T + ':TrLinear._transform'], conc='linear')
def t1(v):
    m, s, ym, ys, g = stats(v, 'TrLinear')
    n = v.int('n', 1)
    x, x1, x2 = v.array('x', n), v.array('x1', n), v.array('x2', n)
    i = v.index(n)
    for nm in ('dat2gauss', '__call__'):
        y = getattr(g, nm)(x)
        v.ensure(nm + ' size', y.shape[0] == n)
        v.ensure(nm, (y.get(i) - ym) * s == (x.get(i) - m) * ys)
    y = g.dat2gauss(x)
    z = g.gauss2dat(y)
    v.ensure('round trip', land(z.shape[0] == n, z.get(i) == x.get(i)))
    z = g.gauss2dat(x)
    v.ensure('inverse direction', (z.get(i) - m) * ys == (x.get(i) - ym) * s)
    v.ensure('round trip from the Gaussian side', g.dat2gauss(z).get(i) == x.get(i))
    j = v.index(n)
    v.ensure('increasing', implies(x.get(i) < x.get(j), y.get(i) < y.get(j)))
    y, y1, y2 = g.dat2gauss(x, x1, x2)
    v.ensure('derivatives', land(y1.get(i) * s == x1.get(i) * ys, y2.get(i) * s == x2.get(i) * ys, (y.get(i) - ym) * s == (x.get(i) - m) * ys))
    y, y1, y2 = g.gauss2dat(x, x1, x2)
    v.ensure('derivatives of the inverse', land(y1.get(i) * ys == x1.get(i) * s, y2.get(i) * ys == x2.get(i) * s))


# -- Ochi -------------------------------------------------------------------------------------------------------------------------
@contract('C09', 'Ochi parameters', [T + ':TrOchi._par_from_stats', T + ':TrOchi._get_par', T + ':TrOchi.__init__'], conc='ochi', budget=60)
def o1(v):
    sk = v.real('skew')
    m, s = v.real('mean'), v.real('sigma', gt=0)
    roots = []

    def brentq(f, a, b, *x, **k):
        fa, fb = f(a), f(b)
        v.ensure('the bracket holds a root', lor(land(fa >= 0, fb <= 0), land(fa <= 0, fb >= 0)))
        r = v.p.fresh_real('root')
        v.assume(land(r >= a, r <= b))
        v.assume(f(r) == 0)
        roots.append(r)
        return r
    v.override(T, 'brentq', brentq)
    try:
        g = v.get(T, 'TrOchi')(mean=m, sigma=s, skew=sk)
    except ValueError:
        v.ensure('only a too large skewness is rejected', vabs(sk) > Q('2.8284'))
        return
    v.ensure('skewness in range', vabs(sk) <= Q('2.8285'))
    ga, gb, s2, m2 = g._get_par()
    a = gb / 3
    v.ensure('upper and lower curvature', ga == Q('1.28') * a)
    if v.case(sk == 0):
        v.ensure('no skewness gives the linear model', land(a == 0, s2 == 1, m2 == 0))
        return
    R = roots[0]
    u = vsqrt(R - 1)
    v.lemma(vsqrt(2 * (R - 1)) == vsqrt(2) * u)
    v.lemma(vsqrt((R - 1) / 2) * 2 == vsqrt(2) * u)
    S2 = s2 * s2
    v.ensure('sigma2 positive', s2 > 0)
    v.ensure('sign of the curvature', land(implies(sk > 0, a >= 0), implies(sk < 0, a <= 0)))
    v.ensure('sigma2 is the root', S2 == R)
    v.ensure('unit variance equation', S2 - 2 * a * a * S2 * S2 == 1)
    v.ensure('skewness equation', 2 * a * S2 * S2 * (3 - 8 * a * a * S2) == sk)


def ochi(v, pos):
    """an Ochi object with arbitrary parameters of the given sign"""
    m, s, ym, ys = v.real('mean'), v.real('sigma', gt=0), v.real('ymean'), v.real('ysigma', gt=0)
    cls = v.get(T, 'TrOchi')
    g = cls.__new__(cls)
    g.mean, g.sigma, g.ymean, g.ysigma = m, s, ym, ys
    ga, gb = v.real('ga'), v.real('gb')
    v.assume(land(ga > 0, gb > 0) if pos > 0 else land(ga < 0, gb < 0) if pos < 0 else land(ga == 0, gb == 0))
    s2, m2 = v.real('sigma2', gt=0), v.real('mean2')
    v.note('pos', pos)
    g._phat = [s, m, ga, gb, s2, m2]
    return g, m, s, ym, ys, ga, gb, s2, m2


def fwd(xn, ga, gb, s2, m2):
    f = lambda c: ite(c == 0, xn, (1 - exp(-c * xn)) / c)
    return (ite(xn >= 0, f(ga), f(gb)) - m2) / s2


for _p in (1, -1, 0):
    @contract('C09', 'Ochi transform (skewness sign %d)' % _p, [T + ':TrOchi._forward', T + ':TrOchi._transform', T + ':TrOchi._transformgauss',
                                                              T + ':TrOchi._dat2gauss'], conc='ochi', budget=60)
    def o2(v, _p=_p):
        g, m, s, ym, ys, ga, gb, s2, m2 = ochi(v, _p)
        n = v.int('n', 1)
        x = v.array('x', n)
        y = g.dat2gauss(x)
        i, j = v.index(n), v.index(n)
        v.ensure('size', y.shape[0] == n)
        xs = [(x.get(q) - m) / s for q in (i, j)]
        for q in xs:
            v.case(q >= 0)
        v.ensure('formula', y.get(i) == ys * fwd(xs[0], ga, gb, s2, m2) + ym)
        G = [fwd(q, ga, gb, s2, m2) for q in xs]
        v.ensure('increasing', implies(xs[0] < xs[1], G[0] < G[1]))
        v.ensure('increasing transform', implies(x.get(i) < x.get(j), xs[0] < xs[1]))
        v.ensure('input unchanged', x.get(i) == x.f0((i,)))
        v.ensure('derivatives are refused', v.raises(ValueError, g.dat2gauss, x, x))

    @contract('C09', 'Ochi inverse (skewness sign %d)' % _p, [T + ':TrOchi._backward', T + ':TrOchi._transform', T + ':TrOchi._gauss2dat'],
              conc='ochi', budget=60)
    def o3(v, _p=_p):
        g, m, s, ym, ys, ga, gb, s2, m2 = ochi(v, _p)
        n = v.int('n', 1)
        y = v.array('y', n)
        x = g.gauss2dat(y)
        i = v.index(n)
        v.ensure('size', x.shape[0] == n)
        yn = (y.get(i) - ym) / ys
        y2 = s2 * yn + m2
        v.case(y2 >= 0)
        # the transform never reaches 1-gamma*y2 <= 0
        c = ga if v.p.provable(y2 >= 0) else gb
        v.assume(1 - c * y2 > 0)
        xn = (x.get(i) - m) / s
        if _p:
            v.lemma(exp(-c * xn) == 1 - c * y2)
            v.ensure('lemma: logarithm', -c * ((x.get(i) - m) / s) == log(1 - c * y2))
        v.ensure('inverse', fwd(xn, ga, gb, s2, m2) == yn)
        v.ensure('input unchanged', y.get(i) == y.f0((i,)))
        v.ensure('derivatives are refused', v.raises(ValueError, g.gauss2dat, y, y))


# -- Hermite ----------------------------------------------------------------------------------------------------------------------
def small(c4, ref):
    """the third order coefficient, which may be dropped when it is negligible"""
    return lor(c4 == ref, land(c4 == 0, vabs(ref) < Q(1, 10**7)))


def excess(v, kind):
    sk, e = v.real('skew'), v.real('e')
    if kind == 1:
        v.assume(land(e > 0, 3 * sk * sk <= 2 * e))
    elif kind == 2:
        v.assume(land(e > 0, 9 * sk * sk <= 8 * (e + 3)))
    v.note('pardef', kind)
    cls = v.get(T, 'TrHermite')
    g = cls.__new__(cls)
    return sk, e, g


@contract('C09', 'Hermite parameters (kurt<=3)', [T + ':TrHermite._hardening_parameters', T + ':TrHermite._check_c3_c4'], conc='hermite')
def h10(v):
    sk, e, g = excess(v, 0)
    c3, c4 = g._hardening_parameters(sk, e)
    v.ensure('c3', c3 == sk / 6)
    v.ensure('c4', small(c4, e / 24))


@contract('C09', 'Hermite parameters (Winterstein 1994)', [T + ':TrHermite._winterstein1994', T + ':TrHermite._check_c3_c4'], conc='hermite')
def h11(v):
    sk, e, g = excess(v, 1)
    c3, c4 = g._winterstein1994(sk, e)
    v.ensure('c3', c3 == sk / 6 * (1 - Q('0.015') * vabs(sk) + Q('0.3') * sk * sk) / (1 + Q('0.2') * e))
    c41 = vpow(1 - Q('1.43') * sk * sk / e, 1 - Q('0.1') * vpow(e + 3, Q('0.8')))
    v.ensure('c4', small(c4, Q('0.1') * (vpow(1 + Q('1.25') * e, Q(1, 3)) - 1) * c41))


@contract('C09', 'Hermite parameters (Winterstein 1988)', [T + ':TrHermite._winterstein1988', T + ':TrHermite._check_c3_c4'], conc='hermite')
def h12(v):
    sk, e, g = excess(v, 2)
    c3, c4 = g._winterstein1988(sk, e)
    C4 = (vsqrt(1 + Q('1.5') * e) - 1) / 18
    v.ensure('c3', c3 == sk / (6 * (1 + 6 * C4)))
    v.ensure('c4', small(c4, C4))


for _kind in ('hard', 1, 2):
    @contract('C09', 'Hermite polynomial (%s)' % ('kurt<=3' if _kind == 'hard' else 'kurt>3, parametrisation %d' % _kind),
              [T + ':TrHermite.__init__', T + ':TrHermite.set_poly', T + ':TrHermite.pardef', T + ':TrHermite._check_monotonicity',
               T + ':TrHermite._set_x_limit', T + (':TrHermite._set_hardening_model' if _kind == 'hard' else ':TrHermite._set_softening_model')],
              conc='hermite', budget=60)
    def h1(v, _kind=_kind):
        sk, ku = v.real('skew'), v.real('kurt')
        v.note('pardef', _kind if _kind != 'hard' else 1)
        v.assume(ku <= 3 if _kind == 'hard' else ku > 3)
        c3, c4 = v.real('c3'), v.real('c4')
        K_ = vsqrt(1 + 2 * c3 * c3 + 6 * c4 * c4)
        v.lemma(K_ > 0)
        v.case(c4 == 0)
        v.case(c3 == 0)
        used = []

        def par(nm):
            def f(self, s_, e_):
                v.ensure('parameters of the process', land(s_ == sk, e_ == ku - 3))
                used.append(nm)
                return c3, c4
            return f
        cls = v.get(T, 'TrHermite')
        names = {'hard': '_hardening_parameters', 1: '_winterstein1994', 2: '_winterstein1988'}
        keep = {k: cls.__dict__[k] for k in names.values()}
        for k in keep:
            setattr(cls, k, par(k))
        try:
            m, s, ym, ys, g = stats(v, 'TrHermite', skew=sk, kurt=ku, **({} if _kind == 'hard' else {'pardef': _kind}))
        finally:
            for k, f in keep.items():
                setattr(cls, k, f)
        v.ensure('parametrisation', used == [names[_kind]])
        n = v.int('n', 1)
        x = v.array('x', n)
        i = v.index(n)
        X = x.get(i)
        if _kind == 'hard':
            p = g._forward
            v.ensure('polynomial', p(x).get(i) == X - c3 * (X * X - 1) - c4 * (X * X * X - 3 * X))
        else:
            p = g._backward
            v.ensure('polynomial', p(x).get(i) * K_ == X + c3 * (X * X - 1) + c4 * (X * X * X - 3 * X))
        # the other direction inverts this polynomial
        seen = []

        def inv(q, yn):
            seen.append((q, yn))
            return yn * 0 + 7
        g._poly_inv = inv
        (g._backward if _kind == 'hard' else g._forward)(x)
        v.ensure('inverse direction solves the same polynomial', len(seen) == 1 and seen[0][0] is p and seen[0][1] is x)
        v.ensure('reported parameters', land(g.skew == sk, g.kurt == ku, g.pardef == (1 if _kind == 'hard' else _kind)))
        v.index(1)
        v.index(2)
        if g._x_limit is None:
            d = p.deriv().coeffs.tolist()
            if len(d) == 3:
                v.ensure('an increasing polynomial', d[1] * d[1] < 4 * d[0] * d[2])
            else:
                v.ensure('an increasing polynomial', len(d) == 1)


@contract('C09', 'Hermite scaling', [T + ':TrHermite._dat2gauss', T + ':TrHermite._gauss2dat', T + ':TrHermite.check_forward'], conc='hermite')
def h2(v):
    cls = v.get(T, 'TrHermite')
    g = cls.__new__(cls)
    m, s, ym, ys = v.real('mean'), v.real('sigma', gt=0), v.real('ymean'), v.real('ysigma', gt=0)
    g.mean, g.sigma, g.ymean, g.ysigma = m, s, ym, ys
    g._x_limit = None
    F, B = core.uf('F_', 1), core.uf('B_', 1)
    g._forward = lambda a: snp.ew(lambda q: S(F(lift(q).real().e)), a)
    g._backward = lambda a: snp.ew(lambda q: S(B(lift(q).real().e)), a)
    n = v.int('n', 1)
    x = v.array('x', n)
    i = v.index(n)
    y = g.dat2gauss(x)
    v.ensure('forward', land(y.shape[0] == n, y.get(i) == ys * S(F(((x.get(i) - m) / s).e)) + ym))
    z = g.gauss2dat(x)
    v.ensure('backward', land(z.shape[0] == n, z.get(i) == s * S(B(((x.get(i) - ym) / ys).e)) + m))
    yn = S(F(((x.get(i) - m) / s).e))
    v.lemma(S(B(yn.e)) == (x.get(i) - m) / s)          # the polynomial solver contract
    v.ensure('round trip', g.gauss2dat(y).get(i) == x.get(i))
    v.ensure('input unchanged', x.get(i) == x.f0((i,)))
    v.ensure('derivatives are refused', land(v.raises(ValueError, g.dat2gauss, x, x), v.raises(ValueError, g.gauss2dat, x, x)))


def solver(v, order):
    cls = v.get(T, 'TrHermite')
    g = cls.__new__(cls)
    cs = [v.real('c%d' % k) for k in range(order + 1)]
    v.assume(cs[0] != 0)
    n = v.int('n', 1)
    x = v.array('x', n)
    p = snp.Poly1d(cs)
    r = v.get(T, 'TrHermite')._poly_inv(g, p, x)
    v.ensure('size', r.shape[0] == n)
    v.ensure('input unchanged', x.get(0) == x.f0((0,)))
    i = v.index(n)
    return cs, x.get(i), r.get(i)


@contract('C09', 'Hermite inverse of order 2', [T + ':TrHermite._solve_quadratic', T + ':TrHermite._poly_inv'], conc='solve', budget=60)
def h3(v):
    (a, b, c), x, r = solver(v, 2)
    d = b * b - 4 * a * (c - x)
    v.assume(land(b > 0, d >= 0))
    v.ensure('root', a * r * r + b * r + c == x)
    v.ensure('root on the increasing branch', 2 * a * r + b >= 0)


def pure(v, name, f):
    """a polynomial fact about arbitrary reals"""
    n = f.__code__.co_argcount
    p = v.p
    xs = [p.fresh_real('g') for _ in range(n)]
    pc, univ = p.pc, p.univ
    p.pc, p.univ = [], []
    try:
        p.ensure(name, f(*xs), use=False)
    finally:
        p.pc, p.univ = pc, univ


def anyif(v, e):
    """e with the conditions of its case distinctions decided arbitrarily (a proof covers every decision)"""
    e = z3.simplify(lift(e).e)
    for _ in range(12):
        st, c, seen = [e], None, set()
        while st and c is None:
            q = st.pop()
            if q.get_id() in seen:
                continue
            seen.add(q.get_id())
            if z3.is_app_of(q, z3.Z3_OP_ITE):
                c = q.arg(0)
            st.extend(q.children())
        if c is None:
            return S(e)
        b = v.p.fresh_bool('any')
        e = z3.simplify(z3.substitute(e, (c, z3.BoolVal(bool(b)))))
    return S(e)


def terms_of(e, nm):
    return [S(t) for t in core.info(lift(e).e)[2] if t.decl().name() == nm]


@contract('C09', 'Hermite inverse of order 3', [T + ':TrHermite._solve_third_order', T + ':TrHermite._poly_inv'], conc='solve', budget=100)
def h4(v):
    (c0, c1, c2, c3), x, r = solver(v, 3)
    a, b, c = c1 / c0, c2 / c0, (c3 - x) / c0
    x0 = a / 3
    p1 = b / 3 - x0 * x0
    q0 = x0 * (x0 * x0 - b / 2) + c / 2
    q2 = q0 * q0 + p1 * p1 * p1

    def done(z):
        """a root z of the depressed cubic gives the root z - x0"""
        v.ensure('root (shifted)', r == z - x0)
        y = v.p.fresh_real('z')
        v.ensure('root (expansion)', c0 * (y * y * y + 3 * p1 * y + 2 * q0)
                 == c0 * (y - x0) * (y - x0) * (y - x0) + c1 * (y - x0) * (y - x0) + c2 * (y - x0) + c3 - x)
    e = lift(r).e
    three = None
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        three = v.case(S(e.arg(0)))
        r = S(e.arg(1 if three else 2))
    if not three:
        cb = terms_of(r, 'cbrt')
        for t, s in [(t, s) for t in cb for s in cb if t is not s]:
            if not v.p.provable(r == t - s - x0, 3):
                continue
            A, B = S(t.e.arg(0)), S(s.e.arg(0))
            qs = terms_of(A, 'sqrt')[0]
            arg = qs.e.arg(0)
            E = S(arg.arg(1) if z3.is_app_of(arg, z3.Z3_OP_ITE) else arg)
            v.ensure('discriminant', E == q2)
            v.ensure('square root of the discriminant', S(arg) == E)
            v.ensure('first cube', A == qs - q0)
            v.ensure('second cube', B == qs + q0)
            # t^3 = qs - q0, s^3 = qs + q0, t s = p1 since (t s)^3 = qs^2 - q0^2 = p1^3
            pure(v, 'cardano', lambda T, S_, P, Q0, R: implies(
                land(T * T * T == R - Q0, S_ * S_ * S_ == R + Q0, R * R == Q0 * Q0 + P * P * P, T * S_ == P),
                (T - S_) * (T - S_) * (T - S_) + 3 * P * (T - S_) + 2 * Q0 == 0))
            pure(v, 'product of the cubes', lambda P, Q0, R: implies(R * R == Q0 * Q0 + P * P * P, (R - Q0) * (R + Q0) == P * P * P))
            done(t - s)
            return
    else:
        if e.arg(0).num_args() == 2:
            v.ensure('three roots where the discriminant is negative', S(e.arg(0).arg(0) - e.arg(0).arg(1)) == q2)
        r = anyif(v, r)
        for d, k in [(d, k) for k in terms_of(r, 'cos') for d in terms_of(r, 'sqrt')]:
            ph = S(k.e.arg(0))
            for A in terms_of(ph, 'arccos'):
                t3 = 3 * ph - A
                if not v.p.provable(lor(t3 == 0, t3 == 2 * S(PI), t3 == -2 * S(PI)), 3) or not v.p.provable(r == 2 * d * k - x0, 3):
                    continue
                W = S(A.e.arg(0))
                pure(v, 'three roots only for negative p1', lambda P, Q0: implies(Q0 * Q0 + P * P * P < 0, P < 0))
                v.ensure('scale', S(d.e.arg(0)) == -p1)
                D = v.p.fresh_real('D')
                v.assume(D > 0)
                v.ensure('angle', S(z3.substitute(W.e, (d.e, D.e))) == -q0 / (D * D * D))
                v.ensure('trisected angle', lor(t3 == 0, t3 == 2 * S(PI), t3 == -2 * S(PI)))
                # 4 cos^3 - 3 cos = cos(3 ph) = W
                pure(v, 'cosine range', lambda P, Q0, D, W_: implies(
                    land(D > 0, D * D == -P, W_ * D * D * D == -Q0, Q0 * Q0 + P * P * P < 0), land(W_ <= 1, W_ >= -1)))
                pure(v, 'vieta', lambda P, Q0, D, W_, C_: implies(
                    land(D * D == -P, W_ * D * D * D == -Q0, 4 * C_ * C_ * C_ - 3 * C_ == W_),
                    8 * D * D * D * C_ * C_ * C_ + 6 * P * D * C_ + 2 * Q0 == 0))
                done(2 * d * k)
                return
    v.ensure('root', c0 * r * r * r + c1 * r * r + c2 * r + c3 == x)


# -- tabulated -----------------------------------------------------------------------------------------------------------------------
@contract('C09', 'tabulated transform', [K + ':TrData._dat2gauss', K + ':TrData._gauss2dat', K + ':TrData.__init__'], conc='tab')
def d1(v):
    n = v.int('n', 2)
    x, y = v.array('xt', n), v.array('yt', n)
    up, down = core.uf('up_', 1), core.uf('dn_', 1)
    calls = []

    def tranproc(a, b, q, *xi):
        way = 'up' if a is g[0].args and b is g[0].data else 'down' if a is g[0].data and b is g[0].args else 'wrong'
        calls.append((way, q, xi))
        f = {'up': up, 'down': down}.get(way)
        return S(f(lift(q).real().e))
    v.override(K, 'tranproc', tranproc)
    g = []

    class Plot(object):
        def __init__(self, data, args=None, **kw):
            self.data, self.args = data, args
            if not g:
                g.append(self)
    v.override(K, 'PlotData', Plot)
    ym, ys = v.real('ymean'), v.real('ysigma', gt=0)
    t = v.get(K, 'TrData')(y, x, ymean=ym, ysigma=ys)
    v.ensure('reported Gaussian parameters', land(t.ymean == ym, t.ysigma == ys))
    D = lambda q: S(down(lift(q).real().e))
    v.ensure('default mean is the image of the Gaussian mean', t.mean == D(ym))
    v.ensure('default sigma is half the image of two standard deviations', t.sigma * 2 == D(ym + ys) - D(ym - ys))
    m, s = v.real('mean'), v.real('sigma', gt=0)
    del g[:]
    t = v.get(K, 'TrData')(y, x, mean=m, sigma=s)
    v.ensure('given parameters', land(t.mean == m, t.sigma == s, t.ymean == 0, t.ysigma == 1))
    q, q1, q2 = v.real('q'), v.real('q1'), v.real('q2')
    for f, w in ((t.dat2gauss, 'up'), (t.gauss2dat, 'down')):
        del calls[:]
        r = f(q, q1, q2)
        v.ensure('table direction ' + w, len(calls) == 1 and calls[0][0] == w and calls[0][1] is q and calls[0][2] == (q1, q2))
    v.ensure('a table is its own table', t.trdata() is t)


def anytransform(v, mod, cls):
    C_ = v.get(mod, cls)

    G = core.uf('G_', 1)

    class X(C_):
        def _dat2gauss(self, x, *xi):
            return snp.ew(lambda q: S(G(lift(q).real().e)), x)
    g = X.__new__(X)
    g.mean, g.sigma, g.ymean, g.ysigma = v.real('mean'), v.real('sigma', gt=0), v.real('ymean'), v.real('ysigma', gt=0)
    return g, lambda q: S(G(lift(q).real().e))


@contract('C09', 'departure from the Gaussian process', [K + ':TrCommon.dist2gauss'], conc='linear')
def d2(v):
    g, G = anytransform(v, K, 'TrCommon')
    n = v.int('n', 2)
    x = v.array('x', n)
    d = g.dist2gauss(x)
    xn = lambda i: (x.get(i) - g.mean) / g.sigma
    e = lambda i: xn(i) - (G(x.get(i)) - g.ymean) / g.ysigma
    ref = v.refsum(n - 1, lambda i: (xn(i + 1) - xn(i)) * (e(i + 1) * e(i + 1) + e(i) * e(i)) / 2)
    v.ensure('trapezoidal rule', d == ref)
    d = g.dist2gauss(n=3)
    e = lambda u: u - (G(g.sigma * u + g.mean) - g.ymean) / g.ysigma
    v.ensure('default grid', d == 5 * (e(-5) * e(-5) + 2 * e(0) * e(0) + e(5) * e(5)) / 2)


@contract('C09', 'table of a transform', [T + ':TrCommon2.trdata'], conc='linear')
def d3(v):
    g, G = anytransform(v, T, 'TrCommon2')
    got = []
    v.override(T, 'TrData', lambda *a, **k: got.append((a, k)))
    n = v.int('n', 2)
    x = v.array('x', n)
    g.trdata(x)
    (yn, x2), kw = got[0]
    i = v.index(n)
    v.ensure('table', land(x2.shape[0] == n, yn.shape[0] == n, x2.get(i) == x.f0((i,)), yn.get(i) * g.ysigma == G(x.get(i)) - g.ymean,
                           kw['mean'] == g.mean, kw['sigma'] == g.sigma, kw.get('ymean', 0) == 0, kw.get('ysigma', 1) == 1))
    lo, hi = v.real('xnmin'), v.real('xnmax')
    g.trdata(xnmin=lo, xnmax=hi, n=n)
    (yn, x2), kw = got[1]
    v.ensure('default grid', land(x2.shape[0] == n, (x2.get(i) - g.mean) * (n - 1) == g.sigma * (lo * (n - 1) + i * (hi - lo)),
                                  yn.get(i) * g.ysigma == G(x2.get(i)) - g.ymean))
