"""C19 spectral moments and characteristics"""
from vf.api import *
from vf import ring
M = 'wafo.spectrum.core'
CLS = 'SpecData1D'
META = {'assumptions': ['scipy.integrate.simps is a linear functional of its integrand, homogeneous in its abscissae (its weights are not modelled: '
                        'integrals are named by their integrand and grid)',
                        'the spectrum has one strict maximum (Tp), positive moments (m0, m1, m2, m4) and positive radicands in eps2 and eps4']}
TWO_PI = 2 * S(PI)


def trig(x):
    return {e.decl().name() for e in core.walk([z3.simplify(lift(x).e)]) if z3.is_app(e)} & {'cos', 'sin'}


class Integrals(object):
    """the integration operator: an integral over a known grid is the named constant of the integrand it is proved proportional to"""

    def __init__(self, v, n, x, j0, f, s):
        self.v, self.n, self.x, self.j0, self.f, self.s, self.named = v, n, x, j0, f, s, []

    def name(self, nm, phi, pos=True):
        r = self.v.real(nm, gt=0) if pos else self.v.real(nm)
        self.named.append((r, phi))
        return r

    def _eq(self, f, g):
        """f(i) == g(i) at an arbitrary grid point"""
        p = self.v.p
        i = p.fresh_int('q')
        pc = p.pc + [lift(land(i >= 0, i < self.n)).e]
        goal = lift(lift(f(i)).real() == g(i)).e
        full = [d[0] for k, d in p.defs.items() if isinstance(k, tuple) and k[0] == 'sel' and getattr(d[0], 'is_full', False)]
        goal = z3.substitute(goal, *[(lift(sel.pos(j)).e, j.e) for sel in full for j in (i, self.j0)])
        # cheap refutation at two points before a proof is attempted
        for val in ((Q(7, 5), Q(3, 2), Q(5, 4)), (Q(3, 7), Q(4, 5), Q(2, 3))):
            at_ = lambda j, k: [(lift(self.f.get(j)).e, core.z3num(val[0] * k)), (lift(self.s.get(j)).e, core.z3num(val[1] * k * k)), (PI, core.z3num(Q(22, 7)))]
            e = z3.simplify(z3.substitute(goal, *(at_(i, 1) + at_(self.j0, val[2]))))
            if z3.is_false(e):
                return False
        if ring.prove_eq(pc, z3.simplify(goal)):
            return True
        return core.prove(pc, p.univ, p.idx + [i.e], goal, 4)[0] == 'proved'

    def factor(self, f, phi):
        """c with f(i) == c phi(i) for all i, or None"""
        if trig(f(self.j0)) != trig(phi(self.j0)):
            return None
        for c in (1, TWO_PI, 1 / TWO_PI):
            if self._eq(f, lambda i: c * phi(i)):
                return c
        c = vdiv(f(self.j0), phi(self.j0))
        if self._eq(f, lambda i: c * phi(i)):
            return c
        return None

    def __call__(self, y, x=None, dx=1, axis=-1, **kw):
        y = snp.asarray(y)
        if y.ndim != 1 or x is None:
            raise Unsupported('integral of this form')
        if y.k == 'c':
            return C(self(y.real, x), self(y.imag, x))
        x = snp.asarray(x)
        self.v.full_selections()
        self.v.ensure('integrand and grid of one length', y.shape[0] == x.shape[0])
        if not self.v.p.provable(lift(y.shape[0]) == self.n):
            return self.v.p.fresh_real('other')
        fx = lambda i: x.get(i)
        cx = self.factor(fx, self.x)
        if cx is None:
            return self.v.p.fresh_real('other')
        for r, phi in self.named:
            c = self.factor(lambda i: y.get(i), phi)
            if c is not None:
                return c * cx * r
        return self.v.p.fresh_real('other')


def ipow(x, k):
    r = 1
    for _ in range(k):
        r = r * x
    return r


def spectrum(v, ftype, positive=True):
    n = v.int('n', 2)
    f, s = v.array('f', n), v.array('S', n)
    v.assume(v.forall(n, lambda i: f.get(i) > 0 if positive else f.get(i) >= 0))
    v.assume(v.forall(n, lambda i: s.get(i) >= 0))
    j0 = v.index(n, 'j0')
    v.assume(land(f.get(j0) > 0, s.get(j0) > 0))
    v.lemma(S(PI) > 3)
    v.override('wafo.misc', 'now', lambda *a: 'now')
    v.override('wafo.containers', 'now', lambda *a: 'now')
    o = v.get(M, CLS)(s, f, type='k1d' if ftype == 'k' else 'freq', freqtype=ftype)
    sc = TWO_PI if ftype == 'f' else 1
    w = lambda i: sc * f.get(i)
    S_ = lambda i: vdiv(s.get(i), sc)
    I = Integrals(v, n, w, j0, f, s)
    v.override(M, 'simps', I)
    return o, n, w, S_, I, f, s, j0


def same_input(v, n, f, s):
    i = v.index(n)
    v.ensure('spectrum unchanged', land(f.get(i) == f.f0((i,)), s.get(i) == s.f0((i,))))


for _ft in ('w', 'f', 'k'):
    for _j in (0, 1):
        for _even in (True, False):
            @contract('C19', 'moments of order up to 8, %s spectrum, power %d, %s orders' % (_ft, _j + 1, 'even' if _even else 'all'),
                      [M + ':SpecData1D.moment'], conc='moment')
            def mo(v, ft=_ft, j=_j, even=_even):
                o, n, w, S_, I, f, s, j0 = spectrum(v, ft, False)
                ks = list(range(0, 9, 2 if even else 1))
                J = {k: I.name('I%d' % k, (lambda k: lambda i: ipow(w(i), k) * ipow(S_(i), j + 1))(k)) for k in ks}
                for nr in (0, 1, 2, 4, 8) if even and j == 0 else (8,):
                    m, txt = o.moment(nr, even, j)
                    want = [k for k in ks if k <= nr]
                    v.ensure('nr=%d: number' % nr, bool(len(m) == len(want) == len(txt)))
                    for a, k in zip(m, want):
                        v.ensure('nr=%d: moment %d' % (nr, k), a == J[k])
                same_input(v, n, f, s)


class Mom(object):
    """contract of moment (proved above) and the further integrals of characteristic"""

    def __init__(self, v, o, w, S_, I, squares=False):
        self.m = {k: I.name('m%d' % k, (lambda k: lambda i: ipow(w(i), k) * S_(i))(k)) for k in range(5)}
        self.q = {k: I.name('q%d' % k, (lambda k: lambda i: ipow(w(i), k) * S_(i) * S_(i))(k)) for k in range(9)}

        def moment(nr=2, even=True, j=0):
            src, t = (self.m, 'm0') if j == 0 else (self.q, 'm1')
            ks = range(0, nr + 1, 2 if even else 1)
            return [src[k] for k in ks], [t + 't' * k for k in ks]
        o.moment = moment


def shape(v, m):
    v.assume(m[0] * m[2] > m[1] * m[1])
    v.assume(m[0] * m[4] > m[2] * m[2])
    v.ensure('radicands', land(vdiv(m[0] * m[2], m[1] * m[1]) - 1 > 0, 1 - vdiv(m[2] * m[2], m[0] * m[4]) > 0))


for _ft in ('w', 'f', 'k'):
    @contract('C19', 'bandwidth factors, %s spectrum' % _ft, [M + ':SpecData1D.bandwidth'], conc='bandwidth')
    def bw(v, ft=_ft):
        o, n, w, S_, I, f, s, j0 = spectrum(v, ft, False)
        mm = Mom(v, o, w, S_, I)
        m = mm.m
        shape(v, m)
        want = [vdiv(m[2], vsqrt(m[0] * m[4])), vsqrt(vdiv(m[0] * m[2], m[1] * m[1]) - 1), vsqrt(1 - vdiv(m[2] * m[2], m[0] * m[4])),
                2 * vdiv(mm.q[1], m[0] * m[0])]
        for nm, arg, idx in [('all', [0, 1, 2, 3], (0, 1, 2, 3)), ('names', ['Qp', 'eps4', 'eps2', 'alpha', 'qp'], (3, 2, 1, 0, 3)),
                             ('one name', 'eps4', (2,)), ('one number', 1, (1,)), ('default', None, (0,)), ('mixed', [2, 'alpha', 2], (2, 0, 2))]:
            r = o.bandwidth() if arg is None else o.bandwidth(arg)
            v.ensure(nm + ': number', bool(r.shape == (len(idx),)))
            for k, j in enumerate(idx):
                v.ensure('%s: factor %d' % (nm, j), r.get(k) == want[j])
        same_input(v, n, f, s)


NAMES = ['Hm0', 'Tm01', 'Tm02', 'Tm24', 'Tm_10', 'Tp', 'Ss', 'Sp', 'Ka', 'Rs', 'Tp1', 'Alpha', 'Eps2', 'Eps4', 'Qp']


def setup(v, ft):
    o, n, w, S_, I, f, s, j0 = spectrum(v, ft)
    mm = Mom(v, o, w, S_, I)
    m = mm.m
    shape(v, m)
    T, g = v.real('T', gt=0), v.real('g', gt=0)
    kp = v.index(n, 'kp')
    v.assume(v.forall(n, lambda i: implies(lnot(lift(i) == kp), s.get(i) < s.get(kp))))
    v.assume(s.get(kp) > 0)
    mi = I.name('mi', lambda i: vdiv(S_(i), w(i)))
    qa = I.name('qa', lambda i: vdiv(S_(i) * S_(i), w(i)))
    qb = I.name('qb', lambda i: vdiv(S_(i) * S_(i), w(i) * w(i)))
    t0 = I.name('t0', lambda i: ipow(S_(i), 4))
    t1 = I.name('t1', lambda i: w(i) * ipow(S_(i), 4))
    Tm02 = TWO_PI * vsqrt(vdiv(m[0], m[2]))
    kc = I.name('kc', lambda i: S_(i) * fn1('cos', w(i) * Tm02), False)
    ks = I.name('ks', lambda i: S_(i) * fn1('sin', w(i) * Tm02), False)
    v.override(M, 'interp', interp(I, S_))
    return o, n, w, S_, I, f, s, m, mm, T, g, kp, mi, qa, qb, t0, t1, Tm02, kc, ks


LEV = z3.Function('level', z3.RealSort(), z3.RealSort())


def interp(I, S_):
    """linear interpolation in the table (w, S)"""
    def f(x, xp, fp, *a, **k):
        if a or k:
            raise Unsupported('interp with these arguments')
        c, d = I.factor(lambda i: xp.get(i), I.x), I.factor(lambda i: fp.get(i), S_)
        if c is None or d is None:
            return snp.ew(lambda t: I.v.p.fresh_real('other'), x)
        return snp.ew(lambda t: d * S(LEV(lift(vdiv(t, c)).real().e)), x)
    return f


def expected(v, st):
    o, n, w, S_, I, f, s, m, mm, T, g, kp, mi, qa, qb, t0, t1, Tm02, kc, ks = st
    Hm0 = 4 * vsqrt(m[0])
    Tp = vdiv(TWO_PI, w(kp))
    Rs = vdiv(sum(S(LEV(lift(Q(x, 10000) * TWO_PI).real().e)) for x in (146, 195, 244)), 3 * S_(kp))
    return [Hm0, TWO_PI * vdiv(m[0], m[1]), Tm02, TWO_PI * vsqrt(vdiv(m[2], m[4])), TWO_PI * vdiv(mi, m[0]), Tp,
            vdiv(TWO_PI * Hm0, g * Tm02 * Tm02), vdiv(TWO_PI * Hm0, g * Tp * Tp), vdiv(vsqrt(kc * kc + ks * ks), m[0]), Rs,
            TWO_PI * vdiv(t0, t1), vdiv(m[2], vsqrt(m[0] * m[4])), vsqrt(vdiv(m[0] * m[2], m[1] * m[1]) - 1),
            vsqrt(1 - vdiv(m[2] * m[2], m[0] * m[4])), 2 * vdiv(mm.q[1], m[0] * m[0])]


for _ft in ('w', 'f', 'k'):
    @contract('C19', 'characteristics, %s spectrum' % _ft, [M + ':SpecData1D.characteristic'], conc='characteristic')
    def ch(v, ft=_ft):
        st = setup(v, ft)
        o, n, w, S_, I, f, s, m, mm, T, g = st[:11]
        ch, R, txt = o.characteristic(list(range(15)), T, g)
        want = expected(v, st)
        v.ensure('number', bool(ch.shape == (15,) and R.shape == (15, 15)))
        v.ensure('names', bool(list(txt) == NAMES))
        for k in range(15):
            v.ensure(NAMES[k], ch.get(k) == want[k])
        same_input(v, n, f, s)


def gradients(m, mi, g, al, e2, e4):
    """characteristic -> {order of the moment (per Hz): partial derivative}; moments m[k] per Hz, mi of order -1;
    al, e2, e4: irregularity, narrowness and broadness factor (free of the unit of frequency)"""
    r = vsqrt
    k = vdiv(8 * S(PI), g)
    return {'Hm0': {0: vdiv(2, r(m[0]))},
            'Tm01': {0: vdiv(1, m[1]), 1: -vdiv(m[0], m[1] * m[1])},
            'Tm02': {0: vdiv(1, 2 * r(m[0] * m[2])), 2: -vdiv(r(vdiv(m[0], m[2])), 2 * m[2])},
            'Tm24': {2: vdiv(1, 2 * r(m[2] * m[4])), 4: -vdiv(r(vdiv(m[2], m[4])), 2 * m[4])},
            'Tm_10': {-1: vdiv(1, m[0]), 0: -vdiv(mi, m[0] * m[0])},
            'Ss': {0: -vdiv(k * m[2], 2 * m[0] * r(m[0])), 2: vdiv(k, r(m[0]))},
            'Alpha': {0: -vdiv(al, 2 * m[0]), 2: vdiv(1, r(m[0] * m[4])), 4: -vdiv(al, 2 * m[4])},
            'Eps2': {0: vdiv(m[2], 2 * e2 * m[1] * m[1]), 1: -vdiv(m[0] * m[2], e2 * m[1] * m[1] * m[1]), 2: vdiv(m[0], 2 * e2 * m[1] * m[1])},
            'Eps4': {0: vdiv(al * al, 2 * e4 * m[0]), 2: -vdiv(m[2], e4 * m[0] * m[4]), 4: vdiv(al * al, 2 * e4 * m[4])}}


for _ft in ('w', 'f'):
    @contract('C19', 'variances of characteristics, %s spectrum' % _ft, [M + ':SpecData1D.characteristic'], conc='variance')
    def va(v, ft=_ft):
        st = setup(v, ft)
        o, n, w, S_, I, f, s, m, mm, T, g, kp, mi, qa, qb = st[:15]
        ch, R, txt = o.characteristic(list(range(15)), T, g)
        mz = {k: vdiv(m[k], ipow(TWO_PI, k)) for k in range(5)}
        cov = {k: vdiv(mm.q[k], T * ipow(TWO_PI, k - 1)) if k > 0 else vdiv(TWO_PI * mm.q[0], T) for k in range(9)}
        cov[-1], cov[-2] = vdiv(TWO_PI * TWO_PI * qa, T), vdiv(TWO_PI * TWO_PI * TWO_PI * qb, T)
        e2, e4 = vsqrt(vdiv(m[0] * m[2], m[1] * m[1]) - 1), vsqrt(1 - vdiv(m[2] * m[2], m[0] * m[4]))
        G = gradients(mz, TWO_PI * mi, g, vdiv(m[2], vsqrt(m[0] * m[4])), e2, e4)
        v.ensure('roots', land(e2 > 0, e4 > 0))
        v.ensure('positive', land(mz[4] > 0, mz[2] > 0, mz[1] > 0))
        for k, e in ((12, e2), (13, e4)):
            v.ensure('value of ' + NAMES[k], ch.get(k) == e)
            v.ensure(NAMES[k] + ' not zero', ch.get(k) > 0)
        for nm, gr in G.items():
            k = NAMES.index(nm)
            v.ensure(nm, R.get(k, k) == sum(a * b * cov[p + q] for p, a in gr.items() for q, b in gr.items()))
        c12 = sum(a * b * cov[p + q] for p, a in G['Tm01'].items() for q, b in G['Tm02'].items())
        v.ensure('Tm01 and Tm02', R.get(1, 2) == c12)
        v.ensure('symmetric', R.get(2, 1) == R.get(1, 2))


for _n, _a in enumerate([('Tm02', (2,)), (['Qp', 'Hm0', 'Tp'], (14, 0, 5)), (3, (3,)), (('Tm_10', 6, 'alpha', 6), (4, 6, 11, 6)), (['eps4', 'EPS2'], (13, 12))]):
    @contract('C19', 'characteristics asked for as %s' % (_a[0],), [M + ':SpecData1D.characteristic'], conc='characteristic')
    def su(v, arg=_a[0], idx=_a[1]):
        st = setup(v, 'w')
        o, n, w, S_, I, f, s, m, mm, T, g = st[:11]
        want = expected(v, st)
        ch, R, txt = o.characteristic(arg, T, g)
        v.ensure('number', bool(ch.shape == (len(idx),) and R.shape == (len(idx), len(idx)) and len(txt) == len(idx)))
        v.ensure('names', bool([NAMES[k] for k in idx] == list(txt)))
        for k, j in enumerate(idx):
            v.ensure(NAMES[j], ch.get(k) == want[j])


@contract('C19', 'unknown characteristics are refused', [M + ':SpecData1D.characteristic'])
def bad(v):
    o = spectrum(v, 'w')[0]
    for b in (15, -1, ['Hm0', 'nonsense'], [3, 15]):
        v.ensure('%s refused' % (b,), v.raises(ValueError, o.characteristic, b))


@contract('C19', 'change of frequency unit', [M + ':SpecData1D.freqtype'], conc='unit')
def un(v):
    n = v.int('n', 1)
    f, s = v.array('f', n), v.array('S', n)
    v.override('wafo.misc', 'now', lambda *a: 'now')
    v.override('wafo.containers', 'now', lambda *a: 'now')
    v.lemma(S(PI) > 3)
    i = v.index(n)
    for a, b in (('w', 'f'), ('f', 'w'), ('w', 'w'), ('f', 'f')):
        x, y = snp.array(f), snp.array(s)
        o = v.get(M, CLS)(y, x, freqtype=a)
        o.freqtype = b
        c = TWO_PI if (a, b) == ('f', 'w') else 1 / TWO_PI if (a, b) == ('w', 'f') else 1
        v.ensure('%s to %s: unit' % (a, b), bool(o.freqtype == b))
        v.ensure('%s to %s: frequency' % (a, b), o.args.get(i) == c * f.get(i))
        v.ensure('%s to %s: density' % (a, b), o.data.get(i) == vdiv(s.get(i), c))


def two_dim(v, ftype='dir'):
    nt, n = v.int('nt', 2), v.int('n', 2)
    th, w, s = v.array('th', nt), v.array('w', n), v.array('S', nt, n)
    v.assume(v.forall(n, lambda i: w.get(i) >= 0))
    phi, g = v.real('phi'), v.real('g', gt=0)
    v.override('wafo.misc', 'now', lambda *a: 'now')
    v.override('wafo.containers', 'now', lambda *a: 'now')
    o = v.get(M, 'SpecData2D')(s, [w, th], type=ftype, freqtype='w')
    o.phi, o.g = phi, g
    return o, nt, n, th, w, s, phi, g


class Double(object):
    """integration over direction, then over frequency: each operator names the integrals of known integrands"""

    def __init__(self, v, nt, n, th, w, s, phi, g):
        self.v, self.nt, self.n, self.th, self.w, self.s, self.phi, self.g = v, nt, n, th, w, s, phi, g
        self.J = {}
        self.I = {}
        for d in range(5):
            for a in range(d + 1):
                b = d - a
                J = z3.Function('J%d%d' % (a, b), z3.IntSort(), z3.RealSort())
                self.J[a, b] = J
                for c in range(5 - d):
                    self.I[a, b, c] = v.real('m%d%d%d' % (a, b, c))

    def inner(self, a, b):
        def f(j, i):
            t = self.th.get(j) - self.phi
            return self.s.get(j, i) * ipow(fn1('cos', t), a) * ipow(fn1('sin', t), b)
        return f

    def outer(self, a, b, c):
        def f(i):
            k = vdiv(self.w.get(i) * self.w.get(i), self.g)
            return ipow(k, a + b) * ipow(self.w.get(i), c) * S(self.J[a, b](lift(i).e))
        return f

    def same(self, f, g, n, *more):
        p = self.v.p
        ix = [p.fresh_int('q') for _ in range(1 + len(more))]
        pc = p.pc + [lift(land(i >= 0, i < m)).e for i, m in zip(ix, (n,) + more)]
        return ring.prove_eq(pc, lift(lift(f(*ix)).real() == g(*ix)).e)

    def __call__(self, y, x=None, dx=1, axis=-1, **kw):
        y, x = snp.asarray(y), snp.asarray(x)
        p = self.v.p
        if y.ndim == 2:
            if axis not in (0, -2) or not p.provable(lift(y.shape[0]) == self.nt) or not self.same(lambda j: x.get(j), lambda j: self.th.get(j) - self.phi, self.nt):
                raise Unsupported('integral of this form')
            self.v.ensure('integrand over the whole grid', y.shape[1] == self.n)
            # the powers of the cosine and sine are read off by proof
            for (a, b), J in self.J.items():
                if self.same(lambda j, i: y.get(j, i), self.inner(a, b), self.nt, self.n):
                    return SArr.new(lambda ix: S(J(lift(ix[0]).e)), 'r', (self.n,))
            r = z3.Function(p.fresh('otherJ'), z3.IntSort(), z3.RealSort())
            return SArr.new(lambda ix: S(r(lift(ix[0]).e)), 'r', (self.n,))
        if y.ndim != 1 or not self.same(lambda i: x.get(i), lambda i: self.w.get(i), self.n):
            raise Unsupported('integral of this form')
        used = {e.decl().name() for e in core.walk([lift(y.get(p.fresh_int('q'))).e]) if z3.is_app(e)}
        for (a, b, c), r in self.I.items():
            if 'J%d%d' % (a, b) in used and self.same(lambda i: y.get(i), self.outer(a, b, c), self.n):
                return r
        return p.fresh_real('other')


for _nr, _vari in ((0, 'xyt'), (1, 'xyt'), (2, 'xyt'), (4, 'xyt'), (4, 'tx'), (4, 'Y'), (2, 'yt'), (4, 'yx'), (3, 'xt'), (2, None), (1, None)):
    @contract('C19', 'directional moments, nr=%d, %s' % (_nr, _vari), [M + ':SpecData2D.moment'], conc='moment2')
    def m2(v, nr=_nr, vari=_vari):
        o, nt, n, th, w, s, phi, g = two_dim(v)
        D = Double(v, nt, n, th, w, s, phi, g)
        v.override(M, 'simps', D)
        try:
            m, txt = o.moment(nr, vari)
        except UnboundLocalError:
            if vari in ('yt',):
                return                  # known finding: the x direction is used for myt
            raise
        vs = [c for c in 'xyt' if c in ((vari or ('x' if nr <= 1 else 'xt')).lower())]
        want = {'m0'}
        import itertools
        for d in ((1,) if nr >= 1 else ()) + ((2,) if nr >= 2 else ()) + ((4,) if nr >= 4 else ()):
            want |= {'m' + ''.join(t) for t in itertools.combinations_with_replacement(vs, d)}
        v.ensure('every moment once', bool(len(txt) == len(set(txt)) == len(want) and set(txt) == want))
        v.ensure('one value each', bool(m.shape == (len(txt),)))
        for k, t in enumerate(txt):
            q = t[1:].replace('0', '')
            if t == 'myt':              # known finding: pinned to mxt
                v.ensure(t, lor(m.get(k) == D.I[0, 1, 1], m.get(k) == D.I[1, 0, 1]))
            else:
                v.ensure(t, m.get(k) == D.I[q.count('x'), q.count('y'), q.count('t')])
        i, j = v.index(n), v.index(nt, 'j')
        v.ensure('spectrum unchanged', land(s.get(j, i) == s.f0((j, i)), w.get(i) == w.f0((i,)), th.get(j) == th.f0((j,))))


@contract('C19', 'directional moments refuse one-dimensional types', [M + ':SpecData2D.moment', M + ':SpecData1D.moment'])
def rf(v):
    o = two_dim(v, 'dir')[0]
    o.type = 'freq'
    v.ensure('refused', v.raises(ValueError, o.moment))
    s = spectrum(v, 'w')[0]
    s.type = 'dir'
    v.ensure('1D refused', v.raises(ValueError, s.moment))
