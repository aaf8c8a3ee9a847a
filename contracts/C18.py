"""C18 parametric wave spectra and spreading functions"""
from vf.api import *
M = 'wafo.spectrum.models'
META = {'assumptions': ['scipy.special.gammaln/gamma are the (log) gamma function, gamma positive for positive arguments',
                        'Jonswap: the normalisation Ag computed by numerical integration is arbitrary (positive) in the contracts; its value is checked by bounded search only',
                        'w2k: k >= 0 solves the dispersion relation (contract of C09)']}
GL = z3.Function('gammaln', z3.RealSort(), z3.RealSort())


def gammaln(x):
    return snp.ew(lambda t: S(GL(lift(t).real().e)), x)


def gamma(x):
    return snp.ew(lambda t: fn1('exp', S(GL(lift(t).real().e))), x)


class SP(object):
    gammaln = staticmethod(gammaln)
    gamma = staticmethod(gamma)


def special(v):
    v.override(M, 'sp', SP)


def pw(x, y):
    return fn1('exp', y * fn1('log', x))


def gg(w, N, M_):
    """generalised gamma spectrum of the docstring, w > 0"""
    B, C_ = vdiv(N, M_), vdiv(N - 1, M_)
    return pw(B, C_) * M_ * fn1('exp', -gammaln(C_)) * pw(w, -N) * fn1('exp', -B * pw(w, -M_))


def expo(v, gen):
    if not gen:
        return 5, 4
    N, M_ = v.real('N', gt=1), v.real('M', gt=0)
    return N, M_


for _gen in (False, True):
    @contract('C18', 'generalised gamma spectrum%s' % (', any exponents' if _gen else ''), [M + ':_gengamspec'], conc='models')
    def ga(v, gen=_gen):
        special(v)
        N, M_ = expo(v, gen)
        n = v.int('n', 1)
        w = v.array('w', n)
        i = v.index(n)
        r = v.call(M, '_gengamspec', w, N, M_) if gen else v.call(M, '_gengamspec', w)
        v.ensure('shape', r.shape[0] == n)
        v.ensure('zero for w <= 0', implies(w.get(i) <= 0, r.get(i) == 0))
        if v.case(w.get(i) > 0):
            v.ensure('formula', r.get(i) == gg(w.get(i), N, M_))
            v.ensure('positive', r.get(i) > 0)
        v.ensure('input unchanged', w.get(i) == w.f0((i,)))


# ---- model spectra, with the generalised gamma spectrum by contract -----------------------------------------
GF = z3.Function('gengam', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())


def G(w, N, M_):
    return S(GF(lift(w).real().e, lift(N).real().e, lift(M_).real().e))


def shape_fun(v):
    """_gengamspec by its contract: zero at and below zero frequency, non-negative elsewhere (the formula is proved above)"""
    def f(wn, N=5, M=4):
        return snp.ew(lambda t: ite(lift(t) > 0, G(t, N, M), 0), snp.asarray(wn) if isinstance(wn, SArr) else snp.atleast_1d(wn))
    v.override(M, '_gengamspec', f)


def npos(v, w, N, M_):
    v.assume(G(w, N, M_) >= 0)


def seastate(v, lo=None):
    H, T = v.real('Hm0', gt=0), v.real('Tp', gt=0)
    return H, T


def freqs(v):
    n = v.int('n', 1)
    w = v.array('w', n)
    return n, w, v.index(n)


def common(v, r, n, w, i, H, T, factor, N=5, M_=4, nm=''):
    """r = (Hm0/4)**2/wp * factor * G(w/wp)"""
    wp = vdiv(2 * S(PI), T)
    wn = vdiv(w.get(i), wp)
    v.ensure(nm + 'shape', r.shape[0] == n)
    v.ensure(nm + 'zero for w <= 0', implies(w.get(i) <= 0, r.get(i) == 0))
    if v.case(w.get(i) > 0):
        npos(v, wn, N, M_)
        v.ensure(nm + 'normalised frequency', wn > 0)
        f = factor(wn) if callable(factor) else factor
        v.ensure(nm + 'formula', r.get(i) == H * H * T * Q(1, 32) * f * vdiv(G(wn, N, M_), S(PI)))
        v.ensure(nm + 'non-negative', r.get(i) >= 0)


@contract('C18', 'Bretschneider', [M + ':Bretschneider.__call__', M + ':Bretschneider.__init__'], conc='models')
def br(v):
    shape_fun(v)
    H, T = seastate(v)
    N, M_ = expo(v, True)
    n, w, i = freqs(v)
    S_ = v.get(M, 'Bretschneider')(H, T, N, M_)
    common(v, S_(w), n, w, i, H, T, 1, N, M_)
    d = v.get(M, 'Bretschneider')(H, T)
    v.ensure('default exponents', bool(d.N == 5 and d.M == 4))
    c = v.real('c', gt=0)
    S2 = v.get(M, 'Bretschneider')(c * H, T, N, M_)
    v.ensure('scales with the squared wave height', S2(w).get(i) == c * c * S_(w).get(i))
    v.ensure('input unchanged', w.get(i) == w.f0((i,)))


@contract('C18', 'sea states refused', [M + ':ModelSpectrum.chk_seastate'], conc='models')
def ss(v):
    shape_fun(v)
    H, T = v.real('Hm0'), v.real('Tp')
    B = v.get(M, 'Bretschneider')
    v.ensure('exactly negative heights and non-positive periods', iff(v.raises(ValueError, B, H, T), lor(H < 0, T <= 0)))


@contract('C18', 'zero wave height', [M + ':Bretschneider.__call__', M + ':Jonswap.__call__'], conc='models')
def zh(v):
    shape_fun(v)
    n, w, i = freqs(v)
    T = v.real('Tp', gt=0)
    v.ensure('Bretschneider zero', v.get(M, 'Bretschneider')(0, T)(w).get(i) == 0)
    v.ensure('Jonswap zero', v.get(M, 'Jonswap')(0, T, 2, Ag=1)(w).get(i) == 0)


def peak(wn, gam, sa, sb):
    s = ite(lift(wn) > 1, sb, sa)
    x = vdiv(vmax(wn, 0) - 1, s)
    return vpow(gam, fn1('exp', -x * x * Q(1, 2)))


@contract('C18', 'Jonswap', [M + ':Jonswap.__call__', M + ':Jonswap.__init__', M + ':Jonswap.peak_e_factor', M + ':Jonswap._custom_ag'], conc='models')
def jo(v):
    shape_fun(v)
    H, T = seastate(v)
    N, M_ = expo(v, True)
    n, w, i = freqs(v)
    g, sa, sb, ag = v.real('gamma', gt=1), v.real('sigmaA', gt=0), v.real('sigmaB', gt=0), v.real('Ag', gt=0)
    J = v.get(M, 'Jonswap')(H, T, gamma=g, sigmaA=sa, sigmaB=sb, Ag=ag, N=N, M=M_, chk_seastate=False)
    r = J(w)
    common(v, r, n, w, i, H, T, lambda wn: ag * peak(wn, g, sa, sb), N, M_)
    v.ensure('normalisation kept', J.Ag == ag)


@contract('C18', 'Jonswap with gamma 1', [M + ':Jonswap.__call__', M + ':Jonswap._pre_calculate_ag'], conc='models')
def jo1(v):
    shape_fun(v)
    H, T = seastate(v)
    n, w, i = freqs(v)
    J = v.get(M, 'Jonswap')(H, T, gamma=1, chk_seastate=False)
    common(v, J(w), n, w, i, H, T, 1)


@contract('C18', 'Jonswap normalised by integration', [M + ':Jonswap._integrate_ag', M + ':Jonswap._localspec', M + ':Jonswap.peak_e_factor'], conc='norm')
def jo2(v):
    shape_fun(v)
    H, T = seastate(v)
    N, M_ = expo(v, True)
    g, sa, sb, wnc = v.real('gamma', gt=1), v.real('sigmaA', gt=0), v.real('sigmaB', gt=0), v.real('wnc', gt=1)
    t = v.real('t', gt=0)
    areas, calls = [v.real('area1', gt=0), v.real('area2', gt=0)], []

    class Quad(object):
        @staticmethod
        def quad(f, a, b, **kw):
            val = f(t)
            val = val.get(0) if isinstance(val, SArr) else val
            calls.append((val, a, b))
            return areas[len(calls) - 1], 0
    v.override(M, 'integrate', Quad)
    J = v.get(M, 'Jonswap')(H, T, gamma=g, sigmaA=sa, sigmaB=sb, N=N, M=M_, wnc=wnc, chk_seastate=False)
    v.ensure('two pieces from zero to the cut-off', land(len(calls) == 2, lift(calls[0][1]) == 0, calls[0][2] == calls[1][1], lift(calls[1][2]) == wnc))
    ref = peak(t, g, sa, sb) * G(t, N, M_)
    v.ensure('integrand', land(calls[0][0] == ref, calls[1][0] == ref))
    v.ensure('unit area', J.Ag * (areas[0] + areas[1]) == 1)
    v.ensure('cut-off below the peak refused', v.raises(ValueError, v.get(M, 'Jonswap'), H, T, gamma=g, wnc=Q(1, 2), chk_seastate=False))
    v.ensure('non-positive normalisation refused', v.raises(ValueError, v.get(M, 'Jonswap'), H, T, gamma=g, Ag=-1, chk_seastate=False))


@contract('C18', 'peakedness factor', [M + ':jonswap_peakfact'], conc='models')
def pf(v):
    n = v.int('n', 1)
    H, T = v.array('Hm0', n), v.array('Tp', n)
    i = v.index(n)
    v.assume(v.forall(n, lambda q: land(H.get(q) > 0, T.get(q) > 0)))
    r = v.call(M, 'jonswap_peakfact', H, T)
    x = vdiv(T.get(i), vsqrt(H.get(i)))
    lim = Q('5.14285714285714')
    v.ensure('one for long periods', implies(x > lim, r.get(i) == 1))
    if v.case(x <= lim):
        D = Q('0.036') - Q('0.0056') * x
        ref = fn1('exp', Q('3.484') * (1 - Q('0.1975') * D * x * x * x * x))
        v.ensure('formula', r.get(i) == ite(ref <= 7, ref, 7))
    v.ensure('at most 7', r.get(i) <= 7)


# ---- finite depth -----------------------------------------------------------------------------------------------
K2 = z3.Function('k_h', z3.RealSort(), z3.RealSort())


def wavenumber(v, h, g):
    """w2k by its contract: k >= 0 solves w**2 = g k tanh(k h)"""
    def w2k(w, theta=0.0, h_=float('inf'), g=g, **kw):
        d = kw.get('h', h_)

        def f(t):
            t = lift(t)
            if core.is_inf(d):
                return vdiv(t * t, g)
            return S(K2(t.real().e))
        r = snp.ew(f, w)
        return r, snp.zeros_like(r) if isinstance(r, SArr) else 0
    v.override(M, 'w2k', w2k)

    def at(t):
        k = S(K2(lift(t).real().e))
        v.assume(land(k >= 0, g * k * fn1('tanh', k * h) == t * t))
        v.assume(implies(t > 0, k > 0))
        return k
    return at


@contract('C18', 'depth factor', [M + ':phi1'], conc='models')
def ph(v):
    h, g = v.real('h', gt=0), v.real('g', gt=0)
    at = wavenumber(v, h, g)
    n, w, i = freqs(v)
    v.assume(v.forall(n, lambda q: w.get(q) >= 0))
    r = v.call(M, 'phi1', w, h, g)
    k = at(w.get(i))
    v.ensure('shape', r.shape[0] == n)
    v.ensure('zero at zero frequency', implies(w.get(i) == 0, r.get(i) == 0))
    if v.case(w.get(i) > 0):
        kh = k * h
        k1 = vdiv(w.get(i) * w.get(i), g)
        c = fn1('cosh', kh)
        v.ensure('positive argument', kh > 0)
        den = fn1('tanh', kh) + vdiv(kh, c * c)
        v.ensure('group velocity positive', den > 0)
        v.ensure('ratio of the wave number spectra', r.get(i) == vdiv(k1 * k1 * k1, k * k * k * den))
        v.ensure_gen('positive', vdiv(k1 * k1 * k1, k * k * k * den) > 0, [], [k1, den, k], lambda a, b, c: land(a > 0, b > 0, c > 0))
    o = v.call(M, 'phi1', w, float('inf'), g)
    v.ensure('one in deep water', o.get(i) == 1)


@contract('C18', 'TMA spectrum', [M + ':Tmaspec.__call__', M + ':Tmaspec.phi', M + ':Tmaspec.__init__'], conc='models')
def tma(v):
    shape_fun(v)
    P = z3.Function('phi', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
    phi = lambda t, h, g: S(P(lift(t).real().e, lift(h).real().e, lift(g).real().e))
    v.override(M, 'phi1', lambda wi, h, g=Q('9.81'): snp.ew(lambda t: phi(t, h, g), wi))
    H, T = seastate(v)
    n, w, i = freqs(v)
    h, g = v.real('h', gt=0), v.real('g', gt=0)
    ga, ag = v.real('gamma', gt=1), v.real('Ag', gt=0)
    J = v.get(M, 'Jonswap')(H, T, gamma=ga, Ag=ag, chk_seastate=False)
    X = v.get(M, 'Tmaspec')(H, T, gamma=ga, Ag=ag, chk_seastate=False, h=h, g=g)
    v.ensure('Jonswap times depth factor', X(w).get(i) == J(w).get(i) * phi(w.get(i), h, g))
    h2, g2 = v.real('h2', gt=0), v.real('g2', gt=0)
    v.ensure('depth and gravity of the call', X(w, h2, g2).get(i) == J(w).get(i) * phi(w.get(i), h2, g2))
    d = v.get(M, 'Tmaspec')(H, T, gamma=ga, Ag=ag, chk_seastate=False)
    v.ensure('default depth and gravity', d(w).get(i) == J(w).get(i) * phi(w.get(i), 42, Q('9.81')))


# ---- composite spectra -----------------------------------------------------------------------------------------
class Part(object):
    """a component spectrum: records its parameters, its values are arbitrary"""
    def __init__(self, *a, **kw):
        self.par = dict(zip(('Hm0', 'Tp'), a), **kw)
        self.F = z3.Function(core.CUR.fresh('part'), z3.RealSort(), z3.RealSort())

    def __call__(self, w):
        return snp.ew(lambda t: S(self.F(lift(t).real().e)), w)


def qc(s):
    return Q(s)


@contract('C18', 'Torsethaugen', [M + ':Torsethaugen.__call__', M + ':Torsethaugen._init_spec'], conc='models')
def to(v):
    special(v)
    H, T, g = v.real('Hm0', gt=0), v.real('Tp', gt=0), v.real('gravity', gt=0)
    v.override(M, 'Jonswap', Part)
    Tf = Q('6.6') * vpow(H, Q(1, 3))
    Tl = 2 * vsqrt(H)
    v.assume(land(Tf != Tl, Tf != 25))
    X = v.get(M, 'Torsethaugen')(H, T, gravity=g, chk_seastate=False)
    n, w, i = freqs(v)
    a, b = X.wind.par, X.swell.par
    v.ensure('sum of the parts', X(w).get(i) == X.wind(w).get(i) + X.swell(w).get(i))
    clip = lambda x: vmin(vmax(x, 0), 1)
    el, eu = clip(vdiv(Tf - T, Tf - Tl)), clip(vdiv(T - Tf, 25 - Tf))
    E = lambda x: fn1('exp', x)
    N = vsqrt(H) / 2 + Q('3.2')
    v.ensure('exponents N', land(a['N'] == N, b['N'] == N))
    wind = v.case(T < Tf)
    big, small = (a, b) if wind else (b, a)
    r = vmin(Q('0.3') * E(-(el / Q('0.5')) * (el / Q('0.5'))) + Q('0.7'), 1) if wind else vmin(Q('0.4') * E(-(eu / Q('0.3')) * (eu / Q('0.3'))) + Q('0.6'), 1)
    v.ensure('height of the main part', big['Hm0'] == r * H)
    v.ensure('share between 0 and 1', land(r > 0, r <= 1))
    v.ensure('the other part has the remaining energy', land(small['Hm0'] == vsqrt(1 - r * r) * H, small['Hm0'] * small['Hm0'] + r * H * r * H == H * H))
    v.ensure('peak period of the main part', big['Tp'] == T)
    v.ensure('the other part is not peaked', small['gamma'] == 1)
    k = 35 * (1 + Q('3.5') * E(-H))
    if wind:
        gam = k * vpow(2 * S(PI) / g * r * H / (T * T), Q('0.857'))
        v.ensure('swell', land(b['Tp'] == Tf + 2, b['M'] == 4, a['M'] == 4))
    else:
        gam = k * vpow(2 * S(PI) / g * H / (Tf * Tf), Q('0.857')) * (1 + 6 * eu)
        Mw = 4 * (1 - Q('0.7') * E(-H / 3))
        v.ensure('exponents M', land(b['M'] == 4, a['M'] == Mw))
        hw = a['Hm0']
        B, C_ = N / Mw, (N - 1) / Mw
        if v.case(lift(hw) > 0):
            G0 = vpow(B, C_) * Mw / gamma(C_)
            v.ensure('peak period of the wind sea', a['Tp'] == vpow(16 * Q('0.08') * (1 - E(-H / 3)) * vpow(Q('0.4'), N) / (G0 * hw * hw), vdiv(-1, N - 1)))
        else:
            v.ensure('no wind sea', core.is_inf(a['Tp']))
    v.ensure('peakedness', big['gamma'] == vmax(gam, 1))
    v.ensure('peakedness at least one', big['gamma'] >= 1)


@contract('C18', 'Ochi Hubble', [M + ':OchiHubble.__call__', M + ':OchiHubble._init_spec'], conc='models')
def oh(v):
    H = v.real('Hm0', gt=0)
    v.override(M, 'Bretschneider', Part)
    hp = [['0.84', '0.54']] * 5 + [['0.95', '0.31'], ['0.65', '0.76'], ['0.9', '0.44'], ['0.77', '0.64'], ['0.73', '0.68'], ['0.92', '0.39']]
    wa = [['.7', '1.15'], ['.93', '1.5'], ['.41', '.88'], ['.74', '1.3'], ['.62', '1.03'], ['.7', '1.5'], ['.61', '.94'], ['.81', '1.6'], ['.54', '.61'], ['.7', '.99'], ['.7', '1.37']]
    wb = [['.046', '.039'], ['.056', '.046'], ['.016', '.026'], ['.052', '.039'], ['.039', '.03'], ['.046', '.046'], ['.039', '.036'], ['.052', '.033'], ['.039', '0'], ['.046', '.039'], ['.046', '.039']]
    la = [['3', '1.54', '-.062'], ['3', '2.77', '-.112'], ['2.55', '1.82', '-.089'], ['2.65', '3.9', '-.085'], ['2.6', '.53', '-.069'], ['1.35', '2.48', '-.102'], ['4.95', '2.48', '-.102'],
          ['1.8', '2.95', '-.105'], ['4.5', '1.95', '-.082'], ['6.4', '1.78', '-.069'], ['.7', '1.78', '-.069']]
    n, w, i = freqs(v)
    for par in range(11):
        X = v.get(M, 'OchiHubble')(H, par)
        v.ensure('sum of the parts', X(w).get(i) == X.wind(w).get(i) + X.swell(w).get(i))
        for k, P in enumerate((X.swell, X.wind)):
            q = P.par
            L = Q(la[par][0]) if k == 0 else Q(la[par][1]) * fn1('exp', Q(la[par][2]) * H)
            v.ensure('parameters of the table, %d' % par, land(q['Hm0'] == Q(hp[par][k]) * H, q['M'] == 4, q['N'] == 4 * L + 1,
                                                              q['Tp'] == 2 * S(PI) * fn1('exp', Q(wb[par][k]) * H) / Q(wa[par][k])))
    for par in (-1, 11):
        v.ensure('parameter out of range refused', v.raises(ValueError, v.get(M, 'OchiHubble'), H, par))


@contract('C18', 'McCormick and Wallop', [M + ':McCormick.__init__', M + ':Wallop.__init__', M + ':Bretschneider.__call__'], conc='models')
def mw(v):
    shape_fun(v)
    H, T = seastate(v)
    n, w, i = freqs(v)
    m = v.real('M', gt=0)
    X = v.get(M, 'McCormick')(H, T, M=m)
    B = v.get(M, 'Bretschneider')(H, T, m + 1, m)
    v.ensure('McCormick', X(w).get(i) == B(w).get(i))
    N = v.real('N', gt=1)
    X = v.get(M, 'Wallop')(H, T, N)
    B = v.get(M, 'Bretschneider')(H, T, N, 4)
    v.ensure('Wallop', X(w).get(i) == B(w).get(i))
    at = wavenumber(v, 0, Q('9.81'))
    X = v.get(M, 'Wallop')(H, T)
    kp = 4 * S(PI) * S(PI) / (T * T) / Q('9.81')
    eps = 2 * S(PI) * S(PI) * vpow(H * kp / (8 * S(PI)), 2)
    L = fn1('log', 2 * S(PI) * S(PI)) + 2 * fn1('log', H / 4) - 2 * fn1('log', 2 * S(PI) / kp)
    v.ensure('Wallop: exponent from the steepness', X.N == vabs(L / fn1('log', 2)))


# ---- directional spreading -------------------------------------------------------------------------------------
class SPI(SP):
    @staticmethod
    def ive(o, x):
        f = z3.Function('ive%s' % o, z3.RealSort(), z3.RealSort())
        return snp.ew(lambda t: S(f(lift(t).real().e)), x)


def spread(v, typ, method=None, par=None, **kw):
    v.override(M, 'sp', SPI)
    th0 = v.real('theta0')
    X = v.get(M, 'Spreading')(typ, theta0=th0, method=method, **kw)
    if par is not None:          # the parameter with the given first Fourier coefficient, found numerically
        X.fourier2distpar = lambda r1: snp.ew(par, r1)
    nt = v.int('nt', 1)
    th = v.array('theta', nt)
    i = v.index(nt)
    psi, m = v.real('psi'), v.int('turns')
    v.assume(land(psi >= -S(PI), psi < S(PI), th.get(i) == th0 + psi + 2 * S(PI) * lift(m).real()))
    return X, th, nt, i, psi


def angle_of(v, X, th, i, psi):
    """the angle from the main direction used by the code is the one in [-pi, pi)"""
    t = X.chk_input(th, 1, 1)[1]
    t = t.get(i, 0)
    v.ensure('angle in [-pi, pi)', land(t >= -S(PI), t < S(PI)))
    v.ensure('angle from the main direction', t == psi)


@contract('C18', 'spreading: angles', [M + ':Spreading.chk_input', M + ':Spreading._normalize_angle', M + ':Spreading._get_main_direction'], conc='spread')
def sa_(v):
    X, th, nt, i, psi = spread(v, 'cos', None, s_a=v.real('s', gt=0))
    angle_of(v, X, th, i, psi)


def density(v, X, th, nt, i, ref, nm, nonneg=True):
    D, phi0 = X(th)
    v.ensure(nm + ': one column', land(D.ndim == 2, D.shape[0] == nt, D.shape[1] == 1))
    v.ensure(nm + ': formula', D.get(i, 0) == ref)
    v.ensure(nm + ': rotation', lift(phi0) == 0)
    return D.get(i, 0)


COS = lambda x: fn1('cos', x)


@contract('C18', 'cos-2s spreading', [M + ':Spreading.__call__', M + ':Spreading.cos2s', M + ':Spreading._frequency_independent_spread'], conc='spread')
def c2s(v):
    s = v.real('s', gt=0)
    X, th, nt, i, psi = spread(v, 'cos', None, s_a=s)
    angle_of(v, X, th, i, psi)
    v.lemma(fn1('cos', psi / 2) >= 0)           # |psi| <= pi
    ref = fn1('exp', gammaln(s + 1) - gammaln(s + Q(1, 2))) / (2 * vsqrt(S(PI))) * vpow(fn1('cos', psi / 2), 2 * s)
    if v.case(fn1('cos', psi / 2) > 0):
        d = density(v, X, th, nt, i, ref, 'cos-2s')
        v.ensure('non-negative', d >= 0)


@contract('C18', 'poisson spreading', [M + ':Spreading.poisson', M + ':Spreading.fourier2x'], conc='spread')
def poi(v):
    s = v.real('s', gt=0)
    X, th, nt, i, psi = spread(v, 'poisson', None, s_a=s)
    angle_of(v, X, th, i, psi)
    x = s / (s + 1)
    ref = (1 - x * x) / (1 - 2 * x * COS(psi) + x * x) / (2 * S(PI))
    v.ensure('x between 0 and 1', land(x > 0, x < 1))
    d = density(v, X, th, nt, i, ref, 'poisson')
    v.ensure_gen('non-negative', (1 - x * x) / (1 - 2 * x * COS(psi) + x * x) / (2 * S(PI)) >= 0, [], [x, COS(psi), S(PI)], lambda a, c, p: land(a > 0, a < 1, c >= -1, c <= 1, p > 3))


@contract('C18', 'sech-2 spreading', [M + ':Spreading.sech2'], conc='spread')
def se2(v):
    b = v.real('b', gt=0)
    X, th, nt, i, psi = spread(v, 'sech', None, lambda r: b, s_a=v.real('s', gt=0))
    angle_of(v, X, th, i, psi)
    c = fn1('cosh', b * psi)
    ref = b / (2 * c * c * fn1('tanh', S(PI) * b))
    v.ensure('tanh', fn1('tanh', S(PI) * b) > 0)
    d = density(v, X, th, nt, i, ref, 'sech-2')
    v.ensure_gen('non-negative', ref >= 0, [], [fn1('tanh', S(PI) * b), c, b], lambda t, q, bb: land(t > 0, q >= 1, bb > 0))


@contract('C18', 'von Mises spreading', [M + ':Spreading.mises'], conc='spread')
def mis(v):
    k = v.real('k', gt=0)
    X, th, nt, i, psi = spread(v, 'mises', None, lambda r: k, s_a=v.real('s', gt=0))
    angle_of(v, X, th, i, psi)
    I0 = SPI.ive(0, k)               # exp(-k) I0(k)
    v.assume(I0 > 0)
    ref = fn1('exp', k * (COS(psi) - 1)) / (2 * S(PI) * I0)    # = exp(k cos psi) / (2 pi I0(k))
    d = density(v, X, th, nt, i, ref, 'von Mises')
    v.ensure('non-negative', d >= 0)


@contract('C18', 'box-car spreading', [M + ':Spreading.box'], conc='spread')
def box(v):
    a = v.real('a', gt=0)
    v.assume(a <= S(PI))
    X, th, nt, i, psi = spread(v, 'box', None, lambda r: a, s_a=v.real('s', gt=0))
    angle_of(v, X, th, i, psi)
    D, phi0 = X(th)
    d = D.get(i, 0)
    v.ensure('inside', implies(land(-a < psi, psi < a), d * 2 * a == 1))
    v.ensure('outside', implies(lor(psi < -a, psi > a), d == 0))
    v.ensure('non-negative', d >= 0)


for _t in ('cos', 'poisson'):
    @contract('C18', 'spreading parameter by frequency: %s' % _t, [M + ':Spreading.spread_parameter_s', M + ':Spreading._mitsuyasu_spread', M + ':Spreading._init_frequency_dependent_spreading'], conc='spread')
    def mit(v, t=_t):
        sa, sb, ma, mb = v.real('s_a', gt=0), v.real('s_b', gt=0), v.real('m_a'), v.real('m_b')
        lo, c, up = v.real('wn_lo', lo=0), v.real('wn_c'), v.real('wn_up')
        v.assume(land(lo < c, c < up))
        nw = v.int('nw', 1)
        wn = v.array('wn', nw)
        j = v.index(nw)
        v.assume(v.forall(nw, lambda q: wn.get(q) > 0))
        X = v.get(M, 'Spreading')(t, method='mitsuyasu', s_a=sa, s_b=sb, m_a=ma, m_b=mb, wn_lo=lo, wn_c=c, wn_up=up)
        r = X.spread_parameter_s(wn)
        x = wn.get(j)
        f = (lambda s: s) if t == 'cos' else (lambda s: s / (s + 1))
        v.ensure('shape', land(r.ndim == 2, r.shape[0] == 1, r.shape[1] == nw))
        v.ensure('low frequencies', implies(land(lo < x, x < c), r.get(0, j) == f(sa * vpow(x, ma))))
        v.ensure('high frequencies', implies(land(c < x, x < up), r.get(0, j) == f(sb * vpow(x, mb))))
        v.ensure('outside', implies(lor(x < lo, x > up), r.get(0, j) == 0))


@contract('C18', 'directional spectrum', [M + ':Spreading.tospecdata2d'], conc='spread')
def d2(v):
    class Rec(object):
        def __init__(self, data, args, type=None, freqtype=None, **kw):
            self.data, self.args, self.type, self.freqtype = data, args, type, freqtype
    v.override(M, 'SpecData2D', Rec)
    nt, nw = v.int('nt', 2), v.int('nw', 1)
    th, w, s, D = v.array('theta', nt), v.array('w', nw), v.array('S', nw), v.array('D', nt, nw)
    v.lemma(S(PI) > 3)
    v.assume(th.get(nt - 1) - th.get(0) == 2 * S(PI))

    class Spec(object):
        args, data, freqtype, tr, h, norm = w, s, 'w', 'tr', 'h', 'norm'
    X = v.get(M, 'Spreading')('cos')
    got = []

    class Fake(type(X)):
        def __call__(self, theta, w=1, wc=1):
            got.append((theta, w, wc))
            return D, 0
    X.__class__ = Fake
    r = X.tospecdata2d(Spec(), th, wc=v.real('wc', gt=0))
    i, j = v.index(nt), v.index(nw)
    v.ensure('spectrum times spreading', land(r.data.get(i, j) == s.get(j) * D.get(i, j), r.data.shape[0] == nt, r.data.shape[1] == nw))
    v.ensure('evaluated at the angles and frequencies', land(got[0][0].get(i) == th.get(i), got[0][1].get(j) == w.get(j)))
    v.ensure('properties kept', bool(r.tr == 'tr' and r.h == 'h' and r.norm == 'norm' and r.freqtype == 'w' and r.type == 'dir'))
