"""C08 linear wave theory transfer functions"""
from vf.api import *
W = 'wafo.wave_theory.core'
META = {'assumptions': ['exact arithmetic: overflow of exp for very large arguments is not modelled',
                        'position angles and directions are real numbers; cos, sin and exp are the real functions']}
cos, sin, exp = (lambda x, f=f: fn1(f, lift(x).real()) for f in ('cos', 'sin', 'exp'))
COSH, SINH = 1, -1


def hyp(x, s):
    e, m = exp(x), exp(-x)
    return (e + m) / 2 if s == COSH else (e - m) / 2


for _sa, _sb in ((1, 1), (1, -1), (-1, -1), (-1, 1)):
    @contract('C08', 'hyperbolic_ratio %s/%s' % ('sinhcosh'[4 * (_sa > 0):][:4], 'sinhcosh'[4 * (_sb > 0):][:4]),
              [W + ':hyperbolic_ratio'], conc='ratio', budget=60)
    def r1(v, _sa=_sa, _sb=_sb):
        n = v.int('n', 1)
        a, b = v.array('a', n), v.array('b', n)
        v.note('sa', _sa)
        v.note('sb', _sb)
        r = v.call(W, 'hyperbolic_ratio', a, b, _sa, _sb)
        v.ensure('shape', r.shape[0] == n)
        i = v.index(n)
        x, y = a.get(i), b.get(i)
        A, B = vabs(x), vabs(y)
        for q in (A, B):
            v.lemma(exp(q) > 0)
            v.lemma(exp(-q) > 0)
            v.lemma(exp(q) * exp(-q) == 1)
            v.lemma(exp(-2 * q) == exp(-q) * exp(-q))
            v.lemma(implies(q > 0, exp(-q) < 1))
            v.lemma(implies(q == 0, exp(-q) == 1))
        v.lemma(exp(A - B) == exp(A) * exp(-B))
        v.lemma(implies(exp(-2 * A) == exp(-2 * B), A == B))
        for q in (x, y):
            v.case(q >= 0)
        V = r.get(i)
        if _sb == 1:
            v.ensure('ratio times denominator is the numerator', V * hyp(y, _sb) == hyp(x, _sa))
        else:
            v.ensure('ratio times denominator is the numerator', implies(y != 0, V * hyp(y, _sb) == hyp(x, _sa)))
        if _sa == _sb == -1:
            v.ensure('limit at zero', implies(land(x == 0, y == 0), V == 1))
        v.ensure('input unchanged', land(a.get(i) == a.f0((i,)), b.get(i) == b.f0((i,))))


HR = {k: core.uf('hr_%s_%s' % ('sc'[k[0] > 0], 'sc'[k[1] > 0]), 2) for k in ((1, 1), (1, -1), (-1, -1), (-1, 1))}


def ratio_contract(a, b, sa, sb):
    """contract of hyperbolic_ratio: not finite only for sinh(0) in the denominator with cosh on top; sign of the sides"""
    a, b = snp.asarray(a), snp.asarray(b)
    af, bf = a.snap(), b.snap()

    def at_(ix):
        x, y = lift(af(ix)).real(), lift(bf(ix)).real()
        r = S(HR[sa, sb](x.e, y.e))
        if (sa, sb) == (1, -1):
            return ite(y == 0, float('inf'), r)
        return r
    return SArr.new(at_, 'r', a.shape)


I = C(0, 1)
# sensor: (power of w, power of k, hyperbolic ratio, factor(cthx, cthy)) ; X, Y are the direction cosines
SENSORS = dict(
    n=(0, 0, None, lambda X, Y: C(1, 0)), n_t=(1, 0, None, lambda X, Y: C(0, -1)), n_tt=(2, 0, None, lambda X, Y: C(-1, 0)),
    n_x=(0, 1, None, lambda X, Y: C(0, X)), n_y=(0, 1, None, lambda X, Y: C(0, Y)),
    n_xx=(0, 2, None, lambda X, Y: C(-X * X, 0)), n_yy=(0, 2, None, lambda X, Y: C(-Y * Y, 0)),
    n_xy=(0, 2, None, lambda X, Y: C(-X * Y, 0)),
    p=(0, 0, (1, 1), lambda X, Y: C(1, 0)),
    u=(1, 0, (1, -1), lambda X, Y: C(X, 0)), v=(1, 0, (1, -1), lambda X, Y: C(Y, 0)), w=(1, 0, (-1, -1), lambda X, Y: C(0, -1)),
    u_t=(2, 0, (1, -1), lambda X, Y: C(0, -X)), v_t=(2, 0, (1, -1), lambda X, Y: C(0, -Y)), w_t=(2, 0, (-1, -1), lambda X, Y: C(-1, 0)),
    x_p=(0, 0, (1, -1), lambda X, Y: C(0, X)), y_p=(0, 0, (1, -1), lambda X, Y: C(0, Y)), z_p=(0, 0, (-1, -1), lambda X, Y: C(1, 0)))
IDS = ['n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'p', 'u', 'v', 'w', 'u_t', 'v_t', 'w_t', 'x_p', 'y_p', 'z_p']


def tran(v, name, igam, depth, given):
    nw, nt = v.int('nw', 1), v.int('nt', 1)
    w, th = v.array('w', nw), v.array('theta', nt)
    kw = v.array('kw', nw)
    x, y, z = v.real('x'), v.real('y'), v.real('z')
    h = v.real('h', gt=0) if depth == 'finite' else float('inf')
    g, rho, bet = v.real('g', gt=0), v.real('rho', gt=0), v.real('bet')
    tx, ty = v.real('thetax'), v.real('thetay')
    for k, q in (('sensor', name), ('igam', igam), ('depth', depth)):
        v.note(k, q)
    calls = []

    def w2k(w_, theta=0, h_=float('inf'), g_=Q(981, 100), *a):
        calls.append((theta, h_, g_))
        if len(calls) == 1:
            return kw, kw * 0
        raise Unsupported('second call of w2k')
    v.override(W, 'w2k', w2k)
    v.override(W, 'hyperbolic_ratio', ratio_contract)
    T = v.get(W, 'TransferFunction')((x, y, z), name, h, g, rho, bet, igam, tx, ty)
    if given:
        H, G = T.tran(w, th, kw)
        v.ensure('given wave numbers are used', len(calls) == 0)
    else:
        H, G = T.tran(w, th)
        v.ensure('wave numbers from the dispersion relation at this depth and gravity',
                 land(len(calls) == 1, *[land(c[0] == 0, c[1] == h, c[2] == g) for c in calls]))
    v.ensure('sizes', land(len(H.shape) == 1, H.shape[0] == nw, len(G.shape) == 2, G.shape[0] == nt, G.shape[1] == nw))
    i, j = v.index(nw), v.index(nt)
    k, W_, t = kw.get(i), w.get(i), th.get(j)
    X = bet * cos(t - tx * S(PI) / 180 + S(PI) / 2)
    Y = bet * sin(t - ty * S(PI) / 180)
    ph = (x * X + y * Y) * k
    a, b, r, f = SENSORS[name]
    f = f(X, Y)
    gain = 1
    for _ in range(a):
        gain = gain * W_
    for _ in range(b):
        gain = gain * k
    if name == 'p':
        gain = gain * rho * g
    if r is not None:
        if depth == 'finite':
            zk = k * (h + z) if igam == 1 else k * (h - z) if igam == 2 else k * z
            R = S(HR[r](lift(zk).real().e, lift(k * h).real().e))
            if r == (1, -1):
                R = ite(k == 0, 0, R)
        else:
            R = exp(vabs(k) * (z if igam == 1 else -z))
            if r == (1, -1):
                R = ite(k > 0, R, ite(k < 0, -R, 0))
        gain = gain * R
    s = -1 if igam == 2 else 1
    hh, gg = H.get(i), G.get(j, i)
    gg = gg if isinstance(gg, C) else C(gg, 0)
    v.ensure('gain is not negative', hh >= 0)
    v.ensure('gain is the size of the linear theory factor', lor(hh == gain, hh == -gain))
    re, im = f.re * cos(ph) - f.im * sin(ph), f.re * sin(ph) + f.im * cos(ph)
    v.ensure('complete transfer function (real part)', hh * gg.re == s * gain * re)
    v.ensure('complete transfer function (imaginary part)', hh * gg.im == s * gain * im)
    v.ensure('the directional factor carries the phase where the gain vanishes',
             implies(gain == 0, land(gg.re == s * re, gg.im == s * im)))
    v.ensure('input unchanged', land(w.get(i) == w.f0((i,)), kw.get(i) == kw.f0((i,)), th.get(j) == th.f0((j,)),
                                     len(w.shape) == 1, len(th.shape) == 1, len(kw.shape) == 1))


for _n in IDS:
    for _ig, _d in ((1, 'finite'), (2, 'finite'), (3, 'finite'), (1, 'inf'), (2, 'inf')):
        if SENSORS[_n][2] is None and (_ig, _d) not in ((1, 'finite'), (2, 'inf')):
            continue
        @contract('C08', 'sensor %s igam=%d depth %s' % (_n, _ig, _d), [W + ':TransferFunction.tran', W + ':TransferFunction._' + _n],
                  conc='tran', budget=60)
        def t1(v, _n=_n, _ig=_ig, _d=_d):
            tran(v, _n, _ig, _d, _ig == 1)


@contract('C08', 'sensor names and numbers', [W + ':sensor_type', W + ':sensor_typeid', W + ':TransferFunction.__init__'], conc='names')
def s1(v):
    for k, nm in enumerate(IDS):
        v.ensure('number of ' + nm, v.call(W, 'sensor_typeid', nm) == [k])
        v.ensure('upper case ' + nm, v.call(W, 'sensor_typeid', nm.upper()) == [k])
        v.ensure('name of %d' % k, v.call(W, 'sensor_type', k) == (nm,))
        v.ensure('object for number %d' % k, v.get(W, 'TransferFunction')(sensortype=k).sensortype == nm)


@contract('C08', 'wave_pressure', [W + ':wave_pressure'], conc='pressure')
def p1(v):
    n = v.int('n', 1)
    z = v.array('z', n)
    Hm0, h, g, rho = (v.real(q, gt=0) for q in ('Hm0', 'h', 'g', 'rho'))
    kk, gam = v.real('k', gt=0), v.real('gam', gt=1)
    calls = []

    class M(object):
        @staticmethod
        def jonswap_peakfact(a, b):
            return gam

    def w2k(w_, theta=0, h_=float('inf'), g_=Q(981, 100), *a):
        calls.append((w_, theta, h_, g_))
        return kk, 0
    v.override(W, '_MODELS', M)
    v.override(W, 'w2k', w2k)
    v.override(W, 'hyperbolic_ratio', ratio_contract)
    p = v.call(W, 'wave_pressure', z, Hm0, h, g, rho)
    i = v.index(n)
    v.ensure('one dispersion relation', len(calls) == 1)
    Tp = 4 * vsqrt(Hm0)
    Tm = Tp / (Q(130301, 100000) - Q(1698, 100000) * gam + Q(12102, 100000) / gam)
    v.assume(Q(130301, 100000) - Q(1698, 100000) * gam + Q(12102, 100000) / gam > 0)
    w_, th_, h_, g_ = calls[0]
    v.ensure('mean frequency of the sea state', w_ * Tm == 2 * S(PI))
    v.ensure('depth and gravity', land(th_ == 0, h_ == h, g_ == g))
    v.ensure('pressure amplitude', p.get(i) == rho * g * Hm0 / 2 * S(HR[1, 1]((kk * h + kk * z.get(i)).real().e, (kk * h).real().e)))
