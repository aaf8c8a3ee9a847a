import warnings
import numpy as np
import lib
from scipy import special as ss
from scipy.integrate import quad
from wafo.spectrum import models as sm
LITERALS = ['src/wafo/spectrum/models.py']
BUDGET = 14


def close(a, b, tol=1e-9, scale=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (abs(scale) + np.abs(b)) + 1e-300))


def gg(w, N, M):
    w = np.asarray(w, float)
    B, C = N / M, (N - 1) / M
    with np.errstate(all='ignore'):
        r = M * B ** C / ss.gamma(C) * w ** (-N * 1.) * np.exp(-B * w ** (-M * 1.))
    return np.where(w > 0, r, 0.)


def bret(w, H, T, N=5, M=4):
    wp = 2 * np.pi / T
    return (H / 4.) ** 2 / wp * gg(np.asarray(w, float) / wp, N, M) if H > 0 else np.zeros(len(w))


def peakf(wn, g, sa, sb):
    wn = np.maximum(wn, 0)
    return g ** np.exp(-.5 * ((wn - 1) / np.where(wn > 1, sb, sa)) ** 2)


def gmodels(rng, i, lits):
    r = rng.random
    return dict(H=float(rng.choice([.5, 1., 2., 4., 7., 9.])), T=float(rng.choice([3., 5., 8., 11., 14.5, 18.])), N=float(rng.choice([5, 3.5, 6, 4.2])), M=float(rng.choice([4, 3, 2.5, 5])),
                w=np.round(np.r_[0, -1, rng.random(5) * 3, 2 * np.pi / 11], 3).tolist(), g=float(rng.choice([1.3, 2., 3.3, 5., 1.])), sa=float(rng.choice([.07, .05, .1])),
                sb=float(rng.choice([.09, .07, .12])), ag=float(rng.choice([.5, 1., 1.2])), h=float(rng.choice([5., 20., 42., 100.])), grav=float(rng.choice([9.81, 9.7, 3.7])), par=int(rng.integers(0, 11)), zero=bool(r() < .1), c=float(rng.choice([.5, 2., 3.])))


def kw_(d, *ks):
    for k in ks:
        if k not in d or not isinstance(d[k], (int, float)) or not np.isfinite(d[k]):
            raise lib.Skip


def depth_k(w, h, g):
    """wave number by bisection in log space of g k tanh(kh) = w^2"""
    out = np.zeros(len(w))
    for i, q in enumerate(w):
        if q <= 0:
            continue
        a, b = 0., q * q / g * 2 + q / np.sqrt(g * h) * 2
        for _ in range(200):
            m = (a + b) / 2
            if g * m * np.tanh(m * h) < q * q:
                a = m
            else:
                b = m
        out[i] = (a + b) / 2
    return out


def phi_ref(w, h, g):
    k = depth_k(w, h, g)
    with np.errstate(all='ignore'):
        k1 = w ** 2 / g
        r = (k1 / k) ** 3 / (np.tanh(k * h) + k * h / np.cosh(np.minimum(k * h, 300)) ** 2)
    return np.where(w > 0, r, 0.)


def torset(H, T, g=9.81):
    Tf, Tl = 6.6 * H ** (1 / 3.), 2 * np.sqrt(H)
    el, eu = np.clip((Tf - T) / (Tf - Tl), 0, 1), np.clip((T - Tf) / (25 - Tf), 0, 1)
    N = .5 * np.sqrt(H) + 3.2
    if T < Tf:
        r = min(.3 * np.exp(-(el / .5) ** 2) + .7, 1)
        gam = max(35 * (1 + 3.5 * np.exp(-H)) * (2 * np.pi / g * r * H / T ** 2) ** .857, 1)
        return dict(Hm0=r * H, Tp=T, gamma=gam, N=N, M=4), dict(Hm0=np.sqrt(1 - r * r) * H, Tp=Tf + 2, gamma=1, N=N, M=4)
    r = min(.4 * np.exp(-(eu / .3) ** 2) + .6, 1)
    gam = max(35 * (1 + 3.5 * np.exp(-H)) * (2 * np.pi / g * H / Tf ** 2) ** .857 * (1 + 6 * eu), 1)
    Mw = 4 * (1 - .7 * np.exp(-H / 3.))
    Hw = np.sqrt(1 - r * r) * H
    B, C = N / Mw, (N - 1) / Mw
    G0 = B ** C * Mw / ss.gamma(C)
    Tw = (16 * .08 * (1 - np.exp(-H / 3.)) * .4 ** N / (G0 * Hw ** 2)) ** (-1 / (N - 1)) if Hw > 0 else np.inf
    return dict(Hm0=Hw, Tp=Tw, gamma=1, N=N, M=Mw), dict(Hm0=r * H, Tp=T, gamma=gam, N=N, M=4)


OCHI = dict(hp=[[.84, .54]] * 5 + [[.95, .31], [.65, .76], [.9, .44], [.77, .64], [.73, .68], [.92, .39]],
            wa=[[.7, 1.15], [.93, 1.5], [.41, .88], [.74, 1.3], [.62, 1.03], [.7, 1.5], [.61, .94], [.81, 1.6], [.54, .61], [.7, .99], [.7, 1.37]],
            wb=[[.046, .039], [.056, .046], [.016, .026], [.052, .039], [.039, .03], [.046, .046], [.039, .036], [.052, .033], [.039, 0], [.046, .039], [.046, .039]],
            L=[[3, 1.54, -.062], [3, 2.77, -.112], [2.55, 1.82, -.089], [2.65, 3.9, -.085], [2.6, .53, -.069], [1.35, 2.48, -.102], [4.95, 2.48, -.102], [1.8, 2.95, -.105], [4.5, 1.95, -.082],
               [6.4, 1.78, -.069], [.7, 1.78, -.069]])


def kmodels(d):
    warnings.simplefilter('ignore')
    if 'H' not in d:
        d = dict(d, H=d.get('Hm0'), T=d.get('Tp'), g=d.get('gamma', 2.), sa=d.get('sigmaA', .07), sb=d.get('sigmaB', .09), ag=d.get('Ag', 1.), N=d.get('N', 5.), M=d.get('M', 4.), h=d.get('h', 20.), grav=d.get('g', 9.81), par=1, c=2.)
    kw_(d, 'H', 'T', 'N', 'M', 'g', 'sa', 'sb', 'ag', 'h', 'grav', 'c')
    H, T, N, M, g, sa, sb, ag, h, gr = [float(d[k]) for k in ('H', 'T', 'N', 'M', 'g', 'sa', 'sb', 'ag', 'h', 'grav')]
    w = np.array(d.get('w') or [0., .5, 1.], float)
    if not (.05 <= H <= 30 and 1 <= T <= 40 and 1.5 < N < 12 and .5 < M < 10 and 1 <= g < 20 and .02 < sa < 1 and .02 < sb < 1 and .01 < ag < 10 and 1 <= h < 1000 and 1 < gr < 30) or np.abs(w).max() > 50 or np.any(np.abs(w[w != 0]) < .01):
        raise lib.Skip
    if d.get('zero'):
        for X in (sm.Bretschneider(0, T), sm.Jonswap(0, T, 2., Ag=1.), sm.Wallop(0, T, 5)):
            if np.any(X(w) != 0):
                return 'spectrum with zero wave height not zero'
    for a, b in ((-1, 5), (1, 0), (1, -3)):
        for cl in (sm.Bretschneider, lambda p, q: sm.Jonswap(p, q, gamma=2, Ag=1), lambda p, q: sm.Wallop(p, q, 5)):
            try:
                cl(a, b)
            except ValueError:
                continue
            except Exception as e:
                continue
            return 'Hm0=%r, Tp=%r accepted' % (a, b)
    wp = 2 * np.pi / T
    wn = w / wp

    def cmp(nm, got, ref, tol=1e-8):
        if not close(got, ref, tol, 1e-12):
            return '%s at w=%r is %r, the formula gives %r (%r)' % (nm, w.tolist(), np.asarray(got).tolist(), np.asarray(ref).tolist(), {k: d[k] for k in d if k != 'w'})
        if np.any(np.asarray(got) < 0):
            return nm + ' negative'
    keep = w.copy()
    jon = lambda ww, H, T, gamma, N=5, M=4, sa=.07, sb=.09, Ag=1.: bret(ww, H, T, N, M) * Ag * peakf(np.asarray(ww) * T / (2 * np.pi), gamma, sa, sb)
    J = sm.Jonswap(H, T, gamma=g, sigmaA=sa, sigmaB=sb, Ag=ag, N=N, M=M)
    ag_ = 1. if g == 1 else ag
    xs = np.array([.5, 1., 2.5])
    e = (cmp('generalised gamma', sm._gengamspec(wn, N, M), gg(wn, N, M)) or cmp('Bretschneider', sm.Bretschneider(H, T, N, M)(w), bret(w, H, T, N, M)) or
         cmp('Bretschneider default', sm.Bretschneider(H, T)(w), bret(w, H, T)) or cmp('Wallop', sm.Wallop(H, T, N)(w), bret(w, H, T, N, 4)) or
         cmp('McCormick', sm.McCormick(H, T, M=M)(w), bret(w, H, T, M + 1, M)) or cmp('Jonswap', J(w), jon(w, H, T, g, N, M, sa, sb, ag_)))
    if e:
        return e
    if not np.array_equal(w, keep):
        return 'frequencies changed'
    c = float(d['c'])
    if not close(sm.Bretschneider(c * H, T, N, M)(w), c * c * sm.Bretschneider(H, T, N, M)(w)) or not close(sm.Jonswap(c * H, T, gamma=g, Ag=ag)(w), c * c * sm.Jonswap(H, T, gamma=g, Ag=ag)(w)):
        return 'spectrum does not scale with the squared wave height'
    lp = 2 * np.pi / (wp ** 2 / 9.81)
    nw = abs((np.log(2 * np.pi ** 2) + 2 * np.log(H / 4) - 2 * np.log(lp)) / np.log(2))
    if not close(sm.Wallop(H, T).N, nw, 1e-7):
        return 'Wallop(%r, %r).N = %r, expected %r' % (H, T, sm.Wallop(H, T).N, nw)
    x = T / np.sqrt(H)
    D = .036 - .0056 * x
    pf = min(np.exp(3.484 * (1 - .1975 * D * x ** 4)), 7.) if x <= 5.14285714285714 else 1.
    if not close(np.ravel(sm.jonswap_peakfact(H, T)), [pf], 1e-8):
        return 'jonswap_peakfact(%r, %r) = %r, expected %r' % (H, T, sm.jonswap_peakfact(H, T), pf)
    wpos = np.abs(w)
    if not close(sm.phi1(wpos, h, gr), phi_ref(wpos, h, gr), 1e-5, 1e-12) or np.any(sm.phi1(wpos, np.inf) != 1):
        return 'phi1(%r, %r, %r) = %r, expected %r' % (wpos.tolist(), h, gr, sm.phi1(wpos, h, gr).tolist(), phi_ref(wpos, h, gr).tolist())
    X = sm.Tmaspec(H, T, gamma=g, Ag=ag, h=h, g=gr)
    if not close(X(wpos), jon(wpos, H, T, g, Ag=ag_) * phi_ref(wpos, h, gr), 1e-5, 1e-12) or not close(X(wpos, 13., 9.), jon(wpos, H, T, g, Ag=ag_) * phi_ref(wpos, 13., 9.), 1e-5, 1e-12):
        return 'Tmaspec is not Jonswap times the depth factor (%r)' % {k: d[k] for k in d}
    if H < 11 and 3 <= T <= 20:
        X = sm.Torsethaugen(H, T)
        for nm, part, ref in zip(('wind', 'swell'), (X.wind, X.swell), torset(H, T)):
            for k, val in ref.items():
                got = float(np.ravel(getattr(part, k))[0])
                if not close(got, val, 1e-9, 1e-9) and not (got == val):
                    return 'Torsethaugen(%r, %r).%s.%s = %r, expected %r' % (H, T, nm, k, got, val)
        if not close(X(w), X.wind(w) + X.swell(w)) or np.any(X(w) < 0):
            return 'Torsethaugen is not the sum of its parts'
    par = int(d.get('par', 0))
    X = sm.OchiHubble(H, par)
    ref = 0
    for k in (0, 1):
        L = OCHI['L'][par][0] if k == 0 else OCHI['L'][par][1] * np.exp(OCHI['L'][par][2] * H)
        ref = ref + bret(w, OCHI['hp'][par][k] * H, 2 * np.pi * np.exp(OCHI['wb'][par][k] * H) / OCHI['wa'][par][k], 4 * L + 1, 4)
    e = cmp('OchiHubble(%r, %d)' % (H, par), X(w), ref)
    if e:
        return e


def gnorm(rng, i, lits):
    return dict(H=float(rng.choice([1., 3., 7.])), T=float(rng.choice([6., 9., 12.])), g=float(rng.choice([1.5, 3.3, 6.])), sa=float(rng.choice([.07, .1])), sb=float(rng.choice([.09, .12])),
                wnc=float(rng.choice([4., 6., 8.])), N=float(rng.choice([5, 4])), typ=int(rng.integers(0, 4)))


def knorm(d):
    warnings.simplefilter('ignore')
    kw_(d, 'H', 'T', 'g', 'sa', 'sb', 'wnc')
    H, T = d['H'], d['T']
    wp = 2 * np.pi / T
    t = d.get('typ', 0)
    if t == 0:
        X, top, tot = sm.Jonswap(H, T, gamma=d['g'], sigmaA=d['sa'], sigmaB=d['sb'], wnc=d['wnc'], N=d['N']), d['wnc'] * wp, 1.
    elif t == 1:
        X, top, tot = sm.Bretschneider(H, T, N=d['N']), 60 * wp, 1.
    elif t == 2:
        X, top, tot = sm.Torsethaugen(H, T), 60 * wp, None
    else:
        X, top, tot = sm.McCormick(H, T), 60 * wp, None
    f = lambda w: float(X(w)[0])
    m0 = sum(quad(f, a, b, limit=200)[0] for a, b in zip([0, .5 * wp, wp, 2 * wp, min(4 * wp, top)], [.5 * wp, wp, 2 * wp, min(4 * wp, top), top]))
    if abs(m0 / (H ** 2 / 16) - 1) > (1e-4 if tot else 2e-2):
        return '%s: area %r, expected Hm0**2/16 = %r (%r)' % (type(X).__name__, m0, H ** 2 / 16, d)


def gspread(rng, i, lits):
    return dict(typ=str(rng.choice(['cos', 'box', 'mises', 'poisson', 'sech', 'von-mises', 'wrap'])), meth=rng.choice(['n', 'm', 'd', 'b']), th0=float(rng.choice([0., .7, -2., 3., 9.])), s=float(rng.choice([2., 5., 15., 25.])),
                ma=float(rng.choice([5., 3.])), mb=float(rng.choice([-2.5, -1.])), up=float(rng.choice([2.5, 3.5])), lo=float(rng.choice([0., .2])), w=np.round(rng.random(4) * 3 + .1, 3).tolist(), wc=float(rng.choice([1., .6])), fd=bool(rng.random() < .4))


def r1_of(typ, p):
    if typ == 'b':
        return np.sin(p) / p
    if typ in 'mv':
        return ss.ive(1, p) / ss.ive(0, p)
    if typ == 'p':
        return p
    return np.pi / (2 * p) / np.sinh(np.pi / (2 * p))


def kspread(d):
    warnings.simplefilter('ignore')
    if 'typ' not in d:
        raise lib.Skip
    typ, meth, s_a, wc = d['typ'], d['meth'], d['s'], d['wc']
    w = np.array(d['w'], float)
    th0 = (lambda x: d['th0'] + .3 * x) if d['fd'] else d['th0']
    X = sm.Spreading(typ, theta0=th0, method=None if meth == 'n' else str(meth), s_a=s_a, s_b=s_a, m_a=d['ma'], m_b=d['mb'], wn_lo=d['lo'], wn_up=d['up'])
    n = 720
    th = np.linspace(-np.pi, np.pi, n + 1)
    D = X(th, w, wc)[0]
    wn = w / wc
    if meth == 'n':
        S = np.full(len(w), s_a)
    else:
        S = np.where(wn <= 1, s_a * wn ** d['ma'], s_a * wn ** d['mb'])
        S = np.where(wn <= d['lo'], 0, S)
        up = wn > d['up']
        if meth == 'm':
            S = np.where(up, 0, S)
        else:
            F = lambda x: 10 ** (-.4 + .8393 * np.exp(-.567 * np.log(x ** 2)))
            lim = s_a * d['up'] ** d['mb']
            S = np.where(up, lim if meth == 'd' else lim / F(d['up']) * F(wn), S)
            with np.errstate(all='ignore'):
                r = np.where(S > 0, np.pi / (2 * S) / np.sinh(np.minimum(np.pi / (2 * S), 300)), 0)
            S = r / (1 - r)
    if np.any(np.abs(wn - d['up']) < 1e-6) or np.any(np.abs(wn - d['lo']) < 1e-6) or np.any(S < .05):
        raise lib.Skip
    S = np.broadcast_to(S, (len(w),))
    Dm = np.broadcast_to(np.asarray(D, float), (n + 1, len(w)))
    what = 'Spreading(%r)' % (d,)
    if np.any(Dm < 0) or not np.all(np.isfinite(Dm)):
        return what + ' negative or not finite'
    if not close(Dm[0], Dm[-1], 1e-6, .1):
        return what + ' not periodic'
    t = np.array([d['th0'] + .3 * q for q in wn]) if d['fd'] else np.full(len(w), d['th0'])
    psi = np.angle(np.exp(1j * (th[:, None] - t[None, :])))
    tol = 3e-2 if typ[0] == 'b' else 1e-4
    area = Dm[:-1].sum(0) * 2 * np.pi / n
    wide = S < 40               # narrower peaks are not resolved by the sum
    if np.any((np.abs(area - 1) > tol)[wide]):
        return what + ' area %r' % area.tolist()
    c1 = (Dm[:-1] * np.exp(1j * psi[:-1])).sum(0) * 2 * np.pi / n
    if np.any((np.abs(c1.imag) > tol * 2)[wide]):
        return what + ': main direction wrong, first Fourier coefficient %r' % c1.tolist()
    r1 = S / (S + 1)
    if typ[0] == 's':
        # R1 of the docstring belongs to the unwrapped distribution
        ok = (r1 > .9) & wide
    else:
        ok = wide
    if np.any(np.abs(c1.real - r1)[ok] > (tol if typ[0] != 's' else 1e-2)):
        return what + ': first Fourier coefficient %r, expected S/(S+1) = %r' % (c1.real.tolist(), r1.tolist())
    if typ[0] == 'c':
        ref = np.exp(ss.gammaln(S + 1) - ss.gammaln(S + .5)) / (2 * np.sqrt(np.pi)) * np.abs(np.cos(psi / 2)) ** (2 * S)
    elif typ[0] == 'p':
        ref = (1 - r1 ** 2) / (1 - 2 * r1 * np.cos(psi) + r1 ** 2) / (2 * np.pi)
    elif typ[0] == 'w':
        k = np.arange(1, 200)
        with np.errstate(all='ignore'):
            co = np.exp(np.log(r1)[None, :] * (k ** 2)[:, None])
        ref = (1 + 2 * np.einsum('kw,ktw->tw', co, np.cos(k[:, None, None] * psi[None]))) / (2 * np.pi)
        if np.any(S > 40):
            raise lib.Skip
    else:
        ref = None
    if ref is not None and not close(Dm, ref, 1e-7, .01):
        return what + ' differs from its formula'


CHECKS = {'models': (gmodels, kmodels), 'norm': (gnorm, knorm), 'spread': (gspread, kspread)}
