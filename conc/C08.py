import warnings
import numpy as np
import lib
import wafo.wave_theory.core as wc
from wafo.wave_theory.dispersion_relation import w2k
LITERALS = ['src/wafo/wave_theory/core.py']
BUDGET = 15
warnings.simplefilter('ignore')
np.seterr(all='ignore')
IDS = ['n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'p', 'u', 'v', 'w', 'u_t', 'v_t', 'w_t', 'x_p', 'y_p', 'z_p']


def hyp(x, s):
    return np.cosh(x) if s > 0 else np.sinh(x)


def g_ratio(rng, i, lits):
    n = int(rng.integers(1, 5))
    sc = 10**rng.uniform(-2, 1.5)
    return dict(a=(rng.normal(size=n) * sc * rng.integers(0, 2, n)).tolist(), b=(rng.normal(size=n) * sc).tolist(),
                sa=int(rng.choice([-1, 1])), sb=int(rng.choice([-1, 1])))


def k_ratio(d):
    a, b, sa, sb = np.array(d['a'], float), np.array(d['b'], float), d['sa'], d['sb']
    r = wc.hyperbolic_ratio(a, b, sa, sb)
    ref = hyp(a, sa) / hyp(b, sb)
    ref = np.where((a == 0) & (b == 0) & (sa == sb), 1, ref)
    ok = np.isfinite(ref)
    if r.shape != a.shape or not np.allclose(r[ok], ref[ok], rtol=1e-8, atol=0):
        return 'hyperbolic_ratio = %r, expected %r' % (r, ref)


def g_tran(rng, i, lits):
    nw, nt = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    w = rng.normal(size=nw) * 2
    if rng.random() < .3:
        w = w * rng.integers(0, 2, nw)
    ig = int(rng.choice([1, 1, 1, 2, 3]))
    h = float('inf') if rng.random() < .25 and ig < 3 else float(10**rng.uniform(.5, 2))
    hh = min(h, 20.)
    z = -rng.uniform(0, hh) if ig == 1 else rng.uniform(0, hh)
    d = dict(sensor=IDS[i % 18], w=w.tolist(), theta=(rng.normal(size=nt) * 2).tolist(), x=float(rng.normal() * 5), y=float(rng.normal() * 5),
             z=float(z), h=h, g=float(rng.choice([9.81, 5.])), rho=float(rng.choice([1028., 1000.])), igam=ig,
             bet=float(rng.choice([1, 1, -1])), thetax=float(rng.choice([90., 0., 30.])), thetay=float(rng.choice([0., 90., 20.])))
    if rng.random() < .3:
        d['kw'] = (rng.normal(size=nw)).tolist()
    return d


def k_tran(d):
    w, th = np.array(d['w'], float), np.array(d['theta'], float)
    h, g, rho, ig = d.get('h', np.inf), d['g'], d['rho'], d['igam']
    if d.get('depth') == 'inf':
        h = np.inf
    if g <= 0 or h <= 0 or rho <= 0:
        raise lib.Skip
    s = d['sensor']
    T = wc.TransferFunction((d['x'], d['y'], d['z']), s if len(w) % 2 else IDS.index(s), h, g, rho, d['bet'], ig, d['thetax'], d['thetay'])
    w0, t0 = w.copy(), th.copy()
    if 'kw' in d and len(d['kw']) == len(w):
        k = np.array(d['kw'], float)
        k0 = k.copy()
        H, G = T.tran(w, th, k)
        if not np.array_equal(k, k0) or k.shape != k0.shape:
            return 'kw changed'
        k = k0
    else:
        H, G = T.tran(w, th)
        k = w2k(w0, 0, h, g)[0]
    if w.shape != w0.shape or th.shape != t0.shape or not np.array_equal(w, w0) or not np.array_equal(th, t0):
        return 'input changed'
    if H.shape != w.shape or G.shape != (len(th), len(w)):
        return 'shapes %s %s' % (H.shape, G.shape)
    X = d['bet'] * np.cos(th - np.deg2rad(d['thetax']) + np.pi / 2)[:, None]
    Y = d['bet'] * np.sin(th - np.deg2rad(d['thetay']))[:, None]
    ee = np.exp(1j * (d['x'] * X + d['y'] * Y) * k)
    one = np.ones_like(w)

    def R(sa, sb):
        if np.isinf(h):
            r = np.exp(np.abs(k) * d['z'] * (1 if ig == 1 else -1))
            return r if sa == sb else np.sign(k) * r
        zk = k * (h + d['z'] if ig == 1 else h - d['z'] if ig == 2 else d['z'])
        hk = k * h
        f = lambda x, q: np.sign(x)**(q < 0) * (1 + q * np.exp(-2 * np.abs(x)))
        r = np.exp(np.abs(zk) - np.abs(hk)) * f(zk, sa) / f(hk, sb)
        return np.where(k == 0, 1. if sa == sb else 0., r)
    tab = dict(n=(one, 1), n_t=(w, -1j), n_tt=(w**2, -1), n_x=(k, 1j * X), n_y=(k, 1j * Y), n_xx=(k**2, -X**2), n_yy=(k**2, -Y**2),
               n_xy=(k**2, -X * Y), p=(rho * g * R(1, 1), 1), u=(w * R(1, -1), X), v=(w * R(1, -1), Y), w=(w * R(-1, -1), -1j),
               u_t=(w**2 * R(1, -1), -1j * X), v_t=(w**2 * R(1, -1), -1j * Y), w_t=(w**2 * R(-1, -1), -1), x_p=(R(1, -1), 1j * X),
               y_p=(R(1, -1), 1j * Y), z_p=(R(-1, -1), 1))
    gain, f = tab[s]
    if not np.all(np.isfinite(gain)):
        raise lib.Skip
    ref = gain * f * ee * (-1 if ig == 2 else 1)
    if np.any(H < 0):
        return 'negative gain %r' % H
    if not np.allclose(H * G, ref, rtol=1e-6, atol=1e-9 * (1 + np.max(np.abs(ref)))):
        return 'transfer function %r, linear theory %r' % (H * G, ref)


def g_names(rng, i, lits):
    return dict(i=i)


def k_names(d):
    for k, nm in enumerate(IDS):
        if wc.sensor_typeid(nm) != [k] or wc.sensor_typeid(nm.upper()) != [k] or wc.sensor_type(k) != (nm,):
            return 'sensor %d %s' % (k, nm)
    if tuple(wc.sensor_type(range(18))) != tuple(IDS):
        return 'sensor_type(range(18))'


def g_pressure(rng, i, lits):
    h = float(10**rng.uniform(1, 3))
    return dict(z=(-rng.uniform(0, h, 3)).tolist(), Hm0=float(rng.uniform(1, 8)), h=h, g=float(rng.choice([9.81, 7.])), rho=float(rng.choice([1028., 1000.])))


def k_pressure(d):
    z, Hm0, h, g, rho = np.array(d['z'], float), d['Hm0'], d['h'], d['g'], d['rho']
    if h > 1e6 or not .1 < Hm0 < 30 or g < .1 or np.any(np.abs(z) > h) or h < .5:
        raise lib.Skip
    from wafo.spectrum.models import jonswap_peakfact
    p = wc.wave_pressure(z, Hm0, h, g, rho)
    Tp = 4 * np.sqrt(Hm0)
    gam = jonswap_peakfact(Hm0, Tp)
    w = 2 * np.pi * (1.30301 - 0.01698 * gam + 0.12102 / gam) / Tp
    k = w2k(w, 0, h, g)[0]
    ref = rho * g * Hm0 / 2 * np.exp(k * z) * (1 + np.exp(-2 * k * (h + z))) / (1 + np.exp(-2 * k * h))
    if not np.allclose(p, ref, rtol=1e-6):
        return 'pressure %r expected %r' % (p, ref)


CHECKS = {'ratio': (g_ratio, k_ratio, 300), 'tran': (g_tran, k_tran, 900), 'names': (g_names, k_names, 1), 'pressure': (g_pressure, k_pressure, 60)}
