import warnings
import numpy as np
import lib
import wafo.wave_theory.dispersion_relation as dr
LITERALS = ['src/wafo/wave_theory/dispersion_relation.py']
BUDGET = 15
warnings.simplefilter('ignore')


def depth(rng):
    r = rng.random()
    if r < .2:
        return float('inf')
    if r < .3:
        return float(rng.choice([1e3, 1e5, 1e26, 1e24]))
    return float(10**rng.uniform(-1, 3))


def g_k2w(rng, i, lits):
    n = int(rng.integers(0, 5))
    s = rng.integers(0, 2, n) if rng.random() < .3 else 1
    d = dict(k1=(rng.normal(size=n) * 10**rng.uniform(-4, 1) * s).tolist(), k2=(rng.normal(size=n) * s).tolist(), g=float(rng.choice([9.81, 1., 3.7])))
    if rng.random() < .4:
        d['h'] = [float(10**rng.uniform(-1, 3)) for _ in range(n)]
    elif rng.random() < .7:
        d['h'] = depth(rng)
    if rng.random() < .3:
        d.update(u1=float(rng.normal()), u2=float(rng.normal()))
    return d


def k_k2w(d):
    k1, k2 = np.array(d['k1'], float), np.array(d['k2'], float)
    h, g = d.get('h', np.inf), d.get('g', 9.81)
    h = np.array(h, float) if isinstance(h, list) else h
    if g <= 0 or np.any(np.asarray(h) <= 0):
        raise lib.Skip
    u1, u2 = d.get('u1', 0.), d.get('u2', 0.)
    a1, a2 = k1.copy(), k2.copy()
    w, th = dr.k2w(k1, k2, h, g, u1, u2)
    if w.shape != k1.shape or th.shape != k1.shape:
        return 'shapes %s %s for %s' % (w.shape, th.shape, k1.shape)
    if not (np.array_equal(a1, k1) and np.array_equal(a2, k2)):
        return 'input changed'
    K = np.hypot(k1, k2)
    with np.errstate(all='ignore'):
        T = np.tanh(K * h)
    T = np.where(K > 0, T, 0)
    ref = np.where(K > 0, np.maximum(k1 * u1 + k2 * u2 + np.sqrt(g * K * T), 0), 0)
    if not np.allclose(w, ref, rtol=1e-10, atol=1e-12):
        return 'w=%r expected %r' % (w, ref)
    if not np.allclose(th, np.arctan2(k2, k1)):
        return 'theta=%r' % th


def g_w2k(rng, i, lits):
    n = int(rng.integers(0, 5))
    w = rng.normal(size=n) * 10**rng.uniform(-3, 1)
    if rng.random() < .3:
        w = w * rng.integers(0, 2, n)
    d = dict(w=w.tolist(), theta=(rng.normal(size=n) * 2).tolist(), g=float(rng.choice([9.81, 1., 3.7])))
    if rng.random() < .4:
        d['h'] = [depth(rng) for _ in range(n)]
    elif rng.random() < .8:
        d['h'] = depth(rng)
    if rng.random() < .15:
        d['gy'] = float(rng.choice([9.81, 2.]))
    return d


def k_w2k(d):
    w, th = np.array(d['w'], float), np.array(d.get('theta', 0.), float)
    h, g = d.get('h', np.inf), d.get('g', 9.81)
    h = np.array(h, float) if isinstance(h, list) else h
    if g <= 0 or np.any(np.asarray(h) <= 0):
        raise lib.Skip
    w0 = w.copy()
    kw = {}
    if d.get('rtol', 1) < 1e-10 or d.get('atol', 1) < 1e-16:
        raise lib.Skip
    if 'gy' in d:
        try:
            k1, k2 = dr.w2k(w, th, h, np.array([g, d['gy']]))
        except ValueError:
            if np.all(np.asarray(h) > 1e25):
                return 'normalisation refused at infinite depth'
            return
        if w.size and not np.all(np.asarray(h) > 1e25):
            return 'normalisation accepted at finite depth'
        ref = np.sign(w) * w**2 / g
        if not (np.allclose(k1, ref * np.cos(th)) and np.allclose(k2, ref * np.sin(th) * g / d['gy'])):
            return 'normalised wave number %r %r' % (k1, k2)
        return
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        k1, k2 = dr.w2k(w, th, h, g)
    if any('did not converge' in str(r.message) for r in rec):
        return 'no convergence for ordinary input'
    if not np.array_equal(w, w0):
        return 'input changed'
    if k1.shape != w.shape or k2.shape != w.shape:
        return 'shapes'
    K = k1 * np.cos(th) + k2 * np.sin(th)
    if not np.allclose(-k1 * np.sin(th) + k2 * np.cos(th), 0, atol=1e-9 * (1 + np.abs(K))):
        return 'direction'
    H = np.broadcast_to(np.asarray(h, float), w.shape)
    with np.errstate(all='ignore'):
        lhs = np.where(K == 0, 0, g * np.abs(K) * np.where(np.isinf(H), 1, np.tanh(np.abs(K) * H)))
    if not np.allclose(lhs, w**2, rtol=1e-5, atol=1e-14):
        return 'g k tanh(k h) = %r, w^2 = %r' % (lhs, w**2)
    if np.any(np.sign(K) != np.sign(w)) and np.any(np.abs(w[np.sign(K) != np.sign(w)]) > 1e-12):
        return 'sign of the wave number'
    W2, T2 = dr.k2w(k1, k2, h, g)
    if not np.allclose(W2, np.abs(w), rtol=1e-5, atol=1e-10):
        return 'k2w(w2k(w)) = %r, w = %r' % (W2, w)


CHECKS = {'k2w': (g_k2w, k_k2w, 600), 'w2k': (g_w2k, k_w2k, 600)}
