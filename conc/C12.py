import numpy as np
import lib
import wafo.misc as wm

LITERALS = ['src/wafo/misc.py:rotate_2d,rotate,rotation_matrix,cart2polar,polar2cart,spaceline']
ANG = [0, 90, -90, 180, -180, 270, 360, 45, 30, 60, 120, 1e-3, 359.5, 720, 1000, -1]


def val(rng, lits, scale=10.0):
    r = rng.random()
    if lits and r < 0.15:
        return float(lits[rng.integers(len(lits))]) * (1 if rng.random() < .7 else -1)
    if r < 0.35:
        return float(rng.integers(-3, 4))
    return float(rng.normal() * scale)


def ang(rng, lits):
    return float(ANG[rng.integers(len(ANG))]) if rng.random() < .4 else val(rng, lits, 200.)


def vec(rng, lits, n):
    return [val(rng, lits) for _ in range(n)]


def close(a, b, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * (1 + scale))


def g_rot2(rng, i, lits):
    n = int(rng.integers(0, 5))
    return dict(n=n, x=vec(rng, lits, n), y=vec(rng, lits, n), a=ang(rng, lits))


def k_rot2(d):
    x, y, a = np.array(d['x'], float), np.array(d['y'], float), d['a']
    s = np.max(np.abs(np.r_[x, y, 0]))
    xo, yo = wm.rotate_2d(x, y, a)
    th = np.deg2rad(a)
    if not close(xo, np.cos(th) * x - np.sin(th) * y, s) or not close(yo, np.sin(th) * x + np.cos(th) * y, s):
        return 'rotate_2d(%r, %r, %r) = %r, %r' % (d['x'], d['y'], a, xo, yo)


def g_pol(rng, i, lits):
    n = int(rng.integers(0, 5))
    return dict(n=n, x=vec(rng, lits, n), y=vec(rng, lits, n), z=vec(rng, lits, n))


def k_pol(d):
    if 't' in d:
        t, r = np.array(d['t'], float), np.array(d['r'], float)
        x, y = wm.polar2cart(t, r)
        if not close(x, r * np.cos(t), np.max(np.abs(np.r_[r, 0]))) or not close(y, r * np.sin(t), np.max(np.abs(np.r_[r, 0]))):
            return 'polar2cart wrong'
        return
    x, y, z = [np.array(d[k], float) for k in 'xyz']
    s = np.max(np.abs(np.r_[x, y, 0]))
    t, r = wm.cart2polar(x, y)
    if np.any(r < 0) or np.any(np.abs(t) > np.pi + 1e-12):
        return 'polar coordinates out of range: %r %r' % (t, r)
    if not close(r, np.sqrt(x * x + y * y), s):
        return 'radius %r' % (r,)
    if not close(r * np.cos(t), x, s) or not close(r * np.sin(t), y, s):
        return 'angle %r' % (t,)
    x2, y2 = wm.polar2cart(t, r)
    if not close(x2, x, s) or not close(y2, y, s):
        return 'polar round trip of %r, %r gave %r, %r' % (x, y, x2, y2)
    t, r, z2 = wm.cart2polar(x, y, z)
    x2, y2, z2 = wm.polar2cart(t, r, z2)
    if not close(x2, x, s) or not close(y2, y, s) or not close(z2, z):
        return 'cylindrical round trip of %r, %r, %r gave %r, %r, %r' % (x, y, z, x2, y2, z2)


def g_line(rng, i, lits):
    n = int(rng.integers(1, 12))
    d = int(rng.integers(1, 4))
    if lits and rng.random() < .3:
        n = max(1, min(200, int(abs(lits[rng.integers(len(lits))])) + int(rng.integers(-1, 2))))
    return dict(num=n, d=d, a=vec(rng, lits, d), b=vec(rng, lits, d))


def k_line(d):
    a, b, n = np.array(d['a'], float), np.array(d['b'], float), int(d['num'])
    if n > 3000 or len(a) < 1:
        raise lib.Skip
    r = wm.spaceline(a, b, n)
    t = np.arange(n)[:, None] / (n - 1.) if n > 1 else np.array([[.5]])
    if not close(r, a + (b - a) * t, np.max(np.abs(np.r_[a, b]))):
        return 'spaceline(%r, %r, %r) = %r' % (a, b, n, r)


def g_rot3(rng, i, lits):
    n = int(rng.integers(0, 4))
    z = lambda: 0.0 if rng.random() < .3 else ang(rng, lits)
    return dict(n=n, x=vec(rng, lits, n), y=vec(rng, lits, n), z=vec(rng, lits, n), h=z(), p=z(), r=z())


def k_rot3(d):
    h, p, r = [np.deg2rad(float(d.get(k, 0))) for k in 'hpr']
    c, s = np.cos, np.sin
    R = (np.array([[c(h), -s(h), 0], [s(h), c(h), 0], [0, 0, 1]]) @ np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]])
         @ np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]]))
    hd, pd, rd = [float(d.get(k, 0)) for k in 'hpr']
    if not close(wm.rotation_matrix(hd, pd, rd), R):
        return 'rotation_matrix(%r, %r, %r)' % (hd, pd, rd)
    if 'x' in d:
        X = np.array([np.atleast_1d(d['x']), np.atleast_1d(d['y']), np.atleast_1d(d['z'])], float)
        o = wm.rotate(X[0], X[1], X[2], hd, pd, rd)
        if not close(np.array(o), R @ X, np.max(np.abs(np.r_[X.ravel(), 0]))):
            return 'rotate(%r, %r, %r, %r)' % (X.tolist(), hd, pd, rd)


CHECKS = dict(rot2d=(g_rot2, k_rot2, 400), polar=(g_pol, k_pol, 400), spaceline=(g_line, k_line, 200),
              rot3=(g_rot3, k_rot3, 400))
BUDGET = 12
