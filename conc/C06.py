import numpy as np
import lib
import clibc
import wafo.misc as wm
import wafo.objects as wo
wm.clib = clibc
LITERALS = ['src/wafo/misc.py:findextrema,findtp,findtc', 'src/wafo/objects.py:TimeSeries']
BUDGET = 20


def sig(rng, i, lits, n=None):
    n = n if n is not None else (i + 2 if i < 8 else int(rng.integers(2, 60)))
    r = rng.random()
    if r < .35:
        x = rng.integers(-3, 4, n).astype(float)
    elif r < .5 and lits:
        x = np.array([lits[k] for k in rng.integers(len(lits), size=n)]) * rng.choice([-1, 1], n)
    elif r < .7:
        x = np.cumsum(rng.normal(size=n))
    elif r < .85:
        x = np.repeat(rng.integers(-3, 4, n), rng.integers(1, 4, n))[:n].astype(float)
    else:
        x = np.sin(np.arange(n) * rng.random() * 2 + rng.random() * 7) + .2 * rng.normal(size=n)
    return x


def g_x(rng, i, lits):
    return dict(x=sig(rng, i, lits).tolist())


def extremes(x):
    """last sample of every plateau or peak where the direction changes (a flat start counts as a change)"""
    d, last, out = np.sign(np.diff(x)), 0, []
    for k, s in enumerate(d):
        if s == 0:
            continue
        if (last != 0 and s != last) or (last == 0 and k > 0):
            out.append(k)
        last = s
    return out


def k_extrema(d):
    x = np.array(d['x'], float)
    if len(x) < 2:
        raise lib.Skip
    r = [int(k) for k in wm.findextrema(x.copy())]
    if r != extremes(x):
        return 'findextrema(%r) = %r, expected %r' % (x.tolist(), r, extremes(x))


def g_tp(rng, i, lits):
    return dict(x=sig(rng, i, lits).tolist(), h=float(rng.choice([0, 0, 0, -1, .5, 1, 2, 100, rng.random()])),
                kind=[None, 'astm', 'mw', 'Mw'][int(rng.integers(4))])


def k_tp(d):
    x, h = np.array(d['x'], float), float(d.get('h', 0))
    if len(x) < 2:
        raise lib.Skip
    for kind in [d['kind']] if 'kind' in d else [None, 'astm', 'mw', 'Mw']:
        for method in ('clib', 'numba'):
            m = one_tp(x, h, kind, method)
            if m:
                return 'findtp(%r, %r, %r, %r): %s' % (x.tolist(), h, kind, method, m)


def one_tp(x, h, kind, method):
    n = len(x)
    y = x.copy()
    r = wm.findtp(y, h, kind, method)
    if not np.array_equal(x, y):
        return 'input changed'
    if h < 0:
        return None if list(r) == list(range(n)) else 'every sample expected, got %r' % (r,)
    e = extremes(x)
    if len(e) < 2:
        return None if r is None or len(r) == 0 else '%r with fewer than two extremes' % (r,)
    t = ([0] if kind == 'astm' or x[e[0]] > x[e[1]] else []) + e + [n - 1]
    if h > 0:
        if x[t[0]] == x[t[1]]:
            return None
        q = wm.findrfc(x[t], h, method)
        t = [t[int(k)] for k in q]
    if r is None:
        return 'None'
    r = [int(k) for k in r]
    if kind in ('mw', 'Mw') and len(t) > 1:
        if (x[t[0]] > x[t[1]]) != (kind == 'Mw'):
            t = t[1:]
        if len(t) % 2 == 0:
            t = t[:-1]
    if r != t:
        return '%r, expected %r' % (r, t)
    v = np.diff(x[r])
    if x[0] != x[1]:
        if np.any(v == 0) or np.any(v[1:] * v[:-1] > 0):
            return '%r does not alternate' % (x[r].tolist(),)
        if kind == 'mw' and len(v) and (v[0] < 0 or v[-1] > 0) or kind == 'Mw' and len(v) and (v[0] > 0 or v[-1] < 0):
            return 'kind of first or last'


def crossings(x, v):
    side, out = 0, []
    s = np.sign(x - v)
    for k in range(len(x)):
        if s[k] != 0:
            if (side and s[k] != side) or (side == 0 and k > 0):
                out.append(k - 1)
            side = s[k]
    return out


def sel(x, v, kind):
    z = crossings(x, v)
    if kind is None or not z:
        return z
    if (x[z[0] + 1] < v) != (kind in ('dw', 'tw')):
        z = z[1:]
    if (len(z) % 2 == 1) != (kind in ('dw', 'uw')):
        z = z[:-1]
    return z


def g_tc(rng, i, lits):
    x = sig(rng, i, lits)
    return dict(x=x.tolist(), v=float(rng.choice([0, 0, .5, rng.normal(), np.median(x)])), kind=[None, 'dw', 'uw', 'tw', 'cw'][int(rng.integers(5))],
                mean=bool(rng.random() < .2))


def k_tc(d):
    x = np.array(d['x'], float)
    if len(x) < 1:
        raise lib.Skip
    v = x.mean() if d.get('mean') else float(d.get('v', 0))
    for kind in [d['kind']] if 'kind' in d else [None, 'dw', 'uw', 'tw', 'cw']:
        tc, z = wm.findtc(x.copy(), None if d.get('mean') else v, kind)
        ref = sel(x, v, kind)
        if len(ref) <= 2:
            if len(tc) or len(z):
                return 'findtc(%r, %r, %r) = %r %r without waves' % (x.tolist(), v, kind, tc, z)
            continue
        if list(z) != ref or len(tc) != len(ref) - 1:
            return 'findtc(%r, %r, %r) = %r %r, crossings %r' % (x.tolist(), v, kind, tc, z, ref)
        for j in range(len(ref) - 1):
            seg = x[ref[j] + 1:ref[j + 1] + 1]
            low = x[ref[j] + 1] < v
            if not (ref[j] < tc[j] <= ref[j + 1]) or x[tc[j]] != (seg.min() if low else seg.max()):
                return 'findtc(%r, %r, %r) = %r: entry %d is not the extreme after crossing %d' % (x.tolist(), v, kind, tc, j, ref[j])


def g_w(rng, i, lits):
    n = int(rng.integers(5, 80))
    x = sig(rng, 99, lits, n)
    x = x - (x.mean() if rng.random() < .6 else 0)
    dt = float(rng.choice([1, .25, .1, 2]))
    return dict(x=x.tolist(), t0=float(rng.choice([0, 1, 5])) + dt, dt=dt, g=float(rng.choice([9.81, 1, rng.random() + .5])),
                kind=['maxVcfVcb', 'Vcf', 'Vcb', 'Scf', 'Scb', 'StHd', 'StHu'][int(rng.integers(7))])


def cr(t, x, i):
    return t[i] + (0 - x[i]) * (t[i + 1] - t[i]) / (x[i + 1] - x[i])


def k_w(d):
    x = np.array(d['x'], float)
    if len(x) < 3:
        raise lib.Skip
    dt = float(d.get('dt', 1))
    t = float(d.get('t0', 1)) + dt * np.arange(len(x))
    g = float(d.get('g', 9.81))
    ts = wo.TimeSeries(x.copy(), t.copy())
    r = ts.wave_parameters()
    z = sel(x, 0, 'tw')
    if len(z) <= 2:
        z = []
    m = max(0, len(z) // 2 - 1)
    T = [(np.argmin if j % 2 == 0 else np.argmax)(x[z[j] + 1:z[j + 1] + 1]) + z[j] + 1 for j in range(max(0, len(z) - 1))]
    dT = (t[-1] - t[0]) / (len(t) - 1)
    nz = lambda q: dT if q == 0 else q
    c = [cr(t, x, i) for i in z]
    ref = dict(Ac=[x[T[2 * k + 1]] for k in range(m)], At=[-x[T[2 * k]] for k in range(m + 1 if m else 0)],
               Hu=[x[T[2 * k + 1]] - x[T[2 * k + 2]] for k in range(m)], Hd=[x[T[2 * k + 1]] - x[T[2 * k]] for k in range(m)],
               Tu=[c[2 * k + 3] - c[2 * k + 1] for k in range(m)], Td=[c[2 * k + 2] - c[2 * k] for k in range(m)],
               Tcf=[nz(t[T[2 * k + 1]] - c[2 * k + 1]) for k in range(m)], Tcb=[nz(c[2 * k + 2] - t[T[2 * k + 1]]) for k in range(m)])
    if set(r) != set(ref):
        return 'names %r' % (sorted(r),)
    for q in ref:
        if len(r[q]) != len(ref[q]) or not np.allclose(r[q], ref[q], rtol=1e-8, atol=1e-8):
            return 'wave_parameters %s of %r: %r, expected %r' % (q, x.tolist(), r[q], ref[q])
    if m == 0:
        return
    kinds = dict(maxVcfVcb=0, Vcf=1, Vcb=-1, Scf=2, Scb=-2, StHd=3, StHu=-3)
    R = {q: np.array(ref[q]) for q in ref}
    if np.any(R['Tcf'] <= 1e-9) or np.any(R['Tcb'] <= 1e-9) or np.any(np.abs(R['Tcf'] - R['Tcb']) < 1e-9):
        raise lib.Skip
    for kind in [d['kind']] if 'kind' in d else list(kinds):
        for name in (kind, kinds[kind]):
            s, H = ts.wave_height_steepness(name, g=g)
            e = kinds[kind]
            if e == 0:
                f = R['Tcf'] < R['Tcb']
                S, h = R['Ac'] / np.minimum(R['Tcf'], R['Tcb']), np.where(f, R['Hd'], R['Hu'])
            else:
                h, P, Q = (R['Hd'], R['Td'], R['Tcf']) if e > 0 else (R['Hu'], R['Tu'], R['Tcb'])
                S = {1: R['Ac'] / Q, 2: 2 * np.pi * R['Ac'] / P / Q / g, 3: 2 * np.pi * h / P**2 / g}[abs(e)]
            if np.shape(s) != np.shape(S) or not np.allclose(s, S, rtol=1e-7) or not np.allclose(H, h, rtol=1e-7, atol=1e-10):
                return 'wave_height_steepness(%r) of %r (g=%r): %r %r, expected %r %r' % (name, x.tolist(), g, s, H, S, h)
    if np.any(ts.data != x) or np.any(ts.args != t):
        return 'series changed'


def k_objects(d):
    x = np.array(d['x'], float)
    if len(x) < 3:
        raise lib.Skip
    t = 1 + .5 * np.arange(len(x))
    ts = wo.TimeSeries(x.copy(), t.copy())
    h = float(d.get('h', 0))
    for kind in (None, 'mw'):
        ind = wm.findtp(x, max(h, 0), kind)
        if ind is None or len(ind) == 0:
            continue
        r = ts.turning_points(h, kind)
        if list(r.data) != list(x[ind]) or list(r.args) != list(t[ind]):
            return 'turning_points(%r, %r) of %r' % (h, kind, x.tolist())
    for v in (None, 0.):
        ind = wm.findtc(x, v, None)[0]
        if len(ind) == 0:
            continue
        r = ts.trough_crest(v)
        if list(r.data) != list(x[ind]) or list(r.args) != list(t[ind]):
            return 'trough_crest(%r) of %r' % (v, x.tolist())


def k_per(d):
    x, v = np.array(d['x'], float), float(d.get('v', 0))
    if len(x) < 3:
        raise lib.Skip
    t = 1 + .5 * np.arange(len(x))
    z = crossings(x, v)
    # recorded finding: series whose first crossing is downwards
    if len(z) < 2 or x[z[0] + 1] < v or not x[z[0]] <= x[z[1]]:
        raise lib.Skip
    c = [t[i] + (v - x[i]) * .5 / (x[i + 1] - x[i]) for i in z]
    ts = wo.TimeSeries(x.copy(), t.copy())
    for p in ('d2d', 'u2u', 'd2u', 'u2d'):
        T, ix = ts.wave_periods(v, p)
        dist = 2 if p[0] == p[2] else 1
        ref = [c[k + dist] - c[k] for k in range(len(c) - dist) if (x[z[k] + 1] < v) == (p[0] == 'd')]
        if list(ix) != z or len(T) != len(ref) or not np.allclose(T, ref, rtol=1e-8, atol=1e-8):
            return 'wave_periods(%r, %r) of %r: %r, expected %r' % (v, p, x.tolist(), T, ref)


CHECKS = dict(extrema=(g_x, k_extrema, 500), tp=(g_tp, k_tp, 700), tc=(g_tc, k_tc, 600), waves=(g_w, k_w, 500),
              objects=(g_tp, k_objects, 200), periods=(g_tc, k_per, 400))
