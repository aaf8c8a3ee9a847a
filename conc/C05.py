import numpy as np
import lib
import clibc
import wafo.misc as wm
import wafo.objects as wo
wm.clib = clibc
LITERALS = ['src/wafo/objects.py:CyclePairs,TurningPoints']


def pairs(rng, i, lits, n=None):
    n = n if n is not None else (i + 1 if i < 4 else int(rng.integers(1, 20)))
    r = rng.random()
    if r < .5:
        a, b = rng.integers(-5, 6, n).astype(float), rng.integers(1, 6, n).astype(float)
    elif r < .7 and lits:
        a, b = (np.array([lits[k] for k in rng.integers(len(lits), size=n)]) for _ in range(2))
        b = np.abs(b) % 20 + .5
    else:
        a, b = rng.normal(size=n), rng.random(n) * 3 + .01
    a = a + float(rng.choice([0, 0, -20, 20]))
    return a, a + b


def g_pairs(rng, i, lits):
    m, M = pairs(rng, i, lits)
    if rng.random() < .4:
        m, M = M, m
    elif rng.random() < .2:
        k = rng.random(len(m)) < .5
        m, M = np.where(k, M, m), np.where(k, m, M)
    return dict(args=m.tolist(), data=M.tolist(), K=float(rng.choice([1, 0, .5, 3, rng.random()])),
                beta=[float(x) for x in rng.choice([1, 2, 3, 3.5, 5, 0], int(rng.integers(1, 4)))])


def k_pairs(d):
    m, M = np.array(d['args'], float), np.array(d['data'], float)
    if len(m) != len(M):
        raise lib.Skip
    K, beta = float(d.get('K', 1)), [float(b) for b in d.get('beta', [3.])]
    c = wo.CyclePairs(M.copy(), m.copy())
    amp = c.amplitudes()
    if len(m) and np.max(np.abs(amp - (M - m) / 2)) > 1e-9 * (1 + np.max(np.abs(M)) + np.max(np.abs(m))):
        return 'amplitudes of %r, %r: %r' % (m, M, amp)
    dam = c.damage(beta, K)
    ref = [K * sum(abs(x - y)**b / 2**b for x, y in zip(M, m)) for b in beta]
    if dam.shape != (len(beta),) or not np.allclose(dam, ref, rtol=1e-9, atol=1e-12):
        return 'damage(%r, %r) = %r, expected %r' % (beta, K, dam, ref)
    if not np.allclose(c.damage(beta), [sum(abs(x - y)**b / 2**b for x, y in zip(M, m)) for b in beta], rtol=1e-9, atol=1e-12):
        return 'damage with the default constant'
    k = len(m) // 2
    two = wo.CyclePairs(M[:k], m[:k]).damage(beta, K) + wo.CyclePairs(M[k:], m[k:]).damage(beta, K)
    if not np.allclose(dam, two, rtol=1e-9, atol=1e-12):
        return 'damage does not add up over disjoint sets: %r, %r' % (dam, two)
    if np.any(c.data != M) or np.any(c.args != m):
        return 'data changed'
    if np.all(m <= M) or np.all(m > M):
        lo, hi = c.get_minima_and_maxima()
        if list(lo) != list(np.minimum(m, M)) or list(hi) != list(np.maximum(m, M)):
            return 'get_minima_and_maxima: %r %r' % (lo, hi)


def g_tp(rng, i, lits):
    n = i + 2 if i < 6 else int(rng.integers(2, 25))
    u = rng.integers(1, 5, n).astype(float) if rng.random() < .5 else rng.random(n) + .01
    x = np.cumsum(u * (-1.)**(np.arange(n) + int(rng.integers(2))))
    return dict(x=x.tolist(), t=np.cumsum(rng.random(n) + .1).tolist())


def k_tp(d):
    x, t = np.array(d['x'], float), np.array(d['t'], float)
    dx = np.diff(x)
    if len(x) != len(t) or len(x) < 2 or np.any(dx == 0) or np.any(dx[1:] * dx[:-1] > 0) or not np.any(t):
        raise lib.Skip
    tp = wo.TurningPoints(x, t)
    for kind in ('min2max', 'max2min'):
        c = tp.cycle_pairs(kind=kind)
        e = [(a, b) for a, b in zip(x[:-1], x[1:]) if (a < b) == (kind == 'min2max')]
        m, M = [min(p) for p in e], [max(p) for p in e]
        if list(c.args) != m or list(c.data) != M:
            return '%s of %r: %r %r' % (kind, x.tolist(), c.args, c.data)
        if abs(c.time - (t[-1] - t[0])) > 1e-12:
            return 'duration %r' % c.time
        if c.kind != kind:
            return 'kind %r' % c.kind
    for h in (.5, 1.5, 3.):
        ind = wm.findrfc(x, h)
        if len(ind) < 2:
            continue
        y = x[ind]
        for kind in ('min2max', 'max2min'):
            c = tp.cycle_pairs(h=h, kind=kind)
            e = [(a, b) for a, b in zip(y[:-1], y[1:]) if (a < b) == (kind == 'min2max')]
            if list(c.args) != [min(p) for p in e] or list(c.data) != [max(p) for p in e]:
                return '%s of %r with h=%r' % (kind, x.tolist(), h)
        f = tp.rainflow_filter(h)
        if list(f.data) != list(y) or list(f.args) != list(t[ind]):
            return 'rainflow_filter(%r) of %r' % (h, x.tolist())


def counts(m, M, u, kind):
    f = {1: lambda v: np.sum((m < v) & (v < M)), 2: lambda v: np.sum((m < v) & (v <= M)),
         3: lambda v: np.sum((m <= v) & (v <= M)), 4: lambda v: np.sum((m <= v) & (v < M))}[kind]
    r = [float(f(v)) for v in u]
    if kind == 4 and len(r) > 1:
        r[-1] = r[-2]
    return r


# recorded in known_findings.txt: what the string kinds give instead of the documented definition
RECORDED = {'uM': 1, 'umM': 2, 'um': 3}
DOC = {'u': 1, 'uM': 2, 'umM': 3, 'um': 4}


def g_lc(rng, i, lits):
    m, M = pairs(rng, i, lits)
    rev = bool(rng.random() < .3)
    return dict(m=m.tolist(), M=M.tolist(), rev=rev, time=float(rng.choice([1., 2.5, 100])))


def k_lc(d):
    m, M = np.array(d['m'], float), np.array(d['M'], float)
    if len(m) != len(M) or not len(m) or np.any(m >= M):
        raise lib.Skip
    time = float(d.get('time', 1)) or 1.
    c = wo.CyclePairs(*((m, M) if d.get('rev') else (M, m)), time=time, mean=0., sigma=1.)
    u = sorted(set(m) | set(M))
    for kind in (1, 2, 3, 4, 'u', 'uM', 'umM', 'um'):
        try:
            r = c.level_crossings(kind)
        except ValueError:
            if kind == 'u':
                continue                 # recorded
            return 'kind %r rejected' % kind
        if list(r.args) != u:
            return 'levels of %r, %r: %r' % (m.tolist(), M.tolist(), list(r.args))
        ok = [counts(m, M, u, DOC.get(kind, kind))] + ([counts(m, M, u, RECORDED[kind])] if kind in RECORDED else [])
        if list(r.data) not in ok:
            return 'kind %r of minima %r, maxima %r: %r, expected %r' % (kind, m.tolist(), M.tolist(), list(r.data), ok[0])
        if isinstance(kind, int):
            q = c.level_crossings(kind, intensity=True)
            if not np.allclose(q.data, np.array(ok[0]) / time, rtol=1e-12):
                return 'intensity: %r' % q.data


def g_cm(rng, i, lits):
    m, M = pairs(rng, i, lits)
    if rng.random() < .5:
        k = rng.random(len(m)) < .5
        if rng.random() < .3:
            k[:] = False
            k[0] = True
        m, M = np.where(k, M, m), np.where(k, m, M)
    lo, hi = float(np.min([m, M])), float(np.max([m, M]))
    N = int(rng.integers(2, 9))
    if rng.random() < .5:
        lo, hi = np.floor(lo), np.floor(lo) + (N - 1) * np.ceil((hi - np.floor(lo)) / (N - 1))
    return dict(args=m.tolist(), data=M.tolist(), lo=float(lo), hi=float(hi + (hi <= lo)), N=N)


def k_cm(d):
    x, y = np.array(d['args'], float), np.array(d['data'], float)
    lo, hi, N = float(d['lo']), float(d['hi']), int(d['N'])
    if len(x) != len(y) or lo >= hi or N < 2 or len(x) and (min(x.min(), y.min()) < lo or max(x.max(), y.max()) > hi):
        raise lib.Skip
    c = wo.CyclePairs(y.copy(), x.copy())
    u = np.linspace(lo, hi, N)
    dl = u[1] - u[0]
    eps = 1e-9 * (1 + abs(lo) + abs(hi)) / dl
    for ddef in (1, 0, -1):
        p, q = c._discretize_cycle_pairs((lo, hi, N), ddef)
        if len(p) != len(x) or len(q) != len(x):
            return 'lengths'
        for a, b, i, j in zip(x, y, p, q):
            A, B = (a - lo) / dl, (b - lo) / dl
            if not (0 <= i < N and 0 <= j < N):
                return 'class out of the matrix: %r %r' % (i, j)
            dn = lambda X, k: k <= X + eps and (X < k + 1 + eps)
            up = lambda X, k: k >= X - eps and (X > k - 1 - eps)
            if ddef == 0:
                ok = abs(A - i) <= .5 + eps and abs(B - j) <= .5 + eps
            else:
                f, g = (dn, up) if (a <= b) == (ddef == 1) else (up, dn)
                if a == b:
                    f, g = (dn, up) if ddef == 1 else (up, dn)
                ok = f(A, i) and g(B, j)
            if not ok:
                return 'pair (%r, %r) in levels %r, ddef=%r: classes (%r, %r)' % (a, b, u.tolist(), ddef, i, j)
        cm = c.cycle_matrix((lo, hi, N), ddef)
        F = np.zeros((N, N))
        for i, j in zip(p, q):
            F[i, j] += 1
        if np.any(np.asarray(cm.data) != F):
            return 'cycle matrix'
        if not np.allclose(cm.args[0], u) or not np.allclose(cm.args[1], u):
            return 'levels of the cycle matrix'
    pp, qq = np.array(d.get('p', []), int), np.array(d.get('q', []), int)
    if len(pp) == len(qq) and len(pp) and pp.min() >= 0 and qq.min() >= 0 and max(pp.max(), qq.max()) < N:
        F = np.zeros((N, N))
        np.add.at(F, (pp, qq), 1)
        if np.any(c._dcp2cmat((pp, qq), N) != F):
            return '_dcp2cmat'


CHECKS = dict(pairs=(g_pairs, k_pairs, 250), tp=(g_tp, k_tp, 250), lc=(g_lc, k_lc, 250), cmat=(g_cm, k_cm, 250))
