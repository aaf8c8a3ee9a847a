import warnings
import itertools
import numpy as np
import lib
from scipy.integrate import simps
from wafo.spectrum import core
LITERALS = []
BUDGET = 12
NAMES = ['Hm0', 'Tm01', 'Tm02', 'Tm24', 'Tm_10', 'Tp', 'Ss', 'Sp', 'Ka', 'Rs', 'Tp1', 'Alpha', 'Eps2', 'Eps4', 'Qp']


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=1e-12, equal_nan=True)


def gen(rng, i, lits):
    n = int(rng.choice([5, 8, 21, 40, 65]))
    w = np.linspace(0, 3., n) if rng.random() < .6 else np.sort(rng.random(n)) * 3 + .01
    if rng.random() < .3:
        w = w + .2
    p = .4 + rng.random() * 1.5
    s = np.exp(-((w - p) / (.1 + rng.random() * .5)) ** 2) * (.5 + rng.random() * 3) + .4 * rng.random() * np.exp(-((w - 2.2) / .2) ** 2)
    if w[0] == 0:
        s[0] = 0
    fts = ['w', 'f', 'k']
    return dict(w=np.round(w, 5).tolist(), S=np.round(s, 6).tolist(), ft=fts[int(rng.integers(3))], T=float(rng.choice([1200., 600., 3600.])),
                g=float(rng.choice([9.81, 3.7])), nr=int(rng.integers(0, 9)), even=bool(rng.random() < .5), j=int(rng.random() < .4),
                sel=[int(x) for x in rng.integers(0, 15, int(rng.integers(1, 6)))], form=int(rng.integers(0, 4)))


def get(d):
    for k in ('w', 'S', 'ft'):
        if k not in d:
            raise lib.Skip
    w, s = np.array(d['w'], float), np.array(d['S'], float)
    if len(w) < 3 or len(w) != len(s) or np.any(np.diff(w) <= 0) or np.any(w < 0) or np.any(s < 0) or s.max() <= 0:
        raise lib.Skip
    sc = 2 * np.pi if d['ft'] == 'f' else 1.
    o = core.SpecData1D(s / 1., w / 1., type='k1d' if d['ft'] == 'k' else 'freq', freqtype=d['ft'])
    return o, w * sc, s / sc, w, s


def unchanged(o, w, s):
    return None if np.array_equal(o.args, w) and np.array_equal(o.data, s) else 'the spectrum was changed'


def moment(d):
    o, W, S, w, s = get(d)
    nr, even, j = d['nr'], d['even'], d['j']
    m, t = o.moment(nr, even, j)
    ks = list(range(0, nr + 1, 2 if even else 1))
    want = [simps(W ** k * S ** (j + 1), x=W) for k in ks]
    if len(m) != len(ks) or not close(m, want):
        return 'moments %s, expected %s' % (m, want)
    names = ['m%d' % j + ('x' if d['ft'] == 'k' else 't') * k for k in ks]
    if t != names:
        return 'names %s, expected %s' % (t, names)
    return unchanged(o, w, s)


def ing(W, S):
    m = [simps(W ** k * S, x=W) for k in range(5)]
    q = {k: simps(W ** k * S ** 2, x=W) for k in range(9)}
    i = W > 0
    q[-1], q[-2] = simps(S[i] ** 2 / W[i], x=W[i]), simps(S[i] ** 2 / W[i] ** 2, x=W[i])
    if min(m) <= 0 or m[0] * m[2] <= m[1] ** 2 * 1.001 or m[0] * m[4] <= m[2] ** 2 * 1.001:
        raise lib.Skip
    return m, q, simps(S[i] / W[i], x=W[i])


def charac(W, S, T, g):
    m, q, mi = ing(W, S)
    p2 = 2 * np.pi
    Hm0, Tm02, Tp = 4 * np.sqrt(m[0]), p2 * np.sqrt(m[0] / m[2]), p2 / W[np.argmax(S)]
    ka = np.hypot(simps(S * np.cos(W * Tm02), x=W), simps(S * np.sin(W * Tm02), x=W)) / m[0]
    rs = sum(np.interp(p2 * f, W, S) for f in (.0146, .0195, .0244)) / 3 / S.max()
    al = m[2] / np.sqrt(m[0] * m[4])
    return np.array([Hm0, p2 * m[0] / m[1], Tm02, p2 * np.sqrt(m[2] / m[4]), p2 * mi / m[0], Tp, p2 * Hm0 / g / Tm02 ** 2, p2 * Hm0 / g / Tp ** 2, ka, rs,
                     p2 * simps(S ** 4, x=W) / simps(W * S ** 4, x=W), al, np.sqrt(m[0] * m[2] / m[1] ** 2 - 1), np.sqrt(1 - al ** 2), 2 * q[1] / m[0] ** 2])


def characteristic(d):
    o, W, S, w, s = get(d)
    if W[np.argmax(S)] <= 0:
        raise lib.Skip
    want = charac(W, S, d['T'], d['g'])
    sel = d['sel']
    arg = [sel, tuple(NAMES[k] for k in sel), np.array(sel), [NAMES[k].lower() if n % 2 else k for n, k in enumerate(sel)]][d['form']]
    if len(sel) == 1:
        arg = [sel[0], NAMES[sel[0]], arg, arg][d['form']]
    ch, R, txt = o.characteristic(arg, d['T'], d['g'])
    if not close(ch, want[sel]):
        return 'characteristics %s are %s, expected %s' % (sel, ch, want[sel])
    if list(txt) != [NAMES[k] for k in sel]:
        return 'names %s for %s' % (txt, sel)
    if np.shape(R) != (len(sel), len(sel)):
        return 'covariance of shape %s' % (np.shape(R),)
    full = o.characteristic(list(range(15)), d['T'], d['g'])[1]
    if not close(R, full[np.ix_(sel, sel)]):
        return 'covariance of the selection is not the selection of the covariance'
    return unchanged(o, w, s)


def variance(d):
    o, W, S, w, s = get(d)
    if W[np.argmax(S)] <= 0:
        raise lib.Skip
    T, g = d['T'], d['g']
    m, q, mi = ing(W, S)
    p2 = 2 * np.pi
    z = {k: m[k] / p2 ** k for k in range(5)}
    z[-1] = mi * p2
    cov = {k: q[k] * p2 ** (1. - k) / T for k in q}
    fun = {'Hm0': lambda m: 4 * np.sqrt(m[0]), 'Tm01': lambda m: m[0] / m[1], 'Tm02': lambda m: np.sqrt(m[0] / m[2]), 'Tm24': lambda m: np.sqrt(m[2] / m[4]),
           'Tm_10': lambda m: m[-1] / m[0], 'Ss': lambda m: 8 * np.pi / g * m[2] / np.sqrt(m[0]), 'Alpha': lambda m: m[2] / np.sqrt(m[0] * m[4]),
           'Eps2': lambda m: np.sqrt(m[0] * m[2] / m[1] ** 2 - 1), 'Eps4': lambda m: np.sqrt(1 - m[2] ** 2 / m[0] / m[4])}

    def grad(f):
        r = {}
        for k in z:
            a, b = dict(z), dict(z)
            h = z[k] * 1e-6
            a[k], b[k] = z[k] + h, z[k] - h
            r[k] = (f(a) - f(b)) / (2 * h)
        return {k: x for k, x in r.items() if abs(x) > 1e-14}
    R = o.characteristic(list(range(15)), T, g)[1]
    G = {k: grad(f) for k, f in fun.items()}
    for a, b in [(k, k) for k in fun] + [('Tm01', 'Tm02'), ('Tm02', 'Tm01')]:
        tm = [x * y * cov[p + r] for p, x in G[a].items() for r, y in G[b].items()]
        want = sum(tm)
        got = R[NAMES.index(a), NAMES.index(b)]
        if not abs(got - want) <= 1e-4 * sum(abs(t) for t in tm):
            return 'covariance of %s and %s is %g, expected %g' % (a, b, got, want)


def bandwidth(d):
    o, W, S, w, s = get(d)
    m, q, mi = ing(W, S)
    al = m[2] / np.sqrt(m[0] * m[4])
    want = np.array([al, np.sqrt(m[0] * m[2] / m[1] ** 2 - 1), np.sqrt(1 - al ** 2), 2 * q[1] / m[0] ** 2])
    nm = [('alpha',), ('eps2',), ('eps4',), ('Qp', 'qp')]
    sel = [k % 4 for k in d['sel']]
    args = [(sel, sel), ([nm[k][-1] for k in sel], sel), ([nm[k][0] if i % 2 else k for i, k in enumerate(sel)], sel), (nm[sel[0]][0], sel[:1]), (sel[0], sel[:1])]
    for a, e in args:
        r = o.bandwidth(a)
        if not close(r, want[e]):
            return 'bandwidth(%r) is %s, expected %s' % (a, r, want[e])
    return unchanged(o, w, s)


def unit(d):
    o, W, S, w, s = get(d)
    if d['ft'] == 'k' or W[np.argmax(S)] <= 0:
        raise lib.Skip
    a = o.characteristic(list(range(15)))
    new = 'f' if d['ft'] == 'w' else 'w'
    o.freqtype = new
    if o.freqtype != new or not close(o.args, w * (1 / (2 * np.pi) if new == 'f' else 2 * np.pi)) or not close(np.trapz(o.data, o.args), np.trapz(s, w)):
        return 'converting %s to %s: wrong density' % (d['ft'], new)
    b = o.characteristic(list(range(15)))
    if not close(a[0], b[0]) or not close(a[1], b[1], 1e-6):
        return 'characteristics depend on the unit of frequency: %s / %s' % (a[0], b[0])


def gen2(rng, i, lits):
    d = gen(rng, i, lits)
    nt = int(rng.choice([5, 12, 21]))
    th = np.linspace(-np.pi, np.pi, nt)
    d.update(th=np.round(th, 5).tolist(), ex=np.round(rng.random(nt) + .1, 3).tolist(), phi=float(rng.choice([0., .4, -1.2])), nr=int(rng.integers(0, 5)),
             vari=[None, 'x', 'y', 't', 'xy', 'xt', 'tx', 'xyt', 'TYX', 'yx'][int(rng.integers(10))], g=float(rng.choice([9.81, 3.7])))
    return d


def moment2(d):
    for k in ('th', 'ex', 'vari'):
        if k not in d:
            raise lib.Skip
    d = dict(d, ft='w')
    W, S1 = get(d)[1:3]
    th, ex = np.array(d['th']), np.array(d['ex'])
    S = ex[:, None] * (1 + .3 * np.cos(th[:, None] - W / 3)) * S1
    o = core.SpecData2D(S.copy(), [W.copy(), th.copy()], type='dir', freqtype='w')
    o.phi, o.g = d['phi'], d['g']
    nr, vari = d['nr'], d['vari']
    m, txt = o.moment(nr, vari)
    vs = [c for c in 'xyt' if c in (vari or ('x' if nr <= 1 else 'xt')).lower()]
    want = ['m0']
    for k in ((1,) if nr >= 1 else ()) + ((2,) if nr >= 2 else ()) + ((4,) if nr >= 4 else ()):
        want += ['m' + ''.join(t) for t in itertools.combinations_with_replacement(vs, k)]
    if sorted(txt) != sorted(want) or len(m) != len(txt):
        return 'moments %s, expected %s' % (txt, want)
    t = (th - o.phi)[:, None]
    k = W ** 2 / d['g']
    for x, nm in zip(m, txt):
        q = nm.replace('0', '')

        def val(a, b, c):
            f = S * np.cos(t) ** a * np.sin(t) ** b
            return simps(k ** (a + b) * W ** c * simps(f, x=t[:, 0], axis=0), x=W), np.trapz(k ** (a + b) * W ** c * np.trapz(S, x=t[:, 0], axis=0), x=W)
        e, sc = val(q.count('x'), q.count('y'), q.count('t'))
        if nm == 'myt' and abs(x - val(1, 0, 1)[0]) <= 1e-9 * sc:
            continue                    # known finding
        if not abs(x - e) <= 1e-9 * sc:
            return 'moment %s is %g, expected %g' % (nm, x, e)
    if not np.array_equal(o.data, S) or not np.array_equal(o.args[1], th) or not np.array_equal(o.args[0], W):
        return 'the spectrum was changed'


CHECKS = {'moment': (gen, moment), 'characteristic': (gen, characteristic), 'variance': (gen, variance), 'bandwidth': (gen, bandwidth),
          'unit': (gen, unit), 'moment2': (gen2, moment2)}
