"""C12 coordinate transformations"""
from vf.api import *

META = {}


def rxyz(h, p, r):
    """heading about z, then pitch about y, then roll about x (the matrix product Rz Ry Rx)"""
    d = S(PI) / 180
    ch, sh, cp, sp, cr, sr = [fn1(f, a * d) for a in (h, p, r) for f in ('cos', 'sin')]
    z, o = lift(0), lift(1)
    Rz = [[ch, -sh, z], [sh, ch, z], [z, z, o]]
    Ry = [[cp, z, sp], [z, o, z], [-sp, z, cp]]
    Rx = [[o, z, z], [z, cr, -sr], [z, sr, cr]]
    mul = lambda A, B: [[A[i][0] * B[0][j] + A[i][1] * B[1][j] + A[i][2] * B[2][j] for j in range(3)] for i in range(3)]
    return mul(mul(Rz, Ry), Rx)


@contract('C12', 'rotate_2d', ['wafo.misc:rotate_2d'], conc='rot2d')
def c_rotate2d(v):
    n = v.int('n', 0)
    x, y = v.array('x', n), v.array('y', n)
    a = v.real('a')
    xo, yo = v.call('wafo.misc', 'rotate_2d', x, y, a)
    i = v.index(n)
    th = a * S(PI) / 180
    c, s = fn1('cos', th), fn1('sin', th)
    X, Y = at(x, i), at(y, i)
    v.ensure('x rotated', veq(at(xo, i), c * X - s * Y))
    v.ensure('y rotated', veq(at(yo, i), s * X + c * Y))
    v.ensure('norm preserved', at(xo, i)**2 + at(yo, i)**2 == X * X + Y * Y)


@contract('C12', 'polar', ['wafo.misc:cart2polar', 'wafo.misc:polar2cart'], conc='polar')
def c_polar(v):
    n = v.int('n', 0)
    x, y, z = v.array('x', n), v.array('y', n), v.array('z', n)
    for three in (False, True):
        if three:
            t, r, z2 = v.call('wafo.misc', 'cart2polar', x, y, z)
            x2, y2, z2 = v.call('wafo.misc', 'polar2cart', t, r, z2)
        else:
            t, r = v.call('wafo.misc', 'cart2polar', x, y)
            x2, y2 = v.call('wafo.misc', 'polar2cart', t, r)
        i = v.index(n)
        v.ensure('x', veq(at(x2, i), at(x, i)))
        v.ensure('y', veq(at(y2, i), at(y, i)))
        v.ensure('radius', land(at(r, i) >= 0, veq(at(r, i)**2, at(x, i)**2 + at(y, i)**2)))
        v.ensure('angle range', land(at(t, i) >= -S(PI), at(t, i) <= S(PI)))
        if three:
            v.ensure('z', veq(at(z2, i), at(z, i)))


@contract('C12', 'polar2cart', ['wafo.misc:polar2cart'], conc='polar')
def c_polar2(v):
    n = v.int('n', 0)
    t, r = v.array('t', n), v.array('r', n)
    x, y = v.call('wafo.misc', 'polar2cart', t, r)
    i = v.index(n)
    v.ensure('x', veq(at(x, i), at(r, i) * fn1('cos', at(t, i))))
    v.ensure('y', veq(at(y, i), at(r, i) * fn1('sin', at(t, i))))


@contract('C12', 'spaceline', ['wafo.misc:spaceline'], conc='spaceline')
def c_spaceline(v):
    n = v.int('num', 1)
    d = v.int('d', 1)
    a, b = v.array('a', d), v.array('b', d)
    r = v.call('wafo.misc', 'spaceline', a, b, n)
    v.ensure('shape', land(r.shape[0] == n, r.shape[1] == d) if r.ndim == 2 else False)
    k, j = v.index(n), v.index(d)
    A, B = at(a, j), at(b, j)
    if n > 1:
        v.ensure('point', veq(at(r, k, j), A + (B - A) * k / (n - 1)))
    else:
        v.ensure('midpoint', veq(at(r, k, j), (A + B) / 2))


@contract('C12', 'rotation matrix', ['wafo.misc:rotation_matrix'], conc='rot3')
def c_rot(v):
    h, p, r = v.real('h'), v.real('p'), v.real('r')
    m = v.call('wafo.misc', 'rotation_matrix', h, p, r)
    R = rxyz(h, p, r)
    for i in range(3):
        for j in range(3):
            d = m.get(i, 0) * m.get(j, 0) + m.get(i, 1) * m.get(j, 1) + m.get(i, 2) * m.get(j, 2)
            v.ensure('orthogonal %d%d' % (i, j), veq(d, 1 if i == j else 0))
            v.ensure('entry %d%d' % (i, j), veq(m.get(i, j), R[i][j]))


@contract('C12', 'rotate', ['wafo.misc:rotate', 'wafo.misc:rotation_matrix'], conc='rot3')
def c_rot3(v):
    h, p, r = v.real('h'), v.real('p'), v.real('r')
    n = v.int('n', 0)
    x, y, z = v.array('x', n), v.array('y', n), v.array('z', n)
    out = v.call('wafo.misc', 'rotate', x, y, z, h, p, r)
    R = rxyz(h, p, r)
    i = v.index(n)
    X = [at(x, i), at(y, i), at(z, i)]
    O = [at(o, i) for o in out]
    for k in range(3):
        v.ensure('coordinate %d' % k, veq(O[k], R[k][0] * X[0] + R[k][1] * X[1] + R[k][2] * X[2]))
    v.ensure('length preserved', veq(O[0]**2 + O[1]**2 + O[2]**2, X[0]**2 + X[1]**2 + X[2]**2))


@contract('C12', 'rotate scalars', ['wafo.misc:rotate', 'wafo.misc:rotation_matrix'], conc='rot3')
def c_rot4(v):
    h = v.real('h')
    x, y, z = v.real('x'), v.real('y'), v.real('z')
    xo, yo, zo = v.call('wafo.misc', 'rotate', x, y, z, heading=h)
    x2, y2 = v.call('wafo.misc', 'rotate_2d', x, y, h)
    v.ensure('heading rotates in the plane', land(veq(xo, x2), veq(yo, y2), veq(zo, z)))
