import numpy as np
import lib
import wafo.bitwise as bw
LITERALS = ['src/wafo/bitwise.py']
BUDGET = 8
LIM = 2**62


def num(rng):
    w = int(rng.integers(1, 63))
    x = int(rng.integers(0, 2**w))
    return x


def g_get(rng, i, lits):
    n = int(rng.integers(1, 6))
    return dict(i=[num(rng) for _ in range(n)], bit=[int(rng.integers(0, 62)) if rng.random() < .5 else int(rng.integers(0, 8)) for _ in range(n)],
                value=[int(rng.integers(0, 2)) for _ in range(n)], n=int(rng.integers(1, 62)))


def vals(d):
    i, bit = d.get('i', [5]), d.get('bit', [2])
    i = [int(x) for x in (i if isinstance(i, list) else [i])]
    bit = [int(x) for x in (bit if isinstance(bit, list) else [bit])]
    n = min(len(i), len(bit))
    if n == 0 or any(not 0 <= x < 2**63 for x in i) or any(not 0 <= b < 63 for b in bit):
        raise lib.Skip
    return i[:n], bit[:n]


def k_get(d):
    i, bit = vals(d)
    ref = [(x >> b) & 1 for x, b in zip(i, bit)]
    for x, b, q in zip(i, bit, ref):
        if bw.getbit(x, b) != q:
            return 'getbit(%d, %d) = %r, expected %d' % (x, b, bw.getbit(x, b), q)
    a, k = np.array(i), np.array(bit)
    r = bw.getbit(a, k)
    if r.shape != a.shape or r.tolist() != ref or a.tolist() != i or k.tolist() != bit:
        return 'getbit(%r, %r) = %r, expected %r' % (i, bit, r, ref)
    if bw.getbit(i[0], k).tolist() != [(i[0] >> b) & 1 for b in bit] or bw.getbit(a, bit[0]).tolist() != [(x >> bit[0]) & 1 for x in i]:
        return 'broadcasting of getbit'
    x, y = i[0], i[-1]
    if (int(bw.bitwise_and(x, y)), int(bw.bitwise_or(x, y)), int(bw.bitwise_xor(x, y)), int(bw.bitwise_not(x))) != (x & y, x | y, x ^ y, ~x):
        return 'bitwise functions'
    if int(bw.binary_repr(x), 2) != x:
        return 'binary_repr'


def k_set(d):
    i, bit = vals(d)
    val = d.get('value', [1])
    val = [int(x) for x in (val if isinstance(val, list) else [val])]
    val = [1 if x else 0 for x in (val * len(i))[:len(i)]]
    sb = lambda x, b, w: x | (1 << b) if w else x & ~(1 << b)
    for x, b, w in zip(i, bit, val):
        if int(bw.setbit(x, b, w)) != sb(x, b, w):
            return 'setbit(%d, %d, %d) = %r, expected %d' % (x, b, w, bw.setbit(x, b, w), sb(x, b, w))
        if int(bw.setbit(x, b)) != sb(x, b, 1):
            return 'setbit(%d, %d) = %r' % (x, b, bw.setbit(x, b))
    a, k, w = np.array(i), np.array(bit), np.array(val)
    r = bw.setbit(a, k, w)
    if r.shape != a.shape or r.tolist() != [sb(*q) for q in zip(i, bit, val)] or a.tolist() != i:
        return 'setbit(%r, %r, %r) = %r' % (i, bit, val, r)
    if bw.setbit(i[0], k, 0).tolist() != [sb(i[0], b, 0) for b in bit] or bw.setbit(a, bit[0], w).tolist() != [sb(x, bit[0], q) for x, q in zip(i, val)]:
        return 'broadcasting of setbit'
    if bw.setbit(i[0], bit[0], w).tolist() != [sb(i[0], bit[0], q) for q in val]:
        return 'broadcasting of the value'


def k_bits(d):
    i = d.get('i', [5])
    i = [int(x) for x in (i if isinstance(i, list) else [i])]
    n = int(d.get('n', 8))
    if not 1 <= n <= 62 or any(not 0 <= x < 2**63 for x in i):
        raise lib.Skip
    for x in i:
        r = bw.getbits(x, n)
        if list(r) != [(x >> k) & 1 for k in range(n)]:
            return 'getbits(%d, %d) = %r' % (x, n, r)
        if list(bw.getbits(x)) != [(x >> k) & 1 for k in range(8)]:
            return 'getbits(%d) = %r' % (x, bw.getbits(x))
        if int(bw.setbits(r)) != x & (2**n - 1) or int(bw.setbits(r.tolist())) != x & (2**n - 1):
            return 'setbits(getbits(%d, %d)) = %r' % (x, n, bw.setbits(r))


CHECKS = {'get': (g_get, k_get, 300), 'set': (g_get, k_set, 300), 'bits': (g_get, k_bits, 300)}
