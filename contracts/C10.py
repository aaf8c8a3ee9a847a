"""C10 bit operations"""
from vf.api import *
from vf.core import of_bv, bv_of
B = 'wafo.bitwise'
META = {'assumptions': ['numpy integers are 64-bit two\'s complement numbers; bit numbers are 0..62 (the sign bit is not addressed)']}
W = 64


def num(v, nm):
    b = z3.BitVec(nm + '_bits', W)
    x = of_bv(b)
    v.p.inputs[nm] = ('scalar', x.e)
    return x, b


def nums(v, nm, n):
    f = z3.Function(nm + '_bits', z3.IntSort(), z3.BitVecSort(W))
    fn = lambda ix: of_bv(f(lift(ix[0]).e))
    a = SArr.new(fn, 'i', (snp.sx(n),))
    v.p.inputs[nm] = ('array', fn, (snp.sx(n),))
    return a, lambda i: f(lift(i).e)


def lt(b, n):
    return S(z3.ULT(b, n))


def pat(x):
    r = bv_of(x)
    if r is None:
        raise Unsupported('result is not a bit pattern')
    return r


def digit(b, k):
    """digit number k of the pattern b as a pattern 0 or 1"""
    return z3.LShR(b, k) & 1


@contract('C10', 'getbit of scalars', [B + ':getbit'], conc='get')
def g1(v):
    i, bi = num(v, 'i')
    k, bk = num(v, 'bit')
    v.assume(lt(bk, 63))
    r = v.call(B, 'getbit', i, k)
    v.ensure('digit', S(pat(r) == digit(bi, bk)))


@contract('C10', 'getbit of arrays', [B + ':getbit'], conc='get')
def g2(v):
    n = v.int('n', 1)
    a, fa = nums(v, 'i', n)
    k, fk = nums(v, 'bit', n)
    q = v.index(n)
    v.assume(lt(fk(q), 63))
    r = v.call(B, 'getbit', a, k)
    v.ensure('shape', r.shape[0] == n)
    v.ensure('digit', S(pat(r.get(q)) == digit(fa(q), fk(q))))
    i, bi = num(v, 'j')
    r = v.call(B, 'getbit', i, k)
    v.ensure('one number, many bits', land(r.shape[0] == n, S(pat(r.get(q)) == digit(bi, fk(q)))))


@contract('C10', 'getbits', [B + ':getbits', B + ':getbit'], conc='bits')
def g3(v):
    i, bi = num(v, 'i')
    n = v.int('n', 1, 63)
    r = v.call(B, 'getbits', i, n)
    v.ensure('number of bits', r.shape[0] == n)
    k = v.index(n)
    kb = z3.Int2BV(k.e, W)
    v.lemma(lt(kb, 63))
    v.ensure('digits, least significant first', S(pat(r.get(k)) == digit(bi, kb)))
    r = v.call(B, 'getbits', i)
    v.ensure('eight bits by default', r.shape[0] == 8)
    for k in range(8):
        v.ensure('digit %d' % k, S(pat(r.get(k)) == digit(bi, z3.BitVecVal(k, W))))


def setspec(b, k, val):
    one = z3.BitVecVal(1, W)
    return z3.If(val == 0, b & ~(one << k), b | (one << k))


@contract('C10', 'setbit of scalars', [B + ':setbit'], conc='set')
def s1(v):
    i, bi = num(v, 'i')
    k, bk = num(v, 'bit')
    v.assume(lt(bk, 63))
    for val in (0, 1, None):
        r = v.call(B, 'setbit', i, k, *(() if val is None else (val,)))
        r = r.item() if isinstance(r, SArr) else r
        m, bm = z3.BitVec('m', W), 0
        v.assume(lt(m, 64))
        want = z3.BitVecVal(1 if val is None else val, W)
        v.ensure('this digit (%s)' % val, S(digit(pat(r), bk) == want))
        v.ensure('other digits (%s)' % val, S(z3.Or(m == bk, digit(pat(r), m) == digit(bi, m))))


@contract('C10', 'setbit of arrays', [B + ':setbit'], conc='set')
def s2(v):
    n = v.int('n', 1)
    a, fa = nums(v, 'i', n)
    k, fk = nums(v, 'bit', n)
    val = v.array('value', n, k='i')
    q = v.index(n)
    v.assume(land(lt(fk(q), 63), val.get(q) >= 0, val.get(q) <= 1))
    r = v.call(B, 'setbit', a, k, val)
    v.ensure('shape', r.shape[0] == n)
    v.ensure('exactly this digit', S(pat(r.get(q)) == setspec(fa(q), fk(q), val.get(q).e)))
    v.ensure('input unchanged', S(pat(a.get(q)) == fa(q)))
    i, bi = num(v, 'j')
    r = v.call(B, 'setbit', i, k, 0)
    v.ensure('many bits of one number', land(r.shape[0] == n, S(pat(r.get(q)) == setspec(bi, fk(q), z3.IntVal(0)))))
    kk, bk = num(v, 'b')
    v.assume(lt(bk, 63))
    r = v.call(B, 'setbit', a, kk)
    v.ensure('one bit of many numbers', land(r.shape[0] == n, S(pat(r.get(q)) == setspec(fa(q), bk, z3.IntVal(1)))))


@contract('C10', 'setbits', [B + ':setbits'], conc='bits')
def s3(v):
    for n in list(range(0, 18)) + [31, 32, 33, 62, 63]:
        bits = []
        for k in range(n):
            x, b = num(v, 'b%d' % k)
            v.assume(lt(b, 2))
            bits.append((x, b))
        r = v.call(B, 'setbits', [x for x, b in bits])
        ref = z3.BitVecVal(0, W)
        for k, (x, b) in enumerate(bits):
            ref = ref | (b << k)
        v.ensure('number of %d bits' % n, S(pat(r) == ref))


@contract('C10', 'bits and back', [B + ':setbits', B + ':getbits', B + ':getbit'], conc='bits')
def s4(v):
    i, bi = num(v, 'i')
    for n in (1, 2, 8, 16, 33, 63):
        r = v.call(B, 'getbits', i, n)
        z = v.call(B, 'setbits', [r.get(k) for k in range(n)])
        v.ensure('low %d bits' % n, S(pat(z) == (bi & z3.BitVecVal(2**n - 1, W))))


@contract('C10', 'bitwise names', [B + ':bitwise_and'], conc='get')
def s5(v):
    a, ba = num(v, 'i')
    b, bb = num(v, 'bit')
    for nm, f in (('bitwise_and', ba & bb), ('bitwise_or', ba | bb), ('bitwise_xor', ba ^ bb)):
        v.ensure(nm, S(pat(v.call(B, nm, a, b)) == f))
    v.ensure('bitwise_not', S(pat(v.call(B, 'bitwise_not', a)) == ~ba))
