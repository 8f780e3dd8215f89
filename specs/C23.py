"""C23: mip chains"""
from specs.common import *
INCLUDES = ['math/vector.hpp']
VARIANTS = ['sse2', 'sse41', 'avx2']
def umax(xs):
    r = xs[0]
    for x in xs[1:]: r = Ite(ULt(r, x), x, r)
    return r
def count(m, c):
    """c = 1 + floor(log2 m): m >> (c - 1) is 1"""
    return [('level count of sizes from 2^%d' % k, Implies(Eq(LShr(m, bv(k, 32)), bv(1, 32)), Eq(c, bv(k + 1, 8)))) for k in range(32)]
def half(x, m):
    """x divided by 2^m rounded down, at least one"""
    r = bv(1, 32)
    for k in reversed(range(32)): r = Ite(Eq(m, bv(k, 8)), (lambda q: Ite(Eq(q, bv(0, 32)), bv(1, 32), q))(LShr(x, bv(k, 32))), r)
    return r
def size(s, m, o): return [('component %d is the size divided by 2^mip, at least one' % i, Eq(o[i], half(s[i], m))) for i in range(len(s))]
out = []
def C(*a, **k): out.append(Contract(*a, sem='bits', **k))
gm = lambda r: dict(m=r.choice([0, 1, 5, 31, 32, 33, 255, r.randrange(256)]))
for nm, ty, k, cf, sf in (('scalar', 'uint32', 1, 'calcMipCount', 'calcSizeAtMip'), ('uint2', 'uint2', 2, 'calcMipCount', 'calcSizeAtMip'), ('uint3', 'uint3', 3, 'calcMipCount', 'calcSizeAtMip'), ('u32x4', 'u32x4', 3, 'calcMipCount3', 'calcSizeAtMip3')):
    V = (lambda x: [x]) if k == 1 else (lambda x, k=k: x[:k])
    nz = lambda I, V=V: [Not(Eq(umax(V(I.s)), bv(0, 32)))]
    C('count_' + nm, '%s s' % ty, 'c = %s(s);' % cf, 'uint8 c', lambda I, O, V=V: count(umax(V(I.s)), O.c), requires=nz)
    C('size_' + nm, '%s s, uint8 m' % ty, 'o = %s(s, m);' % sf, '%s o' % ty, lambda I, O, V=V: size(V(I.s), I.m, V(O.o)), gen=gm)
    C('last_level_' + nm, '%s s' % ty, 'uint8_t c = %s(s); o = %s(s, c - 1); p = c > 1 ? %s(s, c - 2) : %s; q = c;' % (cf, sf, sf, 'o'), '%s o, %s p, uint8 q' % (ty, ty),
      lambda I, O, V=V: [('the last level has size one', And(*[Eq(x, bv(1, 32)) for x in V(O.o)])), ('the level before it has not', Or(Eq(O.q, bv(1, 8)), *[Not(Eq(x, bv(1, 32))) for x in V(O.p)]))], requires=nz)
CONTRACTS = out
