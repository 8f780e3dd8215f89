"""C21: packed vectors, for every element count, index and value"""
from specs.common import *
from vcg import stdvec
from vcg.arrays import ArrV
INCLUDES = ['math/packed-vector.hpp']
VARIANTS = ['sse2', 'debug']
ASSUMPTIONS = ['std::vector<uint8> is replaced by its contract (buffer of exactly n bytes, new bytes zero, copies own their storage, allocation succeeds); element counts are below 2^40']
PRELUDE = '''
#include <utility>
// replaces every stored byte by an arbitrary value (the verifier forgets the contents)
template<int B> __attribute__((noinline)) void vcg_havoc(math::PackedVector<B>& v, uint64_t seed) { for (uint64_t k = 0; k < v.size(); k++) v[k] = (uint8_t)((seed += 0x9e3779b97f4a7c15ull) >> 29); }
'''
LIM = 1 << 40
def setup(ex, st):
    stdvec.install(ex, st, {'unsigned char': []})
    def havoc(ex, st, v, where):
        b, n = ex.getvec(ex, st, v[0])
        if b is not None: st.ghost[b.key(0)] = b.fresh_base(ex, 0)
    ex.icp.append((lambda nm: nm.startswith('_Z9vcg_havoc'), havoc))
out = []
def C(name, ins, body, outs, ens, req, g): out.append(Contract(name, ins, body, outs, ens, requires=req, sem='bits', setup=setup, gen=g, native_ok=lambda I: [ULt(I.n, bv(5000, 64))] + ([ULt(I.m, bv(5000, 64))] if 'm' in [x.split()[-1] for x in ins.split(',')] else [])))
def gen(extra=()):
    def g(rng):
        n = rng.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, rng.randrange(1, 70)]); m = rng.choice([1, 2, 8, 9, n, n + 1, rng.randrange(1, 70)])
        k = min(n, m) if 'min' in extra else n
        d = dict(n=n, i=rng.randrange(k), j=rng.randrange(k), v=rng.choice([0, 1, 2, 3, 15, 255, rng.randrange(256)]))
        if 'm' in extra: d['m'] = m
        return d
    return g
n1 = lambda I: [ULt(I.i, I.n), ULt(I.j, I.n), ULt(I.n, bv(LIM, 64))]
for B in (1, 2, 4):
    P = 'PackedVector<%d>' % B; M = bv((1 << B) - 1, 8); low = lambda v, M=M: BvAnd(v, M)
    for S in ('', 'unsafe'):
        get, set_ = ('unsafeGet', 'unsafeSet') if S else ('get', 'set')
        C('set%d%s' % (B, S), 'uint64 n, uint64 i, uint64 j, uint8 v, uint64 seed', '%s a(n); vcg_havoc(a, seed); x = a.%s(j); a.%s(i, v); r = a.%s(i); y = a.%s(j);' % (P, get, set_, get, get), 'uint8 x, uint8 r, uint8 y',
          lambda I, O, M=M, low=low: [('the element set reads back modulo its range', Eq(O.r, low(I.v))), ('every other element is unchanged', Implies(Not(Eq(I.i, I.j)), Eq(O.x, O.y))), ('elements stay in range', ULe(O.x, M))], n1, gen())
    C('create%d' % B, 'uint64 n, uint64 i', '%s a(n); x = a.get(i); %s e; e.resize(n); y = e.get(i); s = a.size(); %s z; t = z.size();' % (P, P, P), 'uint8 x, uint8 y, uint64 s, uint64 t',
      lambda I, O, B=B: [('new elements are zero', And(Eq(O.x, bv(0, 8)), Eq(O.y, bv(0, 8)))), ('storage holds all elements', ULe(Mul(I.n, bv(B, 64)), Mul(O.s, bv(8, 64)))), ('and no byte more', ULt(Mul(O.s, bv(8, 64)), Add(Mul(I.n, bv(B, 64)), bv(8, 64)))), ('default is empty', Eq(O.t, bv(0, 64)))],
      lambda I: [ULt(I.i, I.n), ULt(I.n, bv(LIM, 64))], lambda rng: (lambda n: dict(n=n, i=rng.randrange(n)))(rng.randrange(1, 70)))
    C('copy%d' % B, 'uint64 n, uint64 i, uint64 j, uint8 v, uint64 seed', '%s a(n); vcg_havoc(a, seed); x = a.get(j); %s b(a); y = b.get(j); b.set(i, v); r = a.get(j); w = b.get(i); a.set(i, (uint8_t)~v); q = b.get(i); s = b.size() - a.size();' % (P, P), 'uint8 x, uint8 y, uint8 r, uint8 w, uint8 q, uint64 s',
      lambda I, O, low=low: [('copy holds the elements', Eq(O.y, O.x)), ('changing the copy leaves the original', Eq(O.r, O.x)), ('copy holds the set element', Eq(O.w, low(I.v))), ('changing the original leaves the copy', Eq(O.q, low(I.v))), ('same size', Eq(O.s, bv(0, 64)))], n1, gen())
    C('assign%d' % B, 'uint64 n, uint64 m, uint64 i, uint64 j, uint8 v, uint64 seed', '%s a(n), b(m); vcg_havoc(a, seed); vcg_havoc(b, ~seed); x = a.get(j); b = a; y = b.get(j); b.set(i, v); r = a.get(j); a.set(i, (uint8_t)~v); q = b.get(i); s = b.size() - a.size();' % P, 'uint8 x, uint8 y, uint8 r, uint8 q, uint64 s',
      lambda I, O, low=low: [('copy holds the elements', Eq(O.y, O.x)), ('changing the copy leaves the original', Eq(O.r, O.x)), ('changing the original leaves the copy', Eq(O.q, low(I.v))), ('same size', Eq(O.s, bv(0, 64)))],
      lambda I: n1(I) + [ULt(I.m, bv(LIM, 64))], gen(('m',)))
    C('move%d' % B, 'uint64 n, uint64 m, uint64 i, uint64 j, uint8 v, uint64 seed', '%s a(n); vcg_havoc(a, seed); x = a.get(j); %s b(std::move(a)); y = b.get(j); a = %s(n); vcg_havoc(a, ~seed); a.set(i, v); r = b.get(j); %s c(m); c = std::move(b); q = c.get(j); c.set(i, (uint8_t)~v); w = a.get(i);' % (P, P, P, P), 'uint8 x, uint8 y, uint8 r, uint8 q, uint8 w',
      lambda I, O, low=low: [('moved elements', And(Eq(O.y, O.x), Eq(O.q, O.x))), ('reusing the source leaves the target', Eq(O.r, O.x)), ('changing the target leaves the source', Eq(O.w, low(I.v)))],
      lambda I: n1(I) + [ULt(I.m, bv(LIM, 64))], gen(('m',)))
    C('resize%d' % B, 'uint64 n, uint64 m, uint64 i, uint64 j, uint8 v, uint64 seed', '%s a(n); vcg_havoc(a, seed); x = a.get(j); a.resize(m); y = a.get(j); a.set(i, v); r = a.get(i); s = a.size();' % P, 'uint8 x, uint8 y, uint8 r, uint64 s',
      lambda I, O, low=low, B=B: [('elements that stay are kept', Eq(O.y, O.x)), ('set after resize', Eq(O.r, low(I.v))), ('storage holds all elements', ULe(Mul(I.m, bv(B, 64)), Mul(O.s, bv(8, 64))))],
      lambda I: [ULt(I.i, I.m), ULt(I.j, I.n), ULt(I.j, I.m), ULt(I.n, bv(LIM, 64)), ULt(I.m, bv(LIM, 64))], gen(('m', 'min')))
CONTRACTS = out
