from specs.common import *
INCLUDES = ['math/version.hpp']
VARIANTS = ['sse2', 'avx2']; THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
def enc(m): return Concat(m[0], m[1], m[2], m[3])
V4 = 'uint8 a0, uint8 a1, uint8 a2, uint8 a3'
A = lambda I: [I.a0, I.a1, I.a2, I.a3]
B = lambda I: [I.b0, I.b1, I.b2, I.b3]
def lexlt(a, b):
    r = FALSE
    for x, y in reversed(list(zip(a, b))): r = Or(ULt(x, y), And(Eq(x, y), r))
    return r
def eqv(a, b): return And(*[Eq(x, y) for x, y in zip(a, b)])
W8 = V4 + ', uint8 b0, uint8 b1, uint8 b2, uint8 b3'
mk2 = 'Version a(a0, a1, a2, a3), b(b0, b1, b2, b3); '
CMP = {'<': lexlt, '>': lambda a, b: lexlt(b, a), '<=': lambda a, b: Not(lexlt(b, a)), '>=': lambda a, b: Not(lexlt(a, b)), '==': eqv, '!=': lambda a, b: Not(eqv(a, b))}
NM = {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}
CONTRACTS = [
 Contract('encode', V4, 'Version v(a0, a1, a2, a3); e = (uint32_t)v; m = v.major; n = v.minor; p = v.patch; b = v.build;', 'uint32 e, uint8 m, uint8 n, uint8 p, uint8 b',
   lambda I, O: [('encoding', Eq(O.e, enc(A(I)))), ('parts kept', And(Eq(O.m, I.a0), Eq(O.n, I.a1), Eq(O.p, I.a2), Eq(O.b, I.a3)))], sem='bits'),
 Contract('decode', 'uint32 x', 'Version v(x); m = v.major; n = v.minor; p = v.patch; b = v.build; e = (uint32_t)v;', 'uint8 m, uint8 n, uint8 p, uint8 b, uint32 e',
   lambda I, O: [('decode', Eq(enc([O.m, O.n, O.p, O.b]), I.x)), ('round trip', Eq(O.e, I.x))], sem='bits'),
 Contract('roundtrip', V4, 'Version v((uint32_t)Version(a0, a1, a2, a3)); m = v.major; n = v.minor; p = v.patch; b = v.build;', 'uint8 m, uint8 n, uint8 p, uint8 b',
   lambda I, O: [('decode of encode', And(Eq(O.m, I.a0), Eq(O.n, I.a1), Eq(O.p, I.a2), Eq(O.b, I.a3)))], sem='bits'),
 Contract('default', '', 'Version v; e = (uint32_t)v; Version w(7, 5); f = (uint32_t)w;', 'uint32 e, uint32 f', lambda I, O: [('zero', Eq(O.e, bv(0, 32))), ('partial', Eq(O.f, bv(0x07050000, 32)))], sem='bits'),
 Contract('index', V4 + ', uint64 i, uint8 x', 'Version v(a0, a1, a2, a3); const Version& cv = v; r = cv[i]; v[i] = x; e = (uint32_t)v;', 'uint8 r, uint32 e',
   lambda I, O: [('read part %d' % k, Implies(Eq(I.i, bv(k, 64)), Eq(O.r, A(I)[k]))) for k in range(4)] +
                [('write part %d' % k, Implies(Eq(I.i, bv(k, 64)), Eq(O.e, enc(A(I)[:k] + [I.x] + A(I)[k + 1:])))) for k in range(4)],
   requires=lambda I: [ULt(I.i, bv(4, 64))], sem='bits', gen=lambda r: dict(i=r.randrange(4))),
] + [Contract('cmp_' + NM[o], W8, mk2 + 'r = a %s b;' % o, 'bool r', (lambda f: lambda I, O: [('lexicographic order', iff(O.r, f(A(I), B(I))))])(f), sem='bits') for o, f in CMP.items()]
