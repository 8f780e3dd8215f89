"""C19: colors"""
from specs.common import *
INCLUDES = ['math/vector.hpp', 'math/color.hpp']
VARIANTS = ['sse2', 'avx2']; THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
A4 = 'uint8 a0, uint8 a1, uint8 a2, uint8 a3'; B4 = ', uint8 b0, uint8 b1, uint8 b2, uint8 b3'
A = lambda I: [I.a0, I.a1, I.a2, I.a3]
B = lambda I: [I.b0, I.b1, I.b2, I.b3]
NM = {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}
OP = {'<': ULt, '>': lambda a, b: ULt(b, a), '<=': ULe, '>=': lambda a, b: ULe(b, a), '==': Eq, '!=': lambda a, b: Not(Eq(a, b))}
def allof(o, a, b):
    l = [OP[o](x, y) for x, y in zip(a, b)]
    return Or(*l) if o == '!=' else And(*l)
CH = 'rgba'
def S(v, k=4): return ' '.join('o%d = %s.%s;' % (i, v, CH[i]) for i in range(k))
O4 = 'uint8 o0, uint8 o1, uint8 o2, uint8 o3'
OO = lambda O: [O.o0, O.o1, O.o2, O.o3]
out = []
UB = ('out-of-bounds', 'null-deref', 'division-by-zero', 'shift-out-of-range', 'abort', 'unreachable', 'write-to-const', 'float-to-int-range')
def C(*a, **k): out.append(Contract(*a, ub=UB, **k))
# ---- storage
C('construct', A4, 'Color c(a0, a1, a2, a3); Color k(a0); p = (uint32_t)c; q = (uint32_t)k; Color d; z = (uint32_t)d; ' + S('c'), O4 + ', uint32 p, uint32 q, uint32 z',
  lambda I, O: [('channel %s' % CH[i], Eq(x, y)) for i, (x, y) in enumerate(zip(OO(O), A(I)))] + [('packed', Eq(O.p, Concat(I.a3, I.a2, I.a1, I.a0))), ('one value for all channels', Eq(O.q, Concat(I.a0, I.a0, I.a0, I.a0))), ('default', Eq(O.z, bv(0, 32)))], sem='bits')
C('packed', 'uint32 x', 'Color c(x); y = (uint32_t)c; ' + S('c'), O4 + ', uint32 y', lambda I, O: [('packing is lossless', Eq(O.y, I.x))] + [('channel %s' % CH[i], Eq(v, Extract(8 * i + 7, 8 * i, I.x))) for i, v in enumerate(OO(O))], sem='bits')
for o in OP:
    C('cmp_' + NM[o], A4 + B4, 'Color a(a0, a1, a2, a3), b(b0, b1, b2, b3); r = a %s b; s = a %s b0; t = b0 %s a;' % (o, o, o), 'bool r, bool s, bool t',
      lambda I, O, o=o: [('color against color', iff(O.r, allof(o, A(I), B(I)))), ('color against value', iff(O.s, allof(o, A(I), [I.b0] * 4))), ('value against color', iff(O.t, allof(o, [I.b0] * 4, A(I))))], sem='bits')
# ---- 8 bit -> float -> 8 bit, bit-exact over the machine's floats
RT = [('float4', 'Color((float4)c)', 4), ('float3', 'Color((float3)c)', 3), ('float2', 'Color((float2)c)', 2), ('f32x4', 'Color((f32x4)c)', 4)]
for nm, e, k in RT:
    C('roundtrip_' + nm, A4, 'Color c(a0, a1, a2, a3); Color d = %s; ' % e + S('d'), O4, lambda I, O, k=k: [('channel %s returns' % CH[i], Eq(OO(O)[i], A(I)[i] if i < k else bv(0, 8))) for i in range(4)], sem='ieee', timeout=100)
for i, ch in enumerate('RGBA'):
    C('roundtrip_norm' + ch, A4 + ', uint8 v', 'Color c(a0, a1, a2, a3), k(v, v, v, v); c.setNorm%s(k.getNorm%s()); ' % (ch, ch) + S('c'), O4, lambda I, O, i=i: [('channel %s' % CH[j], Eq(OO(O)[j], I.v if i == j else A(I)[j])) for j in range(4)], sem='ieee', timeout=100)
# ---- any float: nearest after clamping, monotonic (exact arithmetic)
z, one = R.of(0), R.of(1)
U = lambda t: R(real.ROfInt(t, False))
clamp01 = lambda x: rite(x < z, z, rite(one < x, one, x))
def near(i): return lambda I, O, n=i: None
gen = lambda r: dict(x=[r.choice([r.uniform(-1, 2), r.randint(0, 255) / 255.0, r.uniform(0, 1), -1e9, 1e9]) for _ in range(4)], y=[r.uniform(-0.5, 1.5) for _ in range(4)])
h = R(rc(__import__('fractions').Fraction(1, 2)))
def nearest(k, xs):
    def f(I, O):
        r = []
        for i in range(4):
            if i < k:
                d = U(OO(O)[i]) - 255 * clamp01(xs(I)[i])
                r += [('channel %s is the nearest value' % CH[i], And(d <= h, d >= -h))]
            else: r += [('channel %s is zero' % CH[i], Eq(OO(O)[i], bv(0, 8)))]
        return r
    return f
NEW = [('float4', 'Color(float4(x.getX(), x.getY(), x.getZ(), x.getW()))', 4), ('float3', 'Color(float3(x.getX(), x.getY(), x.getZ()))', 3), ('float2', 'Color(float2(x.getX(), x.getY()))', 2), ('f32x4', 'Color(x)', 4)]
def P(I, O): return [O.o0, O.o1, O.o2, O.o3], [O.p0, O.p1, O.p2, O.p3]
for nm, e, k in NEW:
    C('from_' + nm, 'f32x4 x', 'Color d = %s; ' % e + S('d'), O4, nearest(k, lambda I: I.x), sem='real', gen=lambda r: dict(x=gen(r)['x']), tol=1e-5)
    C('monotonic_' + nm, 'f32x4 x, f32x4 y', 'Color d = %s; ' % e + S('d') + ' Color f = %s; ' % e.replace('x.', 'y.').replace('(x)', '(y)') + S('f').replace('o', 'p'), O4 + ', ' + O4.replace('o', 'p'),
      lambda I, O, k=k: [('larger floats give no smaller channel %s' % CH[i], Implies(I.x[i] <= I.y[i], U(P(I, O)[0][i]) <= U(P(I, O)[1][i]))) for i in range(k)], sem='real', gen=gen, tol=1e-5)
for i, ch in enumerate('RGBA'):
    C('set_norm' + ch, 'float x, uint32 p', 'Color c(p); c.setNorm%s(x); n = (uint32_t)c; o = c.%s;' % (ch, CH[i]), 'uint32 n, uint8 o',
      lambda I, O, i=i: (lambda d: [('nearest value', And(d <= h, d >= -h))])(U(O.o) - 255 * clamp01(I.x)) + [('other channels kept', And(*[Eq(Extract(8 * j + 7, 8 * j, O.n), Extract(8 * j + 7, 8 * j, I.p)) for j in range(4) if j != i]))], sem='real', gen=lambda r: dict(x=gen(r)['x'][0]), tol=1e-5)
C('to_float', A4, 'Color c(a0, a1, a2, a3); f = (float4)c; g = (float3)c; e = (float2)c; s = (f32x4)c; n = f32x4(c.getNormR(), c.getNormG(), c.getNormB(), c.getNormA());', 'float4 f, float3 g, float2 e, f32x4 s, f32x4 n',
  lambda I, O: [('%s.%s is the channel over 255' % (nm, CH[i]), (lambda d: And(d <= R(rc(__import__('fractions').Fraction(1, 50000))), -d <= R(rc(__import__('fractions').Fraction(1, 50000)))))(v[i] * 255 - U(A(I)[i]))) for nm, v in (('float4', O.f), ('float3', O.g), ('float2', O.e), ('f32x4', O.s), ('accessor', O.n)) for i in range(len(v))], sem='real', tol=1e-4)
C('binary_less', 'uint32 x, uint32 y', 'r = isBinaryLess(Color(x), Color(y)); s = isBinaryLess(Color(y), Color(x));', 'bool r, bool s', lambda I, O: [('a strict order', And(Not(And(O.r, O.s)), iff(Or(O.r, O.s), Not(Eq(I.x, I.y)))))], sem='bits')
CONTRACTS = out
ASSUMPTIONS = ['a Color is read and written through a 32-bit pointer although it only has byte alignment; the target machine allows that','float inputs are not NaN', 'rounding to nearest and monotonicity are stated in exact arithmetic; the 256-value round trips are bit-exact']
