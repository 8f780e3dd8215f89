"""C24: interpolation and periodic helpers"""
from specs.common import *
INCLUDES = ['math/common.hpp', 'math/vector.hpp', 'math/angles.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
z, o = R.of(0), R.of(1)
out = []
def floor(x): return R(real.RFloor(R.of(x).t))
def veq_(a, b): return [x.eq(y) for x, y in zip(a, b)]
def C(name, ins, body, outs, ens, req=None, **k): out.append(Contract(name, ins, body, outs, ens, requires=req, sem=k.pop('sem', 'real'), tol=k.pop('tol', 1e-3), **k))
VT = (('float', 1), ('float2', 2), ('float3', 3), ('float4', 4), ('f32x4', 4))
def L(x): return x if isinstance(x, list) else [x]
def vars_(t): return None if 'x4' in t else ['sse2']
for t, n in VT:
    k = dict(variants=vars_(t))
    C('lerp_' + t, '%s a, %s b, float t, float u, float s' % (t, t), 'p = lerp(a, b, t); q = lerp(a, b, u); w = lerp(a, b, t + s * (u - t)); x = lerp(a, b, 0.0f); y = lerp(a, b, 1.0f);', ', '.join('%s %s' % (t, c) for c in 'pqwxy'),
      lambda I, O: [('starts at a', And(*veq_(L(O.x), L(I.a)))), ('ends at b', And(*veq_(L(O.y), L(I.b)))), ('affine in t', And(*veq_(L(O.w), [p + I.s * (q - p) for p, q in zip(L(O.p), L(O.q))])))] +
        [('component %d is a + t (b - a)' % i, p.eq(a + I.t * (b - a))) for i, (p, a, b) in enumerate(zip(L(O.p), L(I.a), L(I.b)))], **k)
    C('lerpDelta_' + t, '%s a, %s b, float f, float dt' % (t, t), 'p = lerpDelta(a, b, f, dt);', '%s p' % t,
      lambda I, O: [('component %d moves by the fraction 1 - f^dt' % i, p.eq(a + (1 - uf('pow', I.f, I.dt)) * (b - a))) for i, (p, a, b) in enumerate(zip(L(O.p), L(I.a), L(I.b)))], **k)
    C('repeat_' + t, '%s v' % t, 'r = repeat(v);', '%s r' % t,
      lambda I, O: [f for i, (v, r) in enumerate(zip(L(I.v), L(O.r))) for f in (('component %d in 0..1' % i, And(z <= r, r <= o)), ('component %d differs by an integer' % i, Or(r.eq(v - floor(v)), r.eq(v + floor(-v) + 1))), ('component %d: 0..1 stays' % i, Implies(And(z <= v, v < o), r.eq(v))), ('component %d below 1 for non-negative values' % i, Implies(z <= v, r < o)))], **k)
    C('angles_' + t, '%s v' % t, 'r = radians(v); d = degrees(v); x = degrees(radians(v)); y = radians(degrees(v));', ', '.join('%s %s' % (t, c) for c in 'rdxy'),
      lambda I, O: [f for i, (v, r, d, x, y) in enumerate(zip(*map(L, (I.v, O.r, O.d, O.x, O.y)))) for f in (('component %d: 180 degrees are pi' % i, And((r * 180 - v * f32(math.pi)) <= rabs(v) * f32(1e-4), (v * f32(math.pi) - r * 180) <= rabs(v) * f32(1e-4))),
        ('component %d: pi radians are 180 degrees' % i, And(d * f32(math.pi) - v * 180 <= rabs(v) * f32(1e-3), v * 180 - d * f32(math.pi) <= rabs(v) * f32(1e-3))),
        ('component %d: round trip' % i, And(*[And(w - v <= rabs(v) * f32(1e-5), v - w <= rabs(v) * f32(1e-5)) for w in (x, y)])))], **k)
    if t != 'f32x4':
        def kk(I): return [(x, y) for x, y in zip(L(I.x), L(I.k))]
        C('gain_' + t, '%s x, %s k' % (t, t), 'g = gain(x, k); h = gain(%s(1.0f) - x, k);' % t if n > 1 else 'g = gain(x, k); h = gain(1.0f - x, k);', '%s g, %s h' % (t, t),
          lambda I, O: [f for i, (x, k, g, h) in enumerate(zip(*map(L, (I.x, I.k, O.g, O.h)))) for f in (
            ('component %d lower half' % i, Implies(x < Fraction(1, 2), g.eq(uf('pow', 2 * x, k) * Fraction(1, 2)))), ('component %d upper half' % i, Implies(x > Fraction(1, 2), g.eq(1 - uf('pow', 2 * (1 - x), k) * Fraction(1, 2)))),
            ('component %d at one half' % i, Implies(And(x.eq(Fraction(1, 2)), uf('pow', o, k).eq(1)), g.eq(Fraction(1, 2)))), ('component %d at zero' % i, Implies(And(x.eq(0), uf('pow', z, k).eq(0)), g.eq(0))), ('component %d at one' % i, Implies(And(x.eq(1), uf('pow', z, k).eq(0)), g.eq(1))),
            ('component %d symmetric' % i, Implies(Not(x.eq(Fraction(1, 2))), h.eq(1 - g))))],
          lambda I: [And(z <= x, x <= o, z < k) for x, k in kk(I)], gen=lambda rng, n=n: (lambda f: dict(x=f([rng.choice([0.0, 0.5, 1.0, rng.random()]) for _ in range(n)]), k=f([rng.choice([0.5, 1.0, 2.0, 3.0]) for _ in range(n)])))(lambda l: l if n > 1 else l[0]), **k)
C('scalar_order', 'float a, float b, float c', 'x = math::min(a, b, c); y = math::max(a, b, c); r = sign(a);', 'float x, float y, float r',
  lambda I, O: [('min is a lower bound', And(*[O.x <= v for v in (I.a, I.b, I.c)])), ('min is one of them', Or(*[O.x.eq(v) for v in (I.a, I.b, I.c)])), ('max is an upper bound', And(*[O.y >= v for v in (I.a, I.b, I.c)])), ('max is one of them', Or(*[O.y.eq(v) for v in (I.a, I.b, I.c)]))])
C('sign_bit', 'float a', 'r = sign(a);', 'float r', lambda I, O: [('minus one exactly when the sign bit is set', Eq(fbits(O.r), Ite(fsignbit(I.a), bv(0xbf800000, 32), bv(0x3f800000, 32))))], sem='ieee', variants=['sse2'])
for t, S in (('int32', True),):
    C('int_order', 'int32 a, int32 b, int32 c', 'x = math::min(a, b, c); y = math::max(a, b, c);', 'int32 x, int32 y',
      lambda I, O: [('min is a lower bound', And(*[SLe(O.x, v) for v in (I.a, I.b, I.c)])), ('min is one of them', Or(*[Eq(O.x, v) for v in (I.a, I.b, I.c)])), ('max is an upper bound', And(*[SLe(v, O.y) for v in (I.a, I.b, I.c)])), ('max is one of them', Or(*[Eq(O.y, v) for v in (I.a, I.b, I.c)]))], sem='bits', variants=['sse2'])
for t, n in VT[1:4]:
    C('min3_' + t, '%s a, %s b, %s c' % (t, t, t), 'x = min(a, b, c); y = max(a, b, c);', '%s x, %s y' % (t, t),
      lambda I, O: [f for i, (a, b, c, x, y) in enumerate(zip(I.a, I.b, I.c, O.x, O.y)) for f in (('min component %d' % i, And(x <= a, x <= b, x <= c, Or(x.eq(a), x.eq(b), x.eq(c)))), ('max component %d' % i, And(y >= a, y >= b, y >= c, Or(y.eq(a), y.eq(b), y.eq(c)))))], variants=['sse2'])
CONTRACTS = out
