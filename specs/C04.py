"""C04: dot, cross, length, distance, normalisation, interpolation"""
from specs.common import *
INCLUDES = ['math/vector.hpp', 'math/common.hpp']
VARIANTS = ['sse2', 'sse41', 'avx2']
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem=k.pop('sem', 'real'), **k)
mn = lambda a, b: mkfite(FLt(b, a), b, a); mx = lambda a, b: mkfite(FLt(a, b), b, a)
def fold(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r
def plain(n):
    t = 'float%d' % n; out = []
    out.append(C(t + '_dot', '%s a, %s b' % (t, t), 'r = dot(a, b); l = lengthSq(a); d = distanceSq(a, b);', 'float r, float l, float d',
      lambda I, O: [('dot', O.r.eq(dot(I.a, I.b))), ('lengthSq', O.l.eq(dot(I.a, I.a))), ('distanceSq', O.d.eq(dot(vsub(I.a, I.b), vsub(I.a, I.b))))]))
    out.append(C(t + '_length', '%s a, %s b' % (t, t), 'l = length(a); d = distance(a, b);', 'float l, float d',
      lambda I, O: [('length', O.l.eq(sqrt(dot(I.a, I.a)))), ('distance', O.d.eq(sqrt(dot(vsub(I.a, I.b), vsub(I.a, I.b))))), ('length is not negative', O.l >= 0), ('distance is not negative', O.d >= 0)]))
    out.append(C(t + '_normalize', t + ' a', 'r = normalize(a);', t + ' r', lambda I, O: veq('direction', O.r, [x / sqrt(dot(I.a, I.a)) for x in I.a]) + [('unit length', dot(O.r, O.r).eq(1))], lambda I: [dot(I.a, I.a) > 0]))
    out.append(C(t + '_lerp', '%s a, %s b, float t' % (t, t), 'r = lerp(a, b, t);', t + ' r', lambda I, O: veq('lerp', O.r, [x + I.t * (y - x) for x, y in zip(I.a, I.b)])))
    out.append(C(t + '_close', '%s a, %s b, float m' % (t, t), 'c = isClose(a, b, m); k = isNormalized(a, m);', 'bool c, bool k',
      lambda I, O: [('isClose', iff(O.c, dot(vsub(I.a, I.b), vsub(I.a, I.b)) <= I.m)), ('isNormalized', iff(O.k, rabs(dot(I.a, I.a) - 1) <= I.m))]))
    if n == 3: out.append(C(t + '_cross', 'float3 a, float3 b', 'r = cross(a, b);', 'float3 r', lambda I, O: veq('cross', O.r, cross(I.a, I.b)) + [('orthogonal to a', dot(O.r, I.a).eq(0)), ('orthogonal to b', dot(O.r, I.b).eq(0))]))
    return out
def simd():
    out = []
    for n in (3, 4):
        c = lambda v, n=n: v[:n]
        out.append(C('f32x4_dot%d' % n, 'f32x4 a, f32x4 b', 'r = dot%d(a, b); v = dotV%d(a, b); l = lengthSq%d(a); d = distanceSq%d(a, b);' % (n, n, n, n), 'float r, f32x4 v, float l, float d',
          lambda I, O, c=c: [('dot', O.r.eq(dot(c(I.a), c(I.b)))), ('lengthSq', O.l.eq(dot(c(I.a), c(I.a)))), ('distanceSq', O.d.eq(dot(c(vsub(I.a, I.b)), c(vsub(I.a, I.b)))))] + veq('dot in every lane', O.v, [dot(c(I.a), c(I.b))] * 4)))
        out.append(C('f32x4_length%d' % n, 'f32x4 a, f32x4 b', 'l = length%d(a); d = distance%d(a, b);' % (n, n), 'float l, float d',
          lambda I, O, c=c: [('length', O.l.eq(sqrt(dot(c(I.a), c(I.a))))), ('distance', O.d.eq(sqrt(dot(c(vsub(I.a, I.b)), c(vsub(I.a, I.b)))))), ('length is not negative', O.l >= 0), ('distance is not negative', O.d >= 0)]))
        out.append(C('f32x4_normalize%d' % n, 'f32x4 a', 'r = normalize%d(a);' % n, 'f32x4 r', lambda I, O, c=c: veq('direction', c(O.r), [x / sqrt(dot(c(I.a), c(I.a))) for x in c(I.a)]) + [('unit length', dot(c(O.r), c(O.r)).eq(1))], lambda I, c=c: [dot(c(I.a), c(I.a)) > 0]))
        out.append(C('f32x4_normalized%d' % n, 'f32x4 a, float m', 'k = isNormalized%d(a, m);' % n, 'bool k', lambda I, O, c=c: [('isNormalized', iff(O.k, rabs(dot(c(I.a), c(I.a)) - 1) <= I.m))]))
        red = lambda v, f, c=c: fold(f, c(v))
        out.append(C('f32x4_reduce%d' % n, 'f32x4 a', 'm = min%d(a); x = max%d(a);' % (n, n), 'float m, float x',
          lambda I, O, c=c, red=red: [('min', FEq(O.m, red(I.a, mn))), ('max', FEq(O.x, red(I.a, mx))), ('min is a component', Or(*[fsame(O.m, x) for x in c(I.a)])), ('max is a component', Or(*[fsame(O.x, x) for x in c(I.a)]))],
          lambda I: [Not(FIsNan(x)) for x in I.a], sem='ieee', gen=lambda r: dict(a=[r.choice([0.0, -0.0, 1.0, float('inf'), r.uniform(-3, 3)]) for _ in range(4)])))
    out.append(C('f32x4_lerp', 'f32x4 a, f32x4 b, float t', 'r = lerp(a, b, t);', 'f32x4 r', lambda I, O: veq('lerp', O.r, [x + I.t * (y - x) for x, y in zip(I.a, I.b)])))
    out.append(C('f32x4_cross', 'f32x4 a, f32x4 b', 'r = cross3(a, b);', 'f32x4 r', lambda I, O: veq('cross', O.r[:3], cross(I.a, I.b)) + [('orthogonal to a', dot(O.r[:3], I.a[:3]).eq(0)), ('orthogonal to b', dot(O.r[:3], I.b[:3]).eq(0))]))
    return out
CONTRACTS = plain(2) + plain(3) + plain(4) + simd()
