"""C27: cubemap directions, low-discrepancy sequences, BRDF samples"""
from specs.common import *
INCLUDES = ['math/vector.hpp', 'math/ibl.hpp', 'math/brdf.hpp']
VARIANTS = ['sse2']
THOROUGH_VARIANTS = ['sse2', 'avx2']
ASSUMPTIONS = ['sin and cos are uninterpreted functions with sin^2 + cos^2 = 1', 'the float pi is read as its value']
out = []
def C(name, ins, body, outs, ens, req=None, **k): out.append(Contract(name, ins, 'using namespace math::ibl; using namespace math::brdf; ' + body, outs, ens, requires=req, sem=k.pop('sem', 'real'), **k))
o = R.of(1)
# the directions of the cubemap faces +X -X +Y -Y +Z -Z at clip space (s, t)
FACE = [lambda s, t: [o, t, s], lambda s, t: [-o, t, -s], lambda s, t: [-s, o, -t], lambda s, t: [-s, -o, t], lambda s, t: [-s, t, o], lambda s, t: [s, t, -o]]
AX = [(0, 1), (0, -1), (1, 1), (1, -1), (2, 1), (2, -1)]
inside = lambda I: [I.st[i] <= 1 for i in (0, 1)] + [R.of(-1) <= I.st[i] for i in (0, 1)]
gst = lambda r: dict(st=[r.uniform(-1, 1), r.uniform(-1, 1)])
for f in range(6):
    def ens(I, O, f=f):
        d = FACE[f](*I.st); a, sg = AX[f]; r = O.r; p = sg * r[a]
        c = cross(d, r)
        return [('unit length', unit(r)), ('inside the cone of the face', And(p > 0, *[And(r[i] <= p, -r[i] <= p) for i in range(3) if i != a]))] + [('direction of the texel %d' % i, c[i].eq(0)) for i in range(3)] + [('orientation', dot(d, r) > 0)]
    C('face%d' % f, 'float2 st', 'r = stToDir(st, %d);' % f, 'float3 r', ens, inside, gen=gst, tol=1e-5)
    # the centre of the face is its axis, the opposite face has the opposite axis
    C('axis%d' % f, 'float3 q', 'r = stToDir(float2(0.0f), %d); s = stToDir(float2(0.0f), %d);' % (f, f ^ 1), 'float3 r, float3 s', lambda I, O, f=f: veq('axis', O.r, [R.of(AX[f][1] if i == AX[f][0] else 0) for i in range(3)]) + veq('opposite', O.s, [-x for x in O.r]))
def fr(x): return R(real.ROfInt(x, False))
C('texel', 'uint2 c, float d', 'r = coordsToST(c, d);', 'float2 r', lambda I, O: [('clip space of the texel centre %d' % i, O.r[i].eq(1 - 2 * ((fr(I.c[i]) + Fraction(1, 2)) * I.d))) for i in range(2)], tol=1e-5,
  gen=lambda r: (lambda n: dict(c=[r.randrange(n), r.randrange(n)], d=1.0 / n))(r.choice([1, 2, 4, 64, 128, 100])))
for f in range(6):
    C('texel_direction%d' % f, 'uint2 c, float d', 'r = coordsToDir(uint3(c.x, c.y, %d), d); s = stToDir(coordsToST(c, d), %d);' % (f, f), 'float3 r, float3 s', lambda I, O: zipn('same float', O.r, O.s, fsame), sem='ieee', gen=lambda r: dict(c=[r.randrange(64), r.randrange(64)], d=1.0 / 64))
def rev(x):
    bits = [Extract(i, i, x) for i in range(32)]
    return Concat(*bits)
C('hammersley', 'uint32 i, float n', 'r = hammersley(i, n);', 'float2 r', lambda I, O: [('first coordinate: i times the inverse count', fsame(O.r[0], mk('fmul', (mk('uitofp', (I.i,), 'f32'), I.n), 'f32'))), ('second coordinate: reversed bits over 2^32', fsame(O.r[1], mk('fmul', (mk('uitofp', (rev(I.i),), 'f32'), fc(2.0 ** -32, 'f32')), 'f32')))], sem='ieee')
def unit01(*xs): return [And(R.of(0) <= x, x <= 1) for x in xs]
def req(I): return unit01(I.u[0], I.u[1], I.a) + [Or(I.a > 0, I.u[1] < 1)]
def ct2(I): return (1 - I.u[1]) / (1 + (I.a + 1) * (I.a - 1) * I.u[1])
def samples(I, O):
    c = ct2(I); phi = 2 * f32(math.pi) * I.u[0]; s = sqrt(1 - c)
    return [('unit length', dot(O.r[:3], O.r[:3]).eq(1)), ('upper hemisphere', O.r[2] >= 0), ('distribution: squared cosine', (O.r[2] * O.r[2]).eq(c)), ('x', O.r[0].eq(s * uf('cos', phi))), ('y', O.r[1].eq(s * uf('sin', phi)))]
C('samples', 'float2 u, float a', 'r = importanceSamplingNdfDggx(u, a);', 'f32x4 r', samples, req, gen=lambda r: dict(u=[r.random(), r.choice([0, 1, r.random()])], a=r.choice([1, 0.5, r.uniform(0.05, 1)])), tol=1e-3)
def ggx(I, O):
    f = I.h * I.h * (I.a * I.a - 1) + 1
    return [('value', O.r.eq(I.a * I.a / (f32(math.pi) * f * f)))]
C('ggx', 'float h, float a', 'r = ggx(h, a);', 'float r', ggx, lambda I: unit01(I.h, I.a) + [Or(I.a > 0, I.h < 1)], gen=lambda r: dict(h=r.random(), a=r.uniform(0.05, 1)), tol=1e-3)
C('ior', 'float n', 'r = iorToReflectance(n);', 'float r', lambda I, O: [('value', (O.r * O.r * (I.n + 1) * (I.n + 1)).eq((I.n - 1) * (I.n - 1) * f32(1 / 0.16))), ('non-negative', O.r >= 0)], lambda I: [I.n >= 1], gen=lambda r: dict(n=r.uniform(1, 3)), tol=1e-3)
CONTRACTS = out
