"""C26: spherical harmonics (basis values, rotation of the bands, windowing)"""
from specs.common import *
INCLUDES = ['math/sh.hpp', 'math/matrix.hpp']
VARIANTS = ['sse2']
THOROUGH_VARIANTS = ['sse2', 'avx2']
ASSUMPTIONS = ['the float literals closest to sqrt(1/2), sqrt(3) and 1/(2 sqrt(3)) are read as these numbers', 'sin and atan2 are uninterpreted functions', 'every rotation matrix is the matrix of a unit quaternion']
PRELUDE = '''
static math::float3x3 ROT(const math::float4& q) { float x = q.x, y = q.y, z = q.z, w = q.w; using math::float3;
  return math::float3x3(float3(w*w + x*x - y*y - z*z, 2*(x*y + w*z), 2*(x*z - w*y)), float3(2*(x*y - w*z), w*w - x*x + y*y - z*z, 2*(y*z + w*x)), float3(2*(x*z + w*y), 2*(y*z - w*x), w*w - x*x - y*y + z*z)); }
'''
H = Fraction(1, 2)
s3, sh = real.sqrt(3), real.sqrt(H)
IDEAL = [(math.sqrt(0.5), sh), (math.sqrt(3), s3), (1 / (2 * math.sqrt(3)), s3 * Fraction(1, 6))]
out = []
def C(name, ins, body, outs, ens, req=None, **k): out.append(Contract(name, ins, 'using namespace math::sh; ' + body, outs, ens, requires=req, sem='real', ideal=IDEAL, tol=k.pop('tol', 1e-3), **k))
def basis(d):
    x, y, z = d
    return [R.of(1), -y, z, -x, 6 * x * y, -3 * y * z, (3 * z * z - 1) * H, -3 * x * z, 3 * (x * x - y * y)]
def band2(d):
    x, y, z = d
    return [x * y, -(y * z), (3 * z * z - 1) * s3 * Fraction(1, 6), -(z * x), (x * x - y * y) * H]
def band1(d): return [-d[1], d[2], -d[0]]
def ev(c, b): return sum((x * y for x, y in zip(c, b)), R.of(0))
def ruq(rng):
    v = rng.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0.5, 0.5, 0.5, 0.5], [rng.gauss(0, 1) for _ in range(4)]]); n = math.sqrt(sum(x * x for x in v)); return [x / n for x in v]
def rud(rng): v = [rng.gauss(0, 1) for _ in range(3)]; n = math.sqrt(sum(x * x for x in v)); return [x / n for x in v]
g = lambda rng: dict(q=ruq(rng), d=rud(rng))
# the precondition is a unit length: exactly unit inputs over the reals; replay inputs are unit up to rounding
C('basis', 'float3 d', 'computeShBasis(d, r);', 'float[9] r', lambda I, O: [('value %d' % i, O.r[i].eq(e)) for i, e in enumerate(basis(I.d))])
C('project', 'float3 d', 'projectVecToSH2K(d, r);', 'float[5] r', lambda I, O: [('value %d' % i, O.r[i].eq(e)) for i, e in enumerate(band2(I.d))])
C('multiply', 'float[25] m, float[5] v', 'multiply(m, v, r);', 'float[5] r', lambda I, O: [('row %d' % i, O.r[i].eq(sum((I.m[5 * k + i] * I.v[k] for k in range(5)), R.of(0)))) for i in range(5)])
def rd(I): return rotv(I.q, I.d)
def rotv(q, d):
    x, y, z, w = q; a, b, c = d
    return [(w * w + x * x - y * y - z * z) * a + 2 * (x * y - w * z) * b + 2 * (x * z + w * y) * c, 2 * (x * y + w * z) * a + (w * w - x * x + y * y - z * z) * b + 2 * (y * z - w * x) * c, 2 * (x * z - w * y) * a + 2 * (y * z + w * x) * b + (w * w - x * x - y * y + z * z) * c]
uq = lambda I: [unit(I.q)]
uqd = lambda I: [unit(I.q), unit(I.d)]
C('rotation', 'float4 q', 'float3x3 m = ROT(q); r = m;', 'float3x3 r', lambda I, O: [('the matrices of the contracts are the rotations (%d,%d)' % (i, j), dot(O.r[i], O.r[j]).eq(1 if i == j else 0)) for i in range(3) for j in range(i + 1)], uq)
C('band1', 'float4 q, float3 d, float3 c', 'r = rotateSphericalHarmonicBand1(c, ROT(q));', 'float3 r', lambda I, O: [('evaluating the rotated coefficients at the rotated direction', ev(O.r, band1(rd(I))).eq(ev(I.c, band1(I.d))))], uq, gen=g)
C('band2', 'float4 q, float3 d, float[5] c', 'rotateSphericalHarmonicBand2(c, ROT(q), r);', 'float[5] r', lambda I, O: [('evaluating the rotated coefficients at the rotated direction', ev(O.r, band2(rd(I))).eq(ev(I.c, band2(I.d))))], uqd, gen=g, timeout=100)
C('all_bands', 'float4 q, float[9] c', 'float3x3 m = ROT(q); rotateSh3Bands(c, m, r); auto b1 = rotateSphericalHarmonicBand1(float3(c[1], c[2], c[3]), m); s[0] = c[0]; s[1] = b1.x; s[2] = b1.y; s[3] = b1.z; rotateSphericalHarmonicBand2(c + 4, m, s + 4);', 'float[9] r, float[9] s', lambda I, O: [('coefficient %d comes from its band' % i, O.r[i].eq(O.s[i])) for i in range(9)])
C('in_place', 'float4 q, float[9] c', 'float3x3 m = ROT(q); rotateSh3Bands(c, m, r); for (int i = 0; i < 9; i++) s[i] = c[i]; rotateSh3Bands(s, m, s);', 'float[9] r, float[9] s', lambda I, O: [('coefficient %d: rotation in place' % i, O.r[i].eq(O.s[i])) for i in range(9)])
LV = [0, 1, 1, 1, 2, 2, 2, 2, 2]
pi = f32(math.pi)
def win(l, w):
    if l == 0: return R.of(1)
    x = pi * l / w; y = uf('sin', x) / x
    return rite(w <= l, R.of(0), y * y * y * y)
C('windowing', 'float[9] c, float w', 'for (int i = 0; i < 9; i++) r[i] = c[i]; windowing(r, w);', 'float[9] r', lambda I, O: [('coefficient %d is scaled by the window of its band' % i, O.r[i].eq(I.c[i] * win(LV[i], I.w))) for i in range(9)], lambda I: [I.w > 0])
C('quadrant', 'float x, float y', 'r = sphereQuadrantArea(x, y); s = shIndex(-1, 1) == 1 && shIndex(0, 1) == 2 && shIndex(1, 1) == 3 && shIndex(0, 0) == 0 && shIndex(-2, 2) == 4 && shIndex(2, 2) == 8;', 'float r, bool s', lambda I, O: [('area', O.r.eq(uf('atan2', I.x * I.y, real.sqrt(I.x * I.x + I.y * I.y + 1)))), ('coefficient order', O.s)])
C('solid_angle', 'float2 st, float h', 'r = calcSolidAngle(st, h);', 'float r', lambda I, O: [('solid angle of the texel is the signed sum of its four corner areas', O.r.eq(sum((sg * uf('atan2', (I.st[0] + sx * I.h) * (I.st[1] + sy * I.h), real.sqrt((I.st[0] + sx * I.h) * (I.st[0] + sx * I.h) + (I.st[1] + sy * I.h) * (I.st[1] + sy * I.h) + 1)) for sx, sy, sg in ((-1, -1, 1), (-1, 1, -1), (1, -1, -1), (1, 1, 1))), R.of(0))))])
P = math.sqrt(math.pi)
CA = [1 / (2 * P), -math.sqrt(3) / (2 * P), math.sqrt(3) / (2 * P), -math.sqrt(3) / (2 * P), math.sqrt(15) / (2 * P), -math.sqrt(15) / (2 * P), math.sqrt(5) / (4 * P), -math.sqrt(15) / (2 * P), math.sqrt(15) / (4 * P)]
def near(a, b, s): return And(a - b <= s, b - a <= s)
C('preprocess', 'f32x4[9] c', 'for (int i = 0; i < 9; i++) r[i] = c[i]; shaderPreprocessSH(r);', 'f32x4[9] r', lambda I, O: [('coefficient %d lane %d' % (i, k), near(O.r[i][k], I.c[i][k] * f32(CA[i] / math.pi), rabs(I.c[i][k]) * Fraction(1, 10**6))) for i in range(9) for k in range(4)], tol=1e-5)
CONTRACTS = out
