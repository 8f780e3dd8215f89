"""C09: look-at and orientation builders"""
from specs.mat import *
from specs.C07 import guni
INCLUDES = ['math/vector.hpp', 'math/quaternion.hpp', 'math/matrix/transform.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
PRELUDE = '''
// axes of the frame of a unit quaternion, written out so that a direction and an up vector can be given in terms of the frame
static math::f32x4 fX(math::quat p) { float x = p.getX(), y = p.getY(), z = p.getZ(), w = p.getW(); return math::f32x4(w*w + x*x - y*y - z*z, 2*(x*y + w*z), 2*(x*z - w*y), 0.0f); }
static math::f32x4 fY(math::quat p) { float x = p.getX(), y = p.getY(), z = p.getZ(), w = p.getW(); return math::f32x4(2*(x*y - w*z), w*w - x*x + y*y - z*z, 2*(y*z + w*x), 0.0f); }
static math::f32x4 fZ(math::quat p) { float x = p.getX(), y = p.getY(), z = p.getZ(), w = p.getW(); return math::f32x4(2*(x*z + w*y), 2*(y*z - w*x), w*w - x*x - y*y + z*z, 0.0f); }
'''
ASSUMPTIONS = ['every right-handed orthonormal frame is the frame of some unit quaternion (standard theorem), so giving direction and up relative to the frame of an arbitrary unit quaternion covers all non-parallel pairs (used for lookAtQuat only)',
               'lookAtQuat: the up vector is not nearly parallel to the direction (squared length of their cross product at least 1e-5, the clamp in the code)']
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-3), timeout=k.pop('timeout', 40), **k)
z, o = R.of(0), R.of(1)
def rigid(name, c):
    out = []
    for i in range(3):
        for j in range(i, 3): out.append(('%s: axes %d and %d orthonormal' % (name, i, j), dot(c[i], c[j]).eq(1 if i == j else 0)))
    return out + [('%s: right-handed frame[%d]' % (name, i), a.eq(b)) for i, (a, b) in enumerate(zip(cross(c[0], c[1]), c[2]))]
def nonpar(up, d): c = cross(up, d); return [dot(c, c) > 0, dot(d, d) > 0]
def frame(up, d):
    l = sqrt(dot(d, d)); f = [x / l for x in d]; c = cross(up, f); return f, l, sqrt(dot(c, c))
out = []
def look(I, O):
    d = vsub(I.to, I.eye)[:3]; f, l, h = frame(I.up[:3], d); rows = [[O.m[c][r] for c in range(3)] for r in range(3)]
    return rigid('view', rows) + veq('eye goes to the origin', O.e, [z, z, z, o]) + veq('view direction goes to forward', O.f[:3], [z, z, l]) + [('up has no sideways part', O.u[0].eq(0)), ('up stays above', O.u[1].eq(h))] + veq('last row', [c[3] for c in O.m], [z, z, z, o])
out.append(C('look_at', 'f32x4 eye, f32x4 to, f32x4 up', 'm = lookAt(eye, to, up); e = m * f32x4(eye, 1.0f); f = m * f32x4(to - eye, 0.0f); u = m * f32x4(up, 0.0f);', 'f32x4x4 m, f32x4 e, f32x4 f, f32x4 u', look, lambda I: nonpar(I.up[:3], vsub(I.to, I.eye)[:3])))
def rot(I, O, d):
    f, l, h = frame(I.up[:3], d)
    return rigid('rotation', sub(O.m, 3)) + veq('forward axis is the direction', O.m[2][:3], f) + [('up has no sideways part', dot(O.m[0][:3], I.up[:3]).eq(0)), ('up stays above', dot(O.m[1][:3], I.up[:3]).eq(h))] + veq('last row', [c[3] for c in O.m], [z, z, z, o]) + veq('no translation', O.m[3][:3], [z] * 3)
out.append(C('look_rotation', 'f32x4 eye, f32x4 to, f32x4 up', 'm = rotate(eye, to, up);', 'f32x4x4 m', lambda I, O: rot(I, O, vsub(I.to, I.eye)[:3]), lambda I: nonpar(I.up[:3], vsub(I.to, I.eye)[:3])))
out.append(C('direction_rotation', 'quat p, float a, float b', 'f32x4 d = fZ(p), up = fY(p) * a + fZ(p) * b; f32x4x4 (*rot2)(f32x4, f32x4) = rotate; m = rot2(d, up); dd = d; uu = up;', 'f32x4x4 m, f32x4 dd, f32x4 uu',
  lambda I, O: rigid('rotation', sub(O.m, 3)) + veq('forward axis is the direction', O.m[2][:3], O.dd[:3]) + [('up has no sideways part', dot(O.m[0][:3], O.uu[:3]).eq(0)), ('up stays above', dot(O.m[1][:3], O.uu[:3]).eq(I.a))] + meq('frame', sub(O.m, 3), rotm(I.p)) + veq('last row', [c[3] for c in O.m], [z, z, z, o]) + veq('no translation', O.m[3][:3], [z] * 3),
  lambda I: [unit(I.p), I.a > 0], gen=lambda r: dict(guni('p')(r), a=r.uniform(0.1, 3))))
out.append(C('look_quaternion', 'quat p, float a, float b', 'f32x4 d = fZ(p), up = fY(p) * a + fZ(p) * b; q = lookAtQuat(d, up); f32x4x4 (*rot2)(f32x4, f32x4) = rotate; m = rot2(d, up); n = rotate(q);', 'quat q, f32x4x4 m, f32x4x4 n',
  lambda I, O: [('unit', unit(O.q))] + meq('same matrix as the look rotation', O.n, O.m),
  lambda I: [unit(I.p), I.a > 0, I.a * I.a >= f32(1e-5)], gen=lambda r: dict(guni('p')(r), a=r.uniform(0.1, 3)), intercepts=[extract_quat_contract('p')]))
out.append(C('default_up', 'f32x4 eye, f32x4 to', 'm = lookAt(eye, to); n = lookAt(eye, to, f32x4(0.0f, 1.0f, 0.0f, 0.0f));  r = rotate(to); f32x4x4 (*rot2)(f32x4, f32x4) = rotate; s = rot2(to, f32x4(0.0f, 1.0f, 0.0f, 0.0f));', 'f32x4x4 m, f32x4x4 n, f32x4x4 r, f32x4x4 s', lambda I, O: meq('up is +Y by default', O.m, O.n) + meq('up is +Y by default (rotation)', O.r, O.s), lambda I: nonpar([z, o, z], vsub(I.to, I.eye)[:3]) + nonpar([z, o, z], I.to[:3])))
CONTRACTS = out
