"""C07: quaternions"""
from specs.mat import *
INCLUDES = ['math/vector.hpp', 'math/quaternion.hpp', 'math/matrix/transform.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
ASSUMPTIONS = ['math::sinCos returns the sine and cosine of every component (its approximation error is the subject of C29)']
import random
def guni(*names):
    def g(r):
        d = {}
        for n in names:
            v = [r.choice([r.uniform(-1, 1), r.uniform(-1, 1), 0.0]) for _ in range(4)]
            l = sum(x * x for x in v) ** 0.5 or 1.0
            d[n] = [x / l for x in v] if l > 1e-3 else [0, 0, 0, 1]
        return d
    return g
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-4), **k)
out = []
out.append(C('product', 'quat p, quat q', 'r = p * q; c = p; c *= q; d = p; d *= d;', 'quat r, quat c, quat d', lambda I, O: veq('Hamilton product', O.r, qmul(I.p, I.q)) + veq('compound product', O.c, qmul(I.p, I.q)) + veq('square in place', O.d, qmul(I.p, I.p))))
out.append(C('construct', 'float x, float y, float z, float w, f32x4 v', 'r = quat(x, y, z, w); s = quat(v); i = quat::identity;', 'quat r, quat s, quat i', lambda I, O: veq('parts', O.r, [I.x, I.y, I.z, I.w]) + veq('from vector', O.s, I.v) + veq('identity', O.i, [R.of(v) for v in (0, 0, 0, 1)])))
U = lambda I: [unit(I.q)]
UP = lambda I: [unit(I.q), unit(I.p)]
out.append(C('rotate_vector', 'quat q, f32x4 v, f32x4 u', 'r = q * v; s = q * u; x = q * f32x4(cross3(v, u));', 'f32x4 r, f32x4 s, f32x4 x', lambda I, O: veq('q v q*', O.r[:3], qrot(I.q, I.v)) + [('length preserved', dot(O.r[:3], O.r[:3]).eq(dot(I.v[:3], I.v[:3]))), ('dot product preserved', dot(O.r[:3], O.s[:3]).eq(dot(I.v[:3], I.u[:3])))] + veq('orientation preserved', O.x[:3], cross(O.r[:3], O.s[:3])), U, gen=guni('q')))
out.append(C('compose', 'quat p, quat q, f32x4 v', 'l = (p * q) * v; r = p * (q * v);', 'f32x4 l, f32x4 r', lambda I, O: veq('p*q rotates by q, then by p', O.l[:3], O.r[:3]), UP, gen=guni('p', 'q')))
out.append(C('group', 'quat p, quat q, quat s', 'l = (p * q) * s; r = p * (q * s); i = quat::identity * q; j = q * quat::identity; n = p * q;', 'quat l, quat r, quat i, quat j, quat n', lambda I, O: veq('associative', O.l, O.r) + veq('left identity', O.i, I.q) + veq('right identity', O.j, I.q) + [('norm is multiplicative', dot(O.n, O.n).eq(dot(I.p, I.p) * dot(I.q, I.q)))]))
out.append(C('conjugate', 'quat q', 'r = conjugate(q); c = conjugate(r);', 'quat r, quat c', lambda I, O: veq('conjugate', O.r, qconj(I.q)) + veq('involution', O.c, I.q)))
NZ = lambda I: [dot(I.q, I.q) > 0]
out.append(C('inverse', 'quat q', 'n = inverse(q); l = n * q; r = q * n;', 'quat n, quat l, quat r', lambda I, O: veq('left inverse', O.l, [R.of(v) for v in (0, 0, 0, 1)]) + veq('right inverse', O.r, [R.of(v) for v in (0, 0, 0, 1)]), NZ))
out.append(C('undo', 'quat q, f32x4 v', 'a = inverse(q) * (q * v); b = conjugate(q) * (q * v); c = (q * v) * q; d = v * q;', 'f32x4 a, f32x4 b, f32x4 c, f32x4 d', lambda I, O: veq('inverse undoes the rotation', O.a[:3], I.v[:3]) + veq('conjugate undoes the rotation', O.b[:3], I.v[:3]) + veq('vector times quaternion undoes the rotation', O.c[:3], I.v[:3]) + veq('vector times quaternion rotates backwards', O.d[:3], qrot(qconj(I.q), I.v)), U, gen=guni('q')))
out.append(C('matrix', 'quat q, quat p, f32x4 v', 'm = rotate(q); r = multiply3x3(m, v); s = q * v; n = rotate(p) * m; k = rotate(p * q);', 'f32x4x4 m, f32x4 r, f32x4 s, f32x4x4 n, f32x4x4 k',
  lambda I, O: veq('matrix agrees with quaternion', O.r[:3], O.s[:3]) + meq('rotation matrix', sub(O.m, 3), rotm(I.q)) + meq('products correspond', O.n, O.k) + veq('last row', [c[3] for c in O.m], [R.of(v) for v in (0, 0, 0, 1)]) + veq('last column', O.m[3][:3], [R.of(0)] * 3), UP, gen=guni('p', 'q')))
def axis_angle(I, O):
    h = I.angle * R.of(0.5); s, c = uf('sin', h), uf('cos', h); a = I.axis[:3]; v = I.v[:3]; ct = c * c - s * s; st = 2 * s * c
    rod = [ct * v[i] + st * cross(a, v)[i] + (1 - ct) * dot(a, v) * a[i] for i in range(3)]
    return veq('parts', O.q, [x * s for x in a] + [c]) + veq('turns by the angle about the axis', O.r[:3], rod) + [('unit', unit(O.q))] + veq('axis fixed', O.x[:3], a)
def gaxis(r):
    v = guni('q')(r)['q'][:3]; l = sum(x * x for x in v) ** 0.5
    return dict(axis=[x / l for x in v] + [0.0] if l > 1e-3 else [0, 0, 1, 0], angle=r.uniform(-6, 6))
out.append(C('axis_angle', 'float angle, f32x4 axis, f32x4 v', 'q = quat(angle, axis); r = q * v; x = q * axis;', 'quat q, f32x4 r, f32x4 x', axis_angle, lambda I: [unit(I.axis[:3])], intercepts=[SINCOS], gen=gaxis, tol=1e-3))
def halves(I): return [(uf('sin', I.e[i] * R.of(0.5)), uf('cos', I.e[i] * R.of(0.5))) for i in range(3)]
def euler(I, O):
    (sx, cx), (sy, cy), (sz, cz) = halves(I); z = R.of(0)
    comp = qmul(qmul([z, z, sz, cz], [z, sy, z, cy]), [sx, z, z, cx])
    x, y, zz, w = O.q
    return veq('Z after Y after X', O.q, comp) + [('unit', unit(O.q)),
      ('pitch sine', (2 * (y * zz + w * x)).eq(2 * sx * cx * (cy * cy - sy * sy))), ('pitch cosine', (w * w - x * x - y * y + zz * zz).eq((cx * cx - sx * sx) * (cy * cy - sy * sy))),
      ('yaw sine', (-2 * (x * zz - w * y)).eq(2 * sy * cy)),
      ('roll sine', (2 * (x * y + w * zz)).eq(2 * sz * cz * (cy * cy - sy * sy))), ('roll cosine', (w * w + x * x - y * y - zz * zz).eq((cz * cz - sz * sz) * (cy * cy - sy * sy)))]
gang = lambda r: dict(e=[r.uniform(-3, 3) for _ in range(4)])
out.append(C('euler_angles', 'f32x4 e', 'q = fromEulerAngles(e);', 'quat q', euler, intercepts=[SINCOS], gen=gang, tol=1e-3))
def angles(I, O):
    x, y, z, w = I.q; eps = f32(2.0 ** -23); one = R.of(1)
    ys = 2 * (y * z + w * x); xc = w * w - x * x - y * y + z * z
    sing = And(rabs(xc) <= eps, rabs(ys) <= eps)
    s = -2 * (x * z - w * y)
    yaw = uf('asin', rite(s < -1, R.of(-1), rite(R.of(1) < s, one, s)))
    roll = uf('atan2', 2 * (x * y + w * z), w * w + x * x - y * y - z * z)
    pitch = rite(sing, 2 * uf('atan2', x, w), uf('atan2', ys, xc))
    return [('pitch', O.p.eq(pitch)), ('yaw', O.y.eq(yaw)), ('roll', O.r.eq(roll))] + veq('angles together', O.e[:3], [O.p, O.y, O.r])
out.append(C('extract_angles', 'quat q', 'p = q.extractPitch(); y = q.extractYaw(); r = q.extractRoll(); e = q.extractEulerAngles();', 'float p, float y, float r, f32x4 e', angles, U, gen=guni('q')))
out.append(C('norms', 'quat q, quat p', 'd = dot4(p, q); n = normalize(q); l = lengthSq4(q);', 'float d, quat n, float l', lambda I, O: [('dot', O.d.eq(dot(I.p, I.q))), ('lengthSq', O.l.eq(dot(I.q, I.q))), ('unit', unit(O.n))] + veq('normalize', O.n, [x / sqrt(dot(I.q, I.q)) for x in I.q]), NZ))
CONTRACTS = out
