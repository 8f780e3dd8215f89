"""C08: translation, rotation, scale"""
from specs.mat import *
from specs.C07 import guni
INCLUDES = ['math/vector.hpp', 'math/quaternion.hpp', 'math/matrix/transform.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-3), **k)
out = []
z, o = R.of(0), R.of(1)
E4 = ident(4)
def tmat(t): return [E4[0], E4[1], E4[2], [t[0], t[1], t[2], o]]
def smat(s): return [[s[0], z, z, z], [z, s[1], z, z], [z, z, s[2], z], E4[3]]
def affine(m): return [m[0][3].eq(0), m[1][3].eq(0), m[2][3].eq(0), m[3][3].eq(1)]
def gaff(*ns):
    def g(r):
        d = {}
        for n in ns:
            m = [[r.uniform(-2, 2) for _ in range(4)] for _ in range(4)]
            for i in range(4): m[i][3] = 1.0 if i == 3 else 0.0
            d[n] = m
        return d
    return g
out.append(C('translate', 'f32x4 t, f32x4x4 m, f32x4 p', 'r = translate(t); a = translate(m, t); b = translate(t, m); x = r * f32x4(p, 1.0f);', 'f32x4x4 r, f32x4x4 a, f32x4x4 b, f32x4 x',
  lambda I, O: meq('translation matrix', O.r, tmat(I.t)) + meq('m * translate(t)', O.a, mulm(I.m, tmat(I.t))) + meq('translate(t) * m', O.b, mulm(tmat(I.t), I.m)) + veq('moves a point', O.x, [I.p[i] + I.t[i] for i in range(3)] + [o]),
  lambda I: affine(I.m), gen=gaff('m')))
out.append(C('set_translation', 'f32x4 t, f32x4x4 m', 'r = m; setTranslation(r, t); g = getTranslation(m);', 'f32x4x4 r, f32x4 g', lambda I, O: meq('other columns kept', O.r[:3], I.m[:3]) + veq('new translation', O.r[3], I.t[:3] + [I.m[3][3]]) + veq('translation', O.g[:3], I.m[3][:3])))
out.append(C('scale', 'f32x4 s, f32x4x4 m, f32x4 p', 'r = scale(s); a = scale(m, s); b = scale(s, m); x = r * p;', 'f32x4x4 r, f32x4x4 a, f32x4x4 b, f32x4 x',
  lambda I, O: meq('scale matrix', O.r, smat(I.s)) + meq('m * scale(s)', O.a, mulm(I.m, smat(I.s))) + meq('scale(s) * m', O.b, mulm(smat(I.s), I.m)) + veq('scales a point', O.x[:3], [I.p[i] * I.s[i] for i in range(3)]),
  lambda I: affine(I.m), gen=gaff('m')))
posS = lambda I: [unit(I.q)] + [x > 0 for x in I.s[:3]]
def gtrs(r):
    d = guni('q')(r); d['s'] = [r.choice([1.0, 2.0, r.uniform(0.1, 4)]) for _ in range(4)]
    if r.random() < 0.3: d['s'] = [1.0] * 4
    return d
def model(I): return mulm(mulm(tmat(I.t), [c + [z] for c in rotm(I.q)] + [E4[3]]), smat(I.s))
out.append(C('model', 'f32x4 t, quat q, f32x4 s, f32x4 p', 'm = calcModel(t, q, s); x = m * f32x4(p, 1.0f); n = calcModel(t, q); k = calcModel(t); d = calcModel();', 'f32x4x4 m, f32x4 x, f32x4x4 n, f32x4x4 k, f32x4x4 d',
  lambda I, O: meq('translate * rotate * scale', O.m, model(I)) + veq('position + rotation(scale * p)', O.x[:3], vadd(I.t[:3], qrot(I.q, [I.s[i] * I.p[i] for i in range(3)]))) +
    meq('without scale', O.n, mulm(tmat(I.t), [c + [z] for c in rotm(I.q)] + [E4[3]])) + meq('position only', O.k, tmat(I.t)) + meq('identity', O.d, E4), posS, gen=gtrs))
out.append(C('model_rotation_norm', 'quat q, f32x4 t, f32x4 s', 'm = calcModel(t, q, s); n = calcModel(t, normalize(q), s);', 'f32x4x4 m, f32x4x4 n', lambda I, O: meq('rotation is normalised', O.m, O.n), lambda I: [dot(I.q, I.q) > 0]))
out.append(C('decompose', 'f32x4 t, quat q, f32x4 s', 'auto m = calcModel(t, q, s); p = getTranslation(m); c = extractScale(m); c2 = extractScale2(m); r = extractRotation(m); auto n = calcModel(t, q); ro = extractRotationOnly(n); e = rotate(q);', 'f32x4 p, f32x4 c, float2 c2, f32x4x4 r, f32x4x4 ro, f32x4x4 e',
  lambda I, O: veq('translation', O.p[:3], I.t[:3]) + veq('scale', O.c[:3], I.s[:3]) + veq('2D scale', O.c2, I.s[:2]) + meq('rotation', O.r, O.e) + meq('rotation of an unscaled model', O.ro, O.e) + meq('rotation matrix', sub(O.r, 3), rotm(I.q)), posS, gen=gtrs))
def pm(name, a, b): return [(name, Or(And(*[x.eq(y) for x, y in zip(a, b)]), And(*[x.eq(-y) for x, y in zip(a, b)])))]
def gq(r): return guni('q')(r)
out.append(C('extract_quat', 'quat q', 'r = extractQuat(rotate(q));', 'quat r', lambda I, O: pm('rotation quaternion up to sign', O.r, I.q) + [('unit', unit(O.r))], lambda I: [unit(I.q)], gen=gq))
# ---- modular use of extractQuat(rotate(q)): extractTransform
out.append(C('extract_transform', 'f32x4 t, quat q, f32x4 s', 'f32x4 a, b; quat k; extractTransform(calcModel(t, q, s), a, k, b); p = a; r = k; c = b; f32x4 a2; quat k2; extractTransform(calcModel(t, q), a2, k2); p2 = a2; r2 = k2;', 'f32x4 p, quat r, f32x4 c, f32x4 p2, quat r2',
  lambda I, O: veq('position', O.p[:3], I.t[:3]) + veq('scale', O.c[:3], I.s[:3]) + pm('rotation', O.r, I.q) + veq('position without scale', O.p2[:3], I.t[:3]) + pm('rotation without scale', O.r2, I.q), posS, gen=gtrs, intercepts=[extract_quat_contract('q')]))
out.append(C('rigid_inverse', 'f32x4 t, quat q, f32x4 p', 'auto m = calcModel(t, q); auto i = inverseTransRot(m); l = i * m; r = m * i; x = i * (m * f32x4(p, 1.0f));', 'f32x4x4 l, f32x4x4 r, f32x4 x', lambda I, O: meq('inverse * m', O.l, E4) + meq('m * inverse', O.r, E4) + veq('undoes the transformation', O.x, I.p[:3] + [o]), lambda I: [unit(I.q)], gen=gq))
CONTRACTS = out
