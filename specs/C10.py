"""C10: projections and frustum planes"""
from specs.mat import *
INCLUDES = ['math/vector.hpp', 'math/matrix.hpp', 'math/matrix/projection.hpp', 'math/plane.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
ASSUMPTIONS = ['std::tan is an arbitrary function; the properties are stated relative to the value it returns for half the field of view',
               'infinite projection: the limit is stated as agreement with the finite projection up to a factor of exactly far/(far - near)']
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-3), **k)
z, o = R.of(0), R.of(1)
T = lambda I: uf('tan', I.fov * f32(0.5))
def persp(depth):
    def ens(I, O):
        t = T(I); x, y, d = O.c[0], O.c[1], O.c[2]
        return [('right edge x = z * aspect * tan goes to +w', (O.c[0] * I.aspect * t).eq(I.p[0])), ('top edge y = z * tan goes to -w (flipped Y)', (O.c[1] * t).eq(-I.p[1])), ('w is the view depth', O.c[3].eq(I.p[2]))] + depth(I, O)
    return ens
req = lambda far: lambda I: [T(I) > 0, I.aspect > 0, I.near > 0] + ([I.far > I.near] if far else [])
def gen(r):
    n = r.uniform(0.1, 2); return dict(fov=r.uniform(0.3, 2.5), aspect=r.uniform(0.5, 2), near=n, far=n + r.uniform(0.5, 50))
out = []
std = lambda I, O: [('near plane to depth 0, far plane to depth 1', (O.c[2] * (I.far - I.near)).eq(I.far * (I.p[2] - I.near)))]
rev = lambda I, O: [('near plane to depth 1, far plane to depth 0', (O.c[2] * (I.far - I.near)).eq(I.near * (I.far - I.p[2])))]
inf = lambda I, O: [('near plane to depth 1, infinity to depth 0', O.c[2].eq(I.near))]
L = lambda nm, pts: [(nm + ' %s' % n, a.eq(b)) for n, a, b in pts]
for nm, fn, args, dep, far, ends in (('persp', 'calcPerspProj', 'fov, aspect, near, far', std, True, (0, 1)), ('persp_rev', 'calcPerspProjRevZ', 'fov, aspect, near, far', rev, True, (1, 0)), ('persp_inf_rev', 'calcPerspProjInfRevZ', 'fov, aspect, near', inf, False, (1, None))):
    def ens(I, O, dep=dep, far=far, ends=ends):
        r = persp(dep)(I, O) + [('depth at the near plane', O.n[2].eq(O.n[3] * ends[0])), ('near plane w', O.n[3].eq(I.near))]
        if far: r += [('depth at the far plane', O.f[2].eq(O.f[3] * ends[1])), ('far plane w', O.f[3].eq(I.far))]
        return r
    out.append(C(nm, 'float fov, float aspect, float near, float far, f32x4 p', 'float4x4 m = %s(%s); f32x4x4 s = f32x4x4(m); c = s * f32x4(p, 1.0f); n = s * f32x4(p.getX(), p.getY(), near, 1.0f); f = s * f32x4(p.getX(), p.getY(), far, 1.0f); auto q = m * float4(p.getX(), p.getY(), p.getZ(), 1.0f); v = q;' % (fn, args),
      'f32x4 c, f32x4 n, f32x4 f, float4 v', lambda I, O, ens=ens: ens(I, O) + veq('plain matrix agrees', O.v, O.c), req(far), gen=gen))
out.append(C('inf_is_the_limit', 'float fov, float aspect, float near, float far, f32x4 p', 'c = f32x4x4(calcPerspProjInfRevZ(fov, aspect, near)) * f32x4(p, 1.0f); f = f32x4x4(calcPerspProjRevZ(fov, aspect, near, far)) * f32x4(p, 1.0f);', 'f32x4 c, f32x4 f',
  lambda I, O: [('same x', O.c[0].eq(O.f[0])), ('same y', O.c[1].eq(O.f[1])), ('same w', O.c[3].eq(O.f[3])), ('depth differs by (near - z near/far) vs near, vanishing for far to infinity', (O.f[2] * (I.far - I.near)).eq(O.c[2] * (I.far - I.p[2])))], req(True), gen=gen))
def ortho(ends):
    def ens(I, O):
        w, h, d = I.w, I.h, I.d; lerp = lambda v, a, b: (v - a) / (b - a)
        dep = lerp(I.p[2], d[0], d[1])
        if ends[0]: dep = 1 - dep
        return [('left edge to -1, right edge to +1', O.c[0].eq(2 * lerp(I.p[0], w[0], w[1]) - 1)), ('bottom edge to +1, top edge to -1 (flipped Y)', O.c[1].eq(1 - 2 * lerp(I.p[1], h[0], h[1]))),
                ('near plane to depth %d, far plane to depth %d' % ends, O.c[2].eq(dep)), ('affine', O.c[3].eq(1))] + veq('near corner', O.n[:3], [R.of(-1), R.of(1), R.of(ends[0])]) + veq('far corner', O.f[:3], [R.of(1), R.of(-1), R.of(ends[1])])
    return ens
def go(r):
    f = lambda: (lambda a: [a, a + r.uniform(0.5, 5)])(r.uniform(-3, 3))
    return dict(w=f(), h=f(), d=f())
for nm, fn, ends in (('ortho', 'calcOrthoProj', (0, 1)), ('ortho_rev', 'calcOrthoProjRevZ', (1, 0))):
    out.append(C(nm, 'float2 w, float2 h, float2 d, f32x4 p', 'f32x4x4 s = f32x4x4(%s(w, h, d)); c = s * f32x4(p, 1.0f); n = s * f32x4(w.x, h.x, d.x, 1.0f); f = s * f32x4(w.y, h.y, d.y, 1.0f);' % fn, 'f32x4 c, f32x4 n, f32x4 f', ortho(ends), lambda I: [I.w[1] > I.w[0], I.h[1] > I.h[0], I.d[1] > I.d[0]], gen=go))
# frustum planes: plane k is exactly the k-th clip inequality, for any matrix
NAMES = ['left: x >= -w', 'right: x <= w', 'bottom/top: y <= w', 'top/bottom: y >= -w', 'near/far: z >= 0', 'far/near: z <= w']
def fr(I, O):
    c = mulv(I.m, I.p[:3] + [o]); x, y, zz, w = c
    lim = [w + x, w - x, w - y, w + y, zz, w - zz]
    return [('plane %d is the clip inequality %s' % (i, NAMES[i]), O.d[i].eq(lim[i])) for i in range(6)] + [('the six planes are the clip volume', iff(And(*[O.d[i] >= 0 for i in range(6)]), And(-w <= x, x <= w, -w <= y, y <= w, zz >= 0, zz <= w)))]
out.append(C('frustum_planes', 'f32x4x4 m, f32x4 p', 'Plane pl[6]; extractFrustumPlanes(m, pl); for (int i = 0; i < 6; i++) d[i] = distance3(pl[i], p);', 'float[6] d', fr))
out.append(C('plane_distance', 'f32x4 n, float w, f32x4 p', 'Plane a(n, w, false); d = distance3(a, p); Plane b; b.setNormal(n, false); b.setDistance(w); e = distance3(b, p); g = a.getNormal(); h = a.getDistance(); Plane c(n, w); x = c.getNormal(); y = c.getDistance(); Plane k(n, w, false); k.setNormal(n); u = k.getNormal(); v = k.getDistance();',
  'float d, float e, f32x4 g, float h, f32x4 x, float y, f32x4 u, float v', lambda I, O: [('signed distance', O.d.eq(dot(I.n[:3], I.p[:3]) + I.w)), ('setters', O.e.eq(O.d)), ('distance', O.h.eq(I.w)), ('distance kept by the constructor', O.y.eq(I.w)), ('distance kept by setNormal', O.v.eq(I.w))] + veq('normal', O.g[:3], I.n[:3]) +
  [('constructor normalises', unit(O.x[:3])), ('setNormal normalises', unit(O.u[:3]))] + veq('normalised normal is parallel', vscale(O.x[:3], sqrt(dot(I.n[:3], I.n[:3]))), I.n[:3]) + veq('setNormal is parallel', O.u[:3], O.x[:3]), lambda I: [dot(I.n[:3], I.n[:3]) > 0]))
def nrm(I, O):
    l = sqrt(dot(I.n[:3], I.n[:3]))
    return veq('rescaled by a positive factor', vscale(O.g[:3] + [O.h], l), I.n[:3] + [I.w]) + [('unit normal', unit(O.g[:3])), ('the plane does not move', (O.e * l).eq(O.d)), ('factor is positive', l > 0)]
out.append(C('normalize', 'f32x4 n, float w, f32x4 p', 'Plane a(n, w, false); d = distance3(a, p); a.normalize(); e = distance3(a, p); g = a.getNormal(); h = a.getDistance();', 'float d, float e, f32x4 g, float h', nrm, lambda I: [dot(I.n[:3], I.n[:3]) > 0]))
# ---- normalizePlanes over an array of any length: at an arbitrary position w
from vcg.arrays import SymArr
PRELUDE = 'extern "C" __attribute__((noinline)) math::Plane* vcg_planes() { static math::Plane p[256]; return p; }'
_rl = real.ToReal()
def setup(ex, st):
    n, w = var('n', 64), var('w', 64)
    arr = SymArr(ex, st, 'planes', n, 16, {0: 'f32', 4: 'f32', 8: 'f32', 12: 'f32'}, ghosts=[w])
    ex.vcg = dict(arr=arr, n=n, w=w)
    ex.icp.append((lambda nm: nm == 'vcg_planes', lambda ex, st, args, where: arr.ptr()))
def cands(ex, xs, st, st0, h):
    arr, n, w = ex.vcg['arr'], ex.vcg['n'], ex.vcg['w']
    old = [R(_rl(x)) for x in arr.elem(ex, st0, w).values()]; new = [R(_rl(x)) for x in arr.elem(ex, st, w).values()]
    l = sqrt(dot(old[:3], old[:3]))
    done = Implies(dot(old[:3], old[:3]) > 0, And(*[a.eq(b / l) for a, b in zip(new, old)])); todo = And(*[a.eq(b) for a, b in zip(new, old)])
    for k, x in xs:
        yield '%s <= n' % k, ULe(x, n)
        yield 'planes below %s are done' % k, Implies(ULt(w, x), done)
        yield 'planes from %s on are untouched' % k, Implies(ULe(x, w), todo)
        yield 'planes from %s on are done' % k, Implies(ULe(x, w), done)
        yield 'planes below %s are untouched' % k, Implies(ULt(w, x), todo)
def np(I, O):
    l = sqrt(dot(O.a[:3], O.a[:3])); nz = dot(O.a[:3], O.a[:3]) > 0
    return [('every plane is rescaled to a unit normal[%d]' % i, Implies(nz, (O.b[i]).eq(O.a[i] / l))) for i in range(4)]
out.append(C('normalize_planes', 'uint64 n, uint64 w', 'Plane* p = vcg_planes(); a = f32x4(p[w].getNormal(), p[w].getDistance()); normalizePlanes(p, n); b = f32x4(p[w].getNormal(), p[w].getDistance());', 'f32x4 a, f32x4 b', np, lambda I: [ULt(I.w, I.n), ULt(I.n, bv(1 << 59, 64))],
  setup=setup, loops=[(lambda nm: nm.startswith('_ZN4mathL15normalizePlanes'), cands)], native=False, deep_inv=True, timeout=5))
out.append(C('normalize_two', 'f32x4 p0, f32x4 p1', 'Plane p[3] = {Plane(p0, p0.getW(), false), Plane(p1, p1.getW(), false), Plane(p1, p1.getW(), false)}; normalizePlanes(p, 2); a = f32x4(p[0].getNormal(), p[0].getDistance()); b = f32x4(p[1].getNormal(), p[1].getDistance()); c = f32x4(p[2].getNormal(), p[2].getDistance());', 'f32x4 a, f32x4 b, f32x4 c',
  lambda I, O: veq('first plane', vscale(O.a, sqrt(dot(I.p0[:3], I.p0[:3]))), I.p0) + veq('second plane', vscale(O.b, sqrt(dot(I.p1[:3], I.p1[:3]))), I.p1) + veq('planes beyond the count untouched', O.c, I.p1) + [('unit', unit(O.a[:3]))], lambda I: [dot(I.p0[:3], I.p0[:3]) > 0, dot(I.p1[:3], I.p1[:3]) > 0]))
CONTRACTS = out
