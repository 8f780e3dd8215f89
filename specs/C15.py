"""C15: frustum culling"""
from specs.mat import *
from vcg.arrays import SymArr
INCLUDES = ['math/vector.hpp', 'math/matrix.hpp', 'math/aabb.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
PRELUDE = '''
extern "C" __attribute__((noinline)) math::Plane* vcg_planes() { static math::Plane p[256]; return p; }
static math::Plane PL(const math::f32x4& v) { return math::Plane(v, v.getW(), false); }
static math::Aabb BOX(const math::f32x4& a, const math::f32x4& b) { math::Aabb r; r = math::Aabb(math::min(a, b), math::max(a, b)); return r; }
'''
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-3), **k)
z, o = R.of(0), R.of(1)
rl = real.ToReal()
def corners(a, b): return [[(a, b)[x][0], (a, b)[y][1], (a, b)[k][2]] for x in (0, 1) for y in (0, 1) for k in (0, 1)]
def dist(p, c): return dot(p[:3], c) + p[3]
def behind(p, cs): return And(*[dist(p, c) < 0 for c in cs])
def order(I): return [I.a[i] <= I.b[i] for i in range(3)]
def xf(m, cs): return [mulv(m, c + [o])[:3] for c in cs]
out = []
# ---- any number of planes: a symbolic plane array, w is the plane that decides (witness), be is the truth of "some plane has all corners behind"
def setup(corn):
    def f(ex, st):
        A = R(rvar('a.0')), R(rvar('a.1')), R(rvar('a.2')); B = R(rvar('b.0')), R(rvar('b.1')), R(rvar('b.2'))
        M = [[R(rvar('m.%d.%d' % (c, r))) for r in range(4)] for c in range(4)]
        cs = corn(A, B, M)
        n = ZExt(var('n', 8), 64); seen = {}
        def onread(ex, st, arr, i):
            if i.id in seen: return
            seen[i.id] = i
            p = [R(rl(x)) for x in arr.elem(ex, st, i).values()]
            ex.facts.append(Implies(And(ULt(i, n), behind(p, cs)), Not(Eq(var('be', 8), bv(0, 8)))))
        arr = SymArr(ex, st, 'planes', n, 16, {0: 'f32', 4: 'f32', 8: 'f32', 12: 'f32'}, onread=onread, const=True, ghosts=[ZExt(var('w', 8), 64)])
        ex.vcg = dict(arr=arr, cs=cs, n=n)
        ex.icp.append((lambda nm: nm == 'vcg_planes', lambda ex, st, args, where: arr.ptr()))
        # every plane before position i failed to hide the box
    return f
def cands(ex, xs, st, st0, h):
    arr, cs, n = ex.vcg['arr'], ex.vcg['cs'], ex.vcg['n']; w = ZExt(var('w', 8), 64)
    p = [R(rl(x)) for x in arr.elem(ex, st, w).values()]; nb = Not(behind(p, cs))
    for k, x in xs:
        yield '%s <= n' % k, ULe(x, n)
        yield '%s < n' % k, ULt(x, n)
        yield 'planes below %s do not hide the box' % k, Implies(ULt(w, x), nb)
        yield 'planes from %s on do not hide the box' % k, Implies(And(ULe(x, w), ULt(w, n)), nb)
LOOPS = [(lambda nm: nm.startswith('_ZN4mathL15isBehindFrustum'), cands)]
plain = lambda A, B, M: corners(A, B)
model = lambda A, B, M: xf(M, corners(A, B))
def req(I, corn):
    return order(I) + [Implies(Not(Eq(I.n, bv(0, 8))), TRUE)]
for nm, corn, call, ins in (('any_planes', plain, 'isBehindFrustum(p, n, box)', ''), ('any_planes_model', model, 'isBehindFrustum(p, n, box, m)', ', f32x4x4 m')):
    def ens(I, O, corn=corn):
        cs = corn(I.a, I.b, getattr(I, 'm', None))
        be = I.be
        # be = exists plane: (=>) witness w; (<=) instantiated at every index the code reads
        wit = Implies(be, And(ULt(I.w, I.n), behind(O.pw, cs)))
        return [('reported behind exactly when some plane has all eight corners behind', Implies(wit, iff(O.r, be)))]
    out.append(C(nm, 'f32x4 a, f32x4 b, uint8 n, uint8 w, bool be' + ins, 'Plane* p = vcg_planes(); Aabb box(a, b); r = %s; if (w < n) { auto q = p[w]; pw = f32x4(q.getNormal(), q.getDistance()); } else pw = f32x4(0.0f);' % call, 'bool r, f32x4 pw', ens, order, setup=setup(corn), loops=LOOPS, native=False))
# ---- the same statement for a few planes, executed natively as well
for k in (0, 1, 2):
    ps = ', '.join('PL(p%d)' % i for i in range(k))
    for m in (0, 1):
        if k == 2 and m: continue
        def ens(I, O, k=k, m=m):
            cs = corners(I.a, I.b)
            if m: cs = xf(I.m, cs)
            return [('behind exactly when some plane has all corners behind', iff(O.r, Or(*[behind(I['p%d' % i], cs) for i in range(k)])))]
        out.append(C('planes_%d%s' % (k, '_model' * m), 'f32x4 a, f32x4 b' + ''.join(', f32x4 p%d' % i for i in range(k)) + (', f32x4x4 m' if m else ''), 'Plane p[%d] = {%s}; Aabb box(a, b); r = isBehindFrustum(p, %d, box%s);' % (max(k, 1), ps, k, ', m' if m else ''), 'bool r', ens, order))
out.append(C('visible_point', 'f32x4 a, f32x4 b, f32x4 p0, f32x4 p', 'Plane p_[1] = {PL(p0)}; Aabb box(a, b); r = isBehindFrustum(p_, 1, box);', 'bool r', lambda I, O: [('a plane with a point of the box on its non-negative side never hides the box', Not(O.r))],
  lambda I: order(I) + [And(I.a[i] <= I.p[i], I.p[i] <= I.b[i]) for i in range(3)] + [dist(I.p0, I.p[:3]) >= 0], timeout=60))
out.append(C('identity_model', 'f32x4 a, f32x4 b, f32x4 p0, f32x4 p1', 'Plane p_[2] = {PL(p0), PL(p1)}; Aabb box(a, b); r = isBehindFrustum(p_, 2, box, f32x4x4::identity); s = isBehindFrustum(p_, 2, box); Plane q_[2] = {PL(p1), PL(p0)}; t = isBehindFrustum(q_, 2, box);', 'bool r, bool s, bool t',
  lambda I, O: [('identity model changes nothing', iff(O.r, O.s)), ('plane order does not matter', iff(O.t, O.s))], order))
CONTRACTS = out
