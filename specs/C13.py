"""C13: ray against axis-aligned box"""
from specs.common import *
INCLUDES = ['math/vector.hpp', 'math/ray.hpp', 'math/aabb.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
ASSUMPTIONS = ['the ray distances at the box planes lie within +-FLT_MAX; direction components with an absolute value up to 1e-20 count as zero (the parallel threshold of the library), all others are larger',
               'direction components are exactly zero on parallel axes in these contracts']
z, o = R.of(0), R.of(1)
FMAX = R(rc((2 ** 24 - 1) * 2 ** 104)); EPS = f32(1e-20)
out = []
def inside(I, t, par):
    return And(*[(And(I.a[i] <= I.o[i], I.o[i] <= I.b[i]) if i in par else And(I.a[i] <= I.o[i] + t * I.d[i], I.o[i] + t * I.d[i] <= I.b[i])) for i in range(3)])
def gen(par, s=True):
    def g(r):
        d = {k: [float(r.randint(-4, 4)) for _ in range(4)] for k in 'abo'}
        for i in range(3): d['a'][i], d['b'][i] = sorted((d['a'][i], d['b'][i]))
        d['d'] = [r.choice([-2.0, -1.0, -0.5, 0.5, 1.0, 2.0, 4.0]) for _ in range(4)]; d['s'] = r.choice([0.0, 0.5, 1.0, 2.0, 3.0, -1.0, -0.5])
        if r.random() < 0.6: # a point of the box at parameter s, often on its surface
            for i in range(3):
                q = r.choice([d['a'][i], d['b'][i], (d['a'][i] + d['b'][i]) / 2]); d['o'][i] = q if i in par else q - d['s'] * d['d'][i]
        return d if s else {k: v for k, v in d.items() if k != 's'}
    return g
# o + t d lies beyond a plane exactly when t lies beyond the distance (a - o) (1/d) of the plane
La, Lo, Ld, Lt = (R(rvar('lemma.' + k)) for k in 'aodt')
def slab_lemmas(par):
    def f(I, O):
        q = (La - Lo) * (o / Ld); p = Lo + Lt * Ld
        lem = And(Implies(Ld > 0, And(iff(La <= p, q <= Lt), iff(p <= La, Lt <= q))), Implies(Ld < 0, And(iff(La <= p, Lt <= q), iff(p <= La, q <= Lt))))
        return [('distance of a plane along the ray', lem, [[(La, pl[i]), (Lo, I.o[i]), (Ld, I.d[i]), (Lt, t)] for i in range(3) if i not in par for pl in (I.a, I.b) for t in (I.s, O.r[0], O.r[1], rmax(O.r[0], z))])]
    return f
for par in [(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2)]:
    nm = ''.join('xyz'[i] for i in par)
    dv = 'f32x4(%s)' % ', '.join('0.0f' if i in par else 'd.get%s()' % 'XYZW'[i] for i in range(4))
    def req(I, par=par):
        r = [I.a[i] <= I.b[i] for i in range(3)]
        for i in range(3):
            if i in par: continue
            r += [rabs(I.d[i]) > EPS] + [And(-FMAX <= (x - I.o[i]) * (o / I.d[i]), (x - I.o[i]) * (o / I.d[i]) <= FMAX) for x in (I.a[i], I.b[i])]
        return r
    def ens(I, O, par=par):
        hit = O.r[0] <= O.r[1]
        ins = lambda t: inside(I, t, par)
        return [('a point of the ray in the box makes it a hit', Implies(And(I.s >= 0, ins(I.s)), O.h)),
                ('a hit has a point of the ray in the box (entry or origin)', Implies(O.h, ins(rmax(O.r[0], z)))),
                ('a hit ends at a non-negative distance', Implies(O.h, O.r[1] >= 0)),
                ('entry lies in the box', Implies(O.h, ins(O.r[0]))), ('exit lies in the box', Implies(O.h, ins(O.r[1]))),
                ('entry and exit bound every parameter inside', Implies(And(O.h, ins(I.s)), And(O.r[0] <= I.s, I.s <= O.r[1]))),
                ('miss values', Implies(Not(O.h), And(O.r[0].eq(FMAX), O.r[1].eq(-FMAX))))]
    ins_ = 'f32x4 a, f32x4 b, f32x4 o, f32x4 d'
    out.append(Contract('slab' + '_' * bool(nm) + nm, ins_ + ', float s', 'Ray ray(o, %s, false); Aabb box(a, b); r = raycast2(box, ray); h = raycast(box, ray);' % dv, 'float2 r, bool h', ens, requires=req, sem='real', gen=gen(par), tol=1e-5, timeout=60, lemmas=slab_lemmas(par)))
    def ens2(I, O):
        return [('raycast1 returns the entry', O.q.eq(O.r[0])), ('pre-inverted: both distances[0]', O.i[0].eq(O.r[0])), ('pre-inverted: both distances[1]', O.i[1].eq(O.r[1])), ('pre-inverted: one distance', O.j.eq(O.q)),
                ('boolean variant', iff(O.h, And(O.r[0] <= O.r[1], O.r[1] >= 0))), ('pre-inverted boolean variant', iff(O.k, O.h)), ('interpretation of two distances', iff(O.l, O.h))]
    out.append(Contract('variants' + '_' * bool(nm) + nm, ins_, 'Ray ray(o, %s, false); Ray inv = ray; inv.inverse(); Aabb box(a, b); r = raycast2(box, ray); h = raycast(box, ray); q = raycast1(box, ray); i = raycast2I(box, inv); j = raycast1I(box, inv); k = raycastI(box, inv); l = isAabbIntersected(r);' % dv,
      'float2 r, bool h, float q, float2 i, float j, bool k, bool l', ens2, requires=req, sem='real', gen=gen(par, False), tol=1e-5, timeout=60))
out.append(Contract('two_distances', 'float2 r', 'l = isAabbIntersected(r);', 'bool l', lambda I, O: [('hit iff the interval is non-empty and ends at a non-negative distance', iff(O.l, And(FLe(I.r[0], I.r[1]), FLe(fc(0.0), I.r[1]))))], sem='ieee'))
out.append(Contract('parallel_axes', 'f32x4 o, f32x4 d, f32x4 e', 'Ray r(o, d, false); p = r.getParallel(); q = r.getDirection(); Ray k(o, e, false); k.setDirection(d, false); u = k.getParallel(); Ray i = r; i.inverse(); v = i.getParallel(); w = i.getDirection();', 'u32x4 p, f32x4 q, u32x4 u, u32x4 v, f32x4 w',
  lambda I, O: [('axis %d is parallel when its component vanishes' % i, Eq(O.p[i], mask(FLe(FAbs(I.d[i]), fc(1e-20))))) for i in range(3)] + [('setDirection updates axis %d' % i, Eq(O.u[i], O.p[i])) for i in range(3)] + [('inverse keeps the parallel axis %d' % i, Eq(O.v[i], O.p[i])) for i in range(3)] +
    [('inverse direction[%d]' % i, fsame(O.w[i], FDiv(fc(1.0), I.d[i]))) for i in range(3)], sem='ieee'))
CONTRACTS = out
