"""C12: boxes and spheres: containment, overlap, extension, measures"""
from specs.common import *
INCLUDES = ['math/vector.hpp', 'math/aabb.hpp', 'math/sphere.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
PRELUDE = '''
// any stored corners, whatever is in their w component
static math::Aabb BOX(const math::f32x4& a, const math::f32x4& b) { return math::Aabb(a, b); }
'''
def E(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='ieee', **k)
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-3), **k)
z, o = R.of(0), R.of(1)
ge = lambda a, b: FLe(b, a)
XYZ = range(3)
def small(*ks):
    """boxes and points on a small grid, so that coordinates often coincide"""
    def g(r):
        d = {}
        for k in ks:
            k, n = (k.split(':') + ['4'])[:2]; d[k] = [r.choice([-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0]) for _ in range(4)]
        if 'a' in d and 'b' in d:
            for i in XYZ: d['a'][i], d['b'][i] = sorted((d['a'][i], d['b'][i]))
        if 'c' in d and 'd' in d:
            for i in XYZ: d['c'][i], d['d'][i] = sorted((d['c'][i], d['d'][i]))
        return d
    return g
def ordered(a, b): return [FLe(a[i], b[i]) for i in XYZ]
def nonan(*vs): return [Not(FIsNan(x)) for v in vs for x in v[:3]]
out = []
# ---- containment and overlap: exact float comparisons on three axes, w never matters
out.append(E('inside_point', 'f32x4 a, f32x4 b, f32x4 p', 'r = isInside(BOX(a, b), p);', 'bool r', lambda I, O: [('inside iff between min and max on x, y and z', iff(O.r, And(*[And(FLe(I.a[i], I.p[i]), FLe(I.p[i], I.b[i])) for i in XYZ])))], gen=small('a', 'b', 'p')))
out.append(E('inside_box', 'f32x4 a, f32x4 b, f32x4 c, f32x4 d', 'r = isInside(BOX(a, b), BOX(c, d));', 'bool r', lambda I, O: [('box inside iff its corners are', iff(O.r, And(*[And(FLe(I.a[i], I.c[i]), FLe(I.d[i], I.b[i])) for i in XYZ])))], gen=small('a', 'b', 'c', 'd')))
out.append(E('overlap', 'f32x4 a, f32x4 b, f32x4 c, f32x4 d', 'r = isIntersected(BOX(a, b), BOX(c, d)); s = isIntersected(BOX(c, d), BOX(a, b));', 'bool r, bool s',
  lambda I, O: [('overlap iff the intervals meet on all three axes', iff(O.r, And(*[And(FLe(I.a[i], I.d[i]), FLe(I.c[i], I.b[i])) for i in XYZ]))), ('symmetric', iff(O.r, O.s))], gen=small('a', 'b', 'c', 'd')))
# the interval formula is the geometric question (lemma over reals: intervals meet iff they share a number)
out.append(C('overlap_point', 'f32x4 a, f32x4 b, f32x4 c, f32x4 d, f32x4 p', 'r = isIntersected(BOX(a, b), BOX(c, d)); u = max(a, c);', 'bool r, f32x4 u',
  lambda I, O: [('a common point makes the boxes overlap', Implies(And(*[And(I.a[i] <= I.p[i], I.p[i] <= I.b[i], I.c[i] <= I.p[i], I.p[i] <= I.d[i]) for i in XYZ]), O.r))] +
    [('overlapping boxes have a common point[%d]' % i, Implies(O.r, And(I.a[i] <= O.u[i], O.u[i] <= I.b[i], I.c[i] <= O.u[i], O.u[i] <= I.d[i]))) for i in XYZ], lambda I: [I.a[i] <= I.b[i] for i in XYZ] + [I.c[i] <= I.d[i] for i in XYZ], gen=small('a', 'b', 'c', 'd', 'p')))
# ---- extension and shrinking
mn = lambda a, b: fite(FLt(b, a), b, a)
mx = lambda a, b: fite(FLt(a, b), b, a)
def fite(c, a, b): return mk('ite', (c, a, b), a.ty)
out.append(E('extend_point', 'f32x4 a, f32x4 b, f32x4 p', 'Aabb x = BOX(a, b); x.extend(p); m = x.getMin(); n = x.getMax(); in = isInside(x, p); old = isInside(x, BOX(a, b));', 'f32x4 m, f32x4 n, bool in, bool old',
  lambda I, O: [('smallest box: min[%d]' % i, FEq(O.m[i], mn(I.a[i], I.p[i]))) for i in XYZ] + [('smallest box: max[%d]' % i, FEq(O.n[i], mx(I.b[i], I.p[i]))) for i in XYZ] + [('contains the point', O['in']), ('contains the old box', O.old)], lambda I: nonan(I.a, I.b, I.p) + ordered(I.a, I.b), gen=small('a', 'b', 'p')))
out.append(E('extend_box', 'f32x4 a, f32x4 b, f32x4 c, f32x4 d', 'Aabb x = BOX(a, b); x.extend(BOX(c, d)); m = x.getMin(); n = x.getMax(); in = isInside(x, BOX(c, d)); old = isInside(x, BOX(a, b));', 'f32x4 m, f32x4 n, bool in, bool old',
  lambda I, O: [('smallest box: min[%d]' % i, FEq(O.m[i], mn(I.a[i], I.c[i]))) for i in XYZ] + [('smallest box: max[%d]' % i, FEq(O.n[i], mx(I.b[i], I.d[i]))) for i in XYZ] + [('contains the new box', O['in']), ('contains the old box', O.old)], lambda I: nonan(I.a, I.b, I.c, I.d) + ordered(I.a, I.b) + ordered(I.c, I.d), gen=small('a', 'b', 'c', 'd')))
out.append(E('shrink', 'f32x4 a, f32x4 b, f32x4 c, f32x4 d, f32x4 p', 'Aabb x = BOX(a, b); x.shrink(BOX(c, d)); m = x.getMin(); n = x.getMax(); Aabb y = BOX(a, b); y.shrink(p); k = y.getMin(); l = y.getMax();', 'f32x4 m, f32x4 n, f32x4 k, f32x4 l',
  lambda I, O: [('intersection: min[%d]' % i, FEq(O.m[i], mx(I.a[i], I.c[i]))) for i in XYZ] + [('intersection: max[%d]' % i, FEq(O.n[i], mn(I.b[i], I.d[i]))) for i in XYZ] +
    [('point: min[%d]' % i, FEq(O.k[i], mx(I.a[i], I.p[i]))) for i in XYZ] + [('point: max[%d]' % i, FEq(O.l[i], mn(I.b[i], I.p[i]))) for i in XYZ], lambda I: nonan(I.a, I.b, I.c, I.d, I.p), gen=small('a', 'b', 'c', 'd', 'p')))
out.append(E('try_set', 'f32x4 a, f32x4 b, f32x4 c, f32x4 d', 'Aabb x = BOX(a, b); r = x.trySet(c, d); m = x.getMin(); n = x.getMax();', 'bool r, f32x4 m, f32x4 n',
  lambda I, O: [('accepts exactly ordered corners', iff(O.r, And(*ordered(I.c, I.d))))] + [('min set or left unchanged[%d]' % i, fsame(O.m[i], fite(O.r, I.c[i], I.a[i]))) for i in XYZ] + [('max set or left unchanged[%d]' % i, fsame(O.n[i], fite(O.r, I.d[i], I.b[i]))) for i in XYZ], gen=small('a', 'b', 'c:3', 'd:3')))
def small2(r):
    d = small('a', 'b')(r); d['c'] = [r.choice([-1.0, 0.0, 1.0, 2.0]) for _ in range(4)]; d['d'] = [r.choice([-1.0, 0.0, 1.0, 2.0]) for _ in range(4)]; return d
out[-1].gen = small2
eqv = lambda nm, xs, ys: [('%s[%d]' % (nm, i), fsame(x, y)) for i, (x, y) in enumerate(zip(xs, ys))]
out.append(E('accessors', 'f32x4 a, f32x4 b, f32x4 c', 'Aabb x = BOX(a, b); m = x.getMin(); n = x.getMax(); Aabb y = BOX(a, b); y.setMin(c); k = y.getMin(); kk = y.getMax(); Aabb w = BOX(a, b); w.setMax(c); l = w.getMax(); ll = w.getMin(); Aabb s; s.set(a, b); p = s.getMin(); q = s.getMax(); e = s == x; d = s != x; e2 = y == x; Aabb dd; u = dd.getMin(); v = dd.getMax();', ', '.join('f32x4 ' + x for x in 'm n k kk l ll p q u v'.split()) + ', bool e, bool d, bool e2',
  lambda I, O: eqv('min', O.m, I.a) + eqv('max', O.n, I.b) + eqv('setMin', O.k, I.c) + eqv('setMin keeps max', O.kk, I.b) + eqv('setMax', O.l, I.c) + eqv('setMax keeps min', O.ll, I.a) + eqv('set min', O.p, I.a) + eqv('set max', O.q, I.b) + [('equal', O.e), ('not different', Not(O.d)), ('equality compares the corners', iff(O.e2, And(*[Eq(fbits(x), fbits(y)) for x, y in zip(I.a, I.c)])))] + eqv('default min', O.u, [fc(0.0)] * 4) + eqv('default max', O.v, [fc(0.0)] * 4)))
# ---- measures
v3 = lambda nm, a, b: veq(nm, a[:3], b[:3])
out.append(C('size', 'f32x4 a, f32x4 b, f32x4 s, f32x4 p', 'Aabb x = BOX(a, b); sz = x.getSize(); po = x.getPosition(); ex = x.getExtent(); x.getExtent(e2, p2); ar = x.calcArea(); vo = x.calcVolume(); Aabb y; y.setSize(s); ym = y.getMin(); yn = y.getMax(); Aabb w; w.setSize(s, p); ws = w.getSize(); wp = w.getPosition(); Aabb q; q.setExtent(s); qm = q.getMin(); qn = q.getMax(); Aabb t; t.setExtent(s, p); te = t.getExtent(); tp = t.getPosition();', ', '.join('f32x4 ' + x for x in 'sz po ex e2 p2 ym yn ws wp qm qn te tp'.split()) + ', float ar, float vo',
  lambda I, O: (lambda d: v3('size', O.sz, d) + v3('position is the centre', vscale(O.po, 2), vadd(I.a, I.b)) + v3('extent is half the size', vscale(O.ex, 2), d) + v3('extent (two results)', O.e2, O.ex) + v3('position (two results)', O.p2, O.po) +
    [('area', O.ar.eq(2 * (d[0] * d[1] + d[1] * d[2] + d[0] * d[2]))), ('volume', O.vo.eq(d[0] * d[1] * d[2]))] + v3('setSize max', vscale(O.yn, 2), I.s) + v3('setSize min', vscale(O.ym, -2), I.s) + v3('size after setSize', O.ws, I.s) + v3('position after setSize', O.wp, I.p) +
    v3('setExtent max', O.qn, I.s) + v3('setExtent min', vscale(O.qm, -1), I.s) + v3('extent after setExtent', O.te, I.s) + v3('position after setExtent', O.tp, I.p))(vsub(I.b[:3], I.a[:3])), lambda I: [I.a[i] <= I.b[i] for i in XYZ] + [I.s[i] >= 0 for i in XYZ], gen=lambda r: dict(small('a', 'b', 'p')(r), s=[abs(r.uniform(0, 3)) for _ in range(4)])))
OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}
for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div')):
    f = OPS[op]
    more = {'+': ' Aabb t = BOX(a, b); t.translate(v); tm = t.getMin(); tn = t.getMax();', '*': ' Aabb t = BOX(a, b); t.scale(v); tm = t.getMin(); tn = t.getMax();'}.get(op, '')
    out.append(C('op_' + nm, 'f32x4 a, f32x4 b, f32x4 v', 'Aabb x = BOX(a, b) %s v; m = x.getMin(); n = x.getMax(); Aabb y = BOX(a, b); k = &(y %s= v) == &y; p = y.getMin(); q = y.getMax();' % (op, op) + more, 'f32x4 m, f32x4 n, f32x4 p, f32x4 q, bool k' + (', f32x4 tm, f32x4 tn' if more else ''),
      lambda I, O, f=f, more=more: veq('min', O.m, [f(x, y) for x, y in zip(I.a, I.v)]) + veq('max', O.n, [f(x, y) for x, y in zip(I.b, I.v)]) + veq('compound min', O.p, O.m) + veq('compound max', O.q, O.n) + [('returns itself', O.k)] + (veq('translate/scale min', O.tm, O.m) + veq('translate/scale max', O.tn, O.n) if more else []),
      (lambda I: [x.ne(0) for x in I.v]) if op == '/' else None))
# ---- spheres
d2 = lambda a, b: (lambda d: dot(d, d))(vsub(a[:3], b[:3]))
def gs(*ks):
    def g(r):
        d = {k: [float(r.randint(-3, 3)) for _ in range(4)] for k in ks}; d['rad'] = float(r.randint(0, 4)); d['rae'] = float(r.randint(0, 4))
        if 'a' in d and 'b' in d:
            for i in XYZ: d['a'][i], d['b'][i] = sorted((d['a'][i], d['b'][i]))
        return d
    return g
def gsf(f): return lambda r: {k: v for k, v in f(r).items() if k in ('m', 'n', 'p', 'a', 'b', 'rad')}
out.append(C('sphere_point', 'f32x4 m, float rad, f32x4 p', 'r = isInside(Sphere(rad, m), p);', 'bool r', lambda I, O: [('inside the open ball', iff(O.r, d2(I.m, I.p) < I.rad * I.rad))], lambda I: [I.rad >= 0], gen=gsf(gs('m', 'p')), tol=1e-6))
out.append(C('sphere_sphere', 'f32x4 m, float rad, f32x4 n, float rae', 'r = isIntersected(Sphere(rad, m), Sphere(rae, n));', 'bool r', lambda I, O: [('overlap iff the centre distance does not exceed the radius sum', iff(O.r, sqrt(d2(I.m, I.n)) <= I.rad + I.rae))], lambda I: [I.rad >= 0, I.rae >= 0], gen=gs('m', 'n'), tol=1e-6))
out.append(C('sphere_box', 'f32x4 m, float rad, f32x4 a, f32x4 b', 'r = isIntersected(Sphere(rad, m), BOX(a, b));', 'bool r',
  lambda I, O: (lambda q: [('overlap iff the nearest box point is nearer than the radius', iff(O.r, d2(q, I.m) < I.rad * I.rad))])([rmax(I.a[i], rmin(I.m[i], I.b[i])) for i in XYZ]), lambda I: [I.rad >= 0] + [I.a[i] <= I.b[i] for i in XYZ], gen=gsf(gs('m', 'a', 'b')), tol=1e-6))
CONTRACTS = out
