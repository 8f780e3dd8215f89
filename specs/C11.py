"""C11: closest points, planes of triangles, point in triangle"""
from specs.mat import *
INCLUDES = ['math/vector.hpp', 'math/line.hpp', 'math/ray.hpp', 'math/plane.hpp', 'math/triangle.hpp', 'math/sphere.hpp', 'math/aabb.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-3), **k)
z, o = R.of(0), R.of(1)
def d2(a, b): d = vsub(a[:3], b[:3]); return dot(d, d)
def sq(a): return dot(a[:3], a[:3])
out = []
out.append(C('segment', 'f32x4 a, f32x4 b, f32x4 p, float s', 'Line l(a, b); c = closestPoint(l, p); float t_; c2 = closestPoint(l, p, t_); t = t_; d = l.getDirection(false); u = l.getDirection();', 'f32x4 c, f32x4 c2, float t, f32x4 d, f32x4 u',
  lambda I, O: [('on the segment: between the ends', And(dot(vsub(O.c[:3], I.a[:3]), vsub(I.b[:3], I.a[:3])) >= 0, dot(vsub(O.c[:3], I.b[:3]), vsub(I.b[:3], I.a[:3])) <= 0))] + veq('on the line', cross(vsub(O.c[:3], I.a[:3]), vsub(I.b[:3], I.a[:3])), [z, z, z]) +
    [('nothing on the segment is nearer', Implies(And(I.s >= 0, I.s <= 1), d2(O.c, I.p) <= d2(vadd(I.a[:3], vscale(vsub(I.b[:3], I.a[:3]), I.s)), I.p)))] + veq('overload with parameter', O.c2[:3], O.c[:3]) + [('parameter is that of the projection onto the line', dot(vsub(vadd(I.a[:3], vscale(vsub(I.b[:3], I.a[:3]), O.t)), I.p[:3]), vsub(I.b[:3], I.a[:3])).eq(0))] +
    veq('direction', O.d[:3], vsub(I.b[:3], I.a[:3])) + veq('unit direction', vscale(O.u[:3], sqrt(d2(I.a, I.b))), O.d[:3]), lambda I: [d2(I.a, I.b) > 0], timeout=60))
out.append(C('ray', 'f32x4 o, f32x4 d, f32x4 p, float s', 'Ray r(o, d, false); c = closestPoint(r, p); Ray n(o, d); g = n.getDirection(); h = r.getDirection(); Ray k(o, o); k.setDirection(d); w = k.getDirection(); q = n.origin;', 'f32x4 c, f32x4 g, f32x4 h, f32x4 w, f32x4 q',
  lambda I, O: veq('on the line of the ray', cross(vsub(O.c[:3], I.o[:3]), I.d[:3]), [z, z, z]) + [('in front of the origin', dot(vsub(O.c[:3], I.o[:3]), I.d[:3]) >= 0), ('nothing on the ray is nearer', Implies(I.s >= 0, d2(O.c, I.p) <= d2(vadd(I.o[:3], vscale(I.d[:3], I.s)), I.p)))] +
    veq('direction as given', O.h[:3], I.d[:3]) + veq('normalised direction', vscale(O.g[:3], sqrt(sq(I.d))), I.d[:3]) + veq('setDirection normalises', O.w[:3], O.g[:3]) + veq('origin', O.q[:3], I.o[:3]), lambda I: [sq(I.d) > 0], timeout=60))
out.append(C('plane', 'f32x4 n, float w, f32x4 p, f32x4 q', 'Plane l(n, w, false); c = closestPoint(l, p); e = distance3(l, c);', 'f32x4 c, float e', lambda I, O: [('on the plane', O.e.eq(0)), ('nothing on the plane is nearer', Implies((dot(I.n[:3], I.q[:3]) + I.w).eq(0), d2(O.c, I.p) <= d2(I.q, I.p)))], lambda I: [sq(I.n).eq(1)],
  gen=lambda r: (lambda v: (lambda l: dict(n=[x / l for x in v] + [0.0]))(sum(x * x for x in v) ** .5))([r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(.1, 1)]), timeout=60))
out.append(C('aabb', 'f32x4 a, f32x4 b, f32x4 p, f32x4 q', 'Aabb l(a, b); c = closestPoint(l, p);', 'f32x4 c', lambda I, O: [('inside the box[%d]' % i, And(I.a[i] <= O.c[i], O.c[i] <= I.b[i])) for i in range(3)] + [('nothing in the box is nearer on axis %d' % i, Implies(And(I.a[i] <= I.q[i], I.q[i] <= I.b[i]), (O.c[i] - I.p[i]) * (O.c[i] - I.p[i]) <= (I.q[i] - I.p[i]) * (I.q[i] - I.p[i]))) for i in range(3)], lambda I: [I.a[i] <= I.b[i] for i in range(3)]))
out.append(C('sphere', 'f32x4 m, float rad, f32x4 p, f32x4 q', 'Sphere l(rad, m); c = closestPoint(l, p); g = l.getPosition(); h = l.getRadius(); Sphere k; k.setPosition(m); k.setRadius(rad); u = k.getPosition(); v = k.getRadius(); Sphere j(rad, p); j.setPosition(m); x = j.getRadius();', 'f32x4 c, f32x4 g, float h, f32x4 u, float v, float x',
  lambda I, O: [('on the surface', d2(O.c, I.m).eq(I.rad * I.rad))] + veq('on the way to the point', vscale(vsub(O.c[:3], I.m[:3]), sqrt(d2(I.p, I.m))), vscale(vsub(I.p[:3], I.m[:3]), I.rad)) + veq('position', O.g[:3], I.m[:3]) + [('radius', O.h.eq(I.rad)), ('radius after setters', O.v.eq(I.rad)), ('setPosition keeps the radius', O.x.eq(I.rad))] + veq('position after setters', O.u[:3], I.m[:3]), lambda I: [d2(I.p, I.m) > 0, I.rad >= 0]))
# the nearest point of the surface: |q - p| >= | |q-m| - |p-m| | = |c - p|   (Cauchy-Schwarz, stated with l = |p - m|)
out.append(C('sphere_nearest', 'f32x4 m, float rad, f32x4 p, f32x4 q', 'Sphere l(rad, m); c = closestPoint(l, p);', 'f32x4 c', lambda I, O: (lambda l: [('distance to the returned point', d2(O.c, I.p).eq((l - I.rad) * (l - I.rad)))])(sqrt(d2(I.p, I.m))), lambda I: [d2(I.p, I.m) > 0, I.rad >= 0]))
# ---- triangles: p0, two edges e1, e2 and the point p0 + x e1 + y e2 + h (e1 x e2), which is every point of space when the triangle is not degenerate
TRI = 'f32x4 p0, f32x4 e1, f32x4 e2, float x, float y'
NN = lambda I: (lambda n: dot(n, n))(cross(I.e1[:3], I.e2[:3]))
mk_ = 'Triangle t(p0, p0 + e1, p0 + e2); '
inside = lambda I: And(I.x >= 0, I.y >= 0, I.x + I.y <= 1)
out.append(C('inside_triangle', TRI, mk_ + 'r = isInside(t, p0 + e1 * x + e2 * y);', 'bool r', lambda I, O: [('accepts exactly the points of the triangle', iff(O.r, inside(I)))], lambda I: [NN(I) > 0], timeout=60))
out.append(C('triangle_plane', TRI + ', float h', mk_ + 'Plane l(t); a = distance3(l, t.p0); b = distance3(l, t.p1); c = distance3(l, t.p2); f32x4 n_ = cross3(e1, e2); d = distance3(l, p0 + e1 * x + e2 * y + n_ * h); n = l.getNormal();', 'float a, float b, float c, float d, f32x4 n',
  lambda I, O: [('first vertex on the plane', O.a.eq(0)), ('second vertex on the plane', O.b.eq(0)), ('third vertex on the plane', O.c.eq(0)), ('unit normal', unit(O.n[:3])), ('zero exactly on the plane, positive in front', And((O.d * sqrt(NN(I))).eq(I.h * NN(I))))] + veq('normal direction', vscale(O.n[:3], sqrt(NN(I))), cross(I.e1[:3], I.e2[:3])), lambda I: [NN(I) > 0]))
CONTRACTS = out
