"""C28: barycentric coordinates, spherical interpolation"""
from specs.common import *
from specs.C07 import guni
INCLUDES = ['math/vector.hpp', 'math/quaternion.hpp', 'math/triangle.hpp']
VARIANTS = ['sse2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
ASSUMPTIONS = ['libm contracts used for slerp: sin^2 + cos^2 = 1, the addition formulas, cos(acos(x)) = x, sin(acos(x)) is not zero for |x| < 1, sin(0) = 0']
out = []
def C(name, ins, body, outs, ens, req=None, **k): out.append(Contract(name, ins, body, outs, ens, requires=req, sem=k.pop('sem', 'real'), **k))
# ---- barycentric coordinates: the point is p0 + x (p1 - p0) + y (p2 - p0) for some x, y
def tri(I): return I.a[:3], I.b[:3], I.c[:3]
def nondeg(I):
    a, b, c = tri(I); n = cross(vsub(b, a), vsub(c, a))
    return dot(n, n) > 0
def inplane(I):
    a, b, c = tri(I)
    return [I.p[i].eq(a[i] + I.x * (b[i] - a[i]) + I.y * (c[i] - a[i])) for i in range(3)]
def gtri(rng):
    # exactly representable plane points
    q = lambda: [float(rng.randint(-6, 6)) for _ in range(3)] + [float(rng.randint(-3, 3))]
    a, b, c = q(), q(), q(); x, y = rng.choice([0, 1, 0.5, 0.25, -0.5, 2.0, 0.75]), rng.choice([0, 1, 0.5, 0.25, -1.0, 0.125])
    return dict(a=a, b=b, c=c, x=x, y=y, p=[a[i] + x * (b[i] - a[i]) + y * (c[i] - a[i]) for i in range(3)] + [float(rng.randint(-3, 3))])
def bary(I, O):
    a, b, c = tri(I); u, v, w = O.r[:3]
    return [('sum to one', (u + v + w).eq(1)), ('unused component is zero', O.r[3].eq(0))] + [('reproduce the point %d' % i, (u * a[i] + v * b[i] + w * c[i]).eq(I.p[i])) for i in range(3)]
C('barycentric', 'f32x4 a, f32x4 b, f32x4 c, f32x4 p, float x, float y', 'Triangle t(a, b, c); r = calcBarycentric(t, p);', 'f32x4 r', bary, lambda I: inplane(I) + [nondeg(I)], gen=gtri, tol=1e-3, timeout=60)
C('inside', 'f32x4 a, f32x4 b, f32x4 c, f32x4 p, float x, float y', 'Triangle t(a, b, c); r = isInside(t, p);', 'bool r', lambda I, O: [('exactly the points with non-negative barycentric coordinates', iff(O.r, And(I.x >= 0, I.y >= 0, I.x + I.y <= 1)))], lambda I: inplane(I) + [nondeg(I)], gen=gtri, timeout=200)
C('vertices', 'f32x4 a, f32x4 b, f32x4 c', 'Triangle t(a, b, c); r = calcBarycentric(t, a); s = calcBarycentric(t, b); q = calcBarycentric(t, c);', 'f32x4 r, f32x4 s, f32x4 q', lambda I, O: [('vertex %d has the coordinates of the vertex [%d]' % (k, i), v[i].eq(1 if i == k else 0)) for k, v in enumerate((O.r, O.s, O.q)) for i in range(3)], lambda I: [nondeg(I)], gen=lambda r: {k: v for k, v in gtri(r).items() if k in 'abc'}, tol=1e-3)
# ---- slerp
U = lambda *n: (lambda I: [unit(I[k]) for k in n])
EPS = Fraction(1, 2 ** 23)
def setup(sign):
    def f(ex, st):
        a = [R(rvar('a.%d' % i)) for i in range(4)]; b = [R(rvar('b.%d' % i)) for i in range(4)]; c = dot(a, b) * sign
        ex.facts += [uf('sin', R.of(0)).eq(0), Implies(And(R.of(-1) < c, c < 1), uf('sin', uf('acos', c)).ne(0))]
    return f
for sign, nm in ((1, 'same_side'), (-1, 'other_side')):
    side = (lambda I: dot(I.a, I.b) >= 0) if sign > 0 else (lambda I: dot(I.a, I.b) < 0)
    cosv = lambda I, sign=sign: dot(I.a, I.b) * sign
    def g(rng, sign=sign):
        d = guni('a', 'b')(rng)
        if (sum(x * y for x, y in zip(d['a'], d['b'])) < 0) == (sign > 0): d['b'] = [-x for x in d['b']]
        d['t'] = rng.choice([0, 1, 0.5, rng.random()]); return d
    wide = lambda I, side=side, cosv=cosv: [unit(I.a), unit(I.b), side(I), cosv(I) <= 1 - EPS]
    def ens(I, O, cosv=cosv):
        A = uf('acos', cosv(I))
        x, y = (1 - I.t) * A, I.t * A; c = cosv(I)
        s1, c1, s2, c2, sa, ca = uf('sin', x), uf('cos', x), uf('sin', y), uf('cos', y), uf('sin', A), uf('cos', A); n, m = dot(O.r, O.r), dot(I.a, O.r)
        add = [sa.eq(s1 * c2 + c1 * s2), ca.eq(c1 * c2 - s1 * s2)]; circ = [(s1 * s1 + c1 * c1).eq(1), (s2 * s2 + c2 * c2).eq(1)]
        return [('weighted norm', (n * sa * sa).eq(s1 * s1 + s2 * s2 + 2 * s1 * s2 * c)), ('weighted cosine', (m * sa).eq(s1 + c * s2)),
                ('sine of the angle', (sa * sa).ne(0), [(sa * sa + ca * ca).eq(1), ca.eq(c), c >= 0, c <= 1 - EPS]),
                ('norm identity', (s1 * s1 + s2 * s2 + 2 * s1 * s2 * (c1 * c2 - s1 * s2)).eq((s1 * c2 + c1 * s2) * (s1 * c2 + c1 * s2)), circ),
                ('cosine identity', (s1 + (c1 * c2 - s1 * s2) * s2).eq(c2 * (s1 * c2 + c1 * s2)), circ),
                ('cosine term', (2 * s1 * s2 * c).eq(2 * s1 * s2 * (c1 * c2 - s1 * s2)), [c.eq(c1 * c2 - s1 * s2)]), ('squared sine', (sa * sa).eq((s1 * c2 + c1 * s2) * (s1 * c2 + c1 * s2)), [sa.eq(s1 * c2 + c1 * s2)]),
                ('norm times squared sine', (n * sa * sa).eq(sa * sa), ['weighted norm', 'norm identity', 'cosine term', 'squared sine']),
                ('unit', n.eq(1), ['norm times squared sine', 'sine of the angle']),
                ('turned by the fraction t of the angle', m.eq(c2), ['weighted cosine', 'cosine identity', 'sine of the angle', ca.eq(c)] + add)]
    C('slerp_' + nm, 'quat a, quat b, float t', 'r = slerp(a, b, t);', 'quat r', ens, lambda I, w=wide: w(I) + [And(R.of(0) <= I.t, I.t <= 1)], setup=setup(sign), gen=g, tol=1e-3)
    C('slerp_ends_' + nm, 'quat a, quat b', 'r = slerp(a, b, 0.0f); s = slerp(a, b, 1.0f);', 'quat r, quat s', lambda I, O, sign=sign: veq('first at 0', O.r, I.a) + veq('second at 1, up to sign', O.s, vscale(I.b, R.of(sign))), lambda I, side=side: [unit(I.a), unit(I.b), side(I)],
      setup=setup(sign), gen=lambda r, g=g: {k: v for k, v in g(r).items() if k != 't'}, tol=1e-3)
    def near(I, O, sign=sign, cosv=cosv):
        n = dot(O.r, O.r)
        return [('norm', n.eq(1 - 2 * I.t * (1 - I.t) * (1 - cosv(I)))), ('unit up to 2^-24', And(n <= 1, n >= 1 - EPS * Fraction(1, 2)), ['norm', cosv(I) > 1 - EPS, cosv(I) <= 1, R.of(0) <= I.t, I.t <= 1])] + veq('interpolates linearly between quaternions that differ by rounding', O.r, [x + (sign * y - x) * I.t for x, y in zip(I.a, I.b)])
    C('slerp_close_' + nm, 'quat a, quat b, float t', 'r = slerp(a, b, t);', 'quat r', near, lambda I, side=side, cosv=cosv: [unit(I.a), unit(I.b), side(I), cosv(I) > 1 - EPS, And(R.of(0) <= I.t, I.t <= 1)], tol=1e-3,
      gen=lambda r, sign=sign: (lambda q: dict(a=q, b=[sign * x for x in q], t=r.random()))(guni('a')(r)['a']))
CONTRACTS = out
