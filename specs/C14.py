"""C14: triangle against axis-aligned box"""
from specs.common import *
INCLUDES = ['math/vector.hpp', 'math/aabb.hpp']
SOURCES = ['source/aabb.cpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
z, o = R.of(0), R.of(1)
def axes(v):
    f = [vsub(v[1], v[0]), vsub(v[2], v[1]), vsub(v[0], v[2])]
    e = [[o if i == k else z for i in range(3)] for k in range(3)]
    for k in range(3):
        for j in range(3): yield 'cross product of box axis %s and edge %d' % ('xyz'[k], j), cross(e[k], f[j])
    for k in range(3): yield 'box axis ' + 'xyz'[k], e[k]
    yield 'triangle normal', cross(f[0], f[1])
def separates(L, v, ext):
    r = ext[0] * rabs(L[0]) + ext[1] * rabs(L[1]) + ext[2] * rabs(L[2]); t = [dot(L, x) for x in v]
    return Or(And(*[x > r for x in t]), And(*[x < -r for x in t]))
def tri(I): return [vsub(q[:3], I.c[:3]) for q in (I.p0, I.p1, I.p2)]
def gen(r):
    d = {k: [r.choice([-2.0, -1.0, 0.0, 1.0, 2.0, r.uniform(-2, 2)]) for _ in range(4)] for k in ('p0', 'p1', 'p2', 'c')}; d['e'] = [r.choice([0.5, 1.0, r.uniform(0.1, 1)]) for _ in range(4)]
    return d
INS = 'f32x4 c, f32x4 e, f32x4 p0, f32x4 p1, f32x4 p2'
req = lambda I: [I.e[i] >= 0 for i in range(3)]
out = []
def C(name, ins, body, outs, ens, requires=req, **k): return Contract(name, ins, body, outs, ens, requires=requires, sem='real', gen=k.pop('gen', gen), tol=1e-5, timeout=k.pop('timeout', 60), **k)
def ens(I, O):
    v = tri(I); sep = [(n, separates(L, v, I.e)) for n, L in axes(v)]
    return [('an overlap is never separated by the ' + n, Implies(O.r, Not(s))) for n, s in sep] + [('a rejected triangle is separated by one of the thirteen axes', Or(O.r, *[s for _, s in sep]))]
out.append(C('separating_axes', INS, 'r = isAabbIntersected(c, e, Triangle(p0, p1, p2));', 'bool r', ens))
# the geometric consequence: an axis that separates excludes every common point of box and triangle
def V(n): return R(rvar(n))
def lems(I, O):
    L = [V('L%d' % i) for i in range(3)]; ext = [V('E%d' % i) for i in range(3)]; t = [V('T%d' % i) for i in range(3)]; w = [V('W%d' % i) for i in range(3)]; q = [V('Q%d' % i) for i in range(3)]
    r = ext[0] * rabs(L[0]) + ext[1] * rabs(L[1]) + ext[2] * rabs(L[2])
    l1 = ('a point of the box projects within the radius', Implies(And(*[And(q[i] <= ext[i], -ext[i] <= q[i]) for i in range(3)]), And(dot(L, q) <= r, dot(L, q) >= -r)))
    l2 = ('a convex combination of numbers above a bound stays above it', Implies(And(*[x >= 0 for x in w], (w[0] + w[1] + w[2]).eq(1), *[x > r for x in t]), w[0] * t[0] + w[1] * t[1] + w[2] * t[2] > r))
    l3 = ('a convex combination of numbers below a bound stays below it', Implies(And(*[x >= 0 for x in w], (w[0] + w[1] + w[2]).eq(1), *[x < -r for x in t]), w[0] * t[0] + w[1] * t[1] + w[2] * t[2] < -r))
    return [l + ([],) for l in (l1, l2, l3)]
out[0].lemmas = lems
CONTRACTS = out
