"""C03: boolean masks, select, any/all predicates, swizzles"""
from specs.ivecs import *
INCLUDES = ['math/vector.hpp']
VARIANTS = ['sse2', 'sse41', 'avx2']
def C(name, ins, body, outs, ens, req=None, gen=None): return Contract(name, ins, body, outs, ens, requires=req, sem='bits', gen=gen)
def comp(nm, xs, ys): return [('%s component %d' % (nm, i), Eq(x, y)) for i, (x, y) in enumerate(zip(xs, ys))]
canon = lambda *vs: [Or(Eq(x, Z), Eq(x, M1)) for v in vs for x in v]
def gm(n, *ks): return lambda r: {k: [r.choice([0, 0xffffffff]) for _ in range(n)] for k in ks}
def isT(x): return Eq(x, M1)
def bits(v):
    r = Z
    for i, x in enumerate(v): r = BvOr(r, Ite(isT(x), bv(1 << i, 32), Z))
    return r
def preds(u):
    n = dim(u)
    out = [C(u + '_predicates', u + ' c', 'g = getTrues(c); at = areAllTrue(c); af = areAllFalse(c); nt = areAnyTrue(c); nf = areAnyFalse(c);', 'int32 g, bool at, bool af, bool nt, bool nf',
      lambda I, O: [('getTrues', Eq(O.g, bits(I.c))), ('areAllTrue', iff(O.at, And(*[isT(x) for x in I.c]))), ('areAllFalse', iff(O.af, And(*[Not(isT(x)) for x in I.c]))),
                    ('areAnyTrue', iff(O.nt, Or(*[isT(x) for x in I.c]))), ('areAnyFalse', iff(O.nf, Or(*[Not(isT(x)) for x in I.c])))],
      lambda I: canon(I.c), gm(n, 'c')),
      C(u + '_mask_logic', '%s c, %s d' % (u, u), 'a = c & d; o = c | d; x = c ^ d; n = ~c; e = equal(c, d); f = notEqual(c, d);' + (' b = bic(c, d);' if u == 'u32x4' else ''),
        ', '.join('%s %s' % (u, k) for k in 'aoxnef') + (', u32x4 b' if u == 'u32x4' else ''),
        lambda I, O: [y for k, g in (('a', lambda p, q: And(p, q)), ('o', lambda p, q: Or(p, q)), ('x', lambda p, q: Xor(p, q)), ('n', lambda p, q: Not(p)), ('e', lambda p, q: Iff(p, q)), ('f', lambda p, q: Xor(p, q))) + ((('b', lambda p, q: And(p, Not(q))),) if u == 'u32x4' else ())
                      for y in comp({'a': 'and', 'o': 'or', 'x': 'xor', 'n': 'not', 'e': 'equal', 'f': 'notEqual', 'b': 'and not'}[k], O[k], [mask(g(isT(p), isT(q))) for p, q in zip(I.c, I.d)])],
        lambda I: canon(I.c, I.d), gm(n, 'c', 'd'))]
    return out
def sel(t, u):
    n = dim(u)
    return C(t + '_select', '%s c, %s t, %s f' % (u, t, t), 'r = select(c, t, f);', t + ' r', lambda I, O: comp('select', O.r, [Ite(isT(c), t, f) for c, t, f in zip(I.c, I.t, I.f)]), lambda I: canon(I.c), gm(n, 'c'))
def swz(t):
    out = []
    for x in range(4):
        body = ' '.join('r[%d] = a.swizzle<%d, %d, %d, %d>();' % (16 * y + 4 * z + w, x, y, z, w) for y in range(4) for z in range(4) for w in range(4))
        out.append(C('%s_swizzle%d' % (t, x), t + ' a', body, '%s[64] r' % t,
          lambda I, O, x=x: [('swizzle<%d,%d,%d,%d>' % (x, y, z, w), And(*[Eq(O.r[16 * y + 4 * z + w][i], I.a[k]) for i, k in enumerate((x, y, z, w))])) for y in range(4) for z in range(4) for w in range(4)]))
    out.append(C(t + '_splat', t + ' a', 'r[0] = a.splatX(); r[1] = a.splatY(); r[2] = a.splatZ(); r[3] = a.splatW();', '%s[4] r' % t, lambda I, O: [('splat %d' % k, And(*[Eq(v, I.a[k]) for v in O.r[k]])) for k in range(4)]))
    return out
def shared(t, n):
    """masks produced by comparisons are canonical and agree with the predicates"""
    u = 'u32x4' if 'x4' in t else 'uint%d' % n
    lt_ = FLt if t.startswith('f') else (SLt if t.startswith('i') else ULt)
    return C(t + '_compare_then_any', '%s a, %s b' % (t, t), 'at = areAllTrue(a < b); nt = areAnyTrue(a < b); af = areAllFalse(a < b); nf = areAnyFalse(a < b); g = getTrues(a < b);', 'bool at, bool nt, bool af, bool nf, int32 g',
      lambda I, O: [('all', iff(O.at, And(*[lt_(x, y) for x, y in zip(I.a, I.b)]))), ('any', iff(O.nt, Or(*[lt_(x, y) for x, y in zip(I.a, I.b)]))), ('none', iff(O.af, Not(O.nt))), ('not all', iff(O.nf, Not(O.at)))] +
        [('bit %d' % k, iff(Eq(Extract(k, k, O.g), bv(1, 1)), lt_(x, y))) for k, (x, y) in enumerate(zip(I.a, I.b))] + [('no other bits', ULt(O.g, bv(1 << n, 32)))])
def contracts():
    out = []
    for u in ('uint2', 'uint3', 'uint4', 'u32x4'): out += preds(u)
    for n in (2, 3, 4):
        for b in ('float', 'int', 'uint'): out.append(sel('%s%d' % (b, n), 'uint%d' % n)); out.append(shared('%s%d' % (b, n), n))
    for t in ('f32x4', 'i32x4', 'u32x4'): out.append(sel(t, 'u32x4')); out += swz(t); out.append(shared(t, 4))
    return out
