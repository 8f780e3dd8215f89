"""C05: matrix algebra, layout, conversions"""
from specs.mat import *
INCLUDES = ['math/vector.hpp', 'math/matrix.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
def C(name, ins, body, outs, ens, req=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem=k.pop('sem', 'ieee'), **k)
TYPES = {'float2x2': (2, 2, 'float2'), 'float3x3': (3, 3, 'float3'), 'float4x3': (4, 3, 'float3'), 'float4x4': (4, 4, 'float4'), 'f32x4x4': (4, 4, 'f32x4')}
SQ = {'float2x2': 2, 'float3x3': 3, 'float4x4': 4, 'f32x4x4': 4}
OPS = {'add': ('+', FAdd), 'sub': ('-', FSub), 'mul': ('*', FMul), 'div': ('/', FDiv)}
FC = lambda x: fc(float(x), 'f32')
out = []
def mapm(f, m): return [[f(x) for x in c] for c in m]
for t, (nc, nr, vt) in TYPES.items():
    simd = t[:3] == 'f32'
    for nm, (o, f) in OPS.items():
        out.append(C('%s_%s_scalar' % (t, nm), '%s m, float n' % t, 'r = m %s n; c = m; c %s= n;' % (o, o), '%s r, %s c' % (t, t),
          lambda I, O, f=f: msame('elementwise', O.r, mapm(lambda x: f(x, I.n), I.m)) + msame('compound', O.c, mapm(lambda x: f(x, I.n), I.m))))
        if not simd:
            out.append(C('%s_scalar_%s' % (t, nm), '%s m, float n' % t, 'r = n %s m;' % o, '%s r' % t, lambda I, O, f=f: msame('elementwise', O.r, mapm(lambda x: f(I.n, x), I.m))))
    # construction from rows, columns, a single value; column access
    args = ', '.join('e[%d]' % (r * nc + c) for r in range(nr) for c in range(nc))
    bycol = simd   # the SIMD constructor takes the same row-wise order
    out.append(C('%s_construct' % t, 'float[%d] e, %s[%d] v, float n' % (nc * nr, vt, nc), 'r = %s(%s); c = %s(%s); f = %s(n);' % (t, args, t, ', '.join('v[%d]' % i for i in range(nc)), t),
      '%s r, %s c, %s f' % (t, t, t), lambda I, O, nc=nc, nr=nr: msame('rows', O.r, [[I.e[r * nc + c] for r in range(nr)] for c in range(nc)]) + msame('columns', O.c, I.v) + msame('fill', O.f, [[I.n] * nr] * nc)))
    out.append(C('%s_index' % t, '%s m, uint32 k, %s v' % (t, vt), 'r = m[k]; c = m; c[k] = v;' , '%s r, %s c' % (vt, t),
      lambda I, O, nc=nc, nr=nr: [('column read[%d]' % r, And(*[Implies(Eq(I.k, bv(c, 32)), fsame(O.r[r], I.m[c][r])) for c in range(nc)])) for r in range(nr)] +
        [('column write[c%d r%d]' % (c, r), fsame(O.c[c][r], mkfite(Eq(I.k, bv(c, 32)), I.v[r], I.m[c][r]))) for c in range(nc) for r in range(nr)],
      lambda I, nc=nc: [ULt(I.k, bv(nc, 32))], variants=['sse2', 'debug'], gen=lambda r, nc=nc: dict(k=r.randrange(nc))))
    eqf = (lambda x, y: FEq(x, y)) if simd else (lambda x, y: Eq(fbits(x), fbits(y)))
    out.append(C('%s_compare' % t, '%s a, %s b' % (t, t), 'e = a == b; n = a != b;', 'bool e, bool n',
      lambda I, O, eqf=eqf: [('equal', iff(O.e, And(*[eqf(x, y) for p, q in zip(I.a, I.b) for x, y in zip(p, q)]))), ('not equal', iff(O.n, Not(And(*[eqf(x, y) for p, q in zip(I.a, I.b) for x, y in zip(p, q)]))))]))
    ks = [('zero', 0), ('one', 1), ('minusOne', -1)]
    out.append(C('%s_constants' % t, '', ' '.join('k%d = %s::%s;' % (i, t, k) for i, (k, _) in enumerate(ks)) + ' id = %s::identity;' % t, ', '.join('%s k%d' % (t, i) for i in range(3)) + ', %s id' % t,
      lambda I, O, ks=ks, nc=nc, nr=nr: [x for i, (k, v) in enumerate(ks) for x in msame(k, O['k%d' % i], [[FC(v)] * nr] * nc)] + msame('identity', O.id, [[FC(1 if c == r else 0) for r in range(nr)] for c in range(nc)])))
def const(v): return FC(v)
Z4 = [FC(0)] * 4
# conversions
for a, (nc, nr, _) in TYPES.items():
    for b, (mc, mr, _) in TYPES.items():
        if a == b or mc > nc or mr > nr: continue
        if a == 'float4x4' and b == 'f32x4x4': continue
        if b == 'f32x4x4': continue
        out.append(C('%s_to_%s' % (a, b), '%s m' % a, 'r = (%s)m;' % b, '%s r' % b, lambda I, O, mc=mc, mr=mr: msame('submatrix', O.r, [c[:mr] for c in I.m[:mc]])))
for t, vt in (('float4x4', 'float4'), ('f32x4x4', 'f32x4')):
    out.append(C('%s_from_4x3' % t, 'float4x3 m, %s w' % vt, 'r = %s(m, w); z = %s(m);' % (t, t), '%s r, %s z' % (t, t), lambda I, O: msame('last row', O.r, [c + [I.w[i]] for i, c in enumerate(I.m)]) + msame('zero last row', O.z, [c + [FC(0)] for c in I.m])))
    out.append(C('%s_from_3x3' % t, 'float3x3 m, %s v, %s w' % (vt, vt), 'r = %s(m, v, w); z = %s(m); y = %s(m, v);' % (t, t, t), '%s r, %s z, %s y' % (t, t, t),
      lambda I, O: msame('last column and row', O.r, [c + [I.w[i]] for i, c in enumerate(I.m)] + [I.v]) + msame('zero last column and row', O.z, [c + [FC(0)] for c in I.m] + [Z4]) + msame('last column', O.y, [c + [FC(0)] for c in I.m] + [I.v])))
out.append(C('f32x4x4_from_float4x4', 'float4x4 m', 'struct alignas(16) P { float pad; float4x4 m; }; P p; p.m = m; r = f32x4x4(p.m); s = (f32x4x4)m;', 'f32x4x4 r, f32x4x4 s', lambda I, O: msame('converted from any address', O.r, I.m) + msame('converted', O.s, I.m)))
out.append(C('f32x4x4_three_columns', 'f32x4 a, f32x4 b, f32x4 c', 'r = f32x4x4(a, b, c);', 'f32x4x4 r', lambda I, O: msame('third column repeated', O.r, [I.a, I.b, I.c, I.c])))
# products
for t, n in SQ.items():
    vt = TYPES[t][2]
    out.append(C('%s_product' % t, '%s a, %s b' % (t, t), 'r = a * b; c = a; c *= b; d = a; d *= d;', '%s r, %s c, %s d' % (t, t, t), lambda I, O: meq('product', O.r, mulm(I.a, I.b)) + meq('compound product', O.c, mulm(I.a, I.b)) + meq('square in place', O.d, mulm(I.a, I.a)), sem='real'))
    out.append(C('%s_vector' % t, '%s a, %s v' % (t, vt), 'r = a * v;', '%s r' % vt, lambda I, O: veq('matrix times vector', O.r, mulv(I.a, I.v)), sem='real'))
    out.append(C('%s_identity' % t, '%s a, %s v' % (t, vt), 'l = %s::identity * a; r = a * %s::identity; w = %s::identity * v;' % (t, t, t), '%s l, %s r, %s w' % (t, t, vt), lambda I, O: meq('left identity', O.l, I.a) + meq('right identity', O.r, I.a) + veq('identity times vector', O.w, I.v), sem='real'))
    if t != 'f32x4x4':
        out.append(C('%s_rowvector' % t, '%s a, %s v' % (t, vt), 'r = v * a;', '%s r' % vt, lambda I, O: veq('vector times matrix', O.r, [dot(I.v, c) for c in I.a]), sem='real'))
        out.append(C('%s_transpose' % t, '%s a' % t, 'r = transpose(a);', '%s r' % t, lambda I, O: msame('transpose', O.r, tr(I.a))))
out.append(C('float4x3_vector', 'float4x3 a, float4 v', 'r = a * v;', 'float3 r', lambda I, O: veq('matrix times vector', O.r, mulv(I.a, I.v)), sem='real'))
out.append(C('f32x4x4_transpose', 'f32x4x4 a', 'r = transpose4x4(a); s = transpose3x3(a);', 'f32x4x4 r, f32x4x4 s', lambda I, O: msame('transpose', O.r, tr(I.a)) + msame('transpose of the 3x3 part', sub(O.s, 3), tr(sub(I.a, 3))) + msame('last column kept', [O.s[3]], [I.a[3]])))
out.append(C('f32x4x4_multiply3x3', 'f32x4x4 a, f32x4x4 b, f32x4 v', 'r = multiply3x3(a, b); w = multiply3x3(a, v);', 'f32x4x4 r, f32x4 w', lambda I, O: meq('3x3 product', sub(O.r, 3), mulm(sub(I.a, 3), sub(I.b, 3))) + veq('3x3 part times vector', O.w[:3], mulv(sub(I.a, 3), I.v[:3])), sem='real'))
out.append(C('plain_simd_agree', 'float4x4 a, float4x4 b, float4 v', 'p = a * b; q = (float4x4)(f32x4x4(a) * f32x4x4(b)); x = a * v; y = (float4)(f32x4x4(a) * f32x4(v));', 'float4x4 p, float4x4 q, float4 x, float4 y', lambda I, O: meq('products agree', O.q, O.p) + veq('vector products agree', O.y, O.x), sem='real'))
CONTRACTS = out
