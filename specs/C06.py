"""C06: inverse"""
from specs.mat import *
INCLUDES = ['math/vector.hpp', 'math/matrix.hpp']
VARIANTS = ['sse2', 'avx2']
out = []
for t, n, f in (('float2x2', 2, 'inverse'), ('float3x3', 3, 'inverse'), ('float4x4', 4, 'inverse'), ('f32x4x4', 4, 'inverse4x4')):
    out.append(Contract(t + '_inverse', t + ' m', 'i = %s(m);' % f, t + ' i',
      lambda I, O, n=n: meq('inverse(M) * M is the identity', mulm(O.i, I.m), ident(n)) + meq('M * inverse(M) is the identity', mulm(I.m, O.i), ident(n)),
      requires=lambda I: [det(I.m).ne(0)], sem='real', tol=1e-3, timeout=60))
out.append(Contract('inverse_agree', 'float4x4 m', 'p = inverse(m); s = (float4x4)inverse4x4(f32x4x4(m));', 'float4x4 p, float4x4 s', lambda I, O: meq('plain and SIMD inverse agree', O.s, O.p), requires=lambda I: [det(I.m).ne(0)], sem='real', tol=1e-3, timeout=60))
CONTRACTS = out
