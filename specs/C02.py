"""C02: float vectors act component-wise with exact IEEE-754 results"""
from specs.ivecs import *
INCLUDES = ['math/vector.hpp', 'math/angles.hpp']
VARIANTS = ['sse2', 'sse41', 'avx2']
PRELUDE = 'template<class T> static inline bool same(T& r, T& c) { return &r == &c; }'
def C(name, ins, body, outs, ens, req=None, gen=None, **k): return Contract(name, ins, body, outs, ens, requires=req, sem='ieee', gen=gen, **k)
FT = ['float2', 'float3', 'float4', 'f32x4']
dimf = lambda t: 4 if t == 'f32x4' else int(t[-1])
um = lambda t: 'u32x4' if t == 'f32x4' else 'uint%d' % dimf(t)
def comp(nm, xs, ys, e=fsame): return [('%s component %d' % (nm, i), e(x, y)) for i, (x, y) in enumerate(zip(xs, ys))]
OPS = {'+': FAdd, '-': FSub, '*': FMul, '/': FDiv}
nn = lambda *vs: [Not(FIsNan(x)) for v in vs for x in v]
F0 = fc(0.0)
def gnn(n, *ks):
    def g(r):
        return {k: [r.choice([0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), r.uniform(-3, 3)]) for _ in range(n)] for k in ks}
    return g
def ops(t):
    n = dimf(t); out = []
    for o, f in OPS.items():
        out.append(C('%s_%s' % (t, NM[o]), '%s a, %s b, float n' % (t, t), 'r = a %s b; p = a %s n; q = n %s a; %s c = a; s = same(c %s= b, c); u = c; c = a; k = same(c %s= n, c); v = c;' % (o, o, o, t, o, o),
          '%s r, %s p, %s q, %s u, %s v, bool s, bool k' % (t, t, t, t, t),
          (lambda f: lambda I, O: comp('vv', O.r, [f(x, y) for x, y in zip(I.a, I.b)]) + comp('vs', O.p, [f(x, I.n) for x in I.a]) + comp('sv', O.q, [f(I.n, x) for x in I.a]) +
             comp('compound', O.u, [f(x, y) for x, y in zip(I.a, I.b)]) + comp('compound scalar', O.v, [f(x, I.n) for x in I.a]) + [('returns itself', And(O.s, O.k))])(f)))
    out.append(C(t + '_neg', t + ' a, float n', 'r = -a; p = a; p = n; q = p;', '%s r, %s q, %s p' % (t, t, t), lambda I, O: comp('-', O.r, [FNeg(x) for x in I.a]) + comp('assign scalar', O.q, [I.n] * n)))
    CM = {'<': FLt, '>': lambda a, b: FLt(b, a), '<=': FLe, '>=': lambda a, b: FLe(b, a)}
    u = um(t)
    for o, f in CM.items():
        out.append(C('%s_%s' % (t, NM[o]), '%s a, %s b, float n' % (t, t), 'r = a %s b; p = a %s n; q = n %s b;' % (o, o, o), '%s r, %s p, %s q' % (u, u, u),
          (lambda f: lambda I, O: comp('vv', O.r, [mask(f(x, y)) for x, y in zip(I.a, I.b)], Eq) + comp('vs', O.p, [mask(f(x, I.n)) for x in I.a], Eq) + comp('sv', O.q, [mask(f(I.n, y)) for y in I.b], Eq))(f)))
    ae = lambda xs, ys: And(*[FEq(x, y) for x, y in zip(xs, ys)])
    out.append(C(t + '_eq', '%s a, %s b, float n' % (t, t), 'e = a == b; d = a != b; f = a == n; g = a != n; h = n == b; k = n != b;', 'bool e, bool d, bool f, bool g, bool h, bool k',
      lambda I, O: [('==', iff(O.e, ae(I.a, I.b))), ('!=', iff(O.d, Not(ae(I.a, I.b)))), ('== scalar', iff(O.f, ae(I.a, [I.n] * n))), ('!= scalar', iff(O.g, Not(ae(I.a, [I.n] * n)))),
                    ('scalar ==', iff(O.h, ae(I.b, [I.n] * n))), ('scalar !=', iff(O.k, Not(ae(I.b, [I.n] * n))))]))
    out.append(C(t + '_equal', '%s a, %s b' % (t, t), 'e = equal(a, b); d = notEqual(a, b);', '%s e, %s d' % (u, u),
      lambda I, O: comp('equal', O.e, [mask(FEq(x, y)) for x, y in zip(I.a, I.b)], Eq) + comp('notEqual', O.d, [mask(Not(FEq(x, y))) for x, y in zip(I.a, I.b)], Eq)))
    same_ = lambda I: And(*[Eq(fbits(x), fbits(y)) for x, y in zip(I.a, I.b)])
    out.append(C(t + '_isBinaryLess', '%s a, %s b' % (t, t), 'r = isBinaryLess(a, b); p = isBinaryLess(b, a);', 'bool r, bool p',
      lambda I, O: [('irreflexive and total', Implies(same_(I), And(Not(O.r), Not(O.p)))), ('antisymmetric', Implies(Not(same_(I)), Xor(O.r, O.p)))]))
    return out
def funcs(t):
    n = dimf(t); out = []
    mn = lambda a, b: mkfite(FLt(b, a), b, a); mx = lambda a, b: mkfite(FLt(a, b), b, a)
    one = lambda r, *xs: Or(*[fsame(r, x) for x in xs])
    out.append(C(t + '_minmax', '%s a, %s b' % (t, t), 'r = min(a, b); q = max(a, b);', '%s r, %s q' % (t, t),
      lambda I, O: comp('min', O.r, [mn(x, y) for x, y in zip(I.a, I.b)], FEq) + comp('max', O.q, [mx(x, y) for x, y in zip(I.a, I.b)], FEq) +
        [('min picks an operand %d' % i, one(r, x, y)) for i, (r, x, y) in enumerate(zip(O.r, I.a, I.b))] + [('max picks an operand %d' % i, one(r, x, y)) for i, (r, x, y) in enumerate(zip(O.q, I.a, I.b))],
      lambda I: nn(I.a, I.b), gnn(n, 'a', 'b')))
    out.append(C(t + '_clamp', '%s v, %s a, %s b' % (t, t, t), 'r = clamp(v, a, b);', t + ' r', lambda I, O: comp('clamp', O.r, [mx(mn(v, y), x) for v, x, y in zip(I.v, I.a, I.b)], FEq),
      lambda I: nn(I.v, I.a, I.b) + [FLe(x, y) for x, y in zip(I.a, I.b)], lambda r: dict(v=[r.choice([0.0, -0.0, 5.0, -5.0, r.uniform(-4, 4)]) for _ in range(n)], a=[-r.uniform(0, 3) for _ in range(n)], b=[r.uniform(-0.0, 3) for _ in range(n)])))
    if t != 'f32x4':
        out.append(C(t + '_minmax3', '%s a, %s b, %s c' % (t, t, t), 'r = min(a, b, c); q = max(a, b, c);', '%s r, %s q' % (t, t),
          lambda I, O: comp('min', O.r, [mn(mn(x, y), z) for x, y, z in zip(I.a, I.b, I.c)], FEq) + comp('max', O.q, [mx(mx(x, y), z) for x, y, z in zip(I.a, I.b, I.c)], FEq), lambda I: nn(I.a, I.b, I.c), gnn(n, 'a', 'b', 'c')))
    out.append(C(t + '_fma', '%s a, %s b, %s c' % (t, t, t), 'r = fma(a, b, c);', t + ' r', lambda I, O: [('fma component %d' % i, Or(fsame(r, FFma(a, b, c)), fsame(r, FAdd(FMul(a, b), c)))) for i, (r, a, b, c) in enumerate(zip(O.r, I.a, I.b, I.c))]))
    sg = lambda x: mkfite(fsignbit(x), fc(-1.0), fc(1.0))
    out.append(C(t + '_abs', t + ' a', 'r = abs(a); q = sqrt(a); s = sign(a); b = signBits(a);', '%s r, %s q, %s s, int32 b' % (t, t, t),
      lambda I, O: comp('abs', O.r, [FAbs(x) for x in I.a]) + comp('sqrt', O.q, [FSqrt(x) for x in I.a]) + comp('sign', O.s, [sg(x) for x in I.a]) +
        [('sign bits', Eq(O.b, fold(BvOr, [Ite(fsignbit(x), bv(1 << i, 32), bv(0, 32)) for i, x in enumerate(I.a)])))]))
    out.append(C(t + '_rounding', t + ' a', 'f = floor(a); c = ceil(a); k = trunc(a); r = round(a);', '%s f, %s c, %s k, %s r' % (t, t, t, t),
      lambda I, O: comp('floor', O.f, [FRound(x, 'floor') for x in I.a]) + comp('ceil', O.c, [FRound(x, 'ceil') for x in I.a]) + comp('trunc', O.k, [FRound(x, 'trunc') for x in I.a]) +
        [('nearest integer %d' % i, Or(fsame(r, FRound(x, 'rne')), fsame(r, FRound(x, 'rna')))) for i, (r, x) in enumerate(zip(O.r, I.a))], lambda I: nn(I.a), gnn(n, 'a')))
    return out
LIB1 = ['exp', 'exp2', 'expm1', 'log', 'log10', 'log2', 'log1p', 'cbrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']
def lib(t):
    n = dimf(t); out = []
    for f in LIB1: out.append(C('%s_%s' % (t, f), t + ' a', 'r = %s(a);' % f, t + ' r', (lambda f: lambda I, O: comp(f, O.r, [UF(f, [x], 'f32') for x in I.a]))(f)))
    out.append(C('%s_pow' % t, '%s a, %s b' % (t, t), 'r = pow(a, b); q = atan(a, b); m = mod(a, b);', '%s r, %s q, %s m' % (t, t, t),
       lambda I, O: comp('pow', O.r, [UF('pow', [x, y], 'f32') for x, y in zip(I.a, I.b)]) + comp('atan2', O.q, [UF('atan2', [x, y], 'f32') for x, y in zip(I.a, I.b)]) + comp('fmod', O.m, [FRem(x, y) for x, y in zip(I.a, I.b)])))
    return out
def fits(x, sgn=True): return mk('fp_fits', (x,), 'b', (32, sgn))
def build(t):
    n = dimf(t); out = []
    L = ['x', 'y', 'z', 'w'][:n]
    out.append(C(t + '_ctor', ', '.join('float ' + l for l in L), 'r = %s(%s); q = %s(x); z0 = %s();' % (t, ', '.join(L), t, t), '%s r, %s q, %s z0' % (t, t, t),
      lambda I, O: comp('components', O.r, [I[l] for l in L], Eq) + comp('broadcast', O.q, [I.x] * n, Eq) + comp('default', O.z0, [F0] * n, Eq)))
    out.append(C(t + '_index', '%s a, uint64 i, float v' % t, 'const %s& ca = a; r = ca[i]; %s c = a; p = c[i]; c[i] = v; q = c;' % (t, t), 'float r, float p, %s q' % t,
      lambda I, O: [x for k in range(n) for x in [('read %d' % k, Implies(Eq(I.i, bv(k, 64)), And(Eq(O.r, I.a[k]), Eq(O.p, I.a[k])))),
         ('write %d' % k, Implies(Eq(I.i, bv(k, 64)), And(*[Eq(O.q[j], I.v if j == k else I.a[j]) for j in range(n)])))]],
      lambda I: [ULt(I.i, bv(n, 64))], gen=lambda r: dict(i=r.randrange(n))))
    if t == 'f32x4':
        out.append(C(t + '_parts', 'f32x4 a, float4 d, float3 e, float2 f, float w', 'r4 = f32x4(d); r3 = f32x4(e); r2 = f32x4(f); rw = f32x4(a, w); r = f32x4(w, d.y, e.z); p4 = (float4)a; p3 = (float3)a; p2 = (float2)a; p = (float)a;',
          'f32x4 r4, f32x4 r3, f32x4 r2, f32x4 rw, f32x4 r, float4 p4, float3 p3, float2 p2, float p',
          lambda I, O: comp('from 4', O.r4, I.d, Eq) + comp('from 3', O.r3[:3], I.e, Eq) + comp('from 2', O.r2[:2], I.f, Eq) + comp('with w', O.rw, I.a[:3] + [I.w], Eq) + comp('three scalars', O.r[:3], [I.w, I.d[1], I.e[2]], Eq) +
            comp('to 4', O.p4, I.a, Eq) + comp('to 3', O.p3, I.a, Eq) + comp('to 2', O.p2, I.a, Eq) + [('first', Eq(O.p, I.a[0]))]))
        out.append(C(t + '_memory', 'f32x4 a, float[4] d', 'r = f32x4(d); f32x4 c; c.loadAligned(d); l = c; f32x4 k = a; k.store(s1); k.storeAligned(s2);', 'f32x4 r, f32x4 l, float[4] s1, float[4] s2',
          lambda I, O: comp('load', O.r, I.d, Eq) + comp('load aligned', O.l, I.d, Eq) + comp('store', O.s1, I.a, Eq) + comp('store aligned', O.s2, I.a, Eq)))
        out.append(C(t + '_access', 'f32x4 a, float v', 'x = a.getX(); y = a.getY(); z = a.getZ(); w = a.getW(); f32x4 c = a; c.setX(v); sx = c; c = a; c.setY(v); sy = c; c = a; c.setZ(v); sz = c; c = a; c.setW(v); sw = c; c = a; c.fixW(); fw = c;',
          ', '.join('float ' + k for k in 'xyzw') + ', ' + ', '.join('f32x4 ' + k for k in ('sx', 'sy', 'sz', 'sw', 'fw')),
          lambda I, O: comp('get', [O.x, O.y, O.z, O.w], I.a, Eq) + [x for k, nm in enumerate(('sx', 'sy', 'sz', 'sw')) for x in comp(nm, O[nm], [I.v if j == k else I.a[j] for j in range(4)], Eq)] + comp('fixW', O.fw, I.a[:3] + [I.a[2]], Eq)))
        out.append(C(t + '_reinterpret', 'f32x4 a, u32x4 u, i32x4 i', 'p = floatAsUint(a); q = floatAsInt(a); r = uintAsFloat(u); s = intAsFloat(i);', 'u32x4 p, i32x4 q, f32x4 r, f32x4 s',
          lambda I, O: comp('floatAsUint', O.p, [fbits(x) for x in I.a], Eq) + comp('floatAsInt', O.q, [fbits(x) for x in I.a], Eq) + comp('uintAsFloat', [fbits(x) for x in O.r], I.u, Eq) + comp('intAsFloat', [fbits(x) for x in O.s], I.i, Eq)))
        out.append(C(t + '_from_int', 'i32x4 i, u32x4 u', 'r = f32x4(i); q = f32x4(u);', 'f32x4 r, f32x4 q', lambda I, O: comp('from signed', O.r, [IToF(x, 'f32', True) for x in I.i]) + comp('from unsigned', O.q, [IToF(x, 'f32', False) for x in I.u]), timeout=60))
        out.append(C(t + '_to_int', 'f32x4 a', 'r = (i32x4)a;', 'i32x4 r', lambda I, O: comp('to signed', O.r, [FToI(x, 32, True) for x in I.a], Eq), lambda I: [fits(x) for x in I.a], gen=gfit(4)))
        out.append(C(t + '_to_uint', 'f32x4 a', 'r = (u32x4)a;', 'u32x4 r', lambda I, O: comp('to unsigned', O.r, [FToI(x, 32, False) for x in I.a], Eq), lambda I: [fits(x, False) for x in I.a], gen=gfit(4, True), timeout=60))
    else:
        for k in range(2, n): out.append(C('%s_to%d' % (t, k), t + ' a', 'r = (float%d)a;' % k, 'float%d r' % k, lambda I, O: comp('prefix', O.r, I.a, Eq)))
        out.append(C(t + '_first', t + ' a', '%s c = a; r = (float)c;' % t, 'float r', lambda I, O: [('first component', Eq(O.r, I.a[0]))]))
        def mixed(parts):
            ins = []; nm = []
            for j, p in enumerate(parts): ins.append(('float%d' % p if p > 1 else 'float') + ' p%d' % j); nm.append('p%d' % j)
            out.append(C('%s_ctor_%s' % (t, ''.join(map(str, parts))), ', '.join(ins), 'r = %s(%s);' % (t, ', '.join(nm)), t + ' r',
              lambda I, O: comp('components', O.r, [x for j, p in enumerate(parts) for x in (I['p%d' % j] if p > 1 else [I['p%d' % j]])], Eq)))
        for parts in {2: [], 3: [(2, 1), (1, 2)], 4: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2), (3, 1), (1, 3)]}[n]: mixed(parts)
        out.append(C(t + '_from_int', 'int%d i, uint%d u' % (n, n), 'r = %s(i); q = %s(u);' % (t, t), '%s r, %s q' % (t, t), lambda I, O: comp('from signed', O.r, [IToF(x, 'f32', True) for x in I.i]) + comp('from unsigned', O.q, [IToF(x, 'f32', False) for x in I.u])))
        for sgn, b in ((True, 'int'), (False, 'uint')):
            for k in range(2, n + 1):
                out.append(C('%s_to_%s%d' % (t, b, k), t + ' a', 'r = (%s%d)a;' % (b, k), '%s%d r' % (b, k), (lambda sgn: lambda I, O: comp('truncate', O.r, [FToI(x, 32, sgn) for x in I.a], Eq))(sgn), (lambda sgn: lambda I: [fits(x, sgn) for x in I.a])(sgn), gen=gfit(n, not sgn)))
    return out
def gfit(n, uns=False): return lambda r: dict(a=[r.choice([0.0, 1.0, 2.5, r.uniform(0, 4.2e9 if uns else 2.1e9), r.uniform(0, 100)]) * (1 if uns else r.choice([1, -1])) for _ in range(n)])
def consts():
    import struct
    out = []
    FMIN = 2.0 ** -126; FMAX = (2 - 2.0 ** -23) * 2.0 ** 127
    for t in FT:
        n = dimf(t)
        k = dict(zero=0.0, one=1.0, minusOne=-1.0, min=FMIN, minusMin=-FMIN, max=FMAX, minusMax=-FMAX, epsilon=2.0 ** -23, inf=float('inf'), minusInf=float('-inf'), nan=float('nan'))
        k = {a: [b] * n for a, b in k.items()}
        if n >= 2 and t != 'float4': 
            k.update(left=[-1, 0, 0, 0][:n], right=[1, 0, 0, 0][:n], bottom=[0, -1, 0, 0][:n], top=[0, 1, 0, 0][:n])
            if n > 2: k.update(back=[0, 0, -1, 0][:n], front=[0, 0, 1, 0][:n])
        out.append(C(t + '_constants', '', ' '.join('c_%s = %s::%s;' % (x, t, x) for x in k), ', '.join('%s c_%s' % (t, x) for x in k),
          (lambda k: lambda I, O: [y for x, v in k.items() for y in comp(x, O['c_' + x], [fbits_c(f2bits(float(c), 'f32')) for c in v])])(k)))
    return out
def contracts():
    out = []
    for t in FT: out += ops(t) + funcs(t) + build(t)
    for t in FT[:3]: out += lib(t)
    return out + consts()
