"""C01: integer vectors act component-wise modulo 2^32"""
from specs.ivecs import *
INCLUDES = ['math/vector.hpp']
VARIANTS = ['sse2', 'sse41', 'avx2']
PRELUDE = 'template<class T> static inline bool same(T& r, T& c) { return &r == &c; }'
def C(name, ins, body, outs, ens, req=None, gen=None): return Contract(name, ins, body, outs, ens, requires=req, sem='bits', gen=gen)
def comp(nm, xs, ys): return [('%s component %d' % (nm, i), Eq(x, y)) for i, (x, y) in enumerate(zip(xs, ys))]
def binops(t):
    n = dim(t); s = sc(t); sg = signed_t(t); out = []
    for o in ['+', '-', '*', '/', '%', '&', '|', '^', '>>', '<<']:
        f = opf(o, sg); nm = t + '_' + NM[o]; sv = True
        ok = (lambda a, b: div_ok(a, b, sg)) if o in '/%' else ((lambda a, b: ULt(b, bv(32, 32))) if o in ('>>', '<<') else (lambda a, b: TRUE))
        g = (lambda key, m: (lambda r: {key: [r.randrange(32) for _ in range(m)] if m else r.randrange(32)})) if o in ('>>', '<<') else (lambda k, m: None)
        def mk_(form, ins, body, outs, A, B, chk, o=o, f=f, ok=ok, g=g, gk=None):
            out.append(C('%s_%s' % (nm, form), ins, body, outs,
              lambda I, O: [x for on in [p.split()[1] for p in outs.split(', ') if p.split()[0] == t] for x in comp(on, O[on], [f(a, b) for a, b in zip(A(I), B(I))])] + ([('returns itself', O.s)] if chk else []),
              (lambda I: [x for x in [ok(a, b) for a, b in zip(A(I), B(I))] if x is not TRUE]) if o in ('/', '%', '>>', '<<') else None, gk))
        va = lambda I: I.a; vb = lambda I: I.b; vn = lambda I: [I.n] * n
        tt = '%s a, %s b' % (t, t); ts = '%s a, %s n' % (t, s)
        mk_('vv', tt, 'r = a %s b; %s c = a; s = same(c %s= b, c); q = c;' % (o, t, o), '%s r, %s q, bool s' % (t, t), va, vb, True, gk=g('b', n))
        mk_('vs', ts, 'r = a %s n; %s c = a; s = same(c %s= n, c); q = c;' % (o, t, o), '%s r, %s q, bool s' % (t, t), va, vn, True, gk=g('n', 0))
        mk_('sv', ts, 'r = n %s a;' % o, '%s r' % t, vn, va, False, gk=g('a', n))
    return out
def unops(t):
    n = dim(t); s = sc(t); sg = signed_t(t)
    r = [C(t + '_not', t + ' a', 'r = !a; q = ~a;', '%s r, %s q' % (t, t), lambda I, O: comp('!', O.r, [Ite(Eq(x, Z), bv(1, 32), Z) for x in I.a]) + comp('~', O.q, [BvNot(x) for x in I.a]))]
    if sg: r.append(C(t + '_neg', t + ' a', 'r = -a;', t + ' r', lambda I, O: comp('-', O.r, [Neg(x) for x in I.a])))
    return r
def cmps(t):
    n = dim(t); s = sc(t); sg = signed_t(t); u = uvec(t); out = []
    for o in ['<', '>', '<=', '>=']:
        f = cmpf(o, sg)
        out.append(C('%s_%s' % (t, NM[o]), '%s a, %s b, %s n' % (t, t, s), 'r = a %s b; p = a %s n; q = n %s b;' % (o, o, o), '%s r, %s p, %s q' % (u, u, u),
          (lambda f: lambda I, O: comp('vv', O.r, [mask(f(x, y)) for x, y in zip(I.a, I.b)]) + comp('vs', O.p, [mask(f(x, I.n)) for x in I.a]) + comp('sv', O.q, [mask(f(I.n, y)) for y in I.b]))(f)))
    alleq = lambda xs, ys: And(*[Eq(x, y) for x, y in zip(xs, ys)])
    out.append(C(t + '_eq', '%s a, %s b, %s n' % (t, t, s), 'e = a == b; d = a != b; f = a == n; g = a != n; h = n == b; k = n != b;', 'bool e, bool d, bool f, bool g, bool h, bool k',
      lambda I, O: [('==', iff(O.e, alleq(I.a, I.b))), ('!=', iff(O.d, Not(alleq(I.a, I.b)))), ('== scalar', iff(O.f, alleq(I.a, [I.n] * n))), ('!= scalar', iff(O.g, Not(alleq(I.a, [I.n] * n)))),
                    ('scalar ==', iff(O.h, alleq(I.b, [I.n] * n))), ('scalar !=', iff(O.k, Not(alleq(I.b, [I.n] * n))))]))
    out.append(C(t + '_equal', '%s a, %s b' % (t, t), 'e = equal(a, b); d = notEqual(a, b);', '%s e, %s d' % (u, u),
      lambda I, O: comp('equal', O.e, [mask(Eq(x, y)) for x, y in zip(I.a, I.b)]) + comp('notEqual', O.d, [mask(Not(Eq(x, y))) for x, y in zip(I.a, I.b)])))
    # a strict total order used as a map key: byte-wise comparison
    def key(v): return fold(Concat, [Extract(8 * k + 7, 8 * k, x) for x in v for k in range(4)])
    def bl(I, O):
        if t in ('int2', 'uint2'):  # one 64-bit word, the second component is the more significant one
            K = (SLt if sg else ULt)(Concat(I.a[1], I.a[0]), Concat(I.b[1], I.b[0]))
        else: K = ULt(key(I.a), key(I.b))
        return [('order', iff(O.r, K))]
    out.append(C(t + '_isBinaryLess', '%s a, %s b' % (t, t), 'r = isBinaryLess(a, b); p = isBinaryLess(b, a);', 'bool r, bool p',
      lambda I, O: [('irreflexive and total', Implies(And(*[Eq(x, y) for x, y in zip(I.a, I.b)]), And(Not(O.r), Not(O.p)))), ('antisymmetric', Implies(Not(And(*[Eq(x, y) for x, y in zip(I.a, I.b)])), Xor(O.r, O.p)))]))
    return out
def minmax(t):
    n = dim(t); s = sc(t); sg = signed_t(t); mn = imin(sg); mx = imax(sg)
    out = [C(t + '_min', '%s a, %s b' % (t, t), 'r = min(a, b); q = max(a, b);', '%s r, %s q' % (t, t), lambda I, O: comp('min', O.r, [mn(x, y) for x, y in zip(I.a, I.b)]) + comp('max', O.q, [mx(x, y) for x, y in zip(I.a, I.b)])),
           C(t + '_clamp', '%s v, %s a, %s b' % (t, t, t), 'r = clamp(v, a, b);', t + ' r', lambda I, O: comp('clamp', O.r, [mx(mn(v, y), x) for v, x, y in zip(I.v, I.a, I.b)]),
             lambda I: [Not(lt(sg)(y, x)) for x, y in zip(I.a, I.b)], gen=lambda r: dict(zip('ab', zip(*[sorted([r.randrange(0, 1 << 31), r.randrange(0, 1 << 31)]) for _ in range(n)]))))]
    if t in SIMD:
        out.append(C(t + '_reduce', t + ' a', 'm3 = min3(a); x3 = max3(a); m4 = min4(a); x4 = max4(a); m = min(a); x = max(a);', ', '.join(s + ' ' + k for k in ('m3', 'x3', 'm4', 'x4', 'm', 'x')),
          lambda I, O: [('min3', Eq(O.m3, fold(mn, I.a[:3]))), ('max3', Eq(O.x3, fold(mx, I.a[:3]))), ('min4', Eq(O.m4, fold(mn, I.a))), ('max4', Eq(O.x4, fold(mx, I.a))), ('min', Eq(O.m, fold(mn, I.a))), ('max', Eq(O.x, fold(mx, I.a)))]))
    else:
        out.append(C(t + '_min3a', '%s a, %s b, %s c' % (t, t, t), 'r = min(a, b, c); q = max(a, b, c);', '%s r, %s q' % (t, t),
          lambda I, O: comp('min', O.r, [mn(mn(x, y), z) for x, y, z in zip(I.a, I.b, I.c)]) + comp('max', O.q, [mx(mx(x, y), z) for x, y, z in zip(I.a, I.b, I.c)])))
    return out
def build(t):
    n = dim(t); s = sc(t); b = base(t); out = []
    L = ['x', 'y', 'z', 'w'][:n]
    xs = ', '.join('%s %s' % (s, l) for l in L)
    seq = lambda I: [I[l] for l in L]
    out.append(C(t + '_ctor', xs, 'r = %s(%s); q = %s(x); z0 = %s(); p = r; p = y; m = p;' % (t, ', '.join(L), t, t), '%s r, %s q, %s z0, %s p, %s m' % (t, t, t, t, t),
      lambda I, O: comp('components', O.r, seq(I)) + comp('broadcast', O.q, [I.x] * n) + comp('default', O.z0, [Z] * n) + comp('assign scalar', O.m, [I.y] * n)))
    out.append(C(t + '_index', '%s a, uint64 i, %s v' % (t, s), 'const %s& ca = a; r = ca[i]; %s c = a; p = c[i]; c[i] = v; q = c;' % (t, t), '%s r, %s p, %s q' % (s, s, t),
      lambda I, O: [x for k in range(n) for x in [('read %d' % k, Implies(Eq(I.i, bv(k, 64)), And(Eq(O.r, I.a[k]), Eq(O.p, I.a[k])))),
         ('write %d' % k, Implies(Eq(I.i, bv(k, 64)), And(*[Eq(O.q[j], I.v if j == k else I.a[j]) for j in range(n)])))]],
      lambda I: [ULt(I.i, bv(n, 64))], gen=lambda r: dict(i=r.randrange(n))))
    if t not in SIMD:
        for k in range(2, n):
            out.append(C('%s_to%d' % (t, k), t + ' a', 'r = (%s%d)a;' % (b, k), '%s%d r' % (b, k), lambda I, O: comp('prefix', O.r, I.a)))
        out.append(C(t + '_first', t + ' a', '%s c = a; r = (%s)c;' % (t, s), s + ' r', lambda I, O: [('first component', Eq(O.r, I.a[0]))]))
        if b == 'int':
            out.append(C(t + '_unsigned', '%s a, uint%d u' % (t, n), 'r = (uint%d)a; q = %s(u); %s c = a; f = (uint32_t)c;' % (n, t, t), 'uint%d r, %s q, uint32 f' % (n, t),
              lambda I, O: comp('to unsigned', O.r, I.a) + comp('from unsigned', O.q, I.u) + [('first', Eq(O.f, I.a[0]))]))
            for k in range(2, n): out.append(C('%s_tou%d' % (t, k), t + ' a', 'r = (uint%d)a;' % k, 'uint%d r' % k, lambda I, O: comp('prefix', O.r, I.a)))
        def mixed(parts):
            """constructor from parts with these sizes"""
            ins = []; nm = []
            for j, p in enumerate(parts): ins.append(('%s%d' % (b, p) if p > 1 else s) + ' p%d' % j); nm.append('p%d' % j)
            out.append(C('%s_ctor_%s' % (t, ''.join(map(str, parts))), ', '.join(ins), 'r = %s(%s);' % (t, ', '.join(nm)), t + ' r',
              lambda I, O: comp('components', O.r, [x for j, p in enumerate(parts) for x in (I['p%d' % j] if p > 1 else [I['p%d' % j]])])))
        for parts in {2: [], 3: [(2, 1), (1, 2)], 4: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2), (3, 1), (1, 3)]}[n]: mixed(parts)
    else:
        out.append(C(t + '_parts', '%s a, %s4 d, %s3 e, %s2 f, %s w' % (t, b, b, b, s), 'r4 = %s(d); r3 = %s(e); r2 = %s(f); rw = %s(a, w); r = %s(w, d.y, e.z); p4 = (%s4)a; p3 = (%s3)a; p2 = (%s2)a; p = (%s)a;' % (t, t, t, t, t, b, b, b, s),
          '%s r4, %s r3, %s r2, %s rw, %s r, %s4 p4, %s3 p3, %s2 p2, %s p' % (t, t, t, t, t, b, b, b, s),
          lambda I, O: comp('from 4', O.r4, I.d) + comp('from 3', O.r3[:3], I.e) + comp('from 2', O.r2[:2], I.f) + comp('with w', O.rw, I.a[:3] + [I.w]) + comp('three scalars', O.r[:3], [I.w, I.d[1], I.e[2]]) +
            comp('to 4', O.p4, I.a) + comp('to 3', O.p3, I.a) + comp('to 2', O.p2, I.a) + [('first', Eq(O.p, I.a[0]))]))
        out.append(C(t + '_memory', '%s a, %s[4] d' % (t, s), 'r = %s(d); %s c; c.loadAligned(d); l = c; %s k = a; k.store(s1); k.storeAligned(s2);' % (t, t, t), '%s r, %s l, %s[4] s1, %s[4] s2' % (t, t, s, s),
          lambda I, O: comp('load', O.r, I.d) + comp('load aligned', O.l, I.d) + comp('store', O.s1, I.a) + comp('store aligned', O.s2, I.a)))
        out.append(C(t + '_access', '%s a, %s v' % (t, s), 'x = a.getX(); y = a.getY(); z = a.getZ(); w = a.getW(); %s c = a; c.setX(v); sx = c; c = a; c.setY(v); sy = c; c = a; c.setZ(v); sz = c; c = a; c.setW(v); sw = c; c = a; c.fixW(); fw = c;' % t,
          ', '.join('%s %s' % (s, k) for k in 'xyzw') + ', ' + ', '.join('%s %s' % (t, k) for k in ('sx', 'sy', 'sz', 'sw', 'fw')),
          lambda I, O: comp('get', [O.x, O.y, O.z, O.w], I.a) + [x for k, nm in enumerate(('sx', 'sy', 'sz', 'sw')) for x in comp(nm, O[nm], [I.v if j == k else I.a[j] for j in range(4)])] + comp('fixW', O.fw, I.a[:3] + [I.a[2]])))
        out.append(C(t + '_bic', '%s a, %s b' % (t, t), 'r = bic(a, b);', t + ' r', lambda I, O: comp('and not', O.r, [BvAnd(x, BvNot(y)) for x, y in zip(I.a, I.b)])))
    return out
def consts():
    V = lambda t, **k: C(t + '_constants', '', ' '.join('%s = %s::%s;' % (x, t, x.rstrip('_')) for x in k), ', '.join('%s %s' % (t, x) for x in k), lambda I, O: [y for x, v in k.items() for y in comp(x, O[x], [bv(c, 32) for c in v])])
    out = [V('int2', zero=(0, 0), one=(1, 1), minusOne=(-1, -1), left=(-1, 0), right=(1, 0), bottom=(0, -1), top=(0, 1)),
           V('int3', zero=(0, 0, 0), one=(1, 1, 1), minusOne=(-1, -1, -1), left=(-1, 0, 0), right=(1, 0, 0), bottom=(0, -1, 0), top=(0, 1, 0), back=(0, 0, -1), front=(0, 0, 1)),
           V('int4', zero=(0,) * 4, one=(1,) * 4, minusOne=(-1,) * 4)]
    for n in (2, 3, 4): out.append(V('uint%d' % n, zero=(0,) * n, one=(1,) * n))
    return out
def contracts():
    out = []
    for t in TYPES: out += binops(t) + unops(t) + cmps(t) + minmax(t) + build(t)
    out.append(C('simd_signed_unsigned', 'i32x4 a, u32x4 b', 'r = (u32x4)a; q = i32x4(b); p = uintAsInt(b);', 'u32x4 r, i32x4 q, i32x4 p', lambda I, O: comp('to unsigned', O.r, I.a) + comp('to signed', O.q, I.b) + comp('uintAsInt', O.p, I.b)))
    return out + consts()
