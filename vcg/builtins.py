"""Models of compiler intrinsics and library functions (the trusted base, listed in the evidence)."""
import re
from .terms import *
from .sym import Ptr, PtrIte, NULL, ToolLimit, DeadPath, vite, is_ptr

def fmin_x86(a, b): return mkfite(FLt(a, b), a, b)      # minps: second operand when unordered or equal
def fmax_x86(a, b): return mkfite(FLt(b, a), a, b)
def fminnum(a, b): return mkfite(FIsNan(a), b, mkfite(FIsNan(b), a, mkfite(FLt(b, a), b, a)))
def fmaxnum(a, b): return mkfite(FIsNan(a), b, mkfite(FIsNan(b), a, mkfite(FLt(a, b), b, a)))

def lanes(fn, *vs):
    if isinstance(vs[0], list): return [fn(*x) for x in zip(*vs)]
    return fn(*vs)

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'exp2', 'log', 'log2', 'log10', 'cbrt', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'asinh', 'acosh', 'atanh'}
LIBM2 = {'pow', 'atan2', 'fmod'}
TRUSTED = {}

def note(name): TRUSTED[name] = TRUSTED.get(name, 0) + 1

def cvtt(ex, st, v, where):
    """cvttps2dq: out-of-range gives 0x80000000"""
    ok = mk('fp_fits', (v,), 'b', (32, True)) if v.op != 'c' else TRUE
    return Ite(ok, FToI(v, 32, True), bv(0x80000000, 32))
def cvt(ex, st, v, where):
    r = FRound(v, 'rne')
    ok = mk('fp_fits', (r,), 'b', (32, True)) if r.op != 'c' else TRUE
    return Ite(ok, FToI(r, 32, True), bv(0x80000000, 32))

def signs(v):
    out = []
    for x in v:
        b = fsignbit(x) if isfloat(x.ty) else bv2b(Extract(x.ty - 1, x.ty - 1, x))
        out.append(b)
    return out

def shiftv(v, cnt, kind):
    """psll/psrl/psra with a 64-bit scalar count"""
    n = v[0].ty
    def one(x):
        big = Not(ULt(cnt, bv(n, cnt.ty)))
        c = Trunc(cnt, n) if cnt.ty > n else ZExt(cnt, n)
        if kind == 'sra': return vite(big, AShr(x, bv(n - 1, n)), AShr(x, c))
        return vite(big, bv(0, n), (Shl if kind == 'sll' else LShr)(x, c))
    return [one(x) for x in v]

def builtin(ex, name, v, args, ins, st, f):
    if name.startswith('llvm.'):
        note(re.sub(r'\.(v\d+)?[ifp]\d+.*$', '', name))
        return llvm(ex, name, v, ins, st, f)
    if name.startswith('__cxa_'):
        if name == '__cxa_guard_acquire':
            g = v[0]; b = ex.load(st, g, ('i', 8), 'guard')
            return Ite(Eq(b, bv(0, 8)), bv(1, 32), bv(0, 32))
        if name == '__cxa_guard_release': ex.store(st, v[0], ('i', 8), bv(1, 8), 'guard'); return None
        if name in ('__cxa_atexit', '__cxa_guard_abort'): return bv(0, 32)
        if name in ('__cxa_throw', '__cxa_begin_catch', '__cxa_rethrow', '__cxa_bad_cast', '__cxa_throw_bad_array_new_length'):
            ex.noret.append((name, st.pc)); st.ghost_exc = True; raise DeadPath()
        if name == '__cxa_allocate_exception':
            from .sym import Obj
            return Ptr(Obj('exception', None, 'heap'))
        if name == '__cxa_free_exception': return None
    if name in ('abort', '__assert_fail', '_ZSt9terminatev', '__assert'):
        ex.oblige('abort', st, FALSE, '%s reached in %s' % (name, f.name)); ex.noret.append((name, st.pc)); raise DeadPath()
    if name in ('memcpy', 'memmove'):
        n = v[2]
        if n.op != 'c': return NotImplemented
        ex.memcpy(st, v[0], v[1], n.val, f.name); return v[0]
    if name in ('memcmp', 'bcmp'):
        n = v[2]
        if n.op != 'c': return NotImplemented
        note('memcmp'); r = bv(0, 32)
        for i in reversed(range(n.val)):
            a = ex.load(st, Ptr(v[0].obj, v[0].off + i, v[0].sym), ('i', 8), f.name); b = ex.load(st, Ptr(v[1].obj, v[1].off + i, v[1].sym), ('i', 8), f.name)
            r = Ite(Eq(a, b), r, Ite(ULt(a, b), bv(-1, 32), bv(1, 32)))
        return r
    if name == 'strlen':
        p = v[0]; k = 0
        while True:
            b = ex.load(st, Ptr(p.obj, p.off + k, p.sym), ('i', 8), f.name)
            if b.op != 'c': return NotImplemented
            if b.val == 0: return bv(k, 64)
            k += 1
    for suf, ty in (('f', 'f32'), ('', 'f64')):
        base = name[:-1] if suf and name.endswith('f') else name if not suf else None
        if base is None: continue
        if base in LIBM1 and len(v) == 1 and v[0].ty == ty: note('libm ' + base); return UF(base, v, ty)
        if base in LIBM2 and len(v) == 2 and v[0].ty == ty:
            note('libm ' + base)
            return FRem(v[0], v[1]) if base == 'fmod' else UF(base, v, ty)
        if base == 'sqrt' and len(v) == 1 and v[0].ty == ty: return FSqrt(v[0])
        if base == 'fabs' and len(v) == 1 and v[0].ty == ty: return fabs(v[0])
        if base in ('floor', 'ceil', 'trunc') and len(v) == 1 and v[0].ty == ty: return FRound(v[0], base)
        if base == 'round' and len(v) == 1 and v[0].ty == ty: return FRound(v[0], 'rna')
        if base in ('rint', 'nearbyint') and len(v) == 1 and v[0].ty == ty: return FRound(v[0], 'rne')
        if base == 'fma' and len(v) == 3 and v[0].ty == ty: return FFma(v[0], v[1], v[2])
        if base == 'fmin' and len(v) == 2 and v[0].ty == ty: return fminnum(*v)
        if base == 'fmax' and len(v) == 2 and v[0].ty == ty: return fmaxnum(*v)
        if base == 'copysign' and len(v) == 2 and v[0].ty == ty: return mkfite(fsignbit(v[1]), fneg(fabs(v[0])), fabs(v[0]))
        if base in ('lround', 'lroundf'): pass
    return NotImplemented

def popcnt(x, n=None):
    r = bv(0, x.ty)
    for i in range(x.ty): r = Add(r, ZExt(Extract(i, i, x), x.ty))
    return r
def ctlz(x):
    r = bv(x.ty, x.ty)
    for i in range(x.ty): r = Ite(bv2b(Extract(i, i, x)), bv(x.ty - 1 - i, x.ty), r)
    return r
def cttz(x):
    r = bv(x.ty, x.ty)
    for i in reversed(range(x.ty)): r = Ite(bv2b(Extract(i, i, x)), bv(i, x.ty), r)
    return r

def llvm(ex, name, v, ins, st, f):
    n = name.split('.')
    k = n[1]
    if k in ('memcpy', 'memmove'):
        c = v[2]
        if c.op != 'c':
            h = getattr(ex, 'var_memcpy', None)
            if h: return h(ex, st, v, f)
            raise ToolLimit('variable-size memcpy in ' + f.name)
        ex.memcpy(st, v[0], v[1], c.val, f.name); return None
    if k == 'memset':
        c = v[2]
        if c.op != 'c': raise ToolLimit('variable-size memset')
        p = v[0]; step = 4 if c.val % 4 == 0 else 1
        val = Concat(*([v[1]] * step))
        for i in range(0, c.val, step): ex.store(st, Ptr(p.obj, p.off + i, p.sym), ('i', 8 * step), val, f.name)
        return None
    if k in ('fma', 'fmuladd'): return lanes(lambda a, b, c: FFma(a, b, c, k), *v)
    if k == 'sqrt': return lanes(FSqrt, v[0])
    if k == 'fabs': return lanes(fabs, v[0])
    if k in ('floor', 'ceil', 'trunc'): return lanes(lambda x: FRound(x, k), v[0])
    if k in ('rint', 'nearbyint', 'roundeven'): return lanes(lambda x: FRound(x, 'rne'), v[0])
    if k == 'round': return lanes(lambda x: FRound(x, 'rna'), v[0])
    if k == 'minnum': return lanes(fminnum, *v)
    if k == 'maxnum': return lanes(fmaxnum, *v)
    if k == 'copysign': return lanes(lambda a, b: mkfite(fsignbit(b), fneg(fabs(a)), fabs(a)), *v)
    if k in LIBM1: note('libm ' + k); return lanes(lambda x: UF(k, [x], x.ty), v[0])
    if k == 'pow': note('libm pow'); return lanes(lambda x, y: UF('pow', [x, y], x.ty), *v)
    if k == 'umin': return lanes(lambda a, b: Ite(ULt(a, b), a, b), *v)
    if k == 'umax': return lanes(lambda a, b: Ite(ULt(b, a), a, b), *v)
    if k == 'smin': return lanes(lambda a, b: Ite(SLt(a, b), a, b), *v)
    if k == 'smax': return lanes(lambda a, b: Ite(SLt(b, a), a, b), *v)
    if k == 'abs': return lanes(lambda a: Ite(SLt(a, bv(0, a.ty)), Neg(a), a), v[0])
    if k == 'ctlz': return lanes(ctlz, v[0])
    if k == 'cttz': return lanes(cttz, v[0])
    if k == 'ctpop': return lanes(popcnt, v[0])
    if k == 'bswap': return lanes(lambda a: Concat(*[Extract(i + 7, i, a) for i in range(0, a.ty, 8)]), v[0])
    if k in ('fshl', 'fshr'):
        def fs(a, b, c):
            w = a.ty; s = URem(c, bv(w, w)); ab = Concat(a, b); s2 = ZExt(s, 2 * w)
            return Extract(2 * w - 1, w, Shl(ab, s2)) if k == 'fshl' else Extract(w - 1, 0, LShr(ab, s2))
        return lanes(fs, *v)
    if k in ('usub', 'uadd') and n[2] == 'sat':
        def us(a, b):
            if k == 'usub': return Ite(ULt(a, b), bv(0, a.ty), Sub(a, b))
            s = Add(a, b); return Ite(ULt(s, a), bv(-1, a.ty), s)
        return lanes(us, *v)
    if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and n[2] == 'with':
        a, b = v; w = a.ty; X = ZExt if k[0] == 'u' else SExt
        op = {'mul': Mul, 'add': Add, 'sub': Sub}[k[1:]]
        r = op(X(a, 2 * w), X(b, 2 * w)); lo = Extract(w - 1, 0, r)
        return [lo, Ne(X(lo, 2 * w), r)]
    if k == 'is': # is.fpclass
        x = v[0]; m = v[1].val; r = []
        if m & 3: r.append(FIsNan(x))
        inf = fbits_c(0x7f800000 if x.ty == 'f32' else 0x7ff0000000000000, x.ty)
        if (m & 0x204) == 0x204: r.append(FEq(fabs(x), inf))
        elif m & 0x204: r.append(FEq(x, inf if m & 0x200 else fneg(inf)))
        if m & ~0x207: raise ToolLimit('is.fpclass %d' % m)
        return Or(*r)
    if k == 'expect': return v[0]
    if k in ('trap',): ex.oblige('trap', st, FALSE, f.name); raise DeadPath()
    if k == 'stacksave': return NULL
    if k == 'vector' and n[2] == 'reduce':
        op = n[3]; r = v[-1][0]
        g = {'add': Add, 'mul': Mul, 'and': lambda a, b: And(a, b) if a.ty == 'b' else BvAnd(a, b), 'or': lambda a, b: Or(a, b) if a.ty == 'b' else BvOr(a, b),
             'xor': lambda a, b: Xor(a, b) if a.ty == 'b' else BvXor(a, b), 'fadd': FAdd, 'fmul': FMul}.get(op)
        if g is None: raise ToolLimit(name)
        if op in ('fadd', 'fmul'):
            r = v[0]
            for x in v[1]: r = g(r, x)
            return r
        for x in v[0][1:]: r = g(r, x)
        return r
    if k == 'x86': return x86(ex, name, n[2:], v, ins, st, f)
    raise ToolLimit('intrinsic ' + name)

def x86(ex, name, n, v, ins, st, f):
    s = '.'.join(n)
    w = f.name
    if s in ('sse2.cvttps2dq',): return [cvtt(ex, st, x, w) for x in v[0]]
    if s in ('sse2.cvtps2dq',): return [cvt(ex, st, x, w) for x in v[0]]
    if s in ('sse.cvttss2si',): return cvtt(ex, st, v[0][0], w)
    if s in ('sse.cvtss2si',): return cvt(ex, st, v[0][0], w)
    if s in ('sse.min.ps', 'sse2.min.pd'): return lanes(fmin_x86, *v)
    if s in ('sse.max.ps', 'sse2.max.pd'): return lanes(fmax_x86, *v)
    if s in ('sse.min.ss', 'sse.max.ss'):
        return [(fmin_x86 if 'min' in s else fmax_x86)(v[0][0], v[1][0])] + v[0][1:]
    if s in ('sse.sqrt.ps',): return lanes(FSqrt, v[0])
    m = re.match(r'sse2\.p(sll|srl|sra)(i)?\.(d|w|q)$', s)
    if m:
        cnt = v[1]
        if isinstance(cnt, list):
            cnt = Extract(63, 0, ex.to_bits(cnt, ('vec', len(cnt), ('i', cnt[0].ty))))
        return shiftv(v[0], cnt, m.group(1))
    m = re.match(r'avx2\.p(sll|srl|sra)v\.d(\.128)?$', s)
    if m:
        def one(x, c):
            big = Not(ULt(c, bv(32, 32)))
            if m.group(1) == 'sra': return vite(big, AShr(x, bv(31, 32)), AShr(x, c))
            return vite(big, bv(0, 32), (Shl if m.group(1) == 'sll' else LShr)(x, c))
        return lanes(one, *v)
    if s in ('sse2.pmovmskb.128',):
        return ZExt(Concat(*[b2bv(b) for b in reversed(signs(v[0]))]), 32)
    if s in ('sse.movmsk.ps', 'sse2.movmsk.pd'): return ZExt(Concat(*[b2bv(b) for b in reversed(signs(v[0]))]), 32)
    if s in ('sse41.blendvps', 'sse41.blendvpd'):
        return [vite(c, b, a) for a, b, c in zip(v[0], v[1], signs(v[2]))]
    if s == 'sse41.pblendvb':
        return [vite(c, b, a) for a, b, c in zip(v[0], v[1], signs(v[2]))]
    if s in ('sse41.ptestz', 'sse41.ptestc', 'sse41.ptestnzc'):
        z = And(*[Eq(BvAnd(a, b), bv(0, a.ty)) for a, b in zip(v[0], v[1])])
        c = And(*[Eq(BvAnd(BvNot(a), b), bv(0, a.ty)) for a, b in zip(v[0], v[1])])
        r = {'sse41.ptestz': z, 'sse41.ptestc': c, 'sse41.ptestnzc': And(Not(z), Not(c))}[s]
        return b2bv(r, 32)
    if s == 'sse41.dpps':
        imm = v[2].val; a, b = v[0], v[1]; z = fc(0.0)
        t = [FMul(a[i], b[i]) if imm >> (4 + i) & 1 else z for i in range(4)]
        r = FAdd(FAdd(t[0], t[1]), FAdd(t[2], t[3]))
        return [r if imm >> i & 1 else z for i in range(4)]
    if s in ('sse41.round.ps',):
        mode = {0: 'rne', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rne'}[v[1].val & 7 if (v[1].val & 4) else v[1].val & 3]
        return [FRound(x, mode) for x in v[0]]
    if s in ('sse41.round.ss',):
        mode = {0: 'rne', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rne'}[v[2].val & 7 if (v[2].val & 4) else v[2].val & 3]
        return [FRound(v[1][0], mode)] + v[0][1:]
    if s in ('sse41.pmulld',): return lanes(Mul, *v)
    if s in ('sse2.pmulu.dq',):
        return None
    if s in ('sse3.hadd.ps', 'sse3.hsub.ps'):
        g = FAdd if 'hadd' in s else FSub; a, b = v
        return [g(a[0], a[1]), g(a[2], a[3]), g(b[0], b[1]), g(b[2], b[3])]
    if s in ('ssse3.phadd.d.128',):
        a, b = v; return [Add(a[0], a[1]), Add(a[2], a[3]), Add(b[0], b[1]), Add(b[2], b[3])]
    if s in ('ssse3.pshuf.b.128',):
        out = []
        for c in v[1]:
            r = bv(0, 8)
            if c.op == 'c': out.append(bv(0, 8) if c.val & 0x80 else v[0][c.val & 15]); continue
            for i in range(16): r = Ite(Eq(BvAnd(c, bv(0x8f, 8)), bv(i, 8)), v[0][i], r)
            out.append(r)
        return out
    if s in ('sse.rcp.ps', 'sse.rsqrt.ps', 'sse.rcp.ss', 'sse.rsqrt.ss'): raise ToolLimit('approximate reciprocal')
    if s.startswith('sse.cmp') or s.startswith('sse2.cmp'): raise ToolLimit(name)
    if s in ('avx.vpermilvar.ps',):
        return [v[0][c.val & 3] for c in v[1]]
    raise ToolLimit('intrinsic ' + name)
