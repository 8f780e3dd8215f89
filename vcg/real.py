"""Real-number semantics: terms of type 'r', rational-function normal forms and the real prover.

Machine floats are read as real numbers (rounding, overflow and NaN are outside these obligations; the evidence says so)."""
import time, random, signal
from fractions import Fraction
from .terms import *
from . import smt
from .sym import ToolLimit

def rc(x):
    if isinstance(x, float): x = Fraction(x)
    return mk('c', (), 'r', Fraction(x))
R0 = rc(0); R1 = rc(1)
def rvar(n): return var(n, 'r')
def RAdd(a, b):
    if a.op == 'c' and b.op == 'c': return rc(a.val + b.val)
    if a is R0: return b
    if b is R0: return a
    if a.id > b.id: a, b = b, a
    return mk('radd', (a, b), 'r')
def RMul(a, b):
    if a.op == 'c' and b.op == 'c': return rc(a.val * b.val)
    if a is R0 or b is R0: return R0
    if a is R1: return b
    if b is R1: return a
    if b.op == 'c' or (a.op != 'c' and a.id > b.id): a, b = b, a
    if a.op == 'c' and b.op == 'rmul' and b.args[0].op == 'c': return RMul(rc(a.val * b.args[0].val), b.args[1])
    return mk('rmul', (a, b), 'r')
def RNeg(a): return RMul(rc(-1), a)
def RSub(a, b):
    if a is b: return R0
    return RAdd(a, RNeg(b))
def RDiv(a, b):
    if b.op == 'c' and b.val != 0: return RMul(rc(1 / b.val), a)
    if a is R0 and b.op == 'c': return R0
    return mk('rdiv', (a, b), 'r')
def RSqrt(a):
    if a.op == 'c' and a.val >= 0:
        import math
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d: return rc(Fraction(rn, rd))
    return mk('rsqrt', (a,), 'r')
def _rcmp(op, f):
    def g(a, b):
        if a.op == 'c' and b.op == 'c': return boolc(f(a.val, b.val))
        if a is b: return boolc(op != 'rlt')
        if op == 'req' and a.id > b.id: a, b = b, a
        return mk(op, (a, b), 'b')
    return g
REq = _rcmp('req', lambda x, y: x == y); RLe = _rcmp('rle', lambda x, y: x <= y); RLt = _rcmp('rlt', lambda x, y: x < y)
_ABS = {}
def RAbs(a):
    """|a|; equal polynomials up to sign share one term"""
    p = poly(a)
    if p and len(p) <= 40:
        k = tuple(sorted(p.items())) if p[max(p)] > 0 else tuple(sorted((m, -c) for m, c in p.items()))
        if k not in _ABS: _ABS[k] = Ite(RLe(R0, a), a, RNeg(a))
        return _ABS[k]
    return Ite(RLe(R0, a), a, RNeg(a))
def RMin(a, b): return Ite(RLe(a, b), a, b)
def RMax(a, b): return Ite(RLe(a, b), b, a)
def RFloor(a):
    if a.op == 'c':
        import math
        return rc(math.floor(a.val))
    return mk('rfloor', (a,), 'r')
def RTrunc(x): return Ite(RLe(R0, x), RFloor(x), RNeg(RFloor(RNeg(x))))
def ROfInt(t, sg):
    """the integer value of a bit-vector as a real; a float truncated to an integer in range is its truncation"""
    n = t.ty; o = t.op
    if o == 'c': return rc(signed(t.val, n) if sg else t.val)
    if o == 'zext': return ROfInt(t.args[0], False)
    if o == 'sext': return ROfInt(t.args[0], True)
    if o == 'ite': return Ite(t.args[0], ROfInt(t.args[1], sg), ROfInt(t.args[2], sg))
    if o == 'extract' and t.val[1] == 0 and t.args[0].op == 'ite':
        i = t.args[0]; return Ite(i.args[0], ROfInt(Extract(t.val[0], 0, i.args[1]), sg), ROfInt(Extract(t.val[0], 0, i.args[2]), sg))
    b = t.args[0] if o == 'extract' and t.val[1] == 0 else t
    if b.op == 'r2bv':
        x = b.args[0]; lo, hi = (-(1 << (n - 1)), 1 << (n - 1)) if sg else (0, 1 << n)
        return Ite(And(RLt(rc(lo - 1), x), RLt(x, rc(hi))), RTrunc(x), mk('rofint', (t,), 'r', sg))
    return mk('rofint', (t,), 'r', sg)
def RUf(name, *a): return mk('ruf', tuple(a), 'r', name)

class R:
    """operator sugar for specifications"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    @staticmethod
    def of(x):
        if isinstance(x, R): return x
        if isinstance(x, Term): return R(x)
        return R(rc(x))
    def __add__(s, o): return R(RAdd(s.t, R.of(o).t))
    __radd__ = __add__
    def __sub__(s, o): return R(RSub(s.t, R.of(o).t))
    def __rsub__(s, o): return R(RSub(R.of(o).t, s.t))
    def __mul__(s, o): return R(RMul(s.t, R.of(o).t))
    __rmul__ = __mul__
    def __truediv__(s, o): return R(RDiv(s.t, R.of(o).t))
    def __rtruediv__(s, o): return R(RDiv(R.of(o).t, s.t))
    def __neg__(s): return R(RNeg(s.t))
    def __pos__(s): return s
    def __pow__(s, n):
        r = R(R1)
        for _ in range(n): r = r * s
        return r
    def __lt__(s, o): return RLt(s.t, R.of(o).t)
    def __le__(s, o): return RLe(s.t, R.of(o).t)
    def __gt__(s, o): return RLt(R.of(o).t, s.t)
    def __ge__(s, o): return RLe(R.of(o).t, s.t)
    def eq(s, o): return REq(s.t, R.of(o).t)
    def ne(s, o): return Not(REq(s.t, R.of(o).t))
    def __eq__(s, o): raise TypeError('use .eq')
    __hash__ = None
    def __bool__(s): raise TypeError('symbolic real as bool')
    def __repr__(s): return repr(s.t)
def sqrt(x): return R(RSqrt(R.of(x).t))
def rabs(x): return R(RAbs(R.of(x).t))
def rmin(*xs):
    r = R.of(xs[0])
    for x in xs[1:]: r = R(RMin(r.t, R.of(x).t))
    return r
def rmax(*xs):
    r = R.of(xs[0])
    for x in xs[1:]: r = R(RMax(r.t, R.of(x).t))
    return r
def rite(c, a, b): return R(Ite(c, R.of(a).t, R.of(b).t))
def f32(x):
    """the real value of the float literal x"""
    return R(rc(Fraction(to_f32(float(x)))))
def uf(name, *xs): return R(RUf(name, *[R.of(x).t for x in xs]))

# ---------------------------------------------------------------- float terms -> real terms
class ToReal:
    def __init__(s, inf_ok=False, ideal=()): s.memo = {}; s.inf_ok = inf_ok; s.ideal = ideal   # ideal: [(value, real term)] irrational numbers that a literal stands for
    def __call__(s, t):
        for x in topo([t]):
            if x.id not in s.memo: s.memo[x.id] = s.conv(x)
        return s.memo[t.id]
    def signbit(s, x):
        """sign bit of a float (the sign of zero is not tracked over the reals; masks are)"""
        if x.op == 'c': return boolc(x.val >> (width(x.ty) - 1) & 1)
        if x.op == 'ite': return Ite(s(x.args[0]), s.signbit(x.args[1]), s.signbit(x.args[2]))
        return RLt(s(x), R0)
    def conv(s, t):
        o = t.op; ty = t.ty; a = [s.memo[x.id] for x in t.args]; A = t.args
        if ty == 'r' or o in ('req', 'rle', 'rlt'): return rebuild_r(t, a)
        if o == 'c':
            if isfloat(ty):
                f = fracval(t)
                if f is None: return mk('v', (), 'r', 'INF%s' % (bits_to_float(t.val, ty)))
                for x, r in s.ideal:
                    for sg in (1, -1):
                        if f and abs(float(f) - sg * x) <= abs(x) * 2.5e-7: return R.of(r).t if sg > 0 else RNeg(R.of(r).t)
                return rc(f)
            return t
        if o == 'v': return var(t.val, 'r') if isfloat(ty) else t
        if o == 'fadd': return RAdd(*a)
        if o == 'fsub': return RSub(*a)
        if o == 'fmul': return RMul(*a)
        if o == 'fdiv': return RDiv(*a)
        if o in ('fma', 'fmuladd'): return RAdd(RMul(a[0], a[1]), a[2])
        if o == 'fneg': return RNeg(a[0])
        if o == 'fabs': return RAbs(a[0])
        if o == 'fsqrt': return RSqrt(a[0])
        if o in ('fpext', 'fptrunc'): return a[0]
        if o == 'fround':
            x = a[0]
            if t.val == 'floor': return RFloor(x)
            if t.val == 'ceil': return RNeg(RFloor(RNeg(x)))
            if t.val == 'trunc': return Ite(RLe(R0, x), RFloor(x), RNeg(RFloor(RNeg(x))))
            if t.val == 'rna': return Ite(RLe(R0, x), RFloor(RAdd(x, rc(Fraction(1, 2)))), RNeg(RFloor(RAdd(RNeg(x), rc(Fraction(1, 2))))))
            raise ToolLimit('round to even over reals')
        if o == 'frem':
            q = RDiv(a[0], a[1]); tq = Ite(RLe(R0, q), RFloor(q), RNeg(RFloor(RNeg(q))))
            return RSub(a[0], RMul(a[1], tq))
        if o == 'uf' and isfloat(ty): return RUf(t.val, *a)
        if o in ('sitofp', 'uitofp'):
            return ROfInt(a[0], o == 'sitofp')
        if o in ('fptosi', 'fptoui'): return mk('r2bv', (a[0],), ty)
        if o == 'fp_fits': return And(RLt(rc(-(2 ** (t.val[0] - 1)) - 1 if t.val[1] else -1), a[0]), RLt(a[0], rc(2 ** (t.val[0] - (1 if t.val[1] else 0)))))
        if o in ('feq', 'flt', 'fle') and any(x.op == 'v' and str(x.val).startswith('INF') for x in a):
            # reals are finite numbers: comparisons with an infinite or NaN literal have a fixed outcome
            k = [{'INFinf': 1, 'INF-inf': -1, 'INFnan': None}.get(x.val, 0) if x.op == 'v' else 0 for x in a]
            if None in k: return FALSE
            return boolc({'feq': k[0] == k[1], 'flt': k[0] < k[1], 'fle': k[0] <= k[1]}[o])
        if o == 'feq': return REq(*a)
        if o == 'flt': return RLt(*a)
        if o == 'fle': return RLe(*a)
        if o == 'fisnan': return FALSE
        if o == 'fsame': return REq(*a)
        if o == 'ite' and a[1].ty == 'r': return Ite(*a)
        if o == 'eq' and A[0].op == 'extract' and A[0].args[0].op == 'fbits' and A[0].val[0] == A[0].val[1] == A[0].args[0].ty - 1:
            b = s.signbit(A[0].args[0].args[0])
            return b if A[1].val == 1 else Not(b)
        if o in ('fbits', 'extract') and (o == 'fbits' or A[0].op == 'fbits'): return mk('opaque_bits', (), t.ty, t.id)
        if o == 'ibits': raise ToolLimit('float assembled from bits in a real-arithmetic contract: ' + show(t, 5))
        return rebuild(t, a)

def rebuild_r(t, a):
    o = t.op
    if all(x is y for x, y in zip(t.args, a)): return t
    if o == 'radd': return RAdd(*a)
    if o == 'rmul': return RMul(*a)
    if o == 'rdiv': return RDiv(*a)
    if o == 'rsqrt': return RSqrt(*a)
    if o == 'req': return REq(*a)
    if o == 'rle': return RLe(*a)
    if o == 'rlt': return RLt(*a)
    if o == 'rfloor': return RFloor(*a)
    if o == 'rofint': return ROfInt(a[0], t.val)
    return rebuild(t, a)
def rsubst(roots, m):
    memo = {k.id: v for k, v in m.items()}
    for t in topo(roots):
        if t.id not in memo: memo[t.id] = rebuild_r(t, [memo[a.id] for a in t.args])
    return [memo[r.id] for r in roots]

# ---------------------------------------------------------------- rational-function normal form
class NFail(Exception): pass

class NF:
    """numerator polynomial / multiset of denominator factors, over QQ[vars, sqrt generators, uf generators]"""
    def __init__(s, roots, limit=60000, hyps=(), pos=()):
        from sympy.polys.rings import ring
        from sympy import QQ
        from sympy.polys.orderings import lex, grevlex
        s.limit = limit
        roots = [x for h in hyps for x in h.args] + list(roots)
        ts = topo(roots); names = []; s.gen = {}
        for t in ts:
            if t.op == 'v' and t.ty == 'r': names.append(('v', t))
            elif t.op in ('rsqrt', 'ruf', 'rofint', 'rfloor'): names.append((t.op, t))
        # generators of extensions first so that they are eliminated first
        names.sort(key=lambda p: (p[0] == 'v', -p[1].id))
        if not names: names = [('v', R0)]
        Rg, *gens = ring(','.join('g%d' % i for i in range(len(names))), QQ, lex)
        s.ring = Rg; s.QQ = QQ
        s.gens = {t.id: g for (k, t), g in zip(names, gens)}; s.terms = {str(g): t for (k, t), g in zip(names, gens)}
        s.idx = {t.id: i for i, (k, t) in enumerate(names)}
        s.rel = []       # (index, numerator, denominator factors) : gen^2 = n/d
        s.memo = {}; s.sq = {}; s.ufs = {}; s.dens = []; s.args = []
        s.G = []; s.pos = {s.gens[i] for i in pos if i in s.gens}
        pure = [h for h in hyps if not any(x.op in ('rsqrt', 'ruf') for x in topo([h]))]
        for h in pure:
            for t in topo(h.args):
                if t.ty == 'r' and t.id not in s.memo: s.memo[t.id] = s.norm(t)
            l, r = s.memo[h.args[0].id], s.memo[h.args[1].id]
            q = s.add(l, s.mul((s.ring(-1), {}), r))[0]
            if q != 0: s.G.append(q)
        for t in ts:
            if t.ty == 'r' and t.id not in s.memo: s.memo[t.id] = s.norm(t)
    # a fraction is (poly, dict{poly: power})
    def const(s, f): return s.ring(s.QQ(f.numerator, f.denominator)) if not isinstance(f, int) else s.ring(f)
    def reduce(s, fr):
        p, d = fr
        d = dict(d)
        for i, n, nd in s.rel:
            # powers of the generator in the numerator
            if p == 0: return (p, {})
            mx = max((m[i] for m in p), default=0)
            if mx >= 2:
                parts = {}
                for m, c in p.items():
                    k = m[i] // 2
                    m2 = list(m); m2[i] = m[i] - 2 * k
                    parts.setdefault(k, {})[tuple(m2)] = c
                K = max(parts); acc = s.ring(0); npow = s.ring(1); ndp = s.prod(nd)
                # sum_k part_k * n^k * nd^(K-k)
                for k in sorted(parts):
                    q = s.ring.from_dict(parts[k])
                    acc = acc + q * n ** k * (ndp ** (K - k) if nd else 1)
                p = acc
                for f, e in nd.items(): d[f] = d.get(f, 0) + e * K
            # powers of the generator as a denominator factor
            g = s.ring.gens[i]
            if d.get(g, 0) >= 2:
                k = d[g] // 2; d[g] -= 2 * k
                if d[g] == 0: del d[g]
                # 1/g^2k = nd^k / n^k
                if nd: p = p * s.prod(nd) ** k
                s.addfac(d, n, k)
            s.size(p)
        return s.cancel(p, d)
    def size(s, p):
        if len(p) > s.limit: raise NFail('polynomial too large')
    def prod(s, d):
        r = s.ring(1)
        for f, e in d.items(): r = r * f ** e
        return r
    def addfac(s, d, f, e):
        c, f = s.primitive(f)
        if f == 1: return c ** e
        d[f] = d.get(f, 0) + e
        return c ** e
    def primitive(s, f):
        """f = c * f' with f' monic (leading coefficient 1)"""
        if f == 0: raise NFail('division by zero polynomial')
        c = f.LC
        return c, f * (1 / c) if c != 1 else f
    def cancel(s, p, d):
        """cancel factors that are single generators or the whole numerator"""
        for f in list(d):
            while f in d and len(f) == 1 and p != 0:
                # monomial factor
                (m, c), = f.items()
                if all(all(a >= b for a, b in zip(mm, m)) for mm in p):
                    p = s.ring.from_dict({tuple(a - b for a, b in zip(mm, m)): cc / c for mm, cc in p.items()})
                    d[f] -= 1
                    if not d[f]: del d[f]
                else: break
            if f in d and p == f:
                p = s.ring(1); d[f] -= 1
                if not d[f]: del d[f]
        if p == 0: d = {}
        return (p, d)
    def mul(s, a, b):
        d = dict(a[1])
        for f, e in b[1].items(): d[f] = d.get(f, 0) + e
        if len(a[0]) * len(b[0]) > 40 * s.limit: raise NFail('product too large')
        return s.reduce((a[0] * b[0], d))
    def add(s, a, b):
        if a[0] == 0: return b
        if b[0] == 0: return a
        if a[1] == b[1]: return s.reduce((a[0] + b[0], a[1])) if a[1] else (a[0] + b[0], {})
        l = dict(a[1])
        for f, e in b[1].items(): l[f] = max(l.get(f, 0), e)
        p, q = a[0], b[0]
        for f, e in l.items():
            x = e - a[1].get(f, 0); y = e - b[1].get(f, 0)
            if x: p = p * f ** x
            if y: q = q * f ** y
            s.size(p); s.size(q)
        return s.reduce((p + q, l))
    def norm(s, t):
        o = t.op
        if o == 'c': return (s.const(t.val), {})
        if o == 'v': return (s.gens[t.id], {})
        if o == 'ite': raise NFail('ite')
        a = [s.memo[x.id] for x in t.args if x.ty == 'r']
        if o == 'radd': return s.add(*a)
        if o == 'rmul': return s.mul(*a)
        if o == 'rdiv':
            n, d = a
            if d[0] == 0: raise NFail('division by zero')
            s.dens.append(t.args[1])
            r = {}
            p = n[0] * s.prod(d[1]); l = dict(n[1])
            # try to see d[0] as a power product of known factors
            c = s.addfac(l, d[0], 1)
            return s.reduce((p * (1 / c) if c != 1 else p, l))
        if o == 'rsqrt':
            s.args.append(t.args[0])
            n, d = a[0]
            if s.G and not d and len(n) < 2000:
                n = n.rem(s.G)
                if n.is_ground:
                    v = Fraction(int(n.LC.numerator), int(n.LC.denominator)) if n != 0 else Fraction(0)
                    t2 = RSqrt(rc(v)) if v >= 0 else None
                    if t2 is not None and t2.op == 'c': return (s.const(t2.val), {})
            # monomial argument with even powers of generators known to be non-negative
            if not d and len(n) == 1:
                (m, c), = n.items()
                v = RSqrt(rc(Fraction(int(c.numerator), int(c.denominator)))) if c > 0 else None
                if v is not None and v.op == 'c' and all(e % 2 == 0 and (e == 0 or s.ring.gens[i] in s.pos) for i, e in enumerate(m)):
                    return (s.const(v.val) * s.ring.from_dict({tuple(e // 2 for e in m): s.QQ(1)}), {})
            key = (n, tuple(sorted(((str(f), e) for f, e in d.items()))))
            if key in s.sq: return (s.sq[key], {})
            g = s.gens[t.id]; s.sq[key] = g; s.pos.add(g); s.rel.insert(0, (s.idx[t.id], n, d))
            return (g, {})
        if o == 'ruf':
            key = (t.val,) + tuple((x[0], tuple(sorted((str(f), e) for f, e in x[1].items()))) for x in a)
            if key in s.ufs: return (s.ufs[key], {})
            g = s.gens[t.id]; s.ufs[key] = g
            if t.val in ('sin', 'cos'):
                ok = (('cos' if t.val == 'sin' else 'sin'),) + key[1:]
                if ok in s.ufs:
                    og = s.ufs[ok]
                    sg = g if t.val == 'sin' else og; cg = og if t.val == 'sin' else g
                    i = [k for k, x in enumerate(s.ring.gens) if x == sg][0]
                    s.rel.insert(0, (i, 1 - cg ** 2, {}))
            return (g, {})
        if o == 'rofint' or o == 'rfloor': return (s.gens[t.id], {})
        raise NFail(o)
    def zero_mod(s, a, b, hyps):
        """is a == b, given the polynomial equations in hyps (list of 'req' terms normalised here)"""
        x = s.add(a, s.mul((s.ring(-1), {}), b))
        p = x[0]
        if p == 0: return True
        if hyps:
            G = []
            for h in hyps:
                l, r = s.memo[h.args[0].id], s.memo[h.args[1].id]
                q = s.add(l, s.mul((s.ring(-1), {}), r))[0]
                if q != 0: G.append(q)
            if G:
                p = s.reduce((p, {}))[0]
                r = p.rem(G)
                if r == 0: return True
                r = s.reduce((r, {}))[0]
                if r == 0 or r.rem(G) == 0: return True
                if len(G) > 1 and len(p) < 3000:
                    from sympy.polys.groebnertools import groebner
                    try:
                        GB = groebner(G, s.ring)
                        if p.rem(GB) == 0: return True
                    except Exception: pass
        return False

def flat(t):
    out = []
    for x in conj_all(t): out.append(x)
    return out
def conj_all(t):
    if t.op == 'and':
        r = []
        for a in t.args: r += conj_all(a)
        return r
    return [t] if t is not TRUE else []

def conj_deep(t):
    if t.op == 'and': return [y for x in t.args for y in conj_deep(x)]
    if t.op == 'not' and t.args[0].op == 'or': return [y for x in t.args[0].args for y in conj_deep(Not(x))]
    return [t]
def first_split(t):
    """an atom to split on: a condition of an ite that has no ite inside"""
    best = None
    for x in topo([t]):
        if x.op == 'ite' and x.ty == 'r':
            c = x.args[0]
            for y in topo([c]):
                if y.ty == 'b' and y.op not in ('and', 'or', 'not', 'c', 'ite', 'eq') and not any(z.op == 'ite' for z in topo([y])):
                    return y
                if y.op == 'eq' and y.args[0].ty != 'b' : return y
                if y.op == 'v' and y.ty == 'b': return y
    return best

_VARS = {}
def vars_of(t):
    r = _VARS.get(t.id)
    if r is None:
        r = frozenset(x.id for x in topo([t]) if x.op in ('v', 'rofint', 'opaque_bits')); _VARS[t.id] = r
    return r
class alarm:
    """raise NFail when the block takes longer than the given time"""
    def __init__(s, sec): s.sec = sec
    def __enter__(s):
        def h(*a): raise NFail('time')
        s.old = signal.signal(signal.SIGALRM, h); s.left = signal.setitimer(signal.ITIMER_REAL, s.sec)[0]; s.t0 = time.time()
    def __exit__(s, *a):
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, s.old)
        if s.left: signal.setitimer(signal.ITIMER_REAL, max(0.01, s.left - (time.time() - s.t0)))

# ---------------------------------------------------------------- propositional abstraction over canonical polynomial atoms
_POLY = {}; _ATOM = {}; _MON = set()
class PolyBig(Exception): pass
def poly(t, limit=600):
    """polynomial of a real term over its non-polynomial subterms: {sorted tuple of (atom id) : coefficient}"""
    for x in topo([t]):
        if x.ty != 'r' or x.id in _POLY: continue
        o = x.op
        if o == 'c': r = {(): x.val} if x.val != 0 else {}
        elif o == 'radd':
            a, b = _POLY[x.args[0].id], _POLY[x.args[1].id]
            if a is None or b is None or len(a) + len(b) > limit: r = None
            else:
                r = dict(a)
                for m, c in b.items():
                    c = r.get(m, 0) + c
                    if c: r[m] = c
                    else: r.pop(m, None)
        elif o == 'rmul':
            a, b = _POLY[x.args[0].id], _POLY[x.args[1].id]
            if a is None or b is None or len(a) * len(b) > 4 * limit: r = None
            else:
                r = {}
                for m, c in a.items():
                    for n, d in b.items():
                        k = tuple(sorted(m + n)); e = r.get(k, 0) + c * d
                        if e: r[k] = e
                        else: r.pop(k, None)
                if len(r) > limit: r = None
        elif o == 'rdiv' and x.args[0] is not R1:
            a, u = _POLY[x.args[0].id], RDiv(R1, x.args[1])
            r = None if a is None or len(a) > limit else pmul(a, {(u.id,): Fraction(1)})
        else: r = {(x.id,): Fraction(1)}; _ATOM[x.id] = x
        _POLY[x.id] = r
    return _POLY[t.id]
def canon_atom(t):
    """(kind, key, sign) of a comparison: kind req/rlt/rle of a polynomial against 0, scaled so that its leading coefficient is +-1"""
    a, b = poly(t.args[0]), poly(t.args[1])
    if a is None or b is None: return None
    p = dict(b)
    for m, c in a.items():
        c = p.get(m, 0) - c
        if c: p[m] = c
        else: p.pop(m, None)
    if not p: return boolc(t.op != 'rlt')
    k = p[max(p)]
    if list(p) == [()]: return boolc({'req': False, 'rlt': k > 0, 'rle': k > 0}[t.op])
    key, pos = normkey(p)
    return (t.op, key, pos)
_TERM = {}
def lin_of(key):
    """a polynomial as a linear term over its monomials (every non-linear monomial is a variable of its own)"""
    r = R0
    for m, c in key:
        if m == (): r = RAdd(r, rc(c)); continue
        _MON.add(m)
        v = rvar('mon!' + '_'.join(map(str, m))) if len(m) > 1 else rvar('mon!%d' % m)
        r = RAdd(r, RMul(rc(c), v))
    return r
_FAC = {}
def factors(key):
    """[(key, odd exponent?)] and the sign of the constant; None if irreducible or too big"""
    if key in _FAC: return _FAC[key]
    _FAC[key] = None
    if len(key) < 2 or len(key) > 400:
        # a single monomial is the product of its variables
        if len(key) == 1 and len(key[0][0]) > 1:
            m, c = key[0]; d = {}
            for x in m: d[x] = d.get(x, 0) + 1
            _FAC[key] = ([((((x,), Fraction(1)),), e % 2 == 1) for x, e in d.items()], c > 0)
        return _FAC[key]
    if max(len(m) for m, _ in key) < 2: return None
    from sympy.polys.rings import ring
    from sympy import QQ
    vs = sorted({x for m, _ in key for x in m})
    ix = {x: i for i, x in enumerate(vs)}
    R_ = ring(['v%d' % x for x in vs], QQ)[0]
    d = {}
    for m, c in key:
        e = [0] * len(vs)
        for x in m: e[ix[x]] += 1
        d[tuple(e)] = QQ(c.numerator, c.denominator)
    try:
        with alarm(4): c, fl = R_.from_dict(d).factor_list()
    except NFail: return None
    except Exception: return None
    if len(fl) == 1 and fl[0][1] == 1: return None
    out = []; sg = c > 0
    for f, e in fl:
        q = {}
        for mm, cc in f.items(): q[tuple(sorted(x for x, k in zip(vs, mm) for _ in range(k)))] = Fraction(int(cc.numerator), int(cc.denominator))
        k, pos = normkey(q)
        if e % 2 and not pos: sg = not sg
        out.append((k, e % 2 == 1))
    _FAC[key] = (out, sg)
    return _FAC[key]
def normkey(p):
    lead = max(p); k = p[lead]
    return (tuple(sorted((m, c / abs(k)) for m, c in p.items())) if k > 0 else tuple(sorted((m, -c / abs(k)) for m, c in p.items()))), k > 0
def abstract(fs, side, fac=True):
    """replace comparisons by linear comparisons over monomials; add the sign rules of factorised polynomials"""
    ats = {}; _MON.clear()
    def three(key):
        if key not in ats:
            l = lin_of(key); ats[key] = (REq(l, R0), RLt(R0, l))
            f = factors(key) if fac else None
            if f is not None:
                fl, sg = f; zs = []; par = boolc(sg)
                for k, odd in fl:
                    z, p = three(k); zs.append(z)
                    if odd: par = Eq(par, p)
                z, p = ats[key]; zz = Or(*zs)
                side.append(Eq(z, zz)); side.append(Or(zz, Eq(p, par)))
        return ats[key]
    memo = {}
    for t in topo(fs):
        if t.ty == 'r': continue
        if t.op in ('req', 'rle', 'rlt') and t.args[0].ty == 'r':
            c = canon_atom(t)
            if c is None: r = var('absx!%d' % t.id, 'b')
            elif isinstance(c, Term): r = c
            else:
                op, key, sg = c; z, p = three(key); n = And(Not(z), Not(p))
                pos = p if sg else n
                r = z if op == 'req' else pos if op == 'rlt' else Or(z, pos)
        elif any(x.ty == 'r' or isfloat(x.ty) for x in t.args) or t.op in ('rofint', 'r2bv'): 
            r = var('absx!%d' % t.id, t.ty)
        else:
            a = tuple(memo.get(x.id, x) for x in t.args)
            r = t if all(x is y for x, y in zip(a, t.args)) else subst_op(t, a)
        memo[t.id] = r
    todo = topo(fs); seen = set()
    while todo:
        t = todo.pop()
        if t.id in seen: continue
        seen.add(t.id)
        # square roots, reciprocals and conditional values are variables of their own: their defining facts
        if t.op == 'rsqrt':
            a, q = sign3(three, poly(t.args[0])), sign3(three, poly(t))
            if a is None or q is None: continue
            side.append(Or(And(Not(a[0]), Not(a[1])), And(Or(*q), Eq(q[0], a[0]))))
            sq = padd(pmul(poly(t), poly(t)), poly(t.args[0]), -1)
            if len(sq) < 200: side.append(Or(And(Not(a[0]), Not(a[1])), REq(lin_of(tuple(sorted(sq.items()))), R0)))
        elif t.op == 'rdiv':
            if t.args[0] is not R1: todo.append(RDiv(R1, t.args[1])); sign3(three, poly(t)); continue
            d, q = sign3(three, poly(t.args[1])), sign3(three, poly(t))
            if d is None or q is None: continue
            side.append(Or(d[0], And(Not(q[0]), Eq(q[1], d[1]))))
            if len(poly(t.args[1])) < 60:
                e = padd(pmul(poly(t.args[1]), poly(t)), {(): Fraction(1)}, -1)
                side.append(Or(d[0], REq(lin_of(tuple(sorted(e.items()))), R0)))
    fl = [(poly(t), poly(t.args[0])) for t in topo(fs) if t.op == 'rfloor']
    fl = [x for x in fl if x[0] is not None and x[1] is not None][:12]
    le = lambda a, b: (lambda z: None if z is None else Or(*z))(sign3(three, padd(b, a, -1)))
    for i, (f, x) in enumerate(fl):
        a, b = le(f, x), le(padd(f, {(): Fraction(1)}, 1), x)
        if a is None or b is None: continue
        side.append(a); side.append(Not(b))
        for g, y in fl[:i]:
            for (p, u), (q, v) in (((f, x), (g, y)), ((g, y), (f, x))):
                l, m = le(u, v), le(p, q)
                if l is not None and m is not None: side.append(Or(Not(l), m))
    # equal arguments give equal values
    us = [t for t in topo(fs) if t.op == 'ruf']
    us = [(t, poly(t), [poly(x) for x in t.args]) for t in us][:16]
    for i, (t, p, xs) in enumerate(us):
        for u, q, ys in us[:i]:
            if u.val != t.val or p is None or q is None or None in xs or None in ys: continue
            zs = [sign3(three, padd(x, y, -1)) for x, y in zip(xs, ys)]; r = sign3(three, padd(p, q, -1))
            if r is not None and None not in zs: side.append(Or(*[Not(k[0]) for k in zs], r[0]))
    # a monomial with a conditional value is the monomial with either branch
    done = set(); n = 0
    while True:
        new = [m for m in _MON if m not in done]
        if not new: break
        for m in new:
            done.add(m)
            for i, x in enumerate(m):
                t = _ATOM.get(x)
                if t is None or t.op != 'ite': continue
                c = memo.get(t.args[0].id); a, b = poly(t.args[1]), poly(t.args[2])
                if c is None or a is None or b is None: break
                rest = {m[:i] + m[i + 1:]: Fraction(1)}
                for k, q in ((c, a), (Not(c), b)): side.append(Or(Not(k), REq(lin_of(tuple(sorted(padd({m: Fraction(1)}, pmul(q, rest), -1).items()))), R0)))
                n += 1; break
        if n > 600: break
    return [memo.get(f.id, f) for f in fs]
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); e = r.get(k, 0) + c * d
            if e: r[k] = e
            else: r.pop(k, None)
    return r
def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        e = r.get(m, 0) + f * c
        if e: r[m] = e
        else: r.pop(m, None)
    return r
def sign3(three, p):
    """(zero?, positive?) of a polynomial"""
    if p is None: return None
    if not p: return (TRUE, FALSE)
    if list(p) == [()]: return (FALSE, boolc(p[()] > 0))
    k, pos = normkey(p); z, q = three(k)
    return (z, q) if pos else (z, And(Not(z), Not(q)))
def subst_op(t, a):
    from .terms import rebuild
    return rebuild(t, a)
def sel_conds(fs):
    """integer conditions of conditional real values (array element selection)"""
    out = {}
    for x in topo(fs):
        if x.op == 'ite' and x.ty == 'r':
            for y in topo([x.args[0]]):
                if y.ty == 'b' and y.op not in ('and', 'or', 'not', 'c', 'ite') and not any(q.ty == 'r' or isfloat(q.ty) for q in topo([y])): out[y.id] = y
    return list(out.values())
def prop_check(hyps, goal, timeout=5, depth=0):
    """proof by propositional reasoning over canonical atoms, with case splits on array element selection"""
    if goal is TRUE or any(h is FALSE for h in hyps): return True
    cs = sel_conds([goal] + hyps)
    if cs and depth < 8:
        c = cs[0]
        for v in (TRUE, FALSE):
            g, *hs = rsubst([goal] + hyps, {c: v})
            if not prop_check([h for h in hs if h is not TRUE] + [c if v is TRUE else Not(c)], g, timeout, depth + 1): return False
        return True
    side = []
    fs = abstract([goal] + hyps, side)
    return smt.check(fs[1:] + side, fs[0], timeout, 'auto')[0] == 'proved'

class Prover:
    def __init__(s, timeout=20, split_limit=400, log=None):
        s.timeout = timeout; s.splits = 0; s.split_limit = split_limit; s.backends = {}; s.leaves = 0; s.feas = {}
    def used(s, be): s.backends[be] = s.backends.get(be, 0) + 1
    def prove(s, hyps, goal, witness=None):
        """('proved',be) | ('refuted', env or None) | ('unknown', why)"""
        s.witness = witness; s.deadline = time.time() + s.timeout * 6
        hs = []
        for h in hyps: hs += conj_all(h)
        for t in topo(hs + [goal]):
            if t.op == 'rofint':    # the range of an integer
                n = t.args[0].ty; lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t.val else (0, (1 << n) - 1)
                hs += [RLe(rc(lo), t), RLe(t, rc(hi))]
        return s.go(hs, goal)
    def go(s, hyps, goal):
        if goal is TRUE or any(h is FALSE for h in hyps): return ('proved', 'simplifier')
        if any(h is goal for h in hyps): return ('proved', 'simplifier')
        if time.time() > s.deadline: return ('unknown', 'time budget')
        if goal.op == 'and':
            for g in goal.args:
                r = s.go(hyps, g)
                if r[0] != 'proved': return r
            return r
        if goal.op == 'or' and len(goal.args) > 4:
            # distribute over a large conjunction and try the disjuncts one at a time, most similar first
            big = [g for g in goal.args if len(conj_deep(g)) > 4]
            if len(big) == 1:
                rest = [g for g in goal.args if g is not big[0]]; ok = True
                for cj in conj_deep(big[0]):
                    at = {x.id for x in topo([cj])}
                    ds = sorted(rest, key=lambda d: (lambda q: -len(at & q) / len(q))({x.id for x in topo([d])}))
                    for k in (1, 2, 4, 8):
                        try:
                            if prop_check(list(hyps), Or(cj, *ds[:k]), 5): break
                        except (PolyBig, ToolLimit): pass
                    else: ok = False; break
                if ok: s.used('z3'); return ('proved', 'propositional over polynomial atoms')
        if goal.op == 'or':
            # assume the negation of all but one disjunct (prefer keeping an equality)
            eqs = [g for g in goal.args if g.op == 'req' or (g.op == 'and' and all(x.op == 'req' for x in g.args))]
            if len(eqs) == 1:
                k = eqs[0]; hs = list(hyps)
                for g in goal.args:
                    if g is not k: hs += conj_all(Not(g))
                return s.go(hs, k)
        if goal.op == 'eq' and goal.args[0].ty == 'b':
            a, b = goal.args
            r = s.go(hyps + conj_all(a), b)
            if r[0] != 'proved': return r
            return s.go(hyps + conj_all(b), a)
        if goal.op == 'req':
            return s.equality(hyps, goal)
        return s.smt(hyps, goal)
    def equality(s, hyps, goal):
        at = first_split(goal)
        if at is not None:
            s.splits += 1
            if s.splits > s.split_limit: return s.smt(hyps, goal)
            for val in (TRUE, FALSE):
                m = {at: val}
                g2, *h2 = rsubst([goal] + hyps, m)
                hs = []
                for h in h2: hs += conj_all(h)
                if any(h is FALSE for h in hs): continue
                hs.append(at if val is TRUE else Not(at))
                r = s.go(hs, g2)
                if r[0] != 'proved':
                    return r
            return ('proved', 'case split')
        s.leaves += 1
        hyps = s.units(hyps)
        if hyps is None: return ('proved', 'simplifier')
        eqs = [h for h in hyps if h.op == 'req' and not any(x.op == 'ite' for x in topo([h]))]
        t0 = time.time()
        pos = {h.args[1].id for h in hyps if h.op in ('rlt', 'rle') and h.args[0].op == 'c' and h.args[0].val >= 0}
        gv = vars_of(goal); near = [h for h in eqs if vars_of(h) <= gv]
        ok = False; nf = None
        for es in ([near] if len(near) == len(eqs) else [near, eqs]):
            try:
                with alarm(max(10, s.timeout)):
                    nf = NF([goal.args[0], goal.args[1]], hyps=es, pos=pos)
                    ok = nf.zero_mod(nf.memo[goal.args[0].id], nf.memo[goal.args[1].id], es)
            except NFail as e: continue
            if ok: break
        smt.stat('rational normal form', time.time() - t0)
        if ok:
            # definedness: denominators non-zero, square-root arguments non-negative
            for d in dict.fromkeys(nf.dens):
                if d.op == 'c': continue
                if s.nonzero(hyps, d): continue
                fr = nf.memo.get(d.id)
                if fr is not None and fr[0] != 0 and fr[0].is_ground: continue
                if fr is not None and len(fr[0]) == 1 and s.gens_nonzero(hyps, nf, fr[0]): continue
                if s.same_zeros(hyps, d): continue
                r = s.smt(hyps, Not(REq(d, R0)))
                if r[0] != 'proved': return ('refuted', r[1]) if r[0] == 'refuted' else ('unknown', 'denominator may vanish: ' + show(d, 3))
            for d in dict.fromkeys(nf.args):
                if d.op == 'c' or s.nonneg(d): continue
                fr = nf.memo.get(d.id)
                if fr is not None and nf.G and not fr[1]:
                    q = fr[0].rem(nf.G)
                    if q == 0 or (q.is_ground and q.LC > 0): continue
                r = s.smt(hyps, RLe(R0, d))
                if r[0] != 'proved': return ('refuted', r[1]) if r[0] == 'refuted' else ('unknown', 'square root of a negative: ' + show(d, 3))
            s.used('normal form'); return ('proved', 'normal form')
        return s.smt(hyps, goal)
    def units(s, hyps):
        """unit propagation over disjunctive hypotheses that contain equations; None if contradictory"""
        if not any(h.op == 'or' and any(x.op == 'req' for x in topo([h])) for h in hyps): return hyps
        ints = [h for h in hyps if not any(x.ty == 'r' or isfloat(x.ty) for x in topo([h]))]; memo = {}
        hs = list(hyps); known = {h.id for h in hs}; changed = True
        def false(d):
            n = Not(d)
            if n.id in known or (n.op == 'and' and all(x.id in known for x in n.args)): return True
            if any(x.ty == 'r' or isfloat(x.ty) for x in topo([d])): return False
            if d.id not in memo: memo[d.id] = smt.check(ints, n, 3, 'bv')[0] == 'proved'
            return memo[d.id]
        while changed:
            changed = False; out = []
            for h in hs:
                if h.op == 'or':
                    ds = [d for d in h.args if not false(d)]
                    if not ds: return None
                    if len(ds) < len(h.args):
                        changed = True
                        for x in conj_all(ds[0] if len(ds) == 1 else Or(*ds)): out.append(x); known.add(x.id)
                        continue
                out.append(h)
            hs = out
        return hs
    def boolish(s, hyps, goal):
        return sum(1 for t in topo([goal] + hyps) if t.op in ('rlt', 'rle', 'req')) > 1
    def gens_nonzero(s, hyps, nf, mono):
        m, = mono.keys()
        for i, e in enumerate(m):
            if e and not s.nonzero(hyps, nf.terms[str(nf.ring.gens[i])]): return False
        return True
    def same_zeros(s, hyps, d):
        """d has the same numerator, up to a constant, as a hypothesis says is not zero"""
        while d.op == 'rsqrt': d = d.args[0]
        if d.op == 'rmul': return all(x.op == 'c' or s.nonzero(hyps, x) or s.same_zeros(hyps, x) for x in d.args)
        vs = vars_of(d)
        for h in hyps:
            p = None
            if h.op == 'not' and h.args[0].op == 'req' and R0 in h.args[0].args: p = h.args[0].args[1] if h.args[0].args[0] is R0 else h.args[0].args[0]
            elif h.op == 'rlt' and R0 in h.args: p = h.args[1] if h.args[0] is R0 else h.args[0]
            if p is None or vars_of(p) != vs or any(x.op == 'ite' for x in topo([p, d])): continue
            try:
                with alarm(5):
                    nf = NF([d, p]); a, b = nf.memo[d.id][0], nf.memo[p.id][0]
                    if a != 0 and b != 0 and nf.primitive(a)[1] == nf.primitive(b)[1]: return True
            except NFail: pass
        return False
    def nonneg(s, d):
        if d.op == 'c': return d.val >= 0
        if d.op == 'rsqrt': return True
        if d.op == 'rmul': return d.args[0] is d.args[1] or all(map(s.nonneg, d.args))
        if d.op == 'radd': return all(map(s.nonneg, d.args))
        if d.op == 'rdiv': return all(map(s.nonneg, d.args))
        return False
    def nonzero(s, hyps, d):
        for h in hyps:
            if h.op == 'not' and h.args[0].op == 'req' and d in h.args[0].args and R0 in h.args[0].args: return True
            if h.op == 'rlt' and ((h.args[0] is R0 and h.args[1] is d) or (h.args[1] is R0 and h.args[0] is d)): return True
        if d.op == 'rsqrt':
            return s.nonzero(hyps, d.args[0])
        if d.op == 'rmul': return all(x.op == 'c' or s.nonzero(hyps, x) for x in d.args)
        return False
    def smt(s, hyps, goal):
        if s.boolish(hyps, goal):
            try:
                if prop_check(list(hyps), goal, min(5, s.timeout)): s.used('z3'); return ('proved', 'propositional over polynomial atoms')
            except (PolyBig, ToolLimit): pass
        gv = vars_of(goal); near = [h for h in hyps if vars_of(h) <= gv]
        if len(near) < len(hyps):
            r = smt.check(near, goal, min(5, s.timeout), 'real')
            if r[0] == 'proved': s.used('z3'); return r
        r = smt.check(hyps, goal, min(5, s.timeout), 'auto')
        if r[0] == 'unknown': r = smt.check(hyps, goal, s.timeout, 'real')
        if r[0] == 'unknown':
            r2 = smt.check(hyps, goal, s.timeout, 'auto')
            if r2[0] != 'unknown': r = r2
        if r[0] == 'proved': s.used('z3')
        return r
