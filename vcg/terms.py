"""Hash-consed terms: booleans, bit-vectors, IEEE floats, with light, sound simplification.

Types: 'b' (bool), int n (bit-vector of n bits), 'f32', 'f64'.
Float constants carry their bit pattern.  All rewrites are valid for IEEE semantics (not only for reals)."""
import struct, math
from fractions import Fraction

_tab = {}
_cnt = [0]

class Term:
    __slots__ = ('op', 'args', 'ty', 'val', 'id', '_h')
    def __repr__(s): return show(s, 4)
    def __hash__(s): return s._h
    def __eq__(s, o): return s is o
    def is_const(s): return s.op == 'c'
    def __bool__(s): raise TypeError('symbolic boolean used as a Python bool')

def mk(op, args, ty, val=None):
    k = (op, tuple(a.id for a in args), ty, val)
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = tuple(args); t.ty = ty; t.val = val; _cnt[0] += 1; t.id = _cnt[0]; t._h = t.id
        _tab[k] = t
    return t

def show(t, d):
    if t.op == 'c':
        if t.ty in ('f32', 'f64'):
            return repr(bits_to_float(t.val, t.ty))
        return str(t.val)
    if t.op == 'v': return t.val
    nm = t.op + (':' + str(t.val) if t.val is not None else '')
    if d <= 0: return nm + '(..)'
    return nm + '(' + ', '.join(show(a, d - 1) for a in t.args) + ')'

# ---------------------------------------------------------------- constants
TRUE = mk('c', (), 'b', True)
FALSE = mk('c', (), 'b', False)
def boolc(v): return TRUE if v else FALSE
def bv(v, n): return mk('c', (), n, v & ((1 << n) - 1))
def fbits_c(bits, ty='f32'): return mk('c', (), ty, bits)
def f2bits(x, ty):
    return struct.unpack('<I', struct.pack('<f', x))[0] if ty == 'f32' else struct.unpack('<Q', struct.pack('<d', x))[0]
def bits_to_float(b, ty):
    return struct.unpack('<f', struct.pack('<I', b))[0] if ty == 'f32' else struct.unpack('<d', struct.pack('<Q', b))[0]
def to_f32(x):
    """double -> nearest single (as Python float); overflow gives inf"""
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)
def fc(x, ty='f32'):
    if ty == 'f32': x = to_f32(float(x))
    return mk('c', (), ty, f2bits(float(x), ty))
def var(name, ty): return mk('v', (), ty, name)
def isfloat(ty): return ty in ('f32', 'f64')
def width(ty): return {'f32': 32, 'f64': 64, 'b': 1}.get(ty, ty)
def fval(t): return bits_to_float(t.val, t.ty)
def fracval(t):
    x = fval(t)
    if math.isinf(x) or math.isnan(x): return None
    return Fraction(x)
def signed(v, n): return v - (1 << n) if v >> (n - 1) else v
def frac_to_float(fr, ty):
    """correctly rounded Fraction -> float of type ty"""
    if fr == 0: return 0.0
    p, emin, emax = (24, -149, 127) if ty == 'f32' else (53, -1074, 1023)
    s = -1 if fr < 0 else 1; a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a: e -= 1
    q = max(e - (p - 1), emin)
    m = a / (Fraction(2) ** q)
    n = m.numerator // m.denominator; r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1): n += 1
    v = Fraction(n) * Fraction(2) ** q
    if v >= Fraction(2) ** (emax + 1): return s * math.inf
    return s * float(v)

# ---------------------------------------------------------------- booleans
def Not(a):
    if a.op == 'c': return boolc(not a.val)
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'b')
def And(*xs):
    out = []; seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and': st.extend(reversed(x.args)); continue
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 'b')
def Or(*xs):
    out = []; seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or': st.extend(reversed(x.args)); continue
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    # a | (!a & b) -> a | b
    if any(x.op == 'and' for x in out):
        again = True; changed = False
        while again:
            again = False
            for i, x in enumerate(out):
                if x.op != 'and': continue
                keep = [c for c in x.args if not (c.op == 'not' and c.args[0].id in seen) and not (c.op != 'not' and any(y.op == 'not' and y.args[0] is c for y in out))]
                if len(keep) < len(x.args):
                    out[i] = And(*keep); seen.add(out[i].id); again = changed = True
        if changed: return Or(*out)
    # factor common conjuncts: (a&b)|(a&!b) -> a
    if len(out) == 2:
        a, b = out
        sa = {t.id: t for t in (a.args if a.op == 'and' else (a,))}; sb = {t.id: t for t in (b.args if b.op == 'and' else (b,))}
        common = [sa[i] for i in sa if i in sb]
        if common:
            ra = And(*[t for i, t in sa.items() if i not in sb]); rb = And(*[t for i, t in sb.items() if i not in sa])
            return And(*common, Or(ra, rb))
    return mk('or', tuple(sorted(out, key=lambda t: t.id)), 'b')
def Implies(a, b): return Or(Not(a), b)
def Xor(a, b): return Ite(a, Not(b), b)
def Iff(a, b): return Eq(a, b)

def Ite(c, a, b):
    if c.op == 'c': return a if c.val else b
    if a is b: return a
    if c.op == 'not': return Ite(c.args[0], b, a)
    if a.ty == 'b':
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
        if a is c: return Or(c, b)
        if b is c: return And(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # ite(c, ite(d,x,y), y) -> ite(c&d, x, y)   (and the mirror images)
    if a.op == 'ite' and a.args[2] is b: return Ite(And(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a: return Ite(Or(c, b.args[0]), a, b.args[2])
    if isfloat(a.ty) and a.op == 'ibits' and b.op == 'ibits':
        return ibits(Ite(c, a.args[0], b.args[0]), a.ty)
    if not isfloat(a.ty) and a.op == 'fbits' and b.op == 'fbits':
        return fbits(Ite(c, a.args[0], b.args[0]))
    return mk('ite', (c, a, b), a.ty)

def Eq(a, b):
    """bit-level / boolean equality (never IEEE ==)"""
    assert a.ty == b.ty, (a.ty, b.ty, a, b)
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return boolc(a.val == b.val)
    if a.op == 'c': a, b = b, a
    if a.ty == 'b':
        if b is TRUE: return a
        if b is FALSE: return Not(a)
        if a.op == 'not' and b.op == 'not': return Eq(a.args[0], b.args[0])
    if b.op == 'c' and isinstance(a.ty, int):
        if a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c'):
            return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
        if a.op == 'concat':
            r = []; pos = a.ty
            for x in a.args:
                pos -= x.ty; r.append(Eq(x, bv(b.val >> pos, x.ty)))
            return And(*r)
        if a.op == 'zext':
            w = a.args[0].ty
            if b.val >> w: return FALSE
            return Eq(a.args[0], bv(b.val, w))
        if a.op == 'b2bv': return a.args[0] if b.val == 1 else Not(a.args[0])
        if a.op == 'bvxor' and a.args[1].op == 'c': return Eq(a.args[0], bv(b.val ^ a.args[1].val, a.ty))
        if a.op == 'bvnot': return Eq(a.args[0], bv(~b.val, a.ty))
        if a.op == 'bvand' and b.val == (1 << a.ty) - 1: return And(*[Eq(x, b) for x in a.args])
        if a.op == 'bvor' and b.val == 0: return And(*[Eq(x, b) for x in a.args])
    if a.op == 'concat' and b.op == 'concat' and [x.ty for x in a.args] == [x.ty for x in b.args]:
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'ibits' and b.op == 'ibits': return Eq(a.args[0], b.args[0])
    if a.op == 'fbits' and b.op == 'fbits': return Eq(a.args[0], b.args[0])
    if a.id > b.id and b.op != 'c': a, b = b, a
    return mk('eq', (a, b), 'b')
def Ne(a, b): return Not(Eq(a, b))

# ---------------------------------------------------------------- bit-vectors
def _mask(n): return (1 << n) - 1

def b2bv(c, n=1):
    """bool -> bit-vector 0/1"""
    if n == 1:
        if c.op == 'c': return bv(int(c.val), 1)
        return mk('b2bv', (c,), 1)
    return Ite(c, bv(1, n), bv(0, n))
def bv2b(x):
    return Eq(x, bv(1, 1))

def const_ite(t):
    return t.op == 'ite' and t.args[1].op == 'c' and t.args[2].op == 'c'

def Concat(*xs):
    """MSB first"""
    out = []
    for x in xs:
        if x.op == 'concat': out.extend(x.args)
        else: out.append(x)
    r = []
    for x in out:
        if r and r[-1].op == 'c' and x.op == 'c':
            y = r.pop(); r.append(bv((y.val << x.ty) | x.val, y.ty + x.ty))
        elif r and r[-1].op == 'extract' and x.op == 'extract' and r[-1].args[0] is x.args[0] and r[-1].val[1] == x.val[0] + 1:
            y = r.pop(); r.append(Extract(y.val[0], x.val[1], x.args[0]))
        elif r and const_ite(r[-1]) and const_ite(x) and r[-1].args[0] is x.args[0]:
            y = r.pop(); r.append(Ite(x.args[0], Concat(y.args[1], x.args[1]), Concat(y.args[2], x.args[2])))
        else: r.append(x)
    if len(r) == 1: return r[0]
    return mk('concat', tuple(r), sum(x.ty for x in r))

def Extract(hi, lo, x):
    n = hi - lo + 1
    if n == x.ty: return x
    if x.op == 'c': return bv(x.val >> lo, n)
    if x.op == 'extract': return Extract(hi + x.val[1], lo + x.val[1], x.args[0])
    if x.op == 'concat':
        pos = x.ty; parts = []
        for a in x.args:
            pos -= a.ty
            h = min(hi, pos + a.ty - 1); l = max(lo, pos)
            if h >= l: parts.append(Extract(h - pos, l - pos, a))
        return Concat(*parts)
    if x.op == 'zext':
        w = x.args[0].ty
        if lo >= w: return bv(0, n)
        if hi < w: return Extract(hi, lo, x.args[0])
        return Concat(bv(0, hi - w + 1), Extract(w - 1, lo, x.args[0]))
    if x.op == 'sext' and hi < x.args[0].ty: return Extract(hi, lo, x.args[0])
    if x.op == 'ite' and (x.args[1].op == 'c' or x.args[2].op == 'c' or (x.args[1].op in ('concat', 'ite') and x.args[2].op in ('concat', 'ite'))): return Ite(x.args[0], Extract(hi, lo, x.args[1]), Extract(hi, lo, x.args[2]))
    if x.op in ('bvand', 'bvor', 'bvxor'):
        return {'bvand': BvAnd, 'bvor': BvOr, 'bvxor': BvXor}[x.op](*[Extract(hi, lo, a) for a in x.args])
    if x.op == 'bvnot': return BvNot(Extract(hi, lo, x.args[0]))
    if x.op in ('add', 'sub', 'mul') and lo == 0:
        return {'add': Add, 'sub': Sub, 'mul': Mul}[x.op](Extract(hi, 0, x.args[0]), Extract(hi, 0, x.args[1]))
    return mk('extract', (x,), n, (hi, lo))

def ZExt(x, n):
    if x.ty == 'b': return b2bv(x, n)
    if n == x.ty: return x
    if x.op == 'c': return bv(x.val, n)
    if x.op == 'zext': return ZExt(x.args[0], n)
    if const_ite(x): return Ite(x.args[0], ZExt(x.args[1], n), ZExt(x.args[2], n))
    if x.op == 'b2bv': return b2bv(x.args[0], n)
    return mk('zext', (x,), n)
def SExt(x, n):
    if x.ty == 'b': return Ite(x, bv(-1, n), bv(0, n))
    if n == x.ty: return x
    if x.op == 'c': return bv(signed(x.val, x.ty), n)
    if x.op == 'b2bv': return Ite(x.args[0], bv(-1, n), bv(0, n))
    if const_ite(x): return Ite(x.args[0], SExt(x.args[1], n), SExt(x.args[2], n))
    if x.op == 'sext': return SExt(x.args[0], n)
    return mk('sext', (x,), n)
def Trunc(x, n):
    if n == 'b': return bv2b(Extract(0, 0, x))
    return Extract(n - 1, 0, x)

def _cuts(*xs):
    """common partition points for concat operands"""
    s = set()
    for x in xs:
        if x.op == 'concat':
            p = x.ty
            for a in x.args:
                p -= a.ty; s.add(p)
    s.discard(0)
    return sorted(s)
def _split(f, *xs):
    cuts = _cuts(*xs)
    if not cuts: return None
    n = xs[0].ty; pts = [0] + cuts + [n]; parts = []
    for lo, hi in zip(pts, pts[1:]):
        parts.append(f(*[Extract(hi - 1, lo, x) for x in xs]))
    return Concat(*reversed(parts))

def _iteview(x):
    if x.op == 'ite': return x.args
    if x.op == 'fbits' and x.args[0].op == 'ite': c, a, b = x.args[0].args; return c, fbits(a), fbits(b)
    return None
def _bitwise(op, fold, unit, zero, f):
    def g(*xs):
        n = xs[0].ty
        if len(xs) == 1: return xs[0]
        r = _split(g, *xs)
        if r is not None: return r
        c = None; out = []; 
        st = list(reversed(xs))
        while st:
            x = st.pop()
            if x.op == op: st.extend(reversed(x.args)); continue
            if x.op == 'c': c = x.val if c is None else fold(c, x.val)
            else: out.append(x)
        u = unit & _mask(n); z = None if zero is None else zero & _mask(n)
        if c is not None and z is not None and c == z: return bv(z, n)
        if op == 'bvxor':
            d = {}
            for x in out: d[x] = d.get(x, 0) ^ 1
            out = [x for x in out if d.get(x)]
            out = list(dict.fromkeys(out))
        else:
            out = list(dict.fromkeys(out))
        if not out: return bv(c if c is not None else u, n)
        if c is not None and c != u: out.append(bv(c, n))
        if len(out) == 1: return out[0]
        # masks: ite(b,-1,0)
        for i, x in enumerate(out):
            if const_ite(x) and x.args[1].val in (0, _mask(n)) and x.args[2].val in (0, _mask(n)):
                rest = g(*(out[:i] + out[i+1:]))
                return Ite(x.args[0], f(x.args[1].val, rest), f(x.args[2].val, rest))
        # two ites over the same condition combine (and-or select idiom)
        vw = [_iteview(x) for x in out]
        for i in range(len(out)):
            if vw[i] is None: continue
            for j in range(i + 1, len(out)):
                if vw[j] is not None and vw[j][0] is vw[i][0]:
                    rest = [t for k_, t in enumerate(out) if k_ not in (i, j)]
                    m = Ite(vw[i][0], g(vw[i][1], vw[j][1]), g(vw[i][2], vw[j][2]))
                    return g(m, *rest) if rest else m
        # contiguous constant masks on and/or/xor: split so that untouched bits stay visible
        k = out[-1]
        out.sort(key=lambda t: (t.op == 'c', t.id))
        return mk(op, tuple(out), n)
    return g
BvAnd = _bitwise('bvand', lambda a, b: a & b, -1, 0, lambda m, r: r if m else bv(0, r.ty))
BvOr = _bitwise('bvor', lambda a, b: a | b, 0, -1, lambda m, r: bv(-1, r.ty) if m else r)
BvXor = _bitwise('bvxor', lambda a, b: a ^ b, 0, None, lambda m, r: BvNot(r) if m else r)
def BvNot(x):
    if x.op == 'c': return bv(~x.val, x.ty)
    if x.op == 'bvnot': return x.args[0]
    if x.op == 'concat': return Concat(*[BvNot(a) for a in x.args])
    if const_ite(x): return Ite(x.args[0], BvNot(x.args[1]), BvNot(x.args[2]))
    if x.op == 'b2bv': return b2bv(Not(x.args[0]))
    return mk('bvnot', (x,), x.ty)

def _c2(a, b): return a.op == 'c' and b.op == 'c'
def Add(a, b):
    n = a.ty
    if _c2(a, b): return bv(a.val + b.val, n)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        if b.val == 0: return a
        if a.op == 'add' and a.args[1].op == 'c': return Add(a.args[0], bv(a.args[1].val + b.val, n))
        if const_ite(a): return Ite(a.args[0], Add(a.args[1], b), Add(a.args[2], b))
    elif a.id > b.id: a, b = b, a
    return mk('add', (a, b), n)
def Sub(a, b):
    n = a.ty
    if _c2(a, b): return bv(a.val - b.val, n)
    if a is b: return bv(0, n)
    if b.op == 'c': return Add(a, bv(-b.val, n))
    return mk('sub', (a, b), n)
def Neg(a): return Sub(bv(0, a.ty), a)
def Mul(a, b):
    n = a.ty
    if _c2(a, b): return bv(a.val * b.val, n)
    if a.op == 'c': a, b = b, a
    if b.op == 'c':
        if b.val == 0: return b
        if b.val == 1: return a
    elif a.id > b.id: a, b = b, a
    return mk('mul', (a, b), n)
def UDiv(a, b):
    if _c2(a, b) and b.val: return bv(a.val // b.val, a.ty)
    if b.op == 'c' and b.val == 1: return a
    return mk('udiv', (a, b), a.ty)
def URem(a, b):
    if _c2(a, b) and b.val: return bv(a.val % b.val, a.ty)
    return mk('urem', (a, b), a.ty)
def _tdiv(x, y): return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
def SDiv(a, b):
    if _c2(a, b) and b.val: return bv(_tdiv(signed(a.val, a.ty), signed(b.val, b.ty)), a.ty)
    return mk('sdiv', (a, b), a.ty)
def SRem(a, b):
    if _c2(a, b) and b.val:
        x, y = signed(a.val, a.ty), signed(b.val, b.ty); return bv(x - _tdiv(x, y) * y, a.ty)
    return mk('srem', (a, b), a.ty)
def Shl(a, b):
    n = a.ty
    if b.op == 'c':
        k = b.val
        if k == 0: return a
        if k >= n: return bv(0, n)
        if a.op == 'c': return bv(a.val << k, n)
        return Concat(Extract(n - 1 - k, 0, a), bv(0, k))
    if a.op == 'c' and a.val == 0: return a
    if const_ite(b): return Ite(b.args[0], Shl(a, b.args[1]), Shl(a, b.args[2]))
    return mk('shl', (a, b), n)
def LShr(a, b):
    n = a.ty
    if b.op == 'c':
        k = b.val
        if k == 0: return a
        if k >= n: return bv(0, n)
        if a.op == 'c': return bv(a.val >> k, n)
        return ZExt(Extract(n - 1, k, a), n)
    if a.op == 'c' and a.val == 0: return a
    return mk('lshr', (a, b), n)
def AShr(a, b):
    n = a.ty
    if b.op == 'c':
        k = min(b.val, n - 1)
        if k == 0: return a
        if a.op == 'c': return bv(signed(a.val, n) >> k, n)
        return SExt(Extract(n - 1, k, a), n)
    return mk('ashr', (a, b), n)
def _strip_zext_cmp(a, b):
    # compare zext(x) with zext(y)/const at narrower width
    wa = a.args[0].ty if a.op == 'zext' else None; wb = b.args[0].ty if b.op == 'zext' else None
    if wa is not None and wa == wb: return a.args[0], b.args[0]
    return None
def ULt(a, b):
    if _c2(a, b): return boolc(a.val < b.val)
    if a is b: return FALSE
    if b.op == 'c' and b.val == 0: return FALSE
    if b.op == 'c' and b.val == 1: return Eq(a, bv(0, a.ty))
    if a.op == 'c' and a.val == _mask(a.ty): return FALSE
    s = _strip_zext_cmp(a, b)
    if s: return ULt(*s)
    if a.op == 'zext' and b.op == 'c':
        w = a.args[0].ty
        if b.val >> w: return TRUE
        return ULt(a.args[0], bv(b.val, w))
    if b.op == 'zext' and a.op == 'c':
        w = b.args[0].ty
        if a.val >> w: return FALSE
        return ULt(bv(a.val, w), b.args[0])
    # (x ^ signbit) <u (y ^ signbit)  ==  x <s y
    sb = 1 << (a.ty - 1)
    if a.op == 'bvxor' and a.args[-1].op == 'c' and a.args[-1].val == sb and b.op == 'bvxor' and b.args[-1].op == 'c' and b.args[-1].val == sb and len(a.args) == 2 and len(b.args) == 2:
        return SLt(a.args[0], b.args[0])
    return mk('ult', (a, b), 'b')
def ULe(a, b): return Not(ULt(b, a))
def SLt(a, b):
    if _c2(a, b): return boolc(signed(a.val, a.ty) < signed(b.val, b.ty))
    if a is b: return FALSE
    sb = 1 << (a.ty - 1)
    def flip(t):
        if t.op == 'bvxor' and t.args[-1].op == 'c' and t.args[-1].val == sb and len(t.args) == 2: return t.args[0]
        if t.op == 'add' and t.args[1].op == 'c' and t.args[1].val == sb: return t.args[0]
        if t.op == 'c': return bv(t.val ^ sb, t.ty)
    fa, fb = flip(a), flip(b)
    if fa is not None and fb is not None and not (a.op == 'c' or b.op == 'c'): return ULt(fa, fb)
    if a.op == 'zext' and b.op == 'zext': return ULt(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].ty == b.args[0].ty: return SLt(a.args[0], b.args[0])
    if b.op == 'c' and b.val == 0: return Eq(Extract(a.ty - 1, a.ty - 1, a), bv(1, 1))
    if const_ite(a): return Ite(a.args[0], SLt(a.args[1], b), SLt(a.args[2], b))
    if const_ite(b): return Ite(b.args[0], SLt(a, b.args[1]), SLt(a, b.args[2]))
    return mk('slt', (a, b), 'b')
def SLe(a, b): return Not(SLt(b, a))

# ---------------------------------------------------------------- floats
SIGN = {'f32': 1 << 31, 'f64': 1 << 63}
def fbits(x):
    """float -> bit-vector"""
    w = width(x.ty)
    if x.op == 'c': return bv(x.val, w)
    if x.op == 'ibits': return x.args[0]
    if x.op == 'ite' and x.args[1].op == 'c' and x.args[2].op == 'c': return Ite(x.args[0], fbits(x.args[1]), fbits(x.args[2]))
    return mk('fbits', (x,), w)
def ibits(x, ty):
    """bit-vector -> float; recognises the bit-level forms of abs, neg and copysign"""
    w = width(ty)
    if x.op == 'c': return fbits_c(x.val, ty)
    if x.op == 'fbits' and x.args[0].ty == ty: return x.args[0]
    if x.op == 'ite' and all(a.op in ('fbits', 'ite', 'c') for a in x.args[1:]):
        a, b = ibits(x.args[1], ty), ibits(x.args[2], ty)
        if a.op != 'ibits' and b.op != 'ibits': return mkfite(x.args[0], a, b)
    if x.op == 'bvand' and len(x.args) == 2 and x.args[1].op == 'c' and x.args[1].val == SIGN[ty] - 1:
        return fabs(ibits(x.args[0], ty))
    if x.op == 'bvxor' and len(x.args) == 2 and x.args[1].op == 'c' and x.args[1].val == SIGN[ty]:
        return fneg(ibits(x.args[0], ty))
    if x.op == 'bvxor' and len(x.args) == 2:
        for m, y in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
            sm = _signmask(m, ty)
            if sm is not None: return Ite(sm, fneg(ibits(y, ty)), ibits(y, ty))
    if x.op == 'concat' and len(x.args) >= 2:
        lo = x.args[-1]
        # 0 : bits[w-2..0]  -> abs
        if len(x.args) == 2 and x.args[0].ty == 1:
            if lo.op == 'extract' and lo.val == (w - 2, 0) and lo.args[0].ty == w:
                y = ibits(lo.args[0], ty); s = x.args[0]
                if s.op == 'c' and s.val == 0: return fabs(y)
                return Ite(bv2b(s), fneg(fabs(y)), fabs(y))
            if lo.op == 'c':
                y = fbits_c(lo.val, ty)
                return Ite(bv2b(x.args[0]), fneg(y), y)
    if x.op == 'bvor' and len(x.args) == 2 and x.args[1].op == 'c':
        # (v & C1) | C2 with the union sign-only freedom:  copysign of a constant
        k = x.args[1].val; y = x.args[0]
        if y.op == 'bvand' and y.args[-1].op == 'c':
            m = y.args[-1].val
            if (m & ~k) == SIGN[ty] and not (k & SIGN[ty]):
                src = BvAnd(*y.args[:-1])
                sgn = Eq(Extract(w - 1, w - 1, src), bv(1, 1))
                c = fbits_c(k, ty)
                return Ite(_fsignbit_of_bits(src, ty), fneg(c), c)
    if x.op == 'ite':
        c, a, b = x.args
        def nice(t): return t.op in ('c', 'fbits') or (t.op == 'ite') or t.op in ('bvxor','bvand','concat')
        if nice(a) and nice(b): return mkfite(c, ibits(a, ty), ibits(b, ty))
    return mk('ibits', (x,), ty)
def mkfite(c, a, b):
    if c.op == 'c': return a if c.val else b
    if a is b: return a
    if a.op == 'ibits' and b.op == 'ibits': return mk('ite', (c, a, b), a.ty)
    return Ite(c, a, b)
def _signmask(m, ty):
    """m is either 0 or just the sign bit -> boolean for 'sign bit set'"""
    w = width(ty)
    if const_ite(m) and {m.args[1].val, m.args[2].val} <= {0, SIGN[ty]}:
        return Ite(m.args[0], boolc(m.args[1].val != 0), boolc(m.args[2].val != 0))
    if m.op == 'bvand' and m.args[-1].op == 'c' and m.args[-1].val == SIGN[ty]:
        return _fsignbit_of_bits(BvAnd(*m.args[:-1]), ty)
    if m.op == 'concat' and m.args[0].ty == 1 and m.args[1].op == 'c' and m.args[1].val == 0 and len(m.args) == 2:
        return bv2b(m.args[0])
    return None
def _fsignbit_of_bits(b, ty):
    if b.op == 'fbits': return fsignbit(b.args[0])
    return Eq(Extract(width(ty) - 1, width(ty) - 1, b), bv(1, 1))
def fsignbit(x):
    w = width(x.ty)
    if x.op == 'c': return boolc(bool(x.val >> (w - 1)))
    if x.op == 'fneg': return Not(fsignbit(x.args[0]))
    if x.op == 'fabs': return FALSE
    return mk('eq', (mk('extract', (mk('fbits', (x,), w),), 1, (w - 1, w - 1)), bv(1, 1)), 'b') if x.op != 'ibits' else _fsignbit_of_bits(x.args[0], x.ty)

def fneg(x):
    if x.op == 'c': return fbits_c(x.val ^ SIGN[x.ty], x.ty)
    if x.op == 'fneg': return x.args[0]
    if x.op == 'ite' and (x.args[1].op == 'c' or x.args[2].op == 'c'): return Ite(x.args[0], fneg(x.args[1]), fneg(x.args[2]))
    return mk('fneg', (x,), x.ty)
def fabs(x):
    if x.op == 'c': return fbits_c(x.val & ~SIGN[x.ty], x.ty)
    if x.op in ('fneg', 'fabs'): return fabs(x.args[0])
    return mk('fabs', (x,), x.ty)

def _isnan(x): return x.op == 'c' and math.isnan(fval(x))
def _finite(*xs): return all(x.op == 'c' and math.isfinite(fval(x)) for x in xs)
def _round(fr, ty, signzero=False):
    x = frac_to_float(fr, ty)
    if x == 0: return None
    return fc(x, ty) if math.isfinite(x) else fbits_c(f2bits(x, ty), ty)
def _fbin(op, fn, comm):
    def g(a, b):
        assert a.ty == b.ty
        if _finite(a, b):
            x, y = fval(a), fval(b)
            if op == 'fadd': r = Fraction(x) + Fraction(y)
            elif op == 'fsub': r = Fraction(x) - Fraction(y)
            elif op == 'fmul': r = Fraction(x) * Fraction(y)
            else: r = Fraction(x) / Fraction(y) if y else None
            if r is not None and r != 0:
                q = _round(r, a.ty)
                if q is not None: return q
            elif r is not None:
                if op in ('fadd', 'fsub'):
                    z = (x + y) if op == 'fadd' else (x - y)
                    return fc(z, a.ty)      # exact zero, sign as IEEE in double
                return fc(x * y if op == 'fmul' else x / y, a.ty)
        if comm and a.id > b.id: a, b = b, a
        if op == 'fmul':
            for k, o in ((a, b), (b, a)):
                if k.op == 'c' and fval(k) == 1.0: return o
                if k.op == 'c' and fval(k) == -1.0: return fneg(o)
            if a.op == 'fneg' and b.op == 'fneg': return g(a.args[0], b.args[0])
        if op == 'fdiv' and b.op == 'c' and fval(b) == 1.0: return a
        if op == 'fsub' and b.op == 'c' and b.val == 0: return a         # x - (+0) = x
        if op == 'fadd' and b.op == 'c' and b.val == SIGN[b.ty]: return a   # x + (-0) = x
        if op == 'fadd' and a.op == 'c' and a.val == SIGN[a.ty]: return b
        if op == 'fadd' and b.op == 'fneg': return FSub(a, b.args[0])
        if op == 'fadd' and a.op == 'fneg': return FSub(b, a.args[0])
        if op == 'fsub' and b.op == 'fneg': return FAdd(a, b.args[0])
        if op == 'fsub' and a.op == 'c' and a.val == SIGN[a.ty]: return fneg(b)  # -0 - x = -x
        return mk(op, (a, b), a.ty)
    return g
FAdd = _fbin('fadd', None, True); FSub = _fbin('fsub', None, False); FMul = _fbin('fmul', None, True); FDiv = _fbin('fdiv', None, False)
def FSqrt(x):
    if x.op == 'c':
        v = fval(x)
        if math.isfinite(v) and v >= 0: return fc(math.sqrt(v), x.ty)
    return mk('fsqrt', (x,), x.ty)
def FFma(a, b, c, kind='fma'):
    if _finite(a, b, c):
        r = Fraction(fval(a)) * Fraction(fval(b)) + Fraction(fval(c))
        if r != 0:
            q = _round(r, a.ty)
            if q is not None: return q
    if a.id > b.id: a, b = b, a
    return mk(kind, (a, b, c), a.ty)
def fcmp_basic(op, a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = fval(a), fval(b)
        return boolc({'feq': x == y, 'flt': x < y, 'fle': x <= y}[op])
    if _isnan(a) or _isnan(b): return FALSE
    if op == 'feq' and a.id > b.id: a, b = b, a
    if op == 'flt' and a is b: return FALSE
    return mk(op, (a, b), 'b')
def FEq(a, b): return fcmp_basic('feq', a, b)
def FLt(a, b): return fcmp_basic('flt', a, b)
def FLe(a, b): return fcmp_basic('fle', a, b)
def FUno(a, b):
    def n(x):
        if x.op == 'c': return boolc(math.isnan(fval(x)))
        if x.op in ('fneg', 'fabs'): return n(x.args[0])
        return mk('fisnan', (x,), 'b')
    return Or(n(a), n(b))
def FIsNan(a): return FUno(a, a)
def FCmp(pred, a, b):
    if pred == 'oeq': return FEq(a, b)
    if pred == 'olt': return FLt(a, b)
    if pred == 'ogt': return FLt(b, a)
    if pred == 'ole': return FLe(a, b)
    if pred == 'oge': return FLe(b, a)
    if pred == 'one': return And(Not(FEq(a, b)), Not(FUno(a, b)))
    if pred == 'ord': return Not(FUno(a, b))
    if pred == 'uno': return FUno(a, b)
    if pred == 'ueq': return Or(FEq(a, b), FUno(a, b))
    if pred == 'une': return Not(FEq(a, b))
    if pred == 'ult': return Not(FLe(b, a))
    if pred == 'ugt': return Not(FLe(a, b))
    if pred == 'ule': return Not(FLt(b, a))
    if pred == 'uge': return Not(FLt(a, b))
    if pred == 'true': return TRUE
    if pred == 'false': return FALSE
    raise ValueError(pred)
def FToI(x, n, is_signed):
    if _finite(x):
        v = int(fval(x))
        lo, hi = (-(1 << (n-1)), (1 << (n-1)) - 1) if is_signed else (0, (1 << n) - 1)
        if lo <= v <= hi: return bv(v, n)
    return mk('fptosi' if is_signed else 'fptoui', (x,), n)
def IToF(x, ty, is_signed):
    if x.op == 'c':
        v = signed(x.val, x.ty) if is_signed else x.val
        return fc(frac_to_float(Fraction(v), ty), ty) if v else fc(0.0, ty)
    if is_signed and x.op == 'zext': is_signed = False
    if not is_signed and x.op == 'zext': return mk('uitofp', (x.args[0],), ty)
    if const_ite(x): return Ite(x.args[0], IToF(x.args[1], ty, is_signed), IToF(x.args[2], ty, is_signed))
    return mk('sitofp' if is_signed else 'uitofp', (x,), ty)
def FCast(x, ty):
    if x.ty == ty: return x
    if x.op == 'c':
        v = fval(x)
        if math.isnan(v): return fbits_c(0x7fc00000 if ty == 'f32' else 0x7ff8000000000000, ty)
        return fc(v, ty) if math.isfinite(v) else fbits_c(f2bits(v, ty), ty)
    return mk('fpext' if ty == 'f64' else 'fptrunc', (x,), ty)
def FRound(x, mode):
    """mode: floor ceil trunc rne rna"""
    if _finite(x):
        v = fval(x)
        r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rne': lambda t: round(t), 'rna': lambda t: math.copysign(math.floor(abs(t) + 0.5), t)}[mode](v)
        return fc(math.copysign(float(r), v), x.ty)
    return mk('fround', (x,), x.ty, mode)
def FRem(a, b):
    return mk('frem', (a, b), a.ty)
def UF(name, args, ty):
    return mk('uf', tuple(args), ty, name)

# ---------------------------------------------------------------- utilities
def topo(roots):
    seen = set(); out = []
    for r in roots:
        st = [(r, 0)]
        while st:
            t, i = st.pop()
            if i == 0:
                if t.id in seen: continue
                seen.add(t.id)
            if i < len(t.args):
                st.append((t, i + 1)); 
                if t.args[i].id not in seen: st.append((t.args[i], 0))
            else: out.append(t)
    return out
def free_vars(*roots): return [t for t in topo(roots) if t.op == 'v']

REBUILD = {}
def rebuild(t, args):
    """re-apply the smart constructor with new arguments"""
    if all(a is b for a, b in zip(t.args, args)): return t
    o = t.op
    if o in ('c', 'v'): return t
    if o == 'not': return Not(*args)
    if o == 'and': return And(*args)
    if o == 'or': return Or(*args)
    if o == 'ite': return Ite(*args)
    if o == 'eq': return Eq(*args)
    if o == 'concat': return Concat(*args)
    if o == 'extract': return Extract(t.val[0], t.val[1], args[0])
    if o == 'zext': return ZExt(args[0], t.ty)
    if o == 'sext': return SExt(args[0], t.ty)
    if o == 'b2bv': return b2bv(args[0])
    if o == 'bvand': return BvAnd(*args)
    if o == 'bvor': return BvOr(*args)
    if o == 'bvxor': return BvXor(*args)
    if o == 'bvnot': return BvNot(*args)
    f = {'add': Add, 'sub': Sub, 'mul': Mul, 'udiv': UDiv, 'urem': URem, 'sdiv': SDiv, 'srem': SRem, 'shl': Shl, 'lshr': LShr,
         'ashr': AShr, 'ult': ULt, 'slt': SLt, 'fbits': fbits, 'fneg': fneg, 'fabs': fabs, 'fadd': FAdd, 'fsub': FSub, 'fmul': FMul,
         'fdiv': FDiv, 'fsqrt': FSqrt, 'feq': FEq, 'flt': FLt, 'fle': FLe, 'frem': FRem}.get(o)
    if f: return f(*args)
    if o == 'ibits': return ibits(args[0], t.ty)
    if o in ('fma', 'fmuladd'): return FFma(*args, kind=o)
    if o == 'fisnan': return FIsNan(args[0])
    if o in ('fptosi', 'fptoui'): return FToI(args[0], t.ty, o == 'fptosi')
    if o in ('sitofp', 'uitofp'): return IToF(args[0], t.ty, o == 'sitofp')
    if o in ('fpext', 'fptrunc'): return FCast(args[0], t.ty)
    if o == 'fround': return FRound(args[0], t.val)
    return mk(o, tuple(args), t.ty, t.val)

def subst(roots, m):
    """m: {Term: Term}; returns the list of substituted roots"""
    memo = {k.id: v for k, v in m.items()}
    for t in topo(roots):
        if t.id not in memo:
            memo[t.id] = rebuild(t, [memo[a.id] for a in t.args])
    return [memo[r.id] for r in roots]
