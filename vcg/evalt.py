"""Concrete evaluation of terms: exact bits for integers and floats, tolerance-aware three-valued evaluation for reals."""
import math
from fractions import Fraction
from .terms import *

class Undef(Exception): pass
TOL = 2e-3

def _f(b, ty): return bits_to_float(b, ty)
def _b(x, ty):
    if ty == 'f32':
        x = to_f32(x)
    return f2bits(x, ty)
def _nan(ty): return 0x7fc00000 if ty == 'f32' else 0x7ff8000000000000

_LIBM = {}
def libm(name, args, ty):
    """the C library function itself"""
    k = (name, len(args), ty)
    if k not in _LIBM:
        import ctypes
        f = getattr(ctypes.CDLL('libm.so.6'), name + ('f' if ty == 'f32' else '')); T = ctypes.c_float if ty == 'f32' else ctypes.c_double
        f.argtypes = [T] * len(args); f.restype = T; _LIBM[k] = f
    r = _LIBM[k](*args)
    return _nan(ty) if math.isnan(r) else f2bits(r, ty)

def fop(op, a, b, ty):
    x, y = _f(a, ty), _f(b, ty)
    if math.isnan(x) or math.isnan(y): return _nan(ty)
    fin = math.isfinite(x) and math.isfinite(y)
    try:
        if op == 'fadd': r = x + y
        elif op == 'fsub': r = x - y
        elif op == 'fmul': r = x * y
        elif op == 'fdiv':
            if y == 0:
                if x == 0 or math.isnan(x): return _nan(ty)
                return _b(math.copysign(math.inf, math.copysign(1, x) * math.copysign(1, y)), ty)
            r = x / y
    except OverflowError:
        r = math.inf
    if math.isnan(r): return _nan(ty)
    if ty == 'f32' and fin:
        # double rounding is innocuous for + - * / from binary64 to binary32
        return _b(r, ty)
    return _b(r, ty)

def ffma(a, b, c, ty):
    x, y, z = _f(a, ty), _f(b, ty), _f(c, ty)
    if all(map(math.isfinite, (x, y, z))):
        r = Fraction(x) * Fraction(y) + Fraction(z)
        if r == 0: return _b(x * y + z, ty)
        return f2bits(frac_to_float(r, ty), ty)
    try: r = x * y + z
    except OverflowError: r = math.nan
    return _nan(ty) if math.isnan(r) else _b(r, ty)

def fround(x, mode):
    if not math.isfinite(x): return x
    r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rne': round, 'rna': lambda t: math.copysign(math.floor(abs(t) + 0.5), t)}[mode](x)
    return math.copysign(float(r), x)

RUF = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2,
       'exp': math.exp, 'exp2': lambda x: 2.0 ** x, 'log': math.log, 'log2': math.log2, 'pow': math.pow, 'log10': math.log10}

def ev_real(t, a):
    """(value, magnitude)"""
    o = t.op
    if o == 'radd': return (a[0][0] + a[1][0], a[0][1] + a[1][1])
    if o == 'rmul': return (a[0][0] * a[1][0], a[0][1] * a[1][1])
    if o == 'rdiv':
        (x, mx), (y, my) = a
        if abs(y) <= 1e-6 * my or y == 0: raise Undef('division by ~0')
        return (x / y, (mx / abs(y)) * (my / abs(y)))
    if o == 'rsqrt':
        x, m = a[0]
        if x < 0:
            if x < -1e-5 * m: raise Undef('sqrt of negative')
            x = 0.0
        r = math.sqrt(x)
        return (r, max(r, math.sqrt(m) if x <= 1e-6 * m else r * min(1e3, m / x)))
    if o == 'rfloor':
        x, m = a[0]
        if abs(x - round(x)) < 1e-5 * max(m, 1): raise Undef('floor near integer')
        f = float(math.floor(x)); return (f, abs(f))
    if o == 'ruf':
        try: r = RUF[t.val](*[x[0] for x in a])
        except (ValueError, OverflowError, ZeroDivisionError, KeyError): raise Undef('uf')
        return (r, abs(r) + sum(min(x[1], 1e6) for x in a))
    if o == 'rofint': return (float(a[0]), abs(float(a[0])))
    raise Undef('real op ' + o)

def ev_exact(t, a):
    """rational arithmetic, no tolerance"""
    o = t.op; x = a[0][0] if isinstance(a[0], tuple) else a[0]
    if o == 'radd': return (x + a[1][0], 0)
    if o == 'rmul': return (x * a[1][0], 0)
    if o == 'rdiv':
        if a[1][0] == 0: raise Undef('division by 0')
        return (x / a[1][0], 0)
    if o == 'rsqrt':
        if x < 0: raise Undef('sqrt of negative')
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n != x.numerator or d * d != x.denominator: raise Undef('irrational')
        return (Fraction(n, d), 0)
    if o == 'rfloor': return (Fraction(math.floor(x)), 0)
    if o == 'rofint': return (Fraction(x), 0)
    raise Undef('real op ' + o)

def evalt(roots, env, tol=TOL, real_tol=True):
    """env: {Term var: value}; bools are True/False/None (unknown), bit-vectors ints, floats bit patterns, reals (value, magnitude).
    Undefined sub-terms evaluate to None."""
    memo = {}
    # leaves computed by the code under cancellation are as inexact as the largest values in play
    if tol == 0:
        for t in topo(roots):
            try: memo[t.id] = _ev(t, memo, env, 0, 0)
            except (Undef, OverflowError, ZeroDivisionError): memo[t.id] = None
        return [memo[r.id] for r in roots]
    floor = 0.3 * tol * max([abs(v[0]) for v in env.values() if isinstance(v, tuple) and math.isfinite(v[0])], default=0.0)
    for t in topo(roots):
        try: memo[t.id] = _ev(t, memo, env, tol, floor)
        except Undef: memo[t.id] = None
        except (OverflowError, ZeroDivisionError): memo[t.id] = None
    return [memo[r.id] for r in roots]

def _ev(t, memo, env, tol, floor=0.0):
    o = t.op; ty = t.ty
    if o == 'c':
        if ty == 'r': return (float(t.val), abs(float(t.val))) if tol else (Fraction(t.val), 0)
        return t.val
    if o == 'v':
        if t in env: return env[t] if tol or ty != 'r' else (Fraction(env[t][0]), 0)
        raise Undef('free ' + t.val)
    a = [memo[x.id] for x in t.args]
    # three-valued logic
    if o == 'not': return None if a[0] is None else not a[0]
    if o == 'and':
        if any(x is False for x in a): return False
        return None if any(x is None for x in a) else True
    if o == 'or':
        if any(x is True for x in a): return True
        return None if any(x is None for x in a) else False
    if o == 'ite':
        if a[0] is None:
            if a[1] is not None and a[2] is not None:
                if ty == 'r' and abs(a[1][0] - a[2][0]) <= 1e-6 * (a[1][1] + a[2][1]): return (a[1][0], max(a[1][1], a[2][1]))
                if ty != 'r' and a[1] == a[2]: return a[1]
            raise Undef('ite')
        r = a[1] if a[0] else a[2]
        if r is None: raise Undef('ite branch')
        return r
    if any(x is None for x in a): raise Undef('arg')
    if o == 'eq':
        return a[0] == a[1]
    if o in ('req', 'rle', 'rlt'):
        (x, mx), (y, my) = a; e = tol * (mx + my) + floor + 1e-30 if tol else 0
        if o == 'req': return abs(x - y) <= e      # equality up to tolerance counts as true
        if not tol: return x <= y if o == 'rle' else x < y
        if abs(x - y) <= e: return None
        return x < y
    if ty == 'r': return ev_real(t, a) if tol else ev_exact(t, a)
    if isinstance(ty, int) or ty == 'b': return _ev_bv(t, a, tol)
    w = ty
    if o == 'ibits': return a[0]
    if o == 'fneg': return a[0] ^ SIGN[w]
    if o == 'fabs': return a[0] & ~SIGN[w]
    if o in ('fadd', 'fsub', 'fmul', 'fdiv'): return fop(o, a[0], a[1], w)
    if o == 'fma': return ffma(*a, w)
    if o == 'fmuladd': return fop('fadd', fop('fmul', a[0], a[1], w), a[2], w)
    if o == 'fsqrt':
        x = _f(a[0], w)
        if math.isnan(x) or x < 0: return _nan(w)
        return _b(math.sqrt(x), w) if math.isfinite(x) else a[0]
    if o == 'fround': 
        x = _f(a[0], w); return _b(fround(x, t.val), w)
    if o in ('uitofp', 'sitofp'):
        n = t.args[0].ty; v = signed(a[0], n) if o == 'sitofp' else a[0]
        return f2bits(frac_to_float(Fraction(v), w), w)
    if o in ('fpext', 'fptrunc'):
        x = _f(a[0], t.args[0].ty)
        return _nan(w) if math.isnan(x) else _b(x, w)
    if o == 'frem':
        x, y = _f(a[0], w), _f(a[1], w)
        try: return _b(math.fmod(x, y), w)
        except ValueError: return _nan(w)
    if o == 'uf':
        try: return libm(t.val, [_f(x, w) for x in a], w)
        except (ValueError, OverflowError, KeyError, AttributeError): raise Undef('uf')
    raise Undef('op ' + o)

def _ev_bv(t, a, tol=1):
    o = t.op; n = t.ty
    m = (1 << n) - 1 if isinstance(n, int) else None
    A = t.args
    if o == 'concat':
        r = 0
        for x, y in zip(A, a): r = (r << x.ty) | y
        return r
    if o == 'extract': return (a[0] >> t.val[1]) & m
    if o == 'zext': return a[0]
    if o == 'sext': return signed(a[0], A[0].ty) & m
    if o == 'b2bv': return int(a[0])
    if o == 'bvand':
        r = m
        for x in a: r &= x
        return r
    if o == 'bvor':
        r = 0
        for x in a: r |= x
        return r
    if o == 'bvxor':
        r = 0
        for x in a: r ^= x
        return r
    if o == 'bvnot': return ~a[0] & m
    if o == 'add': return (a[0] + a[1]) & m
    if o == 'sub': return (a[0] - a[1]) & m
    if o == 'mul': return (a[0] * a[1]) & m
    if o == 'udiv':
        if not a[1]: raise Undef('div0')
        return a[0] // a[1]
    if o == 'urem':
        if not a[1]: raise Undef('div0')
        return a[0] % a[1]
    if o in ('sdiv', 'srem'):
        x, y = signed(a[0], n), signed(a[1], n)
        if not y: raise Undef('div0')
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if o == 'sdiv' else x - q * y) & m
    if o == 'shl': return (a[0] << a[1]) & m if a[1] < n else 0
    if o == 'lshr': return a[0] >> a[1] if a[1] < n else 0
    if o == 'ashr': return (signed(a[0], n) >> min(a[1], n - 1)) & m
    if o == 'ult': return a[0] < a[1]
    if o == 'slt': return signed(a[0], A[0].ty) < signed(a[1], A[0].ty)
    if o == 'fbits': return a[0]
    if o in ('feq', 'flt', 'fle'):
        x, y = _f(a[0], A[0].ty), _f(a[1], A[0].ty)
        return {'feq': x == y, 'flt': x < y, 'fle': x <= y}[o]
    if o == 'fisnan': return math.isnan(_f(a[0], A[0].ty))
    if o == 'fsame':      # same bits, or both NaN
        x, y = _f(a[0], A[0].ty), _f(a[1], A[0].ty)
        return a[0] == a[1] or (math.isnan(x) and math.isnan(y))
    if o == 'fp_fits':
        x = _f(a[0], A[0].ty); k, sg = t.val
        if not math.isfinite(x): return False
        v = math.trunc(x)
        return (-(1 << (k - 1)) <= v < (1 << (k - 1))) if sg else (0 <= v < (1 << k))
    if o in ('fptosi', 'fptoui'):
        x = _f(a[0], A[0].ty)
        if not math.isfinite(x): raise Undef('fptoi')
        v = math.trunc(x)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if o == 'fptosi' else (0, (1 << n) - 1)
        if not lo <= v <= hi: raise Undef('fptoi')
        return v & m
    if o == 'r2bv':
        x = a[0][0]
        if tol and abs(x - round(x)) < 1e-6 * max(1, a[0][1]): raise Undef('r2bv')
        return int(x) & m
    if o == 'r_fits': raise Undef(o)
    raise Undef('op ' + o)
