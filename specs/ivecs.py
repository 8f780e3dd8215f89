"""integer vector vocabulary shared by C01 and C03"""
from specs.common import *
SIMD = {'i32x4': 'int', 'u32x4': 'uint'}
def base(t): return SIMD.get(t) or t[:-1]
def dim(t): return 4 if t in SIMD else int(t[-1])
def sc(t): return base(t) + '32'
def signed_t(t): return base(t) == 'int'
def uvec(t): return 'u32x4' if t in SIMD else 'uint%d' % dim(t)
TYPES = ['int2', 'int3', 'int4', 'uint2', 'uint3', 'uint4', 'i32x4', 'u32x4']
def bc(x, n): return [x] * n
def fields(*fs): return ', '.join(fs)
MIN = bv(1 << 31, 32); M1 = bv(-1, 32); Z = bv(0, 32)
def div_ok(a, b, sg):
    r = [Ne(b, Z)]
    if sg: r.append(Not(And(Eq(a, MIN), Eq(b, M1))))
    return And(*r)
def lt(sg): return SLt if sg else ULt
def imin(sg): return lambda a, b: Ite(lt(sg)(a, b), a, b)
def imax(sg): return lambda a, b: Ite(lt(sg)(a, b), b, a)
def fold(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r
OPS = {'+': Add, '-': Sub, '*': Mul, '&': BvAnd, '|': BvOr, '^': BvXor}
NM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '>>': 'shr', '<<': 'shl', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}
def opf(o, sg):
    if o in OPS: return OPS[o]
    return {'/': SDiv if sg else UDiv, '%': SRem if sg else URem, '>>': AShr if sg else LShr, '<<': Shl}[o]
def cmpf(o, sg):
    l = lt(sg)
    return {'<': l, '>': lambda a, b: l(b, a), '<=': lambda a, b: Not(l(b, a)), '>=': lambda a, b: Not(l(a, b)), '==': Eq, '!=': lambda a, b: Not(Eq(a, b))}[o]
