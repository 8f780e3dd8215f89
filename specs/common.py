"""shared vocabulary of the contracts"""
from vcg.contract import Contract
from vcg.terms import *
from vcg.terms import fabs as FAbs, fneg as FNeg
from vcg.real import R, rc, sqrt, rabs, rmin, rmax, rite, f32, uf, REq, RLe, RLt, rvar
from vcg import real, smt
def fsame(a, b):
    """bit-identical, or both NaN"""
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return boolc(a.val == b.val)
    if a.id > b.id: a, b = b, a
    return mk('fsame', (a, b), 'b')
def iff(a, b): return Eq(a, b)
def zipn(name, xs, ys, f): return [('%s[%d]' % (name, i), f(x, y)) for i, (x, y) in enumerate(zip(xs, ys))]
ALL1 = lambda n: bv(-1, n)
def mask(c, n=32): return Ite(c, bv(-1, n), bv(0, n))
def dot(a, b): 
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]): r = r + x * y
    return r
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vscale(a, s): return [x * s for x in a]
def veq(name, a, b): return [('%s[%d]' % (name, i), x.eq(y)) for i, (x, y) in enumerate(zip(a, b))]
# ---- callee contracts assumed for the SIMD transcendental approximations (checked on their own, within bounds, in C29)
from vcg import builtins as _bi
def lanes_of_i64(a, b):
    """the four floats of an f32x4 passed in two 64-bit registers"""
    return [ibits(Extract(31, 0, a), 'f32'), ibits(Extract(63, 32, a), 'f32'), ibits(Extract(31, 0, b), 'f32'), ibits(Extract(63, 32, b), 'f32')]
def _sincos(ex, st, args, where):
    from vcg.sym import Ptr
    v = lanes_of_i64(args[0], args[1]); _bi.note('math::sinCos (assumed: sine and cosine of each component)')
    for p, n in ((args[2], 'sin'), (args[3], 'cos')):
        for i, x in enumerate(v): ex.store(st, Ptr(p.obj, p.off + 4 * i, p.sym), 'float', mk('uf', (x,), 'f32', n), 'sinCos')
    return None
SINCOS = (lambda n: n.startswith('_ZN4mathL6sinCosENS_5f32x4E'), _sincos)
# ---- quaternions (x, y, z, w)
def qmul(p, q):
    x, y, z, w = p; a, b, c, d = q
    return [w * a + x * d + y * c - z * b, w * b + y * d + z * a - x * c, w * c + z * d + x * b - y * a, w * d - x * a - y * b - z * c]
def qconj(q): return [-q[0], -q[1], -q[2], q[3]]
def qrot(q, v):
    """q v q* (for unit q the rotation by q)"""
    return qmul(qmul(q, [v[0], v[1], v[2], R.of(0)]), qconj(q))[:3]
def unit(v): return dot(v, v).eq(1)
def rotm(q):
    """columns of the rotation matrix of q"""
    return [qrot(q, [R.of(1 if i == k else 0) for i in range(3)]) for k in range(3)]
def rd4(ex, st, p, off=0):
    from vcg.sym import Ptr
    return [ex.load(st, Ptr(p.obj, p.off + off + 4 * i, p.sym), 'float', 'contract') for i in range(4)]
def pre(ex, st, what, goal):
    """obligation: the callee's precondition holds at the call"""
    ex.obl.append(('precondition', st.pc, goal, what))
def pack(v):
    """an f32x4 returned in two 64-bit registers"""
    return [Concat(fbits(v[1]), fbits(v[0])), Concat(fbits(v[3]), fbits(v[2]))]
def extract_quat_contract(ghost):
    """contract of math::extractQuat, proved in C08/extract_quat: for the rotation matrix of a unit quaternion g the result is g or -g.
    ghost: names of the input holding g (instantiation of the contract at the call)"""
    def h(ex, st, args, where):
        cols = [rd4(ex, st, args[0], 16 * c) for c in range(3)]
        g = [R(rvar('%s.%d' % (ghost, i))) for i in range(4)]; m = rotm(g)
        for c in range(3):
            for r in range(3): pre(ex, st, 'extractQuat: matrix is the rotation matrix of %s, c%d r%d' % (ghost, c, r), REq(cols[c][r], m[c][r].t))
        k = [ex.newvar('xq%d' % i, 'f32') for i in range(4)]
        ex.facts.append(Or(And(*[REq(k[i], g[i].t) for i in range(4)]), And(*[REq(k[i], (-g[i]).t) for i in range(4)])))
        return pack(k)
    return (lambda n: n.startswith('_ZN4mathL11extractQuatE'), h)
