"""C22: enum flag operators, for all values of every underlying width"""
from specs.common import *
from vcg import cxx
INCLUDES = ['math/flags.hpp']
VARIANTS = ['sse2', 'debug']
W = (('uint8', 8), ('uint16', 16), ('uint32', 32), ('uint64', 64), ('int32', 32))
PRELUDE = 'namespace math {\n' + ''.join('enum class E_%s : %s {};\nDECLARE_ENUM_CLASS_FLAG_OPERATORS(E_%s)\n' % (t, cxx.CNAME[t], t) for t, _ in W) + '}\n'
out = []
for t, n in W:
    E = 'E_' + t; T = cxx.CNAME[t]; z = bv(0, n)
    cast = '%s x = (%s)a, y = (%s)b; ' % (E, E, E)
    def one(name, body, outs, ens): out.append(Contract('%s_%s' % (name, t), '%s a, %s b' % (t, t), cast + body, outs, ens, sem='bits'))
    one('binary', 'r = (%s)(x | y); s = (%s)(x & y); u = (%s)(x ^ y);' % (T, T, T), '%s r, %s s, %s u' % (t, t, t),
        lambda I, O: [('or', Eq(O.r, BvOr(I.a, I.b))), ('and', Eq(O.s, BvAnd(I.a, I.b))), ('xor', Eq(O.u, BvXor(I.a, I.b)))])
    one('unary', 'r = (%s)(~x); s = (%s)(!x);' % (T, T), '%s r, %s s' % (t, t), lambda I, O, n=n, z=z: [('complement', Eq(O.r, BvNot(I.a))), ('not', Eq(O.s, Ite(Eq(I.a, z), bv(1, n), z)))])
    one('assign', '%s p = x, q = x, k = x, w = x; auto& pr = (p |= y); auto& qr = (q &= y); auto& kr = (k ^= y); r = (%s)p; s = (%s)q; u = (%s)k; same = &pr == &p && &qr == &q && &kr == &k; (w |= y) &= x; v = (%s)w;' % (E, T, T, T, T), '%s r, %s s, %s u, %s v, bool same' % (t, t, t, t),
        lambda I, O: [('or assignment', Eq(O.r, BvOr(I.a, I.b))), ('and assignment', Eq(O.s, BvAnd(I.a, I.b))), ('xor assignment', Eq(O.u, BvXor(I.a, I.b))), ('assignments return their left operand', And(O.same, Eq(O.v, I.a)))])
    one('query', 'r = hasAnyFlag(x, y); s = hasOneFlag(x, y);', 'bool r, bool s',
        lambda I, O, z=z: [('any flag: the values share a bit', iff(O.r, Not(Eq(BvAnd(I.a, I.b), z)))), ('one flag: all bits of the first are bits of the second', iff(O.s, Eq(BvAnd(I.a, BvNot(I.b)), z)))])
CONTRACTS = out
