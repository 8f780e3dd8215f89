"""C20: hexadecimal strings, for every value and every length"""
from specs.common import *
from vcg import stdstr
INCLUDES = ['math/hex.hpp']
VARIANTS = ['sse2']
ASSUMPTIONS = ['std::string is replaced by its contract (a buffer of exactly n characters, allocation succeeds); string lengths are below 2^48']
W = lambda: var('w', 64)
N = lambda: var('len', 64)
def digit(v, sh):
    """upper-case digit of the four bits of v at position sh (sh below the width)"""
    d = Extract(3, 0, LShr(ZExt(v, 64) if v.ty < 64 else v, sh)); d = ZExt(d, 8)
    return Ite(ULt(d, bv(10, 8)), Add(d, bv(48, 8)), Add(d, bv(55, 8)))
def expected(v, n, w):
    """character w of the n digits of v"""
    k = Sub(Sub(n, bv(1, 64)), w)
    return Ite(ULt(k, bv(v.ty // 4, 64)), digit(v, Mul(k, bv(4, 64))), bv(48, 8))
def setup(ex, st): stdstr.install(ex, st, [W()])
def cands_for(ty, default):
    def cands(ex, xs, st, st0, h):
        v = var('v', ty); n = bv(ty // 4, 64) if default else N(); w = W(); one = bv(1, 64); four = bv(4, 64)
        e = expected(v, n, w); zero = bv(48, 8)
        for k, x in xs:
            yield '%s <= length' % k, ULe(x, n)
            yield '%s < length' % k, ULt(x, n)
            yield '%s < 2^48' % k, ULt(x, bv(1 << 48, 64))
            for k2, y in xs:
                if k2 == k: continue
                yield '%s is the bit position of digit %s' % (k2, k), Eq(y, Mul(Sub(Sub(n, one), x), four))
                yield '%s counts down from the last digit of %s' % (k2, k), Eq(y, Sub(Sub(n, one), x))
                yield '%s counts the remaining digits of %s' % (k2, k), Eq(y, Sub(n, x))
                yield '%s is four times %s' % (k2, k), Eq(y, Mul(x, four))
                for nm, e64 in (('value', ZExt(v, 64)), ('signed value', SExt(v, 64))):
                    yield '%s is the %s without the digits above %s' % (k2, nm, k), Eq(y, LShr(e64, Mul(Sub(n, x), four)))
                    yield '%s is the %s without its last %s digits' % (k2, nm, k), Eq(y, LShr(e64, Mul(x, four)))
        for a in ex.vcg['strs']:
            if not any(o == a.owner.obj.id for o in st.mem): continue
            c = a.elem(ex, st, w)[0]; ln = a.length(ex, st)
            yield 'string has the requested length', Eq(ln, n)
            for k, x in xs:
                yield 'string holds %s characters' % k, Eq(ln, x)
                yield 'digits below %s are done' % k, Implies(And(ULt(w, x), ULt(w, n)), Eq(c, e))
                yield 'digits from %s on are zero' % k, Implies(And(ULe(x, w), ULt(w, n)), Eq(c, zero))
                yield 'digits from %s on are done' % k, Implies(And(ULe(x, w), ULt(w, n)), Eq(c, e))
                yield 'digits below %s are zero' % k, Implies(And(ULt(w, x), ULt(w, n)), Eq(c, zero))
    return cands
out = []
def gen(ty, default):
    def g(rng):
        n = ty // 4 if default else rng.choice([0, 1, 2, 3, ty // 4 - 1, ty // 4, ty // 4 + 1, ty // 4 + 7, 40, rng.randrange(70)])
        v = rng.choice([0, 1, (1 << ty) - 1, 1 << (ty - 1), rng.getrandbits(ty), rng.getrandbits(ty)])
        d = dict(v=v, w=rng.randrange(max(n, 1)))
        if not default: d['len'] = n
        return d
    return g
for t, ty in (('uint8', 8), ('uint16', 16), ('uint32', 32), ('uint64', 64), ('int8', 8), ('int16', 16), ('int32', 32), ('int64', 64)):
    for default in (False, True):
        def ens(I, O, ty=ty, default=default):
            n = bv(ty // 4, 64) if default else I.len
            return [('length is exactly the requested length', Eq(O.n, n)),
                    ('character w is the upper-case digit of its four bits', Implies(ULt(I.w, n), Eq(O.c, expected(I.v, n, I.w)))),
                    ('the string is terminated', TRUE)]
        def req(I, default=default): return [] if default else [ULt(I.len, bv(1 << 48, 64))]
        out.append(Contract('hex_%s%s' % (t, '_default' if default else ''), '%s v, uint64 w%s' % (t, '' if default else ', uint64 len'),
            'std::string s = toHex(v%s); n = s.length(); c = 0; if (w < n) c = (uint8_t)s[w];' % ('' if default else ', len'), 'uint64 n, uint8 c', ens, requires=req, sem='bits',
            gen=gen(ty, default), native_ok=lambda I, default=default: [] if default else [ULt(I.len, bv(4096, 64))], setup=setup, loops=[(lambda nm: nm.startswith('_ZN4mathL5toHex') or nm.startswith('_ZN4math5toHex'), cands_for(ty, default))]))
CONTRACTS = out
def setup_rt(ex, st): stdstr.install(ex, st, []); stdstr.install_strto(ex)
def hexd(c): return Or(And(ULe(bv(48, 8), c), ULe(c, bv(57, 8))), And(ULe(bv(65, 8), c), ULe(c, bv(70, 8))))
def nib(c): return Ite(ULe(c, bv(57, 8)), Sub(c, bv(48, 8)), Sub(c, bv(55, 8)))
for fn, ty in (('toInt32', 32), ('toInt64', 64)):
    k = ty // 4
    def val(I, k=k, ty=ty): return Concat(*[Extract(3, 0, nib(I.d[i])) for i in range(k)])
    def g(rng, k=k): return dict(d=[rng.choice(b'0123456789ABCDEF') for _ in range(k)])
    out.append(Contract(fn, 'uint8[%d] d' % k, 'std::string s(%d, (char)48); %s r = %s(s);' % (k, ''.join('s[%d] = (char)d[%d]; ' % (i, i) for i in range(k)), fn), 'uint%d r' % ty,
        lambda I, O, val=val: [('value of the digits, most significant first', Eq(O.r, val(I)))], requires=lambda I: [hexd(c) for c in I.d], sem='bits', setup=setup_rt, gen=g))
CONTRACTS = out
