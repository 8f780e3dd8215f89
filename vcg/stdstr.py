"""Assumed contracts of std::string (a dependency, not code of the repository): the value is a character buffer of symbolic length."""
from .terms import *
from .sym import Ptr, ToolLimit
from .arrays import SymArr, ArrV
from .builtins import note
B = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
class Str(SymArr):
    """owner: the 32-byte string object (pointer at 0, length at 8); element `length` is the terminator"""
    def __init__(s, ex, st, name, owner, ghosts):
        s.owner = owner
        super().__init__(ex, st, name, None, 1, {0: 8}, ghosts=ghosts, align=1, real=False)
    def length(s, ex, st): return ex.load(st, Ptr(s.owner.obj, s.owner.off + 8, s.owner.sym), ('i', 64), 'std::string length')
    def inb(s, ex, st, idx, where): ex.oblige('out-of-bounds', st, ULt(idx, s.length(ex, st)), 'std::string: %s' % where)
def install(ex, st0, ghosts):
    """intercepts for the members of std::string used by the repository; ex.vcg['strs'] lists the strings of the execution"""
    strs = []; ex.vcg = dict(strs=strs)
    def setlen(ex, st, p, n): ex.store(st, Ptr(p.obj, p.off + 8, p.sym), ('i', 64), n, 'std::string')
    def make(ex, st, p):
        if p.sym: raise ToolLimit('array of strings')
        a = Str(ex, st, 'string%d' % len(strs), p, ghosts); strs.append(a)
        ex.store(st, p, 'ptr', a.ptr(), 'std::string'); return a
    def of(ex, st, p):
        q = ex.load(st, p, 'ptr', 'std::string')
        if not isinstance(q, Ptr) or not isinstance(q.obj.meta, Str): raise ToolLimit('std::string of unknown origin')
        return q.obj.meta
    def fill(st, a, lo, hi, c):
        k = a.key(0); st.ghost[k] = ArrV('fill', st.ghost[k], lo, hi, c)
    def ctor_fill(ex, st, v, where):
        note('std::string(n, c)'); a = make(ex, st, v[0]); setlen(ex, st, v[0], v[1]); fill(st, a, bv(0, 64), v[1], v[2])
    def ctor_empty(ex, st, v, where): note('std::string()'); make(ex, st, v[0]); setlen(ex, st, v[0], bv(0, 64))
    def resize(ex, st, v, where):
        note('std::string::resize'); a = of(ex, st, v[0]); n = a.length(ex, st); setlen(ex, st, v[0], v[1]); fill(st, a, n, v[1], v[2] if len(v) > 2 else bv(0, 8))
    def push(ex, st, v, where):
        note('std::string::push_back'); a = of(ex, st, v[0]); n = a.length(ex, st); setlen(ex, st, v[0], Add(n, bv(1, 64))); k = a.key(0)
        st.ghost[k] = ArrV('store', st.ghost[k], n, v[1]); return v[0]
    def append(ex, st, v, where):
        note('std::string::append'); a = of(ex, st, v[0]); n = a.length(ex, st); setlen(ex, st, v[0], Add(n, v[1])); fill(st, a, n, Add(n, v[1]), v[2]); return v[0]
    def nop(ex, st, v, where): return None
    T = {'C2IS3_EEmcRKS3_': ctor_fill, 'C1IS3_EEmcRKS3_': ctor_fill, 'C2Ev': ctor_empty, 'C1Ev': ctor_empty, '6resizeEm': resize, '6resizeEmc': resize,
         '9push_backEc': push, 'pLEc': push, '6appendEmc': append, '7reserveEm': nop, '7reserveEv': nop, 'D2Ev': nop, 'D1Ev': nop}
    for k, fn in T.items(): ex.icp.append((lambda nm, w=B + k: nm == w, fn))
def install_strto(ex):
    """contract of strtoul / strtoull in base 16 on a string of hexadecimal digits: the number they denote"""
    from .sym import Obj
    err = Obj('errno', 4, 'heap')
    ex.icp.append((lambda nm: nm == '__errno_location', lambda ex, st, v, where: Ptr(err)))
    def strto(ex, st, v, where):
        note('strtoul/strtoull'); a = v[0].obj.meta
        if not isinstance(a, Str) or v[0].off or v[0].sym: raise ToolLimit('strtoul of unknown string')
        n = a.length(ex, st)
        if n.op != 'c' or n.val > 16: raise ToolLimit('strtoul of symbolic length')
        ex.oblige('precondition', st, Eq(v[2], bv(16, 32)), 'strtoul base')
        r = bv(0, 64)
        for i in range(n.val):
            c = a.elem(ex, st, bv(i, 64))[0]; dig = And(ULe(bv(48, 8), c), ULe(c, bv(57, 8))); up = And(ULe(bv(65, 8), c), ULe(c, bv(70, 8))); lo = And(ULe(bv(97, 8), c), ULe(c, bv(102, 8)))
            ex.oblige('precondition', st, Or(dig, up, lo), 'strtoul digit')
            x = Ite(dig, Sub(c, bv(48, 8)), Ite(up, Sub(c, bv(55, 8)), Sub(c, bv(87, 8))))
            r = BvOr(Shl(r, bv(4, 64)), ZExt(x, 64))
        q = v[1]
        if isinstance(q, Ptr) and q.obj is not None: ex.store(st, q, 'ptr', Ptr(v[0].obj, v[0].off, ((n, 1),)) if n.op != 'c' else Ptr(v[0].obj, n.val), 'strtoul')
        return r
    ex.icp.append((lambda nm: nm in ('strtoul', 'strtoull', '__isoc23_strtoul', '__isoc23_strtoull'), strto))
