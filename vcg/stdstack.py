"""Assumed contract of std::stack<T*> (a dependency): a sequence of pointers into one array, with push, pop, top, empty and size."""
import re
from .terms import *
from .sym import Ptr, ToolLimit
from .arrays import SymArr, ArrV, arr_read, touch, Fold
from .builtins import note
from .stdvec import dem
PAT = re.compile(r'std::stack<(.*?)\*, std::deque<\1\*, std::allocator<\1\*> ?> ?>::(~?\w+)(?:<.*>)?\((.*)\)( const)?$')
class Stk(SymArr):
    """slots hold element indices of the target array"""
    cls = 'stk'
    def __init__(s, ex, st, name, target, depth):
        super().__init__(ex, st, name, None, 8, {0: 64}, real=False); s.dk = ('depth', name); st.ghost[s.dk] = depth; s.target = target
        s.occ = Fold(ex, s, 0, lambda i, v, k: Ite(Eq(v, k), bv(1, 64), bv(0, 64)), 'occ')
    def depth(s, st): return st.ghost[s.dk]
    def load(s, ex, st, p, size, ty, where):
        if ty != 'ptr': raise ToolLimit('stack slot read as integer')
        idx, f = s.index(p); touch(ex, s.cls, idx)
        return s.target().ptr_at(s.get(ex, st, idx))
    def store(s, *a): raise ToolLimit('write to a stack slot')
    def occurs(s, st, k):
        """how often the element index k is on the stack"""
        return s.occ.of(st, s.depth(st), k)
    def slot(s, ex, st, i): return s.get(ex, st, i)
def install(ex, st0, target):
    """target(): the array that the pointers point into"""
    tab = {}; ex.stacks = tab
    def stk(st, p):
        if not isinstance(p, Ptr) or p.sym: raise ToolLimit('std::stack of unknown identity')
        k = (p.obj.id, p.off)
        if k not in tab: raise ToolLimit('std::stack of unknown state')
        return tab[k]
    def new(ex, st, p, depth):
        k = (p.obj.id, p.off); tab[k] = Stk(ex, st, 'stack#%d' % len(tab), target, depth); return tab[k]
    ex.newstack = new; ex.getstack = stk
    def run(ex, st, fn, sig, v):
        note('std::stack::%s' % fn)
        if fn == 'stack' and sig == '': new(ex, st, v[0], bv(0, 64)); return None
        if fn == '~stack': return None
        s = stk(st, v[0]); d = s.depth(st)
        if fn == 'empty': return Eq(d, bv(0, 64))
        if fn == 'size': return d
        if fn == 'push':
            q = ex.load(st, v[1], 'ptr', 'std::stack::push')
            if not isinstance(q, Ptr) or q.obj is not s.target().obj: raise ToolLimit('foreign pointer pushed')
            i, f = q.obj.meta.index(q)
            if f: raise ToolLimit('inner pointer pushed')
            # the element fits into memory (push throws otherwise)
            ex.facts.append(Implies(st.pc, ULt(d, bv(1 << 48, 64)))); touch(ex, 'stk', d); s.put(ex, st, d, i); st.ghost[s.dk] = Add(d, bv(1, 64)); return None
        if fn in ('pop', 'top'):
            ex.oblige('precondition', st, ULt(bv(0, 64), d), 'std::stack::%s on an empty stack' % fn); last = Sub(d, bv(1, 64)); touch(ex, 'stk', last)
            if fn == 'top': return s.ptr_at(last)
            st.ghost[s.dk] = last; return None
        return NotImplemented
    class H:
        def __init__(s, g): s.g = g
        def __call__(s, ex, st, args, where): return run(ex, st, s.g[1], s.g[2], args)
    def pred(nm):
        if 'St5stackI' not in nm or not nm.startswith('_ZN'): return None
        m = PAT.match(dem(nm)); return m and m.groups()
    ex.icp_multi.append(lambda nm: H(pred(nm)) if pred(nm) else None)
