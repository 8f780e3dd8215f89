"""Symbolic execution (strongest postconditions) of LLVM IR into terms."""
import itertools, re, sys
from .terms import *
from .ir import IRError

sys.setrecursionlimit(20000)

class ToolLimit(Exception):
    """the machinery cannot decide (never reported as a violation)"""

class Obj:
    _n = itertools.count(1)
    __slots__ = ('id', 'name', 'size', 'kind', 'lazy', 'meta', 'align')
    def __init__(s, name, size, kind, lazy=None, meta=None, align=None):
        s.id = next(Obj._n); s.name = name; s.align = align; s.size = size; s.kind = kind; s.lazy = lazy; s.meta = meta
    def __repr__(s): return 'Obj(%s)' % s.name

class Ptr:
    """obj + off + sum(idx*stride)"""
    __slots__ = ('obj', 'off', 'sym')
    def __init__(s, obj, off=0, sym=()): s.obj = obj; s.off = off; s.sym = sym
    def __repr__(s): return 'Ptr(%s+%s%s)' % (s.obj, s.off, s.sym or '')
    def key(s): return (s.obj.id if s.obj else 0, s.off, tuple((t.id, k) for t, k in s.sym))
NULL = Ptr(None, 0)
class PtrIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return '&' + s.name
def is_ptr(v): return isinstance(v, (Ptr, PtrIte, FnPtr))

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.key() == b.key()
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    if isinstance(a, PtrIte) and isinstance(b, PtrIte): return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False
def vite(c, a, b):
    """if-then-else on executor values"""
    if c.op == 'c': return a if c.val else b
    if same(a, b): return a
    if isinstance(a, list): return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None and hasattr(a.obj.meta, 'ptr_at') and (a.off - b.off) % a.obj.meta.stride == 0:
        i, f = a.obj.meta.index(a); j, _ = b.obj.meta.index(b)
        p = a.obj.meta.ptr_at(Ite(c, i, j)); return Ptr(p.obj, p.off + f, p.sym)
    if is_ptr(a) or is_ptr(b): return PtrIte(c, a, b)
    if type(a).__name__ == 'ArrV':
        from .arrays import arr_ite
        return arr_ite(c, a, b)
    if isinstance(a, Term): return mkfite(c, a, b) if isfloat(a.ty) else Ite(c, a, b)
    if a is None or b is None: return a if b is None else b
    raise ToolLimit('cannot merge %r %r' % (a, b))

class State:
    __slots__ = ('mem', 'own', 'pc', 'ghost')
    def __init__(s): s.mem = {}; s.own = set(); s.pc = TRUE; s.ghost = {}
    def fork(s):
        n = State(); n.mem = dict(s.mem); n.pc = s.pc; s.own = set(); n.ghost = dict(s.ghost); return n
    def cells(s, o, write=False):
        c = s.mem.get(o.id)
        if c is None: c = {}; s.mem[o.id] = c; s.own.add(o.id)
        if write and o.id not in s.own:
            c = dict(c); s.mem[o.id] = c; s.own.add(o.id)
        return c

def conj(t): return t.args if t.op == 'and' else (t,)
def split_pc(p1, p2):
    s1 = set(x.id for x in conj(p1)); s2 = set(x.id for x in conj(p2))
    d1 = And(*[x for x in conj(p1) if x.id not in s2])
    return d1

class Exec:
    def __init__(self, mod, merge=True, intercepts=None, max_steps=2000000, check_ub=True):
        self.m = mod; self.merge = merge; self.icp = list(intercepts or []); self.icp_multi = []; self.icache = {}
        self.obl = []; self.fresh = itertools.count(); self.steps = 0; self.max_steps = max_steps
        self.globs = {}; self.base = None; self.calls = {}; self.check_ub = check_ub
        self.facts = []      # assumed facts about fresh symbols (callee contracts), Terms
        self.noret = []      # (what, pc)
        self.depth = 0; self.loopman = None; self.base_id = next(Obj._n)
    # ------------------------------------------------------------ helpers
    def newvar(self, name, ty): return var('%s!%d' % (name, next(self.fresh)), ty)
    def oblige(self, kind, st, goal, where):
        if not self.check_ub: return
        g = Implies(st.pc, goal)
        if g is not TRUE: self.obl.append((kind, st.pc, goal, where))
    def tyof(self, t):
        t = self.m.resolve(t)
        if t == 'float': return 'f32'
        if t == 'double': return 'f64'
        if t == 'x86_fp80': return 'f64'
        if t == 'ptr': return 'ptr'
        if t[0] == 'i': return 'b' if t[1] == 1 else t[1]
        return t
    def init_state(self):
        """a state in which all global constructors have run"""
        if self.base is None:
            st = State(); self.base = st
            for prio, fn in sorted(self.m.ctors, key=lambda x: x[0]):
                if fn in self.m.funcs:
                    if 'ios_base' in fn: continue
                    r = self.call_fn(st, fn, [], None)
                    if len(r) != 1: raise ToolLimit('global constructor forks')
                    st = r[0][0]
            self.base = st; self.obl = []
        return self.base.fork()
    def globptr(self, name, st):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or (name in self.m.decls and name not in self.m.globals): return FnPtr(name)
        o = self.globs.get(name)
        if o is None:
            t, init, const = self.m.globals[name]
            o = Obj('@' + name, self.m.sizeof(t) if t != 'opaque' else 0, 'global'); self.globs[name] = o
            o.meta = (t, init)
        return Ptr(o)
    def glob_init(self, o, st):
        if o.id in st.mem: return
        t, init = o.meta
        st.mem[o.id] = {}; st.own.add(o.id)
        if init is not None:
            self.store(st, Ptr(o), t, self.const(t, init, st), raw=True)
    # ------------------------------------------------------------ constants / values
    def const(self, t, v, st):
        t = self.m.resolve(t); k = v[0]
        if k == 'undef' or k == 'zero':
            if t == 'ptr': return NULL
            if isinstance(t, tuple) and t[0] in ('vec', 'arr'):
                return [self.const(t[2], v, st) for _ in range(t[1])]
            if isinstance(t, tuple) and t[0] == 'struct': return [self.const(e, v, st) for e in t[1]]
            ty = self.tyof(t)
            if k == 'undef': return self.newvar('undef', ty)
            return FALSE if ty == 'b' else fbits_c(0, ty) if isfloat(ty) else bv(0, ty)
        if k == 'cint':
            ty = self.tyof(t); return boolc(v[1] & 1) if ty == 'b' else bv(v[1], ty)
        if k == 'cflt':
            ty = self.tyof(t)
            if v[1][0] != 'dbits': raise ToolLimit('long double constant')
            if ty == 'f64': return fbits_c(v[1][1], 'f64')
            d = bits_to_float(v[1][1], 'f64')
            if d != d: return fbits_c(((v[1][1] >> 63) << 31) | 0x7f800000 | ((v[1][1] >> 29) & 0x7fffff), 'f32')
            return fc(d, 'f32')
        if k == 'null': return NULL
        if k == 'glob': return self.globptr(v[1], st)
        if k == 'cagg': return [self.const(et, ev, st) for et, ev in v[1]]
        if k == 'cstr': return [bv(b, 8) for b in v[1]]
        if k == 'cgep':
            base = self.const(v[2][0][0], v[2][0][1], st)
            return self.gep(v[1], base, [(tt, self.const(tt, x, st)) for tt, x in v[2][1:]])
        if k == 'ccast':
            x = self.const(v[2], v[3], st)
            return self.cast(v[1], v[2], x, v[4], st)
        raise ToolLimit('const %r' % (v,))
    def val(self, t, v, env, st):
        if v[0] == 'reg':
            try: return env[v[1]]
            except KeyError: raise ToolLimit('use of undefined %' + v[1])
        return self.const(t, v, st)
    # ------------------------------------------------------------ bits
    def to_bits(self, v, t):
        t = self.m.resolve(t)
        if isinstance(v, list):
            et = t[2]
            return Concat(*[self.to_bits(x, et) for x in reversed(v)])
        if is_ptr(v): raise ToolLimit('bits of pointer')
        if v.ty == 'b': return b2bv(v, 1)
        return fbits(v) if isfloat(v.ty) else v
    def from_bits(self, b, t):
        t = self.m.resolve(t)
        if isinstance(t, tuple) and t[0] == 'vec':
            w = self.m.bits(t[2])
            return [self.from_bits(Extract(w * (i + 1) - 1, w * i, b), t[2]) for i in range(t[1])]
        ty = self.tyof(t)
        if ty == 'b': return bv2b(b)
        if isfloat(ty): return ibits(b, ty)
        if ty == 'ptr': raise ToolLimit('pointer from bits')
        return b
    # ------------------------------------------------------------ memory
    def gep(self, bt, base, idx):
        if isinstance(base, PtrIte): return PtrIte(base.c, self.gep(bt, base.a, idx), self.gep(bt, base.b, idx))
        off = base.off; sym = list(base.sym); t = bt
        def addidx(i, stride):
            nonlocal off
            if i.op == 'c': off += signed(i.val, i.ty) * stride
            else:
                i64 = SExt(i, 64) if i.ty != 64 else i
                if i64.op == 'add' and i64.args[1].op == 'c':
                    off += signed(i64.args[1].val, 64) * stride; i64 = i64.args[0]
                for k, (x, s) in enumerate(sym):
                    if s == stride:
                        sym[k] = (Add(x, i64), s)
                        return
                sym.append((i64, stride))
        first = True
        for ti, i in idx:
            if first: addidx(i, self.m.sizeof(t)); first = False; continue
            t = self.m.resolve(t)
            if t[0] == 'struct':
                k = i.val; off += self.m.layout(t)[2][k]; t = t[1][k]
            elif t[0] in ('arr', 'vec'):
                t = t[2]; addidx(i, self.m.sizeof(t))
            else: raise ToolLimit('gep %r' % (t,))
        return Ptr(base.obj, off, tuple(sym))
    def chk(self, st, p, size, what):
        o = p.obj
        if o is None:
            self.oblige('null-deref', st, FALSE, what); raise DeadPath()
        if not p.sym and o.size is not None and (p.off < 0 or p.off + size > o.size):
            self.oblige('out-of-bounds', st, FALSE, '%s: %s+%d..%d of %d' % (what, o.name, p.off, p.off + size, o.size))
            raise DeadPath()
    def aligned(self, st, p, n, what):
        if n <= 1: return
        if isinstance(p, PtrIte): self.aligned(st, p.a, n, what); self.aligned(st, p.b, n, what); return
        if not isinstance(p, Ptr) or p.obj is None or p.obj.align is None: return
        if p.obj.align % n or p.off % n or any(k % n for _, k in p.sym): self.oblige('misaligned', st, FALSE, what)
    def load(self, st, p, t, where=''):
        t = self.m.resolve(t)
        if isinstance(p, PtrIte):
            return vite(p.c, self.load(st, p.a, t, where), self.load(st, p.b, t, where))
        if isinstance(t, tuple) and t[0] in ('vec', 'arr'):
            s = self.m.sizeof(t[2])
            if t[0] == 'vec': s = self.m.bits(t[2]) // 8
            return [self.load(st, Ptr(p.obj, p.off + i * s, p.sym), t[2], where) for i in range(t[1])]
        if isinstance(t, tuple) and t[0] == 'struct':
            return [self.load(st, Ptr(p.obj, p.off + o, p.sym), e, where) for o, e in zip(self.m.layout(t)[2], t[1])]
        size = self.m.sizeof(t); ty = self.tyof(t)
        self.chk(st, p, size, 'load ' + where)
        o = p.obj
        if o.kind == 'global': self.glob_init(o, st)
        if o.meta is not None and hasattr(o.meta, 'load'): return o.meta.load(self, st, p, size, ty, where)
        if p.sym: return self.sym_load(st, p, t, where)
        return self.rd(st, o, p.off, size, ty)
    def sym_index_cases(self, st, p, size, where):
        """enumerate the in-bounds offsets of a symbolic access into a fixed-size object"""
        o = p.obj
        if o.size is None or len(p.sym) != 1: raise ToolLimit('symbolic address %r' % p)
        idx, stride = p.sym[0]; out = []
        k = 0
        lo = -(p.off // stride)
        for k in range(lo, o.size // stride + 1):
            a = p.off + k * stride
            if a < 0 or a + size > o.size: continue
            out.append((Eq(idx, bv(k, 64)), a))
        if len(out) > 300: raise ToolLimit('symbolic address over large object')
        self.oblige('out-of-bounds', st, Or(*[c for c, _ in out]), where)
        return out
    def sym_load(self, st, p, t, where):
        size = self.m.sizeof(t); ty = self.tyof(t); cs = self.sym_index_cases(st, p, size, 'load ' + where)
        if not cs: raise DeadPath()
        r = self.rd(st, p.obj, cs[-1][1], size, ty)
        for c, a in reversed(cs[:-1]): r = vite(c, self.rd(st, p.obj, a, size, ty), r)
        return r
    def rd(self, st, o, off, size, ty):
        c = st.cells(o); e = c.get(off)
        if e is not None and e[0] == size:
            v = e[1]
            if is_ptr(v):
                if ty == 'ptr' : return v
                return self.newvar('ptrbits', ty) if ty == 64 else self._nope('ptr read as %s' % (ty,))
            if ty == 'ptr':
                if isinstance(v, Term) and v.op == 'c' and v.val == 0: return NULL
                raise ToolLimit('non-pointer read as ptr')
            return self.conv(v, ty)
        # gather pieces
        if ty == 'ptr':
            # all-zero bytes read as null
            pass
        pieces = []; pos = off
        while pos < off + size:
            hit = None
            for back in range(0, 17):
                e = c.get(pos - back)
                if e is not None and e[0] > back: hit = (pos - back, e); break
            if hit is None:
                if o.lazy is not None:
                    v = o.lazy(self, st, off, size, ty)
                    if v is not None: return v
                nb = 1
                while pos + nb < off + size and not any((pos + nb - b) in c and c[pos + nb - b][0] > b for b in range(0, 17)): nb += 1
                v = self.newvar('uninit', 8 * nb)
                self.wr(st, o, pos, nb, v); c = st.cells(o)
                pieces.append(v); pos += nb; continue
            start, (sz, v) = hit
            if is_ptr(v): raise ToolLimit('partial read of pointer')
            b = fbits(v) if isfloat(v.ty) else (ZExt(v, 8 * sz) if v.ty == 'b' else v)
            lo = pos - start; n = min(sz - lo, off + size - pos)
            pieces.append(Extract(8 * (lo + n) - 1, 8 * lo, b)); pos += n
        b = Concat(*reversed(pieces))
        if ty == 'ptr':
            if b.op == 'c' and b.val == 0: return NULL
            raise ToolLimit('non-pointer read as ptr')
        return self.conv(b, ty)
    def _nope(self, m): raise ToolLimit(m)
    def conv(self, v, ty):
        if v.ty == ty: return v
        b = fbits(v) if isfloat(v.ty) else v
        if ty == 'b':
            if b.ty == 'b': return b
            return bv2b(Extract(0, 0, b))
        if b.ty == 'b': b = b2bv(b, ty if isinstance(ty, int) else width(ty))
        if isfloat(ty): return ibits(Extract(width(ty) - 1, 0, b), ty)
        return Extract(ty - 1, 0, b) if b.ty >= ty else ZExt(b, ty)
    def store(self, st, p, t, v, where='', raw=False):
        t = self.m.resolve(t)
        if isinstance(p, PtrIte):
            for q, c in ((p.a, p.c), (p.b, Not(p.c))):
                try: old = self.load(st, q, t, where)
                except DeadPath: continue
                self.store(st, q, t, vite(c, v, old), where)
            return
        if isinstance(t, tuple) and t[0] in ('vec', 'arr'):
            s = self.m.bits(t[2]) // 8 if t[0] == 'vec' else self.m.sizeof(t[2])
            for i in range(t[1]): self.store(st, Ptr(p.obj, p.off + i * s, p.sym), t[2], v[i], where, raw)
            return
        if isinstance(t, tuple) and t[0] == 'struct':
            for o, e, x in zip(self.m.layout(t)[2], t[1], v): self.store(st, Ptr(p.obj, p.off + o, p.sym), e, x, where, raw)
            return
        size = self.m.sizeof(t)
        self.chk(st, p, size, 'store ' + where)
        o = p.obj
        if o.kind == 'global' and not raw: self.glob_init(o, st)
        if isinstance(v, Term) and v.ty == 'b': v = b2bv(v, 8)
        if isinstance(v, Term) and isinstance(v.ty, int) and v.ty < size * 8: v = ZExt(v, size * 8)
        if o.meta is not None and hasattr(o.meta, 'store'): return o.meta.store(self, st, p, size, v, where)
        if o.kind == 'const' : self.oblige('write-to-const', st, FALSE, where)
        if p.sym:
            cs = self.sym_index_cases(st, p, size, 'store ' + where)
            for c, a in cs:
                ty = v.ty if isinstance(v, Term) else 'ptr'
                old = self.rd(st, o, a, size, ty); self.wr(st, o, a, size, vite(c, v, old))
            return
        self.wr(st, o, p.off, size, v)
    def wr(self, st, o, off, size, v):
        c = st.cells(o, True)
        e = c.get(off)
        if e is not None and e[0] == size: c[off] = (size, v); return
        # trim overlapping cells
        for s0 in range(off - 16, off + size):
            e = c.get(s0)
            if e is None: continue
            sz, x = e
            if s0 + sz <= off: continue
            del c[s0]
            if s0 < off or s0 + sz > off + size:
                if is_ptr(x): raise ToolLimit('partial overwrite of pointer')
                b = fbits(x) if isfloat(x.ty) else x
                if s0 < off: c[s0] = (off - s0, Extract(8 * (off - s0) - 1, 0, b))
                if s0 + sz > off + size:
                    r = s0 + sz - (off + size); c[off + size] = (r, Extract(8 * sz - 1, 8 * (sz - r), b))
        c[off] = (size, v)
    def memcpy(self, st, d, s, n, where=''):
        if isinstance(d, PtrIte) or isinstance(s, PtrIte): 
            if isinstance(s, PtrIte) and not isinstance(d, PtrIte):
                st2 = st.fork(); self.memcpy(st, d, s.a, n, where); self.memcpy(st2, d, s.b, n, where)
                m = self.merge_mem(st, st2, s.c); st.mem = m; st.own = set(); return
            raise ToolLimit('memcpy to conditional pointer')
        if n == 0: return
        self.chk(st, d, n, 'memcpy dst ' + where); self.chk(st, s, n, 'memcpy src ' + where)
        if s.obj.kind == 'global': self.glob_init(s.obj, st)
        if d.obj.kind == 'global': self.glob_init(d.obj, st)
        special = (hasattr(s.obj.meta, 'load')) or (hasattr(d.obj.meta, 'store')) or s.sym or d.sym
        if special:
            # scalar-wise copy, 4 or 8 byte units as the source layout dictates
            step = 4 if n % 4 == 0 else 1
            vals = [self.load(st, Ptr(s.obj, s.off + i, s.sym), ('i', 8 * step), where) for i in range(0, n, step)]
            for k, v in enumerate(vals): self.store(st, Ptr(d.obj, d.off + k * step, d.sym), ('i', 8 * step), v, where)
            return
        c = st.cells(s.obj); vals = []; pos = s.off
        while pos < s.off + n:
            e = c.get(pos)
            if e is not None and pos + e[0] <= s.off + n: vals.append((pos - s.off, e[0], e[1])); pos += e[0]
            else:
                k = 1
                while pos + k < s.off + n and (pos + k) not in c and k < 4: k += 1
                if s.obj.lazy is not None and (pos % 4 == 0) and s.off + n - pos >= 4: k = 4
                vals.append((pos - s.off, k, self.rd(st, s.obj, pos, k, 8 * k))); pos += k; c = st.cells(s.obj)
        for o, sz, v in vals: self.wr(st, d.obj, d.off + o, sz, v)
    # ------------------------------------------------------------ merging
    def merge_mem(self, a, b, d):
        mem = {}
        for oid in set(a.mem) | set(b.mem):
            x = a.mem.get(oid); y = b.mem.get(oid)
            if x is None or y is None or x is y: mem[oid] = x if x is not None else y; continue
            r = dict(x)
            for off in set(x) | set(y):
                e = x.get(off); f = y.get(off)
                if e is f: continue
                if e is None or f is None or (e[0] != f[0] if off != '#' else False):
                    r = None; break
                if e[1] is f[1] or same(e[1], f[1]): continue
                r[off] = (e[0], self.vmerge(d, e[1], f[1]))
            if r is None:
                r = self.merge_cells_bytes(x, y, d)
            mem[oid] = r
        return mem
    def vmerge(self, d, x, y):
        if isinstance(x, Term) and isinstance(y, Term) and x.ty != y.ty:
            return Ite(d, fbits(x) if isfloat(x.ty) else x, fbits(y) if isfloat(y.ty) else y)
        return vite(d, x, y)
    def merge_cells_bytes(self, x, y, d):
        # cut both sides at the union of their boundaries
        pts = set()
        for c in (x, y):
            for off, (sz, v) in c.items(): pts.add(off); pts.add(off + sz)
        pts = sorted(pts)
        def pieces(c):
            out = {}
            for off, (sz, v) in c.items():
                cuts = [p for p in pts if off < p < off + sz]
                if not cuts: out[off] = (sz, v); continue
                if is_ptr(v): raise ToolLimit('merge splits pointer')
                b = fbits(v) if isfloat(v.ty) else v
                q = [off] + cuts + [off + sz]
                for lo, hi in zip(q, q[1:]): out[lo] = (hi - lo, Extract(8 * (hi - off) - 1, 8 * (lo - off), b))
            return out
        px, py = pieces(x), pieces(y); r = {}
        for off in set(px) | set(py):
            e, f = px.get(off), py.get(off)
            if e is None or f is None:
                # uninitialised on one side: unconstrained there
                r[off] = e if e is not None else f; continue
            r[off] = e if same(e[1], f[1]) else (e[0], self.vmerge(d, e[1], f[1]))
        return r
    def merge_states(self, a, b):
        d = split_pc(a.pc, b.pc)
        n = State(); n.mem = self.merge_mem(a, b, d); n.pc = Or(a.pc, b.pc); n.own = set()
        for k in a.ghost:
            if k in b.ghost: n.ghost[k] = a.ghost[k] if same(a.ghost[k], b.ghost[k]) else vite(d, a.ghost[k], b.ghost[k])
        return n, d
    # ------------------------------------------------------------ functions
    def call_fn(self, st, name, args, where):
        """returns a list of (state, value)"""
        name = self.m.aliases.get(name, name)
        h = self.icache.get(name)
        if h is None:
            h = False
            for pred, fn in self.icp:
                if pred(name): h = fn; break
            if not h:
                for g in self.icp_multi:
                    h = g(name) or False
                    if h: break
            self.icache[name] = h
        if h:
            self.calls[name] = self.calls.get(name, 0) + 1
            r = h(self, st, args, where)
            if r is not NotImplemented:
                if isinstance(r, list) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State): return r
                return [(st, r)]
        f = self.m.funcs.get(name)
        if f is None: raise ToolLimit('no contract for external function %s' % name)
        self.calls[name] = self.calls.get(name, 0) + 1
        self.depth += 1
        if self.depth > 200: raise ToolLimit('recursion in %s' % name)
        try: return self.run(f, args, st)
        finally: self.depth -= 1
    def run(self, f, args, st):
        env = {}
        for (pn, t, at), a in zip(f.params, args):
            if 'byval' in at:
                n = self.m.sizeof(at['byval']); o = Obj(f.name + '.byval', n, 'alloca'); self.memcpy(st, Ptr(o), a, n, 'byval')
                a = Ptr(o)
            env[pn] = a
        rpo = self.m.rpo(f); pend = {}; outs = []; seq = itertools.count()
        def push(bname, env, st):
            if st.pc is FALSE: return
            k = rpo[bname]
            if self.merge and k in pend:
                e0, s0 = pend[k][0]
                s, d = self.merge_states(s0, st)
                e = {}
                for x in e0:
                    if x in env:
                        u, w = e0[x], env[x]
                        e[x] = u if same(u, w) else vite(d, u, w)
                pend[k] = [(e, s)]
            else: pend.setdefault(k, []).append((env, st))
        order = {i: n for n, i in rpo.items()}
        def goto(frm, to, env, st):
            ps = f.blocks[to].phis
            if ps:
                vals = []
                for ph in ps:
                    for b, v in ph.a:
                        if b == frm: vals.append((ph.dst, self.val(ph.ty, v, env, st))); break
                    else: raise ToolLimit('phi')
                env = dict(env)
                for d, v in vals: env[d] = v
            if self.loopman is not None:
                from .arrays import headers
                if to in headers(self.m, f):
                    r = self.loopman.goto(self, f, frm, to, env, st)
                    if r is None: return
                    env, st = r
            push(to, env, st)
        goto(None, f.order[0], env, st) if not f.blocks[f.order[0]].phis else None
        while pend:
            k = min(pend); env, st = pend[k].pop()
            if not pend[k]: del pend[k]
            blk = f.blocks[order[k]]
            try:
                self.block(f, blk, env, st, goto, outs)
            except DeadPath: pass
        if self.merge and len(outs) > 1:
            s, v = outs[0]
            for s2, v2 in outs[1:]:
                s3, d = self.merge_states(s, s2)
                v = v if (v is None or same(v, v2)) else vite(d, v, v2); s = s3
            outs = [(s, v)]
        return outs
    def block(self, f, blk, env, st, goto, outs, start=0):
        insts = blk.insts
        for n in range(start, len(insts)):
            ins = insts[n]; self.steps += 1
            if self.steps > self.max_steps: raise ToolLimit('step limit')
            op = ins.op
            if op in ('call', 'invoke'):
                rs = self.do_call(f, ins, env, st)
                if not rs: return
                if len(rs) == 1:
                    st, v = rs[0]
                    if ins.dst is not None: env[ins.dst] = v
                    if op == 'invoke': goto(blk.name, ins.a[2], env, st); return
                    continue
                for s, v in rs:
                    e = dict(env)
                    if ins.dst is not None: e[ins.dst] = v
                    try:
                        if op == 'invoke': goto(blk.name, ins.a[2], e, s)
                        else: self.block(f, blk, e, s, goto, outs, n + 1)
                    except DeadPath: pass
                return
            if op == 'br':
                c, a, b = ins.a
                if c is None: goto(blk.name, a, env, st); return
                c = self.val(('i', 1), c, env, st)
                if c.op == 'c': goto(blk.name, a if c.val else b, env, st); return
                self.cond(blk, [(c, a), (Not(c), b)], env, st, goto); return
            if op == 'switch':
                v, d, cs = ins.a; v = self.val(ins.ty, v, env, st)
                if v.op == 'c':
                    for x, b in cs:
                        if (x & _m(v.ty)) == v.val: goto(blk.name, b, env, st); return
                    goto(blk.name, d, env, st); return
                tgt = {}; 
                for x, b in cs: tgt.setdefault(b, []).append(Eq(v, bv(x, v.ty)))
                allc = [c for l in tgt.values() for c in l]
                l = [(Or(*cc), b) for b, cc in tgt.items()]
                l.append((And(*[Not(c) for c in allc]), d))
                self.cond(blk, l, env, st, goto); return
            if op == 'ret':
                v = None if ins.a[0] is None else self.val(ins.ty, ins.a[0], env, st)
                outs.append((st, v)); return
            if op == 'unreachable':
                self.noret.append(('unreachable in ' + f.name, st.pc)); self.oblige('unreachable', st, FALSE, f.name); return
            try:
                r = self.inst(f, ins, env, st)
            except DeadPath: raise
            if ins.dst is not None: env[ins.dst] = r
        raise ToolLimit('fell off block')
    def cond(self, blk, cases, env, st, goto):
        live = []
        for c, b in cases:
            p = And(st.pc, c)
            if p is FALSE: continue
            if self.prune and not self.feasible(p): continue
            live.append((p, b))
        for i, (p, b) in enumerate(live):
            s = st.fork() if i + 1 < len(live) else st
            if i + 1 < len(live): pass
            else: s.own = set()
            s.pc = p
            goto(blk.name, b, dict(env), s)
    prune = False
    def feasible(self, p): return True
    # ------------------------------------------------------------ instructions
    def lanes(self, t, fn, *vs):
        if isinstance(vs[0], list): return [fn(*x) for x in zip(*vs)]
        return fn(*vs)
    def inst(self, f, ins, env, st):
        op = ins.op; a = ins.a; V = lambda t, v: self.val(t, v, env, st)
        if op in BIN:
            x, y = V(ins.ty, a[0]), V(ins.ty, a[1])
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                for q in (y if isinstance(y, list) else [y]): self.oblige('division-by-zero', st, Ne(q, bv(0, q.ty)), f.name)
                if op in ('sdiv', 'srem'):
                    for p, q in (zip(x, y) if isinstance(x, list) else [(x, y)]):
                        self.oblige('signed-division-overflow', st, Not(And(Eq(q, bv(-1, q.ty)), Eq(p, bv(1 << (p.ty - 1), p.ty)))), f.name)
            if op in ('shl', 'lshr', 'ashr'):
                for q in (y if isinstance(y, list) else [y]):
                    if not (q.op == 'c' and q.val < q.ty): self.oblige('shift-out-of-range', st, ULt(q, bv(q.ty, q.ty)), f.name)
            if 'nsw' in a[2]: self.nsw(op, x, y, st, f)
            if ins.ty == ('i', 1) or (isinstance(ins.ty, tuple) and ins.ty[0] == 'vec' and ins.ty[2] == ('i', 1)):
                g = {'and': And, 'or': Or, 'xor': Xor, 'add': Xor, 'sub': Xor, 'mul': And}[op]
                return self.lanes(ins.ty, g, x, y)
            return self.lanes(ins.ty, BIN[op], x, y)
        if op == 'fneg': return self.lanes(ins.ty, fneg, V(ins.ty, a[0]))
        if op == 'icmp':
            x, y = V(ins.ty, a[1]), V(ins.ty, a[2])
            return self.lanes(ins.ty, lambda p, q: self.icmp(a[0], p, q, st), x, y)
        if op == 'fcmp': return self.lanes(ins.ty, lambda p, q: FCmp(a[0], p, q), V(ins.ty, a[1]), V(ins.ty, a[2]))
        if op == 'select':
            c = V(a[0][0], a[0][1]); x, y = V(ins.ty, a[1]), V(ins.ty, a[2])
            if isinstance(c, list): return [vite(k, p, q) for k, p, q in zip(c, x, y)]
            return vite(c, x, y)
        if op in CASTS: return self.cast(op, a[0], V(a[0], a[1]), ins.ty, st)
        if op == 'alloca':
            n = 1
            if a[0] is not None:
                c = V(a[0][0], a[0][1])
                if c.op != 'c': raise ToolLimit('variable alloca')
                n = c.val
            am = re.search(r', align (\d+)', ins.line)
            o = Obj('%s.%s' % (f.name, ins.dst), self.m.sizeof(ins.ty) * n, 'alloca', align=int(am.group(1)) if am else None)
            return Ptr(o)
        if op == 'load':
            self.aligned(st, V('ptr', a[0]), a[1], f.name)
            return self.load(st, V('ptr', a[0]), ins.ty, f.name)
        if op == 'store':
            self.aligned(st, V('ptr', a[1]), a[2], f.name)
            self.store(st, V('ptr', a[1]), ins.ty, V(ins.ty, a[0]), f.name); return None
        if op == 'getelementptr':
            return self.gep(ins.ty, V('ptr', a[0][1]), [(t, V(t, v)) for t, v in a[1]])
        if op == 'extractelement':
            v = V(ins.ty, a[0]); i = V(a[1][0], a[1][1])
            if i.op == 'c': return v[i.val]
            r = v[-1]
            self.oblige('vector-index', st, ULt(i, bv(len(v), i.ty)), f.name)
            for k in range(len(v) - 2, -1, -1): r = vite(Eq(i, bv(k, i.ty)), v[k], r)
            return r
        if op == 'insertelement':
            v = list(V(ins.ty, a[0])); e = V(ins.ty[2], a[1]); i = V(a[2][0], a[2][1])
            if i.op == 'c': v[i.val] = e; return v
            return [vite(Eq(i, bv(k, i.ty)), e, v[k]) for k in range(len(v))]
        if op == 'shufflevector':
            x, y = V(ins.ty, a[0]), V(ins.ty, a[1]); mt, mv = a[2]
            if mv[0] == 'cagg': ix = [e[1][1] if e[1][0] == 'cint' else None for e in mv[1]]
            elif mv[0] == 'zero': ix = [0] * mt[1]
            else: ix = [None] * mt[1]
            xy = x + y
            return [xy[i] if i is not None else self.const(ins.ty[2], ('undef',), st) for i in ix]
        if op == 'extractvalue':
            v = V(ins.ty, a[0])
            for i in a[1]: v = v[i]
            return v
        if op == 'insertvalue':
            def put(v, idx, e):
                v = list(v); v[idx[0]] = e if len(idx) == 1 else put(v[idx[0]], idx[1:], e); return v
            return put(V(ins.ty, a[0]), a[2], V(a[1][0], a[1][1]))
        if op == 'freeze': return V(ins.ty, a[0])
        if op in ('fence',): return None
        if op == 'landingpad' or op == 'resume': raise DeadPath()
        raise ToolLimit('instruction %s' % ins.line)
    check_nsw = True
    def nsw(self, op, x, y, st, f):
        if not self.check_nsw: return
        for p, q in (zip(x, y) if isinstance(x, list) else [(x, y)]):
            n = p.ty
            if op in ('add', 'sub'):
                r = (Add if op == 'add' else Sub)(SExt(p, n + 1), SExt(q, n + 1))
                self.oblige('signed-overflow', st, Eq(Extract(n, n, r), Extract(n - 1, n - 1, r)), f.name)
            elif op == 'mul':
                r = Mul(SExt(p, 2 * n), SExt(q, 2 * n))
                self.oblige('signed-overflow', st, Eq(SExt(Extract(n - 1, 0, r), 2 * n), r), f.name)
    def icmp(self, pred, p, q, st):
        if is_ptr(p) or is_ptr(q): return self.pcmp(pred, p, q, st)
        if p.ty == 'b':
            if pred == 'eq': return Eq(p, q)
            if pred == 'ne': return Not(Eq(p, q))
            p, q = b2bv(p, 1), b2bv(q, 1)
        return {'eq': Eq, 'ne': Ne, 'ult': ULt, 'ugt': lambda x, y: ULt(y, x), 'ule': ULe, 'uge': lambda x, y: ULe(y, x),
                'slt': SLt, 'sgt': lambda x, y: SLt(y, x), 'sle': SLe, 'sge': lambda x, y: SLe(y, x)}[pred](p, q)
    def pcmp(self, pred, p, q, st):
        if isinstance(p, PtrIte): return Ite(p.c, self.pcmp(pred, p.a, q, st), self.pcmp(pred, p.b, q, st))
        if isinstance(q, PtrIte): return Ite(q.c, self.pcmp(pred, p, q.a, st), self.pcmp(pred, p, q.b, st))
        if isinstance(p, FnPtr) or isinstance(q, FnPtr):
            e = isinstance(p, FnPtr) and isinstance(q, FnPtr) and p.name == q.name
            return boolc(e if pred == 'eq' else not e)
        po = p.obj.id if p.obj else 0; qo = q.obj.id if q.obj else 0
        if po != qo:
            if pred == 'eq': return FALSE
            if pred == 'ne': return TRUE
            raise ToolLimit('pointer order between objects')
        if not p.sym and not q.sym:
            x, y = p.off, q.off
            return boolc({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}[pred])
        x, y = self.ptr_off(p), self.ptr_off(q)
        return self.icmp({'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(pred, pred), x, y, st)
    def ptr_off(self, p):
        r = bv(p.off, 64)
        for t, s in p.sym: r = Add(r, Mul(t, bv(s, 64)))
        return r
    def cast(self, op, t, v, t2, st):
        t2 = self.m.resolve(t2)
        if op == 'bitcast':
            if self.m.resolve(t) == 'ptr': return v
            return self.from_bits(self.to_bits(v, t), t2)
        if isinstance(v, list):
            return [self.cast(op, self.m.resolve(t)[2], x, t2[2], st) for x in v]
        ty = self.tyof(t2)
        if op == 'trunc': return Trunc(v, ty)
        if op == 'zext': return ZExt(v, ty)
        if op == 'sext': return SExt(v, ty)
        if op in ('fptoui', 'fptosi'):
            self.fp_range(v, ty, op == 'fptosi', st)
            return FToI(v, ty, op == 'fptosi')
        if op in ('uitofp', 'sitofp'):
            if v.ty == 'b': return mkfite(v, fc(1.0 if op == 'uitofp' else -1.0, ty), fc(0.0, ty))
            return IToF(v, ty, op == 'sitofp')
        if op in ('fpext', 'fptrunc'): return FCast(v, ty)
        if op == 'addrspacecast': return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                if v.obj is None: return bv(v.off, ty)
                return Add(self.addr_of(v.obj), self.ptr_off(v))
            raise ToolLimit('ptrtoint')
        if op == 'inttoptr':
            if v.op == 'c' and v.val == 0: return NULL
            raise ToolLimit('inttoptr')
        raise ToolLimit('cast ' + op)
    def addr_of(self, o): return var('addr!%d' % o.id, 64)
    def fp_range(self, v, n, sgn, st):
        self.oblige('float-to-int-range', st, mk('fp_fits', (v,), 'b', (n, sgn)) if v.op != 'c' else TRUE, 'conversion')
    # ------------------------------------------------------------ calls
    def do_call(self, f, ins, env, st):
        callee, args, _ = ins.a
        if callee[0] == 'glob': name = callee[1]
        else:
            fp = self.val('ptr', callee, env, st)
            if not isinstance(fp, FnPtr):
                h = getattr(self, 'indirect', None)
                if h: return h(self, st, fp, [self.val(t, v, env, st) if t != 'metadata' else None for t, v, _ in args], ins)
                raise ToolLimit('indirect call through %r' % (fp,))
            name = fp.name
        if name.startswith(IGNORED): return [(st, None)]
        vals = [self.val(t, v, env, st) if t != 'metadata' and not (isinstance(v, tuple) and v[0] == 'asm') else None for t, v, _ in args]
        # by-value aggregates
        r = self.builtin(name, vals, args, ins, st, f)
        if r is not NotImplemented: return [(st, r)]
        return self.call_fn(st, name, vals, f.name)
    def builtin(self, name, v, args, ins, st, f):
        from .builtins import builtin
        return builtin(self, name, v, args, ins, st, f)

class DeadPath(Exception): pass
def _m(n): return (1 << n) - 1
IGNORED = ('llvm.lifetime', 'llvm.invariant', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', '__clang_call_terminate', 'llvm.stackrestore')
BIN = {'add': Add, 'sub': Sub, 'mul': Mul, 'udiv': UDiv, 'sdiv': SDiv, 'urem': URem, 'srem': SRem, 'shl': Shl, 'lshr': LShr, 'ashr': AShr,
       'and': BvAnd, 'or': BvOr, 'xor': BvXor, 'fadd': FAdd, 'fsub': FSub, 'fmul': FMul, 'fdiv': FDiv, 'frem': FRem}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
