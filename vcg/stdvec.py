"""Assumed contracts of std::vector of trivially copyable elements (a dependency): begin/end/capacity pointers over a buffer of symbolic length.
Every operation that may reallocate gives a new buffer and ends the life of the old one."""
import re
from .terms import *
from .sym import Ptr, NULL, ToolLimit
from .arrays import SymArr, ArrV
from .builtins import note
from . import cxx
V4 = {0: 'f32', 4: 'f32', 8: 'f32', 12: 'f32'}
LAYOUT = {'unsigned char': (1, {0: 8}), 'unsigned int': (4, {0: 32}), 'math::f32x4': (16, V4), 'math::Bvh::Node': (32, {0: 'f32', 4: 'f32', 8: 'f32', 12: 32, 16: 'f32', 20: 'f32', 24: 'f32', 28: 32})}
_dem = {}
def dem(nm):
    if nm not in _dem: _dem[nm] = cxx.demangle([nm])[nm]
    return _dem[nm]
def parse(nm):
    if 'St6vectorI' not in nm or not nm.startswith('_ZN'): return None
    m = re.match(r'std::vector<(.*?), std::allocator<\1 ?> ?>::(~?\w+|operator[^(]+)\((.*)\)( const)?$', dem(nm))
    return m and m.groups()
class Buf(SymArr):
    """live buffers have their element count in the state; freed ones have count 0"""
    def __init__(s, ex, st, name, n, stride, fields, ghosts, real):
        super().__init__(ex, st, name, None, stride, fields, ghosts=ghosts, real=real); s.ck = ('cnt', name); st.ghost[s.ck] = n; s.ty = None
    def n(s, st): return st.ghost[s.ck]
    def inb(s, ex, st, idx, where): ex.oblige('out-of-bounds', st, ULt(idx, s.n(st)), '%s[]: %s' % (s.name, where))
def at(p, k): return Ptr(p.obj, p.off + k, p.sym)
def install(ex, st0, ghosts=(), real=False, limit=1 << 48):
    """ghosts: {element type: [index terms]}"""
    ghosts = dict(ghosts); bufs = []; ex.bufs = bufs
    def new(ex, st, ty, n):
        stride, fields = LAYOUT[ty]
        b = Buf(ex, st, 'vector<%s>#%d' % (ty, len(bufs)), n, stride, fields, ghosts.get(ty, []), real); b.ty = ty; bufs.append(b); return b
    ex.newbuf = new
    def put(ex, st, v, b, n):
        if v.sym: raise ToolLimit('array of vectors')
        if b is None: x = y = NULL
        else: x = b.ptr(); y = Ptr(b.obj, 0, ((n, b.stride),)) if n.op != 'c' else Ptr(b.obj, n.val * b.stride)
        for k, q in ((0, x), (8, y), (16, y)): ex.store(st, at(v, k), 'ptr', q, 'std::vector')
    ex.putvec = put
    def get(ex, st, v):
        """(buffer or None, element count)"""
        q = ex.load(st, v, 'ptr', 'std::vector')
        if isinstance(q, Ptr) and q.obj is None: return None, bv(0, 64)
        if not isinstance(q, Ptr) or not isinstance(q.obj.meta, Buf): raise ToolLimit("std::vector of unknown state %r" % (q,))
        return q.obj.meta, q.obj.meta.n(st)
    ex.getvec = get
    def free(st, b):
        if b is not None: st.ghost[b.ck] = bv(0, 64)
    def copy(ex, st, ty, b, n):
        c = new(ex, st, ty, n)
        if b is not None:
            for off in b.fields: st.ghost[c.key(off)] = st.ghost[b.key(off)]
        return c
    zero = lambda ty: fbits_c(0, ty) if isfloat(ty) else bv(0, ty)
    def run(ex, st, ty, fn, sig, v):
        note('std::vector<%s>::%s(%s)' % (ty, fn, 'n' if sig.startswith('unsigned long') else '' if not sig else 'vector'))
        if fn == 'vector':
            if sig == '': put(ex, st, v[0], None, bv(0, 64)); return None
            if sig.endswith('const&') and sig.startswith('std::vector'):
                b, n = get(ex, st, v[1]); put(ex, st, v[0], copy(ex, st, ty, b, n) if b is not None else None, n); return None
            if sig.endswith('&&'):
                b, n = get(ex, st, v[1]); put(ex, st, v[0], b, n); put(ex, st, v[1], None, bv(0, 64)); return None
            if sig.startswith('unsigned long'): return resize(ex, st, ty, [v[0], v[1]], True) if ty in LAYOUT else NotImplemented
            return NotImplemented
        if fn.startswith('~'): free(st, get(ex, st, v[0])[0]); return None
        if fn == 'operator=':
            if v[0].key() == v[1].key(): return v[0]
            b0, _ = get(ex, st, v[0]); b, n = get(ex, st, v[1]); free(st, b0)
            if sig.endswith('&&'): put(ex, st, v[0], b, n); put(ex, st, v[1], None, bv(0, 64))
            else: put(ex, st, v[0], copy(ex, st, ty, b, n) if b is not None else None, n)
            return v[0]
        if fn == 'size': return get(ex, st, v[0])[1]
        if fn == 'empty': return Eq(get(ex, st, v[0])[1], bv(0, 64))
        if fn == 'clear': free(st, get(ex, st, v[0])[0]); put(ex, st, v[0], None, bv(0, 64)); return None
        if fn == 'swap':
            x, nx = get(ex, st, v[0]); y, ny = get(ex, st, v[1]); put(ex, st, v[0], y, ny); put(ex, st, v[1], x, nx); return None
        if fn in ('reserve', 'shrink_to_fit'): return None
        if fn == 'resize' and sig == 'unsigned long': return resize(ex, st, ty, v, False)
        return NotImplemented
    def resize(ex, st, ty, v, fresh):
        ex.oblige('precondition', st, ULe(v[1], bv(limit, 64)), 'std::vector size limit')
        b, n = (None, bv(0, 64)) if fresh else get(ex, st, v[0])
        c = new(ex, st, ty, v[1])
        for off, ft in c.fields.items():
            base = st.ghost[b.key(off)] if b is not None else st.ghost[c.key(off)]
            # Bvh::Node is not zeroed but value-initialised by its member initialisers
            st.ghost[c.key(off)] = ArrV('fill', base, n, v[1], zero(ft))
        free(st, b); put(ex, st, v[0], c, v[1]); return None
    class H:
        def __init__(s, g): s.g = g
        def __call__(s, ex, st, args, where): return run(ex, st, s.g[0], s.g[1], s.g[2], args)
    def pred(nm):
        g = parse(nm)
        return g is not None and g[0] in LAYOUT and g[1] in ('vector', '~vector', 'operator=', 'size', 'empty', 'clear', 'swap', 'reserve', 'shrink_to_fit', 'resize')
    # the executor looks predicates up once per function name and keeps the handler: hand out one handler per name
    ex.icp_multi.append(lambda nm: H(parse(nm)) if pred(nm) else None)
