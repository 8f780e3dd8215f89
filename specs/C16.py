"""C16: construction of a bounding volume hierarchy, for every number of primitives"""
from specs.common import *
from vcg import stdvec, stdstack
from vcg.arrays import SymArr, Fold, fact, touch, assume_forall, arr_read
from vcg.sym import Ptr, NULL, FnPtr
INCLUDES = ['math/bvh.hpp']
VARIANTS = ['sse2']
THOROUGH_VARIANTS = ['sse2', 'avx2', 'debug']
ASSUMPTIONS = ['at least one primitive, at most 2^31 - 1 primitives, index and vertex buffers below 4 GiB', 'no coordinate is NaN and the given root box contains all primitives', 'std::vector, std::stack and std::function are replaced by their contracts',
               'finite sums: theory of Fold in vcg/arrays.py']
PRELUDE = '''
#include <utility>
#include <limits>
#include <cstring>
#include "../source/bvh.cpp"
namespace T { using namespace math;
static uint64_t rs; static uint32 rnd(uint32 n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (uint32)((rs >> 33) % n); }
static float num(uint32 mode) { float v = (float)(int)rnd(17) - 8.0f; return mode == 0 ? v : mode == 1 ? 1.0f : mode == 2 ? v * 1e37f : mode == 3 ? (rnd(8) ? v : v * 3e38f) : mode == 4 ? (float)rnd(2) : v + (float)rnd(1000) * 1e-3f; }
static std::vector<Aabb> boxes; static std::vector<f32x4> cents; static Aabb root; static uint32 N;
static void bounds(Aabb& r) { f32x4 a = f32x4::max, b = f32x4::minusMax; for (auto& x : boxes) { a = min(a, x.getMin()); b = max(b, x.getMax()); } r = Aabb(a, b); }
struct Tree : Bvh {
  void stale(uint64_t seed) { rs = seed ^ 77; uint32 n = rnd(3) ? rnd(20) : 0; nodes.resize(n); for (auto& x : nodes) { x.setPrimitiveCount(rnd(5)); x.setLeftNode(rnd(40)); } primitives.assign(rnd(9), 1000000u); centroids.resize(rnd(5)); }
};
static Tree* tree;
static bool boxesIn(uint32 k, uint32 v) { auto& b = tree->getNodes()[k].aabb; auto& x = boxes[v]; for (int l = 0; l < 3; l++) if (!(b.getMin()[l] <= x.getMin()[l] && x.getMax()[l] <= b.getMax()[l])) return false; return true; }
static uint32 parent(uint32 k) { uint32 n = 0, r = 0; auto& t = tree->getNodes(); for (uint32 i = 0; i < t.size(); i++) if (!t[i].isLeaf() && (t[i].getLeftNode() == k || t[i].getLeftNode() + 1 == k)) { n++; r = i; } return n == 1 ? r : 0xffffffffu; }
static uint32 edge(uint32 k, bool hi) { auto& t = tree->getNodes(); for (uint32 d = 0; d <= t.size() && k < t.size(); d++) { if (t[k].isLeaf()) return t[k].getFirstPrimitive() + (hi ? t[k].getPrimitiveCount() : 0); k = t[k].getLeftNode() + hi; } return 0xffffffffu; }
}
using T::Tree; using math::Aabb; using math::f32x4;
// the verifier replaces these by arbitrary arrays and by ghost state
extern "C" __attribute__((noinline)) void vcg_stale(Tree& t, uint64_t seed) { T::tree = &t; t.stale(seed); }
extern "C" __attribute__((noinline)) Aabb* vcg_boxes(uint64_t seed, uint32_t n) { using namespace T; rs = seed; N = n; boxes.clear(); cents.clear(); uint32 mode = rnd(6);
  for (uint32 i = 0; i < n; i++) { f32x4 a(num(mode), num(mode), num(mode)), b = a + f32x4((float)rnd(3), (float)rnd(3), (float)rnd(3)); boxes.push_back(Aabb(math::min(a, b), math::max(a, b))); }
  bounds(root); for (auto& x : boxes) { auto c = x.getPosition(); if (rnd(40) == 0) c = f32x4(rnd(2) ? std::numeric_limits<float>::infinity() : std::numeric_limits<float>::quiet_NaN()); cents.push_back(c); } return boxes.data(); }
static std::vector<uint8_t> tv, ti;
extern "C" __attribute__((noinline)) void vcg_tris(uint64_t seed, uint32_t n, uint32_t vs, uint32_t is) { using namespace T; rs = seed; N = n; boxes.clear(); cents.clear(); uint32 mode = rnd(6), m = 1 + rnd(2 * n + 1); tv.assign(m * vs + 16, 0); ti.assign(n * 3 * is + 4, 0);
  for (uint32 i = 0; i < m; i++) { float f[3] = { num(mode), num(mode), num(mode) }; memcpy(&tv[i * vs], f, 12); }
  for (uint32 i = 0; i < n; i++) { f32x4 a = f32x4::max, b = f32x4::minusMax; for (int c = 0; c < 3; c++) { uint32 x = rnd(m); memcpy(&ti[(3 * i + c) * is], &x, is); float f[3]; memcpy(f, &tv[x * vs], 12); f32x4 v(f[0], f[1], f[2]); a = math::min(a, v); b = math::max(b, v); } boxes.push_back(Aabb(a, b)); cents.push_back((a + b) * 0.5f); }
  bounds(root); }
extern "C" __attribute__((noinline)) uint8_t* vcg_verts() { return tv.data(); }
extern "C" __attribute__((noinline)) uint8_t* vcg_inds() { return ti.data(); }
extern "C" __attribute__((noinline)) Aabb* vcg_root() { return &T::root; }
extern "C" __attribute__((noinline)) f32x4* vcg_cents() { return T::cents.data(); }
extern "C" __attribute__((noinline)) uint32_t* vcg_primitives(uint32_t n) { static std::vector<uint32_t> v; if (n) v.clear(); for (uint32_t i = 0; i < n; i++) v.push_back(T::rnd(T::N)); return v.data(); }
extern "C" __attribute__((noinline)) bool vcg_holds(Aabb& b, uint32_t p) { auto& x = T::boxes[vcg_primitives(0)[p]]; for (int l = 0; l < 3; l++) if (!(b.getMin()[l] <= x.getMin()[l] && x.getMax()[l] <= b.getMax()[l])) return false; return true; }
extern "C" __attribute__((noinline)) uint32_t vcg_size() { return (uint32_t)T::tree->getNodes().size(); }
extern "C" __attribute__((noinline)) uint32_t vcg_prims() { return (uint32_t)T::tree->getPrimitives().size(); }
extern "C" __attribute__((noinline)) uint32_t vcg_cnt(uint32_t k) { return k < vcg_size() ? T::tree->getNodes()[k].getPrimitiveCount() : 0; }
extern "C" __attribute__((noinline)) uint32_t vcg_ff(uint32_t k) { return k < vcg_size() ? T::tree->getNodes()[k].getLeftNode() : 0; }
extern "C" __attribute__((noinline)) uint32_t vcg_par(uint32_t k) { return T::parent(k); }
extern "C" __attribute__((noinline)) uint32_t vcg_lo(uint32_t k) { return T::edge(k, false); }
extern "C" __attribute__((noinline)) uint32_t vcg_hi(uint32_t k) { return T::edge(k, true); }
extern "C" __attribute__((noinline)) uint32_t vcg_prim(uint32_t p) { return p < vcg_prims() ? T::tree->getPrimitives()[p] : 0; }
extern "C" __attribute__((noinline)) uint32_t vcg_occ(uint32_t v) { uint32_t n = 0; for (auto x : T::tree->getPrimitives()) n += x == v; return n; }
extern "C" __attribute__((noinline)) uint32_t vcg_total() { uint32_t n = 0; for (auto& x : T::tree->getNodes()) n += x.getPrimitiveCount(); return n; }
extern "C" __attribute__((noinline)) bool vcg_in(uint32_t k, uint32_t p) { auto v = vcg_prim(p); return k < vcg_size() && v < T::N && T::boxesIn(k, v); }
'''
u32 = lambda n: ZExt(var(n, 32), 64)
N, K, K2, P, V = u32('n'), u32('k'), u32('k2'), u32('p'), u32('v')
z64, o64 = bv(0, 64), bv(1, 64)
two = bv(2, 64)
B = lambda c: Ite(c, o64, z64)
LANES = ((0, 0), (4, 4), (8, 8))
PIECES = ('structure', 'boxes')
def lt(a, b): return ULt(a, b)
def le(a, b): return ULe(a, b)
def all_(*a): return And(*a)
VS, QI = var('vs', 32), u32('qi')
class Bytes(SymArr):
    """read-only buffer, read in items of `size` bytes at any byte offset (overlapping items are not related: an over-approximation)"""
    def __init__(s, ex, st, name, total, size, ty): super().__init__(ex, st, name, total, 1, {0: ty}, const=True, real=False); s.size = size
    def select(s, ex, base, off, idx):
        # items at the same distance from their base address are related to each other
        k = 0
        for i in (0, 1):
            if idx.op == 'add' and idx.args[i].op == 'c': k = idx.args[i].val; idx = idx.args[1 - i]; break
        return super().select(ex, '%s+%d' % (base, k), off, idx)
    def inb(s, ex, st, idx, where): ex.oblige('out-of-bounds', st, le(Add(idx, bv(s.size, 64)), s.count), '%s[]: %s' % (s.name, where))
class Mesh:
    """N triangles: 3 N indices of `size` bytes, vertices of VS bytes"""
    def __init__(m, ex, st, size):
        m.ex = ex; m.size = size; m.ind = Bytes(ex, st, 'indices', Mul(N, bv(3 * size, 64)), size, 8 * size); m.vtx = Bytes(ex, st, 'vertices', ex.newvar('vertex bytes', 64), 4, 'f32'); ex.facts.append(lt(m.vtx.count, bv(1 << 40, 64)))
        def read(ex, st, s, i): fact(ex, 'vertex', le(Add(m.off(arr_read(ex, st.ghost[s.key(0)], i)), bv(12, 64)), m.vtx.count))
        m.ind.onread = read
        for nm, a in (('vcg_verts', m.vtx), ('vcg_inds', m.ind)): ex.icp.append((lambda n, nm=nm: n == nm, lambda ex, st, x, w, a=a: a.ptr()))
        ex.icp.append((lambda n: n == 'vcg_tris', lambda ex, st, x, w: None))
    def off(m, v): return ZExt(Mul(ZExt(v, 32) if v.ty < 32 else v, VS), 64)
    def corners(m, st, v):
        """the corners of triangle v (32 bit): three vectors"""
        r = []
        for c in range(3):
            i = ZExt(Mul(Add(Mul(v, bv(3, 32)), bv(c, 32)), bv(m.size, 32)), 64); o = m.off(m.ind.get(m.ex, st, i)); r.append([m.vtx.get(m.ex, st, Add(o, bv(4 * l, 64)) if l else o) for l in range(3)])
        return r
    def reads(m, ex, st, fn, a, where):
        """the function object reads the index at the given address"""
        nm, = [n for n in ex.m.funcs if n.startswith('_ZNKSt8functionIFjPKhEEcl')]
        for s2, v in ex.call_fn(ex.g.probe(st), nm, [fn, Ptr(m.ind.obj, 0, ((QI, m.size),))], where): ex.oblige('precondition', s2, Eq(v, ZExt(m.ind.get(ex, s2, Mul(QI, bv(m.size, 64))), 32) if m.size < 4 else m.ind.get(ex, s2, Mul(QI, bv(4, 64)))), 'getIndex reads the index')
class G:
    """ghost state of one construction; lo/hi: the range of positions below a node, par: the parent of a node"""
    def probe(g, st):
        s2 = st.fork(); st.own = set(); s2.pc = And(s2.pc, lt(QI, Mul(N, bv(3, 64)))); return s2
    def __init__(g, ex, st, boxes, mesh=0):
        g.mesh = Mesh(ex, st, mesh) if mesh else None
        g.ex = ex; g.boxes_ = boxes; g.head = None; g.hs = {}; g.pre = {}; g.cur = None; g.root = None
        stdvec.install(ex, st, {'math::Bvh::Node': [], 'unsigned int': [], 'math::f32x4': []}); stdstack.install(ex, st, lambda: g.buf)
        U = lambda nm: SymArr(ex, st, nm, None, 8, {0: 64}, real=False)
        g.GL, g.GH, g.PAR = U('lo'), U('hi'), U('par')
        g.box = SymArr(ex, st, 'boxes', N, 32, {o: 'f32' for o in range(0, 32, 4)}, const=True, real=False)
        g.rbox = SymArr(ex, st, 'root', o64, 32, {o: 'f32' for o in range(0, 32, 4)}, const=True, real=False)
        g.cen = SymArr(ex, st, 'cents', N, 16, {o: 'f32' for o in range(0, 16, 4)}, const=True, real=False)
        def at(nm, fn): ex.icp.append((lambda n, nm=nm: n == nm, fn))
        at('vcg_stale', g.stale); at('vcg_boxes', lambda ex, st, a, w: g.box.ptr()); at('vcg_root', lambda ex, st, a, w: g.rbox.ptr()); at('vcg_cents', lambda ex, st, a, w: g.cen.ptr())
        T32 = lambda t: Trunc(t, 32)
        arg = lambda a, i=0: ZExt(a[i], 64)
        at('vcg_size', lambda ex, st, a, w: T32(g.vec(st, 0)[1])); at('vcg_prims', lambda ex, st, a, w: T32(g.vec(st, 24)[1]))
        at('vcg_cnt', lambda ex, st, a, w: T32(g.cnt(st, arg(a)))); at('vcg_ff', lambda ex, st, a, w: T32(g.ff(st, arg(a)))); at('vcg_par', lambda ex, st, a, w: T32(g.par(st, arg(a))))
        at('vcg_lo', lambda ex, st, a, w: T32(g.lo(st, arg(a)))); at('vcg_hi', lambda ex, st, a, w: T32(g.hi(st, arg(a))))
        at('vcg_prim', lambda ex, st, a, w: g.prim32(st, arg(a))); at('vcg_occ', lambda ex, st, a, w: T32(g.occ(st, N, a[0]))); at('vcg_total', lambda ex, st, a, w: T32(g.A(st, g.vec(st, 0)[1])))
        at('vcg_in', lambda ex, st, a, w: g.inside(st, arg(a), arg(a, 1)))
        if mesh:
            def pre(name): return lambda n: n.startswith(name)
            def is_(st, t, v, what): ex.oblige('precondition', st, Eq(t, v), what)
            def splitm(ex, st, a, w): is_(st, a[2], VS, 'vertex size'); is_(st, a[3], bv(mesh, 32), 'index size'); g.same(a[4], g.mesh.vtx); g.same(a[5], g.mesh.ind); g.mesh.reads(ex, st, a[8], a, w); return g.split(ex, st, [a[0], a[1], g.box.ptr(), a[6], a[7], a[9], a[10], a[11]], w)
            def boundm(ex, st, a, w): is_(st, a[6], VS, 'vertex size'); is_(st, a[7], bv(mesh, 32), 'index size'); g.same(a[3], g.mesh.vtx); g.same(a[4], g.mesh.ind); g.mesh.reads(ex, st, a[8], a, w); return g.bound(ex, st, [a[0], a[1], a[2], g.box.ptr(), a[5]], w)
            ex.icp.append((pre('_ZL18findBestSplitPlanejjjj'), splitm)); ex.icp.append((pre('_ZL17calculateNodeAabbjjPKh'), boundm))
        at('_ZL18findBestSplitPlanejjPKN4math4AabbEPKjPKNS_5f32x4ERiRfS9_', g.split); at('_ZL17calculateNodeAabbjjPKN4math4AabbEPKj', g.bound)
        # root box contains every primitive: used at the ghost position
        g.folds = {}; g.rooted = {}
    # ---- the object: nodes at 0, primitives at 24, centroids at 48
    def stale(g, ex, st, a, where):
        t = a[0]; g.t = t
        for off, ty, nm in ((0, 'math::Bvh::Node', 'm0'), (24, 'unsigned int', 'm1'), (48, 'math::f32x4', 'm2')):
            n = u32(nm + '!'); b = ex.newbuf(ex, st, ty, n); ex.putvec(ex, st, Ptr(t.obj, t.off + off, t.sym), b, n)
    def vec(g, st, off): return g.ex.getvec(g.ex, st, Ptr(g.t.obj, g.t.off + off, g.t.sym))
    @property
    def buf(g): return g.buf_
    def use(g, st):
        """buffers of the current object"""
        g.buf_, g.n_ = g.vec(st, 0); g.pb, _ = g.vec(st, 24); g.pb.cls = 'pos'; return g.buf_ is not None and g.pb is not None
    def nb(g, st): return g.vec(st, 0)[0]
    def cnt(g, st, k): return ZExt(g.nb(st).get(g.ex, st, k, 12), 64)
    def ff(g, st, k): return ZExt(g.nb(st).get(g.ex, st, k, 28), 64)
    def leaf(g, st, k): return Not(Eq(g.cnt(st, k), z64))
    def prim32(g, st, p): return g.vec(st, 24)[0].get(g.ex, st, p)
    def prim(g, st, p): return ZExt(g.prim32(st, p), 64)
    # the range of a leaf is stored in it; an inner node keeps the range that it had as a leaf
    def lo(g, st, k): return Ite(g.leaf(st, k), g.ff(st, k), g.lo(g.head, k) if g.past(st) else g.GL.get(g.ex, st, k))
    def hi(g, st, k): return Ite(g.leaf(st, k), Add(g.ff(st, k), g.cnt(st, k)), g.hi(g.head, k) if g.past(st) else g.GH.get(g.ex, st, k))
    def past(g, st): return g.head is not None and id(st) not in g.hs
    def par(g, st, k):
        if not g.past(st): return g.PAR.get(g.ex, st, k)
        c = g.cur; l = g.ff(st, c)
        return Ite(all_(g.leaf(g.head, c), Not(g.leaf(st, c)), Or(Eq(k, l), Eq(k, Add(l, o64)))), c, g.PAR.get(g.ex, st, k))
    def fold(g, nm, arr, off, fn):
        if nm not in g.folds: g.folds[nm] = Fold(g.ex, arr, off, fn, nm)
        g.folds[nm].arr = arr; return g.folds[nm]
    def A(g, st, n): return g.fold('primitives', g.nb(st), 12, lambda i, v: ZExt(v, 64)).of(st, n)
    def Df(g, st): return g.fold('spare', g.nb(st), 12, lambda i, v: Ite(Eq(v, bv(0, 32)), z64, Sub(ZExt(v, 64), o64)))
    def D(g, st, n): return g.Df(st).of(st, n)
    def occ(g, st, n, v): return g.fold('occ', g.vec(st, 24)[0], 0, lambda i, x, w: B(Eq(x, w))).of(st, n, v)
    def inbox(g, st, box, k, v):
        """box k contains the box of primitive v"""
        r = []
        for l in (0, 4, 8): r += [FLe(box.get(g.ex, st, k, l), g.box.get(g.ex, st, v, l)), FLe(g.box.get(g.ex, st, v, 16 + l), box.get(g.ex, st, k, 16 + l))]
        return And(*r)
    def inside(g, st, k, p):
        """the box of node k contains the box of the primitive at position p; stores are case distinctions"""
        if not g.boxes_: return TRUE
        ex = g.ex; nb = g.nb(st); off = (0, 4, 8, 16, 20, 24)
        def byv(v):
            if v.op == 'ite': return Ite(v.args[0], byv(v.args[1]), byv(v.args[2]))
            v = ZExt(v, 64); g.inroot(st, v); return byk([st.ghost[nb.key(o)] for o in off], v)
        def byk(vs, v):
            if all(x.op == 'store' and x.a[1] is vs[0].a[1] for x in vs):
                return Ite(Eq(vs[0].a[1], k), cmp([x.a[2] for x in vs], v), byk([x.a[0] for x in vs], v))
            if all(x.op == 'fill' and x.a[1] is vs[0].a[1] and x.a[2] is vs[0].a[2] for x in vs):
                return Ite(all_(le(vs[0].a[1], k), lt(k, vs[0].a[2])), cmp([x.a[3] for x in vs], v), byk([x.a[0] for x in vs], v))
            if all(x.op == 'ite' and x.a[0] is vs[0].a[0] for x in vs): return Ite(vs[0].a[0], byk([x.a[1] for x in vs], v), byk([x.a[2] for x in vs], v))
            return cmp([arr_read(ex, x, k) for x in vs], v)
        def cmp(b, v): return And(*[FLe(b[i], g.box.get(ex, st, v, 4 * i)) for i in range(3)] + [FLe(g.box.get(ex, st, v, 16 + 4 * i), b[3 + i]) for i in range(3)])
        return byv(g.prim32(st, p))
    def inroot(g, st, v):
        # precondition: the given root box contains the boxes of all primitives
        if v.id not in g.rooted: g.rooted[v.id] = v; fact(g.ex, 'root', Implies(lt(v, N), g.inbox(st, g.rbox, z64, v)))
    # ---- callees, verified separately
    def same(g, a, b):
        if not isinstance(a, Ptr) or a.key() != b.ptr().key(): raise stdvec.ToolLimit('unexpected array passed to a callee')
    def readable(g, ex, st, f, l, what):
        p = ex.newvar('position', 64)      # any position of the range
        ex.oblige('precondition', st, all_(le(f, l), le(l, N)), '%s: range' % what)
    def split(g, ex, st, a, where):
        f, l = ZExt(a[0], 64), ZExt(a[1], 64); g.use(st); g.same(a[2], g.box); g.same(a[3], g.pb); g.readable(ex, st, f, l, 'findBestSplitPlane')
        c, _ = g.vec(st, 48)
        if a[4].obj not in (g.cen.obj, c.obj if c is not None else None) : raise stdvec.ToolLimit('unexpected centroids')
        ex.oblige('precondition', st, Implies(all_(le(f, P), lt(P, l)), lt(g.prim(st, P), N)), 'findBestSplitPlane: primitives')
        ax = ex.newvar('axis', 32); ex.facts.append(ULt(ax, bv(3, 32)))
        for q, ty, v in ((a[5], ('i', 32), ax), (a[6], 'float', ex.newvar('split', 'f32')), (a[7], 'float', ex.newvar('cost', 'f32'))): ex.store(st, q, ty, v, where)
    def bound(g, ex, st, a, where):
        out, f, n = a[0], ZExt(a[1], 64), ZExt(a[2], 64); g.use(st); g.same(a[3], g.box); g.same(a[4], g.pb); l = Add(f, n); g.readable(ex, st, f, l, 'calculateNodeAabb')
        ex.oblige('precondition', st, Implies(all_(le(f, P), lt(P, l)), lt(g.prim(st, P), N)), 'calculateNodeAabb: primitives')
        fl = {o: ex.newvar('bound%d' % o, 'f32') for o in range(0, 32, 4)}
        for o, v in fl.items(): ex.store(st, Ptr(out.obj, out.off + o, out.sym), 'float', v, where)
        if g.boxes_:
            snap = st.fork(); st.own = set()
            def holds(p):
                v = g.prim(snap, p); r = []
                for o in (0, 4, 8): r += [FLe(fl[o], g.box.get(ex, snap, v, o)), FLe(g.box.get(ex, snap, v, 16 + o), fl[16 + o])]
                return Implies(all_(le(f, p), lt(p, l)), And(*r))
            assume_forall(ex, ('pos',), holds, name='bound')
def setup(boxes, mesh=0):
    def f(ex, st): ex.g = G(ex, st, boxes, mesh)
    return f
def phase(g, xs, st, st0, h):
    main = any("('ptr'" in n for n, x in xs)
    if main:
        if st is st0: g.head = None
        elif 'st' not in h:
            g.head = st.fork(); st.own = set(); g.cur = [x for n, x in xs if "('ptr'" in n and not n.startswith('1 +')][0]
            g.hs[id(g.head)] = g.head
        if 'st' not in h: g.hs[id(st)] = st
    return main
def before(g, h):
    """a loop in front of the main loop (its back edge may be executed later)"""
    return g.pre.setdefault(h['key'], g.head is None)
def fills(g, h, st):
    """the loop writes the primitives"""
    return ('arr', g.vec(st, 24)[0].name, 0) in h['info']['ghost']
def cands(ex, xs, st, st0, h):
    g = ex.g
    if not hasattr(g, 't') or not g.use(st): return
    main = phase(g, xs, st, st0, h)
    xs = [(n, x) for n, x in xs if n.startswith("('")]
    ints = [(n, x) for n, x in xs if "('ptr'" not in n]
    if main:
        for n, x in xs:
            if "('ptr'" in n:
                c = x; s = list(ex.stacks.values())[0]
        touch(ex, 'pos', P)
        yield 'stack entries fit', le(s.depth(st), bv(1 << 48, 64))
        for n, x in ints:
            for d in (o64, two): g.A(st, Add(x, d)); g.D(st, Add(x, d))
            ex.facts.append(g.Df(st).member(st.ghost[g.nb(st).key(12)], x, c)) if st.ghost[g.nb(st).key(12)].op == 'base' else None
            yield '%s: current node is a leaf of the tree' % n, all_(lt(c, x), g.leaf(st, c))
            yield '%s: nodes are counted' % n, all_(le(o64, x), le(x, Mul(N, two)), Eq(Add(x, o64), Mul(two, Sub(N, g.D(st, x)))), le(g.D(st, x), N))
            yield '%s: leaves hold all primitives' % n, Eq(g.A(st, x), N)
        yield 'each primitive once', Implies(lt(V, N), Eq(g.occ(st, N, var('v', 32)), o64))
    else:
        if before(g, h):
            for n, x in ints:
                yield '%s primitives so far' % n, le(x, N)
                if fills(g, h, st): yield '%s each primitive once' % n, Eq(g.occ(st, x, var('v', 32)), B(lt(V, x)))
            if not fills(g, h, st): yield 'each primitive once', Implies(lt(V, N), Eq(g.occ(st, N, var('v', 32)), o64))
        else:
            F, E = g.ff(g.head, g.cur), Add(g.ff(g.head, g.cur), g.cnt(g.head, g.cur))
            yield 'each primitive once', Implies(lt(V, N), Eq(g.occ(st, N, var('v', 32)), o64))
            ints.sort(key=lambda a: a[1] is not F)
            for n, x in ints:
                yield '%s in the range' % n, all_(le(F, x), le(x, E))
                if st is st0 and x is F: h['first'] = h.get('first', ()) + (n,)
                for m, y in ints:
                    if m != n and (not h.get('first') or n in h['first']): yield '%s <= %s' % (n, m), le(x, y)
def foralls(ex, xs, st, st0, h):
    g = ex.g
    if not hasattr(g, 't') or not g.use(st): return
    main = any("('ptr'" in n for n, x in xs)
    if main and 'st' not in h: g.hs[id(st)] = st
    xs = [(n, x) for n, x in xs if n.startswith("('")]; ints = [(n, x) for n, x in xs if "('ptr'" not in n]
    pre = not main and before(g, h)
    if not pre or not fills(g, h, st): yield 'positions hold primitives', ('pos',), (P,), lambda p: Implies(lt(p, N), lt(g.prim(st, p), N))
    if pre:
        if fills(g, h, st):
            for n, x in ints: yield '%s identity so far' % n, ('pos',), (P,), lambda p, x=x: Implies(lt(p, x), Eq(g.prim(st, p), p))
        return
    if not main:
        ncs = g.ncs
        for n, x in ncs:
            if g.boxes_: yield '%s: boxes contain their primitives' % n, ('node', 'pos'), (K, P), lambda k, p, x=x: Implies(all_(lt(k, x), le(g.lo(g.head, k), p), lt(p, g.hi(g.head, k))), g.inside(st, k, p))
        return
    c = [x for n, x in xs if "('ptr'" in n][0]; s = list(ex.stacks.values())[0]
    if 'st' not in h and st is not st0: g.ncs = ints
    for d in (K, K2, c): touch(ex, 'node', d)
    if 'st' not in h: top = s.slot(ex, st, Sub(s.depth(st), o64)); touch(ex, 'node', top); touch(ex, 'stk', Sub(s.depth(st), o64)); s.occ.of(st, s.depth(st), top); s.occ.of(st, Sub(s.depth(st), o64), top)
    if 'st' not in h: touch(ex, 'node', g.par(st, K))
    for n, x in ints:
        yield '%s: stack' % n, ('stk',), (u32('sg!'),), lambda i, x=x: Implies(lt(i, s.depth(st)), lt(s.slot(ex, st, i), x))
        def stacked(k, x=x):
            pend = Add(B(Eq(c, k)), s.occurs(st, k)); return all_(le(pend, o64), Implies(Eq(pend, o64), all_(lt(k, x), g.leaf(st, k))))
        yield '%s: nodes to do are different leaves' % n, ('node',), (K,), stacked
        def node(k, x=x):
            lo, hi, l = g.lo(st, k), g.hi(st, k), g.ff(st, k); r = Add(l, o64)
            return Implies(lt(k, x), all_(lt(lo, hi), le(hi, N), Implies(Not(g.leaf(st, k)), all_(lt(k, l), lt(r, x), Eq(g.par(st, l), k), Eq(g.par(st, r), k), Eq(g.lo(st, l), lo), Eq(g.hi(st, l), g.lo(st, r)), Eq(g.hi(st, r), hi)))))
        yield '%s: nodes' % n, ('node',), (K,), node
        def parent(k, x=x):
            p = g.par(st, k); l = g.ff(st, p)
            return Implies(all_(lt(z64, k), lt(k, x)), all_(lt(p, k), Not(g.leaf(st, p)), Or(Eq(k, l), Eq(k, Add(l, o64)))))
        yield '%s: parents' % n, ('node',), (K,), parent
        def laminar(k, k2, x=x):
            a, b, a2, b2 = g.lo(st, k), g.hi(st, k), g.lo(st, k2), g.hi(st, k2); dis = Or(le(b, a2), le(b2, a))
            return Implies(all_(lt(k, x), lt(k2, x), g.leaf(st, k2), Not(Eq(k, k2))), Ite(g.leaf(st, k), dis, Or(dis, all_(le(a, a2), le(b2, b)))))
        yield '%s: ranges are nested or disjoint' % n, ('node', 'node'), (K, K2), laminar
        if g.boxes_: yield '%s: boxes contain their primitives' % n, ('node', 'pos'), (K, P), lambda k, p, x=x: Implies(all_(lt(k, x), le(g.lo(st, k), p), lt(p, g.hi(st, k))), g.inside(st, k, p))
cands.nopairs = True
def hint_(nm):
    """facts that matter for an obligation"""
    node = 'read:vector<math::Bvh::Node>.'; cnt = (node + '12', node + '28'); rng = ('read:lo.0', 'read:hi.0', 'read:par.0'); box = lambda t: 'boxes contain' in t or t == 'forall:bound' or t == 'root'
    if 'nodes are counted' in nm: return lambda t: t in ('sum:spare', cnt[0])
    if 'leaves hold all' in nm or 'in total' in nm: return lambda t: t in ('sum:primitives', cnt[0])
    if 'each primitive once' in nm: return lambda t: t in ('sum:occ', 'read:vector<unsigned int>.0')
    if nm.endswith(': nodes') or nm.endswith(': parents') or 'nested' in nm or 'share no position' in nm or 'leaves hold positions' in nm: return lambda t: t.startswith('forall:') and not box(t) or t in cnt or t in rng
    if 'boxes contain' in nm or 'of all primitives below' in nm: return lambda t: box(t) or 'nested' in t or t.startswith(node) or t.startswith('read:boxes') or t.startswith('read:root') or t in rng or t == 'read:vector<unsigned int>.0'
    return lambda t: not box(t) and not t.startswith('sum:')
def hint(nm): return hint_(nm), 15 if 'counted' in nm or 'hold all' in nm or 'in total' in nm else 90
cands.only = hint
def measure(ex, xs, st, st0, h):
    g = ex.g
    if not hasattr(g, 't') or not any("('ptr'" in n for n, x in xs): 
        for n, x in xs:
            for m, y in xs:
                if m != n and n not in h.get('first', ()): yield '%s - %s' % (n, m), Sub(x, y)
        return
    s = list(ex.stacks.values())[0]
    for n, x in xs:
        if "('ptr'" not in n: yield 'missing nodes plus stacked nodes (%s)' % n, Add(Sub(Mul(N, two), x), s.depth(st))
LOOPS = [(lambda nm: nm.startswith('_ZN4math3Bvh8recreate'), cands, measure, foralls)]
out = []
gen = lambda r: dict(seed=r.getrandbits(64), n=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 30]), k=r.randrange(12), k2=r.randrange(12), p=r.randrange(12), v=r.randrange(12))
TAIL = '''nc = vcg_size(); np = vcg_prims(); cnt = vcg_cnt(k); ff = vcg_ff(k); cnt2 = vcg_cnt(k2); ff2 = vcg_ff(k2); lo = vcg_lo(k); hi = vcg_hi(k); par = vcg_par(k); pcnt = vcg_cnt(par); pff = vcg_ff(par);
lol = vcg_lo(ff); hil = vcg_hi(ff); lor = vcg_lo(ff + 1); hir = vcg_hi(ff + 1); parl = vcg_par(ff); parr = vcg_par(ff + 1); prim = vcg_prim(p); occ = vcg_occ(v); total = vcg_total(); in = vcg_in(k, p); empty = t.getNodeStack().empty(); '''
OUT = 'uint32 nc, uint32 np, uint32 cnt, uint32 ff, uint32 cnt2, uint32 ff2, uint32 lo, uint32 hi, uint32 par, uint32 pcnt, uint32 pff, uint32 lol, uint32 hil, uint32 lor, uint32 hir, uint32 parl, uint32 parr, uint32 prim, uint32 occ, uint32 total, bool in, bool empty'
def ens(I, O, boxes):
    w = lambda t: ZExt(t, 64); z = bv(0, 32); k = lt(I.k, O.nc); leaf, leaf2 = Not(Eq(O.cnt, z)), Not(Eq(O.cnt2, z))
    return ([('the box of a node contains the boxes of all primitives below it', Implies(all_(k, le(O.lo, I.p), lt(I.p, O.hi)), O['in']))] if boxes else []) + [('at least one node, at most 2N - 1 nodes, N positions', all_(lt(z, O.nc), lt(w(O.nc), Mul(two, w(I.n))), Eq(O.np, I.n))),
            ('every position holds a primitive', Implies(lt(I.p, I.n), lt(O.prim, I.n))), ('every primitive is held once', Implies(lt(I.v, I.n), Eq(O.occ, bv(1, 32)))),
            ('leaves hold positions of the array', Implies(all_(k, leaf), le(Add(w(O.ff), w(O.cnt)), w(I.n)))),
            ('different leaves share no position', Implies(all_(k, lt(I.k2, O.nc), leaf, leaf2, Not(Eq(I.k, I.k2))), Or(le(Add(O.ff, O.cnt), O.ff2), le(Add(O.ff2, O.cnt2), O.ff)))),
            ('the leaves hold N positions in total', Eq(O.total, I.n)),
            ('children lie behind their parent in the node array and have no other parent', Implies(all_(k, Not(leaf)), all_(lt(I.k, O.ff), lt(Add(w(O.ff), o64), w(O.nc)), Eq(O.parl, I.k), Eq(O.parr, I.k)))),
            ('every node but the root is a child of an inner node', Implies(all_(k, lt(z, I.k)), all_(lt(O.par, I.k), Eq(O.pcnt, z), Or(Eq(I.k, O.pff), Eq(I.k, Add(O.pff, bv(1, 32))))))),
            ('below an inner node are the positions of its left child, then those of its right child', Implies(all_(k, Not(leaf)), all_(Eq(O.lol, O.lo), Eq(O.hil, O.lor), Eq(O.hir, O.hi)))),
            ('the work stack is empty', O.empty)]
IN = 'uint64 seed, uint32 n, uint32 k, uint32 k2, uint32 p, uint32 v'
REQ = lambda I: [lt(bv(0, 32), I.n), lt(I.n, bv(1 << 31, 32))]
for nm, ce, th in (('boxes', 'nullptr', False), ('boxes_given_centroids', 'vcg_cents()', True)):
    out.append(Contract(nm, IN, 'Tree t; vcg_stale(t, seed); auto b = vcg_boxes(seed, n); t.recreate(b, *vcg_root(), n, %s); ' % ce + TAIL, OUT, lambda I, O: ens(I, O, True), REQ, sem='bits', setup=setup(True), loops=LOOPS, gen=gen, timeout=200, only=hint, thorough=th))

# ---- callees of the construction
class H:
    """arguments of one callee: positions [0, NP), primitives < N, boxes and centroids of all primitives"""
    NP, F, L = u32('np'), u32('f'), u32('l')
    def __init__(h, ex, st, mesh=0):
        stdvec.install(ex, st, {}); h.ex = ex; h.mesh = Mesh(ex, st, mesh) if mesh else None
        h.box = SymArr(ex, st, 'boxes', N, 32, {o: 'f32' for o in range(0, 32, 4)}, const=True, real=False); h.cen = SymArr(ex, st, 'cents', N, 16, {o: 'f32' for o in range(0, 16, 4)}, const=True, real=False)
        h.pr = SymArr(ex, st, 'prims', h.NP, 4, {0: 32}, const=True, real=False); h.pr.cls = 'pos'
        for nm, a in (('vcg_boxes', h.box), ('vcg_cents', h.cen), ('vcg_primitives', h.pr)): ex.icp.append((lambda n, nm=nm: n == nm, lambda ex, st, x, w, a=a: a.ptr()))
        ex.icp.append((lambda n: n == 'vcg_holds', h.holds_))
        st0 = st
        assume_forall(ex, ('pos',), lambda p: Implies(all_(le(h.F, p), lt(p, h.L)), lt(h.prim(st0, p), N)), name='primitives')
        def real_(p): return And(*[Not(FIsNan(x)) for l in range(3) for x in h.low(st0, p, l) + h.high(st0, p, l)])
        assume_forall(ex, ('pos',), real_, name='numbers')
        touch(ex, 'pos', P)
    def prim(h, st, p): return ZExt(h.pr.get(h.ex, st, p), 64)
    def holds_(h, ex, st, a, w):
        """does the box contain the box of the primitive at a position"""
        p = ZExt(a[1], 64); ld = lambda o: ex.load(st, Ptr(a[0].obj, a[0].off + o, a[0].sym), 'float', w)
        return And(*[FLe(ld(4 * l), x) for l in range(3) for x in h.low(st, p, l)] + [FLe(x, ld(16 + 4 * l)) for l in range(3) for x in h.high(st, p, l)])
    def low(h, st, p, l):
        if h.mesh: return [c[l] for c in h.mesh.corners(st, h.pr.get(h.ex, st, p))]
        return [h.box.get(h.ex, st, h.prim(st, p), 4 * l)]
    def high(h, st, p, l): return h.low(st, p, l) if h.mesh else [h.box.get(h.ex, st, h.prim(st, p), 16 + 4 * l)]
def hsetup(ex, st): ex.h = H(ex, st)
def hmesh(size):
    def f(ex, st): ex.h = H(ex, st, size)
    return f
def hcands(ex, xs, st, st0, L):
    h = ex.h
    counters = [n for n, x in xs if n.startswith("('phi") and x.op == 'zext']
    # running minima and maxima: float vectors, or pairs of floats packed into 64 bits
    parts, nums = [], []
    for m, y in L['vals'].items():
        if isinstance(y, list) and len(y) == 4: fs = [([0, 1, 2], y[:3])]
        elif isinstance(y, Term) and y.ty == 64: q = [ibits(Extract(31, 0, y), 'f32'), ibits(Extract(63, 32, y), 'f32')]; fs = [([0], q[:1]), ([1], q[1:]), ([2], q[:1])]
        else: continue
        for ls, q in fs:
            parts.append(((m, 'below the boxes so far %s' % ls), And(*[FLe(a, x) for l, a in zip(ls, q) for x in h.low(st, P, l)]))); parts.append(((m, 'above the boxes so far %s' % ls), And(*[FLe(x, a) for l, a in zip(ls, q) for x in h.high(st, P, l)])))
            nums.append((m + str(ls), And(*[Not(FIsNan(a)) for a in q])))
    for n, x in xs:
        if n in counters: yield n + ' in the range', all_(le(h.F, x), le(x, h.L))
        if n.startswith("('phi") and n in counters:
            seen = all_(le(h.F, P), lt(P, x))
            for m, y in parts: yield '%s %s (%s)' % (m[0], m[1], n), Implies(seen, y)
    for m, y in nums: yield '%s is a number' % m, y
    for n, x in xs:
        if n.startswith("('ptr'"):
            for k in (7, 8): yield '%s <= %d' % (n, k), le(x, bv(k, 64))
        if n.startswith('signed') and 'cell' not in n and 'SplitPlane' in L['key'][0]:
            for k in (3, 7, 8): yield '%s <= %d' % (n, k), And(SLe(bv(0, 64), x), SLe(x, bv(k, 64)))
            yield '%s < 3' % n, And(SLe(bv(0, 64), x), SLt(x, bv(3, 64)))
hcands.nopairs = True
HL = lambda what: [(lambda nm: what in nm, hcands)]
hreq = lambda I: [le(I.f, I.l), le(I.l, I['np']), lt(bv(0, 32), I.n), lt(I.n, bv(1 << 31, 32)), lt(I['np'], bv(1 << 31, 32))]
hgen = lambda r: (lambda n: (lambda f: dict(seed=r.getrandbits(64), n=n, np=n, f=f, l=r.randrange(f, n + 1), p=r.randrange(n)))(r.randrange(n)))(r.choice([1, 2, 3, 4, 7, 20]))
hin = 'uint64 seed, uint32 n, uint32 np, uint32 f, uint32 l, uint32 p'
HOK = lambda I: [le(I.n, bv(64, 32)), Eq(I["np"], I.n)]
out.append(Contract('bin_index', 'float v', 'r = calcBinIndex(v);', 'int32 r', lambda I, O: [('a bin, whatever the value', And(SLe(bv(0, 32), O.r), SLt(O.r, bv(8, 32))))], sem='ieee'))
out.append(Contract('node_box', hin, 'auto b = vcg_boxes(seed, n); Aabb a = calculateNodeAabb(f, l - f, b, vcg_primitives(np)); r = vcg_holds(a, p);', 'bool r',
    lambda I, O: [('the box contains the boxes of the primitives of the range', Implies(all_(le(I.f, I.p), lt(I.p, I.l)), O.r))], hreq, sem='bits', setup=hsetup, loops=HL('calculateNodeAabb'), gen=hgen, native_ok=HOK, timeout=100))
out.append(Contract('split_plane', hin, 'auto b = vcg_boxes(seed, n); axis = -1; findBestSplitPlane(f, l, b, vcg_primitives(np), vcg_cents(), axis, split, cost);', 'int32 axis, float split, float cost',
    lambda I, O: [('the axis is one of three', And(SLe(bv(0, 32), O.axis), SLt(O.axis, bv(3, 32))))], hreq, sem='bits', setup=hsetup, loops=HL('findBestSplitPlane'), gen=hgen, native_ok=HOK, timeout=100))
# ---- triangles
def ghas(g, **k): return lambda r: dict(g(r), **{a: f(r) for a, f in k.items()})
vsz = dict(vs=lambda r: r.choice([12, 16, 20, 32]), qi=lambda r: 0)
mreq = lambda I: [lt(bv(0, 32), I.vs), lt(I.n, bv(1 << 28, 32))]
MOK = lambda I: HOK(I) + vok(I)
vok = lambda I: [le(bv(12, 32), I.vs), le(I.vs, bv(64, 32)), Eq(Extract(1, 0, I.vs), bv(0, 2))]
for size in (2, 4):
    get = 'std::function<uint32(const uint8*)> get = [](const uint8* d) { return (uint32)*(const uint%d*)d; }; vcg_tris(seed, n, vs, %d); ' % (8 * size, size)
    out.append(Contract('node_box_%d' % size, hin + ', uint32 vs', get + 'Aabb a = calculateNodeAabb(f, l - f, vcg_verts(), vcg_inds(), vcg_primitives(np), vs, %d, get); r = vcg_holds(a, p);' % size, 'bool r',
        lambda I, O: [('the box contains the corners of the triangles of the range', Implies(all_(le(I.f, I.p), lt(I.p, I.l)), O.r))], lambda I: hreq(I) + mreq(I), sem='bits', setup=hmesh(size), loops=HL('calculateNodeAabb'), gen=ghas(hgen, vs=vsz['vs']), native_ok=MOK, timeout=100, ufmul=True, thorough=size == 2))
    out.append(Contract('split_plane_%d' % size, hin + ', uint32 vs', get + 'axis = -1; findBestSplitPlane(f, l, vs, %d, vcg_verts(), vcg_inds(), vcg_primitives(np), vcg_cents(), get, axis, split, cost);' % size, 'int32 axis, float split, float cost',
        lambda I, O: [('the axis is one of three', And(SLe(bv(0, 32), O.axis), SLt(O.axis, bv(3, 32))))], lambda I: hreq(I) + mreq(I), sem='bits', setup=hmesh(size), loops=HL('findBestSplitPlane'), gen=ghas(hgen, vs=vsz['vs']), native_ok=MOK, timeout=100, ufmul=True, thorough=size == 2))
    out.append(Contract('triangles_%d' % size, IN + ', uint32 vs, uint32 qi', 'Tree t; vcg_stale(t, seed); vcg_tris(seed, n, vs, %d); t.recreate(vcg_verts(), vcg_inds(), *vcg_root(), n * 3, vs, %d, nullptr); ' % (size, size) + TAIL, OUT,
        lambda I, O: ens(I, O, True), lambda I: REQ(I) + mreq(I), sem='bits', setup=setup(True, size), loops=LOOPS, gen=ghas(gen, **vsz), native_ok=vok, timeout=200, ufmul=True, only=hint, thorough=size == 4))
CONTRACTS = out
