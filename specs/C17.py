"""C17: queries of a bounding volume hierarchy, for every tree, visitor and frustum"""
from specs.common import *
from vcg import stdvec, stdstack
from vcg.arrays import SymArr, Fold, touch, assume_forall, arr_read
from vcg.sym import Ptr, NULL
INCLUDES = ['math/bvh.hpp']
VARIANTS = ['sse2']
THOROUGH_VARIANTS = ['sse2', 'avx2', 'debug']
ASSUMPTIONS = ['the tree is well-formed as C16 ensures: children behind their parent and inside the node array, every node but the root is the child of exactly one inner node, leaf ranges are disjoint ranges of the index array',
               'std::vector, std::stack and std::function are replaced by their contracts', 'the visitor is a function of the node', 'isBehindFrustum is replaced by its contract (C15)', 'finite sums: theory of Fold in vcg/arrays.py']
PRELUDE = '''
#include <utility>
#include "../source/bvh.cpp"
namespace T { using namespace math;
static uint64_t rs; static uint32 rnd(uint32 n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (uint32)((rs >> 33) % n); }
static std::vector<uint32> par, vis, lc, acc; static uint32 last, bad;
struct Tree : Bvh {
  void split(uint32 k, uint32 a, uint32 n) {
    auto& b = nodes[k];
    if (n == 1 || rnd(4) == 0) { b.setFirstPrimitive(a); b.setPrimitiveCount(n); return; }
    uint32 l = (uint32)nodes.size(), m = 1 + rnd(n - 1); b.setPrimitiveCount(0); b.setLeftNode(l); nodes.resize(l + 2); par.push_back(k); par.push_back(k);
    split(l, a, m); split(l + 1, a + m, n - m);
  }
  void build(uint64_t seed) {
    rs = seed; par.clear(); nodes.clear(); primitives.clear(); uint32 n = rnd(9);
    for (uint32 i = 0; i < n; i++) primitives.push_back(i);
    for (uint32 i = 0; i + 1 < n; i++) std::swap(primitives[i], primitives[i + rnd(n - i)]);
    primitives.reserve(9); if (n) { nodes.resize(1); par.push_back(0); split(0, 0, n); }
    vis.assign(nodes.size(), 0); lc = acc = vis; for (uint32 k = 0; k < nodes.size(); k++) {
      auto& b = nodes[k]; acc[k] = rnd(4) != 0; auto c = b.getPrimitiveCount(), f = b.getFirstPrimitive(); // boxes on the two sides of the plane x = 0
      b.aabb = acc[k] ? Aabb(f32x4(1.0f), f32x4(2.0f)) : Aabb(f32x4(-2.0f), f32x4(-1.0f)); b.setPrimitiveCount(c); b.setLeftNode(f); }
    last = ~0u; bad = 0;
  }
  uint32 at(const Node& x) const { return (uint32)(&x - nodes.data()); }
};
static Tree* tree; static uint32 outb[16]; static Plane plane[1];
// visited according to the definition: all proper ancestors are accepted
static bool seen(uint32 k) { for (; k; k = par[k]) if (!acc[par[k]]) return false; return k < par.size() || tree->getNodes().size(); }
}
using T::Tree;
extern "C" __attribute__((noinline)) math::Plane* vcg_planes() { T::plane[0] = math::Plane(math::f32x4(1.0f, 0.0f, 0.0f), 0.0f, false); return T::plane; }
extern "C" __attribute__((noinline)) uint32_t* vcg_out() { for (auto& x : T::outb) x = 77; return T::outb; }
extern "C" __attribute__((noinline)) uint32_t vcg_seen(uint32_t k) { return k < T::par.size() && T::seen(k); }
extern "C" __attribute__((noinline)) uint32_t vcg_total() { uint32_t n = 0; for (uint32_t k = 0; k < T::vis.size(); k++) if (T::seen(k) && T::acc[k]) n += T::tree->getNodes()[k].getPrimitiveCount(); return n; }
extern "C" __attribute__((noinline)) uint32_t vcg_prim(uint32_t p) { return p < T::tree->getPrimitives().size() ? T::tree->getPrimitives()[p] : 0; }
extern "C" __attribute__((noinline)) uint32_t vcg_count(uint32_t n, uint32_t v) { uint32_t c = 0; for (uint32_t i = 0; i < n && i < 16; i++) c += T::outb[i] == v; return c; }
// the verifier replaces these by an arbitrary tree, visitor, and by counters per node
extern "C" __attribute__((noinline)) void vcg_tree(Tree& t, uint64_t seed) { T::tree = &t; t.build(seed); }
extern "C" __attribute__((noinline)) uint32_t vcg_par(uint32_t k) { return k < T::par.size() ? T::par[k] : 0; }
extern "C" __attribute__((noinline)) uint32_t vcg_vis(uint32_t k) { return k < T::vis.size() ? T::vis[k] : 0; }
extern "C" __attribute__((noinline)) uint32_t vcg_lc(uint32_t k) { return k < T::lc.size() ? T::lc[k] : 0; }
extern "C" __attribute__((noinline)) bool vcg_acc(uint32_t k) { return k < T::acc.size() ? T::acc[k] : 0; }
extern "C" __attribute__((noinline)) bool vcg_visit(const math::Bvh::Node& x) { auto k = T::tree->at(x); T::vis[k]++; T::last = k; return T::acc[k]; }
extern "C" __attribute__((noinline)) void vcg_leaf(uint32_t a, uint32_t n) { auto& x = T::tree->getNodes()[T::last]; if (a != x.getFirstPrimitive() || n != x.getPrimitiveCount() || !T::acc[T::last]) T::bad++; T::lc[T::last]++; }
extern "C" __attribute__((noinline)) bool vcg_order() { return T::bad == 0; }
'''
K = ZExt(var('k', 32), 64); NC = ZExt(var('nc!', 32), 64); NP = ZExt(var('np!', 32), 64)
SG = var('sg!', 64)
z64, o64 = bv(0, 64), bv(1, 64)
B = lambda c: Ite(c, o64, z64)
class G:
    """ghost state and vocabulary of one execution"""
    def __init__(g, ex, st):
        g.ex = ex
        stdvec.install(ex, st, {'math::Bvh::Node': [], 'unsigned int': []})
        stdstack.install(ex, st, lambda: g.nodes)
        g.par = SymArr(ex, st, 'par', None, 8, {0: 64}, real=False); g.vis = SymArr(ex, st, 'vis', None, 8, {0: 64}, real=False); g.lc = SymArr(ex, st, 'lc', None, 8, {0: 64}, real=False)
        g.acc = SymArr(ex, st, 'acc', None, 8, {0: 64}, real=False)
        g.sumvis = Fold(ex, g.vis, 0, lambda i, v: v, 'visited')
        g.st0 = None; g.nodes = None
        for nm, fn in (('vcg_tree', g.tree), ('vcg_par', lambda ex, st, a, w: Trunc(g.parof(ZExt(a[0], 64)), 32)), ('vcg_vis', lambda ex, st, a, w: g.rd(g.vis, st, a[0])), ('vcg_lc', lambda ex, st, a, w: g.rd(g.lc, st, a[0])),
                       ('vcg_acc', lambda ex, st, a, w: g.accof(ZExt(a[0], 64))), ('vcg_visit', g.visit), ('vcg_leaf', g.leaf), ('vcg_order', lambda ex, st, a, w: Eq(st.ghost[('bad',)], z64))):
            ex.icp.append((lambda n, nm=nm: n == nm, fn))
        st.ghost[('last',)] = bv(-1, 64); st.ghost[('bad',)] = z64
    def rd(g, arr, st, k): return Trunc(Ite(ULt(ZExt(k, 64), NC), arr.get(g.ex, st, ZExt(k, 64)), z64), 32)
    # nodes never change: read them in the initial version
    def cnt(g, k): return ZExt(g.nodes.get(g.ex, g.st0, k, 12), 64)
    def ff(g, k): return ZExt(g.nodes.get(g.ex, g.st0, k, 28), 64)
    def parof(g, k): return g.par.get(g.ex, g.st0, k)
    def accof(g, k): return Eq(g.acc.get(g.ex, g.st0, k), o64)
    def child(g, k): p = g.parof(k); return And(ULt(z64, k), ULt(p, k), Eq(g.cnt(p), z64), Or(Eq(k, g.ff(p)), Eq(k, Add(g.ff(p), o64))))
    def tree(g, ex, st, a, where):
        # members of the (empty) object: nodes at 0, primitives at 24, centroids at 48, nodeStack at 72
        t = a[0]; at = lambda k: Ptr(t.obj, t.off + k, t.sym)
        g.nodes = ex.newbuf(ex, st, 'math::Bvh::Node', NC); g.nodes.cls = 'node'; ex.putvec(ex, st, at(0), g.nodes, NC)
        g.nodes.const = True; g.prims = ex.newbuf(ex, st, 'unsigned int', NP); g.prims.const = True; g.prims.cls = 'pos'; ex.putvec(ex, st, at(24), g.prims, NP)
        g.st0 = st.fork(); st.own = set()
        nd = lambda k: And(ULt(k, NC))
        assume_forall(ex, ('node',), lambda k: Implies(ULt(k, NC), And(
            Implies(Eq(g.cnt(k), z64), And(ULt(k, g.ff(k)), ULt(Add(g.ff(k), o64), NC), Eq(g.parof(g.ff(k)), k), Eq(g.parof(Add(g.ff(k), o64)), k))),
            Implies(Not(Eq(g.cnt(k), z64)), ULe(Add(g.ff(k), g.cnt(k)), NP)),
            Implies(ULt(z64, k), g.child(k)), Eq(g.vis.get(ex, g.st0, k), z64), Eq(g.lc.get(ex, g.st0, k), z64), ULe(g.acc.get(ex, g.st0, k), o64))))
        touch(ex, 'node', K); touch(ex, 'node', g.parof(K))
        g.extra(ex, st)
    def extra(g, ex, st): pass
    def index(g, p):
        if not isinstance(p, Ptr) or p.obj is not g.nodes.obj: raise stdvec.ToolLimit('not a node')
        i, f = g.nodes.index(p)
        if f: raise stdvec.ToolLimit('not a node')
        return i
    def visit(g, ex, st, a, where):
        i = g.index(a[0]); ex.oblige('out-of-bounds', st, ULt(i, NC), 'visited node'); touch(ex, 'node', i)
        g.vis.put(ex, st, i, Add(g.vis.get(ex, st, i), o64)); st.ghost[('last',)] = i
        return g.accof(i)
    def leaf(g, ex, st, a, where):
        l = st.ghost[('last',)]; f, n = ZExt(a[0], 64), ZExt(a[1], 64)
        ok = And(ULt(l, NC), g.accof(l), Eq(f, g.ff(l)), Eq(n, g.cnt(l)))
        st.ghost[('bad',)] = Ite(ok, st.ghost[('bad',)], o64); g.lc.put(ex, st, l, Add(g.lc.get(ex, st, l), o64)); return None
    # ---- vocabulary of the invariants
    def stack(g): return list(g.ex.stacks.values())
    def v(g, st, k): return g.vis.get(g.ex, st, k)
    def due(g, st, k):
        """1 if the node has to be visited: the root, or the visitor accepted its parent"""
        p = g.parof(k)
        return B(Or(Eq(k, z64), And(g.child(k), Eq(g.v(st, p), o64), g.accof(p))))
def setup(ex, st): ex.g = G(ex, st)
def cands(ex, xs, st, st0, h):
    g = ex.g
    if g.nodes is None: return
    yield 'no callback out of order', Eq(st.ghost[('bad',)], z64)
    g.sumvis.bounded(st, NC, 1, 'node')
    yield 'visits are bounded', ULe(g.sumvis.of(st, NC), NC)
    for n, x in xs:
        if "('ptr'" in n and not n.startswith('1 +'): yield '%s is a node' % n, ULt(x, NC)
def foralls(ex, xs, st, st0, h):
    g = ex.g
    if g.nodes is None: return
    for n, s in enumerate(g.stack()):
        yield 'stacked nodes are nodes' + ' (external stack)' * n, ('stk',), (SG,), lambda i, s=s, d=s.depth(st): Implies(ULt(i, d), ULt(s.slot(ex, st, i), NC))
    for n, x in xs:
        if "('ptr'" not in n or n.startswith('1 +'): continue
        def due(k, x=x):
            pend = B(Eq(x, k))
            for s in g.stack(): pend = Add(pend, s.occurs(st, k))
            return Implies(ULt(k, NC), Eq(Add(g.v(st, k), pend), g.due(st, k)))
        yield 'every node that is due is visited, current or stacked, once (%s)' % n, ('node',), (K,), due
    yield 'no node is visited twice', ('node',), (K,), lambda k: Implies(ULt(k, NC), ULe(g.v(st, k), o64))
    if not isinstance(g, F): yield 'leaf calls', ('node',), (K,), lambda k: Implies(ULt(k, NC), Eq(g.lc.get(ex, st, k), B(And(Eq(g.v(st, k), o64), g.accof(k), Not(Eq(g.cnt(k), z64))))))

def measure(ex, xs, st, st0, h):
    g = ex.g
    if g.nodes is not None: yield 'number of nodes not yet visited', Sub(NC, g.sumvis.of(st, NC))
LOOPS = [(lambda nm: nm.startswith('_ZN4math'), cands, measure, foralls)]
out = []
gen = lambda r: dict(seed=r.getrandbits(64), k=r.randrange(18))
TAIL = 'n = (uint32)t.getNodes().size(); vis = vcg_vis(k); p = vcg_par(k); vp = vcg_vis(p); ap = vcg_acc(p); acc = vcg_acc(k); leaf = k < n && t.getNodes()[k].isLeaf(); empty = t.getNodeStack().empty(); '
OUT = 'uint32 n, uint32 vis, uint32 p, uint32 vp, bool ap, bool acc, bool leaf, bool empty'
def visits(I, O):
    inside = ULt(I.k, O.n); due = Or(Eq(I.k, bv(0, 32)), And(Eq(O.vp, bv(1, 32)), O.ap))
    return [('every node whose ancestors were all accepted is visited exactly once, no other node is visited', Implies(inside, Eq(O.vis, Ite(due, bv(1, 32), bv(0, 32))))), ('the work stack is empty', O.empty)]
out.append(Contract('traverse', 'uint64 seed, uint32 k', 'Tree t; vcg_tree(t, seed); t.traverse(vcg_visit, vcg_leaf); ' + TAIL + 'lc = vcg_lc(k); order = vcg_order();', OUT + ', uint32 lc, bool order',
  lambda I, O: visits(I, O) + [('each accepted leaf is reported exactly once', Implies(ULt(I.k, O.n), Eq(O.lc, Ite(And(O.leaf, O.acc), O.vis, bv(0, 32))))), ('with its own range, after its visit', O.order)], sem='bits', setup=setup, loops=LOOPS, gen=gen))

# ---------------------------------------------------------------- collection in a frustum
P = ZExt(var('p', 32), 64)
class F(G):
    """K is a leaf that contains position P of the primitive array; acc(k) is: the box of node k is not behind the frustum"""
    def __init__(g, ex, st):
        super().__init__(ex, st)
        g.planes = SymArr(ex, st, 'planes', None, 16, {0: 'f32', 4: 'f32', 8: 'f32', 12: 'f32'}, const=True)
        for nm, fn in (('vcg_planes', lambda ex, st, a, w: g.planes.ptr()), ('vcg_out', lambda ex, st, a, w: g.out.ptr()), ('vcg_seen', lambda ex, st, a, w: g.rd(g.vis, st, a[0])), ('vcg_prim', lambda ex, st, a, w: Trunc(g.V, 32)),
                       ('vcg_total', lambda ex, st, a, w: Trunc(g.S(st), 32)), ('vcg_count', lambda ex, st, a, w: Trunc(g.occ(st, ZExt(a[0], 64)), 32))):
            ex.icp.append((lambda n, nm=nm: n == nm, fn))
        ex.icp.append((lambda n: n == '_ZN4mathL15isBehindFrustumEPKNS_5PlaneEhRKNS_4AabbE', g.behind))
    def V_(g): return g.prims.get(g.ex, g.st0, P)
    def extra(g, ex, st):
        g.out = SymArr(ex, st, 'out', NP, 4, {0: 32}, real=False)
        g.V32 = g.prims.get(ex, g.st0, P); g.V = ZExt(g.V32, 64)
        g.occf = Fold(ex, g.out, 0, lambda i, v, w: B(Eq(v, w)), 'occ')
        g.rep = Fold(ex, g.vis, 0, lambda i, v: Ite(And(Not(Eq(v, z64)), g.accof(i)), g.cnt(i), z64), 'reported')
        g.all = Fold(ex, g.vis, 0, lambda i, v: g.cnt(i), 'primitives in leaves')
        # every primitive is in one leaf (C16); the other leaves do not contain position P, no other position holds the same primitive
        ex.facts.append(Eq(g.all.of(g.st0, NC), NP)); g.rep.bounded(g.st0, NC, 0, 'node'); ex.facts.append(And(ULt(K, NC), ULe(g.ff(K), P), ULt(P, Add(g.ff(K), g.cnt(K)))))
        assume_forall(ex, ('node',), lambda k: Implies(And(ULt(k, NC), Not(Eq(k, K)), ULe(g.ff(k), P)), ULe(Add(g.ff(k), g.cnt(k)), P)))
        assume_forall(ex, ('pos',), lambda i: Implies(And(ULt(i, NP), Not(Eq(i, P))), Not(Eq(g.prims.get(ex, g.st0, i), g.V32))))
    def S(g, st):
        g.rep.atmost(st, NC, g.all, g.st0, 'node'); return g.rep.of(st, NC)
    def occ(g, st, n): return g.occf.of(st, n, g.V32)
    def behind(g, ex, st, a, where):
        i = g.index(a[2]); touch(ex, 'node', i); ex.oblige('precondition', st, And(ULt(i, NC), Eq(a[1], var('n', 8))), 'planes of the box test')
        if a[0].key() != g.planes.ptr().key(): raise stdvec.ToolLimit('other planes')
        g.vis.put(ex, st, i, Add(g.vis.get(ex, st, i), o64)); st.ghost[('last',)] = i
        return Not(g.accof(i))
def fsetup(ex, st): ex.g = F(ex, st)
def fcands(ex, xs, st, st0, h):
    g = ex.g
    if g.nodes is None: return
    old = {str(k): ZExt(v, 64) if v.ty < 64 else v for k, v in h['ints0'].items()}; last = st.ghost[('last',)]; repK = And(Not(Eq(g.v(st, K), z64)), g.accof(K))
    phis = [(n, x) for n, x in xs if n.startswith("('phi'")]
    yield from cands(ex, xs, st, st0, h)
    end = Add(g.ff(last), g.cnt(last)); touch(ex, 'node', last); S = g.S(st)
    outer = any("('ptr'" in n for n, x in xs)
    for n, x in phis:
        if outer:
            yield '%s: everything due is reported' % n, Eq(x, S)
            yield '%s: occurrences of the primitive' % n, Eq(g.occ(st, x), B(repK)); continue
        yield '%s within the leaf' % n, And(ULe(g.ff(last), x), ULe(x, end), ULt(last, NC))
        yield '%s starts with the leaf' % n, Eq(old[n], g.ff(last))
        for m, y in phis:
            if m == n: continue
            yield '%s, %s: what remains of the leaf' % (n, m), Eq(Add(x, Sub(end, y)), S)
            yield '%s, %s: occurrences so far' % (n, m), Eq(g.occ(st, x), Add(g.occ(st0, old[n]), B(And(ULe(old[m], P), ULt(P, y)))))
FL = [(lambda nm: nm.startswith('_ZN4math'), fcands, measure, foralls)]
fgen = lambda r: dict(seed=r.getrandbits(64), k=r.randrange(18), p=r.randrange(9), n=1)
def collected(I, O):
    inside = And(ULt(I.k, O.n0), ULe(O.first, I.p), ULt(I.p, Add(O.first, O.count)), O.leaf)
    due = Or(Eq(I.k, bv(0, 32)), And(Eq(O.vp, bv(1, 32)), O.ap))
    return [('a node is reached exactly when no box of an ancestor is behind the frustum', Implies(inside, Eq(O.vis, Ite(due, bv(1, 32), bv(0, 32))))),
            ('a primitive is reported once if its leaf is reached and not behind the frustum, else not at all', Implies(inside, Eq(O.c, Ite(O.acc, O.vis, bv(0, 32))))),
            ('nothing else is reported', Implies(inside, Eq(O.r, O.total))), ('the work stacks are empty', And(O.empty, O.empty2))]
FT = 'total = vcg_total(); n0 = (uint32)t.getNodes().size(); vis = vcg_seen(k); auto pk = vcg_par(k); vp = vcg_seen(pk); ap = vcg_acc(pk); acc = vcg_acc(k); leaf = k < n0 && t.getNodes()[k].isLeaf(); first = leaf ? t.getNodes()[k].getFirstPrimitive() : 0; count = leaf ? t.getNodes()[k].getPrimitiveCount() : 0; empty = t.getNodeStack().empty(); c = vcg_count(r, vcg_prim(p)); '
FO = 'uint32 r, uint32 total, uint32 n0, uint32 vis, uint32 vp, bool ap, bool acc, bool leaf, uint32 first, uint32 count, uint32 c, bool empty, bool empty2'
IN = 'uint64 seed, uint32 k, uint32 p, uint8 n'
out.append(Contract('collect', IN, 'Tree t; vcg_tree(t, seed); r = t.collectInFrustum(vcg_planes(), n, vcg_out()); ' + FT + 'empty2 = true;', FO, collected, sem='bits', setup=fsetup, loops=FL, gen=fgen))
out.append(Contract('collect_with_stack', IN, 'Tree t; vcg_tree(t, seed); std::stack<Bvh::Node*> s; r = t.collectInFrustum(vcg_planes(), n, vcg_out(), &s); ' + FT + 'empty2 = s.empty();', FO, collected, sem='bits', setup=fsetup, loops=FL, gen=fgen))
CONTRACTS = out
