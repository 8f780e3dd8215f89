"""Arrays of symbolic length and loop invariants (Houdini over candidate templates: candidates that are not inductive are dropped,
what remains is proved on entry and on every back edge, and the loop is replaced by its invariant)."""
import time, itertools
from .terms import *
from .sym import Obj, Ptr, PtrIte, ToolLimit, DeadPath, is_ptr, same, vite, FnPtr
from . import smt
import os, re
DEBUG = os.environ.get('VCG_LOOPS'); PART = os.environ.get('VCG_PART')     # VCG_PART: development only, the check then fails
TAG = {}        # id of a fact -> where it comes from: 'forall' (instance of a quantified fact), 'sum:<name>', 'read:<offset>'
def fact(ex, tag, t):
    TAG[t.id] = tag; ex.facts.append(t)

class ArrV:
    __slots__ = ('op', 'a')
    def __init__(s, op, *a): s.op = op; s.a = a
def arr_read(ex, v, idx):
    if v.op == 'base': return v.a[0].select(ex, v.a[1], v.a[2], idx)
    if v.op == 'store':
        prev, i, x = v.a
        if i is idx: return x
        if i.op == 'c' and idx.op == 'c': return arr_read(ex, prev, idx)
        c = Eq(i, idx)
        if c is TRUE: return x
        if c is FALSE: return arr_read(ex, prev, idx)
        return vite(c, x, arr_read(ex, prev, idx))
    if v.op == 'fill':
        prev, lo, hi, x = v.a; c = And(ULe(lo, idx), ULt(idx, hi))
        return x if c is TRUE else arr_read(ex, prev, idx) if c is FALSE else vite(c, x, arr_read(ex, prev, idx))
    c, x, y = v.a
    return vite(c, arr_read(ex, x, idx), arr_read(ex, y, idx))
def arr_store(v, i, x):
    """store; an earlier store to the same index is overwritten (whatever the indices in between are)"""
    chain = []; p = v
    while p.op == 'store' and p.a[1] is not i: chain.append((p.a[1], p.a[2])); p = p.a[0]
    if p.op == 'store':
        v = p.a[0]
        for j, y in reversed(chain): v = ArrV('store', v, j, y)
    return ArrV('store', v, i, x)
def arr_ite(c, a, b):
    if a is b: return a
    # common prefix: keep the stores of both sides under the condition
    return ArrV('ite', c, a, b)

# ---- facts quantified over array indices, instantiated at every index the program uses (never at indices that only specifications mention)
def qfact(ex, nm, t):
    fact(ex, 'forall:' + nm, t)
def assume_forall(ex, classes, fn, pc=TRUE, name=''):
    fs = ex.__dict__.setdefault('foralls', []); f = (tuple(classes), fn, pc, name); fs.append(f)
    seen = ex.__dict__.setdefault('seen', {})
    for combo in itertools.product(*[list(seen.get(c, {}).values()) for c in f[0]]): qfact(ex, name, Implies(pc, fn(*combo)))
def touch(ex, cls, idx):
    seen = ex.__dict__.setdefault('seen', {}).setdefault(cls, {})
    if idx.id in seen: return
    seen[idx.id] = idx
    for classes, fn, pc, name in list(ex.__dict__.setdefault('foralls', [])):
        for pos in range(len(classes)):
            if classes[pos] != cls: continue
            # the new index at `pos`, at earlier positions of the class only older ones
            pools = [[idx] if k == pos else [x for x in ex.seen.get(c, {}).values() if not (k < pos and x is idx)] for k, c in enumerate(classes)]
            for combo in itertools.product(*pools): qfact(ex, name, Implies(pc, fn(*combo)))

class Fold:
    """sum of g(i, a[i], *params) for i < n over an array field (64-bit, no overflow: weights below 2^32, at most 2^32 elements).
    Assumed theory of finite sums: empty sum, one more element, change of one element, a member is at most the sum (weights are not negative)"""
    def __init__(s, ex, arr, off, g, name='sum'): s.ex = ex; s.arr = arr; s.off = off; s.g = g; s.name = name; s.d = {}
    def of(s, st, n, *ps): return s.at(st.ghost[s.arr.key(s.off)], n, ps)
    def at(s, v, n, ps):
        ex = s.ex
        if n.op == 'ite': return Ite(n.args[0], s.at(v, n.args[1], ps), s.at(v, n.args[2], ps))
        if n.op == 'c' and n.val == 0: return bv(0, 64)
        if v.op == 'store':
            prev, i, x = v.a
            return Add(s.at(prev, n, ps), Ite(ULt(i, n), Sub(s.g(i, x, *ps), s.g(i, arr_read(ex, prev, i), *ps)), bv(0, 64)))
        if v.op == 'ite': return Ite(v.a[0], s.at(v.a[1], n, ps), s.at(v.a[2], n, ps))
        key = (v.a if v.op == 'base' else id(v), tuple(p.id for p in ps)); d = s.d.setdefault(key, {})
        if not d: d[bv(0, 64).id] = (bv(0, 64), bv(0, 64))
        if n.id in d: return d[n.id][1]
        f = ex.newvar(s.name, 64); s.keep = getattr(s, 'keep', []) + [v]
        fact(ex, 'sum:' + s.name, ULt(f, bv(1 << 62, 64)))
        if v.op == 'fill': fact(ex, 'sum:' + s.name, Implies(ULe(n, v.a[1]), Eq(f, s.at(v.a[0], n, ps))))
        for m, h in d.values():
            one = bv(1, 64)
            fact(ex, 'sum:' + s.name, Implies(Eq(n, m), Eq(f, h)))
            for a, fa, b, fb in ((m, h, n, f), (n, f, m, h)):
                c = Eq(b, Add(a, one))
                if c is not FALSE: fact(ex, 'sum:' + s.name, Implies(And(c, ULt(a, b)), Eq(fb, Add(fa, s.g(a, arr_read(ex, v, a), *ps)))))
                fact(ex, 'sum:' + s.name, Implies(ULe(a, b), ULe(fa, fb)))
        d[n.id] = (n, f); return f
    def bounded(s, st, n, limit, cls):
        """the sum is at most n * limit, or some element below n has a larger weight (an unnamed witness, where the quantified facts are instantiated)"""
        v = st.ghost[s.arr.key(s.off)]; w = s.ex.newvar('witness', 64); touch(s.ex, cls, w)
        fact(s.ex, 'sum:' + s.name, Or(ULe(s.at(v, n, ()), Mul(n, bv(limit, 64)) if limit != 1 else n), And(ULt(w, n), ULt(bv(limit, 64), s.g(w, arr_read(s.ex, v, w))))))
    def atmost(s, st, n, other, st2, cls):
        """the sum is at most the other one, or some element has a larger weight (an unnamed witness)"""
        v = st.ghost[s.arr.key(s.off)]; v2 = st2.ghost[other.arr.key(other.off)]; k = ('atmost', id(v), id(v2), n.id)
        if k in s.d: return
        s.d[k] = (v, v2); w = s.ex.newvar('witness', 64); touch(s.ex, cls, w)
        fact(s.ex, 'sum:' + s.name, Or(ULe(s.at(v, n, ()), other.at(v2, n, ())), And(ULt(w, n), ULt(other.g(w, arr_read(s.ex, v2, w)), s.g(w, arr_read(s.ex, v, w))))))
    def member(s, v, n, i, *ps):
        """i < n: the weight of element i is part of the sum (for a version before any store)"""
        while v.op in ('store',): raise ToolLimit('member of a stored version')
        return Implies(ULt(i, n), ULe(s.g(i, arr_read(s.ex, v, i), *ps), s.at(v, n, ps)))

class SymArr:
    """array of `count` elements (64-bit term; None: unbounded) of `stride` bytes; fields {offset: type}"""
    def __init__(s, ex, st, name, count, stride, fields, onread=None, const=False, align=16, real=True, ghosts=()):
        s.name = name; s.count = count; s.stride = stride; s.fields = dict(fields); s.onread = onread; s.const = const
        s.real = real; s.ghosts = list(ghosts); s.sel = {}; s.obj = Obj(name, None, 'array', meta=s, align=align); s.gen = 0; s.ex = ex
        for off, ty in s.fields.items(): st.ghost[s.key(off)] = s.fresh_base(ex, off)
    def key(s, off): return ('arr', s.name, off)
    def fresh_base(s, ex, off):
        s.gen += 1
        return ArrV('base', s, '%s#%d' % (s.name, s.gen), off)
    cls = None
    def ptr(s): return Ptr(s.obj)
    def ptr_at(s, i): return Ptr(s.obj, 0, ((i, s.stride),)) if i.op != 'c' else Ptr(s.obj, i.val * s.stride)
    def get(s, ex, st, i, off=0): return arr_read(ex, st.ghost[s.key(off)], i)
    def put(s, ex, st, i, v, off=0): st.ghost[s.key(off)] = arr_store(st.ghost[s.key(off)], i, v)
    def select(s, ex, base, off, idx):
        d = s.sel.setdefault((base, off), {})
        if idx.id in d: return d[idx.id][1]
        v = ex.newvar('%s.%d' % (base, off), s.fields[off])
        gh = [g for g in s.ghosts if g is not idx]
        if not any(g is idx for g in s.ghosts):
            # elements at the ghost positions are chosen by case distinction, so that a split on the index makes them identical
            for g in gh:
                gv = s.select(ex, base, off, g); v = vite(Eq(g, idx), gv, v)
            others = [(i, x) for i, x in d.values() if not any(i is g for g in s.ghosts)]
        else: others = [(i, x) for i, x in d.values() if any(i is g for g in s.ghosts)]
        for i, x in others:
            e = Eq(i, idx)
            if e is FALSE: continue
            same_ = Eq(x, v) if not isfloat(v.ty) else mk('req', (x, v), 'b') if s.real else Eq(fbits(x), fbits(v))
            fact(ex, 'read:%s.%d' % (s.name.split('#')[0], off), Implies(e, same_))
        d[idx.id] = (idx, v)
        return v
    def index(s, p):
        off = p.off; idx = bv(off // s.stride, 64); f = off % s.stride
        for t, k in p.sym:
            if k % s.stride: raise ToolLimit('access to %s with stride %d' % (s.name, k))
            idx = Add(idx, Mul(t, bv(k // s.stride, 64))) if k != s.stride else Add(idx, t)
        return idx, f
    def inb(s, ex, st, idx, where):
        if s.count is not None: ex.oblige('out-of-bounds', st, ULt(idx, s.count), '%s[]: %s' % (s.name, where))
    def elem(s, ex, st, idx):
        return {off: arr_read(ex, st.ghost[s.key(off)], idx) for off in s.fields}
    def load(s, ex, st, p, size, ty, where):
        sub = [(t, k) for t, k in p.sym if k % s.stride]
        if sub:
            # a component of an element, by index
            if len(sub) != 1 or s.stride % sub[0][1] or p.off % s.stride % sub[0][1]: raise ToolLimit('access to %s with stride %d' % (s.name, sub[0][1]))
            t, k = sub[0]; f = p.off % s.stride; n = (s.stride - f) // k
            ex.oblige('out-of-bounds', st, ULt(t, bv(n, 64)), '%s[][]: %s' % (s.name, where)); rest = tuple(x for x in p.sym if x[1] % s.stride == 0); r = None
            for i in reversed(range(n)):
                v = s.load(ex, st, Ptr(p.obj, p.off + i * k, rest), size, ty, where); r = v if r is None else vite(Eq(t, bv(i, 64)), v, r)
            return r
        idx, f = s.index(p); s.inb(ex, st, idx, where)
        if s.cls: touch(ex, s.cls, idx)
        if s.onread is not None: s.onread(ex, st, s, idx)
        if f in s.fields and width(s.fields[f]) == size * 8: return ex.conv(arr_read(ex, st.ghost[s.key(f)], idx), ty)
        bits = []; pos = f
        while pos < f + size:
            hit = [o for o in s.fields if o <= pos < o + width(s.fields[o]) // 8]
            if not hit: raise ToolLimit('padding read in %s at %d' % (s.name, pos))
            o = hit[0]; x = arr_read(ex, st.ghost[s.key(o)], idx); b = fbits(x) if isfloat(x.ty) else x
            n = min(o + width(s.fields[o]) // 8, f + size) - pos
            bits.append(Extract(8 * (pos - o + n) - 1, 8 * (pos - o), b)); pos += n
        return ex.conv(Concat(*reversed(bits)), ty)
    def store(s, ex, st, p, size, v, where):
        idx, f = s.index(p); s.inb(ex, st, idx, where)
        if s.cls: touch(ex, s.cls, idx)
        if s.const: ex.oblige('write-to-const', st, FALSE, where)
        if f in s.fields and width(s.fields[f]) == size * 8:
            k = s.key(f); st.ghost[k] = arr_store(st.ghost[k], idx, ex.conv(v, s.fields[f])); return
        b = fbits(v) if isfloat(v.ty) else v; pos = f
        while pos < f + size:
            if pos not in s.fields or pos + width(s.fields[pos]) // 8 > f + size: raise ToolLimit('partial write in %s' % s.name)
            n = width(s.fields[pos]) // 8; k = s.key(pos)
            st.ghost[k] = arr_store(st.ghost[k], idx, ex.conv(Extract(8 * (pos - f + n) - 1, 8 * (pos - f), b), s.fields[pos])); pos += n

_H = {}
def headers(mod, f):
    h = _H.get((id(mod), f.name))
    if h is None:
        rpo = mod.rpo(f); su = mod.succs(f)
        h = {t for b in rpo for t in su[b] if rpo[b] >= rpo[t]}; _H[(id(mod), f.name)] = h
    return h

class Loops:
    """loop contracts of one harness; survives the repeated executions"""
    def __init__(s, rules, limit=25, timeout=6):
        s.rules = rules; s.info = {}; s.limit = limit; s.timeout = timeout; s.cache = {}
        s.runs = 0; s.given = set()
    def start(s, ex):
        s.inst = {}; s.active = {}; s.changed = False; s.checks = []; s.meas = []; s.ex = ex; s.ord = {}
        ex.loopman = s
    def rule(s, name):
        for r in s.rules:
            if r[0](name): return r[1]
        return None
    def hints(s, name, nm):
        o = getattr(s.rule(name), 'only', None)
        return o(nm) if o else None
    def measures(s, name):
        for r in s.rules:
            if r[0](name): return r[2] if len(r) > 2 else None
    def foralls(s, name):
        for r in s.rules:
            if r[0](name): return r[3] if len(r) > 3 else None
    # ---- object identity across runs: creation order inside one execution
    def rel(s, oid): return oid - s.ex.base_id
    def goto(s, ex, f, frm, to, env, st):
        cands = s.rule(f.name)
        if cands is None: return env, st
        rpo = ex.m.rpo(f)
        if frm is None or rpo[frm] < rpo[to]: return s.entry(ex, f, to, env, st, cands)
        return s.back(ex, f, to, env, st, cands)
    def entry(s, ex, f, to, env, st, cands):
        base = (f.name, to); n = s.inst.get(base, 0); s.inst[base] = n + 1; key = base + (n,)
        info = s.info.setdefault(key, dict(phi={}, cells=set(), ghost=set(), dropped=set(), label='loop %d of %s' % (sorted(headers(ex.m, f), key=lambda b: ex.m.rpo(f)[b]).index(to) + 1, f.name)))
        h = dict(key=key, env0=dict(env), st0=st, info=info, ints={})
        st0 = st.fork(); st2 = st.fork(); st.own = set(); env2 = dict(env)
        ints0 = {}; ints = {}
        for ph in f.blocks[to].phis:
            d = ph.dst; v = env[d]
            if d in info['phi']:
                k = info['phi'][d]
                nv = s.havoc(ex, v, d, k, ints, ints0)
                env2[d] = nv
            elif isinstance(v, Term) and isinstance(v.ty, int): pass
        relmap = {s.rel(o): o for o in st2.mem}
        for (r, off, size) in sorted(info['cells']):
            o = relmap.get(r)
            if o is None: continue
            c = dict(st2.mem[o]); e = c.get(off)
            if e is None: continue
            v = e[1]
            if is_ptr(v): raise ToolLimit('loop modifies a pointer in memory')
            nv = ex.newvar('lc', v.ty); c[off] = (e[0], nv); st2.mem[o] = c; st2.own.add(o)
            if isinstance(v.ty, int): ints[('cell', r, off)] = nv; ints0[('cell', r, off)] = v
        for k in info['ghost']:
            g = st2.ghost[k]
            st2.ghost[k] = s.arr_of(g).fresh_base(ex, k[2]) if isinstance(g, ArrV) else ex.newvar('lg', g.ty)
        h['env'] = env2; h['ints'] = ints; h['known'] = set(st.mem); h['maxid'] = max([o for o in st.mem], default=0)
        h['ints0'] = ints0; h['keys'] = list(ints)
        h['entry'] = st0
        c0 = s.candidates(ex, cands, h, ints0, env, st0, st0); c2 = s.candidates(ex, cands, h, ints, env2, st2, st0)
        assumed = []
        for nm, t in c2.items():
            if nm in info['dropped'] or nm not in c0: continue
            s.checks.append((key, nm, 'entry', st0.pc, c0[nm])); assumed.append(t)
        st2.pc = And(st2.pc, *assumed)
        h['names'] = [nm for nm in c2 if nm in c0 and nm not in info['dropped']]
        for nm, classes, gh, fn in h.get('fams', []):
            if nm in h['names']: assume_forall(ex, classes, fn, st2.pc, nm)
        h['st'] = st2.fork(); s.active[(f.name, to, ex.depth)] = h
        return env2, st2
    def arr_of(s, g):
        while g.op != 'base': g = g.a[1] if g.op == 'ite' else g.a[0]
        return g.a[0]
    def havoc(s, ex, v, d, k, ints, ints0):
        if isinstance(v, list): return [s.havoc(ex, x, (d, i), k, ints, ints0) for i, x in enumerate(v)]
        if isinstance(v, Ptr) and isinstance(k, tuple):
            i, f = v.obj.meta.index(v); j = ex.newvar('lp', 64); ints[('ptr', str(d))] = j; ints0[('ptr', str(d))] = i
            return Ptr(v.obj, f, ((j, k[1]),))
        if isinstance(v, Ptr):
            stride = k
            if not isinstance(stride, int) or stride == 0: raise ToolLimit('loop over pointer')
            j = ex.newvar('lp', 64); ints[('ptr', str(d))] = j; ints0[('ptr', str(d))] = bv(0, 64)
            sym = list(v.sym)
            for n, (x, st_) in enumerate(sym):
                if st_ == stride: sym[n] = (Add(x, j), st_); break
            else: sym.append((j, stride))
            return Ptr(v.obj, v.off, tuple(sym))
        if is_ptr(v): raise ToolLimit('loop over pointer')
        nv = ex.newvar('lv', v.ty)
        if isinstance(v.ty, int): ints[('phi', str(d))] = nv; ints0[('phi', str(d))] = v
        return nv
    def candidates(s, ex, cands, h, ints, env, st, st0):
        """named candidate invariants over the integer variables of the loop"""
        out = {}
        xs = [(str(k), ZExt(v, 64) if v.ty < 64 else v) for k, v in ints.items()]
        for k, v in ints.items():
            sx = SExt(v, 64) if v.ty < 64 else v
            if v.ty < 64: xs.append(('signed ' + str(k), sx))
            xs.append(('1 + ' + str(k), Add(sx, bv(1, 64))))
        h['vals'] = {str(ph.dst): env[ph.dst] for ph in ex.m.funcs[h['key'][0]].blocks[h['key'][1]].phis if ph.dst in env}
        for nm, t in cands(ex, xs, st, st0, h): out[nm] = t
        fa = s.foralls(h['key'][0]); h['fams'] = []
        if fa:
            snap = st.fork(); st.own = set()
            for nm, classes, gh, fn in fa(ex, xs, snap, st0, h):
                h['fams'].append((nm, classes, gh, fn)); out[nm] = fn(*gh)
        xs = xs[:len(ints)]
        # counters that move together
        if len(xs) > 1 and not getattr(cands, 'nopairs', False):
            z0 = {str(k): (ZExt(v, 64) if v.ty < 64 else v) for k, v in h['ints0'].items()}
            for i in range(len(xs)):
                for j in range(i):
                    out['%s and %s move together' % (xs[j][0], xs[i][0])] = Eq(Sub(xs[i][1], z0[xs[i][0]]), Sub(xs[j][1], z0[xs[j][0]]))
        return out
    def back(s, ex, f, to, env, st, cands):
        h = s.active.get((f.name, to, ex.depth))
        if h is None: raise ToolLimit('irreducible loop')
        info = h['info']
        ints = dict()
        for ph in f.blocks[to].phis:
            d = ph.dst; v = env[d]; old = h['env'][d]
            if d in info['phi']:
                s.match(ex, v, h['env'][d], h['env0'][d], d, info['phi'][d], ints, st); continue
            if not same(v, old):
                k = True
                if isinstance(v, Ptr) and isinstance(old, Ptr):
                    if v.obj is not old.obj: raise ToolLimit('loop pointer changes object')
                    if v.sym == old.sym: k = v.off - old.off
                    elif hasattr(v.obj.meta, 'stride') and v.obj.meta.stride: k = ('any', v.obj.meta.stride)
                    else: raise ToolLimit('loop pointer moves symbolically')
                elif is_ptr(v) or is_ptr(old): raise ToolLimit('loop pointer changes object')
                info['phi'][d] = k; s.changed = True
        for oid in h['known']:
            a = h['st'].mem.get(oid); b = st.mem.get(oid)
            if a is b or a is None: continue
            for off, e in a.items():
                e2 = b.get(off) if b else None
                r = (s.rel(oid), off, e[0])
                if e2 is not None and e2[0] == e[0] and (e2[1] is e[1] or same(e2[1], e[1])): continue
                if r not in info['cells']:
                    info['cells'].add(r); s.changed = True
                elif isinstance(e[1], Term) and isinstance(e[1].ty, int):
                    ints[('cell', r[0], off)] = ex.rd(st, _O(oid, st), off, e[0], e[1].ty)
        for k in h['keys']:
            if k not in ints and k[0] == 'cell': ints[k] = h['ints'][k]
        for k, v in h['st'].ghost.items():
            if st.ghost.get(k) is not v and not same(st.ghost.get(k), v) and k not in info['ghost']: info['ghost'].add(k); s.changed = True
        if s.changed: return None
        ints = {k: ints.get(k, h['ints'][k]) for k in h['keys']}
        c1 = s.candidates(ex, cands, h, ints, env, st, h['entry'])
        for nm in h['names']:
            if nm in c1: s.checks.append((h['key'], nm, 'preserved', st.pc, c1[nm]))
            else: info['dropped'].add(nm); s.changed = True
        # termination: some measure strictly changes in one direction on every iteration (a strictly monotone machine integer is bounded)
        ms = {}
        for k in h['keys']:
            old, new = h['ints'][k], ints[k]
            ms['%s increases' % (k,)] = ULt(old, new); ms['%s decreases' % (k,)] = ULt(new, old)
        mf = s.measures(f.name)
        if mf:
            xs = lambda d: [(str(k), ZExt(v, 64) if v.ty < 64 else v) for k, v in d.items()]
            m0 = dict(mf(ex, xs(h['ints']), h['st'], h['entry'], h)); m1 = dict(mf(ex, xs(ints), st, h['entry'], h))
            for nm in m0:
                if nm in m1: ms['%s decreases' % nm] = ULt(m1[nm], m0[nm]); s.given.add('%s decreases' % nm)
        s.meas.append((h['key'], st.pc, ms))
        return None
    def match(s, ex, v, hv, v0, d, k, ints, st):
        if isinstance(v, list):
            for i, (x, y, z) in enumerate(zip(v, hv, v0)): s.match(ex, x, y, z, (d, i), k, ints, st)
            return
        if isinstance(v, Ptr) and isinstance(k, tuple):
            if v.obj is not hv.obj: raise ToolLimit('loop pointer changes object')
            i, f = v.obj.meta.index(v); j, f0 = hv.obj.meta.index(hv)
            if f != f0: raise ToolLimit('loop pointer changes field')
            ints[('ptr', str(d))] = i; return
        if isinstance(v, Ptr):
            key = ('ptr', str(d)); off = ex.ptr_off(v); o0 = ex.ptr_off(v0)
            # index relative to the entry pointer
            dx = v.off - v0.off
            syms = {k_: t for t, k_ in v.sym}; sy0 = {k_: t for t, k_ in v0.sym}
            if dx % k or any(k_ != k and syms.get(k_) is not sy0.get(k_) for k_ in set(syms) | set(sy0)): raise ToolLimit('loop pointer moves irregularly')
            a = syms.get(k, bv(0, 64)); b = sy0.get(k, bv(0, 64))
            ints[key] = Add(Sub(a, b), bv(dx // k, 64)); return
        if isinstance(v, Term) and isinstance(v.ty, int): ints[('phi', str(d))] = v
    def settle(s, decide):
        """after an execution: True if nothing has to be rerun; drops the candidates that are not inductive"""
        if s.changed: return False
        if DEBUG:
            import collections; print('   round of', len(s.checks), 'checks', dict(collections.Counter(TAG.get(f.id) for f in s.ex.facts)), flush=True)
        ok = True; s.results = []; todo = {}
        for key, nm, where, pc, goal in s.checks:
            g = Implies(pc, goal)
            if PART and not re.search(PART, nm): s.cache[g.id] = ('proved', 'SKIPPED', 0.0)
            if nm not in s.info[key]['dropped'] and g is not TRUE and g.id not in s.cache: todo[g.id] = g
        hint = {}
        for key, nm, where, pc, goal in s.checks:
            g = Implies(pc, goal); o = s.hints(key[0], nm)
            if g.id in todo and o is not None: hint[g.id] = o
        names = {Implies(pc, goal).id: (s.info[key]['label'][:7], where, nm) for key, nm, where, pc, goal in s.checks}
        def timed(g):
            t = time.time(); r = tuple(decide(g, hint.get(g.id))) + (time.time() - t,)
            if DEBUG: print('      ', names[g.id], r[0], '%.1f' % r[2], flush=True)
            return r
        for g, r in zip(todo.values(), smt.pmap(timed, todo.values())): s.cache[g.id] = r if len(r) > 2 else r + (0.0,)
        for key, nm, where, pc, goal in s.checks:
            if nm in s.info[key]['dropped']: continue
            g = Implies(pc, goal)
            r = s.cache.get(g.id)
            if r is None:
                t = time.time(); r = (('proved', 'simplifier') if g is TRUE else decide(g)) + (time.time() - t,); s.cache[g.id] = r
            if DEBUG == '3' and r[0] == 'proved': print('   kept', s.info[key]['label'][:7], where, nm, r[1], '%.1f' % r[2])
            if r[0] != 'proved':
                s.info[key]['dropped'].add(nm); ok = False
                if DEBUG:
                    print('   dropped', s.info[key]['label'][:7], where, nm, r[0] if r[0] == 'refuted' else r[:2])
                    if r[0] == 'refuted' and DEBUG == '2':
                        from .evalt import evalt
                        import collections
                        dbg = getattr(s.ex, 'dbg', []); D = collections.defaultdict(int); D.update(r[1])
                        try: print('      ', {n: evalt([t], D)[0] for n, t in dbg})
                        except Exception as e: print('      ', repr(e))
            else: s.results.append(('invariant (%s) %s: %s' % (where, s.info[key]['label'], nm), r))
        if ok: s.terminates(decide)
        return ok
    def terminates(s, decide):
        by = {}
        for key, pc, ms in s.meas: by.setdefault(key, []).append((pc, ms))
        for key, l in by.items():
            names = [n for n in l[0][1] if all(n in ms for _, ms in l)]; t = time.time(); hit = None
            names.sort(key=lambda n: n not in s.given)
            for n in names:
                if all(r[0] == 'proved' for r in smt.pmap(decide, [Implies(pc, ms[n]) for pc, ms in l])): hit = n; break
            lab = 'terminates: %s' % s.info[key]['label']
            s.results.append((lab + (' (%s)' % hit if hit else ''), ('proved' if hit else 'unknown', 'z3' if hit else 'no decreasing measure found', time.time() - t)))
class _O:
    """object handle by id"""
    def __init__(s, oid, st): s.id = oid; s.lazy = None; s.name = '#%d' % oid; s.kind = 'x'
