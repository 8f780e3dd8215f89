"""Contracts, verification driver, replay, evidence."""
import os, sys, json, time, random, struct, ctypes, tempfile, shutil, re, traceback, math
from fractions import Fraction
from .terms import *
from . import terms, smt, real, cxx, evalt, builtins, arrays
from .ir import Module, IRError
from .sym import Exec, State, Obj, Ptr, ToolLimit, DeadPath, vite, is_ptr
from .real import R, ToReal, Prover

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Contract:
    """ins/outs: [(name, C++ type)]; body: C++ statements calling the real functions;
    requires(I) -> list of terms, ensures(I, O) -> list of (name, term);
    sem: 'bits' (bit-vectors), 'ieee' (bit-exact floats), 'real' (floats read as reals)"""
    def __init__(s, name, ins, body, outs, ensures, requires=None, sem='ieee', gen=None, variants=None, intercepts=(), timeout=20,
                 ub=('out-of-bounds', 'null-deref', 'division-by-zero', 'shift-out-of-range', 'vector-index', 'abort', 'unreachable', 'write-to-const', 'float-to-int-range', 'misaligned', 'precondition'),
                 label=None, tol=None, mode=None, setup=None, thorough=False, intcases=None, prove=None, sample_edges=True, assume=None, case=None, loops=None, native=True, deep_inv=False, lemmas=None, native_ok=None, ideal=(), only=None, ufmul=False):
        s.ufmul = ufmul; s.only = only     # name of an obligation -> which tagged facts are tried first (None: all)
        s.name = re.sub(r'\W', '_', name); s.ins = parse_fields(ins); s.outs = parse_fields(outs); s.body = body; s.ensures = ensures
        s.requires = requires or (lambda I: []); s.sem = sem; s.gen = gen; s.variants = variants; s.intercepts = list(intercepts)
        s.timeout = timeout; s.ub = set(ub); s.label = label or name; s.tol = tol; s.mode = mode; s.setup = setup; s.thorough = thorough
        s.prove = prove; s.assume = assume or []; s.case = case; s.intcases = intcases; s.loops = loops; s.native = native; s.deep_inv = deep_inv; s.lemmas = lemmas; s.ideal = ideal; s.native_ok = native_ok   # native_ok: inputs the replay may execute (resource bounds)

def parse_fields(f):
    if isinstance(f, str):
        out = []
        for p in f.split(','):
            p = p.strip()
            if p: t, n = p.split(); out.append((n, t))
        return out
    return list(f)

class Bag:
    """named values; vectors are lists"""
    def __init__(s, d): s.__dict__.update(d)
    def __getitem__(s, k): return s.__dict__[k]

def leaves(fields):
    lay, size = cxx.struct_layout(fields)
    out = []
    for n, t, o in lay:
        for path, off, leaf in cxx.T[t][2]: out.append((n, path, o + off, leaf))
    return out, size
def leafname(pfx, n, path): return pfx + n + ''.join('.%d' % p for p in path)
def leafty(l): return 8 if l == 'bool' else l
def nest(fields, vals):
    """vals: {(name, path): v} -> Bag of nested lists"""
    d = {}
    for n, t in fields:
        def build(path):
            if (n, path) in vals: return vals[(n, path)]
            r = []; k = 0
            while True:
                sub = [p for (m, p) in vals if m == n and p[:len(path) + 1] == path + (k,)]
                if not sub: return r
                r.append(build(path + (k,))); k += 1
        d[n] = build(())
    return Bag(d)

class Result:
    def __init__(s): s.obls = []

class Obligation:
    def __init__(s, contract, variant, name, status, backend, dt, why=None, model=None):
        s.contract = contract; s.variant = variant; s.name = name; s.status = status; s.backend = backend; s.dt = dt; s.why = why; s.model = model
    def key(s): return '%s/%s/%s' % (s.contract, s.variant, s.name)

class View:
    """typed view of leaves for specifications: reals are wrapped in R; bools become boolean terms"""
    @staticmethod
    def make(c, fields, leafvals):
        vals = {}
        for (n, path, off, leaf), t in leafvals:
            if leaf == 'bool': v = Not(Eq(t, bv(0, 8))) if t.ty == 8 else t
            elif isfloat(leaf) and c.sem == 'real': v = R(var(t.val, 'r')) if t.op == 'v' else R(t)
            else: v = t
            vals[(n, path)] = v
        return nest(fields, vals)

class Verifier:
    def __init__(s, mod, variant, prop):
        s.m = mod; s.variant = variant; s.prop = prop; s.fns = {}; s.noret = 0
    def execute(s, c, lm=None):
        intercepts = list(c.intercepts)
        for a in c.assume: intercepts += a.intercepts
        ex = Exec(s.m, intercepts=intercepts)
        st = ex.init_state()
        if lm is not None: lm.start(ex)
        if c.setup: c.setup(ex, st)
        inl, insz = leaves(c.ins); outl, outsz = leaves(c.outs)
        io = Obj('in', insz, 'const', align=16); oo = Obj('out', outsz, 'out', align=16)
        cells = {}; inv = []
        for n, path, off, leaf in inl:
            ty = leafty(leaf); v = var(leafname('', n, path), ty); cells[off] = (width(ty) // 8, v); inv.append(((n, path, off, leaf), v))
        st.mem[io.id] = cells; st.own.add(io.id)
        rs = ex.call_fn(st, 'h_' + c.name, [Ptr(io), Ptr(oo)], 'harness')
        if not rs: 
            return ex, inv, None, None
        fst, _ = rs[0]
        for s2, _ in rs[1:]: fst, _d = ex.merge_states(fst, s2)
        outs = []
        for n, path, off, leaf in outl:
            ty = leafty(leaf)
            outs.append(((n, path, off, leaf), ex.rd(fst, oo, off, width(ty) // 8, ty)))
        return ex, inv, outs, fst
    def spec(s, c):
        inl, _ = leaves(c.ins); outl, _ = leaves(c.outs)
        I = View.make(c, c.ins, [(l, var(leafname('', l[0], l[1]), leafty(l[3]))) for l in inl])
        O = View.make(c, c.outs, [(l, var(leafname('out:', l[0], l[1]), leafty(l[3]))) for l in outl])
        req = [r for r in c.requires(I)]
        ens = c.ensures(I, O)
        if isinstance(ens, dict): ens = list(ens.items())
        # (name, goal, [premises]): a consequence of other postconditions (names) and assumed facts (terms), derived without looking at the code
        s.via = {e[0]: e[2] for e in ens if len(e) > 2}; ens = [(e[0], e[1]) for e in ens]
        return I, O, req, ens
    def verify(s, c):
        """list of Obligation"""
        t0 = time.time(); out = []
        I, O, req, ens = s.spec(c); via = s.via; proved = {}
        try:
            lm = None
            if c.loops is None: ex, inv, outs, fst = s.execute(c)
            else:
                from .arrays import Loops
                lm = Loops(c.loops)
                for k in range(lm.limit):
                    ex, inv, outs, fst = s.execute(c, lm)
                    cv = ToReal(ideal=c.ideal) if c.sem == 'real' else (lambda t: t)
                    fx = [cv(f) for f in ex.facts]
                    def dec(g, only=None): return s.decide_inv(c, req + fx, cv(g), only)
                    if lm.settle(dec): break
                else: raise ToolLimit('loop invariants do not settle')
                for nm, r in lm.results: out.append(Obligation(c.name, s.variant, s.dem(nm), r[0], r[1], r[2]))
        except (ToolLimit, RecursionError) as e:
            return [Obligation(c.name, s.variant, 'execute', 'unknown', '-', time.time() - t0, 'tool limit: %s' % e)]
        for n, k in ex.calls.items(): s.fns[n] = s.fns.get(n, 0) + k
        if outs is None:
            return [Obligation(c.name, s.variant, 'returns', 'refuted', 'executor', time.time() - t0, 'no path returns')]
        m = {}
        conv = ToReal(ideal=c.ideal) if c.sem == 'real' else None
        try:
            for (n, path, off, leaf), v in outs:
                nm = leafname('out:', n, path)
                if conv and isfloat(leaf): m[var(nm, 'r')] = conv(v)
                elif conv: m[var(nm, leafty(leaf))] = conv(v)
                else: m[var(nm, leafty(leaf))] = v
            facts = [conv(f) if conv else f for f in ex.facts + ([fst.pc] if lm is not None else [])]
        except ToolLimit as e:
            return [Obligation(c.name, s.variant, 'execute', 'unknown', '-', time.time() - t0, 'tool limit: %s' % e)]
        sub = real.rsubst if c.sem == 'real' else subst
        # vacuity: the precondition must be satisfiable
        goals = sub([g for _, g in ens], m)
        # lemmas: proved once for all values of their variables, then available at the listed instances
        if c.lemmas:
            for nm, f, insts in c.lemmas(I, O):
                t1 = time.time(); r = s.decide(c, [], f)
                out.append(Obligation(c.name, s.variant, 'lemma: ' + nm, r[0], r[1] if r[0] == 'proved' else '-', time.time() - t1, None if r[0] == 'proved' else str(r[1])))
                if r[0] == 'proved':
                    for d in insts:
                        g, = sub([f], {(k.t if isinstance(k, R) else k): (v.t if isinstance(v, R) else v) for k, v in d}); g, = sub([g], m)
                        facts = facts + [g]
        if c.loops is not None:
            todo = [g for (nm, _), g in zip(ens, goals) if nm not in via and g is not TRUE]
            for kind, pc, goal, where in ex.obl:
                if kind not in c.ub: continue
                try: g = conv(Implies(pc, goal)) if conv else Implies(pc, goal)
                except ToolLimit: continue
                if g is not TRUE: todo.append(g)
            todo = list({g.id: g for g in todo}.values())
            hint = {g.id: c.only(nm) for (nm, _), g in zip(ens, goals)} if c.only else {}
            def timed(g): t = time.time(); return tuple(s.decide(c, req + facts, g, hint.get(g.id))) + (time.time() - t,)
            pre = {g.id: r for g, r in zip(todo, smt.pmap(timed, todo))}
        else: pre = {}
        for (nm, g0), g in zip(ens, goals):
            if c.prove and nm in c.prove: hints = c.prove[nm]
            t1 = time.time()
            if nm in via:
                names = [n for n in via[nm] if isinstance(n, str)]; prem = [p for n, p in ens if n in names] + [n for n in via[nm] if not isinstance(n, str)]
                assert set(names) <= {n for n, _ in ens}, names
                r = s.decide(c, prem, g0) if all(proved.get(n) for n in names) else ('unknown', 'its premises are not proved')
                if r[0] == 'refuted': r = ('unknown', 'does not follow from its premises')
            elif g.id in pre: r = pre[g.id]; t1 = time.time() - (r[2] if len(r) > 2 else 0)
            else: r = s.decide(c, req + facts, g)
            proved[nm] = r[0] == 'proved'
            out.append(Obligation(c.name, s.variant, nm, r[0], r[1] if r[0] == 'proved' else '-', time.time() - t1,
                                  None if r[0] == 'proved' else (r[1] if isinstance(r[1], str) else 'counter-model'), r[1] if r[0] == 'refuted' else None))
        # safety obligations
        seen = set()
        for kind, pc, goal, where in ex.obl:
            if kind not in c.ub: continue
            g = Implies(pc, goal)
            if g is TRUE or g.id in seen: continue
            seen.add(g.id); t1 = time.time()
            try: g = conv(g) if conv else g
            except ToolLimit as e:
                out.append(Obligation(c.name, s.variant, 'safety:%s:%s' % (kind, s.dem(where)), 'unknown', '-', 0, 'tool limit: %s' % e)); continue
            if g.id in pre: r = pre[g.id]; t1 = time.time() - (r[2] if len(r) > 2 else 0)
            else: r = s.decide(c, req + facts, g)
            out.append(Obligation(c.name, s.variant, 'safety:%s:%s' % (kind, s.dem(where)), r[0], r[1] if r[0] == 'proved' else '-', time.time() - t1,
                                  None if r[0] == 'proved' else (r[1] if isinstance(r[1], str) else 'counter-model'), r[1] if r[0] == 'refuted' else None))
        return out
    def dem(s, w):
        return ' '.join(cxx.demangle([x])[x] if x.startswith('_Z') else x for x in w.split(' '))
    def decide_inv(s, c, hyps, goal, only=None):
        """candidate invariants: cheap provers only (a candidate that is not proved is dropped, never assumed)"""
        if c.sem != 'real' or c.deep_inv: return s.decide(c, hyps, goal, only)[:2]
        return ('proved', 'z3') if real.prop_check(hyps, goal, 10) else ('unknown', 'not inductive')
    def decide(s, c, hyps, goal, only=None):
        if goal is TRUE: return ('proved', 'simplifier')
        if c.loops and c.sem == 'bits':
            # first without the instances of quantified facts
            T = arrays.TAG
            if only is not None:
                only, first = only      # which facts, seconds for z3 before cvc5 is asked
                few = [h for h in hyps if h.id not in T or only(T[h.id])]
                r = s.decide1(c, few, goal, first)
                if r[0] == 'proved': return r
                if r[0] == 'unknown':
                    r = smt.check_int(few, goal, c.timeout, 'abs' if any(isfloat(t.ty) for t in topo([goal] + few)) else 'bv')
                    if r[0] == 'proved': return r
            few = [h for h in hyps if not T.get(h.id, '').startswith('forall')]
            if len(few) < len(hyps) and only is None:
                r = s.decide1(c, few, goal, min(c.timeout, 25))
                if r[0] == 'proved': return r
        return s.decide1(c, hyps, goal, c.timeout)
    def decide1(s, c, hyps, goal, timeout):
        if c.ufmul:
            smt.UFMUL = True
            try: r = s.decide2(c, hyps, goal, timeout)
            finally: smt.UFMUL = False
            if r[0] == 'proved': return r
            if c.loops: return ('unknown', 'not proved with products as an uninterpreted function')
        return s.decide2(c, hyps, goal, timeout)
    def decide2(s, c, hyps, goal, timeout):
        if c.sem == 'real':
            p = Prover(timeout=timeout)
            return p.prove(hyps, goal)
        if c.mode == 'fp' or c.mode is None:
            isf = any(isfloat(t.ty) for t in topo([goal] + hyps))
            if not isf: return smt.check(hyps, goal, timeout, 'bv')
            r = smt.check(hyps, goal, timeout, 'abs')
            if r[0] == 'proved' or not has_arith(goal): return r
            r2 = smt.check(hyps, goal, timeout, 'fp')
            return r2
        return smt.check(hyps, goal, timeout, c.mode)

ARITH = {'fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fmuladd', 'fsqrt', 'fround', 'frem', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fp_fits', 'uf'}
def has_arith(g): return any(t.op in ARITH for t in topo([g]))

# ---------------------------------------------------------------- native execution / replay
class Native:
    def __init__(s, lib): s.lib = lib
    _m = None
    def fenv(s):
        if Native._m is None: Native._m = ctypes.CDLL('libm.so.6')
        return Native._m
    def call(s, c, values):
        """values: {leafname: int bits} -> {leafname: bits}"""
        inl, insz = leaves(c.ins); outl, outsz = leaves(c.outs)
        ib = ctypes.create_string_buffer(insz + 64); ob = ctypes.create_string_buffer(outsz + 64)
        ia = (ctypes.addressof(ib) + 31) // 32 * 32; oa = (ctypes.addressof(ob) + 31) // 32 * 32
        buf = bytearray(insz)
        for n, path, off, leaf in inl:
            w = width(leafty(leaf)) // 8
            buf[off:off + w] = int(values[leafname('', n, path)]).to_bytes(w, 'little')
        ctypes.memmove(ia, bytes(buf), insz)
        f = getattr(s.lib, 'h_' + c.name); f.argtypes = [ctypes.c_void_p, ctypes.c_void_p]; f.restype = None
        M = s.fenv(); M.feclearexcept(0x3f); f(ia, oa); s.inexact = bool(M.fetestexcept(0x38))
        raw = ctypes.string_at(oa, outsz); out = {}
        for n, path, off, leaf in outl:
            w = width(leafty(leaf)) // 8
            out[leafname('out:', n, path)] = int.from_bytes(raw[off:off + w], 'little')
        return out

NICE = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 0.25, 1.5, -1.5, 4.0, 5.0, 7.0, -0.75, 10.0]
def rand_f32(rng, sem):
    k = rng.random()
    if sem == 'real':
        if k < 0.35: return f2bits(rng.choice(NICE), 'f32')
        if k < 0.7: return f2bits(float(rng.randint(-8, 8)), 'f32')
        return f2bits(rng.uniform(-4, 4), 'f32')
    if k < 0.3: return f2bits(rng.choice(NICE), 'f32')
    if k < 0.45: return rng.choice([0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x3f800001, 0x3f7fffff, 0x4b000000, 0x4f000000, 0xcf000000, 0x4f800000])
    if k < 0.75: return f2bits(to_f32(rng.uniform(-100, 100)), 'f32')
    return rng.getrandbits(32)
def rand_int(rng, n):
    k = rng.random()
    if k < 0.25: return rng.choice([0, 1, 2, 3, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, n, n - 1, 5, 16, 255 & ((1 << n) - 1)]) & ((1 << n) - 1)
    if k < 0.45: return rng.randrange(0, 40) & ((1 << n) - 1)
    if k < 0.6: return (-rng.randrange(0, 40)) & ((1 << n) - 1)
    if k < 0.8: return (1 << rng.randrange(n)) + rng.choice([-1, 0, 1]) & ((1 << n) - 1)
    return rng.getrandbits(n)

def random_values(c, rng):
    inl, _ = leaves(c.ins); vals = {}
    pool = {}
    for n, path, off, leaf in inl:
        ty = leafty(leaf); nm = leafname('', n, path)
        if leaf == 'bool': vals[nm] = rng.randint(0, 1)
        elif ty == 'f32': vals[nm] = rand_f32(rng, c.sem)
        elif ty == 'f64': vals[nm] = f2bits(bits_to_float(rand_f32(rng, c.sem), 'f32'), 'f64')
        else: vals[nm] = rand_int(rng, ty)
        # equal values in different leaves matter
        l = pool.setdefault(ty, [])
        if l and rng.random() < 0.15: vals[nm] = rng.choice(l)
        l.append(vals[nm])
    if c.gen:
        g = c.gen(rng)
        for k, v in g.items(): set_named(c, vals, k, v)
    return vals
def set_named(c, vals, name, v):
    t = dict(c.ins)[name]
    def put(path, x):
        if isinstance(x, (list, tuple)):
            for i, y in enumerate(x): put(path + (i,), y)
            return
        leaf = [l for p, o, l in cxx.T[t][2] if p == path][0]
        nm = leafname('', name, path)
        vals[nm] = f2bits(to_f32(float(x)), leaf) if isfloat(leaf) else int(x) & ((1 << width(leafty(leaf))) - 1)
    put((), v)

def env_of(c, ins, outs):
    env = {}
    for fields, vals, pfx in ((c.ins, ins, ''), (c.outs, outs, 'out:')):
        if vals is None: continue
        for n, path, off, leaf in leaves(fields)[0]:
            nm = leafname(pfx, n, path); ty = leafty(leaf); b = vals[nm]
            env[var(nm, ty)] = b
            if isfloat(ty) and c.sem == 'real':
                x = bits_to_float(b, ty)
                if math.isfinite(x): env[var(nm, 'r')] = (x, abs(x))
    return env

def showvals(c, fields, vals, pfx):
    d = {}
    for n, path, off, leaf in leaves(fields)[0]:
        b = vals[leafname(pfx, n, path)]
        d[leafname('', n, path)] = '%r (0x%08x)' % (bits_to_float(b, leaf), b) if isfloat(leaf) else b
    return d

def replay_one(c, spec, native, ins, only=None):
    """runs the real code; returns (failed ensures names, outs) or None if the input is outside the precondition"""
    I, O, req, ens = spec
    env = env_of(c, ins, None)
    if c.native_ok and not all(v is True for v in evalt.evalt(list(c.native_ok(I)), env, 0)): return None
    rv = evalt.evalt(req, env, 1e-6) if req else []
    sure = all(v is True for v in rv)
    if any(v is False for v in rv) or not sure and (c.sem != 'real' or not all(v is True for v in evalt.evalt(req, env, 0))): return None
    outs = native.call(c, ins)
    env = env_of(c, ins, outs)
    gv = evalt.evalt([g for _, g in ens], env, c.tol or evalt.TOL) if sure else [None] * len(ens)
    side = {n for n, g in ens if not any(t.op == 'v' and str(t.val).startswith('out:') for t in topo([g]))}   # facts about the inputs only
    bad = [n for (n, _), v in zip(ens, gv) if v is False and n not in side]
    if c.sem == 'real' and not bad and not native.inexact:
        # the run raised no inexact flag: no rounding happened, so the outputs are the exact real results
        rv = evalt.evalt(req, env, 0) if req else []
        if all(v is True for v in rv): bad = [n for (n, _), v in zip(ens, evalt.evalt([g for _, g in ens], env, 0)) if v is False and n not in side]
    # non-finite results where the specification defines a value
    if c.sem == 'real' and not bad and sure:
        for n, path, off, leaf in leaves(c.outs)[0]:
            if isfloat(leaf):
                x = bits_to_float(outs[leafname('out:', n, path)], leaf)
                if not math.isfinite(x):
                    v = var(leafname('out:', n, path), 'r')
                    for (nm, g) in ens:
                        if any(t is v for t in topo([g])):
                            bad.append(nm); break
    return bad, outs

def model_values(c, model, rng):
    vals = {}
    for n, path, off, leaf in leaves(c.ins)[0]:
        nm = leafname('', n, path); ty = leafty(leaf)
        v = model.get(var(nm, ty))
        if v is None and isfloat(ty):
            r = model.get(var(nm, 'r'))
            if r is not None: v = f2bits(to_f32(float(r)), ty)
        if v is None: v = 0
        vals[nm] = int(v)
    return vals
