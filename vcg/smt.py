"""Lowering of terms to z3 (bit-vectors, IEEE floats, reals) and to SMT-LIB for cvc5."""
import time, subprocess, os, tempfile
import z3, os, select, signal, pickle
from .terms import *

RM = None
def fpsort(ty): return z3.Float32() if ty == 'f32' else z3.Float64()

UFMUL = False      # products of two unknowns as an uninterpreted function (sound for proving)
class Lower:
    """abstract=True: floating-point arithmetic as uninterpreted functions on bit patterns (sound for proving)."""
    def __init__(s, abstract=False):
        s.memo = {}; s.side = []; s.abs = abstract; s.vars = {}; s.k = 0; s.uf = {}; s.sc = {}
    def fresh(s, p, sort): s.k += 1; return z3.Const('%s!%d' % (p, s.k), sort)
    def sort(s, ty):
        if ty == 'b': return z3.BoolSort()
        if ty == 'r': return z3.RealSort()
        if isfloat(ty): return z3.BitVecSort(width(ty)) if s.abs else fpsort(ty)
        return z3.BitVecSort(ty)
    def __call__(s, t):
        for x in topo([t]):
            if x.id not in s.memo: s.memo[x.id] = s.low(x)
        return s.memo[t.id]
    def fn(s, name, *sorts):
        k = (name,) + tuple(str(x) for x in sorts)
        if k not in s.uf: s.uf[k] = z3.Function('uf_' + name + '_%d' % len(s.uf), *sorts)
        return s.uf[k]
    def low(s, t):
        o = t.op; ty = t.ty; a = [s.memo[x.id] for x in t.args]; A = t.args
        if o == 'c':
            if ty == 'b': return z3.BoolVal(t.val)
            if ty == 'r': return z3.Q(t.val.numerator, t.val.denominator)
            if isfloat(ty):
                b = z3.BitVecVal(t.val, width(ty))
                return b if s.abs else z3.simplify(z3.fpBVToFP(b, fpsort(ty)))
            return z3.BitVecVal(t.val, ty)
        if o == 'v':
            v = z3.Const(t.val, s.sort(ty)); s.vars[t] = v; return v
        if o == 'not': return z3.Not(a[0])
        if o == 'and': return z3.And(*a)
        if o == 'or': return z3.Or(*a)
        if o == 'ite': return z3.If(a[0], a[1], a[2])
        if o == 'eq': return a[0] == a[1]
        if o == 'req': return a[0] == a[1]
        if o == 'rle': return a[0] <= a[1]
        if o == 'rlt': return a[0] < a[1]
        if ty == 'r' or o in ('r2bv',): return s.low_real(t, a)
        if o == 'concat': return z3.Concat(*a)
        if o == 'extract': return z3.Extract(t.val[0], t.val[1], a[0])
        if o == 'zext': return z3.ZeroExt(ty - A[0].ty, a[0])
        if o == 'sext': return z3.SignExt(ty - A[0].ty, a[0])
        if o == 'b2bv': return z3.If(a[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if o in ('bvand', 'bvor', 'bvxor'):
            r = a[0]
            for x in a[1:]: r = r & x if o == 'bvand' else r | x if o == 'bvor' else r ^ x
            return r
        if o == 'bvnot': return ~a[0]
        if o == 'add': return a[0] + a[1]
        if o == 'sub': return a[0] - a[1]
        if o == 'mul':
            if UFMUL and A[0].op != 'c' and A[1].op != 'c': return s.fn('mul', *[s.sort(x.ty) for x in A], s.sort(ty))(*a)
            return a[0] * a[1]
        if o == 'udiv': return z3.UDiv(*a)
        if o == 'urem': return z3.URem(*a)
        if o == 'sdiv': return a[0] / a[1]
        if o == 'srem': return z3.SRem(*a)
        if o == 'shl': return a[0] << a[1]
        if o == 'lshr': return z3.LShR(*a)
        if o == 'ashr': return a[0] >> a[1]
        if o == 'ult': return z3.ULT(*a)
        if o == 'slt': return a[0] < a[1]
        if o == 'uf' :
            return s.fn(t.val, *[s.sort(x.ty) for x in A], s.sort(ty))(*a)
        if s.abs: return s.low_abs(t, a)
        rm = z3.RNE()
        if o == 'fbits':
            if z3.is_fp_value(a[0]) and not z3.is_nan if False else False: pass
            b = s.fresh('bits', z3.BitVecSort(ty)); s.side.append(z3.fpBVToFP(b, fpsort(A[0].ty)) == a[0]); return b
        if o == 'ibits': return z3.fpBVToFP(a[0], fpsort(ty))
        if o == 'fneg': return z3.fpNeg(a[0])
        if o == 'fabs': return z3.fpAbs(a[0])
        if o == 'fadd': return z3.fpAdd(rm, *a)
        if o == 'fsub': return z3.fpSub(rm, *a)
        if o == 'fmul': return z3.fpMul(rm, *a)
        if o == 'fdiv': return z3.fpDiv(rm, *a)
        if o == 'fsqrt': return z3.fpSqrt(rm, *a)
        if o == 'frem': return s.fn('fmod', *[s.sort(x.ty) for x in A], s.sort(ty))(*a)
        if o in ('fma', 'fmuladd'): return z3.fpFMA(rm, *a) if o == 'fma' else z3.fpAdd(rm, z3.fpMul(rm, a[0], a[1]), a[2])
        if o == 'feq': return z3.fpEQ(*a)
        if o == 'flt': return z3.fpLT(*a)
        if o == 'fle': return z3.fpLEQ(*a)
        if o == 'fisnan': return z3.fpIsNaN(a[0])
        if o == 'fsame': return z3.Or(a[0] == a[1], z3.And(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1])))
        if o == 'fp_fits':
            n, sg = t.val; S = fpsort(A[0].ty); r = z3.fpRoundToIntegral(z3.RTZ(), a[0])
            lo, hi = (-(2.0 ** (n - 1)), 2.0 ** (n - 1)) if sg else (0.0, 2.0 ** n)
            return z3.And(z3.fpGEQ(r, z3.FPVal(lo, S)), z3.fpLT(r, z3.FPVal(hi, S)))
        if o == 'fptosi': return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(ty))
        if o == 'fptoui': return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(ty))
        if o == 'sitofp': return z3.fpSignedToFP(rm, a[0], fpsort(ty))
        if o == 'uitofp': return z3.fpToFPUnsigned(rm, a[0], fpsort(ty))
        if o in ('fpext', 'fptrunc'): return z3.fpFPToFP(rm, a[0], fpsort(ty))
        if o == 'fround': return z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rne': z3.RNE(), 'rna': z3.RNA()}[t.val], a[0])
        raise NotImplementedError(o)
    def low_abs(s, t, a):
        o = t.op; ty = t.ty; A = t.args
        if o in ('fbits', 'ibits'): return a[0]
        w = width(A[0].ty)
        def sgn(x): return z3.Extract(w - 1, w - 1, x)
        if o == 'fneg': return a[0] ^ z3.BitVecVal(SIGN[ty], w)
        if o == 'fabs': return a[0] & z3.BitVecVal(SIGN[ty] - 1, w)
        inf = z3.BitVecVal(0x7f800000 if w == 32 else 0x7ff0000000000000, w); am = z3.BitVecVal((1 << (w - 1)) - 1, w)
        nan = lambda x: z3.UGT(x & am, inf)
        zero = lambda x: (x & am) == 0
        key = lambda x: z3.If(sgn(x) == 1, -(x & am), x & am)     # signed order, -0 and +0 both 0
        if o == 'fisnan': return nan(a[0])
        if o == 'feq': return z3.And(z3.Not(nan(a[0])), z3.Not(nan(a[1])), key(a[0]) == key(a[1]))
        if o == 'flt': return z3.And(z3.Not(nan(a[0])), z3.Not(nan(a[1])), key(a[0]) < key(a[1]))
        if o == 'fle': return z3.And(z3.Not(nan(a[0])), z3.Not(nan(a[1])), key(a[0]) <= key(a[1]))
        if o == 'fsame': return z3.Or(a[0] == a[1], z3.And(nan(a[0]), nan(a[1])))
        nm = o + (str(t.val) if t.val is not None else '')
        return s.fn(nm, *[s.sort(x.ty) for x in A], s.sort(ty))(*a)
    def low_real(s, t, a):
        o = t.op; A = t.args
        if o == 'radd': return a[0] + a[1]
        if o == 'rmul': return a[0] * a[1]
        if o == 'rdiv':
            q = s.fresh('q', z3.RealSort()); s.side.append(z3.Implies(a[1] != 0, q * a[1] == a[0])); return q
        if o == 'rsqrt':
            q = s.fresh('s', z3.RealSort()); s.side.append(z3.Implies(a[0] >= 0, z3.And(q >= 0, q * q == a[0]))); return q
        if o == 'rfloor':
            return z3.ToReal(z3.ToInt(a[0]))
        if o == 'rofint':
            return z3.ToReal(z3.BV2Int(a[0], is_signed=bool(t.val)))
        if o == 'r2bv':
            i = z3.ToInt(a[0]); return z3.Int2BV(z3.If(a[0] >= 0, i, -z3.ToInt(-a[0])), t.ty)
        if o == 'ruf':
            k = (t.val, tuple(x.id for x in A))
            q = s.fresh(t.val, z3.RealSort()); s.sc[k] = q
            if t.val in ('sin', 'cos'):
                other = s.sc.get(('cos' if t.val == 'sin' else 'sin', k[1]))
                s.side.append(z3.And(q <= 1, q >= -1))
                if other is not None: s.side.append(q * q + other * other == 1)
            if t.val in ('exp', 'exp2'): s.side.append(q > 0)
            if t.val == 'pow': s.side.append(z3.Implies(a[0] >= 0, q >= 0))
            return q
        raise NotImplementedError(o)

def z3val_to_py(v, ty):
    try:
        if ty == 'b': return bool(z3.is_true(v))
        if ty == 'r':
            if z3.is_algebraic_value(v): v = v.approx(20)
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if isfloat(ty):
            if z3.is_bv_value(v): return v.as_long()
            b = z3.simplify(z3.fpToIEEEBV(v))
            return b.as_long() if z3.is_bv_value(b) else None
        return v.as_long()
    except Exception: return None

STAT = {}
def stat(be, dt): n, t = STAT.get(be, (0, 0.0)); STAT[be] = (n + 1, t + dt)

def check(hyps, goal, timeout=20, mode='auto'):
    """is  hyps |= goal ?  returns ('proved', be) / ('refuted', model) / ('unknown', why)
    mode: bv, fp, abs, real"""
    if goal is TRUE: return ('proved', 'simplifier')
    fs = list(hyps) + [Not(goal)]
    L = Lower(abstract=(mode == 'abs'))
    try: zs = [L(f) for f in fs] + L.side
    except NotImplementedError as e: return ('unknown', 'cannot lower ' + str(e))
    zs = [L(f) for f in fs] + L.side
    if mode == 'real': s = z3.Tactic('qfnra-nlsat').solver() if not L.uf and not has_int(fs) else z3.Solver()
    elif mode in ('bv', 'abs'): s = z3.SolverFor('QF_UFBV') if L.uf else z3.SolverFor('QF_BV')
    elif mode == 'fp': s = z3.Solver() if L.uf else z3.SolverFor('QF_FPBV')
    else: s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    t0 = time.time()
    for f in zs: s.add(f)
    if os.environ.get('VCG_DUMP'): open('%s/%d_%d.smt2' % (os.environ['VCG_DUMP'], goal.id, len(hyps)), 'w').write(s.to_smt2())
    def solve():
        try: r = s.check()
        except z3.Z3Exception as e: return ('unknown', str(e))
        if r == z3.unsat: return ('proved', 'z3')
        if r == z3.sat:
            m = s.model(); env = {}
            for t, v in L.vars.items():
                x = m.eval(v, model_completion=True); p = z3val_to_py(x, t.ty)
                if p is not None: env[t.id] = p
            return ('refuted', env)
        return ('unknown', s.reason_unknown())
    r = solve() if mode in ('bv', 'abs') else hard_limit(solve, timeout + 2)
    stat('z3 ' + z3.get_version_string(), time.time() - t0)
    if r[0] == 'refuted':
        byid = {t.id: t for t in L.vars}
        return ('refuted', {byid[i]: x for i, x in r[1].items()})
    return r
def check_int(hyps, goal, timeout, mode):
    """the same question to cvc5, which translates bit-vectors to integers (sums)"""
    L = Lower(abstract=(mode == 'abs')); fs = list(hyps) + [Not(goal)]
    try: zs = [L(f) for f in fs] + L.side
    except NotImplementedError as e: return ('unknown', 'cannot lower ' + str(e))
    zs = [L(f) for f in fs] + L.side; s = z3.Solver(); t0 = time.time()
    for f in zs: s.add(f)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write('(set-logic ALL)\n' + s.to_smt2()); f.flush()
        try: o = subprocess.run(['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 20).stdout
        except (subprocess.TimeoutExpired, OSError): o = ''
    stat('cvc5 (bit-vectors as integers)', time.time() - t0)
    return ('proved', 'cvc5 (bit-vectors as integers)') if o.split()[:1] == ['unsat'] else ('unknown', 'cvc5: ' + (o.split() or ['timeout'])[0])
SEM = None
def pmap(fn, items, n=8):
    """[fn(i) for i in items] in forked children; results are obligation results (models are dicts keyed by terms that exist before the fork)"""
    items = list(items)
    if len(items) < 2: return [fn(i) for i in items]
    n = min(n, len(items)); kids = []
    from .terms import _tab
    for w in range(n):
        rd, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(rd); STAT.clear(); out = []
                for k in range(w, len(items), n):
                    if SEM: SEM.acquire()
                    try: r = fn(items[k])
                    finally:
                        if SEM: SEM.release()
                    if len(r) > 1 and isinstance(r[1], dict): r = (r[0], ('model', [(t.id, v) for t, v in r[1].items()])) + tuple(r[2:])
                    out.append((k, r))
                data = pickle.dumps((out, STAT))
            except BaseException as e: data = pickle.dumps(([(k, ('unknown', 'solver child: %r' % (e,))) for k in range(w, len(items), n)], {}))
            try:
                with os.fdopen(wr, 'wb') as f: f.write(data)
            finally: os._exit(0)
        os.close(wr); kids.append((pid, rd))
    res = [('unknown', 'solver child died')] * len(items); byid = None
    for pid, rd in kids:
        with os.fdopen(rd, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        try: out, stt = pickle.loads(data)
        except Exception: continue
        for b, (k, t) in stt.items(): k0, t0 = STAT.get(b, (0, 0.0)); STAT[b] = (k0 + k, t0 + t)
        for k, r in out:
            if len(r) > 1 and isinstance(r[1], tuple) and r[1][0] == 'model':
                if byid is None: byid = {t.id: t for t in _tab.values() if t.op == 'v'}
                r = (r[0], {byid[i]: v for i, v in r[1][1] if i in byid}) + tuple(r[2:])
            res[k] = r
    return res
def hard_limit(fn, seconds):
    """run fn in a forked child that is killed when the time is up (z3 does not always honour its timeout)"""
    rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(rd); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(int(seconds) + 2)
            os.write(wr, pickle.dumps(fn()))
        except BaseException as e:
            try: os.write(wr, pickle.dumps(('unknown', 'solver child: %r' % (e,))))
            except BaseException: pass
        finally: os._exit(0)
    os.close(wr); data = b''; end = time.time() + seconds
    while True:
        left = end - time.time()
        if left <= 0: break
        try: rl, _, _ = select.select([rd], [], [], left)
        except InterruptedError: continue
        if not rl: break
        ch = os.read(rd, 1 << 16)
        if not ch: break
        data += ch
    os.close(rd)
    try: os.kill(pid, 9)
    except OSError: pass
    os.waitpid(pid, 0)
    try: return pickle.loads(data)
    except Exception: return ('unknown', 'timeout')
def has_int(fs): return any(t.op in ('rfloor', 'rofint', 'r2bv') or isinstance(t.ty, int) for t in topo(fs))
