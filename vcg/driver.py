"""check driver: extract, verify, replay, report."""
import os, sys, json, time, random, tempfile, shutil, importlib, traceback, multiprocessing, mmap, signal, pickle
from . import cxx, contract, smt, evalt, builtins
from .contract import *
VERIF = contract.VERIF

class Spec:
    """what a property module provides"""
    def __init__(s, mod):
        s.contracts = mod.contracts() if callable(getattr(mod, 'contracts', None)) else mod.CONTRACTS
        s.includes = mod.INCLUDES; s.prelude = getattr(mod, 'PRELUDE', ''); s.sources = getattr(mod, 'SOURCES', [])
        s.variants = getattr(mod, 'VARIANTS', ['sse2', 'avx2']); s.thorough_variants = getattr(mod, 'THOROUGH_VARIANTS', ['sse2', 'sse41', 'avx2'])
        s.assumptions = getattr(mod, 'ASSUMPTIONS', []); s.extra = getattr(mod, 'extra', None)
        s.level = getattr(mod, 'LEVEL', 'proof'); s.bounded = getattr(mod, 'BOUNDED', []); s.extra_flags = getattr(mod, 'FLAGS', [])

_G = {}
def _worker(job):
    kind, variant, idx = job
    v = _G['ver'][variant]; c = _G['byvar'][variant][idx]
    v.fns = {}; smt.STAT.clear(); builtins.TRUSTED.clear()
    try:
        obls = v.verify(c)
    except Exception as e:
        obls = [Obligation(c.name, variant, 'execute', 'unknown', '-', 0, 'tool error: %s' % ' | '.join(traceback.format_exc().strip().split(chr(10))[-5:]))]
    for o in obls:
        if o.model: o.model = [(t.val, t.ty, x) for t, x in o.model.items() if t.op == 'v'] if isinstance(o.model, dict) else None
    return (variant, idx, obls, dict(v.fns), dict(smt.STAT), dict(builtins.TRUSTED))

def vacuity(c, rng, tries=400):
    """find one input that satisfies the precondition"""
    V = contract.Verifier(None, '-', '')
    I, O, req, ens = V.spec(c)
    if not ens: return 'no postcondition'
    if not req: return None
    for _ in range(tries):
        vals = random_values(c, rng); env = env_of(c, vals, None)
        if all(v is True for v in evalt.evalt(req, env, 1e-6)): return None
    r = smt.check(req, FALSE, 20, 'real' if c.sem == 'real' else 'auto')
    return None if r[0] == 'refuted' else 'precondition not shown satisfiable'

def child_search(c, lib_path, models, seed, budget, names, tol_scale=1.0):
    """run in a forked child: look for a failing input on the real code"""
    shm = mmap.mmap(-1, 1 << 16); r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r); rng = random.Random(seed)
            nat = Native(ctypes.CDLL(lib_path)); V = contract.Verifier(None, '-', ''); spec = V.spec(c)
            t0 = time.time(); res = None; n = 0; tried = 0
            queue = [model_values(c, m, rng) for m in models]
            while time.time() - t0 < budget and tried < 200000:
                vals = queue.pop(0) if queue else random_values(c, rng)
                tried += 1
                if tried % 3 == 0 and res is None and n and not queue:
                    pass
                b = pickle.dumps(vals)[:60000]; shm.seek(0); shm.write(len(b).to_bytes(4, 'little') + b)
                x = replay_one(c, spec, nat, vals)
                if x is None: continue
                n += 1
                bad, outs = x
                if bad:
                    res = dict(ins=vals, outs=outs, bad=bad); break
            os.write(w, json.dumps(dict(res=res, tried=tried, ran=n)).encode())
        except BaseException:
            os.write(w, json.dumps(dict(res=None, error=traceback.format_exc()[-800:], tried=0, ran=0)).encode())
        finally:
            os._exit(0)
    os.close(w); data = b''
    t0 = time.time()
    import select
    while True:
        rl, _, _ = select.select([r], [], [], 1)
        if rl:
            ch = os.read(r, 1 << 16)
            if not ch: break
            data += ch
        if time.time() - t0 > budget + 30: os.kill(pid, 9); break
    os.close(r); _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and not data:
        shm.seek(0); n = int.from_bytes(shm.read(4), 'little')
        try: vals = pickle.loads(shm.read(n))
        except Exception: vals = None
        if os.WTERMSIG(status) == 9 or vals is None: return dict(res=None, tried=0, ran=0)
        return dict(res=dict(ins=vals, outs=None, bad=['crash: signal %d' % os.WTERMSIG(status)]), tried=1, ran=1)
    return json.loads(data) if data else dict(res=None, tried=0, ran=0)

def load_known():
    known = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known:'): continue
            d = dict(x.split('=', 1) for x in l.split() if '=' in x and x.split('=')[0] in ('property', 'contract', 'obligation'))
            d['text'] = l.split('--', 1)[1].strip() if '--' in l else l; known.append(d)
    return known

def main(prop, argv=()):
    t0 = time.time(); tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None; verbose = '-v' in argv
    for a in argv:
        if a.startswith('--only='): only = a[7:]
        if a == '--thorough': tier = 'thorough'
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('specs.' + prop)
    sp = Spec(mod)
    tmp = tempfile.mkdtemp(prefix='vcg-%s-' % prop)
    try: return drive(prop, sp, tier, seed, only, verbose, tmp, t0)
    except cxx.BuildError as e:
        print('ERROR: extraction failed for %s: %s' % (prop, e)); return 2
    finally: shutil.rmtree(tmp, ignore_errors=True)

def drive(prop, sp, tier, seed, only, verbose, tmp, t0):
    variants = sp.thorough_variants if tier == 'thorough' else sp.variants
    cs = [c for c in sp.contracts if (only is None or re.search(only, c.name)) and (tier == 'thorough' or not c.thorough)]
    names = [c.name for c in cs]
    if len(set(names)) != len(names): raise SystemExit('duplicate contract names: %s' % [n for n in names if names.count(n) > 1])
    allvs = list(dict.fromkeys(list(variants) + [x for c in cs for x in (c.variants or []) if tier == 'thorough' or True]))
    byvar = {}
    for v in allvs:
        l = [c for c in cs if (c.variants is None and v in variants) or (c.variants is not None and v in c.variants)]
        if l: byvar[v] = l
    rng = random.Random(seed)
    # extraction (all variants in parallel)
    import concurrent.futures as cf
    srcs = {}
    def extract(v):
        p = os.path.join(tmp, 'h_%s.cpp' % v)
        src = cxx.source(byvar[v], sp.includes, sp.prelude)
        for s in sp.sources: src = src + '\n#include "%s/%s"\n' % (cxx.REPO, s)
        open(p, 'w').write(src); srcs[v] = p
        return v, cxx.to_ir(p, v, os.path.join(tmp, 'h_%s.ll' % v), sp.extra_flags)
    with cf.ThreadPoolExecutor(8) as tp: irs = dict(tp.map(extract, byvar))
    ver = {}
    for v, ir in irs.items(): ver[v] = Verifier(Module(ir), v, prop)
    t_ext = time.time() - t0
    _G['ver'] = ver; _G['byvar'] = byvar
    jobs = [('v', v, i) for v in byvar for i in range(len(byvar[v]))]
    obls = []; fns = {}; stats = {}; trusted = {}
    ctx = multiprocessing.get_context('fork')
    order = jobs; smt.SEM = ctx.Semaphore(8)
    with ctx.Pool(min(8, max(1, len(jobs)))) as pool:
        for variant, idx, os_, f, st, tr in pool.imap_unordered(_worker, order, chunksize=1 if len(jobs) < 200 else 4):
            obls += os_
            for k, n in f.items(): fns[k] = fns.get(k, 0) + n
            for k, (n, t) in st.items(): a, b = stats.get(k, (0, 0.0)); stats[k] = (a + n, b + t)
            for k, n in tr.items(): trusted[k] = trusted.get(k, 0) + n
            if verbose:
                for o in os_:
                    if o.status != 'proved' or o.dt > 2: print('  %-9s %s %.2fs %s' % (o.status, o.key(), o.dt, o.why or o.backend), flush=True)
    # vacuity guards
    problems = []
    for c in cs:
        if tier == 'thorough' or c.requires is not None:
            p = vacuity(c, rng)
            if p: problems.append('%s: %s' % (c.name, p))
    perc = {}
    for o in obls: perc.setdefault((o.contract, o.variant), []).append(o)
    for v in byvar:
        for c in byvar[v]:
            if not perc.get((c.name, v)): problems.append('%s/%s: no obligation generated' % (c.name, v))
    extra_cov = {}
    if sp.extra:
        eo, extra_cov = sp.extra(tier, seed, tmp, verbose); obls += eo
    bad = [o for o in obls if o.status != 'proved']
    known = [k for k in load_known() if k.get('property') == prop]
    viol = []; kf = []; undecided = []
    bykey = {}
    for o in bad:
        hit = [k for k in known if k.get('contract') == o.contract and k.get('obligation', o.name) == o.name]
        if hit: kf.append((hit[0], o)); continue
        bykey.setdefault((o.contract, o.variant), []).append(o)
    shown = set()
    for k, o in kf:
        if id(k) not in shown: shown.add(id(k)); print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    rdir = os.path.join(VERIF, 'replay'); lines = []; evaluations = 0
    if bykey:
        libs = {}
        cby = {c.name: c for c in cs}
        items = sorted(bykey.items(), key=lambda kv: (kv[0][1] != 'sse2', kv[0]))
        deadline = time.time() + (120 if tier == 'quick' else 400)
        reported = 0
        for (cn, v), os_ in items:
            c = cby.get(cn); found = None; note = None
            if c is not None and c.native and time.time() < deadline and reported < 6:
                if v not in libs:
                    try:
                        so = os.path.join(tmp, 'n_%s.so' % v)
                        cxx.to_so([srcs[v]], v, so, sp.extra_flags); libs[v] = so
                    except cxx.BuildError as e: libs[v] = None; note = str(e)[-500:]
                if libs[v]:
                    models = []
                    for o in os_:
                        if o.model: models.append({var(n, ty): x for n, ty, x in o.model})
                    res = child_search(c, libs[v], models, seed, 12 if reported < 3 else 5, None)
                    evaluations += res.get('ran', 0); found = res.get('res'); note = res.get('error')
            reported += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s-%s.json' % (prop, cn, v))
            rep = dict(property=prop, contract=cn, variant=v, code=c.body if c else None,
                       failed_obligations=[dict(name=o.name, status=o.status, detail=o.why, verifier_counterexample=[(a, str(b), str(x)) for a, b, x in o.model] if o.model else None) for o in os_])
            if found:
                rep['replay'] = dict(inputs=showvals(c, c.ins, found['ins'], ''), outputs=showvals(c, c.outs, found['outs'], 'out:') if found['outs'] else None, violated_on_real_code=found['bad'], raw_inputs={k: int(x) for k, x in found['ins'].items()})
            else: rep['replay'] = None; rep['note'] = 'no failing input found by replay on the real code' + (': ' + note if note else '')
            json.dump(rep, open(path, 'w'), indent=1)
            lines.append((bool(found), cn, v, path, os_))
    nviol = 0
    if lines:
        good = [l for l in lines if l[0]]
        for l in (good or lines)[:5]:
            nviol += 1
            print('failed obligations of %s/%s: %s' % (l[1], l[2], '; '.join('%s [%s]' % (o.name, o.why) for o in l[4])[:600]))
            print('VIOLATION property=%s replay=%s%s' % (prop, l[3], '' if l[0] else ' no-failing-input-found'))
        nviol = len(lines)
    dem = cxx.demangle(sorted(fns)) if fns else {}
    under = sorted(set(d for d in dem.values() if d.startswith('math::') or ' math::' in d))
    be = {}
    for o in obls:
        if o.status == 'proved': be[o.backend] = be.get(o.backend, 0) + 1
    cov = dict(obligations=len(obls), discharged=sum(o.status == 'proved' for o in obls),
               checker_cmd='python3-vt /verif/check.py %s  (own VC generator /verif/vcg over clang-18 LLVM IR; z3 %s; rational-function normal forms on sympy rings)' % (prop, smt.z3.get_version_string()),
               trusted_base=['clang 18 front end and opt (sroa, instsimplify, simplifycfg)', '/verif/vcg symbolic executor and simplifier', 'z3', 'sympy polynomial rings'] + ['model of %s' % k for k in sorted(trusted)],
               contracts=len(cs), variants=list(byvar), functions_under_contract=under, discharged_by=be,
               solver_time_s={k: dict(queries=n, seconds=round(t, 2)) for k, (n, t) in stats.items()},
               extraction_s=round(t_ext, 2), safety_obligations=sum(o.name.startswith('safety:') for o in obls),
               undischarged=[dict(key=o.key(), status=o.status, why=o.why) for o in bad][:40], replay_evaluations=evaluations, bounded=sp.bounded)
    cov.update(extra_cov)
    sems = sorted(set(c.sem for c in cs))
    ass = list(sp.assumptions)
    if 'real' in sems: ass.append('contracts with sem=real read float arithmetic as exact real arithmetic (no rounding, overflow or NaN); literals are taken at their exact float value')
    ass.append('signed integer overflow in vector arithmetic is taken to wrap (the code relies on two\'s complement)')
    ev = dict(property=prop, tier=tier, seed=seed, level=sp.level, coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2), violations=nviol)
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, %d functions, %.1f s' % (prop, len(cs), len(obls), cov['discharged'], len(under), time.time() - t0))
    for p in problems: print('VACUITY: ' + p)
    if lines: return 1
    if os.environ.get('VCG_PART'): print('VCG_PART is set: a development run, nothing is claimed'); return 2
    if problems or not obls: return 2
    return 0
