"""Parser for the textual LLVM 18 IR that clang/opt emit (the subset that occurs)."""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
# ('i', n) | 'float' | 'double' | 'ptr' | 'void' | 'x86_fp80' | ('vec', n, t) | ('arr', n, t) | ('struct', [t], packed)
# | ('named', name) | 'label' | 'metadata' | 'opaque'

TOK = re.compile(r'''
    \s*(?:
      (?P<str>c?"(?:[^"\\]|\\.)*")
    | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
    | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
    | (?P<meta>![-a-zA-Z$._0-9]*)
    | (?P<attr>\#\d+)
    | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
    | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
    | (?P<flt>-?\d+\.\d*(?:[eE][-+]?\d+)?)
    | (?P<int>-?\d+)
    | (?P<dots>\.\.\.)
    | (?P<id>[a-zA-Z_][-a-zA-Z_0-9.]*)
    | (?P<p>[=,(){}\[\]<>*:|^])
    )''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: %r' % s[i:i+60])
        k = m.lastgroup; v = m.group(k)
        out.append((k, v)); i = m.end()
        if i < n and s[i:].lstrip().startswith(';'):
            break
    return out

def unq(name):
    n = name[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','inreg','nocapture','readonly','writeonly','readnone','returned',
  'noalias','immarg','nofree','nest','swiftself','swifterror','allocptr','allocalign','noinline','dead_on_unwind','writable'}
FN_WORDS = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr',
  'weak_odr','external','default','hidden','protected','dllimport','dllexport','dso_local','dso_preemptable',
  'local_unnamed_addr','unnamed_addr','fastcc','ccc','coldcc','thread_local','externally_initialized'}
FMF = {'nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'}

class Inst:
    __slots__ = ('op','dst','ty','a','line')
    def __init__(s, op, dst, ty, a, line): s.op=op; s.dst=dst; s.ty=ty; s.a=a; s.line=line
    def __repr__(s): return '<%s>' % s.line.strip()

class Block:
    __slots__ = ('name','insts','phis')
    def __init__(s, name): s.name=name; s.insts=[]; s.phis=[]

class Func:
    __slots__ = ('name','ret','params','blocks','order','attrs','_succ','_rpo','line')
    def __init__(s, name, ret, params): s.name=name; s.ret=ret; s.params=params; s.blocks={}; s.order=[]; s._succ=None; s._rpo=None

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t=toks; s.i=0; s.m=mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else (None, None)
    def next(s):
        r = s.peek(); s.i += 1; return r
    def eat(s, v):
        if s.peek()[1] == v: s.i += 1; return True
        return False
    def need(s, v):
        if not s.eat(v): raise IRError('expected %r got %r in %r' % (v, s.peek(), ' '.join(x[1] for x in s.t)))
    # ---- types
    def type(s):
        k, v = s.next()
        if k == 'id':
            if re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
            elif v in ('float','double','ptr','void','label','metadata','x86_fp80','opaque','half','token'): t = v
            else: raise IRError('type %r' % v)
            if v == 'ptr' and s.peek()[1] == 'addrspace':
                s.next(); s.need('('); s.next(); s.need(')')
        elif k == 'loc': t = ('named', unq(v))
        elif v == '<':
            if s.peek()[1] == '{':
                s.next(); t = s.struct(True); s.need('>')
            else:
                n = int(s.next()[1]); x = s.next(); assert x[1] == 'x', x
                e = s.type(); s.need('>'); t = ('vec', n, e)
        elif v == '[':
            n = int(s.next()[1]); x = s.next(); assert x[1] == 'x', x
            e = s.type(); s.need(']'); t = ('arr', n, e)
        elif v == '{': t = s.struct(False)
        else: raise IRError('type? %r' % (v,))
        while s.peek()[1] == '(' and s.fnty_ahead():   # function type: ret (args...)
            s.next(); 
            depth = 1
            while depth:
                x = s.next()[1]
                if x == '(': depth += 1
                elif x == ')': depth -= 1
                elif x is None: raise IRError('fnty')
            t = ('fn', t)
        return t
    def fnty_ahead(s):
        # only used in calls with explicit function type: type ( type, ... ) @callee
        d = 0; j = s.i
        while j < len(s.t):
            v = s.t[j][1]
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return (s.t[j+1][0] in ("glob","loc") or s.t[j+1][1] == ",") if j+1 < len(s.t) else False
            j += 1
        return False
    def struct(s, packed):
        ts = []
        if s.eat('}'): return ('struct', tuple(ts), packed)
        while True:
            ts.append(s.type())
            if s.eat('}'): break
            s.need(',')
        return ('struct', tuple(ts), packed)
    def skip_attrs(s):
        at = {}
        while True:
            k, v = s.peek()
            if k == 'id' and v in PARAM_ATTRS: s.next(); at[v] = True
            elif k == 'id' and v in ('align',):
                s.next()
                if s.eat('('): s.next(); s.need(')')
                else: s.next()
            elif k == 'id' and v in ('dereferenceable','dereferenceable_or_null','captures','memory','nofpclass','range','elementtype','byval','sret','byref','inalloca','preallocated'):
                s.next(); s.need('(')
                if v in ('byval','sret','byref','elementtype'):
                    at[v] = s.type(); s.need(')')
                else:
                    d = 1
                    while d:
                        x = s.next()[1]
                        if x == '(': d += 1
                        elif x == ')': d -= 1
            else: return at
    # ---- values
    def value(s, ty):
        k, v = s.next()
        if k == 'loc': return ('reg', unq(v))
        if k == 'glob': return ('glob', unq(v))
        if k == 'int': return ('cint', int(v))
        if k in ('hex','flt'): return ('cflt', parse_float(v))
        if k == 'str': return ('cstr', parse_cstr(v))
        if k == 'id':
            if v == 'true': return ('cint', 1)
            if v == 'false': return ('cint', 0)
            if v in ('undef','poison'): return ('undef', v)
            if v == 'null': return ('null',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                while s.peek()[1] in ('inbounds','nuw','nusw'): s.next()
                if s.peek()[1] == 'inrange':
                    s.next(); s.need('('); 
                    while not s.eat(')'): s.next()
                s.need('('); bt = s.type(); s.need(','); ops = []
                while True:
                    if s.peek()[1] == 'inrange': s.next()
                    t = s.type(); ops.append((t, s.value(t)))
                    if s.eat(')'): break
                    s.need(',')
                return ('cgep', bt, ops)
            if v in ('bitcast','ptrtoint','inttoptr','trunc','zext','sext','addrspacecast'):
                s.need('('); t = s.type(); x = s.value(t); assert s.next()[1] == 'to'; t2 = s.type(); s.need(')')
                return ('ccast', v, t, x, t2)
            if v in ('add','sub','mul','xor','and','or','shl'):
                while s.peek()[1] in ('nsw','nuw'): s.next()
                s.need('('); t = s.type(); x = s.value(t); s.need(','); t2 = s.type(); y = s.value(t2); s.need(')')
                return ('cbin', v, t, x, y)
            if v == 'blockaddress': raise IRError('blockaddress')
        if v == '<' or v == '[' or v == '{':
            if v == '<' and s.peek()[1] == '{':
                s.next(); close = '}'; vals = s.vals(close); s.need('>'); return ('cagg', vals)
            close = {'<':'>','[':']','{':'}'}[v]
            return ('cagg', s.vals(close))
        raise IRError('value %r %r in %r' % (k, v, ' '.join(x[1] for x in s.t)))
    def vals(s, close):
        out = []
        if s.eat(close): return out
        while True:
            t = s.type(); out.append((t, s.value(t)))
            if s.eat(close): return out
            s.need(',')
    def tv(s):
        t = s.type(); s.skip_attrs(); return (t, s.value(t))

def parse_float(v):
    if v.startswith('0x'):
        if v[2] in 'KLMHR': return ('raw', v)
        return ('dbits', int(v[2:], 16))
    return ('dbits', struct.unpack('<Q', struct.pack('<d', float(v)))[0])

def parse_cstr(v):
    assert v[0] == 'c', v
    b = bytearray(); s = v[2:-1]; i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': b.append(92); i += 2
            else: b.append(int(s[i+1:i+3], 16)); i += 3
        else: b.append(ord(s[i])); i += 1
    return bytes(b)

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = set(); self.ctors = []; self._lay = {}
        self.aliases = {}
        self.parse(text)
    def parse(self, text):
        lines = text.split('\n'); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                p = P(tokenize(l), self); nm = unq(p.next()[1]); p.need('='); p.next()
                self.types[nm] = 'opaque' if p.peek()[1] == 'opaque' else p.type()
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self.parse_func(l, lines[i+1:j]); i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]+"|[-\w$.]+)\(', l); self.decls.add(m.group(1).strip('"'))
            i += 1
    def parse_global(self, l):
        p = P(tokenize(l), self); nm = unq(p.next()[1]); p.need('=')
        ext = False; const = False
        while True:
            k, v = p.peek()
            if v in FN_WORDS:
                if v in ('external','extern_weak'): ext = True
                p.next()
                if v == 'thread_local' and p.eat('('):
                    p.next(); p.need(')')
            elif v == 'alias':
                p.next(); p.type(); p.need(','); p.type(); self.aliases[nm] = unq(p.next()[1]); return
            elif v in ('global','constant'): const = v == 'constant'; p.next(); break
            elif v == 'addrspace': raise IRError(l)
            else: raise IRError('global: %r' % l)
        t = p.type()
        init = None
        if not ext: init = p.value(t)
        self.globals[nm] = (t, init, const)
        if nm == 'llvm.global_ctors' and init[0] == 'cagg':
            for (_, e) in init[1]:
                prio = e[1][0][1][1]; fn = e[1][1][1]
                self.ctors.append((prio, fn[1]))
    def parse_func(self, head, body):
        toks = tokenize(head[len('define'):].rstrip().rstrip('{'))
        p = P(toks, self)
        while p.peek()[1] in FN_WORDS: p.next()
        p.skip_attrs(); ret = p.type(); k, v = p.next()
        assert k == 'glob', head
        name = unq(v); p.need('('); params = []
        idx = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'): p.need(')'); break
                t = p.type(); at = p.skip_attrs()
                if p.peek()[0] == 'loc': pn = unq(p.next()[1])
                else: pn = str(idx)
                idx = int(pn)+1 if pn.isdigit() else idx
                params.append((pn, t, at))
                if p.eat(')'): break
                p.need(',')
        f = Func(name, ret, params)
        cur = None; n0 = idx
        # join multi-line instructions (switch, invoke/landingpad)
        stmts = []; buf = None
        for l in body:
            s = l.strip()
            if not s or s.startswith(';'): continue
            if buf is not None:
                buf += ' ' + s.split(' ; ')[0]
                if s.startswith(']'): stmts.append(buf); buf = None
                continue
            if s.startswith('switch ') and s.endswith('['):
                buf = s; continue
            if s.startswith('to label') or s.startswith('catch ') or s == 'cleanup' or s.startswith('filter '):
                stmts[-1] += ' ' + s; continue
            stmts.append(s)
        for s in stmts:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                cur = Block(m.group(1).strip('"')); f.blocks[cur.name] = cur; f.order.append(cur.name); continue
            if cur is None:
                cur = Block(str(n0)); f.blocks[cur.name] = cur; f.order.append(cur.name)
            ins = self.parse_inst(s)
            if ins is None: continue
            (cur.phis if ins.op == 'phi' else cur.insts).append(ins)
        self.funcs[name] = f
    def parse_inst(self, s):
        p = P(tokenize(s), self); dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = unq(p.next()[1]); p.next()
        op = p.next()[1]
        def flags():
            fl = set()
            while p.peek()[1] in FMF or p.peek()[1] in ('nsw','nuw','exact','disjoint','nneg','inbounds','volatile','nusw','samesign'):
                fl.add(p.next()[1])
            return fl
        if op in ('tail','musttail','notail'): op = p.next()[1]
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            fl = flags(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return Inst(op, dst, t, (a, b, fl), s)
        if op == 'fneg':
            flags(); t = p.type(); return Inst(op, dst, t, (p.value(t),), s)
        if op in ('icmp','fcmp'):
            flags(); pred = p.next()[1]; t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return Inst(op, dst, t, (pred, a, b), s)
        if op == 'select':
            flags(); c = p.tv(); p.need(','); a = p.tv(); p.need(','); b = p.tv()
            return Inst(op, dst, a[0], (c, a[1], b[1]), s)
        if op in ('trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'):
            flags(); t, v = p.tv(); assert p.next()[1] == 'to'; t2 = p.type()
            return Inst(op, dst, t2, (t, v), s)
        if op == 'alloca':
            while p.peek()[1] in ('inalloca',): p.next()
            t = p.type(); n = None
            if p.eat(','):
                if p.peek()[1] != 'align':
                    n = p.tv()
            return Inst(op, dst, t, (n,), s)
        if op == 'load':
            fl = flags()
            if p.peek()[1] == 'atomic': p.next()
            t = p.type(); p.need(','); pt, pv = p.tv()
            al = 0
            m = re.search(r', align (\d+)', s)
            if m: al = int(m.group(1))
            return Inst(op, dst, t, (pv, al), s)
        if op == 'store':
            flags()
            if p.peek()[1] == 'atomic': p.next()
            t, v = p.tv(); p.need(','); pt, pv = p.tv()
            m = re.search(r', align (\d+)', s)
            return Inst(op, None, t, (v, pv, int(m.group(1)) if m else 0), s)
        if op == 'getelementptr':
            flags(); bt = p.type(); p.need(','); base = p.tv(); idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta': break
                idx.append(p.tv())
            return Inst(op, dst, bt, (base, idx), s)
        if op == 'extractelement':
            v = p.tv(); p.need(','); i = p.tv(); return Inst(op, dst, v[0], (v[1], i), s)
        if op == 'insertelement':
            v = p.tv(); p.need(','); e = p.tv(); p.need(','); i = p.tv(); return Inst(op, dst, v[0], (v[1], e[1], i), s)
        if op == 'shufflevector':
            a = p.tv(); p.need(','); b = p.tv(); p.need(','); m = p.tv()
            return Inst(op, dst, a[0], (a[1], b[1], m), s)
        if op in ('extractvalue',):
            v = p.tv(); idx = []
            while p.eat(','): idx.append(int(p.next()[1]))
            return Inst(op, dst, v[0], (v[1], idx), s)
        if op == 'insertvalue':
            v = p.tv(); p.need(','); e = p.tv(); idx = []
            while p.eat(','): idx.append(int(p.next()[1]))
            return Inst(op, dst, v[0], (v[1], e, idx), s)
        if op == 'phi':
            flags(); t = p.type(); inc = []
            while True:
                p.need('['); v = p.value(t); p.need(','); b = unq(p.next()[1]); p.need(']'); inc.append((b, v))
                if not p.eat(','): break
                if p.peek()[0] == 'meta': break
            return Inst(op, dst, t, inc, s)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); return Inst('br', None, None, (None, unq(p.next()[1]), None), s)
            c = p.tv(); p.need(','); p.next(); a = unq(p.next()[1]); p.need(','); p.next(); b = unq(p.next()[1])
            return Inst('br', None, None, (c[1], a, b), s)
        if op == 'switch':
            v = p.tv(); p.need(','); p.next(); d = unq(p.next()[1]); p.need('['); cs = []
            while not p.eat(']'):
                t = p.type(); x = p.value(t); p.need(','); p.next(); cs.append((x[1], unq(p.next()[1])))
            return Inst('switch', None, v[0], (v[1], d, cs), s)
        if op == 'ret':
            if p.peek()[1] == 'void': return Inst('ret', None, 'void', (None,), s)
            t, v = p.tv(); return Inst('ret', None, t, (v,), s)
        if op == 'unreachable': return Inst(op, None, None, (), s)
        if op == 'freeze':
            t, v = p.tv(); return Inst(op, dst, t, (v,), s)
        if op in ('call','invoke'):
            flags()
            while p.peek()[1] in FN_WORDS or p.peek()[1] in FMF: p.next()
            p.skip_attrs(); rt = p.type()
            if isinstance(rt, tuple) and rt[0] == 'fn': rt = rt[1]
            k, v = p.next()
            callee = ('glob', unq(v)) if k == 'glob' else ('reg', unq(v)) if k == 'loc' else ('asm', v)
            if callee[0] == 'asm':
                return Inst('asm', dst, rt, (), s)
            p.need('('); args = []
            if not p.eat(')'):
                while True:
                    t = p.type(); at = p.skip_attrs()
                    if t == 'metadata':
                        # skip to matching , or )
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            x = p.next()[1]
                            if x == '(': d += 1
                            elif x == ')': d -= 1
                        args.append((t, None, at))
                    else: args.append((t, p.value(t), at))
                    if p.eat(')'): break
                    p.need(',')
            normal = None
            if op == 'invoke':
                m = re.search(r'to label %("[^"]+"|[-\w$.]+) unwind label', s); normal = m.group(1).strip('"')
            return Inst(op, dst, rt, (callee, args, normal), s)
        if op in ('landingpad','resume','fence','catchswitch','catchpad','cleanuppad'):
            return Inst(op, dst, None, (), s)
        if op in ('atomicrmw','cmpxchg','va_arg'): return Inst('unsup', dst, None, (), s)
        raise IRError('inst %r' % s)
    # ---------------------------------------------------------------- layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named': t = self.types[t[1]]
        return t
    def layout(self, t):
        """(size, align, offsets or None)"""
        key = t
        try:
            r = self._lay.get(key)
        except TypeError:
            r = None
        if r: return r
        t = self.resolve(t)
        if t == 'ptr' or t == 'double': r = (8, 8, None)
        elif t == 'float': r = (4, 4, None)
        elif t == 'x86_fp80': r = (16, 16, None)
        elif t[0] == 'i':
            n = t[1]; b = (n + 7) // 8
            a = 1
            while a < b: a *= 2
            r = (a, min(a, 16), None)
        elif t[0] == 'vec':
            s = self.bits(t[2]) * t[1] // 8
            a = 1
            while a < s: a *= 2
            r = (a, a, None)
        elif t[0] == 'arr':
            s, a, _ = self.layout(t[2]); r = (s * t[1], a, None)
        elif t[0] == 'struct':
            off = 0; al = 1; offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a; offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else: raise IRError('layout %r' % (t,))
        self._lay[key] = r
        return r
    def sizeof(self, t): return self.layout(t)[0]
    def bits(self, t):
        t = self.resolve(t)
        if t == 'float': return 32
        if t in ('double','ptr'): return 64
        if t[0] == 'i': return t[1]
        if t[0] == 'vec': return t[1] * self.bits(t[2])
        return self.sizeof(t) * 8
    def succs(self, f):
        if f._succ is None:
            f._succ = {}
            for b in f.blocks.values():
                t = b.insts[-1]
                if t.op == 'br': ss = [x for x in (t.a[1], t.a[2]) if x]
                elif t.op == 'switch': ss = [t.a[1]] + [x for _, x in t.a[2]]
                elif t.op == 'invoke': ss = [t.a[2]]
                else: ss = []
                f._succ[b.name] = ss
        return f._succ
    def rpo(self, f):
        if f._rpo is None:
            su = self.succs(f); seen = set(); post = []
            st = [(f.order[0], iter(su[f.order[0]]))]; seen.add(f.order[0])
            while st:
                n, it = st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m); st.append((m, iter(su[m]))); break
                else: post.append(n); st.pop()
            post.reverse(); f._rpo = {n: i for i, n in enumerate(post)}
        return f._rpo
