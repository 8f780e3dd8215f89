"""Mechanical extraction: contract harnesses are compiled against the headers and sources in /repo on every run."""
import os, subprocess, tempfile, hashlib, ctypes
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
VARIANTS = {'sse2': [], 'debug': ['-UNDEBUG'], 'sse41': ['-msse4.1'], 'avx2': ['-march=haswell']}
DEFS = ['-D_USE_MATH_DEFINES', '-DNOMINMAX', '-DNDEBUG']

# C++ type -> (size, align, [(path, offset, leaf)])
def _vec(n, leaf): return [((i,), 4 * i, leaf) for i in range(n)]
T = {
 'float': (4, 4, [((), 0, 'f32')]), 'double': (8, 8, [((), 0, 'f64')]),
 'int32': (4, 4, [((), 0, 32)]), 'uint32': (4, 4, [((), 0, 32)]), 'uint8': (1, 1, [((), 0, 8)]), 'int8': (1, 1, [((), 0, 8)]),
 'uint16': (2, 2, [((), 0, 16)]), 'int16': (2, 2, [((), 0, 16)]), 'uint64': (8, 8, [((), 0, 64)]), 'int64': (8, 8, [((), 0, 64)]),
 'bool': (1, 1, [((), 0, 'bool')]),
}
CNAME = {'int32': 'int32_t', 'uint32': 'uint32_t', 'uint8': 'uint8_t', 'int8': 'int8_t', 'uint16': 'uint16_t', 'int16': 'int16_t', 'uint64': 'uint64_t', 'int64': 'int64_t'}
for n in (2, 3, 4):
    for b, l in (('float', 'f32'), ('int', 32), ('uint', 32)):
        T['%s%d' % (b, n)] = (4 * n, 4, _vec(n, l)); CNAME['%s%d' % (b, n)] = 'math::%s%d' % (b, n)
    # column-major square matrices of plain vectors
    T['float%dx%d' % (n, n)] = (4 * n * n, 4, [((c, r), 4 * (n * c + r), 'f32') for c in range(n) for r in range(n)])
    CNAME['float%dx%d' % (n, n)] = 'math::float%dx%d' % (n, n)
for b, l in (('f32x4', 'f32'), ('i32x4', 32), ('u32x4', 32), ('quat', 'f32')):
    T[b] = (16, 16, _vec(4, l)); CNAME[b] = 'math::' + b
T['f32x4x4'] = (64, 16, [((c, r), 16 * c + 4 * r, 'f32') for c in range(4) for r in range(4)]); CNAME['f32x4x4'] = 'math::f32x4x4'
T['float4x3'] = (48, 4, [((c, r), 12 * c + 4 * r, 'f32') for c in range(4) for r in range(3)]); CNAME['float4x3'] = 'math::float4x3'
def arr(t, n):
    """array type 't[n]'"""
    k = '%s[%d]' % (t, n)
    if k not in T:
        s, a, leaves = T[t]
        T[k] = (s * n, a, [((i,) + p, i * s + o, l) for i in range(n) for p, o, l in leaves])
    return k
def decl(t, name):
    if '[' in t:
        b, n = t[:-1].split('['); return '%s %s[%s]' % (CNAME.get(b, b), name, n)
    return '%s %s' % (CNAME.get(t, t), name)
def struct_layout(fields):
    off = 0; out = []
    for n, t in fields:
        if '[' in t and t not in T: arr(t[:t.index('[')], int(t[t.index('[') + 1:-1]))
        off = (off + 15) // 16 * 16; out.append((n, t, off)); off += T[t][0]
    return out, max(16, (off + 15) // 16 * 16)

def source(contracts, includes, prelude=''):
    L = ['#include <cassert>', '#include <cstdlib>', '#include <cstddef>', '#include <cstdint>']
    L += ['#include "%s"' % i for i in includes]
    L.append(prelude)
    for c in contracts:
        for S, fs in (('In', c.ins), ('Out', c.outs)):
            lay, size = struct_layout(fs)
            L.append('struct alignas(16) %s_%s { %s };' % (S, c.name, ' '.join('alignas(16) %s;' % decl(t, n) for n, t, _ in lay) or 'char dummy_;'))
            for n, t, o in lay: L.append('static_assert(offsetof(%s_%s, %s) == %d && sizeof(%s_%s::%s) == %d, "layout");' % (S, c.name, n, o, S, c.name, n, T[t][0]))
        L.append('extern "C" void h_%s(const In_%s* i_, Out_%s* o_) {' % (c.name, c.name, c.name))
        for n, t in c.ins: L.append('  [[maybe_unused]] const auto& %s = i_->%s;' % (n, n))
        for n, t in c.outs: L.append('  [[maybe_unused]] auto& %s = o_->%s;' % (n, n))
        L.append('  using namespace math;')
        L.append('  ' + c.body); L.append('}')
    return '\n'.join(L) + '\n'

class BuildError(Exception): pass
def run(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stderr[-4000:])
    return p.stdout
def base(variant): return DEFS + ['-std=c++17', '-I' + REPO + '/include'] + VARIANTS[variant]
def to_ir(src_path, variant, out, extra=()):
    ll = out + '.raw.ll'
    run(['clang++'] + base(variant) + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names' if False else '-w', '-S', '-emit-llvm', src_path, '-o', ll])
    run([LLVM + 'opt', '-S', '-passes=sroa,instsimplify,simplifycfg', ll, '-o', out])
    os.unlink(ll)
    return open(out).read()
def to_so(src_paths, variant, out, extra=()):
    run(['g++'] + base(variant) + list(extra) + ['-O1', '-frounding-math', '-w', '-fPIC', '-shared'] + list(src_paths) + ['-o', out])
    return ctypes.CDLL(out)
def demangle(names):
    names = list(names)
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.split('\n')))
