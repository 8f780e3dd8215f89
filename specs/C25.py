"""C25: color space conversions"""
from specs.common import *
INCLUDES = ['math/color-space.hpp']
VARIANTS = ['sse2', 'avx2']
THOROUGH_VARIANTS = ['sse2', 'sse41', 'avx2']
ASSUMPTIONS = ['std::pow is an uninterpreted function']
out = []
def C(name, ins, body, outs, ens, req=None, **k): out.append(Contract(name, ins, body, outs, ens, requires=req, sem='real', tol=k.pop('tol', 1e-3), **k))
# sRGB primaries, D65 white (Lindbloom), rows
M = [[0.4124564, 0.3575761, 0.1804375], [0.2126729, 0.7151522, 0.0721750], [0.0193339, 0.1191920, 0.9503041]]
N = [[3.2404542, -1.5371385, -0.4985314], [-0.9692660, 1.8760108, 0.0415560], [0.0556434, -0.2040259, 1.0572252]]
def ap(m, v): return [sum((f32(m[r][c]) * v[c] for c in range(3)), R.of(0)) for r in range(3)]
def near(a, b, s): return And(a - b <= s, b - a <= s)
def size(v): return rabs(v[0]) + rabs(v[1]) + rabs(v[2])
E5 = Fraction(1, 100000)
C('rgbToXyz', 'f32x4 c', 'r = rgbToXyz(c);', 'f32x4 r', lambda I, O: [('component %d' % i, O.r[i].eq(e)) for i, e in enumerate(ap(M, I.c))])
C('xyzToRgb', 'f32x4 c', 'r = xyzToRgb(c);', 'f32x4 r', lambda I, O: [('component %d' % i, O.r[i].eq(e)) for i, e in enumerate(ap(N, I.c))])
C('rgb_xyz_rgb', 'f32x4 c', 'r = xyzToRgb(rgbToXyz(c)); s = rgbToXyz(xyzToRgb(c));', 'f32x4 r, f32x4 s', lambda I, O: [f for i in range(3) for f in (('rgb component %d' % i, near(O.r[i], I.c[i], size(I.c) * E5)), ('xyz component %d' % i, near(O.s[i], I.c[i], size(I.c) * E5)))], tol=1e-6)
xs = lambda v: v[0] + v[1] + v[2]
C('xyzToYxy', 'f32x4 c', 'r = xyzToYxy(c);', 'f32x4 r', lambda I, O: [('luminance', O.r[0].eq(I.c[1])), ('x chromaticity', (O.r[1] * xs(I.c)).eq(I.c[0])), ('y chromaticity', (O.r[2] * xs(I.c)).eq(I.c[1]))], lambda I: [xs(I.c).ne(0)])
C('xyz_yxy_xyz', 'f32x4 c', 'r = yxyToXyz(xyzToYxy(c));', 'f32x4 r', lambda I, O: [('component %d' % i, O.r[i].eq(I.c[i])) for i in range(3)], lambda I: [xs(I.c).ne(0), I.c[1].ne(0)])
C('yxy_xyz_yxy', 'f32x4 c', 'r = xyzToYxy(yxyToXyz(c));', 'f32x4 r', lambda I, O: [('component %d' % i, O.r[i].eq(I.c[i])) for i in range(3)], lambda I: [I.c[0].ne(0), I.c[2].ne(0)])
def lum(c): return ap(M, c)
C('rgbToYxy', 'f32x4 c', 'r = rgbToYxy(c); s = xyzToYxy(rgbToXyz(c)); t = yxyToRgb(c); u = xyzToRgb(yxyToXyz(c));', 'f32x4 r, f32x4 s, f32x4 t, f32x4 u',
  lambda I, O: [('rgb to Yxy component %d' % i, O.r[i].eq(O.s[i])) for i in range(3)] + [('Yxy to rgb component %d' % i, O.t[i].eq(O.u[i])) for i in range(3)], lambda I: [xs(lum(I.c)).ne(0), I.c[2].ne(0)])
C('rgb_yxy_rgb', 'f32x4 c', 'r = yxyToRgb(rgbToYxy(c));', 'f32x4 r', lambda I, O: [('component %d' % i, near(O.r[i], I.c[i], size(I.c) * E5)) for i in range(3)], lambda I: [xs(lum(I.c)).ne(0), lum(I.c)[1].ne(0)], tol=1e-6)
p = lambda b, e: uf('pow', b, e)
C('rgbToSrgb', 'f32x4 c', 'r = rgbToSrgb(c);', 'f32x4 r', lambda I, O: [('alpha', O.r[3].eq(I.c[3]))] + [f for i in range(3) for f in (('linear segment %d' % i, Implies(I.c[i] <= f32(0.0031308), O.r[i].eq(I.c[i] * f32(12.92)))), ('power segment %d' % i, Implies(I.c[i] > f32(0.0031308), O.r[i].eq(f32(1.055) * p(I.c[i], f32(1 / to_f32(2.4))) - f32(0.055)))))])
C('srgbToRgb', 'f32x4 c', 'r = srgbToRgb(c);', 'f32x4 r', lambda I, O: [('alpha', O.r[3].eq(I.c[3]))] + [f for i in range(3) for f in (('linear segment %d' % i, Implies(I.c[i] <= f32(0.04045), near(O.r[i] * f32(12.92), I.c[i], rabs(I.c[i]) * E5))), ('power segment %d' % i, Implies(I.c[i] > f32(0.04045), Or(O.r[i].eq(p((I.c[i] + f32(0.055)) * f32(1 / to_f32(1.055)), f32(2.4))), O.r[i].eq(p((I.c[i] + f32(0.055)) / f32(1.055), f32(2.4)))))))])
CONTRACTS = out
