SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, prop=prop, edits=[(('include/math/' + f) if f.endswith('hpp') else f, a, b) for f, a, b in edits], needs=needs, breaks=breaks, demo=demo, **k))
S('c01-int-compare-by-subtraction', 'C01', [('simd/vector/int.hpp', 'return _mm_cmplt_epi32(data, v.data);', 'return _mm_srai_epi32(_mm_sub_epi32(data, v.data), 31);')],
  'operands whose difference overflows 32 bits', 'i32x4 operator< is decided by the sign of a wrapping difference',
  '''#include "math/vector.hpp"
using namespace math;
int main() { i32x4 a(-2147483647, 1, 2147483647, 0), b(5, 2, -7, 0); u32x4 r = a < b;
 return r.getX() == 0xffffffffu && r.getY() == 0xffffffffu && r.getZ() == 0u && r.getW() == 0u ? 0 : 1; }''')
S('c02-divide-by-reciprocal', 'C02', [('vector/float.hpp', 'constexpr float3 operator/(float n) const noexcept { return float3(x / n, y / n, z / n); }', 'constexpr float3 operator/(float n) const noexcept { float i = 1.0f / n; return float3(x * i, y * i, z * i); }')],
  'a divisor whose reciprocal rounds (or overflows)', 'float3 / float is no longer the correctly rounded quotient',
  '''#include "math/vector.hpp"
using namespace math;
int main() { for (int k = 1; k < 2000; k++) { volatile float n = 3.0f + k * 0.37f; float3 v(1.0f, 7.0f, 0.1f + k), r = v / n;
 volatile float x = v.x / n, y = v.y / n, z = v.z / n; if (r.x != x || r.y != y || r.z != z) return 1; } return 0; }''')
S('c07-inverse-length', 'C07', [('quaternion.hpp', 'return conjugate(q) / dot4(q, q);  }', 'return conjugate(q) / length4(q);  }')],
  'a quaternion that is not of unit length', 'inverse() divides by the length instead of the squared length',
  '''#include "math/quaternion.hpp"
#include <cmath>
using namespace math;
int main() { quat q(1.0f, 2.0f, -1.0f, 0.5f); quat p = q * inverse(q);
 return std::fabs(p.getX()) < 1e-4f && std::fabs(p.getY()) < 1e-4f && std::fabs(p.getZ()) < 1e-4f && std::fabs(p.getW() - 1.0f) < 1e-4f ? 0 : 1; }''')
S('c08-extract-quat-dominant-z', 'C08', [('matrix/transform.hpp', '(m.c1.getZ() + m.c2.getY()) * mult, biggestVal, (m.c0.getY() - m.c1.getX()) * mult);', '(m.c1.getZ() + m.c2.getY()) * mult, biggestVal, (m.c1.getX() - m.c0.getY()) * mult);')],
  'a rotation matrix whose dominant quaternion component is z and whose w is not zero', 'extractQuat returns w with the wrong sign',
  '''#include "math/matrix/transform.hpp"
#include <cmath>
using namespace math;
int main() { quat q = normalize(quat(0.2f, -0.1f, 0.9f, 0.35f)); quat p = extractQuat(rotate(q)); float s = dot4(p, q);
 return std::fabs(std::fabs(s) - 1.0f) < 1e-4f ? 0 : 1; }''')
S('c09-look-at-up', 'C09', [('matrix/transform.hpp', 'f32x4(u, -dot3(u, from)),', 'f32x4(u, -dot3(up, from)),')],
  'an up vector that is not perpendicular to the view direction, and an eye away from the origin', 'lookAt() does not map the eye to the origin',
  '''#include "math/matrix/transform.hpp"
#include <cmath>
using namespace math;
int main() { f32x4 from(1.0f, 5.0f, 2.0f), to(-2.0f, 1.0f, 4.0f); f32x4 e = lookAt(from, to) * f32x4(from, 1.0f);
 return std::fabs(e.getX()) < 1e-4f && std::fabs(e.getY()) < 1e-4f && std::fabs(e.getZ()) < 1e-4f ? 0 : 1; }''')
S('c10-near-plane', 'C10', [('plane.hpp', 'planes[4] = Plane(f32x4(t.c2,        0.0f),       c2W, false);', 'planes[4] = Plane(f32x4(t.c3 + t.c2, 0.0f), c3W + c2W, false);')],
  'a point between the eye and the near plane', 'the near plane is that of a -1..1 depth range, the projections use 0..1',
  '''#include "math/plane.hpp"
#include "math/matrix/projection.hpp"
using namespace math;
int main() { f32x4x4 m = (f32x4x4)calcPerspProj(1.0f, 1.5f, 1.0f, 100.0f); Plane p[6]; extractFrustumPlanes(m, p);
 float d = distance3(p[4], f32x4(0.0f, 0.0f, 0.7f)); float e = distance3(p[4], f32x4(0.0f, 0.0f, 1.5f)); return d < 0.0f && e > 0.0f ? 0 : 1; }''')
S('c12-inside-corner', 'C12', [('aabb.hpp', 'f32x4(aabb.getMax(), 0.0f) >= f32x4(other.getMax(), 0.0f));', 'f32x4(aabb.getMax(), 0.0f) >= f32x4(other.getMin(), 0.0f));')],
  'a box that starts inside and ends outside', 'isInside(box, box) accepts a box that sticks out at its maximum',
  '''#include "math/aabb.hpp"
using namespace math;
int main() { Aabb a(f32x4(0.0f), f32x4(4.0f)), b(f32x4(1.0f), f32x4(2.0f)), c(f32x4(1.0f), f32x4(2.0f, 5.0f, 2.0f)); return isInside(a, b) && !isInside(a, c) ? 0 : 1; }''')
S('c12-area', 'C12', [('aabb.hpp', 'auto extentYZZ = extent.swizzle<SwY, SwZ, SwZ>();', 'auto extentYZZ = extent.swizzle<SwY, SwZ, SwY>();')],
  'a box whose height and depth differ', 'calcArea() counts one pair of faces as y*y',
  '''#include "math/aabb.hpp"
using namespace math;
int main() { Aabb a(f32x4(0.0f), f32x4(1.0f, 2.0f, 4.0f)), b(f32x4(0.0f), f32x4(2.0f)); return a.calcArea() == 28.0f && b.calcArea() == 24.0f ? 0 : 1; }''')
S('c13-parallel-touch', 'C13', [('aabb.hpp', 'auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());', 'auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin >= aabb.getMax());')], 
  'a ray parallel to an axis that runs exactly in the maximum face', 'raycast2 misses a box a parallel ray touches',
  '''#include "math/aabb.hpp"
using namespace math;
int main() { Aabb a(f32x4(0.0f), f32x4(1.0f)); Ray r(f32x4(-1.0f, 1.0f, 0.5f), f32x4(1.0f, 0.0f, 0.0f)); Ray q(f32x4(-1.0f, 0.0f, 0.5f), f32x4(1.0f, 0.0f, 0.0f));
 return raycast(a, r) && raycast(a, q) ? 0 : 1; }''', nth=0)
S('c14-wrong-edge', 'C14', [('source/aabb.cpp', 'r = extX * std::abs(f2Y) + extY * std::abs(f2X);', 'r = extX * std::abs(f2Y) + extY * std::abs(f1X);')],
  'a triangle separated from the box only by the axis z x edge 2, or falsely separated by it', 'the projected radius of the box on one of the thirteen axes uses another edge',
  '''#include "math/aabb.hpp"
#include <random>
#include <cmath>
using namespace math;
// a triangle with a vertex, or its centroid, inside the box overlaps it
int main() { std::mt19937 g(1); std::uniform_real_distribution<float> u(-1.0f, 1.0f);
 for (int i = 0; i < 2000000; i++) { f32x4 e(0.1f + std::fabs(u(g)), 0.1f + std::fabs(u(g)), 0.1f + std::fabs(u(g))); f32x4 p[3];
  for (auto& x : p) x = f32x4(u(g) * 3.0f, u(g) * 3.0f, u(g) * 3.0f);
  float a = std::fabs(u(g)), b = std::fabs(u(g)) * (1.0f - a); f32x4 q = p[0] * (1.0f - a - b) + p[1] * a + p[2] * b;
  bool in = std::fabs(q.getX()) < 0.99f * e.getX() && std::fabs(q.getY()) < 0.99f * e.getY() && std::fabs(q.getZ()) < 0.99f * e.getZ();
  if (in && !isAabbIntersected(f32x4::zero, e, Triangle(p[0], p[1], p[2]))) return 1; } return 0; }''')
S('c15-corner-twice', 'C15', [('aabb.hpp', '''auto d1 = f32x4(distance3(plane, v4), distance3(plane, v5), distance3(plane, v6), distance3(plane, v7)); // TODO: use f32x4x8?''', '''auto d1 = f32x4(distance3(plane, v4), distance3(plane, v5), distance3(plane, v7), distance3(plane, v7)); // TODO: use f32x4x8?''')],
  'a transformed box whose corner (max, max, min) alone is in front of a plane', 'a visible box is culled',
  '''#include "math/aabb.hpp"
using namespace math;
int main() { Aabb a(f32x4(-1.0f), f32x4(1.0f)); Plane p(f32x4(1.0f, 1.0f, -1.0f), -2.5f, false), q(f32x4(1.0f, 1.0f, -1.0f), -3.5f, false);
 return !isBehindFrustum(&p, 1, a, f32x4x4::identity) && isBehindFrustum(&q, 1, a, f32x4x4::identity) ? 0 : 1; }''')
S('c18-greater-ignores-build', 'C18', [('version.hpp', 'return (uint32)*this >= (uint32)v; }', 'return *this > v || major == v.major && minor == v.minor && patch == v.patch; }')],
  'versions that differ only in the build part', '>= ignores the build part',
  '''#include "math/version.hpp"
using namespace math;
int main() { Version a(1, 2, 3, 4), b(1, 2, 3, 5); return b >= a && !(a >= b) && a >= a ? 0 : 1; }''')
S('c05-multiply3x3-matrix', 'C05', [('simd/matrix/float.hpp', 'r = MATH_SIMD_FMA(a.c2.data, _mm_shuffle_ps(c, c, _MM_SHUFFLE(2, 2, 2, 2)), r);\n\t\tresult[i].data = r;', 'r = MATH_SIMD_FMA(a.c2.data, _mm_shuffle_ps(c, c, _MM_SHUFFLE(2, 1, 2, 2)), r);\n\t\tresult[i].data = r;')],
  'a right matrix whose y and z rows differ', 'the z components of multiply3x3(a, b) use b.y for the third column',
  '''#include "math/matrix.hpp"
using namespace math;
int main() { f32x4x4 m(f32x4(1.0f, 2.0f, 3.0f, 0.0f), f32x4(4.0f, 5.0f, 6.0f, 0.0f), f32x4(7.0f, 8.0f, 9.0f, 0.0f), f32x4(0.0f)); f32x4x4 n = f32x4x4::identity; n.c0 = f32x4(1.0f, 2.0f, 4.0f);
 f32x4 r = multiply3x3(m, n).c0; return r.getX() == 37.0f && r.getY() == 44.0f && r.getZ() == 51.0f ? 0 : 1; }''', nth=0)
S('c11-line-far-end', 'C11', [('line.hpp', 'auto t = dot3(point - a, d) / dot3(d, d);\n\treturn fma(d, f32x4(std::clamp(t, 0.0f, 1.0f)), a);', 'auto t = dot3(point - a, d) / dot3(d, d);\n\treturn fma(d, f32x4(std::max(t, 0.0f)), a);')],
  'a point past the end of the segment', 'closestPoint(Line) leaves the segment at its far end',
  '''#include "math/line.hpp"
using namespace math;
int main() { Line l(f32x4(0.0f), f32x4(2.0f, 0.0f, 0.0f)); f32x4 a = closestPoint(l, f32x4(5.0f, 1.0f, 0.0f)), b = closestPoint(l, f32x4(1.0f, 1.0f, 0.0f)), c = closestPoint(l, f32x4(-4.0f, 1.0f, 0.0f));
 return a.getX() == 2.0f && b.getX() == 1.0f && c.getX() == 0.0f ? 0 : 1; }''')
