#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in git as the generated file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
I = "include/math/"
prop("C01", "Integer vectors act component-wise, modulo 2^32",
 "Every arithmetic, bitwise, shift, comparison, min/max/clamp/abs/sign, conversion and indexing operation of the signed and unsigned 2, 3 and 4 component integer vectors (plain and SIMD), in its vector-vector, vector-scalar, scalar-vector and compound-assignment form, yields in each component exactly the 32-bit machine-integer operation on the corresponding components, and touches no other component. Unsigned types order their components as unsigned numbers over the full range 0 to 2^32-1, signed types as signed numbers. The result does not depend on which instruction set the header was compiled for.",
 ["inputs", "configurations"], "all 2^32 values of every component and scalar; baseline SSE2, SSE4.1 and AVX2 builds",
 "Tests compare a few small positive constants in one build configuration; sign-bit values, wrap-around and the other instruction-set branch are never executed.",
 [I+"vector/int.hpp", I+"vector/uint.hpp", I+"simd/vector/int.hpp", I+"simd/vector/uint.hpp"],
 [("component-wise operators", I+"vector/int.hpp, "+I+"vector/uint.hpp"), ("SSE2/SSE4.1 operators", I+"simd/vector/int.hpp, "+I+"simd/vector/uint.hpp")])
prop("C02", "Float vectors act component-wise with exact IEEE-754 results",
 "Every operator (+ - * / unary -, compound and scalar forms), comparison, equality, indexing, construction and conversion between the float vector types (2, 3, 4 components and SIMD) gives in each component exactly the IEEE-754 single-precision operation on the corresponding components, including signed zero, infinities and NaN in comparisons; comparison results are all-ones or all-zeros masks. Component-wise min, max, clamp, abs, sign, sqrt, floor, ceil, trunc, fused multiply-add (up to the one rounding a fused operation saves) and select follow their mathematical definition in every component, for non-NaN operands. The elementary functions of the plain vectors (power, exponential, logarithm, trigonometric, hyperbolic and remainder functions) apply the scalar library function to each component.",
 ["inputs", "configurations"], "all float bit patterns per component; SSE2, SSE4.1 and AVX2 builds",
 "Tests use a handful of small finite values; NaN, infinities, signed zeros, lanes 3 and 4, and the alternative instruction-set branches are not reached.",
 [I+"vector/float.hpp", I+"simd/vector/float.hpp"],
 [("component-wise operators", I+"vector/float.hpp"), ("SIMD operators", I+"simd/vector/float.hpp")])
prop("C03", "Boolean masks: select and any/all predicates",
 "For canonical masks (each component all-ones or all-zeros) the all-true, any-true, all-false and any-false predicates and the per-component truth bits report exactly the components that are true, and select(c, t, f) returns in each component t where c is true and f where it is false, for every vector type and instruction set. Mask logic (and, or, xor, not, and-not) combines the truth values component-wise, and swizzling moves component i to the requested position without altering bits.",
 ["inputs", "configurations"], "all mask combinations and all bit patterns of the selected vectors; SSE2, SSE4.1 and AVX2 builds",
 "Tests check one or two masks; the 16 mask combinations on each type, and both SIMD code branches, are not covered.",
 [I+"simd/vector/uint.hpp", I+"simd/vector/int.hpp", I+"simd/vector/float.hpp", I+"vector/uint.hpp", I+"vector/int.hpp", I+"vector/float.hpp"],
 [("mask predicates", I+"simd/vector/uint.hpp, "+I+"vector/uint.hpp"), ("select", I+"simd/vector/float.hpp")])
prop("C04", "Dot, cross, length, distance and normalisation identities",
 "In exact arithmetic, dot is the sum of component products, cross is the right-handed 3D cross product, length squared is dot(v,v) and length its square root, distance is the length of the difference, and normalising a vector whose length is not zero returns a vector of length one pointing the same way, for 2, 3, 4 component and SIMD vectors. The 3D SIMD forms ignore the fourth component of their inputs when computing dot, length, distance and the normalised xyz. lerp(a,b,t) lies at a + t(b-a), and the 3- and 4-component minimum and maximum reductions return exactly the smallest and largest component.",
 ["inputs", "configurations"], "all real component values (rounding aside), including negative, zero and mixed signs; SSE2, SSE4.1 and AVX2 builds",
 "Tests evaluate single points; an error in one component or for one sign pattern is invisible at most points.",
 [I+"vector/float.hpp", I+"simd/vector/float.hpp", I+"common.hpp"],
 [("dot3/dot4/cross3/length/normalize", I+"simd/vector/float.hpp"), ("dot/cross/length/normalize", I+"vector/float.hpp")])
prop("C05", "Matrix algebra: products, transposes, conversions and layout",
 "In exact arithmetic matrix-matrix and matrix-vector products (2x2, 3x3, 4x4 and SIMD 4x4, including the restricted 3x3 product, and the vector-on-the-left products) equal the sums of products of linear algebra with column-major storage, elementwise operators act per element, the identity is neutral and transposition swaps rows and columns. Constructors and conversions between matrix sizes place every element at its documented row and column, and the plain and SIMD matrices agree.",
 ["inputs", "configurations"], "all real matrices and vectors (rounding aside); SSE2, SSE4.1 and AVX2 builds",
 "Tests multiply a few constant matrices, several of which are diagonal or symmetric, so a swapped index or sign can go unnoticed.",
 [I+"matrix/float.hpp", I+"simd/matrix/float.hpp"],
 [("operator*", I+"matrix/float.hpp, "+I+"simd/matrix/float.hpp"), ("transpose", I+"matrix/float.hpp, "+I+"simd/matrix/float.hpp")])
prop("C06", "Matrix inverse: inverse(M) * M is the identity",
 "For every matrix with non-zero determinant, inverse(M) times M and M times inverse(M) equal the identity in exact arithmetic, for 2x2, 3x3, 4x4 and SIMD 4x4 matrices. The plain and the SIMD 4x4 inverse agree.",
 ["inputs", "configurations"], "all real invertible matrices (rounding aside); SSE2, SSE4.1 and AVX2 builds",
 "Tests invert one matrix; wrong cofactors cancel on sparse or symmetric inputs.",
 [I+"matrix/float.hpp", I+"simd/matrix/float.hpp"], [("inverse", I+"matrix/float.hpp, "+I+"simd/matrix/float.hpp")])
prop("C07", "Quaternions form the rotation group and agree with matrices",
 "For unit quaternions, in exact arithmetic: rotating a vector preserves length, rotating by p*q equals rotating by q and then by p, the conjugate and the inverse undo the rotation, and the matrix built from a quaternion maps every vector exactly as the quaternion does. A quaternion built from an axis and an angle rotates by that angle about that axis, one built from Euler angles is the documented composition of axis rotations, and dot and normalisation follow the 4D vector definitions.",
 ["inputs", "configurations"], "all real unit quaternions, vectors, axes and angles (rounding aside); SSE2, SSE4.1 and AVX2 builds",
 "Tests check a few axis-aligned rotations; composition order, handedness and sign errors vanish for such inputs.",
 [I+"quaternion.hpp", I+"matrix/transform.hpp"], [("quat operators", I+"quaternion.hpp"), ("rotate(quat)", I+"matrix/transform.hpp")])
prop("C08", "Translation, rotation and scale compose and decompose consistently",
 "In exact arithmetic a model matrix composed from position, rotation and non-zero positive scale maps a point p to position + rotation(scale * p), the stand-alone translate, rotate and scale matrices and the overloads that apply them to an existing affine matrix equal the corresponding matrix products, and extracting translation, scale, rotation matrix and rotation quaternion from the model matrix returns the original parts (the quaternion up to sign). The rigid inverse of a rotation-translation matrix undoes it.",
 ["inputs", "configurations"], "all real positions, unit quaternions and positive scales (rounding aside); all four branches of the matrix-to-quaternion conversion",
 "Tests compose one transform; the branch of the quaternion extraction and mixed non-uniform scales are sampled at single points.",
 [I+"matrix/transform.hpp", I+"simd/matrix/float.hpp", I+"quaternion.hpp"], [("calcModel / extract*", I+"matrix/transform.hpp")])
prop("C09", "Look-at and orientation builders return proper rotations",
 "For a view direction and an up vector that are not parallel, the look-at view matrix and the look rotation matrix are rigid (their rotation part is orthonormal with determinant +1), send the eye to the origin, and send the viewing direction to the documented forward axis with up kept in the half plane of the up axis. The look-at quaternion describes the same rotation as the look rotation built for the same direction.",
 ["inputs", "configurations"], "all real eye, target and up vectors in general position (rounding aside)",
 "The existing tests do not exercise look-at at all.",
 [I+"matrix/transform.hpp"], [("lookAt / rotate / lookAtQuat", I+"matrix/transform.hpp")])
prop("C10", "Projections map the view volume to clip space; frustum planes match",
 "In exact arithmetic the perspective and orthographic projections send points on the near and far planes and on the side planes of the requested view volume to the documented clip-space depths and edges (reverse depth and flipped Y as documented), the infinite variants being their limits. The six planes extracted from any projection matrix have non-negative signed distance at a point exactly when that point satisfies the corresponding clip-space inequality; normalising planes rescales each plane by a positive factor so that its normal has length one without moving it.",
 ["inputs", "configurations"], "all real field of view, aspect, near/far and box parameters, all matrices and points (rounding aside), any number of planes",
 "The existing tests never exercise projections or plane extraction.",
 [I+"matrix/projection.hpp", I+"plane.hpp"], [("calcPerspProj*, calcOrthoProj*", I+"matrix/projection.hpp"), ("extractFrustumPlanes / normalizePlanes", I+"plane.hpp")])
prop("C11", "Closest-point queries return the nearest point of the shape",
 "For every query point, the closest-point functions for line segment, ray, plane, triangle, sphere and axis-aligned box return a point that belongs to the shape (the sphere's surface), and no other point of the shape is nearer, in exact arithmetic and for non-degenerate shapes. The plane built from a triangle contains all three vertices, signed distances to it are zero exactly on that plane, and the point-in-triangle test accepts exactly the points of the triangle among the points of its plane.",
 ["inputs", "configurations"], "all real shapes and query points, in every Voronoi region of the shape (rounding aside)",
 "The existing tests do not touch geometry queries.",
 [I+"line.hpp", I+"ray.hpp", I+"plane.hpp", I+"triangle.hpp", I+"sphere.hpp", I+"aabb.hpp"], [("closestPoint overloads", "the files above"), ("isInside(Triangle)", I+"triangle.hpp")])
prop("C12", "Boxes and spheres: containment, overlap, extension and measures",
 "Box and sphere containment and overlap tests answer exactly the geometric question on the x, y and z axes alone: a point is inside a box when each coordinate lies between min and max inclusive, two boxes overlap when their intervals meet on all three axes, spheres overlap when the centre distance does not exceed the radius sum, a sphere overlaps a box when the nearest box point is nearer than the radius. Extending a box yields the smallest box containing the old box and the new point or box, shrinking yields the intersection, and size, position, extent, area and volume getters and setters are mutually consistent; the checked setter accepts exactly the ordered corner pairs and otherwise leaves the box unchanged.",
 ["inputs", "configurations"], "all finite coordinates (comparisons bit-exact), including touching and degenerate boxes and arbitrary unused fourth components",
 "The existing tests do not touch boxes or spheres.",
 [I+"aabb.hpp", I+"sphere.hpp"], [("Aabb methods, isInside, isIntersected", I+"aabb.hpp"), ("isInside, isIntersected", I+"sphere.hpp")])
prop("C13", "Ray-box casting reports exactly the slab intersection",
 "Casting a ray against a box reports a hit exactly when some point of the ray at non-negative distance lies in the closed box, and the returned entry and exit distances are the smallest and largest ray parameters at which the (infinite) line is inside the box, with the documented miss values otherwise; this includes rays parallel to one or two axes, rays starting inside the box and boxes behind the origin. The variants that return one distance, two distances or a boolean, and those that take a pre-inverted direction, agree with one another.",
 ["inputs", "configurations"], "all real boxes, origins and non-zero directions (rounding aside), including directions with zero components",
 "The existing tests do not cast rays.",
 [I+"aabb.hpp", I+"ray.hpp"], [("raycast1/2(I), isAabbIntersected", I+"aabb.hpp"), ("Ray::setDirection", I+"ray.hpp")])
prop("C14", "Triangle-box overlap agrees with the separating axis theorem",
 "The triangle-box test returns false exactly when one of the thirteen candidate axes (three box normals, the triangle normal and the nine edge cross products) strictly separates the triangle from the box; in particular it never rejects a triangle that shares a point with the box. Translating box and triangle together, or permuting the triangle's vertices, does not change the answer.",
 ["inputs"], "all real boxes and triangles (rounding aside), every one of the 13 axes being the only separating one",
 "The existing tests do not call the function; each axis matters only for specially placed triangles.",
 ["source/aabb.cpp"], [("isAabbIntersected", "source/aabb.cpp")])
prop("C15", "Frustum culling never hides a visible box and culls only behind a plane",
 "Given any number of planes, a box is reported behind the frustum exactly when there is a plane for which all eight (transformed) corners have negative signed distance. Hence a box with a point on the non-negative side of every plane is never culled, the result does not depend on the order of planes, and the variant with a model matrix agrees with the plain variant for the identity.",
 ["inputs"], "all real boxes, model matrices, planes and any plane count 0 to 255 (rounding aside)",
 "The existing tests do not cull anything; a corner with swapped min/max matters only for planes where that corner is the deciding one.",
 [I+"aabb.hpp", I+"plane.hpp"], [("isBehindFrustum", I+"aabb.hpp")])
prop("C16", "BVH build: memory safe, a permutation, and nodes bound their primitives",
 "For any number of primitives (boxes or triangles) and any leaf capacity, building the hierarchy never accesses memory outside its arrays, terminates, and yields an index array that is a permutation of the primitive indices. Every leaf holds a contiguous non-empty index range, the leaf ranges partition that array, inner nodes have exactly two children stored inside the node array, no node is the child of two nodes, at most 2N-1 nodes exist, and every node's box contains the boxes of all primitives below it.",
 ["inputs"], "all primitive counts, all coordinates (including coincident, very large or non-finite centroids) and leaf sizes",
 "The existing tests do not build a hierarchy; degenerate splits need particular coordinate patterns.",
 ["source/bvh.cpp", I+"bvh.hpp"], [("Bvh::create / recreate, split", "source/bvh.cpp")])
prop("C17", "BVH queries visit exactly the leaves that can matter",
 "Traversing a built hierarchy visits each node whose ancestors all were accepted by the visitor exactly once, descends into no rejected node and leaves the reusable work stack empty, and frustum collection reports exactly the leaves that are not behind the frustum and whose ancestors are not behind it. Queries never access memory outside the node array.",
 ["inputs", "histories"], "all well-formed hierarchies, visitor decisions and frusta, repeated queries on the same object",
 "The existing tests do not query a hierarchy.",
 ["source/bvh.cpp", I+"bvh.hpp"], [("Bvh::traverse / collectInFrustum", "source/bvh.cpp")])
prop("C18", "Version numbers encode, decode and order lexicographically",
 "Encoding a version to 32 bits and decoding it back is the identity in both directions, indexing addresses major, minor, patch and build in this order, and all six comparisons order versions lexicographically by major, then minor, patch and build.",
 ["inputs"], "all 2^32 versions and all pairs of versions",
 "No test constructs a version.", [I+"version.hpp"], [("Version", I+"version.hpp")])
prop("C19", "Colors: 8-bit round trips, clamping, packing and comparison",
 "Converting an 8-bit color to normalized floats and back (vector, SIMD and single-channel accessors) is the identity for all 256 channel values, converting any float (including out of range values) to 8 bits rounds to nearest after clamping to 0..1 and is monotonic, and packing to and from the 32-bit form is lossless. Comparisons hold exactly when they hold in all four channels (inequality: in at least one), for both color and scalar operands.",
 ["inputs", "configurations"], "all 256 values of each channel, all finite float inputs, all pairs of colors; SSE2, SSE4.1 and AVX2 builds",
 "No test constructs a color.", [I+"color.hpp"], [("Color", I+"color.hpp")])
prop("C20", "Hexadecimal strings: digits and round trips",
 "The hexadecimal string of an integer at the default or a larger length has exactly that length and its i-th character is the upper-case digit of the corresponding four bits, most significant first, with zeros in front; a shorter length gives the low digits. No length makes the conversion shift by the width of the value or more. Parsing the 8 (16) digits of a 32 (64) bit value returns that value.",
 ["inputs"], "all values of 8, 16, 32 and 64 bit integers and all lengths",
 "No test converts to hexadecimal.", [I+"hex.hpp"], [("toHex", I+"hex.hpp")])
prop("C21", "Packed vectors store independent small values",
 "In a packed vector of 1, 2 or 4 bit elements, setting element i to v makes reading i return v modulo the element range and leaves every other element unchanged; resizing to n elements provides storage for all n elements and touches memory only inside it. Copies, assignments and moves of a packed vector own their storage: changing one never changes another.",
 ["inputs", "histories"], "all element counts, indices, values and operation orders",
 "No test uses packed vectors.", [I+"packed-vector.hpp"], [("PackedVector", I+"packed-vector.hpp")])
prop("C22", "Enum flag operators are bitwise set operations",
 "The operators and, or, xor, complement and their assignment forms on flag enums compute the bitwise operation on the underlying values, the any-flag query is true exactly when the two values share a bit, and the one-flag query is true exactly when all set bits of its first argument are among the bits of the second.",
 ["inputs"], "all values of 8, 16, 32 and 64 bit flag enums",
 "No test declares flag operators.", [I+"flags.hpp"], [("DECLARE_ENUM_CLASS_FLAG_OPERATORS", I+"flags.hpp")])
prop("C23", "Mip counts and mip sizes are exact",
 "The mip count of an image of non-zero size is one plus the floor of the base-2 logarithm of its largest dimension, exactly, and the size at mip level m is the dimension divided by 2^m rounded down but at least one, for every level, so that the last level is the first whose size is one in every dimension.",
 ["inputs", "configurations"], "all dimensions 1 to 2^32-1 and all mip levels, for the one, two, three component and SIMD variants",
 "Tests use at most a few small powers of two.", [I+"vector/uint.hpp", I+"simd/vector/uint.hpp"], [("calcMipCount / calcSizeAtMip", I+"vector/uint.hpp")])
prop("C24", "Interpolation and periodic helpers",
 "In exact arithmetic scalar and vector lerp start at a, end at b and are affine in t, repeat maps every value into 0..1 and differs from its argument by an integer, scalar sign is -1 or +1 according to the sign bit, the three-argument min and max return the smallest and largest argument, and gain maps 0, 1/2 and 1 to themselves and is symmetric about one half. Angle conversions between degrees and radians are mutually inverse linear maps.",
 ["inputs"], "all real arguments (rounding aside)",
 "No test calls these helpers.", [I+"common.hpp", I+"angles.hpp", I+"vector/float.hpp", I+"simd/vector/float.hpp"], [("lerp, repeat, gain, sign, min, max", I+"common.hpp"), ("degrees/radians", I+"angles.hpp")])
prop("C25", "Color space conversions are mutually inverse",
 "In exact arithmetic XYZ to Yxy and back is the identity for every color with non-zero luminance and non-zero component sum, linear RGB to XYZ uses the sRGB/D65 matrix (so that white maps to the D65 white point) and RGB to XYZ and back is the identity to within the published matrix precision (1e-5), and the sRGB transfer functions apply the documented linear segment up to the threshold and the power segment above it, per component, leaving alpha untouched.",
 ["inputs", "configurations"], "all real colors (rounding aside)",
 "No test converts color spaces.", [I+"color-space.hpp"], [("rgbToXyz, xyzToYxy, rgbToSrgb and inverses", I+"color-space.hpp")])
prop("C26", "Spherical harmonics: basis values and rotation",
 "The nine spherical-harmonics basis values of a direction equal the documented polynomials, and rotating the band-1 and band-2 coefficients by a rotation matrix commutes with evaluation: evaluating the rotated coefficients at the rotated direction gives the value of the original ones at the original direction. The rotation of all bands may run in place, windowing scales every coefficient by the window of its band only, and the solid angle of a cubemap texel is the signed sum of the quadrant areas of its corners.",
 ["inputs"], "all real unit directions, coefficients and rotation matrices (rounding aside)",
 "No test touches spherical harmonics.", [I+"sh.hpp"], [("SH basis / rotate", I+"sh.hpp")])
prop("C27", "Cubemap directions, low-discrepancy sequences and BRDF samples",
 "Every cubemap face and texel coordinate maps to a unit direction inside the cone of that face, opposite faces give opposite principal axes, and the Hammersley sequence returns i/N together with the exact bit-reversed fraction of i. The importance-sampled half vectors are unit vectors in the upper hemisphere, distributed by the documented formula, for all sample coordinates and roughness in 0..1.",
 ["inputs"], "all faces, coordinates and indices (rounding aside for the real-valued parts, bit-exact for the bit reversal)",
 "No test touches the image based lighting helpers.", [I+"ibl.hpp", I+"brdf.hpp"], [("toDirection/hammersley", I+"ibl.hpp, "+I+"brdf.hpp")])
prop("C28", "Barycentric coordinates and spherical interpolation",
 "For a non-degenerate triangle and any point of its plane, the barycentric coordinates sum to one and reproduce the point as the weighted sum of the vertices, and the triangle contains exactly the points of its plane whose coordinates are all non-negative, in exact arithmetic. Spherical interpolation between unit quaternions returns a unit quaternion (up to 2^-24 when the two differ only by rounding) turned by the fraction t of the angle between them along the shorter arc; it equals the first at t=0 and the second (up to sign) at t=1.",
 ["inputs"], "all real triangles, points, quaternions and t (rounding aside)",
 "Tests interpolate at most one pair.", [I+"triangle.hpp", I+"quaternion.hpp"], [("calcBarycentric", I+"triangle.hpp"), ("slerp", I+"quaternion.hpp")])
prop("C29", "Approximated transcendental functions stay within their error bounds",
 "The SIMD exponential, logarithm, sine/cosine and fast power approximations stay within a few units in the last place (fast power: 1e-3 relative) of the mathematical functions over their documented domains.",
 ["inputs", "configurations"], "all finite float inputs",
 "Tests compare a few values with a loose tolerance.", [I+"simd/vector/float.hpp", I+"tone-mapping.hpp"], [("log, exp, sinCos, fastPow", I+"simd/vector/float.hpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
