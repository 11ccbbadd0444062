G = "geomc/"
# ---------------------------------------------------------------- containers
p("C01", "Double-ended queue equals an ideal sequence under every history",
  "After any history of pushes and pops at either end, element writes, clears, copies, moves, assignments and swaps, a double-ended queue reports the same size, contents, order, front, back, indexing and equality as an ideal sequence, also when the pushed element is one of the queue's own. This holds for every inline capacity, across wrap-around and growth. Every element the queue creates is destroyed exactly once, and copies are independent of their source.",
  [H, C], "all operation histories over all inline capacities, element types with and without trivial copies, and both directions of growth",
  "The repository's circular buffer tests run a few fixed sequences with one capacity; wrap-around position, growth point and copy/move combine to a space only generated histories reach.",
  [G+"Deque.h"], [("ring buffer index arithmetic, growth and relocation", G+"Deque.h"), ("copy/move constructors and assignment", G+"Deque.h")])
p("C02", "Small-buffer vector equals an ideal vector under every history",
  "After any history of appends, in-place constructions, removals from the end, resizes, reserves, clears, copies, moves, assignments and swaps, a small-buffer vector reports the same size and contents as an ideal vector, whether its elements live inline or on the heap and also when an appended element is one of its own, and its capacity is never below its size. Every element it creates is destroyed exactly once, and copies are independent of their source.",
  [H, C], "all operation histories over all inline capacities, including transitions between inline and heap storage",
  "The unit tests visit a handful of fixed sequences; lifetime errors need particular transitions (move while inline, reserve while partially full).",
  [G+"SmallStorage.h"], [("inline/heap switch and element relocation", G+"SmallStorage.h")])
p("C03", "Fixed and dynamic storage policies copy, share and own as documented",
  "Storage objects hold exactly the number of elements they were sized for and return what was written; an owning storage deep-copies on copy, a shared storage aliases its copies and stays alive until the last one goes, and a user-owned storage aliases the caller's memory and never frees it. Moves transfer the contents and assignments leave the target equal to the source, for static and dynamic sizes alike.",
  [H, C], "all histories of construct/copy/move/assign/write over the storage policies with static and dynamic sizes",
  "No test touches storage ownership; aliasing and lifetime only show over histories of copies and destructions.",
  [G+"Storage.h"], [("storage policy classes", G+"Storage.h")])
p("C04", "Tree keeps its structure and item order under every edit history",
  "After any history of node insertions, item insertions, erasures, flattenings, splits, clears, copies and moves, a tree's nodes, child order, parent links, per-node item runs, item order and node/item counts agree with an ideal ordered tree built by the same edits. Iteration over nodes, items and subtrees visits exactly the modelled elements in order, and copies are independent of their source.",
  [H], "all edit histories over arbitrary tree shapes, including empty nodes and deep chains",
  "The only tree regression program does not compile and no stable test covers the tree; link fix-ups depend on shape and on edit order.",
  [G+"Tree.h"], [("node/item list splicing and boundary fix-up", G+"Tree.h")])
p("C05", "Tree queries visit exactly the items whose ancestors and self match",
  "A filtered query over a tree yields exactly the items that satisfy the item test and all of whose enclosing nodes satisfy the node test, each once and in tree order, for any tree and any pair of tests.",
  [I, H], "all trees, node predicates and item predicates",
  "Untested today; skipping or double-visiting happens only for particular shapes such as empty leaves next to rejected subtrees.",
  [G+"Tree.h"], [("query iterator advance", G+"Tree.h")])
p("C06", "Hashes are the published keyed hash and respect equality",
  "The library's keyed byte hash equals the published SipHash-2-4 (64- and 128-bit output) for every key and message, and changing any byte of a message changes its hash. Objects of one type that compare equal hash equal at every digest width, with the standard hash and the library's hash agreeing, for vectors, rays, quaternions, matrices, transforms, boxes, spheres, capsules, cylinders, planes, frusta, extrusions, oriented and dilated shapes and simplices; signed zeros and unused storage do not matter, and changing one component of a value changes its hash.",
  [I], "all keys, messages of every length and all pairs of equal or single-bit-different values",
  "No test covers hashing; message tails and padding depend on length modulo eight.",
  [G+"Hash.h", G+"function/functiondetail/SipHash.cpp"], [("keyed hash rounds and tail handling", G+"function/functiondetail/SipHash.cpp"), ("per-type digests", G+"Hash.h")])
# ---------------------------------------------------------------- linalg
p("C07", "Vector arithmetic equals component-wise arithmetic in every dimension",
  "For every dimension and element type, vector addition, subtraction, negation, scaling, component-wise products and quotients, comparisons, minimum, maximum, clamping, absolute value, floor, ceiling, rounding, sums, products, extremal-component queries, mixing, resizing and element access give exactly the component-wise result, and in-place forms give the same result as the value forms. Iteration, subscripting and named components address the same elements.",
  [I, C], "all finite vectors of dimensions 2 through 8 with float, double and integer elements",
  "No stable test targets vectors themselves, and each dimension has its own hand-written specialisation.",
  [G+"linalg/vecdetail/VecBase.h", G+"linalg/vecdetail/VecStd.h", G+"linalg/vecdetail/Vec2.h", G+"linalg/vecdetail/Vec3.h", G+"linalg/vecdetail/Vec4.h"],
  [("per-dimension specialisations", G+"linalg/vecdetail/"), ("free operators", G+"linalg/vecdetail/VecBase.h")])
p("C08", "Vector geometry obeys Euclidean identities",
  "Dot and cross products, norms, distances, unit vectors, angles, projections, reflections, rotations, alignments, triangle normals, polar and spherical conversions, and the points, projections and distances of rays (taken as full lines) are what real arithmetic says, to rounding: projection and rejection sum to the original and are orthogonal, reflections and rotations preserve length, rotating by an angle turns by that angle in the stated direction about the stated axis and centre, alignment carries one unit vector to the other by the shortest rotation, and coordinate conversions round-trip. Points that are plain numbers obey the same rules as one-dimensional vectors.",
  [I], "all finite non-degenerate vectors of dimensions 2 to 6, all angles, axes and centres",
  "Sampled unit tests do not exist for these; sign and axis errors show only off the coordinate axes.",
  [G+"linalg/vecdetail/VecBase.h", G+"linalg/vecdetail/Vec2.h", G+"linalg/vecdetail/Vec3.h", G+"linalg/Ray.h", G+"linalg/Orthogonal.h"],
  [("geometric member functions", G+"linalg/vecdetail/"), ("ray point and distance queries", G+"linalg/Ray.h")])
p("C10", "Quaternions represent rotations and compose, invert and interpolate as such",
  "Unit quaternions rotate vectors rigidly by the stated angle about the stated axis (right-handed); multiplying a vector from the other side applies the inverse rotation, as does the conjugate; the product of two quaternions is the Hamilton product and rotates like the composition of their rotations; exponential, logarithm and real powers match their definitions and are mutually inverse; and conversions to axis-angle (angle in [0, 2 pi]), angular velocity and matrices describe the same rotation. Spherical interpolation between unit quaternions stays unit and turns at constant rate along the shorter arc from the first to the second, scaling a rotation scales its angle, and the shortest rotation aligning one unit direction with another, opposite ones included, does so.",
  [I], "all non-zero quaternions, axes, angles and vectors in float and double",
  "No stable test exercises quaternions; errors by a factor of two in the angle or in handedness need generic inputs.",
  [G+"linalg/Quaternion.h"], [("quaternion product, rotation and conversions", G+"linalg/Quaternion.h")])
p("C11", "Affine transforms compose, invert and act consistently",
  "For every affine transform built from translations, scales, rotations (about axes, points, quaternions and coordinate axes), direction alignments, arbitrary invertible matrices, and any history of compositions, inverse applications, inversions and enlargements, the stored matrix and the stored inverse match the mathematically composed ones to rounding; applying then unapplying restores points, directions, normals and rays; composing then applying equals applying in sequence in the documented order; normals transform so that they stay perpendicular to transformed tangents. Each constructor has the geometric effect it is named for.",
  [I, H], "all chains of elementary transforms in dimensions 2 to 5 applied to all points, directions, normals and rays",
  "Only shape tests touch transforms incidentally; inverse drift and order errors need composed generic transforms.",
  [G+"linalg/AffineTransform.h"], [("matrix/inverse pair maintenance", G+"linalg/AffineTransform.h"), ("elementary constructors", G+"linalg/AffineTransform.h")])
p("C12", "Matrix arithmetic equals its textbook definition for every matrix kind",
  "Products, accumulating products, sums, differences, scalings, transposes, comparisons and copies of matrices, and products with vectors from either side, give the entries of their textbook definitions for every combination of dense, diagonal and permutation operands, row- or column-major layout, and static, dynamic, wrapped or shared storage, including when the destination is a source or overlaps one's storage; operands are left unchanged. Operands whose dimensions do not match are rejected with an exception and leave the destination unchanged.",
  [I, C], "all matrix contents and shapes up to a bound, over operand kind, layout and static/dynamic dimension combinations",
  "The matrix tests check a few fixed shapes; kind, layout and aliasing combinations multiply beyond sampling.",
  [G+"linalg/Matrix.h", G+"linalg/mtxdetail/MatrixMult.h", G+"linalg/mtxdetail/MatrixArithmetic.h", G+"linalg/mtxdetail/MatrixCopy.h", G+"linalg/mtxtypes/DiagMatrix.h", G+"linalg/mtxtypes/SimpleMatrix.h"],
  [("product specialisations per operand kind", G+"linalg/mtxdetail/MatrixMult.h"), ("dimension checks and aliasing detection", G+"linalg/Matrix.h")])
p("C13", "Matrix rows, columns, regions and views address the same entries",
  "Element access, row, column, whole-body and region iterators, filling from ranges, identity and zero initialisation, and wrapped views of user memory all address the same entries in their documented order for every matrix kind, layout and shape. Iterator arithmetic, distance and comparison agree with the visiting order, and writing through a view changes exactly the addressed entry.",
  [I, C], "all shapes, layouts, regions and iterator offsets",
  "The iterator test walks one shape; off-by-stride errors need non-square, column-major and partial-region shapes.",
  [G+"linalg/mtxdetail/MatrixIterator.h", G+"linalg/mtxdetail/MatrixBase.h", G+"linalg/mtxdetail/MatrixLayout.h", G+"linalg/mtxtypes/SimpleMatrix.h"],
  [("row/column/region iterators", G+"linalg/mtxdetail/MatrixIterator.h"), ("layout-dependent indexing", G+"linalg/mtxdetail/MatrixLayout.h")])
p("C14", "Determinants and inverses are correct for every square matrix",
  "The determinant equals the exact determinant to rounding for every size from one up, exactly for integer matrices up to four by four, and the inverse of a well-conditioned matrix is the true inverse to rounding: for dense matrices in every layout, static or dynamic size, into a result of either layout or onto itself, and for diagonal and permutation matrices. A singular matrix whose elimination is exact (zero rows or columns, rank-deficient blocks of powers of two, and any integer matrix up to four by four) is reported as singular instead of yielding an inverse, and a regular one is not; non-square matrices have determinant zero and are rejected by inversion. Operands are left unchanged.",
  [I], "all square matrices up to size 8, including singular, nearly singular, permuted and integer-valued ones",
  "The tests use fixed small sizes; each size below five has its own hand-expanded formula and larger ones a pivoting path.",
  [G+"linalg/mtxdetail/MatrixDet.h", G+"linalg/mtxdetail/MatrixInv.h"], [("closed forms for small sizes", G+"linalg/mtxdetail/MatrixInv.h"), ("elimination for larger sizes", G+"linalg/mtxdetail/MatrixDet.h")])
p("C15", "Permutation matrices act, compose, invert and carry the right parity",
  "A permutation matrix built from any index sequence (row or column, sources or destinations), and any history of row and column swaps, compositions, transposes, copies and resets applied to it, always agrees with the dense zero-one matrix obtained by the same steps, entry by entry, in its index maps, in equality, and in products from either side. Its sign equals the parity of the permutation, whenever it is asked for. Applying an index sequence to a sequence of items in place, or asking for its sign, gives the named rearrangement or parity and leaves the index sequence as the identity.",
  [H, I], "all permutations up to size 12 and histories of swaps, products and inversions",
  "No stable test covers parity maintenance across histories.",
  [G+"linalg/mtxtypes/PermutationMatrix.h"], [("index maps and cached sign", G+"linalg/mtxtypes/PermutationMatrix.h")])
p("C16", "LU decomposition reconstructs its input and reports singularity",
  "For every matrix, square or rectangular, in either layout, the row order, unit lower-triangular and upper-triangular factors multiply back to the row-permuted input to rounding, with no multiplier above one; the same holds for column pivoting whenever nothing degenerate is reported. The reported parity is that of the reported order, the reported number of degenerate lines is zero for every well-conditioned square matrix and positive for one with a zero row, zero column or two proportional rows, and neither depends on which optional outputs are asked for. Solving through the decomposition, with or without the row order and with any number of leading unknowns omitted, satisfies the original system and leaves the decomposition unchanged.",
  [I, C], "all matrices up to 10 by 10, square and rectangular, regular, rank-deficient and scaled, in both layouts",
  "The LU test samples random regular matrices; rank deficiency at particular columns is not sampled.",
  [G+"linalg/LUDecomp.h"], [("partially pivoted elimination", G+"linalg/LUDecomp.h")])
p("C17", "Linear solves satisfy the system they were given or report failure",
  "Solving a square linear system returns success with the true solution to rounding whenever the matrix is well conditioned, and reports failure when the matrix is singular by a zero row or column or by proportional rows; it treats every right-hand side and every omitted leading unknown alike, gives the same answer for either storage layout, and for systems given as basis vectors changes no vector but the right-hand sides it solves.",
  [I], "all square systems up to size 8 with any number of right-hand sides, including singular systems and systems needing row exchanges",
  "The solver test samples well-conditioned systems only.",
  [G+"linalg/LUDecomp.h"], [("destructive elimination and back substitution", G+"linalg/LUDecomp.h")])
p("C18", "Cholesky factors reconstruct positive-definite input and reject others",
  "For every clearly positive-definite symmetric matrix, given as an array or matrix of either layout, static, dynamic or wrapped, the factorisation succeeds with a lower-triangular factor with positive diagonal whose product with its transpose is the input to rounding; for a symmetric matrix with a clearly negative eigenvalue, for a singular one whose zero pivot comes out exactly, and for a non-square matrix, it reports failure.",
  [I], "all symmetric matrices up to size 10, definite and indefinite",
  "The test samples definite matrices; indefinite ones are not covered.",
  [G+"linalg/Cholesky.h"], [("factorisation loop", G+"linalg/Cholesky.h")])
p("C19", "Orthogonal complements and orthonormal bases are orthogonal and complete",
  "The vector orthogonal to N-1 independent vectors is perpendicular to each of them and non-zero (on the left of the vector in the plane, right-handed in space), and zero for vectors of which one is zero or two are proportional in four or more dimensions; a nullspace basis is independent, perpendicular to every input and of complementary dimension, even when it overwrites its input. Orthogonalisation keeps the first vector, preserves the successive spans and produces pairwise perpendicular (or orthonormal) vectors; projection to a basis is the nearest point of its span, and with the projection to its complement restores the vector.",
  [I], "all sets of independent vectors in dimensions 2 to 6, including axis-aligned ones with leading zeros",
  "No stable test covers these; degenerate leading columns and orientation need generated structure.",
  [G+"linalg/Orthogonal.h"], [("elimination for complements", G+"linalg/Orthogonal.h"), ("Gram-Schmidt", G+"linalg/Orthogonal.h")])
# ---------------------------------------------------------------- functions
p("C20", "Scalar helpers agree with exact arithmetic over their whole domain",
  "Integer and real helpers return the mathematically exact result for every input in their domain, negative operands included: floored modulus, ceiling and floor division, rounding up to a multiple of a positive step, clamping and power-of-two tests for integers, and mixing, linear and cubic (Catmull-Rom) interpolation in any number of dimensions, angle conversion and angle differences for reals, to rounding. Sums and differences of products and multiply-and-add forms, of real and of complex numbers, stay within a couple of units in the last place even when their terms cancel catastrophically (away from overflow and underflow).",
  [I], "all integers of either sign and all finite reals, including cancelling pairs",
  "Untested today; sign and rounding errors sit at negative operands and exact multiples.",
  [G+"function/Utils.h", G+"function/functiondetail/UtilDetail.h"], [("integer division helpers", G+"function/Utils.h"), ("compensated products", G+"function/Utils.h")])
p("C21", "Dual numbers carry exact derivatives through every operation",
  "Evaluating any expression over dual numbers gives the same value as over plain numbers, and a derivative equal to the analytic derivative of the expression, for every arithmetic operator and its in-place form (including a dual combined with itself), mixed scalar operands, elementary functions, multiply-and-add forms and compositions. At kinks and jumps (absolute value, minimum, maximum, ceiling, floor), the chosen policy (left, right, average, not-a-number, infinite) determines the derivative as documented. Comparisons use the value only, and changing policy or precision keeps value and derivative.",
  [I, C], "all smooth expression trees over arithmetic and elementary functions, all operand mixes and policies",
  "No stable test covers dual numbers; a sign error in one function shows only where that function is differentiated.",
  [G+"function/Dual.h", G+"function/functiondetail/DualImpl.h", G+"function/functiondetail/DualFunctions.h"], [("derivative rules", G+"function/functiondetail/DualFunctions.h")])
p("C22", "Quadratic solving returns all real roots accurately",
  "Solving a quadratic returns exactly its real roots: a positive discriminant yields both roots, a zero one the double root, a negative one reports failure and leaves the results untouched, even when the discriminant is tiny relative to its terms. Every returned root is accurate to a few units in the last place, however far apart the roots are, and linear equations yield their single root and constant ones fail, without division by zero.",
  [I], "all coefficient triples including nearly equal roots, widely separated roots and zero leading or trailing coefficients",
  "Untested today; accuracy is lost only in cancelling configurations.",
  [G+"function/Utils.h"], [("stable quadratic formula", G+"function/Utils.h")])
p("C23", "Raster sampling honours interpolation and edge rules everywhere",
  "A raster returns the stored sample at every grid point (within the domain it was given, whose corners are the extreme samples, or at integer coordinates by default) under every interpolation mode; between grid points, nearest, multilinear and cubic (Catmull-Rom) sampling equal their textbook formula evaluated on the edge-extended grid; and outside the grid the clamp, mirror, periodic and constant edge rules extend the image as named, for every dimension, channel count and position. Compile-time and run-time selected modes agree, discrete samples and copied regions return the edge-extended grid, and writes outside the grid change nothing.",
  [I, C], "all grids, positions inside, on and far outside the grid, interpolation modes and edge modes",
  "Untested today; negative coordinates and last-cell positions are where rounding direction matters.",
  [G+"function/Raster.h", G+"function/functiondetail/RasterDetail.h"], [("edge-mode coordinate folding", G+"function/functiondetail/RasterDetail.h"), ("interpolators", G+"function/Raster.h")])
p("C24", "Perlin noise is deterministic, continuous and consistent with its gradient",
  "Noise built from the same generator state is the same function (and from another state a different one); it vanishes at every lattice point, is bounded by half the square root of the dimension, and is continuous with a continuous gradient. Its value and gradient queries agree with each other, and the reported gradient is the derivative of the value everywhere, at negative and distant coordinates and across cell faces included, in every supported dimension.",
  [I], "all seeds and points, including negative coordinates, lattice points and far positions",
  "The gradient test samples one dimension set with a loose random probe; cell-boundary continuity is not covered.",
  [G+"function/PerlinNoise.h", G+"function/functiondetail/PerlinDetail.h"], [("lattice hashing and interpolation", G+"function/PerlinNoise.h")])
p("C25", "Orthogonal polynomials match their definitions",
  "Legendre polynomials, their integrals from minus one, associated Legendre functions (with the Condon-Shortley phase, for sub-bands from zero to the band, one at a time or all bands at once) and Chebyshev polynomials of both kinds equal the mathematically defined functions to rounding for every order and every argument in the interval from minus one to one, its ends included.",
  [I], "all orders up to 30 and arguments in [-1, 1]",
  "Untested today; recurrences go wrong only at particular order/degree pairs.",
  [G+"function/Basis.h"], [("three-term recurrences", G+"function/Basis.h")])
p("C26", "Spherical and zonal harmonics evaluate, project and combine linearly",
  "Spherical-harmonic basis functions are the real orthonormal basis with the Condon-Shortley phase, from basis evaluation, projected samples and function evaluation alike. Evaluation is linear in the coefficients, so sums, multiples and added constants of functions evaluate as such; projecting a band-limited function recovers its coefficients, inner products equal integrals over the sphere, and normalization scales the integral to one. Zonal harmonics evaluate as Legendre series and equal the spherical harmonics made from them, about the pole or any axis; smoothing about the pole averages over azimuth; spot and diffuse-lobe series have the coefficients of those functions; and zonal convolution commutes, with self-convolution counts acting as exponents. Fixed and dynamic band counts behave the same.",
  [I], "all band counts up to 8, coefficients, axes and directions",
  "Untested today; index and normalisation errors show only at particular degree/order pairs.",
  [G+"function/SphericalHarmonics.h"], [("coefficient indexing and normalisation", G+"function/SphericalHarmonics.h")])
p("C27", "Paths pass through their knots with the reported tangents",
  "A path passes through each of its knots at the knot's index, arriving and leaving with that knot's tangent as its velocity; between two knots it is continuous, depends on those two alone, and lies between the points of their two tangent lines, halfway at the middle of the span; before the first and beyond the last knot it continues straight along the end tangents. Reversing the knots and their tangents reverses the path, and moving or scaling the knots moves or scales it. This holds in every dimension and for any number of knots.",
  [I, H], "all knot sequences, parameters inside, at and beyond the ends, after any edits to the knots",
  "Untested today.",
  [G+"function/Path.h"], [("segment evaluation", G+"function/Path.h")])
# ---------------------------------------------------------------- random
p("C28", "Random generators are reproducible and stay within requested ranges",
  "For LCRand, XoshiroRand and MTRand: a generator seeded or reseeded with a value produces the same stream of draws every time, whatever mix of types is drawn and whatever was drawn before (booleans in the middle of a word included); copies continue identically, and different seeds give different streams. LCRand is the MMIX linear congruential generator returning its high half, XoshiroRand is xoshiro256++ with splitmix64 seeding (or the given state), and MTRand follows the 624-word Mersenne twister recurrence (untempered). Whatever the source bits are, unit reals lie in [0, 1], draws below a bound lie in [0, bound) (or (bound, 0] when it is negative, and 0 when it is 0), integers between two bounds in either order lie from the lower (inclusive) to the upper (exclusive), even when the range is wider than the type's positive half, and reals between two bounds lie between them to rounding. Draws are uniform: bounded integers have no modulo bias and reach both ends, full-range integers use every bit, booleans are fair and use every source bit, and reals are uniform down to small values and in their mantissa bits.",
  [I, H], "all seeds, ranges including single-value and full-width ranges, and histories of draws before reseeding",
  "Untested today; state left over from earlier draws and modulo bias appear only for specific histories and ranges.",
  [G+"random/Random.h", G+"random/Random.cpp", G+"random/LCRand.cpp", G+"random/MTRand.cpp", G+"random/Xorshiro.h", G+"random/randomdetail/RandomImpl.h"],
  [("bit pooling and range reduction", G+"random/Random.cpp"), ("generator recurrences", G+"random/Xorshiro.h")])
p("C29", "Geometric samplers stay in their region and fill it uniformly",
  "Every sample of a region lies in it to rounding, whatever the source bits are: unit<N>() vectors have unit length and unit<N>(r) length r; solidball<N>(), solidball<N>(r), disk() and disk(r) lie in the ball of that radius; shell<N>(a,b) between the two radii; box samples (unit box, two corners, Rect, 2-D and 3-D coordinates) in the box; cap (about z or about any direction, the opposite of z included) are unit vectors within the half angle of the axis; solidcap is also between its radii; oriented_disk lies in the plane through the origin with that normal within the radius; arc and solidarc have their angle and length in the given ranges. Samples are uniform over the region's surface, area or volume, in every direction and at every radius, for every generator, dimension and parameters.",
  [I], "all region parameters, dimensions 2 to 5 and generator seeds; distribution judged by moment and bucket statistics at negligible false-alarm probability",
  "Untested today; a wrong radial exponent is invisible to containment tests.",
  [G+"random/RandomTools.h", G+"random/RandomTools.cpp"], [("sampler transforms", G+"random/RandomTools.h")])
p("C30", "Shuffles produce uniform permutations",
  "Permuting a sequence of any length, given as an array or as a vector, with any generator, rearranges exactly its elements (none lost, duplicated or changed, and nothing outside the array touched), makes every arrangement equally likely (leaving an element in place included), and gives the same arrangement again from the same generator state; without a generator argument the default generator is used.",
  [I], "all sequence lengths and seeds",
  "Untested today.",
  [G+"random/RandomTools.h"], [("in-place shuffle", G+"random/RandomTools.h")])
# ---------------------------------------------------------------- shapes
p("C32", "Boxes behave as sets of points",
  "For integer and real boxes in any dimension (1-D included, boundaries inclusive): a point is in the intersection of two boxes exactly when it is in both, and it is empty exactly when they share no point; the union of non-empty boxes is the smallest box containing both, the default box being neutral; building a box from points or adding a point gives the smallest box containing them. intersects says whether the two share a point (touching boxes do, empty ones do not), contains(point) and contains(box) agree with membership, and emptiness with lo > hi on some axis. Translation, scaling by any sign, division, dilation and the Minkowski sum move the bounds accordingly; dimensions (counting both ends for integers), volume, length, center, and boxes made from a center, a corner, a size, or by resizing or recentering agree with each other and keep the center; products, slices, axes and conversions keep each axis's range; equal boxes hash equally. clip gives the nearest point of the box and dist2 its squared distance; for real boxes project gives the nearest point of the surface and sdf the signed distance, remap and unmap are inverse, fitted_to rescales about the other's center just enough, and contact_vector closes the gaps or separates by the least move. Excluding a box leaves a part of the original whose interior avoids the excluded box and changes no operand.",
  [I], "all boxes including empty, single-point, unbounded and touching ones, in dimensions 1 to 4 over integers and reals",
  "The rectangle test validates containment of sampled points only; touching and empty boxes are not sampled.",
  [G+"shape/Rect.h"], [("interval algebra per axis", G+"shape/Rect.h")])
p("C33", "Shape point queries agree: containment, distance, projection and normal",
  "For every shape with the query (boxes, spheres, capsules, cylinders, simplices, extrusions, dilations and transformed shapes and frusta for containment), containment agrees with the shape's geometric definition up to rounding at the surface, the signed distance is the true distance to the surface, negative inside and positive outside, projecting a point gives a nearest point of the boundary, clipping leaves points inside alone and moves others to the nearest point of the shape, and the normal is a unit vector pointing along the gradient of the signed distance, away from the nearest surface point outside the shape and towards it inside; including points on axes, at centers, vertices and edges.",
  [I, C], "all boxes, spheres, capsules, cylinders, simplices, frusta, extrusions, dilations, transformed shapes and planes, and all query points inside, outside and near the surface",
  "The shape validators sample random points with one parameter distribution; rims, axes, apexes and interiors of each shape need targeted generation.",
  [G+"shape/Sphere.h", G+"shape/Capsule.h", G+"shape/Cylinder.h", G+"shape/Dilated.h", G+"shape/Extruded.h", G+"shape/Frustum.h", G+"shape/Oriented.h", G+"shape/Rect.h", G+"shape/Simplex.h", G+"shape/Plane.h"],
  [("per-shape point queries", G+"shape/")])
p("C34", "Support points and bounds are extremal for every convex shape",
  "For every convex shape and direction, the support point belongs to the shape and no point of the shape lies further along the direction; the bounding box contains the whole shape and is tight along each axis where documented as a bound of that shape.",
  [I, C], "all convex shapes and directions, including axis-aligned directions and degenerate dimensions",
  "The validators sample random directions; exact axis directions and ties are never sampled.",
  [G+"shape/Shape.h", G+"shape/Cylinder.h", G+"shape/Capsule.h", G+"shape/Frustum.h", G+"shape/Extruded.h", G+"shape/Oriented.h", G+"shape/Simplex.h", G+"shape/Dilated.h", G+"shape/Sphere.h", G+"shape/Rect.h"], [("per-shape support and bounds", G+"shape/")])
p("C35", "Ray intersections are exactly the parameters inside the shape",
  "For every shape with a ray query (boxes, spheres, cylinders, extrusions, frusta, simplices and their transforms) and every ray, the reported interval consists of exactly the ray parameters at which the ray's point lies in the shape, up to rounding at the ends, and is empty when the ray's whole line clearly misses the shape, including for negative parameters, unnormalised directions, and rays starting inside, running parallel to an axis or face, or through an apex. A simplex of N vertices is hit at a single parameter, one with fewer is never hit.",
  [I, C], "all shapes with ray queries, all rays including axis-parallel ones, ones starting inside, and ones through apexes or edges",
  "The validators sample random rays; parallel and through-origin rays have probability zero there.",
  [G+"shape/Sphere.h", G+"shape/Rect.h", G+"shape/Cylinder.h", G+"shape/Capsule.h", G+"shape/Frustum.h", G+"shape/Extruded.h", G+"shape/Oriented.h", G+"shape/Simplex.h", G+"shape/Plane.h"], [("slab and quadric intersection", G+"shape/")])
p("C36", "Transformed shapes answer queries as the transformed point set",
  "Transforming a shape and then querying containment, bounds, oriented bounds, support, rays and volume gives the same answer as inverse-transforming the query, for every shape and invertible affine transform; planes move with their half space, simplices with their vertices; applying transforms one after another, with operators, in place or inverted, equals applying the composition, and undoing a transform restores the original answers.",
  [I, H], "all oriented shapes, planes and simplices under chains of affine transforms",
  "The oriented-shape validator uses one random transform per shape; composition order needs chains.",
  [G+"shape/Oriented.h", G+"shape/Plane.h", G+"shape/Simplex.h", G+"shape/Dilated.h"], [("transform operators", G+"shape/Oriented.h")])
p("C37", "Planes classify, measure, project and clip consistently",
  "A plane's signed distance is the Euclidean distance along its unit normal and its sign decides containment in the half space; the projection of a point is the nearest point on the plane, the origin query the plane's point nearest to the origin; planes through given points or along given bases contain them and have a normal orthogonal to them. A half space contains a convex shape exactly if no point of it is above the plane; a plane intersects a convex shape, a sphere, or the hull of a point list exactly if there are points of it on both sides, up to rounding.",
  [I], "all planes, points, spheres, boxes, simplices and rays in dimensions 2 to 5",
  "Untested today.",
  [G+"shape/Plane.h"], [("plane equation queries", G+"shape/Plane.h")])
p("C38", "Simplices of any order answer barycentric, projection and measure queries",
  "For simplices of every order from a point to full dimension: inserting, excluding and comparing vertices behaves as on an ordered list of at most N + 1 points; clipping and projecting a point give the nearest point of the simplex and of its surface, and report a face spanned by vertices of the simplex that contains it; containment (full simplices) and facing (any order) agree with non-negative barycentric coordinates, and reported surface parameters are those coordinates; the signed volume and the measure in the spanned subspace equal their exact values; a ray traced against N vertices reports the parameter and surface coordinates of the hit.",
  [I, H], "all simplices of order 0 to N in dimensions 2 to 5 and all query points, including degenerate and nearly degenerate ones where defined",
  "The projection test samples random simplices; measure is untested and lower orders rarely hit.",
  [G+"shape/Simplex.h", G+"shape/shapedetail/SimplexProject.h"], [("face descent for projection", G+"shape/shapedetail/SimplexProject.h"), ("Gram determinant measure", G+"shape/Simplex.h")])
p("C39", "Convex overlap tests agree with ground truth",
  "For every pair of convex shapes of a dimension, the overlap test reports true when the shapes share a point by a clear margin and false when they are separated by a clear margin, symmetrically in its arguments, whatever pairs the same intersector was asked about before; when it reports false, the separation axis it leaves separates the two shapes. (Smooth shapes closer than a hundredth may need a larger iteration limit.)",
  [I, C], "all pairs of convex shapes in 2 to 4 dimensions in separated, touching-by-margin, nested and overlapping positions",
  "The existing intersection test compares two algorithms on random boxes; shared errors and other shapes are not covered.",
  [G+"shape/Intersect.h", G+"shape/shapedetail/SeparatingAxis.h", G+"shape/Shape.h"], [("simplex-based overlap search", G+"shape/Intersect.h"), ("separating axes", G+"shape/shapedetail/SeparatingAxis.h")])
p("C40", "Closed-form shape overlap tests agree with nearest distances",
  "The specialised overlap tests between spheres, boxes, capsules and transformed boxes, of two or more dimensions, report exactly whether the (non-empty) sets share a point, boundaries included, up to rounding: agreeing with nearest-point distances, with each other when both orders or several algorithms are available, also when one shape contains the other.",
  [I], "all pairs of spheres, boxes and oriented boxes, touching positions excluded by a rounding margin for real coordinates",
  "Only oriented boxes are tested today.",
  [G+"shape/Sphere.h", G+"shape/Rect.h", G+"shape/Oriented.h"], [("pairwise specialisations", G+"shape/Sphere.h")])
p("C41", "Grid iteration visits each cell of a region exactly once in order",
  "Iterating over an integer region of any size visits every cell of the region (none if it is empty) exactly once in the stated axis order, whether the region is given as a box or by an exclusive upper corner; stepping backwards reverses stepping forwards, jumping or subscripting by a distance from any cell equals that many steps, and the distance between and ordering of two iterators agree with the number of steps between them.",
  [I, H], "all regions including offset, one-cell and one-dimensional ones, both orders, and all sequences of steps and jumps",
  "Untested today.",
  [G+"shape/GridIterator.h"], [("carry and jump arithmetic", G+"shape/GridIterator.h")])
p("C42", "Bucket grid finds every stored object in the queried region's bins",
  "A sparse bucket grid holds exactly the inserted and not yet erased objects, iterating over it visits each once, and its size is their number; a query around a point or of a box visits, once each, every object in the queried region, and only objects in bins the region touches, for any cell size, signs of coordinates, duplicates, and points on cell boundaries; objects found can be modified or erased through their iterators.",
  [H], "all insert/erase/query histories and cell sizes",
  "Untested today.",
  [G+"shape/BinLatticePartition.h"], [("region iterator over bins", G+"shape/BinLatticePartition.h")])

p("C43", "Values equal exactly when every component is, and convert component by component",
  "Two vectors, quaternions, matrices, transforms, boxes, spheres, capsules, cylinders, planes, frusta, extrusions, oriented or dilated shapes, or simplices compare equal exactly when all their components are equal (zeros of either sign being the same, unused simplex storage not counting), however small the difference and whichever component differs, and inequality is the opposite. A copied or assigned value equals its source and stays independent of it. Converting a vector, quaternion, box, transform or dual number to another element type converts each component, and a transform's inverse, on its own; resizing a ray keeps the shared axes and zeroes the new ones.",
  [I], "all finite component values including neighbours in the number line, and every component of every value type in several dimensions and element types",
  "Tests compare values that are plainly equal or plainly different; each component of each type can be forgotten separately.",
  [G+"linalg/vecdetail/VecBase.h", G+"linalg/Quaternion.h", G+"linalg/AffineTransform.h", G+"shape/Rect.h", G+"shape/Simplex.h", G+"shape/Capsule.h", G+"shape/Cylinder.h", G+"shape/Frustum.h", G+"shape/Extruded.h", G+"shape/Oriented.h", G+"shape/Dilated.h", G+"shape/Plane.h", G+"shape/Sphere.h"],
  [("component comparison", G+"linalg/vecdetail/VecBase.h"), ("matrix comparison", G+"linalg/Matrix.h"), ("transform comparison and conversion", G+"linalg/AffineTransform.h"), ("used vertices only", G+"shape/Simplex.h")])
p("C44", "Printed values list every component once, in order",
  "Writing a vector, ray, quaternion, dual number, matrix of any kind, or affine transform to a stream prints each of its numbers exactly once, in order (origin before direction, scalar part of a quaternion and derivative of a dual last), separated from its neighbours, to the stream's precision (matrices and transforms: to at least five significant digits, one line per row, zeros of diagonal and permutation matrices included), and leaves the surrounding output in place.",
  [I], "all finite component values, every printable type, dimension and stream precision",
  "Nothing tests the printed form, which users read when debugging; a dropped, repeated, transposed or truncated component only shows on values with distinct components.",
  [G+"linalg/Vec.h", G+"linalg/Ray.h", G+"linalg/Matrix.h", G+"linalg/AffineTransform.h", G+"function/functiondetail/DualImpl.h"],
  [("vector and quaternion output", G+"linalg/Vec.h"), ("ray output", G+"linalg/Ray.h"), ("matrix output", G+"linalg/Matrix.h")])
