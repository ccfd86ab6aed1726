ABS = 'abstract interpretation of LLVM IR'

prop('C01', 'Interval algebra over the reals, with empty intervals',
     'For linear and angle intervals, every containment, intersection, disjointness, equality, clip, expand, dilate and erode operation '
     'agrees with the set of reals the interval denotes; an interval whose ends are NaN or reversed is the empty set everywhere. '
     'The relate() result is exactly the CONTAINS/DISJOINT/WITHIN bits of those sets, and copying variants leave their operand alone.',
     ['inputs'], 'all end points, including NaN, infinities and coinciding ends',
     'unit tests sample a few ordered intervals; ties, NaN on one side and empty operands of every operation are a combinatorial space they do not cover',
     ['include/lsst/sphgeom/Interval.h', 'include/lsst/sphgeom/Interval1d.h', 'include/lsst/sphgeom/AngleInterval.h',
      'include/lsst/sphgeom/Relationship.h'],
     [('Interval CRTP comparisons written so that NaN means empty', 'include/lsst/sphgeom/Interval.h'),
      ('relate', 'include/lsst/sphgeom/Interval.h')],
     ABS + ' over the finite domain of order types (comparison-only code), all orderings enumerated',
     note='Decided for every input for comparison-only operations (order types are exhaustive); arithmetic ones (dilate, size, center) over exact reals. Trusts clang -O1 IR generation and the interpreter.')

prop('C02', 'Normalized angle interval algebra on the circle',
     'Every predicate, clip, expand, dilate, erode and constructor of a normalized angle interval agrees with the arc of the circle it '
     'denotes, wrapping or not, empty or full. Clip and expand return the exact intersection or union when that is one arc and otherwise the '
     'smallest arc covering it; an expanded interval always contains both operands.',
     ['inputs'], 'all end points in [0, 2*pi], including 0, 2*pi, NaN and coinciding ends',
     'tests pick a few wrapping and non-wrapping arcs; the 4-endpoint case analysis has over a thousand order types',
     ['src/NormalizedAngleInterval.cc', 'include/lsst/sphgeom/NormalizedAngleInterval.h', 'src/NormalizedAngle.cc'],
     [('case analysis on wraps()', 'src/NormalizedAngleInterval.cc')],
     ABS + ' over cyclic order types, arc lengths in a convex-polyhedra domain',
     note='Order-type enumeration is exhaustive for comparison-only code; arc-length comparisons are decided over exact reals.')

prop('C06', 'RangeSet is the algebra of subsets of [0, 2^64)',
     'After any sequence of insertions, erasures, complements, unions, intersections, differences, symmetric differences, simplify and scale '
     'operations, a RangeSet contains exactly the integers set theory says (0 and 2^64-1, wrapping and full ranges included), and its '
     'contains/intersects/isWithin/isDisjointFrom/==/size/cardinality/empty/full answers agree. Its ranges are always sorted, disjoint, '
     'non-adjacent and non-empty, and iterators obey the random access laws they offer.',
     ['inputs', 'histories'], 'all sets (per number of ranges) and all integer arguments',
     'the tests compare a few hundred random small sets against a naive model; boundary coincidences at 0 and 2^64 and ties between operands are missed',
     ['src/RangeSet.cc', 'include/lsst/sphgeom/RangeSet.h'],
     [('bookended range vector and offset', 'include/lsst/sphgeom/RangeSet.h'), ('_insert case analysis', 'src/RangeSet.cc'),
      ('divide and conquer intersection', 'src/RangeSet.cc')],
     ABS + ' over order types of range end points (interleavings with ties), compared with set algebra on cells',
     note='Exhaustive over end point values for operands of up to 2 ranges (3 in the thorough tier) per side; longer sets rest on the recursion. scale/simplify decided for the listed factors/levels.')

prop('C07', 'RangeSet updates are all-or-nothing and alias safe',
     'If an allocation fails inside any RangeSet modification documented as strongly exception safe (insert, erase, and the compound '
     'assignments), the failure is reported and both the set and the argument are exactly as before. Passing a set to its own operations '
     '(s &= s, s -= s, s ^= s, s.join(s), ...) gives the set-algebraic answer.',
     ['fault_sequences', 'inputs'], 'every allocation point of every mutator, for all end point orders',
     'no test injects allocation failure and few alias operands',
     ['src/RangeSet.cc', 'include/lsst/sphgeom/RangeSet.h'],
     [('reserve before modification', 'src/RangeSet.cc'), ('copy and swap in compound assignment', 'include/lsst/sphgeom/RangeSet.h'),
      ('Complementor restores on unwinding', 'src/RangeSet.cc')],
     ABS + ' with each allocation site made to throw in turn',
     note='Every allocation of every mutator over all order types of operands of up to 2 ranges; trusts that operator new reports failure by bad_alloc.')

prop('C08', 'Encode/decode round trip of every region',
     'decode(encode(r)), through Region::decode or the decode of its own class, is a region of the same class with bitwise the same state, '
     'equal to r, and encoding it again gives the same bytes; this holds for every region kind including empty, full and NaN or infinite '
     'members, and for nested unions and intersections. The optimized and the portable codec write the same little-endian bytes and the six '
     'kinds have distinct type codes.',
     ['inputs'], 'all regions (polygons up to the stated vertex count, nesting depth 2), both codec builds',
     'tests round-trip a couple of regions per class in the default build only; a swapped, dropped or shortened field of an unusual value is invisible',
     ['include/lsst/sphgeom/codec.h', 'src/Box.cc', 'src/Circle.cc', 'src/ConvexPolygon.cc', 'src/Ellipse.cc', 'src/CompoundRegion.cc', 'src/Region.cc'],
     [('encode/decode pairs', 'src/*.cc'), ('little-endian primitives', 'include/lsst/sphgeom/codec.h')],
     ABS + ' with byte provenance of unknown doubles, in both codec configurations',
     note='Value-complete for each class (fields are unknowns); polygons up to 8 (16) vertices; trusts clang IR generation and the interpreter.')

prop('C09', 'Decoding arbitrary bytes is safe',
     'Given any byte string of any length, every decode function either returns a non-null region of the kind its type code announces, whose '
     'encoding has that length, or throws an exception derived from std::exception; it reads only inside the string, and leaks nothing. '
     'Operand lengths inside compound encodings are untrusted too.',
     ['inputs'], 'all byte contents, all lengths up to the bound, all nestings (by induction)',
     'the space of malformed strings is unbounded and an out-of-bounds read usually goes unnoticed by a test',
     ['src/CompoundRegion.cc', 'src/ConvexPolygon.cc', 'src/Region.cc', 'src/Box.cc', 'src/Circle.cc', 'src/Ellipse.cc'],
     [('length checks before reads', 'src/*.cc'), ('consumeDecodeU64', 'src/CompoundRegion.cc')],
     ABS + ' with every load a bounds obligation over an unknown buffer; nested decode cut by induction on its contract',
     note='All contents; lengths 0..260 (420) bytes. Allocation failure and stack exhaustion by deep nesting are not covered.')

prop('C04', 'Union and intersection regions are point-set operations',
     'For any two operand regions, a UnionRegion contains exactly the points at least one operand contains and an IntersectionRegion exactly those '
     'both contain. Their relate() against any region is the strongest sound combination of the operands\' answers (any overload, any nesting). '
     'Their bounding box, 3-d box and circle are the operands\' bounds combined (expanded for a union, clipped for an intersection). Operands are '
     'kept in order, copied deeply by construction, copying and clone, and released once.',
     ['inputs', 'histories'], 'all operand regions (opaque), all answers they can give, any nesting',
     'tests use a handful of concrete operands; most of the 64 combinations of operand relations per overload never occur in them',
     ['src/CompoundRegion.cc', 'include/lsst/sphgeom/CompoundRegion.h'],
     [('relate truth tables', 'src/CompoundRegion.cc'), ('getUnionBounds / getIntersectionBounds', 'src/CompoundRegion.cc'),
      ('operand ownership', 'include/lsst/sphgeom/CompoundRegion.h')],
     ABS + ' with opaque operands, all answers enumerated; bounds by uninterpreted combination',
     note='Complete for the combination rules; bounding boxes over order types of the operand boxes (quick tier: a third of the latitude orders).')

prop('C05', 'relate never claims what does not hold, in either direction',
     'r1.relate(r2) and r2.relate(r1) are inverses of each other for every pair of region kinds, statically or through Region references. '
     'CONTAINS, WITHIN or DISJOINT is only reported when it holds: bounding proxies pass on only what a superset proves; the circle, box-circle, '
     'polygon-circle and polygon-polygon algorithms report it only after establishing it for every vertex, edge and the needed interior point. '
     'Empty and full circles and boxes get the exact set answers, and the contains/isDisjointFrom/intersects/isWithin predicates match.',
     ['inputs'], 'all region pairs; all answers of primitives; all outcomes of distance and orientation comparisons',
     'a wrong claim needs a particular configuration (hole-punching circle, one crossing edge pair, latitude edge extremum) that tests rarely contain',
     ['src/Box.cc', 'src/Circle.cc', 'src/ConvexPolygonImpl.h', 'src/ConvexPolygon.cc', 'src/Ellipse.cc', 'include/lsst/sphgeom/Region.h',
      'include/lsst/sphgeom/Relationship.h'],
     [('double dispatch and invert()', 'include/lsst/sphgeom/Region.h'), ('Box-Circle relation', 'src/Box.cc'),
      ('polygon relations', 'src/ConvexPolygonImpl.h'), ('bounding proxies', 'src/Ellipse.cc')],
     ABS + '; primitives replaced by uninterpreted answers, claims entailed in a convex polyhedra domain',
     note='Distances and orientation are trusted to mean what they say (orientation is C11); polygons of 3 and 4 vertices; exact reals.')

prop('C03', 'Boxes are products of intervals',
     'A longitude/latitude Box and a Box3d are exactly the products of their component intervals: every predicate, relate, clip, expand, dilate and erode '
     'agrees with the set of points denoted, for wrapping, empty, full, degenerate and NaN components. All components are empty or none is; '
     'the stored latitudes always lie in [-pi/2, pi/2]; dilation leaves an end at a pole in place; copying variants agree with the mutators and leave their operand alone.',
     ['inputs'], 'all boxes up to the order type of their end points (each component exhaustively against representatives of the others)',
     'tests use a few boxes; the empty-together invariant and pole clamping only show on unusual combinations such as one empty or NaN component',
     ['include/lsst/sphgeom/Box.h', 'src/Box.cc', 'include/lsst/sphgeom/Box3d.h'],
     [('_enforceInvariants', 'include/lsst/sphgeom/Box.h'), ('_enforceInvariants', 'include/lsst/sphgeom/Box3d.h'), ('dilateBy', 'src/Box.cc')],
     ABS + ' over order types, results compared with products of point sets',
     note='Each component exhaustive over order types, the product sampled by representatives of the other components; arithmetic over exact reals.')

prop('C11', 'Orientation predicates are exact',
     'orientationExact(a, b, c) is the sign of the determinant of any three finite vectors, exactly: 0 only for coplanar ones, whatever their exponents, '
     'zeros or subnormals. orientation(), orientationX/Y/Z() give the same sign for all unit vectors: no rounding error can make the floating point shortcut '
     'answer differently, and identical or antipodal arguments give 0. So orientation is antisymmetric and cyclic, which polygon code relies on.',
     ['inputs'], 'all finite vectors (exact path), all unit vectors and all roundings (filters)',
     'wrong signs need near-coplanar vectors with particular exponent gaps; the existing tests passed with a shift bug that made about 1 in 3000 such signs wrong',
     ['src/orientation.cc', 'include/lsst/sphgeom/orientation.h', 'src/BigInteger.cc'],
     [('static error bound filters', 'src/orientation.cc'), ('exact accumulation of six products', 'src/orientation.cc')],
     ABS + ': exact integer semantics with symbolic exponents; running rounding-error analysis of the filters',
     note='Exhaustive over component values; rests on IEEE double rounding and on C12. NaN and infinite components are out of scope (documented precondition).')

prop('C12', 'BigInteger is exact integer arithmetic',
     'setTo, negate, add, subtract, multiply, multiplyPow2 and assignment compute the exact integer for every value, sign and aliasing, with no leading zero digit '
     'and sign 0 exactly for zero; the argument and the storage pointer are left alone; nothing is written beyond the capacity, and a too small capacity is reported by an exception.',
     ['inputs'], 'all digit values, signs, aliasings and capacities, for operands of up to 5 digits and shifts up to 130 bits',
     'carry, borrow and normalisation corner cases occur for about one in 2^32 random values',
     ['src/BigInteger.cc', 'include/lsst/sphgeom/BigInteger.h'],
     [('_add, _sub, _mul', 'src/BigInteger.cc'), ('multiplyPow2', 'src/BigInteger.cc')],
     ABS + ' in a quotient/remainder polynomial domain with exact linear arithmetic',
     note='Exact for every digit value; digit counts bounded (4 quick, 5 thorough), the loops being uniform in them.')

prop('C13', 'Space-filling curve indexes are bijections that keep neighbours adjacent',
     'For every order m up to 32, mortonIndex/mortonIndexInverse and hilbertIndex/hilbertIndexInverse are mutually inverse bijections between pairs of '
     'm-bit coordinates and 2m-bit indexes, with and without SIMD. Consecutive Hilbert indexes are neighbouring cells, and the index of a cell at a coarser order is a prefix of its index at a finer one. '
     'log2 returns the position of the most significant bit.',
     ['inputs'], 'all coordinates, indexes and orders 0..32',
     'the tables have 512 entries and there are 2^64 indexes; tests sample a few orders and points and only one of the SIMD and scalar versions is ever compiled',
     ['include/lsst/sphgeom/curve.h'],
     [('Hilbert look-up tables', 'include/lsst/sphgeom/curve.h'), ('Morton bit spreading', 'include/lsst/sphgeom/curve.h')],
     ABS + ': bit-level symbolic dataflow; the tables decided as finite state transducers by induction on the order',
     note='Exhaustive: every bit pattern and order, both builds.')

prop('C14', 'Pixel indexes, levels, names and neighbourhoods are consistent',
     'For HTM, Q3C and modified Q3C: levels and indexes outside the documented sets are rejected and all others accepted; level(), universe(), toString() and pixel() agree on what an index denotes. '
     'index(v) is the pixel whose face contains v and whose grid cell is the documented function of v, never outside the universe, identically with and without SIMD; pixel corners are the slightly '
     'dilated corners of that cell in counter-clockwise order. neighborhood() is exactly the set of pixels sharing a corner with the argument.',
     ['inputs', 'configurations'], 'all indexes, grid cells and unit vectors, both builds; all levels in the thorough tier, representative levels in the quick tier',
     'edge and corner cells of every face at every level, and points exactly on face boundaries, are never all sampled; the scalar code is not compiled on x86-64',
     ['src/HtmPixelization.cc', 'src/Q3cPixelization.cc', 'src/Mq3cPixelization.cc', 'src/Q3cPixelizationImpl.h', 'include/lsst/sphgeom/Pixelization.h'],
     [('face tables and wrapIndex', 'src/Q3cPixelization.cc'), ('modified Q3C projection', 'src/Q3cPixelizationImpl.h'), ('HTM descent', 'src/HtmPixelization.cc')],
     ABS + ': bit-level indexes, exact polynomial arithmetic for projections, signs entailed by linear arithmetic',
     note='Exact reals instead of floating point in the projections; that index(v) and pixel() agree to the last rounding error is not covered (see DESIGN).')

prop('C15', 'Envelopes cover the region and interiors stay inside it, within any range budget',
     'Pixelization::envelope(region, maxRanges) contains every pixel that is not disjoint from the region and interior(region, maxRanges) contains only pixels that lie within it, for every region kind and pixelization. '
     'With no limit they are exactly the pixels not proved disjoint, respectively proved within, by the region relation; with a limit at most maxRanges ranges are returned, still inside the universe. '
     'Every region kind is searched with the region given, or an enclosing / enclosed circle for an ellipse, and compound regions combine the sets of their operands.',
     ['inputs'], 'all answers of the pixel-region relation on the top levels of the pixel trees, all region kinds, all range limits up to the number of pixels',
     'the tests search for a handful of regions at a few levels and compare with a brute-force scan; a wrong range merged or dropped only shows for particular patterns of pixel relations and range limits',
     ['src/PixelFinder.h', 'src/HtmPixelization.cc', 'src/Q3cPixelization.cc', 'src/Mq3cPixelization.cc', 'include/lsst/sphgeom/Pixelization.h'],
     [('PixelFinder and findPixels', 'src/PixelFinder.h'), ('HtmPixelFinder', 'src/HtmPixelization.cc'), ('Q3cPixelFinder, Mq3cPixelFinder', 'src/Q3cPixelization.cc')],
     ABS + ' with the pixel-region relation as an uninterpreted hook whose answers are enumerated',
     note='The relation itself is C05; that pixels at level L tile the sphere is C14.')

prop('C16', 'Bounding circles, boxes and 3-D boxes enclose the region',
     'For every region, getBoundingCircle(), getBoundingBox() and getBoundingBox3d() contain every point of the region, rounding allowance included: not only the vertices, but the points where an edge, '
     'a parallel, a circle or an axis point inside reaches further. Box::dilateBy(r) and Box::halfWidthForCircle cover everything within r. '
     'Bounds of empty regions are empty, a region that is its own bound is returned as it is, and bounds are not larger than needed where the code promises tightness.',
     ['inputs'], 'all circles, boxes and ellipses; polygons with 3 vertices (4 for the bounding circle), one edge and axis at a time',
     'an extremum in the interior of an edge or parallel is only reached by particular placements relative to the poles, the equator and the axes; tests sample a few',
     ['src/Box.cc', 'src/Circle.cc', 'src/ConvexPolygonImpl.h', 'src/Ellipse.cc'],
     [('Box::getBoundingCircle, getBoundingBox3d, halfWidthForCircle', 'src/Box.cc'), ('Circle::getBoundingBox, getBoundingBox3d', 'src/Circle.cc'), ('boundingCircle, boundingBox, boundingBox3d', 'src/ConvexPolygonImpl.h')],
     ABS + ': exact polynomials over trigonometric and min/max atoms, bounds entailed by linear arithmetic',
     note='Exact reals; that the rounding allowances are large enough is not decided, only that they are positive.')

prop('C18', 'Circle set operations, ellipse and polygon membership follow their definitions',
     'Circle contains, isDisjointFrom, intersects and isWithin answer as the sets do; clipTo contains the intersection and expandTo the union of the operands and is no larger than either needs to be; '
     'dilateBy, erodeBy and complement change the opening angle as documented, and all honour empty and full circles. '
     'An ellipse built from foci or from orientation and axes contains exactly the points of the documented ellipse, complement is its set complement, '
     'and a convex polygon contains exactly the points that are on no edge\'s wrong side.',
     ['inputs'], 'all pairs of circles (including empty, full, single points and the operand itself), all dilation radii, all ellipse parameters for representative directions, polygons with 3 and 4 vertices',
     'wrong answers need particular arrangements (one circle inside the other, complement covering, opposite centers, obtuse semi-axes); tests sample a few',
     ['src/Circle.cc', 'src/Ellipse.cc', 'src/ConvexPolygon.cc', 'src/ConvexPolygonImpl.h', 'include/lsst/sphgeom/Circle.h', 'include/lsst/sphgeom/Ellipse.h'],
     [('Circle::clipTo, expandTo, dilateBy, complement', 'src/Circle.cc'), ('Ellipse constructors and contains', 'src/Ellipse.cc'), ('contains', 'src/ConvexPolygonImpl.h')],
     ABS + ': exact polynomials over trigonometric atoms; angles compared by linear arithmetic',
     note='Exact reals up to 1e-6 radians from tangency.')

prop('C17', 'Coordinate conversions, vector and matrix algebra are the exact formulas',
     'Vector3d, UnitVector3d, Matrix3d, LonLat, Angle and NormalizedAngle operations and the free functions of utils.h return the value of their defining formula for every input: conversions between longitude/latitude and vectors invert each other, '
     'normalised angles and longitudes are in range and differ from the argument by whole turns, and squared chord distances to points and to edges are the distances. '
     'Normalising a vector does not overflow or underflow on the way, whatever its magnitude and component order, and NaN or infinite components give NaN results and harm no memory.',
     ['inputs'], 'all components, signs and component orders, NaN in every position, with and without SIMD',
     'a formula that is wrong for one component order, sign or magnitude agrees with the samples of the tests; the code without SIMD is not compiled on x86-64',
     ['src/Vector3d.cc', 'src/UnitVector3d.cc', 'src/LonLat.cc', 'src/NormalizedAngle.cc', 'src/utils.cc', 'include/lsst/sphgeom/Matrix3d.h', 'include/lsst/sphgeom/Vector3d.h'],
     [('Vector3d::normalize', 'src/Vector3d.cc'), ('getMinSquaredChordLength, getMaxSquaredChordLength', 'src/utils.cc'), ('LonLat', 'src/LonLat.cc'), ('NormalizedAngle', 'src/NormalizedAngle.cc')],
     ABS + ': exact polynomials over square root, reciprocal and trigonometric atoms; intervals for magnitudes',
     note='Exact reals; the last-digit accuracy of the formulas in floating point is not decided.')

prop('C19', 'Chunks and sub-chunks tile the sphere and spatial searches miss none',
     'A Chunker accepts exactly the documented parameters; its chunk and sub-chunk identifiers are unique, valid() holds of exactly the identifiers of chunks, and getStripe and getChunk invert them. '
     'Chunks tile the sphere, are as wide as the documented minimum width allows, and their boxes enclose them; so do sub-chunks within chunks. '
     'getChunksIntersecting and getSubChunksIntersecting return every cell the region may intersect, once, and none that the region is found disjoint from; empty regions meet nothing.',
     ['inputs', 'configurations'], 'all regions (as bounding box position and relation answers), all parameters for construction, configurations of up to 6 stripes by 3 sub-stripes for searches and 340 by 12 for tiling',
     'the tests build two chunkers and search them with two regions; wrapping boxes, cells at the poles and chunks wholly inside the region need particular placements',
     ['src/Chunker.cc', 'include/lsst/sphgeom/Chunker.h'],
     [('construction', 'src/Chunker.cc'), ('getChunksIntersecting, getSubChunksIntersecting', 'src/Chunker.cc'), ('valid, getAllSubChunks', 'src/Chunker.cc')],
     ABS + ' with the region as an uninterpreted hook whose answers are enumerated',
     note='The relation itself is C05; Box operations are C02 and C16.')

prop('C20', 'Convex hulls have exactly the extreme points and polygon equality ignores rotation',
     'ConvexPolygon::convexHull and the constructor from points return the polygon whose vertices are exactly the extreme points of the given points, counter-clockwise and without repetition, however the points are ordered or repeated; '
     'points that no open hemisphere contains, and fewer than three points not on one great circle, are rejected with std::invalid_argument. '
     'Two polygons are equal exactly if their vertex lists are rotations of each other.',
     ['inputs'], 'all orders of all configurations of up to 5 points (6 in the thorough check), general, repeated, coplanar and antipodal, each as the orientations of its triples',
     'a wrong hull needs a point inserted at a particular place of the vertex list, or three coplanar points in a particular order; tests use random points in general position',
     ['src/ConvexPolygon.cc', 'include/lsst/sphgeom/ConvexPolygon.h'],
     [('findPlane, findTriangle, computeHull', 'src/ConvexPolygon.cc'), ('operator==', 'src/ConvexPolygon.cc')],
     ABS + ' with orientations as enumerated answers (one oriented matroid per configuration)',
     note='Orientation itself is C01.')

prop('C10', 'Const operations write nothing that is shared',
     'A member function declared const does not modify its object or anything reachable from it, an argument taken by reference or pointer to const is not modified, and no operation writes state shared between calls; '
     'so any number of threads may use const operations of the same objects, and free and static functions, at the same time, and no call changes the result of a later one. '
     'Initialising constants on first use, atomics and thread-local scratch space are permitted.',
     ['schedules', 'histories'], 'every function of the library, every inline member, and everything of the standard library they instantiate, with and without SIMD',
     'tests are single-threaded; a static scratch buffer or a cache behind const gives right answers in every sequential test',
     ['src', 'include/lsst/sphgeom'],
     [('orientationExact scratch buffers', 'src/orientation.cc'), ('toString buffers', 'src/Q3cPixelization.cc'), ('CompoundRegion::getOperand', 'include/lsst/sphgeom/CompoundRegion.h')],
     'interprocedural mod and points-to analysis over LLVM IR (access paths, summaries to a fixpoint, virtual calls by contract)',
     'effect analysis over the compiler IR: every function against the const-ness of its signature',
     note='A cache behind a lock would be reported; there is none.')

prop('C22', 'NaN and infinite arguments do no harm',
     'An operation given NaN, infinities or a vector without direction either throws or returns: it accesses no memory outside its objects, converts no NaN, infinity or out-of-range value to an integer, does not divide integers by zero and terminates. '
     'A pixel index computed from such a vector is either rejected with an exception or a pixel of the pixelization, pixel searches with such regions stay within the universe and list each pixel once, and orientation is -1, 0 or 1.',
     ['inputs'], 'every combination of ordinary, zero, infinite and NaN components of each argument (NaN comparisons are explored both ways), at sample levels of each pixelization',
     'tests give NaN to intervals and angles only; the damage is done by the indexing code behind them, and depends on which component is NaN',
     ['src', 'include/lsst/sphgeom'],
     [('faceNumber, gridCoords', 'src/Q3cPixelizationImpl.h'), ('orientationExact', 'src/orientation.cc'), ('index', 'src/HtmPixelization.cc'), ('getChunksIntersecting', 'src/Chunker.cc')],
     ABS,
     note='Which result a NaN argument gives is otherwise left open (NaN intervals are empty: C02).')

prop('C23', 'Python names do what the C++ operations of those names do',
     'Every function, method, operator, constant and class of the Python module does what the C++ operation of the same name does (union is join, the special methods are the operators): it calls that operation on self with its arguments in order, its keyword names and defaults are those of the parameters, and in-place operations return their object. '
     'Indexes are checked, negative ones count from the end, and str and repr show the components in order. '
     'Pickling and the YAML representers rebuild an equal object of the same class.',
     ['inputs', 'programs'], 'every one of the 650 definitions in the binding sources, and the YAML and HEALPix modules',
     'the tests call about a third of the names from Python, hardly any by keyword, and check results mostly in C++; a name bound to its neighbour compiles and passes',
     ['python/lsst/sphgeom', 'include/lsst/sphgeom/python'],
     [('defineInterval', 'include/lsst/sphgeom/python/interval.h'), ('convertIndex, encode, decode', 'include/lsst/sphgeom/python/utils.h'), ('defineClass', 'python/lsst/sphgeom'), ('representers and constructors', 'python/lsst/sphgeom/_yaml.py')],
     'typed syntax trees (clang, Python ast): resolution of every binding to its target, symbolic evaluation of lambdas and helper functions',
     'query over the typed syntax tree: every binding against the operation its name stands for',
     note='pybind11, overload resolution between Python types, and hpgeom (behind HealpixPixelization) are trusted.')
