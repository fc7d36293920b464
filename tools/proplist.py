BASE = "Trusted: clang front end and sroa, the VC generator in rvc/, z3/cvc5. "
prop("C01", "Leading-zero counts and power-of-two rounding are exact for every word",
     "For every 8, 16, 32 and 64-bit unsigned word, the leading-zero count equals the number of zero bits above the highest set bit (the word size for zero). Rounding down yields the largest power of two not above the word and rounding up the least power of two not below it whenever that is representable; both map zero to zero.",
     ["inputs"], "every word of each of the four widths",
     "The test programs print a few hand-picked values and always exit 0; the branch cascade has one case per bit position and 2^64 inputs.",
     [C + "bit_manip.h", "common/src/bit_manip.cpp"], [("nlz8..nlz64", "common/src/bit_manip.cpp"), ("flp2u*/clp2u*", "common/src/bit_manip.cpp")],
     BASE + "Complete for all inputs (bit-vector semantics, no bound).")
prop("C02", "Floats split into sign, exponent and mantissa and reassemble without loss",
     "For every float and double bit pattern, decomposition returns exactly the IEEE 754 fraction field, the exponent field minus the bias and the sign bit, and composing those three values gives back the same bit pattern. The published masks and constants of the floating-point traits describe exactly these fields.",
     ["inputs"], "every bit pattern of float and double, including zeros, subnormals, infinities and NaNs",
     "Tests decompose two ordinary floats and print them; double and special values are never exercised.",
     [C + "bit_manip.h", "common/src/bit_manip.cpp", C + "numeric_traits.h"], [("getMantissaExpSignF/D, setMantissaExpSignF/D", "common/src/bit_manip.cpp"), ("FloatTraits<float/double>", C + "numeric_traits.h")],
     BASE + "Complete for all bit patterns; assumes IEEE 754 binary32/64.")
prop("C03", "Integer magnitude helpers agree with arithmetic for every integer type",
     "For each of the eight fixed-width integer types and every value x, the leading-zero count of x's representation is exact, log2Mod(x) is floor(log2|x|) for x not 0, floorPow2(x) is the greatest signed power of two not above x and ceilPow2(x) the least one not below x (sign preserved, zero to zero). Values whose result is not representable are excluded.",
     ["inputs", "configurations"], "every value of int8/16/32/64 and uint8/16/32/64",
     "The numeric-traits test prints a table of small values for some types; the 64-bit signed variants were wrong and no test noticed.",
     [C + "numeric_traits.h"], [("IntegerTraits<T>", C + "numeric_traits.h")],
     BASE + "Complete for all inputs; INT32_MIN/INT64_MIN excluded (negation overflows). Callees nlz*/flp2*/clp2* are used through the contracts proved in C01.")
prop("C04", "Morton comparison of integer vectors is exactly the Z-order",
     "For every pair of integer vectors, the Morton comparison answers true exactly when the first vector precedes the second in the order obtained by interleaving their bits from the most significant down, first coordinate first, with signed values ordered numerically. It is therefore a strict total order usable for sorting and searching.",
     ["inputs", "configurations"], "all pairs of vectors of dimension 1 to 3 over all eight integer types",
     "The Morton tests sort one grid and print it; ordering laws quantify over all pairs and triples of vectors.",
     [C + "morton_sort.h", C + "numeric_traits.h"], [("mortonCmpInt, msb, MortonTraits::compare", C + "morton_sort.h")],
     BASE + "Complete for all vectors of the instantiated dimensions 1-3 (Dim is a template parameter).")
prop("C05", "Power-of-two cell, Morton split and Morton distance of integers are exact",
     "For every pair of integers the reported interval is the smallest aligned power-of-two cell containing both, the reported level is the base-2 logarithm of its size and the middle is its lower bound plus half its size (the lower bound itself when both are equal). For vectors the Morton distance is the largest level over the coordinates, and the split uses the middle in the first coordinate with that level and the lower bound in all others.",
     ["inputs", "configurations"], "all pairs of integers of all eight types, including mixed signs and equal values; vectors of dimension 2 and 3",
     "One test splits a single pair of small ints; wide levels, equal arguments and unsigned full-range cells are never reached and were wrong.",
     [C + "morton_sort.h"], [("intervalPow2Int, mortonSplitInt, mortonDistanceInt, MortonTraits::split/distance", C + "morton_sort.h")],
     BASE + "Complete for all inputs of the instantiated dimensions 2-3; output arrays assumed disjoint from inputs.")
prop("C07", "Raster order numbers the cells of an index interval one to one",
     "For every non-empty interval of int indices in 1 to 3 dimensions, raster positions 0..size-1 and cells correspond one to one: getIndices(pos) lies inside the interval, getPos gives pos back and conversely, the static indexer agrees with the plain one, and the first coordinate varies fastest. Raster iterators start at the minimum cell, step one position in both directions, return the old cell from post-increment, and reach end after exactly size cells; an empty interval has begin equal to end.",
     ["inputs", "histories"], "all intervals (dimensions >= 1, cells and coordinates up to 2^30), all positions and cells",
     "The interval test iterates over one small window and prints it; the round trip quantifies over all window shapes and offsets.",
     [C + "interval_indices.h"], [("RasterIndexer, StaticRasterIndexer, IntervalIterator", C + "interval_indices.h")],
     BASE + "Machine ints with overflow checked; Dim and Index are template parameters (1-3, int instantiated).")
prop("C08", "Boustrophedon order visits every cell once, moving one cell at a time",
     "For every non-empty interval of int indices in 1 to 3 dimensions, boustrophedon iteration visits each cell of the interval exactly once, starting from the minimum cell, and any two consecutive cells differ by one step in exactly one coordinate; the first coordinate is swept back and forth. Iterators step in both directions consistently and reach end after exactly size cells; an empty interval has begin equal to end.",
     ["inputs", "histories"], "all intervals (dimensions >= 1, cells and coordinates up to 2^30), all positions",
     "The test prints the order of a 2D window; the parity argument fails first in 3 dimensions with odd extents, which no test visits.",
     [C + "interval_indices.h"], [("BoustrophedonIndexer, IntervalIterator", C + "interval_indices.h")],
     BASE + "Machine ints with overflow checked; parity and div/mod lemmas are separate obligations. Dim 1-3 and int instantiated.")
prop("C09", "Index interval operations agree with sets of cells",
     "For every interval of int indices in 1 to 3 dimensions: initBounds, initCentered and initMinMax describe exactly the documented cells; inside is membership; empty holds iff no cell is inside; size counts the cells (0 when empty); max and last bound them; a cell is inside intersect(a,b) iff it is inside both; stacked(d,n) is the |n| layers adjacent to the interval on the side of n's sign; translate shifts only the requested coordinates; clone equals the original.",
     ["inputs"], "all intervals and arguments with magnitudes up to 2^28, including empty and negative dimensions",
     "Tests build a few windows with positive sizes; disjoint, touching, empty and negative cases are not sampled.",
     [C + "interval_indices.h"], [("IntervalIndices", C + "interval_indices.h")],
     BASE + "Machine ints with overflow checked; Dim 1-3 and int instantiated.")
prop("C10", "Every grid cell has exactly one storage slot, however it is addressed",
     "For every Grid of 1 to 3 dimensions and every cell of its domain, value(indices), value(pointer) and value(getPos(indices)), const or not, refer to one and the same stored value; writing a cell changes no other cell; getPos and getIndices are inverse; inside says exactly which cells the domain has; size is the number of cells after every constructor and init call; new cells are value-initialised; fill sets every cell.",
     ["inputs", "histories"], "all grids (dimensions >= 1, up to 2^30 cells), all cells and values",
     "The grid test fills one grid and prints it; aliasing between two different cells or an out-of-bounds slot needs all pairs of cells.",
     [C + "grid.h", C + "interval_indices.h"], [("Grid::value, getPos, getIndices, init*", C + "grid.h")],
     BASE + "std::vector and std::fill used through assumed contracts; default indexer and vector storage.")
prop("C11", "A min-max heap always yields its least and greatest element and loses none",
     "Whatever sequence of pushes and pops built a MinMaxHeap, and for any comparator that is a strict weak order, top is an element no greater and bottom an element no less than every stored element; push adds exactly the given value, popTop and popBottom remove exactly the element that top or bottom reported; size and empty count the stored elements and begin..end enumerates them; a new heap is empty. Equal elements are allowed.",
     ["inputs", "histories"], "all heaps of up to 2^30 elements, all values, all strict weak orders, every sequence of operations (by invariant)",
     "The heap test pushes a few distinct numbers; the order of nodes after a sift with equal or grandchild elements depends on histories no test samples, and was wrong for duplicates.",
     [C + "min_max_heap.h"], [("MinMaxHeap::push, popTop, popBottom, heapUp, heapDownMin, heapDownMax", C + "min_max_heap.h")],
     BASE + "Unbounded: heap order is a data-structure invariant, the multiset is a ghost count; loop invariants are inferred and re-proved on every run. Comparator: arbitrary strict weak order; Value=int instantiated.")
prop("C12", "The next-best elements of a min-max heap are second least and second greatest",
     "For every non-empty MinMaxHeap, nextTop returns a stored element that is no greater than any element but the top one, and nextBottom one that is no less than any element but the bottom one (the only element itself when there is no second); neither modifies the heap. Elements are counted with multiplicity.",
     ["inputs", "histories"], "all heaps of up to 2^30 elements, all values, all strict weak orders",
     "No test calls nextTop on a heap where the second element is a child of the root, the case that was wrong.",
     [C + "min_max_heap.h"], [("MinMaxHeap::nextTop, nextBottom", C + "min_max_heap.h")],
     BASE + "Unbounded, by induction over the nodes from the heap order (C11).")
prop("C13", "Disjoint sets are the partition produced by the joins made",
     "After any sequence of constructions, initSets, makeSet, find and join calls on a DisjointSet, two nodes have equal find results exactly if they are connected by the joins made; the result is a member of the set and its own find result; join returns the representative of the union, or nodeNum() when both nodes already are in one set or an id is invalid; makeSet returns a new singleton with the next id; find of an invalid id returns nodeNum() and changes nothing. Every call terminates.",
     ["inputs", "histories"], "all sequences of operations on up to 2^30 nodes, all ids including invalid ones",
     "The test joins a handful of nodes once; path compression and union decisions depend on the whole history.",
     [C + "disjoint_set.h", "common/src/disjoint_set.cpp"], [("DisjointSet::find, join, makeSet, initSets", "common/src/disjoint_set.cpp")],
     BASE + "Unbounded: the partition is a ghost map, acyclicity a ghost height; loop invariants are inferred and re-proved on every run.")
prop("C14", "Disjoint set sizes, set count and representatives match the partition",
     "After any sequence of operations on a DisjointSet, size(id) is the number of nodes in the set of id (0 for an invalid id), setNum is the number of sets, nodeNum and size() are the number of nodes, and parents writes exactly one node of every set, its representative, to the output iterator and changes nothing.",
     ["inputs", "histories"], "all sequences of operations on up to 2^30 nodes",
     "Counts drift only after particular histories (makeSet after joins, joining in either rank order); the test prints them for one.",
     [C + "disjoint_set.h", "common/src/disjoint_set.cpp"], [("DisjointSet::join, makeSet, size, setNum, parents", C + "disjoint_set.h")],
     BASE + "Unbounded: class sizes and root counts are ghost functions whose lemmas are proved by induction.")
prop("C15", "Label set operations are the set operations",
     "For all LabelSets A and B and every label: a set constructed from a range holds exactly the range's labels; insert and remove change the membership of exactly the given label, clear removes all; inside says whether a label is in the set; size and empty count the distinct labels and begin..end enumerates each once in increasing order; == holds exactly for sets with the same labels and != is its negation; unionSet, intersectionSet and differenceSet contain exactly the labels of A or B, of A and B, and of A but not B, and change neither operand.",
     ["inputs", "histories"], "all sets of int labels, all labels",
     "The test compares one pair of sets; equality was wrong whenever one set is a prefix of the other, which no test samples.",
     [C + "label_set.h", "common/src/label_set.cpp"], [("LabelSet::operator==, unionSet, intersectionSet, differenceSet, insert, remove", "common/src/label_set.cpp")],
     BASE + "std::set<int>, std::vector<int> and the algorithms on sorted ranges used through assumed contracts (their standard specification).")
prop("C16", "Peak detection reports exactly the strict peaks, best first",
     "For every domain (given by minimum and maximum, by sizes, or by centre and half-size), every window half-size, every map of values and every value order, PeakFinderD::detect reports exactly the cells of the domain that come strictly before every other cell of the domain within their window and, when the filter is enabled, strictly before the filter value; each such cell is reported once, and the cells are reported in the order of their values (no cell before a strictly better one). The map is never read outside the domain.",
     ["inputs"], "all domains, windows, maps and strict weak orders in 1, 2 and (thorough) 3 dimensions, unbounded sizes",
     "The test prints the peaks of one histogram; the first cell of the domain was never tested and stale or repeated cells of the sliding window hid peaks.",
     [C + "peak_finder_d.h", C + "interval_indices.h", C + "min_max_heap.h"], [("PeakFinderD::detect, findIncrement, setDomain, setDomainCentered, setPeakWindow, enableFilterPeakMin", C + "peak_finder_d.h")],
     BASE + "MinMaxHeap by the contracts proved in C11 and C12, the orders of cells by C07 and C08, interval operations by C09; coordinates and windows up to 2^25. The five loops by inferred invariants over one universally quantified cell and one competitor.")
prop("C17", "Cosine and Fourier bounds enclose the function on the interval",
     "For every interval [a, b], in either order and of any length, findLUCos gives bounds within [-1, 1] that enclose cos on the whole interval and are both attained there; for any even number of coefficients c, findLUFourier gives bounds that enclose the sum of c[2k] cos(2k theta) + c[2k+1] sin(2k theta) at every theta of the interval, and evaluateFourier returns the sum of c[2k] cos(k theta) + c[2k+1] sin(k theta).",
     ["inputs", "configurations"], "all real intervals, all angles in them, all coefficient vectors of even length >= 2",
     "The test prints bounds for a few intervals; an interval that straddles one extremum, is longer than a period or is given backwards needs its own case, for every angle inside it.",
     [C + "functions.h", "common/src/functions.cpp"], [("findLUCos, findLUFourier, evaluateFourier", "common/src/functions.cpp")],
     BASE + "Doubles idealised as reals; trigonometric axioms (monotony between multiples of pi, angle addition, amplitude and phase) are instantiated, not proved. Loops by invariant, any number of coefficients.")
prop("C18", "Normalised angles are the same angle within one turn",
     "For every finite angle, normalize360 and normalizeAngle2Pi return a value in [0, 2 pi) and normalize180 one in [0, pi), rounding included, which differs from the angle by a whole number of periods (up to rounding). For every angle, begin and end, insideAngleInterval says whether the angle is met going counterclockwise from begin strictly before end, and insideAngleIntervalEq the same with end included, whatever turns the three angles are given in; the vector overload is true for every vector strictly inside the sector that runs counterclockwise from pBeg to pEnd and false for every vector strictly outside it.",
     ["inputs"], "all finite doubles (floats for the geometry functions); all real angles and intervals",
     "No test calls these; the interval was violated for small negative angles, near multiples of the period and for huge arguments, which sampling does not reach.",
     [C + "functions.h", "common/src/functions.cpp", G + "base_geometry2.h", "geometry/src/base_geometry2.cpp"],
     [("normalize180, normalize360", "common/src/functions.cpp"), ("normalizeAngle2Pi, insideAngleInterval, insideAngleIntervalEq", "geometry/src/base_geometry2.cpp")],
     BASE + "Range proved for all IEEE bit patterns with rounded arithmetic abstracted by sound facts; congruence and interval membership over the reals; floor by its mathematical definition.")
prop("C19", "Fast trigonometric functions stay within their error bounds",
     "fastCosSin and fastCosSinf give cosine and sine within 0.0012 for every argument up to 1e6 (500 in single precision) in magnitude; fastAtan and fastAtanf are within 1.5e-5 rad of the arctangent on [-1, 1]; fastAtan2 and fastAtan2f are within 1.6e-5 rad of atan2(y, x) for every (x, y) other than the origin, in all quadrants and on the axes.",
     ["inputs"], "all real arguments of the stated ranges",
     "The tests print errors at sampled angles; quadrant boundaries, axes and large arguments are single points or ranges that sampling misses.",
     [C + "functions.h", "common/src/functions.cpp"], [("fastCosSin, fastCosSinf, fastAtan, fastAtanf, fastAtan2, fastAtan2f", "common/src/functions.cpp")],
     BASE + "Floats idealised as reals; polynomial error bounds proved against Taylor enclosures with explicit remainders; fastAtan used through its contract in fastAtan2. Rounding is covered by the native stand-in only.")
prop("C24", "Geographic conversions are metric and invertible",
     "For every latitude in [-90, 90] metres per degree of longitude and latitude are the lengths of a degree on the WGS84 ellipsoid within 3 and 10 m. For every origin away from the poles, convertLatLonToLocalXY gives the longitude and latitude differences times those lengths at the origin's latitude, and convertLocalXYToLatLon is its inverse in both directions. convertLatLonAltToECEF puts points of altitude 0 on the WGS84 ellipsoid in the half plane of their longitude, and altitude moves them along the outward normal by exactly that length.",
     ["inputs"], "all latitudes, longitudes and altitudes (origin latitude strictly between the poles for local coordinates)",
     "No test calls these; the local conversion took the longitude for the latitude, which goes unnoticed when the two are similar in magnitude.",
     [G + "gis.h", "geometry/src/gis.cpp"], [("meterPerDegLat, meterPerDegLon, convertLatLonToLocalXY, convertLocalXYToLatLon, convertLatLonAltToECEF", "geometry/src/gis.cpp")],
     BASE + "Floats idealised as reals; multiple-angle formulas instantiated; meterPerDeg* used through their contracts in the local conversions.")
prop("C25", "Orientation test and pose transformation are exact planar geometry",
     "For every three points ccw is twice the signed area of the triangle (positive iff counterclockwise, zero iff collinear). For every pose (x, y, theta) poseToIsometry2, in both overloads, is the rigid transformation that rotates by theta and then translates by (x, y).",
     ["inputs"], "all points and poses",
     "No test calls these; a sign or a swapped coordinate shows only for points in general position.",
     [G + "base_geometry2.h", "geometry/src/base_geometry2.cpp"], [("ccw, poseToIsometry2", "geometry/src/base_geometry2.cpp")],
     BASE + "Floats idealised as reals; Eigen's transform code is verified inline rather than assumed.")

prop("C20", "Profiler statistics are those of the times recorded under each label",
     "After any sequence of updateStat calls on the Profiler, with any labels and times, the entry of each label holds the number of times recorded under it, their average, minimum and maximum, and getVariance returns their sample variance (sum of squared deviations over count - 1; 0 for a single time); recording under one label leaves all others as they are. The destructor of a ScopedTimer records exactly one time, the milliseconds since its construction, under its own label; elapsedTimeMs returns the milliseconds since construction.",
     ["inputs", "histories"], "all sequences of labels and real times (by induction over the sequence)",
     "No test reads the statistics; they were wrong from the second time recorded under a label on.",
     [C + "profiler.h", "common/src/profiler.cpp"], [("Profiler::updateStat, MeasureStatistic::getVariance, ScopedTimer::~ScopedTimer", "common/src/profiler.cpp")],
     BASE + "Doubles idealised as reals; std::map and std::string used through their standard specification; sums are ghost functions over the history.")
prop("C22", "The nearest point of a box lies on its surface and none is closer",
     "For every box whose dimensions, none negative, were given to setDimension, and for every query point, inside, outside or on the surface, BoxRegistration::associate yields a point on the surface of the box, centred at the origin with those dimensions, and no point of the surface is closer to the query.",
     ["inputs", "configurations"], "all boxes and query points in 2 and 3 dimensions, float and double",
     "No test calls it; the regions around a box (inside nearest to each face, beside a face, an edge, a corner) are 3^3 cases with ties, and nearest is a statement over all surface points.",
     [G + "box_registration.h"], [("BoxRegistration::associate, setDimension", G + "box_registration.h")],
     BASE + "Floats idealised as reals; Eigen and std::sort code is verified inline; the distance argument is split into coordinate distances and a lemma on squares, both discharged.")
prop("C23", "Hough plane accumulators count points and planes follow from bins",
     "For every HoughPlaneDetector with positive rho resolution and every set of points: init stores the given numbers of bins, ranges and resolutions (or the default ranges: theta over [0, pi/2), phi over [0, 2 pi), rho centred), clears every counter and gives direction (i, j) the unit normal (cos t cos f, cos t sin f, sin t) of its angles; insert adds to bin (i, j, r) exactly the number of points whose signed distance along that normal lies in [rhoMin + r rhoRes, rhoMin + (r+1) rhoRes), and then the spectrum of each direction is the sum of its squared counts; inserting a range through a converter clears the counters first; setZero clears them. getPlaneParam, in both overloads, is the bin's normal and minus its lower distance; all getters agree, whatever the numbers of bins.",
     ["inputs", "configurations", "histories"], "all detector parameters and point sets; every bin (ghost cell)",
     "No stable test uses the detector; points just below the first bin, fewer than 8 longitude bins and the second getPlaneParam overload were wrong.",
     [G + "hough_plane_detector.h", "geometry/src/hough_plane_detector.cpp"], [("HoughPlaneDetector::init, insert, setZero, getPlaneParam", "geometry/src/hough_plane_detector.cpp")],
     BASE + "Floats idealised as reals; Grid cells through the contract proved in C10; counts below 2^31 per bin. Three nested loops by inferred invariants.")
prop("C27", "A Morton tree keeps its items and finds them in Morton order",
     "Whatever was inserted into a MortonTree (single items, ranges, ranges through a converter) and in whatever order it was sorted or searched, it holds exactly the inserted items with their coordinates, and with their given ids or, when ids are reset, their insertion positions. After sort the items are in Morton order. findItem returns the first item, in Morton order, that does not precede the query (end if all do). computeLevel is the Morton level of the smallest cell containing the first and the last item of the interval, after sorting.",
     ["inputs", "histories"], "all trees of up to 2^30 items in 2 and 3 dimensions of int coordinates, all queries; every sequence of operations by the invariant 'marked ordered only if sorted'",
     "The test inserts one set of points and prints the searches; whether a search sees sorted items depends on the history of inserts, sorts and searches before it.",
     [C + "morton_tree.h", C + "morton_sort.h"], [("MortonTree::insert, sort, findItem, computeLevel", C + "morton_tree.h")],
     BASE + "std::sort, std::lower_bound and std::vector by assumed contracts (for the comparator the code passes); the Morton comparison and distance by the contracts of C04 and C05. Dim 2-3 and int instantiated. searchInBox is unfinished in the repository and not covered.")
prop("C26", "Vector arithmetic on arrays is component-wise and leaves its operands alone",
     "For every VectorArray and operand, +, -, * and / with another vector, * with a scalar, +=, *= with a vector and *= with a scalar give the result of the operation on each component, whatever the number of components, and also when the operand is the vector itself or one of its components. The binary operators change neither operand; the compound ones change only the vector on the left and return a reference to it. Copies equal the original and operator() reads and writes the component it names and no other.",
     ["inputs"], "all vectors of int (1 to 3 components), float (2) and double (1 to 4)",
     "No test uses the class; the binary operators did not even compile and scaling by a component of the vector itself was wrong.",
     [C + "vector_array.h"], [("VectorArray", C + "vector_array.h")],
     BASE + "Floats idealised as reals, int components up to 2^10 so that no product overflows.")
prop("C06", "Morton comparison of floating point vectors is the Z-order of their values",
     "For every pair of vectors of finite floats or doubles the Morton comparison answers true exactly when the first precedes the second in the order of interleaved bits of their fixed-point values, and it is a strict weak order.",
     ["inputs"], "all pairs of finite float and double vectors", "The tests compare a few ordinary vectors.", [C + "morton_sort.h"], [("mortonCmpFloat", C + "morton_sort.h")],
     na="The specification (most significant differing bit of unlimited fixed-point values) needs words of 277 bits for float and 2100 for double; with shifts by the symbolic difference of two exponents; no smaller word-level contract was found, and a proof was not attempted in the time available. Nothing is claimed. (Zero and negative zero are known to tie in the code, so the order could only hold with negative zero excluded.)")
prop("C21", "Parameters parsed from text or command line are read back unchanged",
     "Every key and value written with ParamMap (or given on a command line or in a file) is returned unchanged by getParam, the last one given winning.",
     ["inputs"], "all keys and values", "The test reads one file.", [C + "param_map.h"], [("ParamMap", C + "param_map.h")],
     na="ParamMap consists of std::stringstream extraction, std::string searching and file access; their behaviour would have to be assumed entirely, and a contract over the engine's opaque strings would decide nothing about the code. String theory of the installed solvers does not cover iostream formatting.")
prop("C29", "Correspondence graph association reports maximal consistent sets",
     "CorrespondenceGraphAssociation reports the maximal cliques of the consistency graph of the candidate correspondences.",
     ["inputs"], "all point sets", "The test runs one cloud.", [G + "correspondence_graph_association.h"], [("CorrespondenceGraphAssociation::associate", G + "correspondence_graph_association.h")],
     na="Unfinished in the repository: associate stops after 200 iterations counted by a static variable and never outputs the cliques it enumerates, so there is no result to specify.")
prop("C30", "Planes and lines accumulated in Hough space are detected",
     "HoughLineDetector counts, for every line bin, the inserted points on it.",
     ["inputs"], "all point sets", "No test.", [G + "hough_line_detector.h"], [("HoughLineDetector::insert", G + "hough_line_detector.h")],
     na="HoughLineDetector::insert is an empty stub at this commit: there is no behaviour to verify. (The plane detector is C23.)")
prop("C31", "Box registration converges to the pose of the box",
     "BoxRegistration's transform estimate minimises the distance of the points to the box.",
     ["inputs"], "all point sets", "The test registers one cloud.", [G + "box_registration.h"], [("BoxRegistration::computeTransform, estimateInitTransform", G + "box_registration.h")],
     na="Rests on Eigen's iterative SVD and eigenvalue solvers and on convergence in floating point, which the deductive engine cannot express; the association step is verified in C22.")
