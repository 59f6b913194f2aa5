#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    m = [{"name": n, "where": w} for n, w in mech]
    a = {"files": files, "mechanism": m}
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors=a, _t=technique, _n=note))


prop("C01", "Classic divide-and-conquer triangulation is exactly the Delaunay triangulation",
     "For every set of at least two distinct finite 2D or 3D points spanning a positive extent in each dimension, in float or double, the classic "
     "divide-and-conquer triangulator returns exactly the Delaunay simplices of those points together with the 2^D bounding points it places strictly "
     "around them: none missing, none extra, none twice. Every returned simplex has a unique id, ascending vertices, a fingerprint matching them, and in "
     "neighbor slot i exactly the simplex across the facet opposite vertex i (infinite if there is none), and the convex hull list names each simplex "
     "touching a bounding point exactly once and nothing else. This holds for every base partitioner, recursion depth/thread count, grid occupancy, log level, and for parallel "
     "as well as sequential border triangulation.",
     ["inputs", "configurations", "schedules"],
     "All point sets of the stated kind (uniform, clustered, skewed, anisotropic, degenerate/cospherical, far from the origin, negative), all partitioners, 1..64 partitions, any worker count.",
     "The two stable tests only exercise number recognition; the triangulation test of the repository samples a few uniform sets and compares with itself.",
     ["src/lib/DCTriangulator.cpp", "src/lib/CGALTriangulator.cpp", "src/lib/Geometry.cpp", "include/Geometry.h"],
     [("border detection", "DCTriangulator::getEdge"), ("merge", "DCTriangulator::mergeTriangulation"), ("neighbor repair", "DCTriangulator::updateNeighbors"),
      ("where-used list", "DCTriangulator::buildWhereUsed"), ("bounding points", "DCTriangulator constructor")],
     "runtime monitor: reference-Delaunay and adjacency oracle over stressed executions",
     "Exploration of generated inputs and sampled schedules; trusts stock CGAL with exact predicates as the reference.")


prop("C02", "Load-balanced divide-and-conquer triangulation is exactly the Delaunay triangulation for every partitioner",
     "For every set of distinct finite 2D or 3D points (double) spanning a positive extent in each dimension, the load-balanced divide-and-conquer "
     "triangulator returns exactly the Delaunay simplices of the points together with its bounding points, with correct neighbors, fingerprints and "
     "hull list, whichever partitioner builds the partition tree (binary box-estimating, center-/bounds-/nearest-sample point assigning, the "
     "nearest-sample and hyperplane bipartitioners, k-way cycle, or one of the classic partitioners), whichever border test is used (grid, accurate grid, "
     "boxes) with whatever cell width, sample and edge weights, flattened or not, whether partitions interleave, nest or stay empty, at every log level, and with sequential "
     "or parallel border triangulation.",
     ["inputs", "configurations", "schedules"],
     "All point sets of the stated kind, samples of at least 20 points, cell widths from 1/500 to 3 times the extent, 1..16 partitions, base cutoffs from 20, any worker count, any assignment of sample points to partitions by the graph partitioner.",
     "No stable test runs any load-balancing code; which border simplices matter depends on point positions, partition shapes and rounding.",
     ["include/LoadBalancedDCTriangulator.tpp", "include/load_balancing/PartitionTree.h", "include/load_balancing/GridIntersectionChecker.h",
      "include/load_balancing/AccurateGridIntersectionChecker.h", "include/load_balancing/BoundsIntersectionChecker.h",
      "include/load_balancing/HyperplaneIntersectionChecker.h"],
     [("border detection", "DCTriangulator::getEdge"), ("recursion", "DCTriangulator::recursiveTriangulate"), ("merge", "DCTriangulator::mergeTriangulation"),
      ("border tests", "IntersectionChecker::intersects")],
     "runtime monitor: reference-Delaunay and adjacency oracle over stressed executions",
     "Exploration of generated inputs, configurations and sampled schedules; KaHIP and nanoflann are replaced by stand-ins (not installed).")


prop("C10", "Sequential hash containers behave like set, map and multimap",
     "For every sequence of operations with non-zero keys, LP_Set, LP_Map (non-zero values) and LP_MultiMap give the answers of a mathematical set, map "
     "(last value wins) and multimap: insert reports whether the key was new, contains/count/get find exactly what was inserted, size/empty are exact, forward, "
     "backward and recursively split range iteration visit every entry exactly once, and copy, move, conversion to the concurrent counterpart and back, rehash, "
     "merge, filtering (drop the keys of another set), operator== and a boost archive round trip preserve exactly the right entries. Every lookup terminates, "
     "whatever the initial capacity (0, 1 and non-powers of two included) and however keys collide. Fixed-size sets hold fewer keys than slots.",
     ["inputs", "histories"],
     "All operation sequences and key distributions (dense, random, near the maximum, colliding low bits), 32- and 64-bit keys, all initial capacities.",
     "The repository's tests insert 60 random keys into a 128-slot table; full tables, wrap-around chains and repeated merges never occur.",
     ["include/datastructures/LP_Set.hxx", "include/datastructures/LP_Map.hxx", "include/datastructures/LP_MultiMap.hxx", "include/utils/Misc.h"],
     [("probing and growth", "LP_Set::insert / rehash"), ("merge", "LP_Set::merge"), ("range splitting", "_detail::range_type"), ("multimap ranges", "LP_MultiMap::get")],
     "runtime monitor: model comparison of random operation sequences, plus ASan/UBSan",
     "Exploration of generated operation sequences.")

prop("C11", "Fixed-size concurrent hash tables are linearizable and lose nothing",
     "When any number of threads insert into and query one Concurrent_LP_Set, Concurrent_LP_Map or Concurrent_LP_MultiMap, every call returns; per set/map key "
     "exactly one insert reports true, no operation sees the key before that insert began and every operation starting after any operation that knew the key sees it; a map entry ends "
     "with one of the values inserted for it, a multimap holds every successfully inserted pair exactly once; an insert reports Full only for a full set "
     "or a map/multimap at least half full, and then stores nothing. Afterwards size, iteration, contains and get agree exactly with what was inserted, and the parallel "
     "merge (with filter) and rehash keep exactly the right entries. There is no data race.",
     ["schedules", "inputs"],
     "All interleavings and key distributions, table capacities from 1 slot, 2..8 threads.",
     "A test sees a handful of interleavings and cannot tell a lost insert from one never made.",
     ["include/datastructures/LP_Set.hxx", "include/datastructures/LP_Map.hxx", "include/datastructures/LP_MultiMap.hxx"],
     [("CAS insert", "Concurrent_LP_Set::insert"), ("map insert", "Concurrent_LP_Map::insert"), ("reserved slots", "Concurrent_LP_MultiMap::insert"), ("merge", "unsafe_merge")],
     "runtime monitor: offline linearizability/conservation checker over recorded histories, plus TSan",
     "Exploration of sampled schedules with injected preemption (signals) and delays.")

prop("C12", "Growing hash tables keep every insert across concurrent migrations",
     "When any number of threads insert into and query a GrowingHashTable (of sets, maps or multimaps) through handles, while it grows any number of times, every call "
     "returns, no insert reports Full, and no entry is lost, duplicated or invented: per key exactly one set/map insert reports true, an insert is visible to "
     "every operation (through any handle, const or not, new or stale) that starts after it returned, never before it began, and when the threads are done size, iteration, "
     "contains and get agree exactly with what was inserted, also after moving the table and after unsafe_merge with a filter. There is no data race.",
     ["schedules", "inputs"],
     "All interleavings, initial capacities from 1, key distributions whose low bits do not all coincide, 2..8 threads, up to a dozen migrations, insert-heavy and read-heavy mixes.",
     "The lost-insert window of a migration is a few instructions wide; the repository's growth test compares one run's size.",
     ["include/datastructures/Growing_LP.hxx", "include/datastructures/LP_Set.hxx"],
     [("epoch protocol", "GrowingHashTableHandle::insert"), ("migration", "GrowingHashTableHandle::grow"), ("stale handles", "getTable")],
     "runtime monitor: offline linearizability/conservation checker over recorded histories, plus TSan",
     "Exploration of sampled schedules with injected preemption (signals) and delays.")

prop("C05", "Orientation and in-sphere predicates return the exact sign",
     "For all points whose coordinates are multiples of 2^-24 of magnitude at most 2^21 (float) or multiples of 2^-190 of magnitude at most 2^190 (double), "
     "Predicates<2|3>::orient and ::insphere and GeometryCore::orientation have exactly the sign of the exact determinant, zero included, and "
     "GeometryCore::inSphere is true exactly when the point lies inside or on the sphere through a non-degenerate simplex, whichever way it is oriented. "
     "This holds for degenerate, collinear, coplanar, cospherical, duplicate, nearly degenerate, far away and wildly scaled points, and also when the code is "
     "compiled with -O3 -march=native (fused multiply-adds available). No evaluation accesses memory out of bounds or has other undefined behaviour.",
     ["inputs", "configurations"],
     "All coordinate tuples in the stated windows, float and double, 2D and 3D, generic and native builds.",
     "Wrong signs occur only for inputs within a few ulps of degeneracy that reach the deeper adaptive stages; no test evaluates a predicate.",
     ["src/utils/Predicates.cpp", "include/utils/Predicates.h", "src/lib/Geometry.cpp", "include/Geometry.h"],
     [("adaptive stages", "orient2dadapt / orient3dadapt / incircleadapt / insphereadapt"), ("error bounds", "Predicates static constants"), ("in-sphere entry point", "GeometryCore::inSphere")],
     "runtime monitor: exact integer oracle on every predicate evaluation, plus ASan/UBSan",
     "Exploration of generated coordinate tuples biased to degeneracy; the long-double/other-rounding cases are out of scope.")

prop("C13", "Bit sets behave like sets of integers, concurrent bit operations are linearizable",
     "A Bit_Set over a range of ids (bounds widened to multiples of 32) always equals the set of ids set in it: testAndSet/testAndUnset/insert/erase report the "
     "previous state, batchSet sets exactly [from,to), isSet/contains/count/at are exact everywhere (false outside the range), ones/zeros/size/empty/one/zero are exact, "
     "forward, backward and recursively split range iteration visit exactly the set bits, and resize, filter (remove the ids of another set), merge (union), mergeFilter, "
     "copy, move, conversion to Concurrent_Bit_Set and back and a boost archive round trip give exactly the expected set whatever the two ranges (overlapping, nested, disjoint). "
     "When several threads set, clear and read bits of one Concurrent_Bit_Set, the operations on each bit are linearizable, no update of a neighbouring bit is lost, "
     "the counts are exact afterwards, and there is no data race.",
     ["inputs", "histories", "schedules"],
     "All operation sequences and range pairs, ids up to the 32-bit limit, 2..8 threads with arbitrary interleavings.",
     "Block-boundary shifts and range overlaps have thousands of combinations, lost updates need two threads in the same word.",
     ["include/datastructures/Bit_Set.hxx"],
     [("batch masks", "Bit_Set::batchSet"), ("range combination", "filter / merge / mergeFilter"), ("atomic bit operations", "Concurrent_Bit_Set::testAndSet"), ("iteration", "_detail iterators")],
     "runtime monitor: model comparison and per-bit linearizability checker, plus ASan/UBSan/TSan",
     "Exploration of generated sequences and sampled schedules.")

prop("C14", "Blocked storage, simplex container and point container hold exactly what was put in",
     "BlockedArray2 and the simplex container dSimplices, built from non-empty disjoint id blocks by addBlock and merge in any order, find every id's own element through any hint or handle, "
     "report contains/inRange/lowerBound/upperBound/exact_size exactly, throw out_of_range for ids in gaps or outside, iterate (forward, backward, recursively split) over "
     "every element once in id order (dSimplices: every live simplex, not removed or unset ones), and survive move and (BlockedArray2) a boost archive round trip. Merging keeps all elements and (if asked) both "
     "hull lists; dSimplices::filter removes exactly the given simplices, also from the hull list; genFingerprint covers exactly the live simplices. "
     "dPoints keeps finite points (from index offset+1), bounding points (cINF+i) and offset apart under emplace, resize, reserveUpToIdx and offset changes, selects "
     "and iterates them exactly, compares equal exactly to its own id set and throws for ids outside. BlockedArray/Concurrent_BlockedArray grow without moving elements "
     "and throw out_of_range from at() beyond their capacity.",
     ["inputs", "histories"],
     "All histories of block additions, merges, removals and lookups with random hints.",
     "The lookups cache the last block; an error needs a particular order of blocks, hints and gaps.",
     ["include/datastructures/BlockedArray2.hxx", "include/datastructures/BlockedArray.hxx", "include/datastructures/VectorAdapter2.hxx", "include/Geometry.h"],
     [("block lookup with hint", "BlockedArray2::find / contains / at"), ("sorted merge", "BlockedArray2::merge"), ("removal", "dSimplices::filter"), ("index offset", "dPoints")],
     "runtime monitor: model comparison of random histories, plus ASan/UBSan",
     "Exploration of generated histories.")

prop("C04", "verify() and crossCheck() accept exactly the right triangulations and report exactly what is wrong",
     "For simplex containers whose simplices have ascending vertices known to the point container and current fingerprints, verify(points[, ids]) is valid exactly if the finite vertices "
     "used are exactly the finite points (or the given ids), every simplex touching a bounding point and no finite one is in the hull list, no two simplices have the same vertices, every "
     "simplex's set of neighbor ids is exactly the set of other simplices sharing all but one vertex with it, and no finite vertex of a neighbor lies strictly inside a simplex's circumsphere. "
     "So it accepts every Delaunay triangulation, cospherical and lattice points included. duplicates and inCircle list exactly the offending pairs / vertices; wrongNeighbors names every simplex with a "
     "wrong neighbor list and only relations involving one; entries naming removed, unset or nonexistent simplices count as wrong and never crash it. crossCheck(real) is valid exactly if both containers have the same simplices and every neighbor "
     "relation of real exists here; missing and invalid list exactly the simplices only in real / only here, whatever ids and blocks the containers use.",
     ["inputs", "histories"],
     "All triangulations of generated point sets, intact or damaged in up to three ways, float and double, 2D and 3D, any worker count.",
     "A verifier is only as good as its behaviour on wrong triangulations, of which tests contain none.",
     ["src/lib/Geometry.cpp", "include/Geometry.h"],
     [("verification", "dSimplices::verify"), ("cross check", "dSimplices::crossCheck"), ("strict in-sphere test", "GeometryCore::inSphere"), ("fingerprint", "dSimplices::genFingerprint")],
     "runtime monitor: independent exact judgement of mutated triangulations, plus ASan/UBSan",
     "Exploration of generated triangulations and damages.")

prop("C06", "Boxes, circumspheres, distances and point location are geometrically right",
     "For finite float or double inputs without over- or underflow: dBox contains points and boxes exactly (closed), intersects(sphere) and contains(sphere) are right up to rounding (exact for small "
     "integers, touching counts for both), box minus one of its halves is the other half, splitBox/enlargeBoxAroundVector/makeBoundingBox are exact and vecToBox/vecToBoxBoundary have the length of the distance to the box / its boundary. circumsphere always "
     "encloses the exact circumsphere (infinite radius if it cannot), and is within 1e-9 relative plus 300 ulps of it for well-shaped simplices. dSimplex::inSphere agrees with the exact sphere, "
     "inSimplex is right for points clearly inside or outside of well-shaped simplices, sqDistanceToFace is the squared distance to the facet's line/plane, findNearestVertex "
     "returns a closest vertex, and findNearestSimplex returns, from any or no starting simplex, a simplex containing the point if it lies well inside a well-shaped simplex of the triangulation and otherwise "
     "some simplex of it, also if the container has unset slots.",
     ["inputs"],
     "All boxes, spheres, simplices (well-shaped to nearly degenerate) and triangulations in the stated range, 2D and 3D, float and double.",
     "Circumspheres decide which simplices are re-triangulated; errors appear only for badly conditioned simplices or particular positions.",
     ["include/Geometry.h", "src/lib/Geometry.cpp", "include/load_balancing/BoxUtils.h", "include/load_balancing/VectorOperations.h"],
     [("box tests", "dBox::contains / intersects"), ("circumsphere", "GeometryCore::circumsphere"), ("barycentric test", "GeometryCore::inSimplex"), ("walk", "dSimplices::findNearestSimplex"), ("box helpers", "BoxUtils.h")],
     "runtime monitor: 400-digit arithmetic oracle on every evaluation, plus ASan/UBSan",
     "Exploration of generated inputs; near-ties are not judged.")

prop("C15", "Simplex operations agree with vertex sets, fingerprints identify facets",
     "For simplices with distinct ascending vertices (finite and bounding, up to 64 bits): equalVertices, countSharedVertices, contains, containsAll, containsAny, isNeighbor (all but one vertex shared), "
     "equalNeighbors, isFinite and operator== (ids if both or neither is set, else vertices) agree with the vertex sets; genFingerprint does not depend on the order of the vertices, two simplices sharing a facet compute the "
     "same non-zero faceFingerprint for it; sortVertices and static_insertion_sort(_with_data) sort stably and keep every neighbor/datum with its vertex/key; nothing of it is undefined behaviour.",
     ["inputs"],
     "All vertex sets and overlaps, arrays of 1 to 64 elements.",
     "Wrong answers depend on particular overlap patterns and ids.",
     ["include/Geometry.h", "include/utils/StaticSort.h"],
     [("merge-style comparison", "dSimplex::countSharedVertices"), ("fingerprints", "genFingerprint / faceFingerprint"), ("sorting", "static_insertion_sort_with_data")],
     "runtime monitor: set model comparison, plus ASan/UBSan",
     "Exploration of generated simplices.")

prop("C09", "Intersection checkers never miss a partition and are exact for cells",
     "For 2D/3D float and double points, any cell width (cell indices below 2^16 in float, 2^40 in double), finite non-flat simplices and any sphere, answers within a few ulps of a tie aside: "
     "Grid::indexAt returns the cell [i*w,(i+1)*w) of the point, boundsOf/centerOf/intersectsWith match that cell and adjacent cells share their boundary; an AABBTree accepts every cell of points inside its bounds and "
     "intersects(sphere) is true exactly if some inserted cell meets the closed sphere, intersectingCells lists exactly these cells, each once, also after copying or moving the tree. "
     "The Grid, AccurateGrid and Bounds partition makers put every finite id into exactly the partition the assigner named and every bounding point into every partition, once; "
     "the checkers' bounds() are the bounding box of the partition's finite points; a checker never says no to a sphere that contains a point of its partition; "
     "the box checker says yes exactly if that box meets the sphere, the grid checker exactly if a cell holding a point of the partition does, the accurate grid checker if a point of the partition in such a cell lies in or on the simplex' circumsphere, "
     "and only if some given point lies in or on it. The half-space checker says yes exactly if the open half space meets the sphere. copy() answers like the original.",
     ["inputs", "configurations"],
     "All points, cell widths, assigners (empty partitions included), spheres and simplices in the stated range.",
     "A missed intersection makes the triangulation silently non-Delaunay for particular spheres; no test evaluates a checker.",
     ["include/load_balancing/Grid.h", "include/datastructures/AABBTree.h", "include/load_balancing/GridIntersectionChecker.h", "include/load_balancing/AccurateGridIntersectionChecker.h",
      "include/load_balancing/BoundsIntersectionChecker.h", "include/load_balancing/HyperplaneIntersectionChecker.h", "include/load_balancing/BoxUtils.h"],
     [("cell index", "Grid::fitOneDimension"), ("tree insertion", "TreeNode::insert / split"), ("tree query", "TreeNode::intersects"), ("point assignment", "GridIntersectionPartitionMaker::operator()"),
      ("accurate test", "AccurateGridIntersectionChecker::intersects")],
     "runtime monitor: brute-force oracle over cells and points, plus ASan/UBSan",
     "Exploration of generated partitions and spheres.")

prop("C07", "Classic partitioners split a point set into disjoint, complete, bounded parts",
     "The d-way, cycle, extend and one-dimensional splitters divide any non-empty set of points with bounding points (also a single point, or points sharing coordinates) into 2^D (d-way) resp. 2 partitions with ids 0,1,.. "
     "Every given finite id is in exactly one partition, whose bounds (closed) contain the point; the bounds are the bounding box of the given finite points, cut at its midpoint in every (d-way), the (provenance length - 1 mod D)-th (cycle), a longest (extend) "
     "or the configured (one-dim) dimension. Every partition contains all 2^D bounding points, none if ignoreInfinite is set. contains() finds a point in exactly its partition(s), partition(id) names it and throws out_of_range for absent ids. "
     "getPointStats (parallel) and getPointStatsSeq give exactly the minimum, maximum and midpoint of the finite points (of all points if asked). getRecursionDepth is k for (2^D)^k (d-way) resp. 2^k threads, k >= 0. "
     "None of it has undefined behaviour or depends on the number of worker threads.",
     ["inputs", "configurations", "schedules"],
     "All point sets and subsets (17 families, single points, ties with the midpoint), float and double, 2D and 3D, recursion up to three levels.",
     "A point lost or duplicated at a particular midpoint tie or sub-partition silently changes the triangulation.",
     ["src/lib/Partitioner.cpp", "include/Partitioner.h", "src/lib/Geometry.cpp"],
     [("distribution", "dWayPartitioner / CyclePartitioner / ExtendPartitioner / OneDimPartitioner ::partition"), ("statistics", "getPointStats / getPointStatsSeq"), ("lookup", "Partitioning::partition / contains")],
     "runtime monitor: brute-force model of every partitioning, plus ASan/UBSan",
     "Exploration of generated point sets.")

prop("C08", "Every load-balancing partitioner yields a complete, sound partition tree",
     "For any point set (at least 150 distinct points), every partitioner (box-estimating bipartitioner, center-/bounds-distance and nearest-sample assigning, nearest-sample bipartitioner, hyperplane bipartitioner, k-way splitter, the four classic splitters wrapped), each with box, grid or accurate "
     "grid checker where applicable and with or without flattening, returns a tree whose leaves hold every given finite id exactly once and each of the 2^D bounding ids exactly once per leaf. It has at most as many leaves as threads requested (box-estimating: at most 1024). Every node has an intersection checker whose "
     "bounds() contain its finite points and which never says no to a sphere that contains one of them (accurate grid: to a simplex whose circumsphere holds one). hasFinitePoints is exact; copying a tree is deep; collect() turns a node into the leaf of all its ids; "
     "flatten() and FlatPartitioner keep exactly the leaves; toOldPartitioning yields partition i with the ids, bounds and checker of child i. The graph handed to KaHIP is well-formed. None of it has undefined behaviour, and partitioners are destroyed properly through their base class.",
     ["inputs", "configurations", "schedules"],
     "All point sets (17 families), thread counts 1..16, cutoffs, cell widths, sample sizes, edge weights, KaHIP answers and worker counts.",
     "A lost point or a wrong 'no' leads to a silently wrong triangulation for particular partitions; no test runs a partitioner.",
     ["include/load_balancing/sample_partitioner", "include/load_balancing/kWaySplitter.h", "include/load_balancing/OldPartitionerPartitioner.h", "include/load_balancing/PartitionTree.h",
      "include/load_balancing/FlatPartitioner.h", "include/load_balancing/IntersectionChecker.h"],
     [("assignment", "*SamplePartitioner::partition"), ("recursive bipartition", "BinaryBoxEstimatingSamplePartitioner / HyperplaneSamplingBipartitioner / NearestSamplePointAssigningSampleBipartitioner"),
      ("tree operations", "PartitionTree::collect / flatten"), ("conversion", "toOldPartitioning")],
     "runtime monitor: whole-tree oracle on every produced partition tree, plus ASan/UBSan",
     "Exploration of generated inputs; KaHIP itself is replaced.")

prop("C17", "Sampling yields distinct input points and the Delaunay edge graph of the sample",
     "Sampler returns distinct points of the given finite ids, at most as many as requested, and a graph in valid adjacency array form with exactly the edges (both directions, once, no loops) of the Delaunay triangulation of these points. "
     "Edge weights are 1 without a weight function and otherwise between 1 and 99, equal in both directions and not larger for a longer edge if the weight function decreases. Every sample point is assigned a partition below the requested number; size(), clone() are exact; the input points are not changed.",
     ["inputs", "configurations"],
     "All point sets and subsets (17 families), sample sizes from 1 to 150 (samples with fewer than D+2 or degenerate points have no simplices and no edges), weight functions, seeds.",
     "A missing or doubled edge depends on the sample drawn; no test samples.",
     ["include/load_balancing/sample_partitioner/Sampler.h"],
     [("sample", "Sampler::operator()"), ("graph", "Sampler::makeGraph"), ("weights", "DistanceToEdgeWeightFunction")],
     "runtime monitor: independent Delaunay triangulation of every sample, plus ASan/UBSan",
     "Exploration of generated inputs; degenerate samples without triangulation are compared with an empty graph.")

prop("C03", "The triangulation does not depend on the schedule and is free of data races",
     "However the tasks of a triangulation are split, ordered, nested, stolen and delayed on any number of worker threads, and whatever the log level, both divide-and-conquer triangulators return the same, correct set of simplices with correct neighbors and hull list, never hang, never throw, "
     "and no two threads access the same memory without synchronisation while at least one of them writes: neither simplex marks, ids and neighbors, nor hash tables, their hash functions and random generators, nor point and id containers.",
     ["schedules", "inputs", "configurations"],
     "All task schedules TBB permits (splitting of ranges, order, stealing while waiting, isolation), 1..8 threads, both triangulators, all partitioners.",
     "A race shows only in particular interleavings; a test run takes one and its result is usually right all the same.",
     ["src/lib/DCTriangulator.cpp", "include/LoadBalancedDCTriangulator.tpp", "include/Geometry.h", "include/datastructures", "src/lib/Partitioner.cpp"],
     [("border traversal with marks", "getEdge / buildWhereUsed / updateNeighbors"), ("concurrent insertion", "mergeTriangulation"), ("recursion", "_triangulate"),
      ("where-used tables", "LP_MultiMap / GrowingHashTable"), ("hash functions", "Hasher")],
     "runtime monitor: randomizing scheduler with reference-Delaunay oracle, plus ThreadSanitizer",
     "Sampled schedules; ThreadSanitizer sees the executions it is given.")

prop("C16", "Index handlers never hand out an id that is in use",
     "IndexHandler and Concurrent_IndexHandler, started at any id, never hand out an id that is currently in use, also when any number of threads draw and release ids at once; a released id is handed out again before a fresh one, exactly once per release, fresh ids are consecutive, "
     "maxId() is always one above the largest id handed out and never decreases, and ids released after disable() do not come back.",
     ["inputs", "schedules"],
     "All sequences and interleavings of getId, releaseId (by the holder), maxId and disable.",
     "A doubly issued id overwrites one simplex with another; it depends on the interleaving.",
     ["include/utils/IndexHandler.h"],
     [("draw", "getId"), ("give back", "releaseId"), ("bound", "maxId")],
     "runtime monitor: ownership table and model of the id pool under injected preemption, plus ASan/UBSan and TSan",
     "Sampled histories and schedules.")

prop("C25", "The base triangulator returns exactly the Delaunay triangulation of any subset of the points",
     "For every subset of a set of distinct finite points, with none, some or all of the bounding points, given in any container and order (or no subset: all points and bounding points), CGALTriangulator (2D sequential and parallel, 3D sequential; float and double) returns exactly the Delaunay simplices of these "
     "points, none if they are too few or do not span the dimension, with ascending vertices, matching fingerprints, neighbor i across the facet opposite vertex i (infinite if there is none) and a hull list naming exactly the simplices that touch a bounding point, once each. All simplex ids are drawn from the shared counter "
     "and never used by two triangulations, also when several threads triangulate at once.",
     ["inputs", "configurations", "schedules"],
     "All subsets of point sets of 17 families from empty to all, float and double.",
     "Everything else is glued together from these base cases; particular subsets (collinear, tiny, with bounding points) matter.",
     ["src/lib/CGALTriangulator.cpp", "include/CGALTriangulator.h", "include/Triangulator.h", "include/utils/MakeIds.h"],
     [("conversion from CGAL", "_delaunayCgal"), ("ids", "dSimplices::simplexID, IndexHandler"), ("all points", "makePointIds")],
     "runtime monitor: reference-Delaunay and adjacency oracle, plus ASan/UBSan",
     "Exploration of generated inputs; trusts stock CGAL with exact predicates as the reference.")

prop("C18", "Generators produce the requested points inside the box, repeatably, and sorting only permutes them",
     "For every box, number n (zero included) and seed, each of the eight point generators (by factory letter or by name) returns slot 0 reserved plus exactly n points at ids 1..n, all of them set, inside the box, of the shape it is named for (normal and uniform: centred, "
     "all orthants; ellipsoid: on its surface; skew lines: half of the points on each line; bubbles: at most the given number of clusters of the given radius); the same seed gives the same points, whichever factory made the generator, another seed gives others. Spatial sorting permutes the finite points, "
     "leaves id 0 and the bounding points alone, is repeatable and brings close points together.",
     ["inputs", "configurations"],
     "All boxes (offset and scale over six orders of magnitude), n from 0 to 6000, seeds, 2D/3D, float/double.",
     "An unset or out-of-box point appears only for particular n, boxes and seeds; no test generates points.",
     ["include/utils/Generator.h", "include/load_balancing/PatchBubbleGenerator.h", "include/load_balancing/UnboundBubbleGenerator.h", "include/load_balancing/MaliciousBubbleGenerator.h", "include/load_balancing/CommandLineInterface.h", "src/lib/SpatialSort.cpp", "include/SpatialSort.h"],
     [("generators", "PointGenerator::generate"), ("factories", "GeneratorFactory::make, createGenerator"), ("sorting", "CGALSpatialSorter::sort")],
     "runtime monitor: multiset, box, shape and repeatability oracle over generated requests, plus ASan/UBSan",
     "Exploration of generated inputs; distribution only statistically.")

prop("C19", "Experiment runs keep every trait, measurement and count and survive their text form",
     "An ExperimentRun holds exactly the traits added (the first value of a name) or updated (the last), typed values read back as given, every measurement in order, their average (rounded down) and the sum of the increments of every counter; measurements and increments made by several threads at once, directly or through the PROFILER, are neither lost, doubled nor torn, without data race, and a counter read meanwhile never falls. "
     "str() lists every trait in order of the names with the given separators (and on request the averages); reading this text back, with any separators whose characters do not occur in names and values, empty values included, gives a run with the same traits except git-rev, start-time, end-time, run-number and host, which are not read; runs compare equal, in either order, exactly if their other traits agree.",
     ["inputs", "schedules"],
     "All sequences of operations, separators, names and values; all interleavings of measuring threads.",
     "The tests store and load one run; a lost increment or a wrong comparison depends on content and schedule.",
     ["include/utils/Timings.h", "src/utils/Timings.cpp"],
     [("traits", "addTrait, updateTrait, getTrait"), ("text form", "str, ExperimentRun(const std::string&)"), ("comparison", "operator=="), ("concurrent recording", "addMeasurement, incCounter, ExperimentRunAccessor")],
     "runtime monitor: model comparison and conservation of concurrent recordings under injected preemption, plus ASan/UBSan and TSan",
     "Sampled histories and schedules.")

prop("C20", "The logger keeps every entry whole, in order and at its level",
     "For every sequence of log calls and level changes, printing the log at a level yields exactly the entries up to that level, each whole, once and in order, indented by as many tabs as the logging thread's indentation; the macros log exactly if the level permits, containers are written with prefix, separators and line end, the LIVE levels write the same to std::cout at once and SILENT writes and prints nothing. "
     "Several threads logging at once lose, mix or reorder none of their own entries, keep their own indentation (a new thread starts at none) and do not race. A task timer writes exactly one line with rank, name, begin, end and their difference per started and ended interval.",
     ["inputs", "schedules"],
     "All sequences of calls at all seven levels; all interleavings of logging threads.",
     "Lost or mixed entries need concurrent logging; no test logs.",
     ["include/utils/Logger.h", "src/utils/Logger.cpp", "include/utils/TaskTimer.h"],
     [("entries", "addLogEntry, printLog"), ("indentation", "incIndent, decIndent, indent"), ("containers", "logContainer"), ("timers", "TaskTimer")],
     "runtime monitor: model of the log and per-thread order check under injected preemption, plus ASan/UBSan and TSan",
     "Sampled histories and schedules.")

prop("C22", "Text, number, progress and system utilities return what their names say",
     "is_int and is_float accept exactly optional sign + digits, and optional sign + digits with an optional point anywhere (at least one digit) + optional exponent; CSV::csv joins values by single spaces; split returns exactly the fields between delimiters (without the empty ones on request); popcount, isPow2, log2, logN (power-of-two base) and nextPow2 are exact for all unsigned types, isPowN holds for powers and not for numbers not divisible by n; "
     "the text forms of vectors, points, boxes, spheres, simplices, partitions and point statistics show exactly their content; failed assertions carry file and expression and evaluate it once; color commands, host name, date and memory sizes are right. A progress display, advanced by any increments by any number of threads, returns the count reached by each increment, shows marks in proportion, "
     "never fewer than due, and exactly 51 and a line end once the expected count is reached, without data race.",
     ["inputs", "schedules"],
     "All strings, numbers, objects; all partitions of the expected count (up to 2^50) into increments by 1..8 threads.",
     "The tests know a few numbers; wrong answers appear for particular strings, widths or schedules.",
     ["include/utils/StringUtils.h", "include/utils/CSV.h", "include/utils/Misc.h", "include/utils/ProgressDisplay.h", "include/utils/ASSERT.h", "src/utils/StringUtils.cxx", "src/utils/System.cpp", "src/utils/System.c", "src/utils/ccolor.cpp"],
     [("number recognition", "is_int, is_float"), ("bit arithmetic", "Misc.h"), ("progress", "ProgressDisplay::operator+="), ("text forms", "to_string")],
     "runtime monitor: independent reference implementations over generated inputs, linear order of concurrent increments, plus ASan/UBSan and TSan",
     "Exploration of generated inputs and sampled schedules.")

prop("C23", "Experiment reports are well formed and state what was done",
     "Running the load-balancing experiment executable, or an Experiment object any number of times, writes one well-formed JSON document whatever characters the arguments, distribution or file name contain: commit, date, the arguments joined by blanks, partitioner description (with ' (flattened)' if asked for), "
     "distribution or point file, number of points (without the reserved one), threads and seed are those in force; each run adds one result with non-negative times no longer than the run, the number of simplices of the Delaunay triangulation of points and bounding points, validity exactly if asked for (true for a correct triangulation), "
     "sample size, leaf partition sizes adding up to the points plus 2^D bounding points per partition, one base triangulation per non-empty partition of that size, and triangulatedPoints equal to the sum over base triangulations - of this run only. Unknown options, partitioners, bounds, or sampling are refused without output, missing ones with a failing exit code; "
     "--verbosity takes effect; the point dump prints exactly the generated points, one line each, which loadFromFile reads back.",
     ["inputs", "configurations", "histories"],
     "All combinations of options, distributions, point files and names, seeds, 1..16 partitions, 0..3 runs.",
     "No test runs an executable; the figures are wrong only for certain options, histories or characters.",
     ["include/load_balancing/Experiment.h", "include/load_balancing/CommandLineInterface.h", "include/load_balancing/monitors/ComprehensiveMonitor.h", "src/exe/LB_Experiments.cpp", "src/exe/LB_PointDump.cpp"],
     [("report", "Experiment::runOnce"), ("options", "defaultOptions, createPartitioner, createGenerator"), ("figures", "ComprehensiveMonitor"), ("dump", "LB_PointDump main")],
     "runtime monitor: strict JSON parser and cross-checks of every reported figure against an independent triangulation and the input",
     "Exploration of generated command lines and runs; the graph partitioner is a stand-in.")

prop("C21", "Stored objects and point files are read back exactly as they were",
     "Every vector, point, box, sphere, statistics object, simplex, container of such objects, partition and point set (with bounding points, at any id offset) written to a file and read back - into a fresh or a used object - "
     "equals the original bit for bit, infinities, NaNs, signed zeros and denormals included; storing changes nothing, the object read back can be used and grows like the original, and a missing or cut-off file is an error, never a partial object. "
     "Reading a text file of points (numbers in fixed or exponent notation, zero or of normal magnitude, separated by the given character, with or without a final line end) appends one finite point per line, in order, "
     "each coordinate the nearest number of the precision to the text, and returns their exact bounding box; points already held and bounding points stay as they were; "
     "a line with too few or too many coordinates, an empty line or something that is no number is refused.",
     ["inputs"],
     "All objects, all point files of zeros and normal numbers.",
     "The tests store one run description; a field left out of the archive, or an offset, shows only for objects that use it.",
     ["include/Geometry.h", "include/Partitioner.h", "include/utils/Serialization.hxx", "include/datastructures/BlockedArray.hxx", "include/datastructures/BlockedArray2.hxx", "src/lib/Geometry.cpp"],
     [("object archives", "serialize() members"), ("files", "storeObject, loadObject"), ("text files", "loadFromFile")],
     "runtime monitor: bitwise round-trip comparison with fault injection (cut-off and missing files), plus ASan/UBSan",
     "Exploration of generated objects and files.")

prop("C24", "Whole triangulations stay inside their memory, their number ranges and their initialised data",
     "In every complete triangulation by either divide-and-conquer triangulator, with any partitioner, bounds, point set, and worker count, all memory accesses stay inside live objects, nothing is freed twice, and no arithmetic is undefined: "
     "no shift by the width of a type, no signed overflow, no division by zero, and no conversion of a floating point number to an integer type that cannot hold it. The result is the Delaunay triangulation whatever uninitialised memory contains. "
     "Repeating the same triangulation (and verifying it) holds no more memory with every repetition: everything allocated on the way is released with the result.",
     ["inputs", "configurations", "histories"],
     "All point sets and configurations of C01 and C02, repeated any number of times.",
     "Overruns and leaks on unusual inputs leave the results of the tests unchanged.",
     ["src/lib/DCTriangulator.cpp", "src/lib/CGALTriangulator.cpp", "include/load_balancing", "include/datastructures", "include/Geometry.h"],
     [("triangulators", "DCTriangulator, lb::DCTriangulator"), ("partitioners", "kWaySplitter, Partitioner"), ("containers", "BlockedArray, hash tables")],
     "runtime monitor: ASan, UBSan with float conversion checks, pattern-filled automatic variables, allocator statistics over repetitions",
     "Exploration of generated inputs; races are C03's.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    M = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                         evidence_file=f"evidence/{p['id']}.json", technique=p["_t"], level="exploration", level_note=p["_n"]) for p in P],
         "not_applicable": [], "notes": "Design, results and limits: DESIGN.md. Known findings and repairs: known_findings.json."}
    json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
