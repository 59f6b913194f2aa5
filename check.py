#!/usr/bin/env python3
"""python3 check.py <property id>: build what the property needs from /repo's working tree, run, judge, report."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vt
from vt import Check, build, THOROUGH

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def q(quick, thorough):
    return thorough if THOROUGH else quick


def drv(name, libs, kind="plain", **kw):
    return dict(name=name, src=f"harness/{name}.cpp", libs=libs, kind=kind, **kw)


@check("C01")
def c01(c):
    e = build([drv("tri_dc", vt.TRI)])
    c.run(e["tri_dc"], args=["--reps", q("20", "400"), "--large", q("32", "600")], shards=8, timeout=q(300, 3000))
    return c.finish("a case is one triangulation of a generated point set (17 shape families x 2D/3D x float/double x splitter x "
                    "thread count x grid x real worker count); distinct = digest of the resulting simplex set, which was compared "
                    "with an independent Delaunay triangulation", min_evals=100,
                    assumptions=["stock CGAL Delaunay_triangulation_2/3 with exact predicates is correct (reference)",
                                 "TBB schedules as sampled"])


@check("C02")
def c02(c):
    e = build([drv("tri_lb", vt.TRI)])
    c.run(e["tri_lb"], args=["--reps", q("30", "800"), "--large", q("24", "500")], shards=8, timeout=q(300, 3000))
    return c.finish("a case is one triangulation of a generated point set (17 shape families x 2D/3D) by one of the 11 load-balancing "
                    "partitioners with random bounds checker, cell width, sample size, edge weights, cutoff, flattening and real worker "
                    "count; distinct = digest of the resulting simplex set, which was compared with an independent Delaunay triangulation",
                    min_evals=100,
                    assumptions=["stock CGAL Delaunay_triangulation_2/3 with exact predicates is correct (reference)",
                                 "KaHIP replaced by a stand-in returning region-growing, round-robin or random partitions",
                                 "TBB schedules as sampled"])


@check("C10")
def c10(c):
    e = build([drv("hash_seq", vt.UTIL), dict(drv("hash_seq", vt.UTIL, "asan"), name="hash_seq_asan")])
    c.run(e["hash_seq"], args=["--reps", q("20000", "400000")], shards=8, timeout=q(120, 2000))
    c.run(e["hash_seq_asan"], kind="asan", args=["--reps", q("800", "20000")], shards=8, timeout=q(120, 2000))
    return c.finish("a case is a random operation sequence (up to 60 batches) on one LP_Set/LP_Map/LP_MultiMap compared after every batch "
                    "with std containers; distinct = digest of the sizes and capacities met", min_evals=1000,
                    assumptions=["keys are non-zero, map values non-zero, fixed-size sets hold fewer keys than slots"])


@check("C11")
def c11(c):
    e = build([drv("hash_conc", vt.UTIL), dict(drv("hash_conc", vt.UTIL, "tsan"), name="hash_conc_tsan")])
    c.run(e["hash_conc"], args=["--part", "fixed", "--reps", q("1600", "40000")], shards=8, timeout=q(150, 3000))
    c.run(e["hash_conc_tsan"], kind="tsan", args=["--part", "fixed", "--reps", q("150", "4000")], shards=8, timeout=q(150, 3000))
    return c.finish("a case is 2..8 threads operating on one fixed-size concurrent table under injected preemptions; every operation is logged "
                    "with tickets and judged offline (per-key linearizability, exactly-once, conservation); distinct = digest of the outcome",
                    min_evals=200, assumptions=["x86 memory ordering for the plain build; ThreadSanitizer's model for the other"])


@check("C12")
def c12(c):
    e = build([drv("hash_conc", vt.UTIL), dict(drv("hash_conc", vt.UTIL, "tsan"), name="hash_conc_tsan")])
    c.run(e["hash_conc"], args=["--part", "grow", "--reps", q("1600", "40000")], shards=8, timeout=q(150, 3000))
    c.run(e["hash_conc_tsan"], kind="tsan", args=["--part", "grow", "--reps", q("150", "4000")], shards=8, timeout=q(150, 3000))
    return c.finish("a case is 2..8 threads operating through handles on one growing table that migrates up to 12 times under injected preemptions; "
                    "every operation is logged with tickets and judged offline (per-key linearizability, exactly-once, conservation across "
                    "migrations); distinct = digest of the outcome", min_evals=200,
                    assumptions=["x86 memory ordering for the plain build; ThreadSanitizer's model for the other"])

@check("C13")
def c13(c):
    e = build([drv("bits", vt.UTIL), dict(drv("bits", vt.UTIL, "asan"), name="bits_asan"), dict(drv("bits", vt.UTIL, "tsan"), name="bits_tsan")])
    c.run(e["bits"], args=["--part", "seq", "--reps", q("100000", "3000000")], shards=8, timeout=q(120, 2000), label="bits-seq")
    c.run(e["bits_asan"], kind="asan", args=["--part", "seq", "--reps", q("8000", "200000")], shards=8, timeout=q(120, 2000), label="bits_asan-seq")
    c.run(e["bits"], args=["--part", "conc", "--reps", q("3000", "100000")], shards=8, timeout=q(120, 2000), label="bits-conc")
    c.run(e["bits_tsan"], kind="tsan", args=["--part", "conc", "--reps", q("600", "20000")], shards=8, timeout=q(120, 2000), label="bits_tsan-conc")
    return c.finish("a case is a random sequence of bit set operations compared with a set of integers after every step, or 2..8 threads setting, "
                    "clearing and reading bits of one concurrent set whose per-bit histories are checked for linearizability; distinct = digest of the "
                    "sizes met", min_evals=1000, assumptions=["x86 memory ordering for the plain build; ThreadSanitizer's model for the other"])


@check("C14")
def c14(c):
    e = build([drv("storage", vt.GEO), dict(drv("storage", vt.GEO, "asan"), name="storage_asan")])
    c.run(e["storage"], args=["--reps", q("80000", "2000000")], shards=8, timeout=q(150, 2000))
    c.run(e["storage_asan"], kind="asan", args=["--reps", q("8000", "200000")], shards=8, timeout=q(150, 2000))
    return c.finish("a case is a random history of one blocked array, simplex container or point container compared with a reference map after "
                    "every step; distinct = digest of sizes and block counts met", min_evals=1000,
                    assumptions=["blocks of one container do not overlap and are not empty", "simplex ids start at 1"])


@check("C05")
def c05(c):
    e = build([drv("preds", vt.GEO), dict(drv("preds", vt.GEO, "asan"), name="preds_asan"),
               dict(drv("preds", vt.GEO), name="preds_native", libflags=["-O3", "-march=native", "-ffp-contract=fast"])])
    c.run(e["preds"], args=["--reps", q("40000", "1500000")], shards=8, timeout=q(150, 3000))
    c.run(e["preds_asan"], kind="asan", args=["--reps", q("4000", "100000")], shards=8, timeout=q(150, 3000))
    c.run(e["preds_native"], args=["--reps", q("40000", "1500000")], shards=8, timeout=q(150, 3000))
    return c.finish("an evaluation is one orientation plus one in-sphere determinant of points from 7 families (random, lattice ties, collinear/coplanar "
                    "up to ulps, cospherical up to ulps, far away, wildly different magnitudes), its sign compared with exact integer arithmetic; "
                    "distinct = distinct batches of 160 evaluations", min_evals=100000,
                    assumptions=["round-to-nearest, no overflow/underflow inside the stated coordinate window", "boost::multiprecision integers are correct"])

@check("C04")
def c04(c):
    e = build([drv("verify", vt.GEO), dict(drv("verify", vt.GEO, "asan"), name="verify_asan")])
    c.run(e["verify"], args=["--reps", q("30000", "2000000")], shards=8, timeout=q(250, 3000))
    c.run(e["verify_asan"], kind="asan", args=["--reps", q("3000", "100000")], shards=8, timeout=q(250, 3000))
    return c.finish("a case is a Delaunay triangulation of a generated point set (17 families, 2D/3D, float/double, with and without bounding points, random "
                    "ids and blocks), intact or damaged by up to 3 of 10 mutations; the reports of verify() and crossCheck() are compared with an independent "
                    "judgement using exact predicates; distinct = digest of the triangulation and of what is wrong with it", min_evals=1000,
                    assumptions=["CGAL's exact predicates are correct", "vertices are known to the point container, fingerprints are up to date"])


@check("C06")
def c06(c):
    e = build([drv("prims", vt.GEO), dict(drv("prims", vt.GEO, "asan"), name="prims_asan")])
    c.run(e["prims"], args=["--reps", q("50000", "3000000")], shards=8, timeout=q(200, 3000))
    c.run(e["prims_asan"], kind="asan", args=["--reps", q("4000", "100000")], shards=8, timeout=q(200, 3000))
    return c.finish("a case is about 30 boxes/spheres/points, 25 simplices or 25 point locations in a triangulation, compared with 400-digit "
                    "arithmetic; distinct = digest of the outcomes", min_evals=1000,
                    assumptions=["comparisons within 64 ulps of the coordinates' magnitude are not judged except for small integers"])


@check("C15")
def c15(c):
    e = build([drv("simplex", vt.GEO), dict(drv("simplex", vt.GEO, "asan"), name="simplex_asan")])
    c.run(e["simplex"], args=["--reps", q("400000", "10000000")], shards=8, timeout=q(200, 3000))
    c.run(e["simplex_asan"], kind="asan", args=["--reps", q("40000", "1000000")], shards=8, timeout=q(200, 3000))
    return c.finish("a case is 40 pairs of simplices sharing 0..D+1 vertices or 40 arrays to sort, compared with sets; distinct = digest of the "
                    "fingerprints", min_evals=10000, assumptions=["vertices of a simplex are distinct and ascending (sortVertices excepted)"])

@check("C09")
def c09(c):
    e = build([drv("lbgeo", vt.TRI), dict(drv("lbgeo", vt.TRI, "asan"), name="lbgeo_asan")])
    c.run(e["lbgeo"], args=["--reps", q("150000", "4000000")], shards=8, timeout=q(200, 3000))
    c.run(e["lbgeo_asan"], kind="asan", args=["--reps", q("15000", "300000")], shards=8, timeout=q(200, 3000))
    return c.finish("a case is a grid with 30 points, a tree of cells with 20 spheres, a half space with 30 spheres, or a partitioning (3 makers) with "
                    "25 spheres per partition, all compared with brute force; distinct = digest of the answers", min_evals=10000,
                    assumptions=["comparisons closer than a few ulps of the coordinates are not judged", "cell indices below 2^16 (float), 2^40 (double)",
                                 "CGAL's exact predicates are correct"])

@check("C07")
def c07(c):
    e = build([drv("part", vt.PART), dict(drv("part", vt.PART, "asan"), name="part_asan")])
    c.run(e["part"], args=["--reps", q("80000", "3000000")], shards=8, timeout=q(200, 3000))
    c.run(e["part_asan"], kind="asan", args=["--reps", q("8000", "200000")], shards=8, timeout=q(200, 3000))
    return c.finish("a case is one generated point set split recursively (up to 3 levels) by one splitter, statistics and partitions compared with brute force; "
                    "distinct = digest of the partitions", min_evals=10000, assumptions=["TBB schedules as sampled"])


@check("C08")
def c08(c):
    e = build([drv("lbpart", vt.TRI), dict(drv("lbpart", vt.TRI, "asan"), name="lbpart_asan")])
    c.run(e["lbpart"], args=["--reps", q("40000", "1500000")], shards=8, timeout=q(250, 3000))
    c.run(e["lbpart_asan"], kind="asan", args=["--reps", q("3000", "60000")], shards=8, timeout=q(250, 3000))
    return c.finish("a case is one generated point set partitioned by one of the 11 load-balancing partitioners with random parameters; the tree is "
                    "judged node by node, its checkers with up to 25 spheres; distinct = digest of the answers", min_evals=10000,
                    assumptions=["KaHIP replaced by a stand-in", "at least 150 points, more points than sample points", "TBB schedules as sampled"])


@check("C17")
def c17(c):
    e = build([drv("lbpart", vt.TRI), dict(drv("lbpart", vt.TRI, "asan"), name="lbpart_asan")])
    c.run(e["lbpart"], args=["--part", "sampler", "--reps", q("60000", "1500000"), "--large", q("24", "500")], shards=8, timeout=q(250, 3000), label="sampler")
    c.run(e["lbpart_asan"], kind="asan", args=["--part", "sampler", "--reps", q("3000", "60000")], shards=8, timeout=q(250, 3000), label="sampler_asan")
    return c.finish("a case is one sampling of a generated point set; its graph is compared with the edges of an independent Delaunay triangulation of the sample; "
                    "distinct = digest of the edges", min_evals=10000,
                    assumptions=["stock CGAL with exact predicates is correct (reference)", "KaHIP replaced by a stand-in that checks the graph it is given"])

@check("C03")
def c03(c):
    m = dict(mini=True, extra_src=[("minitbb/pool.cpp", "plain")])
    e = build([dict(drv("sched", vt.TRI, **m)), dict(drv("sched", vt.TRI, "tsan", **m), name="sched_tsan")])
    c.run(e["sched"], args=["--reps", q("1200", "60000")], shards=8, timeout=q(250, 3000))
    c.run(e["sched_tsan"], kind="tsan", args=["--reps", q("200", "8000")], shards=8, timeout=q(250, 3000))
    return c.finish("a case is one triangulation (classic or load-balanced, 2D/3D) executed by a replacement of the TBB scheduler with randomized task "
                    "splitting, order, stealing, nesting and delays on 1..8 threads; the result is compared with an independent Delaunay triangulation, and "
                    "ThreadSanitizer watches a part of the cases; distinct = digest of the simplex set", min_evals=300,
                    assumptions=["the replacement scheduler admits only schedules TBB admits", "stock CGAL with exact predicates is correct (reference)",
                                 "parallel border triangulation only in 2D (CGAL's 3D lock grid livelocks)"])


@check("C16")
def c16(c):
    e = build([drv("ids", vt.GEO), dict(drv("ids", vt.GEO, "asan"), name="ids_asan"), dict(drv("ids", vt.GEO, "tsan"), name="ids_tsan")])
    c.run(e["ids"], args=["--part", "seq", "--reps", q("200000", "4000000")], shards=8, timeout=q(120, 2000), label="ids-seq")
    c.run(e["ids_asan"], kind="asan", args=["--part", "seq", "--reps", q("20000", "400000")], shards=8, timeout=q(120, 2000), label="ids_asan-seq")
    c.run(e["ids"], args=["--part", "conc", "--reps", q("2400", "200000")], shards=8, timeout=q(120, 2000), label="ids-conc")
    c.run(e["ids_tsan"], kind="tsan", args=["--part", "conc", "--reps", q("800", "20000")], shards=8, timeout=q(120, 2000), label="ids_tsan-conc")
    return c.finish("a case is a random sequence of getId/releaseId/disable compared with a model, or 2..8 threads drawing and releasing ids with an ownership "
                    "table; distinct = digest of the ids", min_evals=10000,
                    assumptions=["ids are released by their holder, once", "TBB's concurrent queue is correct"])


@check("C25")
def c25(c):
    e = build([drv("base", vt.TRI), dict(drv("base", vt.TRI, "asan"), name="base_asan")])
    c.run(e["base"], args=["--reps", q("40000", "1000000")], shards=8, timeout=q(250, 3000))
    c.run(e["base_asan"], kind="asan", args=["--reps", q("1500", "40000")], shards=8, timeout=q(250, 3000))
    return c.finish("a case is a subset (with none, some or all bounding points) of a generated point set triangulated by the base triangulator, alone or by up to 6 "
                    "threads at once, compared with an independent Delaunay triangulation; distinct = digest of the simplex set", min_evals=2000,
                    assumptions=["stock CGAL with exact predicates is correct (reference)",
                                 "the modified CGAL data structures of the repository do not compile with the installed CGAL and are replaced by generated equivalents"])

@check("C18")
def c18(c):
    e = build([drv("gen", vt.TRI), dict(drv("gen", vt.TRI, "asan"), name="gen_asan")])
    c.run(e["gen"], args=["--reps", q("40000", "1000000")], shards=8, timeout=q(200, 3000))
    c.run(e["gen_asan"], kind="asan", args=["--reps", q("2000", "60000")], shards=8, timeout=q(200, 3000))
    return c.finish("a case is one point set generated in a random box (checked for count, box, shape, distribution, repeatability) or one spatial sort of a "
                    "generated point set (compared with its input as a multiset); distinct = digest of the points", min_evals=10000,
                    assumptions=["distribution tests at six standard deviations, seeds fixed by VERIF_SEED"])

@check("C19")
def c19(c):
    e = build([drv("run", vt.UTIL), dict(drv("run", vt.UTIL, "asan"), name="run_asan"), dict(drv("run", vt.UTIL, "tsan"), name="run_tsan")])
    c.run(e["run"], args=["--part", "seq", "--reps", q("200000", "4000000")], shards=8, timeout=q(120, 2000), label="run-seq")
    c.run(e["run_asan"], kind="asan", args=["--part", "seq", "--reps", q("20000", "400000")], shards=8, timeout=q(120, 2000), label="run_asan-seq")
    c.run(e["run"], args=["--part", "conc", "--reps", q("2400", "100000")], shards=8, timeout=q(120, 2000), label="run-conc")
    c.run(e["run_tsan"], kind="tsan", args=["--part", "conc", "--reps", q("400", "10000")], shards=8, timeout=q(120, 2000), label="run_tsan-conc")
    return c.finish("a case is a random sequence of trait, measurement and counter operations on one run compared with a model, written, read back and compared, or "
                    "2..8 threads measuring and counting at once; distinct = digest of the text form or of the recorded values", min_evals=10000,
                    assumptions=["names and values contain no character of the separators", "values of measurements add up to less than 2^64"])


@check("C20")
def c20(c):
    e = build([drv("log", vt.UTIL), dict(drv("log", vt.UTIL, "asan"), name="log_asan"), dict(drv("log", vt.UTIL, "tsan"), name="log_tsan")])
    c.run(e["log"], args=["--part", "seq", "--reps", q("3000", "20000")], shards=8, timeout=q(120, 2000), label="log-seq")
    c.run(e["log_asan"], kind="asan", args=["--part", "seq", "--reps", q("800", "5000")], shards=8, timeout=q(120, 2000), label="log_asan-seq")
    c.run(e["log"], args=["--part", "conc", "--reps", q("2000", "10000")], shards=8, timeout=q(120, 2000), label="log-conc")
    c.run(e["log_tsan"], kind="tsan", args=["--part", "conc", "--reps", q("400", "3000")], shards=8, timeout=q(120, 2000), label="log_tsan-conc")
    return c.finish("a case is a random sequence of log, indent, container and timer calls at changing log levels, or 2..8 threads logging at once; the whole log is "
                    "compared with a model; distinct = digest of the order of the entries", min_evals=1000,
                    assumptions=["the level is not changed while threads log"])


@check("C22")
def c22(c):
    e = build([drv("util", vt.PART), dict(drv("util", vt.PART, "asan"), name="util_asan"), dict(drv("util", vt.PART, "tsan"), name="util_tsan")])
    c.run(e["util"], args=["--part", "seq", "--reps", q("80000", "2000000")], shards=8, timeout=q(120, 2000), label="util-seq")
    c.run(e["util_asan"], kind="asan", args=["--part", "seq", "--reps", q("6000", "100000")], shards=8, timeout=q(120, 2000), label="util_asan-seq")
    c.run(e["util"], args=["--part", "conc", "--reps", q("1500", "60000")], shards=8, timeout=q(120, 2000), label="util-conc")
    c.run(e["util_tsan"], kind="tsan", args=["--part", "conc", "--reps", q("200", "6000")], shards=8, timeout=q(120, 2000), label="util_tsan-conc")
    return c.finish("a case is a batch of generated strings, numbers, objects or progress increments whose result is compared with an independent implementation, or 2..8 "
                    "threads advancing one progress display; distinct = digest of the input", min_evals=10000,
                    assumptions=["progress totals up to 2^50 (the display computes in doubles)"])

@check("C23")
def c23(c):
    e = build([drv("report", vt.TRI), dict(drv("report_dump", vt.TRI))])
    c.run(e["report"], args=["--reps", q("2400", "60000"), "--dump", e["report_dump"]], shards=8, timeout=q(200, 3000))
    return c.finish("a case is one run of the experiment executable's main with generated options and points, or 0..3 runs of an Experiment object, whose JSON output is parsed strictly and "
                    "compared figure by figure with the input and an independent triangulation; or one point dump, or one refused command line; distinct = digest of options and result", min_evals=300,
                    assumptions=["the graph partitioner is a stand-in with the interface of KaHIP"])

@check("C21")
def c21(c):
    e = build([drv("serial", vt.PART), dict(drv("serial", vt.PART, "asan"), name="serial_asan")])
    c.run(e["serial"], args=["--reps", q("40000", "1500000")], shards=8, timeout=q(150, 2500))
    c.run(e["serial_asan"], kind="asan", args=["--reps", q("8000", "300000")], shards=8, timeout=q(150, 2500), label="asan")
    return c.finish("a case stores generated objects (vectors, points, boxes, spheres, statistics, simplices, containers of them, partitions, point containers with bounding points at any offset), reads "
                    "them back into fresh and used objects and compares bit by bit, cuts or removes the file, or reads a generated text file of points, well formed or not; distinct = digest of the bits stored", min_evals=2000,
                    assumptions=["the archive is boost's own text/binary archive"])


@check("C24")
def c24(c):
    m = dict(libflags=["-fsanitize=float-cast-overflow,float-divide-by-zero", "-ftrivial-auto-var-init=pattern"])
    e = build([drv("leak", vt.TRI), dict(drv("tri_dc", vt.TRI, "asan", **m), name="tri_dc_asan"), dict(drv("tri_lb", vt.TRI, "asan", **m), name="tri_lb_asan")])
    c.run(e["leak"], args=["--reps", q("400", "6000")], shards=8, timeout=q(120, 2500))
    c.run(e["tri_dc_asan"], kind="asan", args=["--reps", q("6", "200")], shards=8, timeout=q(120, 2500), label="dc-asan")
    c.run(e["tri_lb_asan"], kind="asan", args=["--reps", q("8", "200")], shards=8, timeout=q(120, 2500), label="lb-asan")
    return c.finish("a case is one complete triangulation by either divide-and-conquer triangulator under AddressSanitizer, UBSan and range-checked float conversions with automatic variables filled with a "
                    "pattern, its result compared with an independent Delaunay triangulation; or one triangulation repeated eight times (and verified) with the memory held measured after each; "
                    "distinct = digest of the result", min_evals=200,
                    assumptions=["the sanitizers see code compiled here, not the inside of installed libraries"])


def main():
    pid = sys.argv[1]
    try:
        rc = CHECKS[pid](Check(pid))
    except vt.HarnessError as e:
        print("HARNESS ERROR:", e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
