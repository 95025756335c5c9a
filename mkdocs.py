#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place (run by hand)."""
import json
from props import PROPS
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=hook)))
HOOK = "PLUTO_SIM observer in lib/plutolib.c: reports every loop found parallel, vectorizable, unroll-jammable"
prop("C01", "Transformed programs keep every dependence, also when run in parallel",
 "Whenever the library returns a schedule for a program, executing the program in the order of that schedule, with the iterations of any loops reported as parallel or vectorizable spread over threads in any interleaving, starts no statement instance before the instances it depends on. This holds for every affine program, every parameter value and every combination of options (fusion, tiling, second-level tiling, wavefront and multi-parallel execution, diamond tiling, intra-tile reordering, inner parallelism).",
 ["schedules", "programs", "configurations"], "for all affine programs, dependence relations, options and tile sizes; for all thread interleavings of the loops reported parallel",
 "The unit tests look at six fixed programs and compare printed schedules; none executes a transformed program, and none combines tiling, wavefronts and fusion on interleaved statements.",
 ["lib/pluto.c", "lib/tile.c", "lib/post_transform.cpp", "lib/ast_transform.c", "lib/plutolib.c", "lib/polyloop.c", "lib/program.cpp", "lib/constraints_pluto.cpp"],
 [("legality constraints of every dependence", "lib/framework.cpp get_permutability_constraints"), ("satisfaction bookkeeping and permutable bands", "lib/pluto.c dep_satisfaction_test, lib/polyloop.c"), ("wavefronts", "lib/tile.c pluto_create_tile_schedule"), ("parallel loop detection", "lib/polyloop.c pluto_loop_is_parallel")],
 ["schedule returned by pluto_transform / pluto_schedule / pluto_schedule_str", "loops listed as parallel"], [("dep->satisfied, satvec", "where a dependence is carried", "include/pluto/internal/pluto.h")], HOOK)
prop("C02", "Every statement instance runs exactly once and maps back",
 "A returned schedule gives every instance of every statement exactly one time and never gives two instances of one statement the same time, so that generated code runs each instance exactly once whatever tiling, skewing or fusion was applied. Where the interface also returns a remapping, applying it to the time of an instance yields that instance's original iterators and leaves the parameters as they are.",
 ["programs", "configurations", "schedules"], "for all programs, options, tile sizes and all instances of all statements",
 "Tests compare text for a few programs; they enumerate no instances and never invert a schedule.",
 ["lib/plutolib.c", "lib/tile.c", "lib/program.cpp", "lib/pluto.c", "lib/math_support.c"],
 [("linear independence constraints", "lib/pluto.c get_linear_ind_constraints"), ("tile iterators constrained to floor", "lib/tile.c pluto_tile_band"), ("inverse of the transformation", "lib/program.cpp pluto_stmt_get_remapping")],
 ["schedule maps", "Remapping matrices and divisors"], (), HOOK)
prop("C03", "Accesses in, same memory out: the schedule preserves program results",
 "Given a program as a schedule with its array reads and writes, the schedule returned by the library, executed with its parallel loops in any interleaving, makes every statement instance read the values it reads in the original program and leaves the same final memory. This must hold for every choice of dependence analysis options.",
 ["programs", "configurations", "schedules"], "for all affine programs with affine accesses, all dependence analysis and transformation options, all interleavings",
 "The dependence analysing interface is exercised by one test that cannot even run here; no test computes values.",
 ["lib/plutolib.c", "lib/isl_support.c", "lib/program.cpp", "lib/pluto.c", "lib/tile.c"],
 [("dependence computation", "lib/plutolib.c / lib/program.cpp compute_deps_isl"), ("everything in C01", "lib/")],
 ["schedule returned by pluto_schedule", "values computed by the simulated machine"], (), HOOK)
prop("C05", "The result depends on the program, the options and the control files only",
 "The schedule, the loops announced as parallel or vectorizable, the remapping and the text printed for a call are a function of the program, the options and the control files in the working directory. They do not depend on calls made before (with the same context or another one, with other programs and options), on what uninitialised memory happens to contain, on where blocks are placed in memory, or on the clock.",
 ["histories", "fault_sequences"], "for all programs and options, all sequences of earlier calls, all heap contents and layouts, all clock behaviours",
 "The tests call the library once per process in an environment of their own; state left behind by other calls and reads of uninitialised memory happen to be benign there.",
 ["lib/plutolib.c", "lib/pluto.c", "lib/program.cpp", "lib/framework.cpp", "lib/tile_size_selection_model.cpp", "lib/constraints.c"],
 [("context and options, reset per call", "lib/plutolib.c pluto_transform, pluto_schedule_str"), ("constraint caches per program", "lib/framework.cpp globcst"), ("tables filled by the library itself", "lib/constraints.c pluto_constraints_alloc")],
 ["schedule, loops, remapping and standard output of a call"], [("prog->globcst, dep->cst", "cached constraints", "include/pluto/internal/program.h")], HOOK)
prop("C06", "Control files can be missing, damaged or unreadable without harm",
 "tile.sizes, .fst, skipdeps.txt and .precut are optional. A file that cannot be opened, or that holds nothing usable, leaves the result as it is without the file; a file delivered in small pieces counts as the whole file; a file cut short or failing in the middle is used completely or not at all where a part makes no sense (.fst); reading always ends and closes the file. Whatever is in tile.sizes or .fst, the returned schedule runs every instance once and respects every dependence.",
 ["fault_sequences", "inputs"], "for all contents of the control files, all failures of opening and reading them at all points, all programs and options",
 "No test uses a control file at all; I/O errors, short reads and damaged contents cannot be sampled meaningfully by hand.",
 ["lib/tile.c", "lib/pluto.c", "lib/program.cpp", "lib/transforms.c"],
 [("tile.sizes", "lib/tile.c read_tile_sizes"), (".fst and .precut", "lib/pluto.c pluto_fusion_conserving..., read of .fst/.precut in pluto_auto_transform"), ("skipdeps.txt", "lib/pluto.c / lib/program.cpp")],
 ["schedule with and without the file", "streams left open"], (), HOOK)
prop("C08", "Running out of memory never yields a wrong schedule",
 "When any memory allocations fail while the library works, at whatever point and however many, the library either reports failure or stops, or it returns a schedule that still runs every instance exactly once and respects every dependence of the whole program. A failure is never taken for the absence of dependences, constraints or statements.",
 ["crash_points", "fault_sequences"], "for every allocation of every call as the first to fail, any number of failures after it, all programs and options",
 "No test makes an allocation fail; there are 10^4 to 10^6 points per call at which one can.",
 ["lib/plutolib.c", "lib/isl_support.c", "lib/constraints_isl.c", "lib/program.cpp", "lib/pluto.c"],
 [("conversion of isl relations", "lib/isl_support.c, lib/program.cpp extract_deps"), ("emptiness tests through isl", "lib/constraints_isl.c pluto_constraints_is_empty")],
 ["schedule returned (if any) after an injected failure"], (), HOOK)
prop("C09", "Legality does not rest on the solver's choice of solution",
 "The library guarantees legality by the constraints it hands to the integer programming solver, not by getting a particular solution: if the solver answers with any other feasible solution instead of the smallest one, the returned schedule still runs every instance exactly once and respects every dependence, in any interleaving of the loops announced as parallel. If the solver gives up on a problem, the library gives up as well or finds another legal schedule; it does not crash and does not use what the solver did not find.",
 ["fault_sequences", "programs"], "for all programs and options, all sequences of feasible answers of the solver and all points at which it gives up",
 "Tests only see the answers one solver gives to six programs; constraints that are missing but happen to hold for the smallest solution go unnoticed.",
 ["lib/framework.cpp", "lib/pluto.c", "lib/constraints.c"],
 [("legality and linear independence constraints", "lib/framework.cpp get_permutability_constraints, lib/pluto.c get_linear_ind_constraints"), ("solver seam", "lib/constraints_isl.c / lib/constraints.c pluto_constraints_lexmin")],
 ["schedule returned with perturbed solver answers"], (), HOOK)
prop("C10", "Calls are self-contained: no crash, no memory error, nothing left behind",
 "For every program and combination of options a call into the library returns (or stops with the library's own error message), without accessing memory it must not and without undefined behaviour. When the caller has freed what the interface says it owns, every block the library allocated has been freed and every file it opened has been closed, also after several calls.",
 ["programs", "configurations", "histories"], "for all programs, options and sequences of calls",
 "Tests do not look at memory at all; leaks and out of bounds accesses depend on particular combinations of dimensions and options.",
 ["lib/plutolib.c", "lib/program.cpp", "lib/pluto.c", "lib/tile.c", "lib/constraints.c", "lib/framework.cpp", "lib/tile_size_selection_model.cpp", "lib/polyloop.c", "lib/math_support.c"],
 [("ownership of programs, dependences, constraints", "lib/program.cpp pluto_prog_free, pluto_dep_free"), ("growing matrices and constraints", "lib/constraints.c pluto_constraints_resize, lib/math_support.c")],
 ["allocation ledger of the simulated heap", "sanitizer reports"], (), None)
prop("C07", "The tile sizes asked for are the tile sizes used",
 "When tiling is on, the i-th loop of every tiled band is cut into tiles of the i-th size in tile.sizes (counting loops, not statement orderings), of 32 where the file is absent or too short; with a second level, tiles are grouped by the second-level factors that follow in the file, by 8 without them. Tile iterators are exactly the floor of the loop by the size, and within a tile the order of execution is that of the untiled schedule (up to a permutation of the tile's loops when intra-tile optimisation is on). A loop that is not tiled keeps its untiled schedule.",
 ["programs", "configurations", "inputs"], "for all programs, options and contents of tile.sizes",
 "No test uses tile.sizes, and none looks at the relation between tile and point loops.",
 ["lib/tile.c", "lib/ast_transform.c", "lib/plutolib.c", "lib/tile_size_selection_model.cpp"],
 [("sizes read", "lib/tile.c read_tile_sizes"), ("tile iterators", "lib/tile.c pluto_tile_band, pluto_tile_scattering_dims"), ("second level", "lib/tile.c pluto_tile, tile_bands")],
 ["schedule with tiling compared with the schedule without"], (), HOOK)
prop("C12", "A given fusion structure or partial transformation is followed, or ignored whole",
 "A valid .fst (a partition of the statements whose order respects all dependences) is followed: its components are separated from each other at the outermost level, in the order given, and a component marked as not to be tiled is not tiled; a valid .precut is followed in that the rows it gives are the first rows of the transformation; if both exist, .fst wins. A file that is not usable for the program (wrong number of statements, not a partition, violating a dependence, incomplete) changes nothing: the result is the one without it. Either way the result runs every instance once and respects all dependences.",
 ["programs", "configurations", "inputs"], "for all programs, options and contents of .fst and .precut",
 "No test uses either file.",
 ["lib/pluto.c", "lib/program.cpp", "lib/framework.cpp", "lib/tile.c"],
 [(".fst", "lib/pluto.c precut()"), (".precut", "lib/pluto.c precut(), pluto_auto_transform"), ("tiling flags", "lib/tile.c pluto_tile")],
 ["schedule returned with the file, compared with the file and with the schedule without it"], (), HOOK)
prop("C13", "polycc never loses the user's source file",
 "Running polycc leaves the source file as it was, whether it succeeds, fails at any command, or is stopped by SIGINT, SIGTERM or SIGHUP at any point. If it is killed or the machine crashes, or the very command that puts the file back fails, the original is in the source file or in the backup next to it (source_temp), and success is not reported; running polycc again then never destroys that original.",
 ["crash_points", "fault_sequences", "histories"], "for all source files and options, all commands the scripts run as the point of failure, all kinds of signals, and runs after them",
 "No test runs polycc at all; what is on disk after an interruption depends on the step at which it comes.",
 ["polycc.sh.in", "inscop"],
 [("source moved away while several scops are handled", "polycc.sh.in main loop"), ("traps", "polycc.sh.in cleanup")],
 ["source file and backup after the script has ended"], (), None)
prop("C14", "polycc reports success only with a complete output",
 "If polycc exits with status 0, the output file contains every line of the source outside of the scops, in order, the transformed code of every scop in its place, and the include of omp.h where the source or the tool asked for it. If any command on the way fails, is killed or runs out of disk space so that this can not be achieved, polycc exits with a non-zero status. Without faults it succeeds and leaves no temporary files behind.",
 ["inputs", "fault_sequences"], "for all source files with one or more scops, options, and failures of any command at any point",
 "No test runs polycc or inscop; the scripts are pipelines in which a failing command goes unnoticed unless handled at each point.",
 ["polycc.sh.in", "inscop"],
 [("skeleton around transformed code", "inscop"), ("exit status of each step", "polycc.sh.in run")],
 ["exit status and output file"], (), None)
prop("C04", "Threads can use the library at the same time",
 "Calls made at the same time by several threads, each with its own contexts, do not influence each other: under every interleaving of their steps each call returns exactly what it returns alone, none crashes or waits forever, and no two of them access the same memory without synchronisation, at least one of them writing.",
 ["schedules", "programs", "configurations"], "for all programs, options and numbers of threads, and all interleavings of the steps of the threads inside the library",
 "The tests are single-threaded; interference shows only in particular interleavings.",
 ["lib/plutolib.c", "lib/pluto.c", "lib/framework-dfp.c", "lib/program.cpp", "lib/tile.c", "lib/constraints.c"],
 [("all state hangs off PlutoContext and PlutoProg", "lib/plutolib.c, include/pluto/pluto.h"), ("state of the DFP framework", "lib/framework-dfp.c")],
 ["results of concurrent calls compared with solo calls", "recorded memory accesses of the threads"], [("no mutable static data", "README: thread-safe library interface", "lib/")], HOOK)
prop("C11", "Loops announced for unroll-and-jam can be jammed",
 "Unrolling the loops announced as unroll-jam candidates by any factor and jamming the copies into the loops inside them (all announced loops together, wherever the unrolled blocks start) keeps every dependence.",
 ["programs", "configurations", "schedules"], "for all programs, options, unroll factors and positions of the unrolled blocks",
 "No test looks at unroll-jam candidates.",
 ["lib/polyloop.c", "lib/pluto.c"],
 [("selection of candidates", "lib/polyloop.c pluto_get_unroll_jam_loops"), ("innermost permutable bands", "lib/polyloop.c pluto_get_innermost_permutable_bands")],
 ["loops announced as unroll-jam candidates, jammed execution"], (), HOOK)
# ---MORE---
P.sort(key=lambda p: p["id"])
open("properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
NA = json.load(open("not_applicable.json"))
checks = [dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=PROPS[p["id"]]["technique"], level=PROPS[p["id"]]["level"],
               level_note=PROPS[p["id"]]["note"]) for p in P if p["id"] in PROPS]
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="PLUTO_SIM", enable="-DPLUTO_SIM (sim/build.sh compiles /repo/lib with it)", source_commits=["0311d19", "1b1271c"]),
         checks=checks, not_applicable=NA, notes="See DESIGN.md. Replay a reported file with ./replay.sh FILE.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
