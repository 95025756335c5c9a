"""What each check runs; counts are per tier."""
LIB = "all of lib/ (libpluto) through its public C interface, isl, GLPK"
STUB = ["files, clock and heap of the library (link-time seams)", "PIP (a shim over isl)", "the OpenMP machine that executes the transformed program (simulated)"]
ASSUME = ["isl's set operations and enumeration are right", "a program is executed for up to three concrete values of its parameters per run"]
TECH = "deterministic simulation: "
NOTE = "Seeded exploration, not proof: a clean batch is evidence for the cases drawn. Trusts isl for enumerating sets. "
# Flavours: plain; asan (address and undefined behaviour sanitizers).
def P(runs, rule, nontrivial, technique, note="", level="exploration", **kw):
    runs = {f: dict(quick=q, thorough=t) for f, (q, t) in runs.items()}
    d = dict(runs=runs, rule=rule, nontrivial=nontrivial, level=level, real=[LIB], stubs=STUB, assumptions=ASSUME,
             technique=TECH + technique, note=NOTE + note)
    d.update(kw)
    return d
PROPS = {
 "C01": P({"plain": (8000, 400000)}, "seeded affine programs (random nests, perturbed kernels, uniform nests) x scheduler options x tile sizes; 3 seeded fork-join executions each; non-trivial: has dependences or a parallel region; distinct: by hash of schedule, loops and execution history", ["deppairs", "regions"],
   "seeded thread schedules of the transformed program on a simulated fork-join machine"),
 "C02": P({"plain": (7000, 300000)}, "as C01, over all four interfaces; every instance's times and remapping are checked; non-trivial: has instances", ["instances"],
   "simulated execution history checked for exactly-once and inverse mapping"),
 "C03": P({"plain": (7000, 300000)}, "seeded affine programs with array accesses through the dependence-analysing interface; 3 seeded executions on a simulated memory compared with the sequential original; non-trivial: some value is read", ["reads"],
   "seeded thread schedules on a simulated memory, refinement against the sequential program"),
 "C05": P({"plain": (2000, 60000)}, "as C01 over all four interfaces: one call in a quiet environment, then the same call after 0-4 other calls (sharing its context or not), with the heap filled with junk, padded and reordered, and the clock frozen, jumping or running backwards; then once more as at first; schedule, loops, remapping and printed text must be equal; non-trivial: the second call was compared", ["compared"],
   "the call repeated under seeded call histories, heap contents, heap layouts and clocks, results compared"),
 "C06": P({"plain": (4500, 150000)}, "as C01 with one control file (tile.sizes, .fst, skipdeps.txt, .precut) made unreadable, damaged, cut short, vanishing between opens, failing in the middle or read in pieces; non-trivial: the library opened the file", ["opened"],
   "seeded file faults at the fopen/read seam, result compared with the result without the file or with the whole file, and executed on the simulated machine"),
 "C08": P({"plain": (6000, 200000)}, "as C01/C03, with the k-th allocation of the call, and 0 or more after it, failing (k uniform over the allocations of the call); whatever schedule is returned is executed on the simulated machine; non-trivial: a failure was injected", ["fault.alloc"],
   "seeded allocation failures at the malloc seam, surviving results executed on the simulated machine"),
 "C09": P({"plain": (5000, 200000)}, "as C01/C03, with the integer programming solver answering with another feasible solution than the lexicographically smallest one, in 10-100 % of its calls; non-trivial: at least one such answer", ["fault.solver"],
   "seeded adversarial solver answers at the solver seam, results executed on the simulated machine"),
 "C10": P({"plain": (4000, 200000), "asan": (1000, 30000)}, "as C01 over all four interfaces, 1-2 calls; every block the library allocates is entered in a ledger and must have been freed when the caller has freed what it owns; streams must be closed; the second flavour runs under the address and undefined behaviour sanitizers; a call that does not return, except by the library's own error exit, is a violation; non-trivial: at least one call completed", ["calls"],
   "allocation ledger at the malloc seam and sanitizers over seeded programs and options"),
 "C07": P({"plain": (3000, 100000)}, "as C01 with tiling and a seeded tile.sizes (or none); the returned schedule is compared, instance by instance, with the one found without tiling: which loops were cut, with which size, at which level; non-trivial: a band was tiled", ["tiled"],
   "control file fed through the file seam, recorded schedule history checked against a reference model of tiling"),
 "C12": P({"plain": (3000, 100000)}, "as C01 with a seeded .fst and/or .precut: valid, of a wrong shape, or in conflict with a dependence; the structure of the returned schedule is compared with what the file asks for, or with the result without the file; then executed on the simulated machine; non-trivial: a file was given", ["valid_", "invalid_", "illegal_", "damaged_"],
   "control files fed through the file seam, results checked against a reference model of the file and executed on the simulated machine"),
 "C13": P({"scripts": (1600, 40000)}, "seeded source files with 1-4 scops x options; every command polycc and inscop run is a step; 0-2 steps meet a fault: the command fails, is killed, runs into a full disk; the whole session crashes, or SIGINT, SIGTERM or SIGHUP arrives at the script or the group, before or after the step; then maybe another run; non-trivial: a fault was injected", ["fault."],
   "the real driver scripts run step by step over stand-ins for every command, with seeded faults and crashes at any step", real=["polycc.sh.in and inscop, run by bash", "the text commands they call (grep, sed, awk, mv, ...)"], stubs=["the tool itself (transforms one scop per call, may fail, crash or stop halfway)", "command start (every command is a step of the simulator)"], assumptions=["a crash loses no completed rename or write"]),
 "C14": P({"scripts": (1600, 40000)}, "as C13 with fewer signals; the output is taken apart and compared with the source: every line outside of the scops, in order, and every statement of every scop; non-trivial: an output was judged", ["outputs"],
   "the real driver scripts run step by step over stand-ins for every command, with seeded faults at any step; the output checked for completeness", real=["polycc.sh.in and inscop, run by bash", "the text commands they call (grep, sed, awk, gcc -E, ...)"], stubs=["the tool itself (transforms one scop per call, may fail, crash or stop halfway)", "command start (every command is a step of the simulator)"], assumptions=["the tool reports its own failures by its exit status"]),
 "C04": P({"threads": (900, 30000)}, "2-3 simulated threads, each making a call of its own (the same program in all of them in 40 %), each with its own contexts; the library is compiled so that each of its memory accesses, function entries and atomic operations is a step, and a seeded scheduler switches at ~2^3 to ~2^16 steps on average, at the entries of some functions, around accesses to static data, or stalls one thread; results are compared with those each call gives alone in a process of its own; accesses of different threads without synchronisation in between are races; non-trivial: the threads were interleaved; distinct: by hash of the sequence of switches and the results", ["interleaved"],
   "seeded interleavings of threads inside the library at the granularity of single memory accesses, race detection by vector clocks, results compared with solo runs"),
 "C11": P({"plain": (6000, 200000)}, "as C03; programs for which unroll-jam candidates are announced are executed with those loops unrolled by seeded factors with seeded remainders and jammed; non-trivial: a loop was jammed", ["jammed"],
   "seeded jammed executions of the transformed program on the simulated machine"),
}
