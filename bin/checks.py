"""The checks: which harnesses decide which property, how they are built, and what must have been observed."""
OPT = ["-O2"]
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["-O1", "-g", "-fsanitize=thread"]

def job(src, name=None, shards=8, flags=OPT, cxx="g++", **kw):
    return dict(name=name or src.split(".")[0], src=src, shards=shards, flags=flags, cxx=cxx, **kw)

TRUST = ["the harness's own long double reference formulae and integrator (harness/ref.hpp), which are independent of the library",
         "g++ 13 / clang 18 and x86-64 IEEE double arithmetic"]
CHECKS = {}
def check(pid, jobs, rule, floor=None, assumptions=(), technique="", note=""):
    CHECKS[pid] = dict(jobs=jobs, rule=rule, floor=floor or {}, assumptions=TRUST + list(assumptions), technique=technique, note=note)

check("C09", [job("c09_orbits.cpp", shards=4)],
      "random orbits of every type, orientation and scale (plus exact special angles and exactly degenerate states); each conversion and helper compared with a long double Kepler state; distinct = different (e, p, nu) draws",
      floor={"class0": 1000, "class1": 1000, "class2": 1000, "class3": 1000, "class4": 1000, "exactly circular planar": 300, "exactly circular inclined": 300, "exactly planar": 500},
      technique="runtime differential monitor against a long double Kepler reference over randomised and degenerate orbits",
      note="Randomised exploration: every orbit class, special angles, and exactly degenerate states; tolerances follow the conditioning of each quantity.")

check("C10", [job("c10_anomaly.cpp", shards=4)],
      "random and special anomalies of every orbit type pushed through all six conversions and both time_to_periapsis overloads, each answer checked against Kepler's equation in long double; distinct = different (anomaly, eccentricity)",
      floor={"class ellipse": 5000, "class hyperbola": 5000, "class parabola": 5000, "beyond pi, class 1": 500, "beyond pi, class 2": 500, "true anomaly inversions": 10000, "two-body times": 3000},
      technique="runtime residual monitor on Kepler's equation (long double) over randomised, extreme and special anomalies",
      note="Randomised exploration with residual oracles; every eccentricity class including values within rounding of 0 and 1.")

check("C11", [job("c11_clusters.cpp", shards=8)],
      "random groups of 1-6 point and finite-size particles, near and far from the origin, with massless members; every helper called with argument lists, vectors and deques and compared with long double definitions; all moves compared before/after; Lidov-Kozai timescales of triples; distinct = different groups",
      floor={"quantity sets: arguments point": 5000, "quantity sets: container size": 5000, "moves: orbit": 10000, "moves: state": 10000, "moves: alias": 10000, "pairs of groups": 10000, "bound pairs": 2000, "Lidov-Kozai timescales": 10000},
      technique="runtime differential monitor against long double textbook definitions and before/after state monitors",
      note="Randomised exploration over group sizes 1-6 in every calling form; tolerances scale with the cancellation in each quantity.")

check("C12", [job("c12_scattering.cpp", shards=8)],
      "hyperbolic set-ups and random incident orbits turned into particle states whose energy, angular momentum, separation and direction are measured; Kolmogorov-Smirnov monitors on recorded impact parameters and angles; distinct = different (b, masses, speed)",
      floor={"inbound starts": 20000, "outbound starts": 5000, "starts at periapsis": 500, "distribution tests": 64, "speeds at infinity": 20000, "cluster incident orbits": 300, "exact periapsis starts": 5000},
      technique="runtime state monitors (energy, angular momentum, separation) plus statistical monitors over recorded draws",
      note="Statistical tests have a false-alarm probability below 1e-11 each.")

check("C14", [job("c14_random.cpp", shards=8), job("c14_random.cpp", name="c14_tsan", shards=1, flags=TSAN, cxx="clang++", args=["--section", "threads"])],
      "tens of millions of recorded draws from every generator over many parameter choices; support, Kolmogorov-Smirnov and serial-correlation monitors per stream; streams of concurrent threads compared pairwise, also under ThreadSanitizer; distinct = different draws sampled",
      floor={"draws": 10000000, "distributions: PowerLaw": 40, "distributions: Uniform": 10, "distributions: Parameter.Normal": 12, "distributions: isotherm.nu": 6, "thread pairs compared": 120},
      technique="offline statistical monitors over recorded samples (KS, support, correlation) and ThreadSanitizer",
      note="The generators seed themselves from the operating system, so runs differ; every statistical threshold has a false-alarm probability below 1e-11.")

check("C13", [job("c13_compensated.cpp", shards=8), job("c13_compensated.cpp", name="c13_clang", shards=4, cxx="clang++", flags=["-O3"])],
      "random sequences of four shapes (dominated, growing, arbitrary, cancelling) of up to 2e5 (thorough 1e6) terms accumulated by += and -= through scalars, vectors, array helpers and a drifting particle system, for nine compensated types and two compilers; distinct = different term sequences",
      floor={"terms": 10000000, "double_k dominated": 100, "double_k growing": 100, "double_p random": 100, "double_e cancelling": 100, "float_e cancelling": 100, "long_double_k growing": 100, "plain operations": 500000, "system drifts": 24, "array forms": 1000, "reductions": 1000},
      technique="runtime monitor of accumulated values against 113-bit sums with a running error budget",
      note="The allowed error is the rounding the algorithm provably commits, accumulated term by term next to the run.")

check("C15", [job("c15_forces.cpp", shards=8, flags=["-O1"])],
      "random groups of 1-9 bodies (hierarchies, tight pairs, offset origins, at rest, massless tides) in ten force configurations, three number types and four coordinate representations before and after evolution; every configured sum and split compared with long double published formulae; exact-symmetry transformations compared; distinct = different groups",
      floor={"arrays total": 30000, "arrays extra": 20000, "arrays internal": 30000, "systems: chain evolved": 5000, "systems: regularised chain": 5000, "invariance third law": 10000, "invariance particle order": 10000},
      technique="runtime differential monitor against long double published formulae plus symmetry monitors",
      note="The allowed difference is the rounding of the individual terms, so a wrong coefficient or a missing pair stands out by many orders of magnitude.")

check("C16", [job("c16_disk.cpp", shards=8, flags=["-O1"])],
      "random embedded bodies at every Mach number and radius (including regime boundaries, table nodes and edges, moving centres) in Cartesian and chain systems; each drag vector compared with a long double model; tiny-step sweeps across every boundary; distinct = different set-ups",
      floor={"alpha disk systems": 10000, "magnetised disk systems": 10000, "disk capture systems": 3000, "alpha disk: transonic": 1000, "magnetised disk: supersonic": 1000, "comoving bodies": 100, "exactly on a regime boundary": 200, "continuity sweeps magnetised disk": 2000, "static drag supersonic": 1000},
      technique="runtime differential monitor against a long double disk model, momentum monitor and continuity sweeps",
      note="The magnetised disk's structure tables are compared with a recorded copy of the published values.")

check("C08", [job("c08_chain.cpp", shards=8, flags=["-O1"])],
      "six kinds of arrangements (with ties, hierarchies, far origins) of 2-60 particles in three number types; every index judged by an exhaustive greedy-reachability check, every link, round trip and re-link compared with direct construction; chain systems observed at every step while evolving; distinct = different arrangements",
      floor={"held back parts checked": 20000, "indices checked": 20000, "arrangements lattice": 1000, "arrangements hierarchy": 1000, "re-link random": 3000, "re-link moved": 3000, "re-links in systems": 1000, "system states": 20000},
      technique="runtime invariant monitors (greedy reachability, exact link rounding, round trips) over random arrangements and evolving systems",
      note="Ties are resolved by accepting every chain the greedy rule could have produced.")

check("C19", [job("c19_ode.cpp", name=f"c19_part{p}", shards=1, flags=["-O2", f"-DPART={p}"]) for p in range(1, 4)],
      "systems of 1-60 components mixed from growth, decay, oscillators, driven and damped oscillators, logistic and Gompertz growth, quadratures, polynomials and modulated rates in explicit time, point-mass motion, predator and prey, relaxation oscillations, chaos, algebraic decay and poles, shuffled among the components; first steps from 1e-7 to 1e4 time scales, forwards and backwards, fresh and used solvers, three norms, four table depths, double and long double; distinct = different accepted steps and integrations",
      floor={"steps": 30000, "systems": 2000, "calls of the right-hand side": 500000, "systems with rejected steps": 500, "whole integrations": 2000, "blocks cubic decay": 1500, "blocks Gompertz": 1500, "blocks power of time": 2500, "steps backwards": 1500, "steps of a solver used before": 8000, "systems of more than 25 components": 700, "systems with chaotic or relaxing parts": 500},
      technique="runtime differential monitor: every accepted step against the exact flow over that step, with a monitored right-hand side",
      note="The error estimate is asymptotic: the allowance grows with the number of fastest time scales a step spans; steps beyond 30 scales are only checked for bookkeeping.")
check("C20", [job("c20_state.cpp", shards=4, flags=["-O1"]), job("c20_state.cpp", name="c20_extended", shards=4, flags=["-O1", "-DONLY_EXTENDED"])],
      "random systems of 2-7 bodies in seven formulations (plain, chain, LogH, TTL, unregularised, chain LogH, chain TTL), four force sets and three number types, exported at start, mid-iteration and after evolution, restored into the same, copied and twin systems and into one in another state; increments and derivatives compared with the exported changes and with long double derivatives; distinct = different systems",
      floor={"derivatives compared": 15000, "increments compared": 20000, "restore into the same system": 20000, "restore into another system": 15000, "restore into a system in another state": 15000, "snapshots with distinct auxiliary velocities": 4000},
      technique="runtime round-trip and differential monitors on exported state arrays",
      note="Restoring is judged by exported arrays, observables and the subsequent evolution.")

SAN0 = ["-O0" if f == "-O1" else f for f in SAN]
check("C21", [job("c21_collections.cpp", name=f"c21_part{p}", shards=3, cxx="clang++", flags=SAN0 + [f"-DPART={p}"]) for p in (1, 2, 3)]
           + [job("c21_collections.cpp", name="c21_gcc", shards=2, flags=["-O2"])],
      "random operation sequences (all mutating and observing operations, arguments that are elements of the vector itself, self-assignment, empty ranges) on small vectors of five element types with inline capacities 1, 4, 5 and 16, and on all four particle collections in three number types, compared with std::vector models after every operation; element lifetimes tracked; distinct = different operation traces",
      floor={"aliased growth": 4000, "vector ends inline": 4000, "vector ends spilled": 15000, "vector ops tracked/1": 30000, "vector ops string/16": 30000, "collection ops tide double": 15000, "collection ops drag double_k": 15000, "collections ending beyond the inline buffer": 1500},
      technique="online model-based monitor (std::vector model, element-lifetime tracker) under AddressSanitizer and UndefinedBehaviorSanitizer",
      note="The same deterministic workload also runs unsanitised at -O2 with gcc.")

check("C29", [job("c29_arrays.cpp", name=f"c29_part{p}", shards=s, flags=["-std=gnu++17", "-O1", f"-DPART={p}"], libs=["-lquadmath"]) for p, s in ((1, 2), (2, 4), (3, 3))]
           + [job("c29_arrays.cpp", name="c29_opt", shards=4, flags=["-std=gnu++17", "-O3", "-march=x86-64-v3", "-ffp-contract=off", "-DPART=2"], libs=["-lquadmath"])],
      "random vectors (zeros, integers, widely different magnitudes) in eight type combinations through every operator and function, with operands that are the vector itself or one of its components; every array helper on arrays of 0-70 scalars or vectors, plain and compensated, with every aliasing pattern; energies, momenta, centres of mass, free-fall times and step scales of seven system formulations in three number types, all compared with 113-bit definitions; distinct = different inputs",
      floor={"vectors double": 6000, "vectors long double": 6000, "vectors double_k": 6000, "math helpers": 40000, "array operations": 1500000, "aliased array operations": 600000, "reductions": 60000, "residual operations": 60000, "systems chain LogH double": 1500, "systems plain long double": 700, "step scales": 8000},
      technique="runtime differential monitor against 113-bit element-wise definitions, including aliased outputs",
      note="The array helpers also run vectorised (-O3, AVX2).")

check("C28", [job("c28_units.cpp", shards=2, flags=["-O1"])],
      "every unit in named, decimal and integer-literal form over 60 decades, composed physical quantities against independent SI values, and the four mass-radius relations over 16 decades of mass in three argument types; distinct = different (unit, value) and masses",
      floor={"unit evaluations": 27000, "source literals": 25, "composed quantities": 60000, "stellar radii": 20000},
      technique="runtime differential monitor against long double unit definitions and independent SI values",
      note="Each unit is judged twice: against its definition in the library's system (rounding) and against its SI value (measurement accuracy).")

check("C26", [job("c26_config.cpp", shards=7, cxx="clang++", flags=SAN)],
      "random configuration files (ten value types at full precision and range, nine dividers including white space, seven comment characters, blank and comment lines holding decoy keys, values containing dividers and comment characters, CRLF, missing final newline) read back key by key; random command lines of every supported type including empty arguments and arguments with spaces; refusals of unknown keys, missing files and wrong counts observed in child processes; distinct = different (key, value) pairs and command lines",
      floor={"keys read double": 25000, "keys read string": 25000, "files with white space divider": 500, "values containing the divider": 2000, "values containing the comment character": 2000, "comment lines": 30000, "arguments read": 80000, "arguments with spaces or empty": 800, "refusals": 60},
      technique="runtime round-trip monitor (written value against read value) under AddressSanitizer and UndefinedBehaviorSanitizer",
      note="Every value is compared bit for bit.")

check("C30", [job("c30_tools.cpp", shards=4), job("c30_tools.cpp", name="c30_tsan", shards=2, cxx="clang++", flags=TSAN + ["-DTHREADS_ONLY"])],
      "random sequences of requests for automatic names under simulated wall clocks (standing still, advancing, set back, changing from summer to winter time in four time zones) with one or several prefixes, and from 2-8 threads at once, also under ThreadSanitizer; numbered names; random sequences of starting, pausing, resetting and reading up to three timers under a simulated steady clock; distinct = different sequences",
      floor={"automatic names": 80000, "names within a second already used": 20000, "prefixes in turns within a second": 5000, "names requested by threads": 20000, "numbered names": 20000, "readings of a running timer": 200000, "readings of a stopped timer": 200000, "readings of a resumed timer": 80000, "readings of the simulated wall clock": 10000, "readings of the simulated steady clock": 100000},
      technique="runtime monitor of every name handed out (set of names used so far) and of every timer reading (integer model) under simulated clocks; ThreadSanitizer",
      note="Starting a timer that is already running is left open. Interleavings of threads are sampled.")

check("C31", [job("c31_text.cpp", shards=6, flags=["-O1"]), job("c31_text.cpp", name="c31_asan", shards=2, cxx="clang++", flags=SAN0 + ["-DTHIN", "-Wno-c++11-narrowing"])],
      "random numbers (six types), three-vectors, arrays, vectors, tuples, orbits, particles of four kinds, groups of 0-8 particles before and after changes, and systems of five formulations before and after evolution, printed under random precision, notation and sign settings and compared token by token with the expected columns; everything with a reading operator read back from full-precision text and compared bit for bit; standard streams redirected; distinct = different values and formats",
      floor={"texts compared": 300000, "rows compared": 100000, "particles read back": 30000, "values read back": 60000, "groups: double tide": 1000, "systems: double tide chain LogH": 400, "systems: double_k finite LogH": 400},
      technique="runtime round-trip and differential monitor of printed text against independently formatted values; AddressSanitizer and UndefinedBehaviorSanitizer",
      note="Trailing blanks of space-separated rows are not judged. The reading operators of particle groups are declared without a definition in the library and cannot be used.")

check("C27", [job("c27_collision.cpp", name=f"c27_part{p}", shards=4, flags=["-O1", f"-DPART={p}"]) for p in (1, 2, 3)],
      "random arrangements of 1-40 bodies (points, equal and very unequal radii, one body around all others, scales 2^-30..2^30) and arrangements on an exactly representable grid in which one pair is in exact contact, a relative 1e-12 apart or overlapping, in eleven system types; runs of six solvers with the monitor as a stop condition, every observed state judged; distinct = different arrangements and runs",
      floor={"random touching": 10000, "random apart": 60000, "exact: exact contact is reported": 30000, "exact: bodies just apart are not reported": 30000, "exact: a point at the surface is reported": 30000, "runs with contact": 1500, "runs without contact": 3000},
      technique="runtime differential monitor: the reported verdict against an independent pair scan in extended precision, for single states and for every observed state of runs",
      note="Random states within rounding of contact are set aside; exact contact is decided on coordinates that make it exact.")

check("C05", [job("c05_run.cpp", name=f"c05_part{p}", shards=2, flags=["-O1", f"-DPART={p}"]) for p in (1, 2, 3, 4)],
      "sequences of 1-4 consecutive runs of thirteen solvers (plain, chain, regularised; adaptive and constant steps; double, double_k, long double) on random systems of 2-5 bodies, with random start and end times (negative, zero, equal), step sizes, time tolerances, numbers and registration order of operations, stop-point and start-point operations and stateful stop conditions; the complete event log of every run is judged offline; distinct = different runs",
      floor={"states": 2000000, "events": 8000000, "ended by a condition": 80000, "ended by time": 50000, "constant-step states": 500000, "refused runs": 4},
      technique="offline checker of the recorded event log of every run (grammar, order, exactly-once, monotone time, end conditions)",
      note="Time-transformed solvers may cross the end time with the last step because time is a dependent variable there; they are required to aim at it and to home in on it.")

check("C06", [job("c06_slices.cpp", shards=8, flags=["-O2"])],
      "random intervals (any sign and magnitude 1e-3..1e6), slice counts 1-5000 and clocks (regular, irregular, sparse, mixed, hitting the due times) for time, step and logarithmic slices of operations and stop conditions in three number types, re-parametrised and copied in mid-sequence and compared call by call with a fresh one; the same slices as operations and stop conditions of real runs of three solvers; distinct = different schedules and runs",
      floor={"due": 1500000, "not due": 10000000, "due in runs": 80000, "not due in runs": 1000000, "runs ended by a sliced condition": 1500, "clock sparse": 10000, "clock commensurate": 10000},
      technique="online reference-schedule monitor in lock-step with every wrapped callback",
      note="Due times are compared up to the rounding of accumulated sums; states within rounding of a due time are left open.")

check("C07", [job("c07_output.cpp", name=f"c07_part{p}", shards=4, flags=["-O1", f"-DPART={p}"], libs=["-pthread"]) for p in (1, 2)],
      "files written directly for states with values 0, +-1e-300..1e300 and up to 120 particles of all four types; 1-4 simulations of twelve solver and particle combinations run side by side or in parallel threads in interleaved consecutive runs, each with a default writer, an energy-error writer and a sliced or start/stop-point writer, text inserted between rows; every file parsed back and compared with the states recorded by an operation; distinct = different groups of simulations",
      floor={"numbers read back": 4000000, "rows read back": 400000, "files read back": 15000, "energy rows": 30000, "energy files": 4000, "simulations side by side": 1000, "simulations in parallel threads": 1000},
      technique="offline checker: files parsed back against states recorded independently (exact for double, to printed precision for long double; energies recomputed in extended precision)",
      note="Blank lines between states are neither required nor forbidden.")

DYN = "in nine kinds of configurations (ellipses up to 1-e of 1e-8, unbound pairs, hierarchical triples, cold few-body collapse, planets, two binaries, binary-single encounters; masses over several decades, with and without drift of the centre of mass)"
check("C01", [job("dyn.cpp", name=f"c01_part{p}", shards=2, flags=["-O2", "-DPROP=1", f"-DPART={p}"]) for p in range(1, 8)],
      "random systems " + DYN + " run by 32 adaptive solvers at default settings; the energy of every observed state recomputed in extended precision, compared with the start, with the library's total energy and with its energy error; distinct = different observed states",
      floor={"steps": 400000, "runs BS plain gentle": 100, "runs BS regularised strong": 100, "runs Radau plain gentle": 80, "runs Radau regularised strong": 60, "runs Sym8 regularised strong": 40, "runs Sym10 plain gentle": 40, "runs with drift": 400, "runs to the end time": 1200},
      technique="online runtime monitor: energy of every observed state recomputed in extended precision",
      note="Allowances: 2e-12 of the energy scale for regular configurations, up to 1e-7 for nearly collisional ones, plus the rounding of coordinate differences.")
check("C02", [job("dyn.cpp", name=f"c02_part{p}", shards=2, flags=["-O2", "-DPROP=2", f"-DPART={p}"]) for p in range(1, 13)],
      "random systems " + DYN + " run by 60 adaptive and fixed-step solvers with gravity alone and with additional pair forces (tides, friction, repulsion); momentum, centre of mass and angular momentum of every observed state recomputed in extended precision; distinct = different observed states",
      floor={"steps": 800000, "runs BS": 150, "runs BS regularised chain": 200, "runs Radau regularised": 60, "runs Sym chain": 80, "runs fixed Sym": 120, "runs fixed Sym regularised chain": 100, "runs fixed Radau": 20, "runs with tides": 250, "runs with drift": 1200},
      technique="online runtime monitor: exact invariants of every observed state recomputed in extended precision, judged in accumulated rounding units",
      note="Fixed-step runs that do not resolve a passage (energy not conserved to 1e-3) are set aside; the angular momentum of fixed Radau steps is judged where the energy holds to 1e-13 (the method is not symplectic).")
check("C03", [job("dyn.cpp", name=f"c03_part{p}", shards=2, flags=["-O2", "-DPROP=3", f"-DPART={p}"]) for p in range(1, 8)],
      "random systems " + DYN + " run by 32 adaptive solvers at default settings; observed states compared with the universal-variable Kepler solution (two bodies) or an independent extended-precision integration, in units of the problem's own sensitivity measured by perturbed references; distinct = different observed states",
      floor={"states against Kepler": 40000, "states against the integrated reference": 3500, "runs BS plain": 100, "runs BS regularised chain": 150, "runs Radau plain chain": 60, "runs Radau regularised": 60, "runs Sym10 regularised chain": 30, "runs with drift": 300},
      technique="runtime differential monitor: observed states against independent reference trajectories, scaled by measured sensitivity",
      note="States whose amplification exceeds 1e6 are not judged.")
check("C04", [job("c04_extra.cpp", name=f"c04_part{p}", shards=3 if p in (5, 6, 7) else 2, flags=["-O1", f"-DPART={p}"]) for p in range(1, 10)],
      "nine sets of extra forces (field, drag, time-dependent field, their mixtures, friction and repulsion between pairs, PN1, PN1+PN2+PN2.5 at 0.2-5% of the speed of light, tides, PN1 with tides and field) from weak to as strong as the slowest motion, on eight kinds of random systems of 2-8 bodies in all four formulations with 15 solvers (plain, chain, LogH, TTL, regularised chain; Bulirsch-Stoer, Gauss-Radau, symplectic); distinct = different observed states",
      floor={"states compared": 3000, "runs in which the extra force moves the bodies by over 10000 allowances": 1400, "runs BS": 100, "runs BS regularised chain": 300, "runs Radau regularised chain": 100, "runs Sym chain": 100, "runs Sym regularised": 100, "runs PN1+PN2+PN2.5": 200, "runs tides": 180, "runs drag and time-dependent field": 200, "runs friction and repulsion": 200},
      technique="runtime differential monitor: observed states against an independent extended-precision integration of the same equations of motion, scaled by measured sensitivity",
      note="Evidence reports how far the extra force displaced the bodies, so that a run in which it does not matter is not counted as evidence.")
check("C17", [job("c17_fixed.cpp", name=f"c17_part{p}", shards=2, flags=["-O1", f"-DPART={p}"]) for p in range(1, 9)],
      "local convergence orders of 65 fixed-step solvers (orders 2-10 and Radau; plain, chain, LogH, TTL, unregularised; double, compensated, long double; with and without friction) on random ellipses, triples and planetary systems over up to nine step halvings; elementary drift/kick/leapfrog steps of 14 systems against their definition; forward-backward runs and long energy trends of six integrators in seven systems; distinct = different (method, system, step)",
      floor={"measured order 2": 100, "measured order 4": 80, "measured order 6": 80, "measured order 8": 80, "measured order 10": 80, "measured order 10 regularised": 60, "measured order 8 regularised chain": 60, "measured order 15": 50, "measured order 15 regularised chain": 50, "retraced trajectories": 3500, "energy trends": 250, "elementary steps LogH friction": 500},
      technique="runtime differential monitor: convergence orders measured against exact or extended-precision trajectories; reversal and energy-trend monitors",
      note="Order 15 is judged by reaching rounding within 300 steps of about 1.4 orbits.")
check("C18", [job("c18_control.cpp", shards=2, flags=["-std=gnu++17", "-O1"], libs=["-lquadmath"])] + [job("c18_steps.cpp", name=f"c18_part{p}", shards=1, flags=["-O2", f"-DPART={p}"]) for p in range(1, 8)],
      "the three error norms on random solutions of 1-60 components (magnitudes 1e-140..1e140, exact zeros, sign changes, single differing components, states with compensation, vectors) against their definitions in 113-bit arithmetic; the step controller for every order 1-49, errors 0, denormal..1e30, infinite, and random guards, limits and coefficients; every accepted step, the growth of steps, the cost of circular orbits and whole runs at ladders of tolerances for 28 adaptive solvers; distinct = different norms, (order, error) pairs, steps and runs",
      floor={"norms RMS": 25000, "norms worst offender": 50000, "norms max ratio": 25000, "ratios for errors above tolerance": 130000, "ratios for errors well below tolerance": 90000, "ratios with history compared": 250000, "steps against Kepler": 40000, "steps against the integrated reference": 5000, "steps with a tolerance far above rounding": 25000, "tightened runs": 1000, "runs with a force of limited domain": 500, "overflown and equal solutions": 8000, "ladders gaining over two decades": 250},
      technique="runtime differential monitor: norms and proposals against wider arithmetic, accepted steps and runs against exact or independently integrated motion",
      note="Local errors are allowed 60 tolerances (the estimates are asymptotic); high-order symplectic pairs are only asked for tolerances at which their estimate is meaningful.")

THR = dict(libs=["-pthread", "-ldl"])
check("C24", [job("c24_threads.cpp", shards=3, flags=["-O1"], **THR),
              job("c24_threads.cpp", name="c24_tsan", shards=2, cxx="clang++", flags=TSAN, **THR),
              job("c24_threads.cpp", name="c24_asan", shards=2, cxx="clang++", flags=SAN + ["-DSMALL"], **THR)],
      "parallel loops over 0..4000 items (and ranges up to 2^64) on 1..64 threads, more threads than items, remainders, four callable forms; plain, indexed and automatic launches with nine argument forms (values, temporaries, moved, const, references, literals, member functions, callables with state, shared ownership); nested helpers; with yields, spins and sleeps injected around every lock; distinct = different sizes, forms and ranges",
      floor={"loops": 2400, "loops with fewer items than threads": 500, "loops that do not divide": 1500, "huge ranges": 1200, "plain launches": 1500, "indexed launches": 1200, "automatic launches": 500, "nested loops": 300, "executions": 50000, "argument form 1": 250, "argument form 3": 250, "argument form 7": 250, "perturbed synchronisation calls": 50000},
      technique="offline exactly-once checker over recorded executions and argument copies, with schedule perturbation; ThreadSanitizer; AddressSanitizer and UBSan",
      note="Interleavings are sampled, not enumerated.")

check("C25", [job("c25_shared.cpp", shards=4, flags=["-O1", "-fno-access-control"], **THR),
              job("c25_shared.cpp", name="c25_tsan", shards=2, cxx="clang++", flags=TSAN + ["-fno-access-control"], **THR),
              job("c25_shared.cpp", name="c25_asan", shards=2, cxx="clang++", flags=SAN + ["-DSMALL", "-fno-access-control"], **THR)],
      "1-10 threads writing and reading records of several fields, tuples and lines through shared files (operators, execute, copies of the handle, flush); background writers and readers with 1-6 producers or consumers, moved and replaced while running, left at any moment, inputs of 0-1200 records around the batch size; deques with 1-5 producers and consumers at either end, stopped at any moment, plus short overlapping histories; thread pools of 1-5 workers and the shared one, shut down at any moment; with yields, spins, sleeps and spurious wakeups injected; distinct = different sizes, forms and histories",
      floor={"shared file: records": 20000, "shared file: records read": 20000, "shared file: tuples": 10000, "background writer: records": 12000, "background reader: records read": 12000, "background reader: left early": 30, "deque: items delivered": 12000, "deque: histories judged": 1800, "deque: histories with overlapping operations": 1000, "deque: stops with waiting threads": 600, "deque: stopped early": 30, "pool: tasks": 15000, "pool: own pools": 900, "pool: single workers": 80, "pool: tasks dropped by shutdown": 500, "pool: filled lines": 150, "pool: tasks ending by exception": 1000, "perturbed synchronisation calls": 100000, "wakeups without a signal": 300},
      technique="offline exactly-once, order and linearizability checkers over per-thread logs, with schedule perturbation, spurious wakeups and a deadlock watchdog; ThreadSanitizer; AddressSanitizer and UBSan",
      note="Interleavings are sampled, not enumerated; the deque histories (up to 16 operations) are decided completely by a search for a linearization.")

check("C22", [job("c22_isolation.cpp", name=f"c22_part{p}", shards=1, flags=["-O1", f"-DPART={p}"], **THR) for p in range(1, 7)]
      + [job("c22_isolation.cpp", name=f"c22_tsan{p}", shards=1, cxx="clang++", flags=["-O0", "-g1", "-fsanitize=thread", "-Wno-c++11-narrowing", f"-DPART={p}"], **THR) for p in range(1, 7)],
      "36 solvers of every family (plain, chain, regularised, constant step, compensated, extended) with six force configurations on 2-40 bodies, with writers, slices and collision stops, and the orbit tools; each simulation repeated after others, in another process in reverse order, from moved and copied simulators and arguments, with dirty memory, on other stacks, and beside others in 2-12 threads; every accepted state and output file folded into a hash and compared; distinct = different state histories",
      floor={"simulations alone": 400, "states recorded": 8000, "simulations in another process": 400, "repeated: again": 400, "repeated: simulator moved before the run": 400, "repeated: copy of a simulator": 400, "repeated: dirty memory": 400, "repeated: arguments used by another simulator before": 400, "simulations beside others": 5000, "crews": 48},
      technique="online comparison of state histories bit by bit between repetitions, processes and threads; ThreadSanitizer",
      note="Interleavings are sampled. The random generators seed themselves from the operating system and are outside the statement.")

# C23: the workloads of all other checks, thinned, under ASan + UBSan + LSan + library assertions, and a few under valgrind; only
# memory errors, undefined behaviour, deaths and hangs count here, since the values are judged by the properties they belong to
SAN0 = ["-std=gnu++17", "-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-Wno-c++11-narrowing"]
MEMCHECK = dict(wrap=["valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite"], deaths_only=True, libs=["-ldl", "-lquadmath"], shards=1, timeout=400)
def san(src, name, thin, *flags, **kw):
    return job(src, name="san_" + name, shards=kw.pop("shards", 1), cxx="clang++", flags=SAN0 + list(flags), libs=["-ldl", "-pthread", "-lquadmath"], deaths_only=True, args=["--thin", str(thin)], timeout=400, **kw)
def vg(src, name, thin, *flags, **kw):
    return job(src, name="vg_" + name, flags=["-std=gnu++17", "-O1", "-g", *flags], args=["--thin", str(thin)], **{**MEMCHECK, **kw})
C23_SAN = [("c05_run.cpp", "05_1", 20, "-DPART=1"), ("c05_run.cpp", "05_2", 20, "-DPART=2"), ("c05_run.cpp", "05_3", 60, "-DPART=3"), ("c05_run.cpp", "05_4", 20, "-DPART=4"),
           ("c06_slices.cpp", "06", 60), ("c07_output.cpp", "07_1", 20, "-DPART=1"), ("c07_output.cpp", "07_2", 20, "-DPART=2"), ("c08_chain.cpp", "08", 20),
           ("c09_orbits.cpp", "09", 20), ("c10_anomaly.cpp", "10", 20), ("c11_clusters.cpp", "11", 20), ("c12_scattering.cpp", "12", 20), ("c13_compensated.cpp", "13", 20),
           ("c15_forces.cpp", "15", 20), ("c16_disk.cpp", "16", 20), ("c19_ode.cpp", "19_1", 20, "-DPART=1"), ("c19_ode.cpp", "19_3", 20, "-DPART=3"),
           ("c20_state.cpp", "20", 20), ("c20_state.cpp", "20e", 20, "-DONLY_EXTENDED"), ("c27_collision.cpp", "27_1", 20, "-DPART=1"), ("c27_collision.cpp", "27_2", 20, "-DPART=2"),
           ("c27_collision.cpp", "27_3", 20, "-DPART=3"), ("c28_units.cpp", "28", 20), ("c17_fixed.cpp", "17_1", 20, "-DPART=1"), ("c17_fixed.cpp", "17_5", 20, "-DPART=5"),
           ("c18_steps.cpp", "18_1", 20, "-DPART=1"), ("c18_steps.cpp", "18_3", 20, "-DPART=3"),
           ("c18_steps.cpp", "18_6", 20, "-DPART=6"), ("c22_isolation.cpp", "22_1", 20, "-DPART=1", "-DSMALL"), ("c22_isolation.cpp", "22_3", 20, "-DPART=3", "-DSMALL"),
           ("c22_isolation.cpp", "22_4", 20, "-DPART=4", "-DSMALL"), ("c22_isolation.cpp", "22_6", 20, "-DPART=6", "-DSMALL"), ("dyn.cpp", "d1", 20, "-DPROP=1", "-DPART=1"),
           ("c14_random.cpp", "14", 50), ("c21_collections.cpp", "21_1", 10, "-DPART=1"), ("c21_collections.cpp", "21_2", 10, "-DPART=2"), ("c21_collections.cpp", "21_3", 10, "-DPART=3"),
           ("c24_threads.cpp", "24", 10, "-DSMALL"), ("c25_shared.cpp", "25", 5, "-DSMALL", "-fno-access-control"), ("c26_config.cpp", "26", 20),
           ("c29_arrays.cpp", "29_1", 20, "-DPART=1"), ("c29_arrays.cpp", "29_2", 20, "-DPART=2"), ("c29_arrays.cpp", "29_3", 20, "-DPART=3"), ("c18_control.cpp", "18_c", 20)]
C23_VG = [("c05_run.cpp", "05_1", 100, "-DPART=1"), ("c06_slices.cpp", "06", 2000), ("c07_output.cpp", "07_1", 200, "-DPART=1"), ("c08_chain.cpp", "08", 100), ("c09_orbits.cpp", "09", 200),
          ("c11_clusters.cpp", "11", 100), ("c12_scattering.cpp", "12", 1000), ("c15_forces.cpp", "15", 400), ("c16_disk.cpp", "16", 100), ("c20_state.cpp", "20", 400),
          ("c27_collision.cpp", "27_1", 100, "-DPART=1"), ("c28_units.cpp", "28", 200), ("dyn.cpp", "d1", 400, "-DPROP=1", "-DPART=1"), ("c13_compensated.cpp", "13", 400)]
check("C23", [job("c23_lifecycle.cpp", name=f"life_san{p}", shards=2 if p in (1, 6) else 1, cxx="clang++", flags=SAN0 + [f"-DPART={p}"], libs=["-ldl"], timeout=400) for p in range(1, 7)]
      + [san(*c) for c in C23_SAN] + [vg("c23_lifecycle.cpp", f"life{p}", 1, f"-DPART={p}", "-DUNDER_VALGRIND") for p in range(1, 7)] + [vg(*c) for c in C23_VG],
      "simulators of 23 kinds created, copied, moved, swapped, assigned to themselves and others, kept in growing and shrinking containers, run and destroyed in random order, on 2-130 bodies (across the inline capacities), "
      "with coincident and massless bodies, scales up to overflow, absurd first steps and tolerances; and a seed-dependent part of the workloads of all other properties (orbits, clusters, forces, disks, state round trips, "
      "chains, collisions, output, runs, slices, general equations, random numbers); distinct = different final states",
      floor={"operations on simulators": 300, "copies": 10, "moves": 10, "assignments": 8, "self assignments": 10, "swaps": 5, "ordinary runs": 100, "wild runs": 150, "runs whose state overflowed": 3, "runs beyond the inline capacity": 5},
      technique="AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and standard library assertions on every workload; valgrind memcheck for uninitialised values",
      note="MemorySanitizer is not used: the C++ library here is not instrumented, so valgrind decides uninitialised values. Values computed by the reused workloads are judged by the checks of their own properties.")
