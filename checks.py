# Per property: the monitor programs (in harness/), how to build and run them, and what counts as non-trivial.
T = "differential runtime monitoring against an independent model, under ASan+UBSan"
A = "Holds on the executions generated by this seed and tier; trusts the independent reference model in harness/, gcc's sanitizers and the compiler."
TS = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:ignore_noninstrumented_modules=1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
CHECKS = {
 "C01": {"technique": T + ", seeded build histories", "note": A,
         "rule": "seeded build histories of sparse matrices (mode, insertion order, duplicates, estimates, overflow, misuse); a case counts once per distinct combination of mode, pattern kind, shape, entry count and outcome",
         "runs": [{"name": "c01", "src": "c01.cc", "scale": 8}, {"name": "c01chk", "src": "c01.cc", "scale": 6, "flags": ["-DDUNE_ISTL_WITH_CHECKING=1", "-DDUNE_CHECK_BOUNDS=1"]}]},
 "C02": {"technique": T + ", exact integer arithmetic", "note": A,
         "rule": "seeded small-integer matrices (exact arithmetic) of every container, shape, pattern and build mode; each kernel compared entry by entry with the dense definition; a case counts once per container, build mode, shape and entry count",
         "runs": [{"name": "c02p%d" % i, "src": "c02.cc", "scale": 3, "flags": ["-DPART=%d" % i]} for i in range(3)]},
 "C03": {"technique": "runtime monitoring of operation histories against models, with a tracking allocator and ASan+UBSan", "note": A,
         "rule": "seeded histories (build, copy, assign, move, swap, write, scale, resize, abandon half-built, destroy) over 3-4 live matrices with a tracking allocator; every object compared with its model after every step; a case counts once per distinct operation trace",
         "runs": [{"name": "c03", "src": "c03.cc", "scale": 15}]},
 "C04": {"technique": T + ", operation histories with a tracking allocator", "note": A,
         "rule": "seeded histories over three live vectors of each container and block type (construct, copy, move, swap, resize, reserve, write, arithmetic); a case counts once per distinct operation trace or shape",
         "runs": [{"name": "c04", "src": "c04.cc", "scale": 5}, {"name": "c04chk", "src": "c04.cc", "scale": 5, "flags": ["-DDUNE_ISTL_WITH_CHECKING=1"]}]},
 "C05": {"technique": T + ", exact integer arithmetic", "note": A,
         "rule": "seeded sparse factors of random shape, pattern, block shape and build mode (result object reused); products, transposes, dimension queries, counts and diagonal checks compared with dense algebra and the structural pattern; a case counts once per distinct combination of patterns, shapes and modes",
         "runs": [{"name": "c05", "src": "c05.cc", "scale": 8}, {"name": "c05chk", "src": "c05.cc", "scale": 8, "flags": ["-DDUNE_ISTL_WITH_CHECKING=1"]}]},
  "C06": {"technique": "runtime monitoring with spying operator, preconditioner and scalar product against a dense residual oracle, under ASan+UBSan", "note": A,
         "rule": "seeded systems with prescribed spectrum for each of the ten iterative solvers (real and complex, weighted scalar products, fixed and varying preconditioners, restarts, iteration limits, one-off reductions, repeated calls); true residual recomputed densely; a case counts once per solver, size, restart, limit, iterations done, accuracy and mode",
         "runs": [{"name": "c06p%d" % i, "src": "c06.cc", "flags": ["-DPART=%d" % i]} for i in range(4)]},
  "C07": {"technique": "runtime monitoring of solver iterates against dense optimal/defining iterates over the observed search space, under ASan+UBSan", "note": A,
         "rule": "seeded systems; solver stopped after k steps; iterate compared with the dense minimiser over the Krylov space (or over the preconditioner outputs recorded by the spy); finite termination bound; condition estimate against Ritz values; a case counts once per solver, size, steps, restart and mode",
         "runs": [{"name": "c07p%d" % i, "src": "c07.cc", "flags": ["-DPART=%d" % i, "-fno-sanitize=bool"]} for i in range(3)]},
  "C09": {"technique": "runtime monitoring of the calling protocol with spying components (online protocol checker), under ASan+UBSan", "note": A,
         "rule": "seeded solves with spying operator, preconditioner and scalar product, three calls per solver object (with another system in between), and real matrix/preconditioner pairs; a case counts once per solver, size, limits and observed call counts",
         "runs": [{"name": "c09p%d" % i, "src": "c09.cc", "flags": ["-DPART=%d" % i]} for i in range(2)]},
  "C23": {"technique": "runtime monitoring with fault injection through spying components, under ASan+UBSan", "note": A,
         "rule": "seeded fault plans (NaN, infinity or exception at the k-th operator, preconditioner, scalar product, pre or post call, or in the data) and exact singular/skew/nilpotent breakdown systems; solver object reused healthy and compared with a fresh one; a case counts once per solver, size and observed fault/outcome trace",
         "runs": [{"name": "c23p%d" % i, "src": "c23.cc", "flags": ["-DPART=%d" % i]} for i in range(2)]},
  "C08": {"technique": T + " and dense recursive reference sweeps/factorisations", "note": A,
         "rule": "seeded systems of every block type and nesting depth, sweep counts, relaxation factors, fill orders, start updates; each kernel and preconditioner compared with its dense recursive definition, defect and matrix compared with their copies; missing or singular diagonal blocks with checking enabled; a case counts once per type, level, size, factor, sweeps and pattern",
         "runs": [{"name": "c08p%d" % i, "src": "c08.cc", "scale": 2, "san": "asan0", "flags": ["-DPART=%d" % i] + (["-DDUNE_ISTL_WITH_CHECKING=1", "-DDUNE_FMatrix_WITH_CHECKING=1"] if i == 3 else [])} for i in range(4)]},
 "C10": {"technique": T + ", solver-object histories with heap accounting", "note": A,
         "rule": "seeded histories of one solver object (construct in every documented way, set, replace, restrict to a row subset or to unmasked unknowns, save/load, solve by vectors or arrays, destroy the source matrix) per wrapper, field and block type; every solution checked by its residual against the dense matrix; each history repeated with heap accounting; a case counts once per distinct operation trace with sizes",
         "runs": [{"name": "c10p%d" % i, "src": "c10.cc", "scale": 2, "san": "asan0", "flags": ["-DPART=%d" % i]} for i in range(4)]},
 "C22": {"technique": "runtime monitoring of operation histories against a set model, under ASan+UBSan", "note": A,
         "rule": "seeded histories of one index set and a copy of it (add in any order, fill, block import with offsets, grow, shrink, copy, move, export into fresh, built and half-built matrices) with storage thresholds 0..8, 100 and the default, plus rows crossing the threshold by -2..3 entries; after every step the whole set is compared with the model; a case counts once per distinct operation trace with shape and entry count",
         "runs": [{"name": "c22", "src": "c22.cc", "scale": 2}, {"name": "c22chk", "src": "c22.cc", "scale": 2, "flags": ["-DDUNE_ISTL_WITH_CHECKING=1"]}]},
 "C20": {"technique": T + ", visit sequences against flat models", "note": A,
         "rule": "seeded nested vectors and matrices of every container and nesting (fixed, variable, multi-type, banded, sparse in sparse) traversed mutable and const from random start offsets; the recorded sequence of (flat index, value, address) is compared with the flat model, writes are read back; nesting depths compared with an independent type computation; a case counts once per type, shape and entry count",
         "runs": [{"name": "c20", "src": "c20.cc", "scale": 2, "san": "asan0"}, {"name": "c20chk", "src": "c20.cc", "scale": 2, "san": "asan0", "flags": ["-DDUNE_ISTL_WITH_CHECKING=1"]}]},
 "C24": {"technique": "runtime monitoring of emitted output by independent parsers compared with the stored object, under ASan+UBSan", "note": A,
         "rule": "seeded vectors and matrices of every printable container and block type (extreme, negative, complex values; empty rows; empty objects), printed with random columns, widths, precisions, row texts and prior stream states; output parsed back (text, MATLAB, SVG including geometry) and compared with the stored entries; a case counts once per type, shape, pattern, mode and format",
         "runs": [{"name": "c24", "src": "c24.cc", "san": "asan0"}]},
 "C11": {"technique": "runtime monitoring of recorded coarsening runs against an independent strength, partition and Galerkin oracle, under ASan+UBSan", "note": A,
         "rule": "seeded structurally symmetric problems (grids, trees, clusters, arrows, disconnected, permuted, anisotropic, Dirichlet, positive couplings) with random aggregation and coarsening parameters; graphs, properties, strengths, partition, sizes, every level's matrix, transfers, recalculation and coarsest numbering observed through the public interface; a case counts once per problem, criterion and parameter set",
         "runs": [{"name": "c11", "src": "c11.cc", "san": "asan0"}]},
    "C12": {"technique": "runtime monitoring of recorded cycles and use histories against a recursive model of the multigrid cycle, with allocation accounting, under ASan+UBSan", "note": A,
         "rule": "seeded problems, aggregation parameters, smoothers (Jacobi, SOR, SSOR, ILU; steps and relaxation), cycle types (V, W, additive, fast, Krylov, two-level), random histories of pre/apply/post/copy/destroy/recalculate over up to three objects, user-supplied hierarchies and coarse solvers, plus model problems with iteration bounds; a case counts once per configuration and problem",
         "runs": [{"name": "c12", "src": "c12.cc", "san": "asan0"}]},
    "C13": {"technique": "ThreadSanitizer plus comparison with sequential execution on concurrent workloads with randomised start, order and pauses", "note": A,
         "rule": "2-4 threads execute random plans of 2-5 operations each on shared read-only matrices, vectors, operators and index sets or with their own solver, preconditioner and direct solver objects; first use before or during the concurrent phase; a case counts once per operation set and observed start order",
         "runs": [{"name": "c13a", "src": "c13.cc", "scale": 3, "san": "tsan", "flags": ["-DPART=1"], "env": TS}, {"name": "c13b", "src": "c13.cc", "scale": 3, "san": "tsan", "flags": ["-DPART=2"], "env": TS}]},
    "C14": {"technique": "runtime monitoring of readers and writers against an independent interpreter of Matrix Market texts, with corruption and file-fault injection, under ASan+UBSan", "note": A,
         "rule": "seeded matrices and vectors of every field and block shape written (stream, file names, precisions) and read back; generated texts in every symmetry class, field and formatting; token, line and byte corruption, truncation at every byte; missing, unreadable and full files; a case counts once per container type, form, verdict of the interpreter and shape",
         "runs": [{"name": "c14", "src": "c14.cc", "san": "asan0"}]},
    "C15": {"technique": "runtime monitoring of every process's vectors against a simulation of the exchange over the whole decomposition, under ASan+UBSan and mpirun", "note": A,
         "rule": "seeded decompositions on 1-5 processes (arbitrary sharing, attributes, private, unlisted and ownerless entries, idle processes, shuffled local numbering), five ways to set up the communication (rebuild, neighbour hints, index info, index files, own communicator), seven vector types, random sequences of all exchanges, projection, dot, norm and lookups; a case counts once per layout, type and sequence",
         "runs": [{"name": "c15", "src": "c15.cc", "san": "asan0", "kind": "mpi", "np": {"quick": [1, 2, 3, 5], "thorough": [1, 2, 3, 4, 5, 7]}}]},
    "C16": {"technique": "runtime monitoring of redistributed index sets, matrices and vectors of all processes against the global objects, under ASan+UBSan and mpirun", "note": A,
         "rule": "seeded global matrices and decompositions on 1-5 processes (overlapping with copies or overlap layers, nonoverlapping with and without ghosts, holes in the index set, processes without entries, shuffled local numbers), graph and communication-graph repartitioning to any number of parts, three kinds of global indices, four block types; a case counts once per layout if anything moves",
         "runs": [{"name": "c16", "src": "c16.cc", "san": "asan0", "kind": "mpi", "np": {"quick": [1, 2, 3, 5], "thorough": [1, 2, 3, 4, 5, 7]}}]},
    "C17": {"technique": "runtime monitoring of parallel operators, preconditioners, solves and multigrid hierarchies of all processes against the global dense system, under ASan+UBSan and mpirun with a deadlock watchdog", "note": A,
         "rule": "seeded global systems (six graph families, element grids) and decompositions on 1-5 processes (overlap layers or Dirichlet copies, nonoverlapping with and without ghosts, holes, idle processes, shuffled numbering), scalar, block and complex entries, all Krylov solvers and block preconditioners, multigrid with random coarsening parameters, cycles, smoothers and all agglomeration modes; a case counts once per system, decomposition and configuration",
         "runs": [{"name": "c17", "src": "c17.cc", "san": "asan0", "kind": "mpi", "np": {"quick": [1, 2, 3, 5], "thorough": [1, 2, 3, 4, 5, 7]}}]},
 "C18": {"technique": "runtime monitoring: configured and directly constructed objects run side by side, compared bit for bit, under ASan+UBSan", "note": A,
         "rule": "seeded systems and configurations (every registered preconditioner and solver name, random presence and value of every documented key, upper/lower case words, one-off reductions, repeated calls, histories of several created objects, malformed entries); every configured object (factory, constructor from a parameter tree, preconditioner passed at run time, abstract and matrix-free operators) is compared with the directly constructed one in iterate, overwritten right-hand side, iteration count, convergence, rates and exception; a case counts once per configuration and outcome",
         "runs": [{"name": "c18p%d" % i, "src": "c18.cc", "san": "asan0", "flags": ["-DPT=%d" % i]} for i in (1, 2, 3, 4, 5)] + [{"name": "c18a%d" % i, "src": "c18.cc", "san": "asan0", "flags": ["-DPT=%d" % i, "-DWITH_AMG"]} for i in (1, 2)]
                 + [{"name": "c18q%d" % i, "src": "c18p.cc", "san": "asan0", "flags": ["-DNOV=%d" % (i % 2), "-DBS=%d" % (1 + i // 2)], "kind": "mpi", "np": {"quick": [1, 3], "thorough": [1, 2, 3, 4, 5]}} for i in range(4)]
                 + [{"name": "c18b%d" % i, "src": "c18p.cc", "san": "asan0", "flags": ["-DNOV=%d" % i, "-DBS=1", "-DWITH_AMG"], "kind": "mpi", "np": {"quick": [2], "thorough": [1, 2]}} for i in range(2)]},
 "C19": {"technique": T + " and the dense algebraic definition of the Schwarz step", "note": A,
        "rule": "seeded systems, covers (random, single-element, nested, whole, neighbourhood, strips, disjoint), relaxation factors, modes, local solvers, both constructors, prepared and on the fly, repeated applications with changed matrix values; local solver objects driven through histories of subdomains; subdomains derived from aggregations by the multigrid smoother setup, and multigrid cycles smoothed with them; a case counts once per type, mode, cover and call form, or hierarchy",
        "runs": [{"name": "c19p%d" % i, "src": "c19.cc", "san": "asan0", "flags": ["-DPART=%d" % i]} for i in range(5)]},
 "C21": {"technique": T + ", dense spectra and residuals", "note": A,
         "rule": "seeded symmetric matrices with prescribed or random spectra (dense, sparse, diagonal, Laplacian, scaled; block sizes 1-3), random shifts, intervals, tolerances, iteration limits and start vectors including invalid ones; histories of algorithm calls on one object with direct, accurate and inexact iterative solvers; ARPACK routines on symmetric, tall, square and wide matrices; every returned pair compared with the dense spectrum and its true residual; a case counts once per routine, solver, matrix kind, size and iteration trace",
         "runs": [{"name": "c21p%d" % i, "src": "c21.cc", "scale": 4, "flags": ["-DPART=%d" % i, "-fno-sanitize=bool"]} for i in range(3)]},
}
NOT_APPLICABLE = {}
