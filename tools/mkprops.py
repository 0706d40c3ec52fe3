#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one edit place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="dune/istl/"; A=D+"paamg/"
p("C01","Sparse matrix assembly yields exactly the requested pattern and entries",
 "Whatever build mode, insertion order, row-length estimate or overflow reserve is used to assemble a compressed-row sparse matrix, the finished matrix has exactly the requested nonzero positions (sorted, duplicate free, with correct entry counts) and every entry has the value assigned or accumulated for it. A build call made out of order, an out-of-range column index (with library checking enabled), too small a size estimate or an exhausted reserve is reported by an exception and never corrupts memory.",
 ["inputs","histories","configurations"],
 "All shapes (including empty, rectangular and with empty rows), block types, build modes, insertion orders with duplicates, estimates and overflow sizes, and all orders of build-phase calls.",
 "Tests build a few fixed patterns with correct estimates; the interplay of estimate, overflow, order and misuse is combinatorial.",
 [D+"bcrsmatrix.hh"],
 [("row-wise creation",D+"bcrsmatrix.hh CreateIterator"),("random build: setrowsize/endrowsizes/addindex/setIndices/endindices",D+"bcrsmatrix.hh"),("implicit build: entry/compress/overflow map",D+"bcrsmatrix.hh"),("implicit builder wrapper",D+"bcrsmatrix.hh ImplicitMatrixBuilder")],
 [("build stage","how far construction got","BCRSMatrix::ready"),("overflow","entries that did not fit their row estimate","BCRSMatrix::overflow")])
p("C02","Matrix kernels compute the mathematical definition for every matrix container",
 "For every matrix container and block type, the plain, accumulating, scaled, transposed and Hermitian matrix-vector products, the Frobenius norm and the block-wise row-sum (infinity) norm, and matrix scaling, addition, subtraction and scaled addition equal their mathematical definition on the dense expansion of the matrix. Operands that are documented as inputs are left unchanged.",
 ["inputs","configurations"],
 "All shapes, sparsity patterns, block types (scalars, dense blocks incl. rectangular, scaled identities, nested matrices, mixed-type blocks, SIMD lanes) and fields (real and complex).",
 "Tests sample one or two fixed matrices per container, mostly square and symmetric, which hide transposition, conjugation and pattern errors.",
 [D+"bcrsmatrix.hh",D+"matrix.hh",D+"bdmatrix.hh",D+"btdmatrix.hh",D+"scaledidmatrix.hh",D+"multitypeblockmatrix.hh"],
 [("mv/umv/mmv/usmv and transposed/Hermitian variants",D+"bcrsmatrix.hh, matrix.hh, scaledidmatrix.hh, multitypeblockmatrix.hh"),("norms",D+"bcrsmatrix.hh frobenius_norm2/infinity_norm, matrix.hh, multitypeblockmatrix.hh"),("vector space operations","operator*=,/=,+=,-=,axpy of each container")])
p("C03","Container copies are independent and no operation history corrupts memory",
 "After any sequence of construction, copy, assignment, move, resize, rebuild, scaling and destruction of matrices, each matrix holds exactly the logical contents implied by its own history, copies share no mutable state, and modifying or destroying one object never changes another. No such history reads or writes outside its storage, uses released storage, releases storage with a wrong size, or leaks it.",
 ["histories","inputs"],
 "All interleavings of lifecycle operations over several live matrices of every dynamic matrix container, in every build mode and stage.",
 "Unit tests exercise a handful of copy/assign sequences; storage sharing and partially built states only fail in specific sequences.",
 [D+"bcrsmatrix.hh",D+"matrix.hh",D+"bdmatrix.hh",D+"btdmatrix.hh"],
 [("allocation, shared index storage and deallocation",D+"bcrsmatrix.hh allocate/deallocate/copyWindowStructure/setWindowPointers"),("dense matrix resize/copy",D+"matrix.hh")],
 [("shared column-index storage","index array shared between structural copies","BCRSMatrix::j_")])
p("C04","Vector containers follow the vector-space definitions under any history",
 "Block vectors, variable-size block vectors and mixed-type vectors keep exactly the element values implied by their construction, copy, move, assignment, resize and element-write history, and addition, scaling, scaled addition, (conjugating and non-conjugating) dot products and the one-, two- and infinity-norms equal the mathematical definition on the flattened entries. Traversal and lookup visit precisely the stored entries in order, and no history violates memory safety.",
 ["inputs","histories","configurations"],
 "All sizes (including empty), nested block structures, fields (real, complex, SIMD) and operation histories.",
 "Tests check a few hand-written vectors; nesting, complex conjugation, emptiness and resize histories multiply.",
 [D+"bvector.hh",D+"basearray.hh",D+"vbvector.hh",D+"multitypeblockvector.hh"],
 [("vector space operations and norms",D+"bvector.hh, multitypeblockvector.hh"),("window management",D+"vbvector.hh"),("iterators and find",D+"basearray.hh")])
p("C05","Sparse products, transposes and structural helpers agree with dense algebra",
 "Products of sparse matrices (plain, with the left or with the right factor transposed), explicit transposes, entry counts, row/column dimension queries and the check for stored diagonals agree with the dense definition and produce patterns containing exactly the structurally required entries. The inputs are unchanged.",
 ["inputs"],
 "All compatible shapes, block types and sparsity patterns, including empty rows, rows without overlap, and rectangular blocks.",
 "Tests multiply one or two fixed matrices; pattern construction and entry accumulation depend on row overlap structure.",
 [D+"matrixmatrix.hh",D+"matrixutils.hh",D+"matrix.hh"],
 [("sparsity pattern initialisation and accumulation",D+"matrixmatrix.hh"),("nonzero counting and block/dimension helpers",D+"matrixutils.hh")])
p("C06","Iterative solvers never claim convergence they did not achieve",
 "Whenever an iterative solver reports convergence for a finite, numerically nonsingular linear system with a linear (or, for flexible methods, arbitrary bounded) preconditioner, the true residual of the returned iterate, measured in the solver's norm, has been reduced by the requested factor up to rounding, the reported reduction agrees with it, and the right-hand side argument holds the corresponding residual for the methods that update it in place. Iteration counts never exceed the configured maximum, a requested one-off reduction is honoured and does not leak into later calls, and non-convergence is reported as such.",
 ["inputs","configurations","histories"],
 "All solvers, system matrices, right-hand sides, initial guesses (zero, random, exact), reductions, iteration limits, restart lengths, preconditioners and call histories on one solver object.",
 "Tests run each solver on one model problem with one setting and only look at the converged flag.",
 [D+"solver.hh",D+"solvers.hh",D+"scalarproducts.hh"],
 [("iteration bookkeeping and stopping",D+"solver.hh IterativeSolver::Iteration"),("loop, CG, gradient, BiCGSTAB, MINRES, GMRES, flexible GMRES, GPCG, flexible CG, complete flexible CG",D+"solvers.hh")],
 [("solver result","iterations, reduction, converged flag and rate",D+"solver.hh InverseOperatorResult")])
p("C07","Krylov solvers make the progress their theory guarantees",
 "On a nonsingular system of dimension n satisfying a method's requirements (definiteness, symmetry or generality), each Krylov method reaches a moderate requested reduction within a number of iterations bounded by n (plus restart effects), its computed iterate satisfies the method's optimality (energy-norm or residual-norm minimality, monotone residuals for minimal-residual methods), and the extreme-eigenvalue condition estimate agrees with the spectrum when the full space was explored.",
 ["inputs","configurations"],
 "All well-conditioned SPD, symmetric indefinite and nonsymmetric systems with suitable preconditioners, over the real and complex fields.",
 "Tests use generous iteration limits on one Laplacian, so a solver that lost orthogonality or uses a wrong coefficient still converges.",
 [D+"solvers.hh"],
 [("short recurrences and orthogonalisation",D+"solvers.hh CGSolver, MINRESSolver, BiCGSTABSolver, RestartedGMResSolver, RestartedFlexibleGMResSolver, GeneralizedPCGSolver, RestartedFCGSolver, CompleteFCGSolver"),("Givens rotations",D+"solvers.hh generatePlaneRotation/applyPlaneRotation")])
p("C08","Preconditioners apply exactly the operator they are named after",
 "One application of each sequential preconditioner (Jacobi, Gauss-Seidel, SOR, SSOR, incomplete LU of any order, incomplete LDL, diagonal-ILU, Richardson, inverse-operator wrapper), for every number of sweeps, relaxation factor, block level and block type, equals the dense-algebra definition of that method, starting from the given update and leaving the defect and matrix unchanged. The incomplete factorisations report a missing diagonal block by an exception, and with checking enabled every one of these preconditioners reports missing diagonal blocks and those whose singularity the block type detects.",
 ["inputs","configurations"],
 "All matrices with suitable diagonals, block types and nesting depths, sweep counts, relaxation factors and fields.",
 "Tests only observe that a solver converges with the preconditioner, which also holds for a wrongly relaxed, ordered or truncated variant.",
 [D+"gsetc.hh",D+"ilu.hh",D+"ildl.hh",D+"dilu.hh",D+"preconditioners.hh"],
 [("block Jacobi/SOR/SSOR sweeps and block triangular solves",D+"gsetc.hh"),("ILU factorisation, fill patterns, CRS conversion and backsolve",D+"ilu.hh"),("incomplete LDL",D+"ildl.hh"),("diagonal ILU",D+"dilu.hh"),("preconditioner classes",D+"preconditioners.hh")])
p("C09","Solvers obey the operator and preconditioner calling protocol",
 "During every solve, an iterative solver prepares its preconditioner exactly once before the first and cleans it up exactly once after the last application, passes a zero initial update and a defect equal to the current residual direction, never modifies a vector it passed or received as constant, never changes the operator, and uses the supplied scalar product for every norm that enters its decisions. The same solver object may be reused and gives the same result again.",
 ["histories","configurations"],
 "All solvers, preconditioners, scalar products, iteration limits and repeated or interleaved solves, including early termination at iteration zero.",
 "The built-in preconditioners do not check the contract, so violations are invisible to the tests until a user supplies a stateful or parallel component.",
 [D+"solvers.hh",D+"preconditioner.hh",D+"operators.hh",D+"scalarproducts.hh"],
 [("pre/apply/post sequencing",D+"solvers.hh every apply()"),("interface contract",D+"preconditioner.hh")])
p("C10","Direct solvers return the solution of the system they were given",
 "Every sparse direct solver wrapper (and the block-tridiagonal solver) returns the solution of the given nonsingular system up to rounding for every block type and field it supports, for every history of setting, replacing, restricting to a row subset, and reusing, saving and loading the factorisation, for any number of right-hand sides. Degrees of freedom a solver is told to ignore leave the corresponding solution entries untouched, and no history leaks or corrupts memory.",
 ["inputs","histories","configurations"],
 "All nonsingular (SPD where required) sparse systems, block sizes and nestings, subsets, ignore masks and set/solve/free histories.",
 "Tests solve one Laplacian per backend once; index conversion for blocks and subsets and reuse are barely sampled.",
 [D+"umfpack.hh",D+"superlu.hh",D+"supermatrix.hh",D+"ldl.hh",D+"spqr.hh",D+"cholmod.hh",D+"bccsmatrix.hh",D+"bccsmatrixinitializer.hh",D+"btdmatrix.hh"],
 [("column-compressed conversion incl. subsets",D+"bccsmatrixinitializer.hh, supermatrix.hh"),("backend wrappers",D+"umfpack.hh, superlu.hh, ldl.hh, spqr.hh, cholmod.hh"),("Thomas algorithm",D+"btdmatrix.hh solve")])
p("C11","Coarsening yields a valid partition and exact Galerkin coarse operators",
 "For every matrix and coarsening parameter set, aggregation assigns every unknown to exactly one existing, connected aggregate (or marks it isolated), aggregate sizes respect the configured bounds except where isolation forces otherwise, and each coarse matrix of an algebraic multigrid hierarchy equals the Galerkin product of its fine matrix with the piecewise-constant transfer, which prolongates and restricts consistently. The matrix graph used for this represents precisely the matrix's off-diagonal structure, and recomputing the hierarchy after value changes gives the same as building it anew.",
 ["inputs","configurations"],
 "All matrices (M-matrices, anisotropic, disconnected, diagonal, dense rows), block sizes, strength measures, aggregation parameters.",
 "Tests only look at convergence of the total method on one Poisson problem, which survives many wrong aggregates or coarse entries.",
 [A+"aggregates.hh",A+"galerkin.hh",A+"transfer.hh",A+"matrixhierarchy.hh",A+"graph.hh",A+"indicescoarsener.hh",A+"dependency.hh"],
 [("aggregation",A+"aggregates.hh Aggregator/AggregatesMap"),("Galerkin pattern and values",A+"galerkin.hh"),("transfer",A+"transfer.hh"),("hierarchy",A+"matrixhierarchy.hh"),("matrix graph",A+"graph.hh")])
p("C12","Multigrid cycles are convergent, linear and reusable without state leaks",
 "As a preconditioner on symmetric positive definite M-matrix problems every multigrid variant (V/W-cycle, fast, Krylov-accelerated, two-level) makes the solver converge within a moderate, size-robust number of iterations; the stationary variants act as a fixed linear operator, equal to the recursive definition of the cycle (and symmetric when smoothing is). Copying, reusing across solves, resetting a solve, or recalculating after a value change never changes the result beyond rounding, and direct coarse solving is exact.",
 ["inputs","configurations","histories"],
 "All grid sizes, block sizes, anisotropies, smoothers, sweep counts, cycle types, additive mode and solve histories.",
 "Tests check one or two Poisson runs visually or by converged flag only; wrong step counts, missing corrections or stale state only slow convergence.",
 [A+"amg.hh",A+"fastamg.hh",A+"fastamgsmoother.hh",A+"kamg.hh",A+"twolevelmethod.hh",A+"smoother.hh",A+"hierarchy.hh",A+"parameters.hh"],
 [("multigrid cycle",A+"amg.hh mgc/additiveMgc"),("fast variant",A+"fastamg.hh"),("K-cycle",A+"kamg.hh"),("two-level method",A+"twolevelmethod.hh")])
p("C13","Independent and read-only shared use from several threads is race free",
 "Concurrent read-only use of shared matrices and vectors (products, norms, traversal, copying), concurrent application of separate solver and preconditioner objects on a shared operator, and concurrent execution of logically const operations yield the same results as sequential execution and contain no data race; process-wide state inside third-party libraries (ARPACK's Fortran common blocks) is not dune-istl's.",
 ["schedules"],
 "All interleavings of several threads that share matrices, vectors and operators read-only while each owns its solvers, preconditioners and outputs.",
 "The test suite is single threaded, so hidden mutable or static state is never observed.",
 [D+"bcrsmatrix.hh",D+"bvector.hh",D+"solvers.hh",D+"preconditioners.hh",D+"operators.hh",D+"dilu.hh",D+"solverfactory.hh"],
 [("const operations without hidden caches","const members of all containers"),("shared index storage reference counting",D+"bcrsmatrix.hh j_"),("process-wide factories and registries",D+"solverregistry.hh, common/registry.hh")])
p("C14","Matrix Market files round-trip, and malformed files are rejected safely",
 "Writing a matrix or vector in Matrix Market format and reading it back yields the same dimensions, pattern and values (exactly, given sufficient precision) for every supported block type and field, and files written by other tools in general, symmetric, skew-symmetric or Hermitian form are read as the matrix they denote. Malformed, truncated or inconsistent files are reported by an exception, never by memory corruption, abnormal termination or a silently different matrix.",
 ["inputs","fault_sequences"],
 "All matrices and vectors, block types, fields, precisions and symmetry classes; all truncations and corruptions of a file.",
 "Tests round-trip a single Laplacian; malformed and structured inputs are not tested at all.",
 [D+"matrixmarket.hh"],
 [("header and entry parsing",D+"matrixmarket.hh readMatrixMarket"),("writers",D+"matrixmarket.hh writeMatrixMarket/storeMatrixMarket"),("parallel index files",D+"matrixmarket.hh loadMatrixMarket")])
p("C15","Distributed-vector communication makes copies consistent and norms global",
 "For any decomposition of indices among processes, copying owner values to all makes every shared entry equal to its owner's value, additive exchange gives every sharing process the prescribed sum, projection zeroes exactly the copies, and the parallel dot product and norm count every global unknown exactly once and therefore equal the sequential values on every process. Entries not addressed by an exchange remain untouched.",
 ["inputs","configurations","schedules"],
 "All numbers of processes, partitions into owner/overlap/copy entries, vector block types and communication sequences.",
 "Tests run one fixed overlap layout; per-attribute selection is only visible for unusual layouts.",
 [D+"owneroverlapcopy.hh",D+"schwarz.hh",D+"novlpschwarz.hh",D+"scalarproducts.hh"],
 [("interfaces per attribute pair",D+"owneroverlapcopy.hh build*Interface"),("dot/norm masks",D+"owneroverlapcopy.hh dot/norm/project")])
p("C16","Redistribution preserves the global linear system",
 "Repartitioning or redistributing a distributed matrix and its vectors over any number of processes preserves the global matrix entry by entry and every global vector component, gives each global index exactly one owner and correct copies, and redistributing back restores the original distribution of the vectors.",
 ["inputs","configurations","schedules"],
 "All process counts, target part counts, matrix graphs, decompositions and block sizes.",
 "Tests only redistribute a regular Laplacian once and compare no contents globally.",
 [D+"repartition.hh",D+"matrixredistribute.hh",A+"globalaggregates.hh"],
 [("graph repartitioning and index set rebuild",D+"repartition.hh graphRepartition/buildCommunication"),("matrix redistribution",D+"matrixredistribute.hh redistributeMatrix"),("vector redistribution",D+"matrixredistribute.hh RedistributeInformation")])
p("C17","Parallel solves give the sequential solution",
 "Solving a distributed linear system with overlapping or nonoverlapping parallel operators, scalar products and preconditioners (including parallel multigrid with any agglomeration mode) gives, on every process, the solution of the global system to the requested accuracy, with identical convergence verdicts and iteration counts on all processes and without deadlock.",
 ["inputs","configurations","schedules"],
 "All process counts, decompositions, solvers, parallel preconditioners and agglomeration settings.",
 "Tests run a fixed Laplacian and look at the converged flag only; wrong overlap handling can converge to something else.",
 [D+"schwarz.hh",D+"novlpschwarz.hh",D+"owneroverlapcopy.hh",D+"preconditioners.hh",A+"amg.hh",A+"matrixhierarchy.hh",A+"globalaggregates.hh",A+"indicescoarsener.hh"],
 [("parallel operators",D+"schwarz.hh OverlappingSchwarzOperator, novlpschwarz.hh NonoverlappingSchwarzOperator"),("block preconditioners",D+"schwarz.hh"),("parallel hierarchy",A+"matrixhierarchy.hh, indicescoarsener.hh")])
p("C18","A solver configured by name behaves as the one constructed directly",
 "For every registered solver and preconditioner name and every documented parameter, the object created from a configuration has the same behaviour (iterates, iteration count, result) as the one constructed directly with those parameters, and defaults apply where a parameter is omitted. Unknown names, missing required entries and unsupported combinations are reported by an exception.",
 ["configurations","inputs"],
 "All registered names and parameter values, matrix/vector types and malformed configurations.",
 "Tests only check that a handful of configurations converge; a parameter that is ignored or misread is invisible.",
 [D+"solverfactory.hh",D+"solverregistry.hh",D+"solver.hh",D+"solvers.hh",D+"preconditioners.hh",D+"common/registry.hh",A+"amg.hh",A+"parameters.hh"],
 [("factories",D+"solverfactory.hh getSolverFromFactory/getPreconditionerFromFactory"),("configuration constructors",D+"solvers.hh, preconditioners.hh, paamg/amg.hh")])
p("C19","Overlapping Schwarz and subdomain solvers equal their algebraic definition",
 "Sequential additive, multiplicative and symmetric multiplicative overlapping Schwarz methods with any subdomains and local solver apply exactly the corresponding algebraic composition of exact (or incomplete) subdomain solves with relaxation, independent of whether local solvers are set up in advance or on the fly, and subdomain extraction uses precisely the rows and columns of the subdomain.",
 ["inputs","configurations"],
 "All matrices, subdomain covers (overlapping, nested, single-element), relaxation factors, block sizes and local solvers.",
 "The test checks convergence only, on one regular cover.",
 [D+"overlappingschwarz.hh",D+"ilusubdomainsolver.hh",D+"supermatrix.hh"],
 [("subdomain assembly and correction",D+"overlappingschwarz.hh SeqOverlappingSchwarz"),("incomplete local solvers",D+"ilusubdomainsolver.hh")])
p("C20","Flat traversal and block-structure queries cover every scalar exactly once",
 "Flat traversal of any nested vector or matrix visits every stored scalar entry exactly once, in lexicographic order of its nesting, with the running flat index (and for matrices the flat row and column) that the entry has in the flattened object, returns the total size, and writes through the visited references reach the container; the reported nesting depth agrees with the structure.",
 ["inputs","programs"],
 "All nestings of dynamic, static, scalar, variable-size and mixed-type blocks, including empty and sparse ones.",
 "Tests traverse two or three fixed nestings.",
 [D+"foreach.hh",D+"blocklevel.hh",D+"multitypeblockvector.hh",D+"multitypeblockmatrix.hh"],
 [("flat traversal",D+"foreach.hh"),("block level",D+"blocklevel.hh")])
p("C21","Eigenvalue routines return true eigenpairs",
 "Power, inverse, shifted and Rayleigh-quotient iterations and the ARPACK-based routines return, when they report success, an eigenvalue with a matching normalised eigenvector whose residual is within the requested tolerance, and it is the requested one (dominant, smallest, or nearest to the shift); singular values and condition numbers agree with those of the dense matrix. Failure to converge within the limit is reported.",
 ["inputs","configurations"],
 "All symmetric matrices with separated spectra, shifts, tolerances, start vectors and block sizes.",
 "Tests use one Laplacian with one shift, compared by hand-tuned tolerances.",
 [D+"eigenvalue/poweriteration.hh",D+"eigenvalue/arpackpp.hh"],
 [("power iteration family",D+"eigenvalue/poweriteration.hh"),("ARPACK adapter",D+"eigenvalue/arpackpp.hh")])
p("C22","Index sets describe, import and export exactly the inserted pattern",
 "A matrix index set built by any sequence of insertions, block imports and resizes contains exactly the inserted positions, reports their counts, enumerates them in increasing column order, and exports a sparse matrix with precisely this pattern, independent of insertion order, duplicates and internal storage thresholds.",
 ["inputs","histories"],
 "All shapes, insertion sequences, import offsets and storage thresholds.",
 "Tests insert a few dozen entries and never reach the internal storage switch with mixed duplicates.",
 [D+"matrixindexset.hh"],
 [("row storage with switch from sorted array to set",D+"matrixindexset.hh add/import/exportIdx")])
p("C23","Numerical breakdown and component failures surface as errors, not as results",
 "If a NaN or infinity enters through the operator, the preconditioner, the right-hand side or the initial guess, or a recurrence breaks down, an iterative solver ends by its documented abort exception or by reporting non-convergence within its iteration limit; an exception thrown by a component propagates unchanged. After such a failure the same solver object with healthy components solves correctly with its configured tolerance.",
 ["fault_sequences","histories"],
 "All solvers, every position (call number, component, vector entry) at which a fault may be injected, and subsequent reuse.",
 "No test injects a fault at arbitrary points of a solve.",
 [D+"solver.hh",D+"solvers.hh",D+"istlexception.hh"],
 [("defect sanity check",D+"solver.hh Iteration::step"),("breakdown detection",D+"solvers.hh BiCGSTABSolver, GMRes, CGSolver")])
p("C24","Printed matrices and vectors denote the stored object",
 "The text, MATLAB and SVG output of matrices and vectors denotes exactly the stored object: parsing the output recovers every stored entry at its flattened row and column with the printed value, and nothing else, for every nesting, and stream formatting state is restored.",
 ["inputs"],
 "All matrices and vectors, nestings, widths, precisions.",
 "Tests only call the printers without interpreting the output.",
 [D+"io.hh"],
 [("printvector/printmatrix/printSparseMatrix/writeMatrixToMatlab/writeVectorToMatlab/writeSVGMatrix",D+"io.hh")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
