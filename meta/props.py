"""The properties: statement, anchors, and how each is decided.  gen_meta.py turns this into properties.jsonl and MANIFEST.json."""
PROPS = []
NOT_APPLICABLE = []
SAN = ("Runs of the real code built with AddressSanitizer and UndefinedBehaviorSanitizer (heap and stack pre-filled with patterns, asserts on); "
       "a sanitizer report, failed assert, fatal log, hang or oracle mismatch is a violation. ")


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique="runtime monitoring: " + technique, level_note=SAN + note, observe=observe))


P("C01", "Equation numbering is a gapless bijection that separates prescribed DoFs",
  "For every model, once equations are numbered, each registered nodal or element degree of freedom and each multi-point constraint has its own "
  "equation number, the numbers fill 1..N with no gap or repeat, and prescribed DoFs come first, unknown DoFs next, constraint multipliers last. "
  "The reported counts (total, prescribed, unknown, constraints), per-DoF lookups and the printed DoF listing all agree with what was registered and "
  "prescribed, however often and in whatever order a DoF is registered or prescribed.",
  ["inputs", "histories"], "all meshes, DoF sets, prescribed sets, constraint sets, registration orders and repeated re-numberings",
  "The tests number a few fixed meshes with one prescribed set; a wrong order of mixed DoF types, element DoFs, or repeated prescriptions is never sampled.",
  ["src/lib/FEStorage.cpp", "src/lib/FEStorage.h", "src/lib/DofCollection.cpp", "src/lib/DofCollection.h", "src/lib/Dof.h"],
  [("equation numbering", "src/lib/FEStorage.cpp assignEquationNumbers"), ("DoF registration and lookup", "src/lib/DofCollection.cpp"),
   ("prescription bookkeeping", "src/lib/FEStorage.cpp setConstrainedNodeDof / setConstrainedElementDof")],
  "numbering history checked against a set model", "Random models and registration histories against an independent set model; covers what was generated, not all meshes.")

P("C02", "Assembled global matrices and loads equal the sum of element contributions",
  "After assembly, the global stiffness, damping, inertia and load entries between any two degrees of freedom equal the sum of the contributions of "
  "the elements sharing them (in either index order), entries between uncoupled DoFs are zero, and each constraint contributes exactly its coefficients "
  "and right-hand side to its own row. Assembling again replaces rather than accumulates, leaves the solution and externally applied loads untouched, and "
  "renumbering nodes or elements only permutes the result.",
  ["inputs", "histories", "configurations"], "all meshes, element shapes, DoF layouts, prescribed sets, static/transient settings and re-assembly histories",
  "Tests check solution values of a few models; a contribution sent to the wrong block or a re-assembly that accumulates is invisible there.",
  ["src/lib/FEStorage.cpp", "src/lib/FEStorage.h", "src/lib/elements/element.h", "src/lib/math/BlockSparseMatrix.h"],
  [("global assembly", "src/lib/FEStorage.cpp assembleGlobalEqMatrices"), ("element assembly helpers", "src/lib/elements/element.h assembleK/C/M"),
   ("constraint rows", "src/lib/FEStorage.cpp assembleGlobalEqMatrices, Mpc")],
  "assembled operators compared with an exact integer sum model",
  "Integer element contributions make the expected sums exact. Assumes no element lists a node twice and fewer than 100 couplings per row (fatally reported otherwise).")

P("C03", "Sparse and block-sparse matrices behave as the dense matrix they represent",
  "For every history of building, filling, zeroing, re-initialising and sharing sparsity between matrices, every entry reads back exactly the value written "
  "or accumulated there, absent entries read zero, symmetric entries agree in both index orders, and the row-compressed arrays describe exactly the declared entries, "
  "sorted. Matrix-vector and transposed products equal the dense products, comparison reports equality exactly when shapes, sparsity and values (within tolerance) agree, "
  "and a block matrix presents its blocks as one matrix.",
  ["inputs", "histories"], "all sizes (including empty rows), entry orders, value magnitudes and operation histories, up to several matrices sharing one sparsity",
  "The unit test builds a few small matrices once; reuse after sharing or re-initialising and one-entry/empty rows are never visited.",
  ["src/lib/math/SparseMatrix.cpp", "src/lib/math/SparseMatrix.h", "src/lib/math/BlockSparseMatrix.h"],
  [("sparsity compression and lookup", "src/lib/math/SparseMatrix.cpp SparsityInfo"), ("value storage", "src/lib/math/SparseMatrix.cpp BaseSparseMatrix"),
   ("block routing", "src/lib/math/BlockSparseMatrix.h")],
  "operation histories checked against a map model", "Histories of up to 60 operations on up to three matrices; rows never exceed the capacity announced at construction.")

P("C04", "Linear equation solvers return the solution or report failure",
  "For every nonsingular symmetric system, definite or indefinite, both the dense and the PARDISO solver return a vector that satisfies the equations to round-off relative to the "
  "conditioning, for any right-hand side, without changing the matrix. Factorizing once and substituting repeatedly gives the same answers as solving afresh, "
  "and a solver reused for new values, another structure or another size never answers from an earlier matrix. A singular system the solver cannot solve is reported rather than answered "
  "silently with non-finite numbers.",
  ["inputs", "histories"], "all symmetric sparsity patterns, sizes, scales, definiteness, right-hand sides and reuse histories of one solver object",
  "Tests solve one small matrix per solver; pivoting, reuse for another matrix and constraint (zero-diagonal) rows are never sampled.",
  ["src/lib/math/EquationSolver.cpp", "src/lib/math/EquationSolver.h"],
  [("dense elimination with pivoting", "src/lib/math/EquationSolver.cpp GaussDenseEquationSolver"),
   ("PARDISO phases and parameters", "src/lib/math/EquationSolver.cpp PARDISO_equationSolver")],
  "residual and reference-solution oracle over solver-reuse histories",
  "Generated systems have condition numbers below 1e10; the PARDISO build runs against the installed (uninstrumented) solver library.")

P("C05", "A static linear analysis returns the exact constrained equilibrium",
  "After a static linear solve of any well-posed model, stiffness times solution equals applied loads plus reactions, prescribed DoFs hold exactly their prescribed values, every multi-point "
  "constraint is satisfied with its right-hand side, and the solution is the unique constrained equilibrium. Reactions are exactly the forces the prescribed DoFs need (loads put on them change nothing) and, for shipped elements, "
  "balance the applied loads globally; queries of DoFs by node or element return that same solution, and post-processors are called once before, once per step and once after the solve.",
  ["inputs", "configurations"], "all well-posed linear models, boundary conditions, loads, constraints and choice of equation solver",
  "Tests compare a handful of models with stored numbers; combinations of prescribed values, constraints with right-hand sides and loads are not sampled.",
  ["src/lib/FESolver.cpp", "src/lib/FESolver.h", "src/lib/FEStorage.cpp", "src/lib/Mpc.cpp", "src/lib/Mpc.h"],
  [("static solve", "src/lib/FESolver.cpp LinearFESolver::solve"), ("boundary conditions", "src/lib/FESolver.cpp FESolver::setConstrainedDofs/applyBoundaryConditions"),
   ("reactions", "src/lib/FESolver.cpp"), ("DoF queries", "src/lib/FEStorage.cpp getNodeDofSolution/getReaction")],
  "KKT reference oracle on the solved state", "Reference problems with condition numbers below 1e9.")

P("C06", "Every accepted nonlinear load step is a converged equilibrium on the load path",
  "Each load step the nonlinear solver reports as done satisfies equilibrium of the element internal forces with the loads, constraint forces and reactions at that step's load fraction to the requested criterion (mean correction of the unknowns, divided by the criterion, below the criterion), with "
  "prescribed DoFs at that fraction of their final values and homogeneous linear constraints satisfied. Steps are reported once each, in order, and reach the full load; a step that does not "
  "converge within the allowed iterations, or that produces non-finite values, is reported as a failure and never delivered to post-processors as a result.",
  ["inputs", "histories"], "all load paths, step counts, criteria, iteration limits and convergent or non-convergent models",
  "The tests run a few converging models and compare end values; failed or stale steps, reactions of intermediate steps and accumulating constraints are not sampled.",
  ["src/lib/FESolver.cpp", "src/lib/FESolver.h", "src/lib/FEStorage.cpp"],
  [("Newton loop and acceptance", "src/lib/FESolver.cpp NonlinearFESolver::solve"), ("load stepping", "src/lib/FESolver.cpp TimeControl"),
   ("prescribed increments", "src/lib/FESolver.cpp applyBoundaryConditions")],
  "per-step equilibrium oracle against an independent Newton solution",
  "Convex test models with known unique equilibrium (condition below 1e7); constraints with a non-zero right-hand side are the recorded known finding.")

P("C07", "Transient steps satisfy the equations of motion and the Newmark relations",
  "At every time step of a linear transient analysis the reported values, velocities and accelerations satisfy inertia, damping and stiffness forces equal to the loads on all unknown DoFs, and consecutive states "
  "satisfy the Newmark relations for the chosen parameters. The analysis starts from the requested initial values, keeps prescribed DoFs at their prescribed values and constraints satisfied, makes exactly the "
  "requested number of steps over the requested interval, and calls post-processors once per step.",
  ["inputs", "histories"], "all linear systems with damping and/or inertia, Newmark parameters, intervals, step counts, initial and boundary values",
  "One transient test samples a few temperatures; wrong weights that only show for other parameters, or prescribed values, are invisible.",
  ["src/lib/FESolver.cpp", "src/lib/FESolver.h"],
  [("time integration", "src/lib/FESolver.cpp LinearTransientFESolver::solve"), ("initial state", "src/lib/FESolver.cpp LinearTransientFESolver::setInitValue")],
  "step-by-step trace checker of the equations of motion",
  "Unconditionally stable Newmark parameters, effective matrices with condition below 1e7; reactions are not computed by this solver and not claimed.")

P("C08", "Time and load stepping covers the interval exactly with consistent counters",
  "For any interval and any sequence of step requests, time advances strictly from the start time to exactly the end time without overshoot, and asking for N equal steps makes exactly N. "
  "The reported current time, normalized time, their increments and their previous values always agree with each other and with the interval, and the step and iteration counters "
  "(current, total, converged) equal the number of transitions made.",
  ["inputs", "histories"], "all intervals, step sizes, step counts and iteration histories",
  "The unit test steps through one interval; rounding at other N, non-zero starts and varying steps are not sampled.",
  ["src/lib/FESolver.cpp", "src/lib/FESolver.h"],
  [("step transitions", "src/lib/FESolver.cpp TimeControl::nextStep/nextEquilibriumStep"), ("time queries", "src/lib/FESolver.cpp TimeControl getters")],
  "transition history checked against an independent step model", "Up to 2000 steps, fewer than 65536 iterations in total.")

P("C09", "Linear elements reproduce the exact element equations and recovered results",
  "For every admissible shape, size, orientation and node order, each shipped linear element (truss, plane triangle, tetrahedron, cohesive interfaces, thermal quadrilateral, triangle, tetrahedron and "
  "surface elements) contributes the stiffness or conductivity, capacity and load terms of its formulation: symmetric, free of spurious forces under rigid motion or uniform temperature and exact for linear fields. "
  "Strains, stresses, gradients, fluxes and jumps recovered after a solution are those of the solved field, including thermal expansion and initial strains or stresses of tetrahedra, and a body free to expand is free of stress. "
  "Irregular meshes of these elements reproduce any linear field exactly.",
  ["inputs", "configurations"], "all non-degenerate element geometries, node orders, material constants, thermal data and nodal fields",
  "Tests solve one or two fixed meshes per element; oblique orientations, other Poisson ratios, thermal strain recovery and repeated assembly are not sampled.",
  ["src/lib/elements/TRUSS3.cpp", "src/lib/elements/TRIANGLE4.cpp", "src/lib/elements/TETRA0.cpp", "src/lib/elements/TETRA1.cpp", "src/lib/elements/QUADTH.cpp",
   "src/lib/elements/INTER0.cpp", "src/lib/elements/INTER3.cpp", "src/lib/elements/isoparametric.h"],
  [("element matrices", "src/lib/elements/*.cpp buildK/buildC"), ("result recovery", "src/lib/elements/*.cpp update/getTensor/getVector")],
  "element-level reference oracle and patch-test monitor",
  "Elements with positive orientation and bounded distortion; initial strains entered by the user are not covered.")

P("C11", "Hyperelastic stresses and tangents are derivatives of one stored energy",
  "For each shipped hyperelastic material, any admissible deformation and pressure, the stress returned is twice the derivative, with respect to the deformation tensor, of the model's stored energy of isochoric invariants plus "
  "pressure times volume change, and the tangents are its exact second derivatives, for every requested subset and order of tensor components. The undeformed state is stress free, the response is isotropic, and "
  "nothing but the requested results is written. Material constants are set and read back by name or index, materials are created by and report their names, and unknown material names are refused.",
  ["inputs"], "all deformations with positive volume, pressures, material constants and requested tensor components",
  "No test differentiates the energy: a wrong term in the stress or tangent only slows convergence or shifts results in states the few reference runs do not visit.",
  ["src/lib/materials/materials_hyperelastic.cpp", "src/lib/materials/materials_hyperelastic.h", "src/lib/materials/material.cpp", "src/lib/materials/MaterialFactory.cpp", "src/lib/solidmech.cpp"],
  [("stress", "src/lib/materials/materials_hyperelastic.cpp getS_UP"), ("tangent", "src/lib/materials/materials_hyperelastic.cpp getDdDp_UP"), ("kinematics", "src/lib/solidmech.cpp")],
  "automatic-differentiation (hyper-dual) oracle on every material call",
  "Volume ratio between 0.02 and 8; only the mixed displacement-pressure entry points, the ones the elements use, are implemented by the library.")

P("C10", "Element result queries add scaled results, average correctly and refuse unknowns",
  "Asking any element for a scalar, vector or tensor result adds exactly the scale times that result to the caller's value and writes nothing else; asking for the average gives the volume-weighted mean of the integration-point results, "
  "and a result the element does not provide is refused with the value left alone. The results are those of the current solution: for the hyperelastic elements the pressure, deformation and Green strain tensors, invariants, second Piola-Kirchhoff and Cauchy "
  "stresses and energies of the local deformation and pressure, for tetrahedra the volume, strains, stresses, thermal strains, gradients and fluxes, for interfaces the jump and traction components.",
  ["inputs", "configurations"], "all element types, query codes, integration points, scales, prior values and solution states",
  "Tests query a few averages of tetrahedra with scale one; no hyperelastic query, scale or refusal is exercised.",
  ["src/lib/elements/PLANE41.cpp", "src/lib/elements/SOLID81.cpp", "src/lib/elements/TETRA0.cpp", "src/lib/elements/TETRA1.cpp", "src/lib/elements/INTER0.cpp", "src/lib/elements/INTER3.cpp", "src/lib/elements/element.cpp", "src/lib/elements/query.h"],
  [("hyperelastic results", "src/lib/elements/PLANE41.cpp, SOLID81.cpp getScalar/getVector/getTensor"), ("linear element results", "src/lib/elements/TETRA0.cpp, TETRA1.cpp, INTER0.cpp, INTER3.cpp")],
  "query-contract monitor with independent result oracle", "Local volume ratio above 0.2; tetrahedron strains and stresses are found under the codes the shipped tests use.")

P("C12", "Mixed hyperelastic elements assemble the gradient and Hessian of one potential",
  "For any mesh geometry, integration order, displacement field, pressure and material, the plane and solid mixed elements contribute exactly the negative gradient and the Hessian of the stored energy with pressure "
  "multiplier, symmetric and dependent on the current state only, so the undeformed body is in equilibrium and rigid motions produce no forces. A mesh whose boundary follows a homogeneous deformation finds that deformation, "
  "its pressure and its Cauchy stress everywhere.",
  ["inputs", "histories"], "all admissible element shapes, corner orders, deformations, pressures, materials and sequences of states",
  "Tests compare final displacements of two models; an inconsistent tangent still converges there, and rotated or sheared states are not visited.",
  ["src/lib/elements/PLANE41.cpp", "src/lib/elements/SOLID81.cpp", "src/lib/elements/isoparametric.cpp", "src/lib/solidmech.cpp", "src/lib/materials/materials_hyperelastic.cpp"],
  [("plane element", "src/lib/elements/PLANE41.cpp buildK/update"), ("solid element", "src/lib/elements/SOLID81.cpp buildK/update")],
  "exact-differentiation oracle on assembled systems and homogeneous-state monitor", "Local volume ratio above 0.2; nonlinear solutions with at most 27 elements.")

P("C13", "Rigid body constraints follow the master node's finite rotation exactly",
  "Every slave node of a rigid body is constrained, once per requested direction and however often the model is solved, to the rigid motion given by the master node's translation and rotation vector, for rotations of any size including zero; "
  "the assembled constraint equations are that motion's residual and exact linearisation. Every converged load step has the slaves on the rigid motion, the master at its prescribed motion and the support reactions in balance with the master's.",
  ["inputs", "histories"], "all master and slave positions, directions, rotation vectors, states and repeated solutions",
  "One test rotates a block about one axis; other axes, angles at the small-angle switch and beyond half a turn, direction subsets and repeated solutions are not sampled.",
  ["src/lib/Mpc.cpp", "src/lib/Mpc.h", "src/lib/FEStorage.cpp", "src/lib/FESolver.cpp"],
  [("linearisation", "src/lib/Mpc.cpp RigidBodyMpc::update"), ("registration", "src/lib/Mpc.cpp RigidBodyMpc::pre, MpcCollection::registerMpcsInStorage"), ("assembly", "src/lib/FEStorage.cpp assembleGlobalEqMatrices")],
  "matrix-exponential oracle on assembled constraint rows and rigid-motion monitor of load steps",
  "Below 2e-3 rad the library's series is accurate to 1e-6 relative, which is the tolerance there; nonlinear solutions use moderate rotations so that they converge.")

P("C14", "Mesh files are read exactly as written",
  "Reading a well-formed cdb or neu file yields, in file order and with exact values, every node, element with its node list and attributes, prescribed value, concentrated load, constraint equation and component the file contains, and nothing else: whatever the supported "
  "column format, omitted trailing coordinates, number of equation terms, component ranges and size, letter case, comments, unrelated commands and line ending. Reading into a mesh that already holds data replaces it, a missing file is reported, and selecting elements by attribute or "
  "listing degenerated ones reflects what was read.",
  ["inputs", "histories"], "all well-formed files built from the supported records, and sequences of readings into one mesh",
  "Tests read three fixed files of one format; other formats, odd term counts, long components and re-reading are not sampled.",
  ["src/lib/FEReaders.cpp", "src/lib/FEReaders.h"],
  [("cdb reader", "src/lib/FEReaders.cpp readCdbFile"), ("neu reader", "src/lib/FEReaders.cpp readNeuFile"), ("field and line splitting", "src/lib/FEReaders.cpp Tokenizer, ssplit, getLine"), ("selection", "src/lib/FEReaders.cpp MeshData::getCellsByAttribute, getDegeneratedCells")],
  "generated-file round trip", "Files of up to 130 nodes and 75 elements, components of up to 70000 records; a solid element row has at most 8 nodes.")

P("C15", "Compressing node numbers renames nodes consistently everywhere",
  "After a mesh's node numbers are compressed, the node at place i is number i, its position is unchanged, and every element, load, prescribed value, constraint equation and node component refers to the same physical node as before, whatever the original numbers and their order. "
  "Element numbers, attributes, element components, values and coefficients stay as they were, and compressing again changes nothing.",
  ["inputs", "histories"], "all sets of distinct node numbers in any order, with any references to them",
  "The tests' meshes are already numbered 1..n in order, so compression does nothing there.",
  ["src/lib/FEReaders.cpp", "src/lib/FEReaders.h"], [("renumbering", "src/lib/FEReaders.cpp MeshData::compressNumbers")],
  "reference-following oracle over random numberings", "Up to 2000 nodes; references always name existing nodes.")

P("C16", "Damaged mesh files are handled safely",
  "Reading a truncated or corrupted cdb or neu file ends with a mesh whose records are complete, a refusal, an exception or a fatal error message; it never reads or writes outside its data, never hangs and never fails an internal assertion.",
  ["inputs", "faults"], "all byte sequences, in particular truncations and corruptions of well-formed files",
  "The tests only read intact files.",
  ["src/lib/FEReaders.cpp", "src/lib/FEReaders.h"], [("record parsing", "src/lib/FEReaders.cpp readCdbFile, readNeuFile"), ("bounds of fields", "src/lib/FEReaders.cpp Tokenizer, ssplit, sfirstNotBlank")],
  "fault-injected files read in sanitized child processes", "Each damaged file is read in its own process with a time limit; allocations beyond 1 GB count as a reported failure.")

P("C17", "Result files and reaction histories contain exactly the model's state",
  "The VTK file written before the analysis and the one written for each step are well-formed and contain the model's node positions, the nodes and type of every element, the displacements, reactions and other DoF values of nodes and elements, "
  "and each requested or available element result (zero where an element does not provide it), all to the printed precision, without changing the solution. "
  "A reaction history starts with zero and then holds, for every step and selected DoF, the sum of the reactions of the selected nodes, in memory and in its file (even when the file cannot be written); automatically selected DoFs are those prescribed at the first selected node, and a selected node where "
  "one of them is not prescribed, or that does not have it, is reported.",
  ["inputs", "histories", "faults"], "all models, element mixes, DoF types, result selections, states, step sequences, repeated analyses and unwritable reaction files",
  "Tests write VTK files that nobody reads, and compare one reaction curve of two models.",
  ["src/lib/VtkProcessor.cpp", "src/lib/VtkProcessor.h", "src/lib/ReactionProcessor.cpp", "src/lib/ReactionProcessor.h", "src/lib/FEStorage.cpp", "src/lib/elements/query.h"],
  [("VTK writer", "src/lib/VtkProcessor.cpp"), ("reaction history", "src/lib/ReactionProcessor.cpp"), ("reaction lookup", "src/lib/FEStorage.cpp getReaction")],
  "independent file reader compared with live state", "Values are printed with six significant digits, which bounds the comparison.")

P("C18", "Analyses can be repeated, cleared, abandoned and destroyed in any order",
  "Whatever was built, solved, cleared, abandoned halfway or destroyed before, in the same or another model, an analysis gives the results of a fresh one: solving again with the same or another solver, after moving nodes, rebuilding in a cleared model and interleaving other analyses and file reading change nothing. "
  "A cleared model has no nodes, elements, constraint equations or unknowns left, and models, solvers, constraint equations, materials, elements and post-processors can be destroyed in any order; repeating a history does not increase the memory in use and never touches freed memory.",
  ["histories"], "all sequences of building, solving, clearing, abandoning and destroying models and solvers",
  "Tests run one analysis per process and leave the clean-up to its end.",
  ["src/lib/FEStorage.cpp", "src/lib/FESolver.cpp", "src/lib/FEStorage.h", "src/lib/Mpc.cpp"],
  [("clearing", "src/lib/FEStorage.cpp deleteMesh, deleteSolutionData"), ("repeated solutions", "src/lib/FEStorage.cpp initDofs, initSolutionData, src/lib/FESolver.cpp solve"), ("ownership", "src/lib/FEStorage.cpp ~FEStorage, src/lib/FESolver.cpp ~FESolver")],
  "histories compared with pristine analyses under ASan, allocation accounting", "Histories of up to 7 operations over up to 3 analyses; memory is compared between repetitions of the same history.")

P("C19", "Vectors and matrices compute their algebra correctly and safely",
  "Sums, differences, negation, scaling, dot and matrix products, transposition, determinants, inverses, cofactor cuts, symmetric storage and products, the products that accumulate a multiple into a result, and eigenvalues of symmetric 3x3 matrices (descending, also when they coincide) "
  "equal exact arithmetic within rounding and leave their operands alone; text written and read back gives the same values, and comparisons are true exactly when all entries (none of them NaN) are within the tolerance. "
  "Dynamic vectors and matrices hold the right values through any sequence of construction, copying, moving, pointing into another vector, assignment (also to itself, from its own part or between overlapping parts), resizing and clearing, without touching memory they do not have.",
  ["inputs", "histories"], "all fixed sizes used, all values and histories of dynamic vectors and matrices",
  "Tests check a handful of products; repeated eigenvalues, aliasing and NaN are not sampled.",
  ["src/lib/math/Vec.h", "src/lib/math/Vec.cpp", "src/lib/math/Mat.h", "src/lib/math/Mat.cpp"],
  [("fixed size algebra", "src/lib/math/Vec.h Vec, src/lib/math/Mat.h Mat, MatSym, mat*prod"), ("determinants and inverses", "src/lib/math/Mat.cpp"), ("dynamic vectors", "src/lib/math/Vec.cpp dVec"), ("dynamic matrices", "src/lib/math/Mat.h dMat")],
  "long double oracle and mirrored histories under ASan/UBSan", "Sizes up to 24 (determinants and inverses up to 5).")

P("C22", "Reference dumps keep exact values and are compared strictly",
  "Sparse matrices written as coordinate text, and the stiffness, damping and inertia matrices, loads and reactions dumped by a solver, come back with exactly the same shape, pattern and values, and writing leaves the stream's settings alone. "
  "Comparing a system with a reference file succeeds for the dumped system, the same system built again, and one within the threshold, and fails when any matrix or vector differs in size, pattern or by more than the threshold in one value (NaN included), "
  "or when the file is changed, cut short or missing.",
  ["inputs", "faults"], "all systems, perturbations and damaged reference files",
  "Tests read a few stored reference files with loose thresholds; nothing checks that a wrong system is refused.",
  ["src/lib/math/SparseMatrix.cpp", "src/lib/math/Vec.cpp", "src/lib/FESolver.cpp"],
  [("matrix text", "src/lib/math/SparseMatrix.cpp writeCoordinateTextFormat, readCoordinateTextFormat, compare"), ("vector text", "src/lib/math/Vec.cpp writeTextFormat, readTextFormat, compare"), ("dump and compare", "src/lib/FESolver.cpp dumpMatricesAndVectors, compareMatricesAndVectors")],
  "independent reader of dumps, perturbed and fault-injected reference files", "Systems of up to 16 nodes; a refused comparison is observed as a fatal end of a child process.")

P("C23", "Model entities are numbered, typed, named and found consistently",
  "While a model is built by any sequence of operations, nodes and elements created in bulk (by kind or from an example) or added singly get consecutive numbers from 1 in order of creation, elements know their number, model, kind, shape and nodes, copies of an element are "
  "independent of it, components are found by position and exact name (the first of equal names; nothing for an unknown one), and clearing the model or a part of it leaves exactly the rest. "
  "The names of element kinds, DoFs, component kinds and results identify exactly one each and unknown names are recognised as such, listings of elements and constraint equations show their data, node positions with deformation are the initial ones plus the displacements, "
  "and post-processors are numbered in order of registration and report their own status.",
  ["inputs", "histories"], "all model building histories over all shipped element kinds",
  "Tests build a model once, in one order, and hardly look at numbers and names.",
  ["src/lib/FEStorage.cpp", "src/lib/FEStorage.h", "src/lib/elements/element.h", "src/lib/elements/element.cpp", "src/lib/elements/ElementFactory.cpp", "src/lib/elements/ElementFactory.h", "src/lib/elements/query.h", "src/lib/FEComponent.cpp", "src/lib/Dof.cpp",
   "src/lib/Mpc.cpp", "src/lib/PostProcessor.cpp", "src/lib/FESolver.cpp"],
  [("numbering", "src/lib/FEStorage.cpp createNodes, createElements, addNode, addElement, deleteMesh"), ("copies and listings", "src/lib/elements/element.cpp"), ("names", "src/lib/elements/ElementFactory.cpp elName2elType, src/lib/Dof.cpp, src/lib/FEComponent.cpp, query2label")],
  "histories mirrored by a plain model, compared after every operation", "Up to 25 operations and about 200 entities per history.")

P("C20", "Isoparametric interpolation and quadrature are exact",
  "For line, quadrilateral and brick elements of any valid geometry and position, form functions interpolate (one at their own node, zero at the others, summing to one), their derivatives and global gradients are exact for linear fields, and at each integration point "
  "they are evaluated where that point lies. With order n (values outside 1..3 mean the nearest) there are n points per direction, all weights are positive, polynomials up to degree 2n-1 in each local direction are integrated exactly, "
  "and volumes and first moments are those of the current node positions.",
  ["inputs"], "all undistorted to moderately distorted elements of all sizes, all integration orders",
  "Tests integrate a few fixed meshes, mostly of one order; a wrong point or weight of another order goes unnoticed.",
  ["src/lib/elements/isoparametric.h", "src/lib/elements/isoparametric.cpp"],
  [("quadrature tables", "src/lib/elements/isoparametric.h"), ("Jacobians and gradients", "src/lib/elements/isoparametric.cpp makeJacob"), ("form functions", "src/lib/elements/isoparametric.cpp formFunc, formFuncDeriv")],
  "polynomial moments and gradients against long double geometry", "Jacobian at least 5 % of its mean inside the element.")

P("C21", "The command-line program solves the given file and reports success truthfully",
  "For any mesh file and any order of the options, the program solves the model of that file with the named element, material, constants, numbers of load steps and iterations (or their defaults) and the rigid body given by its master node's number in the file, "
  "and prints for load steps 0 to n the reactions of the selected component and DoFs; result files with the displacements, reactions and all element results are written for every step unless they are switched off. It exits with zero exactly when the analysis was done and, if a reference curve and a threshold are given, "
  "the curves have the same length and their mean absolute difference is not above the threshold; wrong files, materials, numbers of constants, elements, components, nodes or DoF names and non-convergence give another status.",
  ["inputs", "faults"], "all mesh files, node numberings, option orders, reference curves and wrong invocations",
  "Tests run the program on one file with consecutive numbers and only look at an exit status that should be zero.",
  ["src/main.cpp", "src/lib/sys.cpp", "src/lib/sys.h", "src/lib/FEReaders.cpp", "src/lib/ReactionProcessor.cpp"],
  [("options", "src/main.cpp parse_args, src/lib/sys.cpp getCmdOption, getCmdManyOptions"), ("model set-up", "src/main.cpp main"), ("reference curves", "src/main.cpp readRefCurveData, compareCurves")],
  "end-to-end runs compared with a directly built model", "Models of up to 4 elements; load steps up to 10; material constants do not begin with a minus sign followed by a point.")

P("C24", "The Python module gives the library's values, refuses bad indices, frees once",
  "Numbers put into vectors, matrices, nodes, elements, mesh data and solvers through the Python module are read back unchanged, arithmetic (including in-place operators, which change the object itself and thereby every name of it) gives the mathematical results and leaves the operands alone, and indices beyond a vector, "
  "a matrix or an element's nodes, or an element asked for as another kind, raise IndexError and change nothing. Mesh files read, and models built, solved and inspected from Python (trusses, plane heat conduction, steady and transient, linear tetrahedra, with conditions and constraint equations from files) "
  "show exactly the file's content and the solution, reactions and element results of the model's equations. Nodes and elements added to a storage and post-processors added to a solver belong to these from then on, and whatever the order in which references are dropped, every object is freed exactly once.",
  ["inputs", "histories"], "all programs that use the exported vectors, matrices, mesh data, storage, elements and linear solvers",
  "The Python tests run three fixed models and a few matrix operations; refusals, in-place operators, ownership and constraint equations are not exercised.",
  ["python/nla3d.swg", "src/lib/math/Vec.h", "src/lib/math/Mat.h", "src/lib/FEStorage.h", "src/lib/FESolver.h", "src/lib/FEReaders.h"],
  [("indices and operators", "python/nla3d.swg VEC_EXTEND, MAT_EXTEND, MATSYM_EXTEND, dMat, dVec"), ("ownership", "python/nla3d.swg addNode, addElement, addPostProcessor"), ("element kinds", "python/nla3d.swg getElementTETRA0 and others")],
  "random Python programs under AddressSanitizer against plain Python arithmetic", "Objects of a storage are not used after the storage is gone; Vec and Mat constructors with a list of numbers are not usable from Python.")
