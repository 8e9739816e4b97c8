"""What each check runs.  `require`: events that must have been observed, else the check is an error."""
import os

CHECKS = {}
MAIN_CPP = os.path.join(os.environ.get("NLA3D_REPO", "/repo"), "src", "main.cpp")


# the interpreter and headers of the Python module
PYTHON, PYTHON_INCLUDE = "/usr/bin/python3", "/usr/include/python3.12"


def C(pid, rule, harnesses, assumptions=()):
    CHECKS[pid] = dict(rule=rule, harnesses=harnesses, assumptions=list(assumptions))


def H(name, **kw):
    d = dict(name=name, src=[name + ".cpp"])
    d.update(kw)
    return d


C("C01", "Random models of test elements (all shapes, mixed nodal/element DoFs, MPCs, prescribed sets, re-numbering rounds) and random "
  "registration histories against a set model; non-trivial = distinct (nodes, elements, DoFs, prescribed, MPC) shape.",
  [H("c01", require=["dof_numbers_checked", "constraint_numbers_checked", "registrations", "big_models"])])

C("C02", "Random models of test elements with integer contributions (exact sums), assembled through every public entry point, re-assembled with "
  "changed contributions, static and transient, with constraint rows; plus shipped elements assembled under random node/element renumbering. "
  "Non-trivial = distinct (nodes, elements, DoFs, prescribed, MPC, transient) shape.",
  [H("c02", require=["entries_compared", "assemblies_with_constraints", "transient_assemblies", "renumbered_entries_compared", "large_models"])],
  ["no element lists one node twice", "fewer than 100 coupled DoFs per row (a documented, fatally reported capacity)"])

C("C03", "Random histories of matrices and sparsity objects (add entry, compress, write, accumulate, zero, re-initialise, adopt another matrix's sparsity before/after compression, "
  "build from entries, multiply, compare) on up to three matrices sharing sparsity, plus block matrices with 1-4 blocks, against a map model; "
  "non-trivial = distinct operation trace.",
  [H("c03", lib="math", require=["values_read", "products", "sparsity_shared", "reinit", "from_entries", "compares", "block_values_read", "made_from_sparsity", "sparsity_objects"])],
  ["rows never exceed the capacity announced at construction (exceeding it is fatally reported)"])

C("C04", "Histories of symmetric systems (SPD, FE chains, indefinite, saddle point, zero diagonal, tiny pivots; sizes 1-400, scales 1e-9..1e11) given to the "
  "dense and the PARDISO solver: one-shot, factorize once and substitute many, changed values, changed structure, singular; oracle: residual, Eigen full-pivot "
  "LU, unmodified matrix, reported failure. Non-trivial = distinct (kind, size) trace.",
  [H("c04", variant="asanmkl", lib="math", require=["solves_gauss", "solves_pardiso", "resubstituted", "refactorized_same_pattern", "pardiso_reused",
                                                      "singular_systems", "singular_fatal_observed", "solutions_compared", "large_systems", "weakly_linked_systems", "tiny_loads"])],
  ["condition number below 1e10", "fewer than 1000 equations for the dense solver (fatally reported otherwise)"])

C("C05", "Random positive definite models (test elements, loads, prescribed values, MPCs with free and prescribed terms, zero and non-zero right-hand sides) and models of "
  "shipped elements solved with the default, dense and PARDISO solver; oracle: dense long-double KKT solution built from the element contributions, exact prescribed "
  "values, reactions, global force and moment balance, post-processor call protocol. Non-trivial = distinct (DoFs, prescribed, MPC, loads, solver) shape.",
  [H("c05", variant="asanmkl", require=["unknowns_checked", "prescribed_checked", "constraints_checked", "reactions_checked", "postprocessor_calls",
                                        "global_balances", "phys_dofs_in_equilibrium", "loads_on_prescribed", "repeated_terms", "tiny_displacements"])],
  ["condition number below 1e9", "no DoF prescribed twice"])

C("C08", "Step controllers over random intervals (zero and non-zero start), N equal divisions for N up to 2000, arbitrary and varying step requests and random numbers of "
  "equilibrium iterations, every query checked after every transition. Non-trivial = distinct (mode, steps, start, iterations).",
  [H("c08", require=["steps", "step_counts_checked", "requested_divisions", "many_iterations", "nonzero_start"])],
  ["at most 65535 steps (16-bit step numbers)"])

C("C06", "Random convex nonlinear models (test elements supplying tangent and residual), loads, prescribed values, homogeneous MPCs, 1-40 load steps, criteria 1e-3..1e-6, "
  "custom time intervals; every converged step compared with an independent Newton solution, every iteration observed through the elements; plus runs that cannot converge "
  "or produce NaN and runs with exactly the iterations they need and one less. Non-trivial = distinct (DoFs, prescribed, MPC, steps, iterations).",
  [H("c06", require=["converged_states_checked", "reactions_checked", "constraints_checked", "nan_reported", "nonconvergence_reported", "custom_interval", "iterations", "iteration_limits"])],
  ["reference problem with condition number below 1e7"])

C("C07", "Random linear systems with damping and/or inertia (test elements), prescribed values, loads, MPCs, initial values, intervals, 1-200 steps and unconditionally stable Newmark "
  "parameters; the (U, U', U'') trace seen by a post-processor is checked step by step against the equations of motion, the Newmark relations and an independent step. "
  "Non-trivial = distinct (kind, DoFs, prescribed, MPC, steps).",
  [H("c07", require=["states_checked", "initial_states", "prescribed_checked", "constraints_checked", "damped_newmark", "long_runs"])],
  ["effective matrix with condition number below 1e7", "Newmark parameters in the unconditionally stable range"])

C("C09", "Single elements of every shipped linear type (random shapes, sizes, orientations, admissible node orders, material data, thermal loads) compared with closed-form or independently "
  "integrated matrices, loads and recovered strains, stresses, fluxes and jumps; and patch tests solved on irregular meshes. Non-trivial = distinct (element, orientation, options).",
  [H("c09", require=["matrix_entries", "vector_entries", "recovered", "free_expansions", "initial_strains", "initial_stresses", "capacities", "patch_tests", "reassembled"])],
  ["elements with positive orientation and bounded distortion"])

C("C11", "Random deformations (amplitudes 1e-6..0.8, volume ratios 0.15..8), pressures, constants of the three shipped models (entered by index or name) and component subsets in any order; "
  "oracle: exact first/second derivatives of the stored energy by hyper-dual arithmetic in long double. Non-trivial = distinct (model, component request, pressure, volume) class.",
  [H("c11", require=["stresses", "tangents", "constants", "unknown_constants", "rotations", "natural_states"])],
  ["volume ratio above 0.15 before scaling", "displacement-only material entry points are not implemented by the library (fatal by design)"])

C("C12", "Random irregular meshes (1-8 elements, any orientation, size, corner order, integration order 1-3) of the mixed plane and solid elements with each material, displacement fields (rigid, homogeneous, random; "
  "amplitudes 0..0.4) and pressures; loads and tangents compared with the exactly differentiated potential, in sequences of states; plus nonlinear solutions with homogeneous boundary displacement. "
  "Non-trivial = distinct (element, mesh, order, model, deformation) class.",
  [H("c12", require=["residual_entries", "tangent_entries", "undeformed", "returned", "restarted", "patch_tests", "patch_inner_nodes"])],
  ["local volume ratio above 0.2"])

C("C10", "Every query code asked of every shipped element type in random states, at each integration point and averaged, with random starting values and scales: the value must grow by scale times an independently "
  "computed result, averages must be volume-weighted, refused codes must leave the value alone. Non-trivial = distinct (element, mesh, order, model) class.",
  [H("c10", require=["contracts", "refusals", "means", "point_results", "interface_results", "linear_TETRA0", "linear_TETRA1", "linear_TRUSS3", "linear_QUADTH", "linear_TRIANGLE4", "linear_INTER0", "linear_INTER3"])],
  ["local volume ratio above 0.2"])

C("C13", "Rigid body constraints with random masters, slaves, directions and up to two collections, in random states with rotations from 0 through the small-angle switch to 6.8 rad, assembled once or twice; coefficients and "
  "residuals compared with the matrix exponential and its derivative in long double; plus nonlinear solutions of bodies moved by a rigid face. Non-trivial = distinct (constraints, collections, repetitions / mesh, mode).",
  [H("c13", require=["constraints", "large_rotations", "small_rotations", "zero_rotation", "repeated_solutions", "slaves_followed", "balances", "solved", "solved_free_rotation"])],
  ["rotations below 2e-3 rad are linearised by the library to 1e-6 relative"])

C("C14", "Generated cdb files (node tables in five number formats with touching fields and omitted trailing coordinates, solid and short element tables, prescribed values, loads, constraint equations with 1-9 terms, "
  "components with ranges, ignored commands, comments, upper/lower case, LF/CRLF/CR, up to 70000 component records) and neu files, several read in turn into one mesh; the mesh must be exactly what was generated. "
  "Non-trivial = distinct sequence of blocks and formats.",
  [H("c14", require=["node_records", "element_records", "attributes", "fix_records", "load_records", "equation_records", "component_records", "cdb_files", "neu_files", "reread", "selections", "lines", "fields", "huge_components", "vast_meshes"])],
  ["at most 8 nodes per solid element row (more are fatally reported)"])

C("C15", "Random meshes (0-2000 nodes numbered 1..n, permuted, with one gap, many gaps, shifted, in any order) with elements of up to 20 nodes, prescribed values, loads, constraint equations, node and element components; every "
  "reference is followed through the renaming, twice. Non-trivial = distinct (size, numbering, contents) shape.",
  [H("c15", require=["compressions", "elements", "conditions", "equations", "node_components", "element_components", "permuted", "empty", "vast_meshes"])],
  ["node numbers are distinct, references name existing nodes"])

C("C16", "Damaged cdb and neu files (truncated, bytes lost or changed, lines lost, swapped, doubled, cut or blanked, fields emptied, counts changed, stray keywords, random bytes), each read in a child process under ASan/UBSan with a "
  "time limit; only a consistent mesh, refusal, exception or fatal report may be observed. Non-trivial = distinct damaged file.",
  [H("c16", env={"ASAN_OPTIONS+": ":max_allocation_size_mb=1024:symbolize=0"}, require=["damaged_files", "accepted", "refused", "exceptions", "fatal_reported"])],
  ["allocations beyond 1 GB requested by a damaged count are treated as a reported failure"])

C("C17", "Models of test elements (any DoF types, element DoFs, all shapes), shipped linear elements (single and mixed types) and hyperelastic elements put into random states and written step by step, whole nonlinear analyses, reaction histories with "
  "listed or automatically chosen DoFs, unwritable reaction files, a model of 66000 nodes, repeated analyses; files are parsed by an independent strict reader and compared with the model. Non-trivial = distinct (model kind, size).",
  [H("c17", require=["values", "cells", "point_fields", "cell_fields", "files", "all_results", "registered_results", "reactions", "reaction_file_values", "unwritable", "no_nodes", "second_analysis", "auto_dofs", "different_sets", "dof_not_there", "analyses", "same_shape", "vast_models"])],
  ["values are written with six significant digits"])

C("C19", "Random vectors and matrices of sizes 1-24 over 16 decades: every operation compared with long double loops within its rounding bound, results of in-place and accumulating products with random start values, determinants and inverses "
  "1-5, eigenvalues of symmetric matrices with distinct, nearly equal and equal values, printed and read text, comparisons incl. NaN; dynamic matrices in random call sequences; histories of dynamic vectors that own, copy, move, "
  "alias and reassign memory, mirrored by a model and checked after every step under ASan. Non-trivial = distinct data set or history.",
  [H("c19", require=["vectors", "matrices", "products", "symmetric", "squares", "inverses", "eigenvalues", "multiple_eigenvalues", "dynamic_matrices", "dynamic_matrices_listed", "vector_histories", "views", "copies", "moves", "overlapping_assignments", "assigned_from_own_part", "texts", "comparisons"])],
  ["sizes fit (mismatched sizes are assertions)", "inverses only for determinants above 1e-6 of the magnitude of their terms", "a vector that points into another one is not resized by assignment"])

C("C22", "Random sparse matrices (values over 400 decades) written, read back and compared; random static and transient systems solved, dumped and re-read by an independent reader, compared with themselves, with a rebuilt copy, with "
  "systems differing in one contribution above or below the threshold, and with reference files that were changed, cut at any byte, or are missing. Non-trivial = distinct matrix or system.",
  [H("c22", require=["matrix_texts", "changed_values", "changed_patterns", "static_dumps", "transient_dumps", "file_blocks", "file_vectors", "accepted", "refused", "changed_files", "cut_files", "missing_files", "resized_vectors", "dumps_over_old_file"])],
  ["entries between 1e-200 and 1e200 in magnitude"])

C("C23", "Histories of up to 25 model building operations (nodes and elements created in bulk, by example or added singly, components, constraint equations, partial and full clearing) mirrored by a plain model that is compared after every "
  "operation; element copies, name tables and factories for every kind, listings, deformed positions and post-processor registration. Non-trivial = distinct operation history.",
  [H("c23", require=["nodes_checked", "elements_checked", "components_found", "components_absent", "examples", "created_by_type", "created_by_example", "added", "added_copies", "cleared", "element_copies", "name_tables", "deformed_positions",
                     "post_processors"])])

C("C20", "Random affine and distorted line, quadrilateral and brick elements (1e-3..1e3 in size, any node numbers, integration orders 0-9, nodes moved between evaluations): form functions, derivatives, gradients, Jacobians, weights, "
  "monomial moments, volumes and first moments compared with the same geometry in long double and a 5-point rule. Non-trivial = distinct element and order.",
  [H("c20", require=["gradients", "monomials", "volumes", "moments", "interpolations", "moved_nodes"])],
  ["Jacobian above 5 % of its mean everywhere in the element"])

C("C18", "Histories of up to 7 operations over up to 3 analyses (tetrahedra with constraints, steady and transient heat, hyperelastic plane, hyperelastic solid with a rigid face): build, solve, solve again, solve with another solver, clear, rebuild "
  "in the same storage, replace the elements, move the nodes and put them back, abandon at any stage, destroy storage or solver first, interleave other analyses and file reading; each result is compared with a pristine analysis and the allocated bytes with those before the repeated history. "
  "Non-trivial = distinct history.",
  [H("c18", require=["models", "solved", "solved_again", "second_solver", "cleared", "storage_before_solver", "abandoned", "interleaved", "readers", "leak_checks", "remeshed", "moved"])],
  ["constraint equations read from a file and not given to a model belong to the reader's caller"])

C("C21", "Generated mesh files (plane and solid grids, node numbers up to 7 digits in any order, elements of another type mixed in, prescribed values, forces, constraint equations, rigid faces) given to the program's main function in child processes with "
  "shuffled options: printed reactions compared with the same model built directly in another node order, VTK files counted and the arrays of the last one compared with the same model, exit status compared with the distance of a reference curve from the threshold, and wrong invocations that have to be refused. "
  "Non-trivial = distinct model and selection.",
  [H("c21", src=["c21.cpp", MAIN_CPP], flags=["-Dmain=nla3d_main"], require=["program_runs", "tables", "with_vtk", "results_compared", "without_vtk", "rigid", "equations", "automatic_dofs", "defaults", "curve_within", "curve_beyond", "curve_length", "curve_constant", "refused"])],
  ["constraint equations with zero right side (see the known finding of C06)"])

C("C24", "Random programs that use the Python module under ASan and UBSan: vectors and matrices of every exported size, in-place operators with aliases, generated mesh files, trusses, thermal plates (steady and transient) and tetrahedra with constraint "
  "equations solved and compared with the same equations in Python, elements of mixed kinds, histories with references dropped in any order and the heap measured. Non-trivial = distinct program shape.",
  [H("c24", script="c24.py", require=["vectors", "matrices", "windows", "dynamic_matrices", "symmetric_matrices", "inplace", "node_positions", "refusals", "mesh_files", "constraints", "reactions", "equations", "element_results", "trusses", "thermal",
                                      "transient", "settings", "solved_again", "tetrahedra", "destroyed", "histories", "mixed", "result_files"])],
  ["models of up to 25 nodes"])
