#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
I = "include/cppad/cg/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": [I + f for f in files],
         "mechanism": [{"name": n, "where": I + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Generated C code computes the recorded function",
  "For every expression graph recorded in a code handler, the C source generated for it compiles and, for every point of the function's domain, assigns to every dependent variable the value that the original arithmetic gives, up to floating-point rounding. This holds for every combination of generation options: variable ID reuse on or off, splitting into several functions, splitting long assignments, parameter precision, zero-dependent skipping, assignment operator, single or double precision, and custom variable names.",
  ["programs", "inputs", "configurations"],
  "all straight-line programs over the supported operators (incl. conditional expressions, constants, aliases, repeated and constant dependents), all evaluation points in the domain, all generator options",
  "Existing tests compile some dozens of fixed formulas with mostly default options; the combinations of graph shape (sharing, depth, nesting, operator precedence) with the generation options are never explored.",
  ["lang/c/language_c.hpp", "lang/c/language_c_arrays.hpp", "code_handler_impl.hpp", "lang/c/lang_c_default_var_name_gen.hpp"],
  [("variable ordering, id assignment and ID reuse", "code_handler_impl.hpp"), ("expression/assignment printing and function splitting", "lang/c/language_c.hpp")],
  ["value of each dependent computed by the compiled source"],
  [("temporary variable IDs", "which slot holds which intermediate; reused when the last user has been printed", "code_handler_impl.hpp")])

p("C02", "CG<Base> arithmetic has the semantics of Base",
  "For any sequence of arithmetic, compound assignment, mathematical, comparison and conditional operations over CG objects (parameters, independent variables, intermediate results, copies and moved values, in any aliasing), the tracked value of every result whose inputs have known values equals what the same sequence gives on plain Base numbers, constants combine into constants, and values are only reported when they are known. Simplifications (adding zero, multiplying by one or zero, dividing by one, identical operands and so on) never change the result for finite operands, and the graph recorded for a result evaluates to the same value for any new values of the independent variables.",
  ["programs", "inputs", "histories"],
  "all sequences of operations over any mix of parameters, variables with known values and variables with unknown values, incl. special constants 0, 1, -1, -0.0",
  "The operator tests check one expression per operator with variables that always have values; mixtures of known, unknown and parameter operands, aliasing, moves and folding are not sampled.",
  ["cg.hpp", "arithmetic.hpp", "arithmetic_assign.hpp", "math.hpp", "math_other.hpp", "compare.hpp", "cond_exp_op.hpp", "unary.hpp", "variable.hpp", "identical.hpp", "ordered.hpp"],
  [("operator overloads with constant folding", "arithmetic.hpp"), ("value tracking", "variable.hpp"), ("conditional expressions", "cond_exp_op.hpp")],
  ["CG::getValue / isParameter / isValueDefined / isVariable, re-evaluation of the recorded graph"])

p("C03", "Model library: values, Jacobians and Hessians equal the original's",
  "For every recorded AD function, the functions exported by a compiled model library - zero-order values, dense and sparse Jacobian, dense and sparse weighted Hessian - return at every point the values that algorithmic differentiation of the original function gives. This holds for every choice of derivative mode (forward, reverse, automatic), custom element selection, multi-function splitting (maximum assignments per function and operations per assignment), derivative composition option (for example Jacobian from forward-one or reverse-one, Hessian from reverse-two) and for several models in one library.",
  ["programs", "inputs", "configurations"],
  "all AD functions over the supported operators, all points, all multiplier vectors, all generation options and custom element sets without repeated elements",
  "Existing tests use about forty formulas and a few physical models at one point with a nearly fixed option set.",
  ["model/model_c_source_gen_impl.hpp", "model/model_c_source_gen_jac.hpp", "model/model_c_source_gen_hes.hpp", "model/model_c_source_gen_for0.hpp", "model/model_library_c_source_gen_impl.hpp", "model/functor_generic_model.hpp", "model/generic_model.hpp"],
  [("selection and generation of derivative sources", "model/model_c_source_gen_impl.hpp"), ("Jacobian source", "model/model_c_source_gen_jac.hpp"), ("Hessian source", "model/model_c_source_gen_hes.hpp"), ("runtime wrappers of the compiled functions", "model/functor_generic_model.hpp")],
  ["GenericModel::ForwardZero/Jacobian/Hessian/SparseJacobian/SparseHessian return values"])

p("C04", "Directional derivative functions equal AD of the original",
  "For every recorded AD function, the compiled first-order forward, first-order reverse and second-order reverse functions, in their dense and sparse forms, return for every point and for every direction and weight vectors the same directional derivatives that algorithmic differentiation of the original function gives. Directions that have no structural effect give zeros and the sparse forms report exactly the entries of the requested column or row.",
  ["programs", "inputs", "configurations"],
  "all AD functions, points, seed vectors (unit, several non-zeros, all zero), weights, with and without custom element selection",
  "Existing tests use unit seeds on dense-ish functions; empty columns/rows, multi-entry seeds and single-precision models are not covered.",
  ["model/model_c_source_gen_for1.hpp", "model/model_c_source_gen_rev1.hpp", "model/model_c_source_gen_rev2.hpp", "model/model_c_source_gen_impl.hpp", "model/functor_generic_model.hpp"],
  [("forward-one sources and dispatch table", "model/model_c_source_gen_for1.hpp"), ("reverse-one sources", "model/model_c_source_gen_rev1.hpp"), ("reverse-two sources", "model/model_c_source_gen_rev2.hpp")],
  ["GenericModel::ForwardOne/SparseForwardOne/ReverseOne/SparseReverseOne/ReverseTwo/SparseReverseTwo return values"])

p("C05", "Reported sparsity patterns are sound and describe the returned values",
  "The Jacobian and Hessian sparsity patterns reported by a compiled model contain every element that is non-zero at any point, are what was requested when a custom pattern was given, and list their elements in exactly the order of the values returned by the sparse evaluations. The per-equation Hessian patterns are sound for their equation, and all the views of a pattern (set form, row/column lists) agree with each other.",
  ["programs", "inputs", "configurations"],
  "all AD functions, points at which structural elements become non-zero, default and custom element selections",
  "Tests compare values at a single point against a pattern produced by the same code.",
  ["model/model_c_source_gen_impl.hpp", "model/model_c_source_gen_jac.hpp", "model/model_c_source_gen_hes.hpp", "model/functor_generic_model.hpp", "extra/sparsity.hpp"],
  [("sparsity determination", "model/model_c_source_gen_impl.hpp"), ("sparsity sources", "model/model_c_source_gen_hes.hpp"), ("sparsity loaders", "model/functor_generic_model.hpp")],
  ["GenericModel::JacobianSparsity*/HessianSparsity*, SparseJacobian/SparseHessian rows and cols"])

p("C06", "Loop-detected models equal the loop-free models",
  "For every function with repeated equation patterns, and whichever groups of related dependents are declared (matching, partially matching or not matching at all), the model generated with loops returns the same values, Jacobians, Hessians and directional derivatives with the same sparsity as the function without loops. Iteration counts, the order of the equations, index maps of independents (linear, sectioned, irregular), shared temporaries and equations missing from some iterations do not affect this.",
  ["programs", "inputs", "configurations"],
  "all systems of repeated equations, all declared groupings, all iteration counts and index layouts, all derivative functions",
  "Existing pattern tests use a fixed handful of models with 6 or so iterations and mostly regular index layouts.",
  ["patterns/dependent_pattern_matcher.hpp", "patterns/loop.hpp", "patterns/loop_model.hpp", "patterns/loop_free_model.hpp", "patterns/equation_pattern.hpp", "model/patterns/model_c_source_gen_loops.hpp", "model/patterns/model_c_source_gen_loops_jac.hpp", "model/patterns/model_c_source_gen_loops_hess.hpp", "lang/c/language_c_loops.hpp"],
  [("pattern detection and loop tape creation", "patterns/dependent_pattern_matcher.hpp"), ("derivatives with loops", "model/patterns/model_c_source_gen_loops_jac.hpp"), ("loop printing", "lang/c/language_c_loops.hpp")],
  ["results of the compiled model with related dependents declared vs. algorithmic differentiation"])

p("C07", "Index patterns reproduce the index map they were detected from",
  "For every finite map from iteration indexes to indexes (one or two dimensional, with gaps), the detected index pattern evaluates to exactly the mapped value for every index in the map, and the C expression generated for it evaluates to the same integer. Assignments of indexes in generated code never evaluate outside the exact map semantics.",
  ["inputs"],
  "all 1-D maps (contiguous and sparse keys), all 2-D maps, all index values present in the map",
  "Tests check a few hand-made sequences.",
  ["patterns/index/index_pattern_impl.hpp", "patterns/index/sectioned_index_pattern.hpp", "patterns/index/plane_2d_index_pattern.hpp", "patterns/index/linear_index_pattern.hpp", "patterns/index/random_1d_index_pattern.hpp", "patterns/index/random_2d_index_pattern.hpp", "lang/c/language_c_index_patterns.hpp"],
  [("pattern detection", "patterns/index/index_pattern_impl.hpp"), ("C expression of an index pattern", "lang/c/language_c_index_patterns.hpp")],
  ["IndexPattern::detect + evaluate, generated index expression"])

p("C08", "Re-evaluating a recorded graph reproduces its values and derivatives",
  "Evaluating an operation graph with other active scalar types (AD types, nested AD over CG, CG in the same or another handler) gives, for every graph and every set of new independent values, the same results as evaluating the original function with that type, including its derivatives when re-taped. Evaluations can be repeated with different inputs on the same evaluator and handler without affecting each other or the recorded graph.",
  ["programs", "inputs", "histories"],
  "all graphs incl. atomic calls and conditional expressions, all target scalar types, repeated evaluations",
  "Tests evaluate single operator formulas once.",
  ["evaluator/evaluator.hpp", "evaluator/evaluator_ad.hpp", "evaluator/evaluator_adcg.hpp", "evaluator/evaluator_cg.hpp", "evaluator/evaluator_solve.hpp"],
  [("graph evaluation", "evaluator/evaluator.hpp"), ("CG targets", "evaluator/evaluator_cg.hpp"), ("AD targets", "evaluator/evaluator_ad.hpp")],
  ["Evaluator::evaluate results"])

p("C09", "Symbolic solve and substitution preserve the equations",
  "When an expression is reported solvable for a variable and solved, the returned expression does not depend on that variable and makes the original residual zero for all values of the other variables (on the branch used), and unsupported cases are rejected with an exception instead of a wrong answer. Substituting an independent variable makes all expressions that used it evaluate as if it had the solved value, undoing the substitution restores the original expressions, and removing independents leaves the remaining functions unchanged.",
  ["programs", "inputs", "histories"],
  "all expressions over the invertible operators with the variable occurring once or several times, all values of other variables, sequences of substitute / undo / remove",
  "Tests cover each invertible operator once with a fixed point and hardly any bifurcations.",
  ["solver.hpp", "collect_variable.hpp", "graph_mod.hpp", "operation_path.hpp", "bidir_graph.hpp"],
  [("symbolic inversion along paths", "solver.hpp"), ("collecting repeated variables", "collect_variable.hpp"), ("substitution", "graph_mod.hpp")],
  ["CodeHandler::isSolvable/solveFor/substituteIndependent/undoSubstituteIndependent/removeIndependent"])

p("C10", "Calling a function through an atomic equals inlining it",
  "A function that calls other functions through atomic functions (user atomics, compiled models used as atomics, AD functions wrapped as atomics, nested to any depth) generates models whose values, Jacobians, Hessians and directional derivatives equal those of the same function with the calls inlined. This holds for any argument order, repeated or constant arguments, results that are unused or used several times, and calls inside loop-free or multi-function code.",
  ["programs", "inputs", "configurations"],
  "all pairs of inner/outer functions and call patterns, all derivative functions",
  "Tests use two fixed model pairs and a single call layout.",
  ["abstract_atomic_fun.hpp", "atomic_fun.hpp", "atomic_fun_bridge.hpp", "base_abstract_atomic_fun.hpp", "atomic_dependency_locator.hpp", "model/atomic_generic_model.hpp", "model/generic_model_external_function_wrapper.hpp", "model/functor_generic_model.hpp", "array_id_compresser.hpp", "lang/c/language_c_arrays.hpp"],
  [("recording of atomic calls", "abstract_atomic_fun.hpp"), ("array element management in generated code", "lang/c/language_c_arrays.hpp"), ("run-time callbacks", "model/generic_model_external_function_wrapper.hpp")],
  ["model results with atomics vs. the inlined function"])

p("C11", "Code generation is repeatable and does not alter the recorded graph",
  "Generating code from a handler any number of times, in any order and with any mixture of languages and options, always gives the source that a fresh handler with the same graph gives, and leaves the recorded graph evaluating to the same values. After a reset the handler behaves as a new one, and recording further operations between generations affects only the new expressions.",
  ["histories", "configurations"],
  "all sequences of record / generate (C, dot, LaTeX, MathML; different dependents and options) / reset operations on a handler",
  "Tests generate once from each handler.",
  ["code_handler.hpp", "code_handler_impl.hpp", "code_handler_vector.hpp", "code_handler_loops.hpp", "lang/c/language_c.hpp"],
  [("per-generation state reset", "code_handler_impl.hpp"), ("per-node side vectors", "code_handler_vector.hpp")],
  ["text of the generated sources; behaviour of compiled sources"],
  [("per-handler generation state", "variable ids, scopes, usage counts, last usage order, names", "code_handler.hpp")])

p("C12", "Parallel evaluation equals sequential evaluation",
  "For any set of jobs, any number of threads, any scheduling strategy and any history of reconfiguration (thread counts, enabling or disabling, chunk work limits, verbosity), the generated thread pool runs every job of every call exactly once and returns only after all have finished. Models generated with multi-threading return exactly the values that the single-threaded model returns, call after call.",
  ["schedules", "configurations", "histories"],
  "all job counts, durations, thread counts, strategies, reconfiguration sequences and interleavings reachable under stress",
  "Tests evaluate one small model once per strategy with a fixed number of threads.",
  ["model/threadpool/pthread_pool.c", "model/threadpool/openmp.c", "model/model_c_source_gen_jac.hpp", "model/model_c_source_gen_hes.hpp", "model/model_library_c_source_gen_impl.hpp"],
  [("thread pool", "model/threadpool/pthread_pool.c"), ("OpenMP settings", "model/threadpool/openmp.c"), ("parallel Jacobian", "model/model_c_source_gen_jac.hpp")],
  ["per-job run counters; model results"])

p("C13", "DAE index reduction yields a structurally index-1 consistent system",
  "For every structurally solvable differential-algebraic system, the index reduction algorithms return a system whose added equations are exact total time derivatives of the equations they came from, whose original equations are unchanged, whose variable and equation descriptions (derivative links, original indexes) are mutually consistent, and which is structurally non-singular with respect to its highest-order variables. Pantelides differentiates each equation the minimal number of times its structure requires; Soares-Secchi returns a system that becomes an ODE with at most one more differentiation. The reported structural index follows from the number of differentiations (0 for an ODE). Every solution of the original system satisfies the system returned by the dummy derivatives method, also when equations are eliminated or made explicit, which has as many equations as unknowns. Structurally singular systems are reported as errors.",
  ["programs", "inputs"],
  "all DAE systems over generated structures (index 0 to 4), all start points with consistent values",
  "Tests cover the pendulum and two plant models.",
  ["dae_index_reduction/pantelides.hpp", "dae_index_reduction/soares_secchi.hpp", "dae_index_reduction/dummy_deriv.hpp", "dae_index_reduction/dae_structural_index_reduction.hpp", "dae_index_reduction/bipartite_graph.hpp", "dae_index_reduction/time_diff.hpp", "dae_index_reduction/augment_path_depth_lookahead.hpp", "dae_index_reduction/augment_path_depth_lookahead_a.hpp"],
  [("Pantelides", "dae_index_reduction/pantelides.hpp"), ("Soares-Secchi", "dae_index_reduction/soares_secchi.hpp"), ("dummy derivatives", "dae_index_reduction/dummy_deriv.hpp"), ("total time derivative", "dae_index_reduction/time_diff.hpp")],
  ["reduceIndex results: equations, DaeVarInfo, DaeEquationInfo"])

p("C14", "Support containers behave as their models",
  "Array views, per-node side vectors, owning/smart containers and the array space allocator behave as their abstract models for every sequence of operations: views read and write exactly the viewed range and bounds violations are reported, side vectors keep their entries while nodes are added, owned objects are destroyed exactly once, and two arrays that are live at the same time never overlap in the allocated space.",
  ["histories", "inputs"],
  "all sequences of container operations",
  "array_view is sampled with a few calls; the others have no direct tests.",
  ["array_view.hpp", "code_handler_vector.hpp", "smart_containers.hpp", "array_id_compresser.hpp", "range.hpp"],
  [("views", "array_view.hpp"), ("array space reuse", "array_id_compresser.hpp"), ("side vectors", "code_handler_vector.hpp")],
  ["container contents, allocated ranges, instance counters"])

p("C15", "Sparsity and sparse-derivative utilities equal their dense definitions",
  "The sparsity-pattern utilities (determination of Jacobian/Hessian patterns, boolean matrix products, transposes, merges, conversions between formats, custom patterns) give exactly the result of their dense boolean definition for every input. The combined sparse forward/Jacobian/Hessian evaluation returns the same values and derivatives as dense algorithmic differentiation.",
  ["inputs", "programs"],
  "all boolean matrices and products, all AD functions and element selections",
  "Tests cover a 3x3 product and two formulas.",
  ["util.hpp", "extra/sparsity.hpp", "extra/sparse_forjac_hessian.hpp"],
  [("boolean products", "util.hpp"), ("pattern determination", "extra/sparsity.hpp"), ("combined evaluation", "extra/sparse_forjac_hessian.hpp")],
  ["returned patterns and values"])

p("C16", "Model libraries handle every request correctly or reject it cleanly",
  "For any sequence of library and model requests - opening, querying names, sizes and availability, evaluating functions with right or wrong argument sizes, missing functions or atomics, moving, closing - every request either returns the correct result or throws an exception, independently of the earlier requests, and never corrupts later valid ones. Several models in one library, several libraries, and all overloads of an evaluation function (vector types, views, sparse/dense) agree with each other.",
  ["histories", "inputs", "configurations"],
  "all sequences of API requests on libraries with randomly chosen available functions",
  "Tests make one valid call of each kind.",
  ["model/functor_generic_model.hpp", "model/functor_model_library.hpp", "model/generic_model.hpp", "model/model_library.hpp", "model/dynamic_lib/linux/linux_dynamiclib.hpp", "model/dynamic_lib/linux/linux_dynamiclib_model.hpp"],
  [("argument checks and dispatch", "model/functor_generic_model.hpp"), ("library loading", "model/dynamic_lib/linux/linux_dynamiclib.hpp")],
  ["results and exceptions of GenericModel / ModelLibrary"])

p("C17", "Compilation, linking and saving either succeed equivalently or fail cleanly",
  "Dynamic libraries, static archives and saved source folders produced from the same sources provide the same functions with the same results, for any source size, file name or compiler option. When the compiler, the archiver or the file system fails at any step, an exception is thrown, no unusable library is reported as created, temporary files are cleaned up, and a later attempt without the fault succeeds.",
  ["fault_sequences", "configurations"],
  "all fault positions (compiler missing, n-th compilation failing, link failing, unwritable folders), all processors",
  "Tests exercise only the success path.",
  ["model/compiler/abstract_c_compiler.hpp", "model/compiler/gcc_compiler.hpp", "model/dynamic_lib/dynamic_library_processor.hpp", "model/dynamic_lib/ar_archiver.hpp", "model/save_files_model_library_processor.hpp", "model/system/linux_system.hpp"],
  [("running compilers", "model/compiler/abstract_c_compiler.hpp"), ("process execution", "model/system/linux_system.hpp"), ("library creation", "model/dynamic_lib/dynamic_library_processor.hpp"), ("saved sources", "model/save_files_model_library_processor.hpp")],
  ["created files, exceptions, results of the loaded library"])

p("C18", "dot, LaTeX and MathML outputs are well-formed and state the same function",
  "For every recorded graph, the dot, LaTeX and MathML outputs are well-formed for their format and state exactly the recorded computation: reading the output back as formulas and evaluating them gives the values of the original function for every dependent. Numbers, operator precedence, operand order and variable names are kept.",
  ["programs", "inputs", "configurations"],
  "all graphs over the operators the formats support, all points, all output options",
  "Tests only print a few formulas and never look at the result.",
  ["lang/latex/language_latex.hpp", "lang/mathml/language_mathml.hpp", "lang/dot/language_dot.hpp", "lang/dot/dot.hpp", "lang/latex/latex.hpp", "lang/mathml/mathml.hpp"],
  [("LaTeX expressions", "lang/latex/language_latex.hpp"), ("MathML expressions", "lang/mathml/language_mathml.hpp"), ("dot graph", "lang/dot/language_dot.hpp")],
  ["generated documents"])

p("C19", "Graph queries return exactly what the graph contains",
  "For every operation graph, the path searches return only real paths from the root to the target and as many as exist (up to the requested limit), the path graph contains exactly the nodes and arguments lying on such paths with the right usage counts, and counting nodes or usages and detecting dependencies agrees with a direct traversal. The same expression is recognised as equal only when it is structurally the same computation.",
  ["programs", "inputs"],
  "all operation graphs with sharing, all root/target pairs and limits",
  "These queries are tested only indirectly through the solver.",
  ["operation_path.hpp", "operation_path_node.hpp", "bidir_graph.hpp", "util.hpp", "operation_node.hpp"],
  [("path search", "operation_path.hpp"), ("bidirectional path graph", "bidir_graph.hpp"), ("expression comparison", "util.hpp")],
  ["returned paths, BidirGraph contents"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
