"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x} for x in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CACHES = ["the subspace pool of an algebra", "memo tables of subspace and operator constructors",
          "lazily created per-algebra factories", "per-context operator cache", "per-function dispatch tables"]

prop("P01", "Concurrent use gives every thread the result a lone caller would get",
 "Any number of caller threads may share an algebra, a context and multivectors, including the very first use of anything that is built lazily, under any interleaving. Every call returns exactly what the same call returns to a lone caller on a fresh interpreter (same subspace, dtype, shape and values, equal to the mathematical definition), no call raises an error a lone caller would not get, and no interleaving deadlocks.",
 ["schedules", "programs", "configurations"],
 "Every interleaving of 2-4 threads, with preemption between any two bytecodes of the library, running arbitrary programs of library calls on shared objects, from cold or warm state.",
 "Tests are single threaded; a check-then-act window between two bytecodes of a lazily filled table is never hit by an uncontrolled run.",
 ["numga/flyweight.py", "numga/algebra/algebra.py", "numga/subspace/factory.py", "numga/subspace/subspace.py", "numga/operator/factory.py", "numga/operator/abstract.py", "numga/context.py", "numga/dynamic_dispatch.py", "numga/multivector/factory.py", "numga/backend/numpy/operator.py", "numga/backend/torch/operator.py"],
 [("check-then-act pool insertion", "numga/flyweight.py FlyweightFactory.factory_construct"),
  ("lazy per-algebra factories", "numga/algebra/algebra.py Algebra.subspace, Algebra.operator"),
  ("memoised operator construction", "numga/operator/factory.py OperatorFactory"),
  ("operator cache per context", "numga/context.py ConcreteOperatorFactory.__getattr__"),
  ("dispatch cache", "numga/dynamic_dispatch.py DynamicDispatch.__call__")], CACHES,
 ["return value of every public call", "set of blocked threads"])

prop("P02", "One subspace object per set of blades, however and whenever it is named",
 "Within one algebra, every description of the same set of basis blades (named subspace, grade list, blade list in any order, attribute syntax, bit string, set operation, operator output) yields the very same object, so identity and equality of subspaces coincide with equality of the blade sets and membership with set inclusion. Its blade list is immutable and in the canonical order (by grade, then by bit pattern), its labels describe exactly that set, and all of this holds under any history of constructions, any number of threads, and any interrupted or failed construction in between.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "All histories of subspace constructions and set operations over many algebras and routes, interleaved over threads, with interrupts, allocation failures and recursion limits injected at any point.",
 "Identity-as-equality is an invariant over the whole history of an algebra: a test constructs a subspace by one route in one order without interference.",
 ["numga/flyweight.py", "numga/subspace/factory.py", "numga/subspace/subspace.py", "numga/subspace/namespaces.py", "numga/algebra/algebra.py"],
 [("pooling", "numga/flyweight.py FlyweightFactory.factory_construct"),
  ("canonical order", "numga/subspace/factory.py SubSpaceFactory.order_blades"),
  ("set operations", "numga/subspace/subspace.py SubSpace.union/intersection/difference/is_subspace"),
  ("cached labels", "numga/subspace/subspace.py SubSpace.pretty_str/named_str/bit_str")],
 ["the pool of an algebra", "memoised set operations"], ["object identity, blade list, labels and membership of every constructed subspace"])

prop("P03", "Multilinear operations do not depend on what was computed before",
 "In a program that uses any number of algebras, contexts, element types and execution strategies, every multilinear operation (products, contractions, duals, complements, involutions, commutators, sandwiches, grade and subspace selection, sums, and any of these partially bound in any order) returns the value given by its mathematical definition, in the output subspace and element type it would have as the first call of a fresh program. This holds whatever was computed earlier, whether caches are warm or cold, and after contexts are reconfigured, dropped and recreated or calls are abandoned half way.",
 ["histories", "programs", "inputs", "configurations", "fault_sequences"],
 "All histories of operations over several simultaneously live algebras (2 to 10 generators, any signature), contexts, dtypes and strategies, with restarts, reconfigurations, garbage collections and aborted calls in between.",
 "A stale, colliding or polluted cache entry only shows for a specific earlier history; each test starts one algebra and asks few questions.",
 ["numga/context.py", "numga/operator/factory.py", "numga/operator/operator.py", "numga/operator/abstract.py", "numga/operator/sparse_tensor.py", "numga/algebra/algebra.py", "numga/algebra/bitops.py", "numga/multivector/multivector.py", "numga/backend/numpy/operator.py"],
 [("operator cache key", "numga/context.py ConcreteOperatorFactory.__getattr__"),
  ("memoised symbolic operators", "numga/operator/factory.py OperatorFactory"),
  ("binding, symmetrising and squeezing kernels", "numga/operator/operator.py Operator.bind/symmetry/squeeze/select_subspace"),
  ("precomputed execution plans", "numga/operator/abstract.py precompute_einsum_partial, precompute_sparse"),
  ("partial application", "numga/backend/numpy/operator.py NumpyOperator.partial")], CACHES,
 ["return value of every public call"])

prop("P04", "An interrupted or failed call leaves no trace",
 "When a library call is cut short at any point by a keyboard interrupt, a failed allocation, exhausted recursion depth or a trapped floating point error, it either raises that error or returns the correct result: never a wrong result and never an unrelated error. Afterwards the process is as if the call had not been made: repeating it, and every later call on the same or other objects, gives the result a fresh program gives.",
 ["fault_sequences", "crash_points", "histories"],
 "Every point (any line, call or bytecode of the library) at which a call can be interrupted, for sequences of calls and faults, from cold and warm state.",
 "Tests never abort a call; half-built state that is published before it is complete only shows when the abort lands in that window.",
 ["numga/flyweight.py", "numga/context.py", "numga/dynamic_dispatch.py", "numga/algebra/algebra.py", "numga/subspace/factory.py", "numga/subspace/subspace.py", "numga/operator/factory.py", "numga/operator/abstract.py", "numga/multivector/multivector.py"],
 [("build before publish", "numga/flyweight.py FlyweightFactory.factory_construct"),
  ("build before publish", "numga/context.py ConcreteOperatorFactory.__getattr__"),
  ("blanket exception handlers", "numga/dynamic_dispatch.py DynamicDispatch.__call__, numga/subspace/subspace.py SubSpace.pretty_str, numga/context.py"),
  ("lazily cached properties", "numga/operator/abstract.py, numga/subspace/subspace.py")], CACHES,
 ["outcome of the faulted call, of its retry and of all later calls"])

prop("P05", "No operation changes its operands, earlier results or shared tables",
 "No library call, whether it completes or is aborted midway, changes the values of its operands, of any other live multivector, of previously returned results, or of any shared table. Functional updates and copies return independent objects, and a client that edits in place the values of a multivector it obtained from a multilinear operation, by copying or by naming a blade changes only that object and never what any later call returns.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "All histories of calls, functional updates and in-place client edits of fresh results over all operand layouts (batched, broadcast, strided, either memory order), with aborts at any point and several threads.",
 "A test looks at the value it just asked for, not at every other live object after each of thousands of operations, and never edits a result in place.",
 ["numga/multivector/multivector.py", "numga/multivector/helper.py", "numga/multivector/factory.py", "numga/multivector/extension/optimized.py", "numga/operator/operator.py", "numga/backend/numpy/context.py", "numga/backend/numpy/multivector.py", "numga/backend/numpy/operator.py", "numga/subspace/subspace.py"],
 [("functional update", "numga/multivector/helper.py IndexHelper, numga/backend/numpy/context.py NumpyContext.set_array"),
  ("copy", "numga/multivector/multivector.py AbstractMultiVector.copy"),
  ("blade attribute syntax", "numga/multivector/factory.py MultiVectorFactory.__getattr__"),
  ("output buffers", "numga/backend/numpy/operator.py broadcast_allocate"),
  ("in-place optimised code", "numga/multivector/extension/optimized.py")],
 ["value arrays of multivectors", "operator kernels"], ["digest of every live value array and kernel after every call"])

prop("P06", "Registered implementations take effect at once and in order",
 "A call to an extensible function runs the first registered implementation whose condition accepts the arguments' subspaces, in the order given by registration and explicit position, taking into account every registration that completed before the call began. This holds regardless of earlier calls on the same subspaces, of concurrent calls and registrations from other threads, and of conditions or implementations that fail or are interrupted.",
 ["histories", "schedules", "fault_sequences"],
 "All histories and interleavings of registrations (appended or positioned) and calls on arbitrary subspaces, with failing and interrupted conditions.",
 "Tests register everything before the first call; the order call-register-call on one subspace, or a registration between lookup and store, never occurs.",
 ["numga/dynamic_dispatch.py", "numga/multivector/extension/__init__.py", "numga/multivector/extension/optimized.py", "numga/multivector/multivector.py"],
 [("dispatch cache and option list", "numga/dynamic_dispatch.py DynamicDispatch.match/__call__/register")],
 ["options", "cache"], ["which implementation each call ran"])

prop("P07", "Nonlinear functions satisfy their defining equations in every history",
 "For well conditioned operands of every supported subspace, inverses multiply to one on both sides, exponentials match the power series and are undone by logarithms, square roots square to their argument, normalisation yields unit norm in the same direction, and decompositions recompose from parts of the promised kind; elementwise functions act on each component. This holds elementwise over batches, in any order of calls over algebras and contexts, under concurrent calls and aborted calls, and before and after the optional optimised implementations are activated at any moment.",
 ["histories", "schedules", "inputs", "fault_sequences", "configurations"],
 "All well conditioned operands of supported subspaces in algebras of up to five generators, in any call history, interleaving and abort pattern, with the optimised module activated at any point.",
 "The dispatch decision is cached per subspace and per history; tests evaluate each function once in a fixed order with the optimised module either always or never loaded.",
 ["numga/multivector/extension/inverse.py", "numga/multivector/extension/roots.py", "numga/multivector/extension/logexp.py", "numga/multivector/extension/norms.py", "numga/multivector/extension/decompose.py", "numga/multivector/extension/optimized.py", "numga/multivector/multivector.py", "numga/subspace/subspace.py", "numga/dynamic_dispatch.py"],
 [("recursive inversion", "numga/multivector/extension/inverse.py"), ("bisection exp/log", "numga/multivector/extension/logexp.py"),
  ("roots and norms", "numga/multivector/extension/roots.py, norms.py"), ("decompositions", "numga/multivector/extension/decompose.py"),
  ("late activation", "numga/multivector/extension/optimized.py"), ("subspace predicates that select the formula", "numga/subspace/subspace.py is_*_n_simple, is_study")],
 ["dispatch caches", "memoised subspace predicates"], ["residual of the defining equation"])

prop("P08", "A fault in one batch element never reaches another",
 "Every operation on batched multivectors treats batch elements independently: corrupting any components of some elements of the operands (not-a-number, infinity, overflow, sign or bit flips) changes results only for the elements that depend on them, and every other element is as if it had been computed alone, with numpy broadcasting rules deciding which elements belong together. It holds for linear and nonlinear operations, partial application, functional updates, slicing and concatenation, and for every execution strategy that supports batches.",
 ["fault_sequences", "inputs", "programs"],
 "All operations, batch shapes and broadcast patterns, with any set of corrupted elements injected at any step of a multi-operation program.",
 "Tests use clean data and compare whole results; a global reduction, a shared normaliser or a wrong broadcast axis is invisible until one element is corrupted.",
 ["numga/backend/numpy/operator.py", "numga/backend/numpy/multivector.py", "numga/backend/numpy/context.py", "numga/backend/torch/operator.py", "numga/backend/torch/multivector.py", "numga/backend/jax/operator.py", "numga/multivector/multivector.py", "numga/multivector/extension/roots.py", "numga/multivector/extension/logexp.py"],
 [("broadcast einsum", "numga/backend/numpy/operator.py NumpyEinsumOperator, NumpyOperator.partial"), ("sparse execution", "numga/backend/numpy/operator.py NumpySparseOperator"),
  ("nan handling", "numga/multivector/extension/roots.py, decompose.py"), ("functional update", "numga/multivector/helper.py")],
 None, ["per-element results"])

prop("P09", "Physics can be crashed and resumed, and independent constraints commute",
 "A rigid body simulation that is killed at any instant and rebuilt in a fresh process from the last saved numbers continues on the same trajectory as an undisturbed run, wherever the crash falls inside a step and whatever ran before. Constraints that share no body may be applied in any order or grouping with the same outcome, and bodies that no constraint connects never influence each other.",
 ["crash_points", "histories", "schedules", "configurations"],
 "All crash points inside a step, checkpoint histories, orders and partitions of disjoint constraints, body counts, dimensions and signatures.",
 "Tests run one undisturbed trajectory in one process and look only at broad quantities.",
 ["numga/examples/physics/core.py", "numga/examples/physics/base.py", "numga/examples/physics/setup_chain.py", "numga/examples/integrators.py", "numga/multivector/helper.py", "numga/backend/numpy/operator.py"],
 [("verlet step", "numga/examples/physics/core.py Body.integrate"), ("constraint projection with indexed update", "numga/examples/physics/core.py Constraint.apply/v_apply"),
  ("operator state", "numga/backend/numpy/operator.py at/__getitem__/partial")],
 ["motor, rate, inertia operators of bodies"], ["state arrays after every step"])

prop("P10", "Constraint solving recovers after disturbances stop",
 "After disturbances stop (impulses, displaced bodies, irregular or stalled time steps, lost constraint passes), a constrained chain of rigid bodies with damping, in flat or elliptic space of one to three dimensions, returns to satisfying its constraints within a bounded number of regular steps, and its kinetic energy does not run away. Constraint impulses exchanged between free bodies conserve total momentum at every pass (a velocity pass in three dimensions: up to the distance by which the anchors have come apart), motors stay normalised throughout, and every step is the one the method defines.",
 ["fault_sequences", "schedules", "histories"],
 "All bounded sequences of disturbances and time step jitter on chains of varying length, dimension and (flat or elliptic) signature.",
 "A test runs an unperturbed chain with a constant step; recovery is a liveness property over fault sequences.",
 ["numga/examples/physics/core.py", "numga/examples/physics/base.py", "numga/examples/physics/setup_chain.py", "numga/multivector/extension/logexp.py", "numga/multivector/extension/norms.py"],
 [("constraint solver", "numga/examples/physics/core.py Constraint.apply_indexed/distribute_forque"), ("retraction", "numga/examples/physics/core.py motor_add_step/motor_relative_step")],
 ["motor and rate of bodies"], ["constraint error, energy, momentum, motor norm per step"])

prop("P11", "Traced, differentiated and aborted evaluations never affect later results",
 "Library calls may be traced for compilation, vectorised or differentiated, or have such a trace fail midway, in any order and including the first use of any lazily built object. Results inside a transformation equal the plain evaluation, and no object or table touched by a finished or aborted trace makes a later plain or traced call fail or change its result.",
 ["histories", "fault_sequences", "programs"],
 "All orders of plain, compiled, vectorised and differentiated calls over shared algebras and contexts, with traces aborted at any point of the library.",
 "A value captured by a trace poisons a cache only when the trace happens before the plain use; tests never do first use inside a trace and never abort one.",
 ["numga/backend/jax/context.py", "numga/backend/jax/multivector.py", "numga/backend/jax/operator.py", "numga/backend/jax/pytree.py", "numga/multivector/factory.py", "numga/context.py"],
 [("cached blades", "numga/multivector/factory.py MultiVectorFactory.__getattr__"), ("static operator arguments", "numga/backend/jax/operator.py"), ("pytree registration", "numga/backend/jax/pytree.py")],
 ["per-context caches"], ["value and exception of every call"])

prop("P12", "Nothing ambient decides a result and nothing ambient is changed",
 "The outcome of a program of library calls is a function of its inputs alone, identical to the last bit and in blade order, labels and subspaces, for any hash seed, memory layout, garbage collection timing, clock, random number state, recursion headroom, thread identity or working directory. The library in turn changes no process-wide state: random generators, floating point error modes, warning filters, print options, environment, working directory, signal handlers, standard streams, open files, threads or settings of the array libraries.",
 ["configurations", "programs", "schedules"],
 "All programs of library calls executed under arbitrary combinations of ambient settings, with clock jumps and collections at any point.",
 "Tests run under one fixed hash seed, clock and allocator state, and do not diff process state.",
 ["numga/subspace/subspace.py", "numga/subspace/factory.py", "numga/flyweight.py", "numga/operator/factory.py", "numga/context.py", "numga/algebra/algebra.py", "numga/multivector/multivector.py", "numga/multivector/extension/inverse.py"],
 [("set based blade algebra put in canonical order", "numga/subspace/subspace.py union/intersection/difference"), ("identity hashing", "numga/flyweight.py FlyweightMixin"), ("memo tables", "numga/subspace/factory.py, numga/operator/factory.py")],
 None, ["digest of all results", "process-wide state before and after"])

prop("P13", "Execution strategies and backends are interchangeable mid program",
 "For the same algebra and operands, dense, contracted and unrolled execution, plain python, numpy, torch and jax contexts return the same multivector in the same subspace up to rounding, for every multilinear operation including selections with components the operand lacks and operations whose result is empty. A program may switch the strategy or element type of a live context, or hand its state to another backend, at any step without changing what it computes.",
 ["histories", "configurations", "programs", "inputs", "fault_sequences"],
 "All programs over all strategies and backends with switches, hand-overs and restarts at any step.",
 "Tests exercise each backend separately on a few products and never switch strategy on a live context.",
 ["numga/context.py", "numga/backend/numpy/operator.py", "numga/backend/numpy/context.py", "numga/backend/python/operator.py", "numga/backend/python/multivector.py", "numga/backend/torch/operator.py", "numga/backend/torch/multivector.py", "numga/backend/torch/context.py", "numga/backend/jax/operator.py", "numga/backend/jax/multivector.py", "numga/operator/abstract.py"],
 [("strategy in the cache key", "numga/context.py ConcreteOperatorFactory.__getattr__"), ("unrolled plan", "numga/operator/abstract.py precompute_sparse"), ("einsum plan", "numga/operator/abstract.py precompute_einsum_partial")],
 ["per-context operator cache"], ["return value of every call per backend"])

prop("P14", "Sparse matrix builders are independent and order insensitive",
 "Builders of sparse multivector matrices that are alive at the same time, in one or several threads, never see each other's entries. The finished matrix depends only on the set of entries contributed to that builder, not on the order, on interleaving with other builders, or on earlier builders that were finished, abandoned or aborted, and every way of using it (with vectors, with other matrices, bound to a subspace, flattened, dense) gives the same numbers.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings and orders of entry insertion over several builders, with builders abandoned or interrupted at any point.",
 "The test builds one matrix once per process.",
 ["numga/examples/ga_sparse.py"],
 [("entry accumulation", "numga/examples/ga_sparse.py Builder")], ["builder entries"], ["finished matrix"])

prop("P15", "Repeating a workload reaches a steady state",
 "Repeating any workload on a live algebra, on one context or on contexts made anew each time, including one whose calls are sometimes aborted, soon reaches a steady state: further repetitions construct no new subspaces or operators and retain no additional memory. Repeating an operation on the same subspaces in the same configuration therefore reuses the same subspace and operator objects.",
 ["histories", "fault_sequences"],
 "All workloads repeated many times, with aborts injected in any repetition.",
 "A cache whose key never matches, or that stores per call objects, gives right answers in every test and only shows as growth over a long history.",
 ["numga/operator/factory.py", "numga/context.py", "numga/subspace/factory.py", "numga/subspace/subspace.py", "numga/flyweight.py", "numga/dynamic_dispatch.py", "numga/operator/abstract.py"],
 [("memo tables keyed by flyweight subspaces", "numga/operator/factory.py OperatorFactory"), ("operator cache", "numga/context.py ConcreteOperatorFactory"), ("dispatch cache", "numga/dynamic_dispatch.py")], CACHES,
 ["number of live library objects and memo entries per repetition"])

# ---- properties this technique does not address -------------------------------------------------
prop("N01", "Derived output subspaces are sound and tight",
 "The output subspace inferred for an operator contains every blade the operation can produce and no blade that is always zero.",
 ["inputs"], "All operators and input subspaces.", "The space of subspaces is exponential in the dimension; tests sample a few.",
 ["numga/operator/operator.py", "numga/operator/factory.py"], [("squeeze and symmetry", "numga/operator/operator.py Operator.squeeze/symmetry")])
prop("N02", "Numerical accuracy and differentiability of logarithm, exponential and roots",
 "The bisection based functions are accurate to a uniform relative precision and smoothly differentiable everywhere on their domain.",
 ["inputs"], "All real inputs.", "Error bounds over a continuum are not settled by sampling.",
 ["numga/multivector/extension/logexp.py", "numga/multivector/extension/roots.py"], [("bisection", "numga/multivector/extension/logexp.py exp_bisect/motor_log_bisect")])
prop("N03", "Algebraic identities of the geometric product",
 "The products satisfy associativity, the metric and grade laws and the duality relations in every signature.",
 ["inputs"], "All signatures and elements.", "Infinitely many signatures and elements.",
 ["numga/algebra/algebra.py", "numga/operator/factory.py"], [("cayley table", "numga/algebra/algebra.py Algebra.product")])
prop("N04", "Generated python code computes its operator",
 "The source text generated for an operator, when executed, computes that operator.",
 ["programs"], "All operators.", "Only one operator is generated in tests.",
 ["numga/backend/python/operator.py"], [("code generation", "numga/backend/python/operator.py PythonCodegenOperator")])
prop("N05", "Conformal embedding respects geometric predicates",
 "Points, spheres and flats constructed by the conformal helpers satisfy incidence, distance and transformation laws in any dimension.",
 ["inputs"], "All dimensions and coordinates.", "Continuum of inputs.",
 ["numga/examples/conformal.py"], [("embedding", "numga/examples/conformal.py Conformal")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
