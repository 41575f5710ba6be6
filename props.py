"""The properties: text for properties.jsonl, MANIFEST.json."""

BASE_NOTE = (
    "Static verdict on the structural clauses listed in the evidence, for every construct the "
    "analysis resolves; constructs it cannot resolve are listed as not analysed and carry no verdict. "
)

PROPS = [
    dict(
        id="P01",
        title="Saving and reloading loses nothing a component was built from",
        statement=(
            "Saving a component or a circuit to a file and loading it back yields an object of the same "
            "class with the same modes, the same constructor parameters (values, trainable flags and "
            "bounds) and, for components held by their representation, the same ansatz data including the "
            "number of batch dimensions and the superposition flag. Circuits also keep their contraction "
            "path and the order of their components. Display labels of the ansatz are not part of this."
        ),
        over=["inputs", "programs"],
        forall="every component class, every constructor argument of it, every circuit of them",
        why=(
            "The tests round-trip a few components with default or sampled arguments; the property "
            "quantifies over every constructor parameter of every class, so one that a writer forgets "
            "or a reader renames is only seen when a test happens to set it and compare it."
        ),
        files=["mrmustard/utils/serialize.py", "mrmustard/lab/circuits.py",
               "mrmustard/lab/circuit_components.py", "mrmustard/physics/ansatz/polyexp_ansatz.py",
               "mrmustard/physics/ansatz/array_ansatz.py"],
        mechanism=[
            ("Circuit.serialize / deserialize", "mrmustard/lab/circuits.py"),
            ("CircuitComponent._serialize / _deserialize", "mrmustard/lab/circuit_components.py"),
            ("Ansatz.to_dict / from_dict", "mrmustard/physics/ansatz"),
            ("save / load", "mrmustard/utils/serialize.py"),
        ],
        observe=["Circuit.serialize", "mrmustard.utils.serialize.load"],
        technique="interprocedural dataflow (abstract interpretation) of writer/reader key and provenance agreement",
        level_note=BASE_NOTE + "Decides that every constructor argument reaches the stored data and the rebuilt "
        "constructor call under its own name; does not decide floating point equality of stored arrays.",
    ),
    dict(
        id="P02",
        title="Flattening to a pytree and back restores the same object",
        statement=(
            "Unflattening the flattened form of any library object that is registered with the pytree "
            "machinery gives back an object with the same class and the same observable state. No piece of "
            "state is dropped, swapped with another, or taken from a default, whether it travels as a leaf "
            "or as static data."
        ),
        over=["inputs", "programs"],
        forall="every registered class and every attribute its methods read",
        why=(
            "The tests check a few attributes of a few objects; the property is over every attribute of "
            "every registered class, including those set by alternate constructors and by methods."
        ),
        files=["mrmustard/lab/circuit_components.py", "mrmustard/lab/circuits.py",
               "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py",
               "mrmustard/math/parameters.py", "mrmustard/math/parameter_set.py"],
        mechanism=[("_tree_flatten / _tree_unflatten", "registered classes"),
                   ("register_pytree_node calls", "mrmustard")],
        observe=["jax.tree_util.tree_flatten", "jax.tree_util.tree_unflatten"],
        technique="field-sensitive abstract interpretation of flatten/unflatten pairs",
        level_note=BASE_NOTE + "Decides field-by-field transport; numerical identity of leaves is by construction.",
    ),
    dict(
        id="P03",
        title="Operations never change the objects they are given",
        statement=(
            "Operations that return a new object (arithmetic, contraction, conversion, dual, slicing, "
            "measurement, comparison, drawing, saving) leave their operands as they were: the components, their ansatz, "
            "wires and parameters, circuits, and every array or container that is passed in. Results do not "
            "alias state of their operands that a later documented setter would change through them, and no operation "
            "changes the state shared by all instances of a class or by a module. Documented mutators are outside: setters on "
            "the object itself, Circuit.optimize and the Fock shapes it stores, the Optimizer on the trainable parameters, "
            "ParameterSet.add_parameter, settings, explicit `out` buffers; evaluating a stored lazy function is invisible."
        ),
        over=["inputs", "histories"],
        forall="every public operation, every operand, every path through it",
        why=(
            "A test sees the result of an operation, rarely the operands after it; a mutation shows only when an operand "
            "is used again, for specific representations, batch shapes or sharing."
        ),
        files=["mrmustard/lab", "mrmustard/physics", "mrmustard/math", "mrmustard/widgets", "mrmustard/training"],
        mechanism=[("effects of public functions and methods on their inputs", "mrmustard"),
                   ("copy-on-write of wires", "mrmustard/lab/circuit_components.py")],
        observe=["operands after any operation"],
        technique="interprocedural escape/effect analysis by abstract interpretation (heap origins)",
        level_note=BASE_NOTE + "Decides writes that reach an object that came in from outside (or class/module state); "
        "aliasing is decided for the wires of components.",
    ),
    dict(
        id="P04",
        title="Settings change only where asked, and contexts restore them",
        statement=(
            "Inside `with settings(...)` every given setting has the given value; leaving the context, normally or "
            "through an exception, gives every setting the value it had on entry, also when contexts are nested "
            "and name the same or different settings, and the exception is not swallowed. No library function or method other "
            "than the settings object and the backend manager assigns a setting, switches the backend, or changes "
            "interpreter-wide state (seeds of global random generators, warning filters, numpy error state, environment)."
        ),
        over=["histories", "inputs"],
        forall="every setting, every nesting of contexts, every library function",
        why=(
            "A changed setting shows up in unrelated later computations; tests run each context alone and leave it normally."
        ),
        files=["mrmustard/utils/settings.py", "mrmustard"],
        mechanism=[("Settings.__call__ / __enter__ / __exit__", "mrmustard/utils/settings.py"),
                   ("BackendManager.change_backend", "mrmustard/math/backend_manager.py")],
        observe=["mrmustard.settings", "mrmustard.math.backend_name"],
        technique="abstract interpretation of the context protocol (provenance of each setting) and an effect query over all functions",
        level_note=BASE_NOTE + "Contexts are evaluated to nesting depth two for each setting; the random number generator "
        "that belongs to SEED restarts and is not covered.",
    ),
    dict(
        id="P05",
        title="All randomness follows the settings seed or the seed that is passed",
        statement=(
            'Every random draw of the library comes from settings.rng or from a generator built from an explicitly '
            'passed seed, so that a program that sets settings.SEED reproduces its results (identifiers of wires and '
            'generated file names are not results). When a function takes a seed and is given one (0 included) all '
            'its draws, in helpers and recursive calls too, come from that seed and none from settings.rng; when it '
            'is given none, every draw advances settings.rng. Assigning settings.SEED restarts settings.rng from that '
            'seed for all later draws: the generator is never captured at import time or stored elsewhere, and cached '
            'functions draw nothing.'
        ),
        over=["inputs", "histories"],
        forall="every function that draws, every seed, every sequence of calls",
        why=(
            "Tests compare distributions or a single seeded call; a draw from another generator looks the same until someone "
            "tries to reproduce a run."
        ),
        files=["mrmustard/math/backend_manager.py", "mrmustard/lab/samplers.py", "mrmustard/path/branch_and_bound.py",
               "mrmustard/utils/settings.py", "mrmustard/lab/states", "mrmustard/lab/transformations"],
        mechanism=[("random_symplectic / random_orthogonal / random_unitary", "mrmustard/math/backend_manager.py"),
                   ("Sampler.sample and sample_prob_dist", "mrmustard/lab/samplers.py"),
                   ("random_solution", "mrmustard/path/branch_and_bound.py")],
        observe=["Ket.random", "Sampler.sample", "Circuit.optimize"],
        technique="taint analysis from seeds and generators to draws (abstract interpretation) plus a query for foreign generators",
        level_note=BASE_NOTE + "Decides which generator a draw uses, not the distribution of the draws.",
    ),
    dict(
        id="P10",
        title="Components are wired from their own constructor arguments",
        statement=(
            "Every argument of a component's constructor reaches the component: each parameter argument is "
            "registered under their own name with their own trainable flag and bounds, and each feeds the "
            "argument of the same name of the function that builds its representation, where it influences the "
            "result. The parameters a component reports are exactly the arguments its constructor takes, so that "
            "calling the constructor with them builds the same component again."
        ),
        over=["inputs", "programs"],
        forall="every component class and every constructor argument of it",
        why=(
            "Defaults hide cross-wired arguments: tests rarely vary each flag, bound and value of each "
            "class independently."
        ),
        files=["mrmustard/lab/states", "mrmustard/lab/transformations", "mrmustard/lab/circuit_components.py"],
        mechanism=[("constructors: ParameterSet.add_parameter and Ansatz.from_function", "mrmustard/lab"),
                   ("CircuitComponent._from_attributes and _getitem", "mrmustard/lab/circuit_components.py")],
        observe=["component.parameters", "component.ansatz"],
        technique="interprocedural provenance analysis of constructor arguments",
        level_note=BASE_NOTE + "Decides which argument reaches which parameter and which argument of the builder.",
    ),
    dict(
        id="P08",
        title="An operation of math means the same thing on both backends",
        statement=(
            "Every operation that `math` (the backend manager) offers exists in both the NumPy and the JAX "
            "backend; each argument of the operation reaches the parameter it is meant for in both; an "
            "argument that influences the result on one backend influences it on the other; a backend "
            "parameter left out has the same default in both; and where both backends implement the "
            "operation by one library call it is the same function with the arguments in the same roles. "
            "Selecting a backend by name selects that one. Numerical agreement of two different algorithms, "
            "floating point precision and error messages are not part of this."
        ),
        over=["inputs", "programs"],
        forall="every operation of the backend manager and every argument of it",
        why=(
            "The suite runs once per backend with the arguments a test happens to pass; an argument that one "
            "backend ignores, swaps or defaults differently is invisible until a program that passes it moves "
            "from one backend to the other."
        ),
        files=["mrmustard/math/backend_manager.py", "mrmustard/math/backend_numpy.py", "mrmustard/math/backend_jax.py"],
        mechanism=[
            ("BackendManager._apply and the operations that use it", "mrmustard/math/backend_manager.py"),
            ("BackendNumpy", "mrmustard/math/backend_numpy.py"),
            ("BackendJax", "mrmustard/math/backend_jax.py"),
        ],
        observe=["math.<operation>", "math.change_backend"],
        technique="abstract interpretation of the dispatcher and comparison of the twin implementations (argument roles, influence, defaults, library calls)",
        level_note=BASE_NOTE + "Decides argument roles, influence and defaults; does not decide numerical agreement "
        "of operations implemented by different algorithms.",
    ),
    dict(
        id="P07",
        title="A remembered result never outlives what it was computed from",
        statement=(
            'Changing a setting, the active backend or the value of a trainable parameter takes effect at the next '
            'use: memoised or jit-compiled functions depend on nothing but their key, and no module-level value, '
            'class attribute or default argument freezes a setting or an array of the active backend at import. The '
            'arrays of a function-backed ansatz are computed again, from the current parameter values, whenever one '
            'of its parameters is trainable and before they are read, components hand their parameter objects, not '
            'their current values, to their ansatz, and cached views of wires are dropped when the wires change in '
            'place. Values computed inside of a JAX transformation are not remembered beyond it, so objects used in a '
            'jitted or differentiated function stay usable afterwards.'
        ),
        over=["inputs", "histories"],
        forall="every memoised or compiled function, every module-level value, every function-backed ansatz, every change of a setting, backend or parameter",
        why=(
            "Staleness needs a history: the same call before and after a change. The tests set settings and "
            "backends once per session, so a result remembered from before is never asked for afterwards."
        ),
        files=["mrmustard/math/caching.py", "mrmustard/physics/fock_utils.py", "mrmustard/physics/wires.py",
               "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py"],
        mechanism=[
            ("tensor_int_cache and the lru_cache functions", "mrmustard/math/caching.py"),
            ("Ansatz._generate_ansatz / _should_regenerate", "mrmustard/physics/ansatz"),
            ("Wires cached properties", "mrmustard/physics/wires.py"),
        ],
        observe=["oscillator_eigenstate", "CircuitComponent.ansatz", "Wires.adjoint / Wires.dual"],
        technique="effect analysis over the call graph (settings and backend reads reachable from remembered results) and typestate of lazily computed fields",
        level_note=BASE_NOTE + "The call graph has certain edges only: a read behind a dynamically dispatched call is not seen.",
    ),
    dict(
        id="P18",
        title="Custom JAX gradients are wired to the operation they belong to",
        statement=(
            "Every operation with a hand-written JAX gradient has a forward and a backward rule of its own. "
            "The forward rule runs that operation on the same arguments; the backward rule reads each saved "
            "value as what it was saved as, runs the gradient kernel of that operation (one that exists, with "
            "each argument in its role), and returns exactly one gradient per differentiable argument, in the "
            "order of the arguments, each computed from the incoming cotangent and using every derivative "
            "that was computed. The result of the operation depends on each differentiable argument, and "
            "the arguments marked static and those excluded from differentiation are the same."
        ),
        over=["inputs", "programs"],
        forall="every operation with a custom gradient, every argument of it, every saved value",
        why=(
            "The tests compare a few gradients at sampled points, mostly for square shapes and symmetric "
            "inputs where two swapped gradients or residuals agree; a missing kernel or a swapped "
            "residual only fails on the path that reaches it."
        ),
        files=["mrmustard/math/jax_vjps/fock_utils.py", "mrmustard/math/jax_vjps/hermite.py",
               "mrmustard/math/backend_jax.py", "mrmustard/math/lattice/strategies"],
        mechanism=[("defvjp pairs", "mrmustard/math/jax_vjps"),
                   ("host callbacks into the lattice strategies", "mrmustard/math/jax_vjps")],
        observe=["jax.grad of hermite_renormalized_*, displacement, beamsplitter, squeezed, squeezer"],
        technique="dataflow of argument, residual and cotangent provenance through the forward/backward rules and their host callbacks",
        level_note=BASE_NOTE + "Decides the wiring (which value reaches which role); the numerical formulas inside "
        "the gradient kernels, their conjugations and array shapes are not decided.",
    ),
    dict(
        id="P06",
        title="An argument that is given is honoured",
        statement=(
            'Every argument of a function, method or constructor of the library influences its result, its effects or '
            'the errors it raises: it is not ignored (on any path that computes a result from the other arguments), '
            'and not overwritten before it is used (labels, verbosity and '
            'dtype options are only required to be used). A default stands in only for an argument that was left out: '
            'zero, False, an empty collection or an array that is passed explicitly is used as given. A function that '
            'hands its argument on to another library function with a parameter of that name hands it on to that '
            'parameter (not to another one, not a constant in its place, and not left out so that a default applies), '
            'and calls to library functions match the signature of what they call.'
        ),
        over=["inputs", "programs"],
        forall="every function of the package, every parameter of it, every call between library functions",
        why=(
            "Tests pass the arguments their author thought of, mostly away from zero and for symmetric modes; "
            "an option that is dropped on one path or replaced by a default when it is falsy returns a "
            "plausible wrong result without an error."
        ),
        files=["mrmustard/lab", "mrmustard/math", "mrmustard/physics", "mrmustard/utils", "mrmustard/path"],
        mechanism=[("parameter flow inside each function", "mrmustard"),
                   ("argument binding at each resolved call", "mrmustard")],
        observe=["any public function called with a non-default argument"],
        technique="def-use slicing of every parameter, truthiness-test lint on optional values, and argument/parameter binding of every resolved call",
        level_note=BASE_NOTE + "An argument counts as honoured when it reaches a result, an effect or an error "
        "on some path; how it enters the formula is not decided. Roles are compared by parameter name.",
    ),
    dict(
        id="P11",
        title="What a cost function computes can be traced by JAX",
        statement=(
            "Building components from parameter values, their representations, contraction, addition and scaling, "
            "conversion between representations, probabilities, norms, purity, expectation values, fidelities and "
            "Gaussian quantities can be traced (jax.jit, jax.grad) on the JAX backend and give what they give eagerly. "
            "No branch, loop bound, list index, Python number, array shape or static argument in them depends on the "
            "value of an array computed from parameters, and no such array leaves the backend (NumPy functions and "
            "buffers, asnumpy, in-place writes, cut gradients), nor does a trace compile kernels anew. Predicates (is_*), equality, printing, saving, "
            "sampling, drawing, simplification, physical stellar decompositions and automatic Fock shapes are evaluated "
            "eagerly and are outside this."
        ),
        over=["inputs", "programs"],
        forall="every program a cost function may consist of, every parameter value, both jit and grad",
        why=(
            "Tests run nearly everything eagerly, where a value can be inspected at any time; a leak of a traced value "
            "shows only when that one operation happens to be used inside a jitted cost function."
        ),
        files=["mrmustard/lab", "mrmustard/physics", "mrmustard/math"],
        mechanism=[("operations of components and states", "mrmustard/lab"),
                   ("ansatz algebra, Gaussian integrals, Fock utilities", "mrmustard/physics"),
                   ("the JAX backend", "mrmustard/math/backend_jax.py")],
        observe=["Optimizer.minimize", "jax.jit of a cost function", "jax.grad of a cost function"],
        technique="flow-sensitive, interprocedural kind inference (traced value / container of traced values / static) with sinks that need a concrete value",
        level_note=BASE_NOTE + "A value of unknown kind carries no verdict.",
    ),
    dict(
        id="P12",
        title="Mode numbers are only labels",
        statement=(
            "Renumbering the modes of a program without changing their order (0, 1, 2 to 3, 7, 20, say) changes its "
            "results only in the mode numbers they report. A mode number is never used as the index of an array, a "
            "shape or a list, nor an index or a constant as a mode number; no value, size or branch is computed from a "
            "mode number; and nothing depends on the order in which Python enumerates a set of modes. What an operation "
            "builds from a component lives on the modes of that component."
        ),
        over=["inputs", "programs"],
        forall="every component, sampler and circuit operation, every assignment of mode numbers",
        why=(
            "Tests mostly place components on modes 0, 1, 2, where a mode number and the position of its axis "
            "coincide, and small integers come out of a Python set in order; the confusion shows only on modes with gaps."
        ),
        files=["mrmustard/lab", "mrmustard/physics/wires.py", "mrmustard/physics/mm_einsum.py", "mrmustard/path"],
        mechanism=[("modes to indices: Wires.indices, Wires.sorted_wires, Wires.__getitem__", "mrmustard/physics/wires.py"),
                   ("use of modes in components, states, samplers and circuits", "mrmustard/lab")],
        observe=["any component on modes with gaps", "Circuit.contract", "Sampler.sample", "State.quadrature", "PhaseNoise"],
        technique="type inference of a label/position distinction for integers (interprocedural), with an order typestate for sets of modes",
        level_note=BASE_NOTE + "Decides that labels and positions are not mixed where their kind is known by name, "
        "annotation or flow; integers of unknown kind carry no verdict.",
    ),
    dict(
        id="P13",
        title="Results scale with hbar as their quantity requires",
        statement=(
            "Every function of the phase-space interface (Gaussian quantities, covariances and means to and from the "
            "Bargmann representation, X and Y of channels, quadrature eigenstates, oscillator eigenstates and quadrature "
            "distributions, Wigner functions, the phase-space form of an ansatz) returns quantities that scale with "
            "settings.HBAR as their kind requires: positions and means with hbar^(1/2), covariances and noise with hbar, "
            "wave functions and Wigner functions with the matching negative power, and photon numbers, purities, "
            "fidelities, entropies, symplectic matrices and Fock or Bargmann data not at all. Quantities that scale "
            "differently are never added, compared or passed for one another."
        ),
        over=["inputs"],
        forall="every value of settings.HBAR, every state and channel, every function that reads HBAR or takes phase-space data",
        why=(
            "With the default hbar = 1 every missing or extra factor of hbar is invisible; tests would have to repeat "
            "every computation for other values of hbar and compare across functions."
        ),
        files=["mrmustard/physics/gaussian.py", "mrmustard/physics/husimi.py", "mrmustard/physics/wigner.py",
               "mrmustard/physics/bargmann_utils.py", "mrmustard/physics/fock_utils.py", "mrmustard/physics/triples.py",
               "mrmustard/physics/ansatz/polyexp_ansatz.py"],
        mechanism=[("settings.HBAR in the phase-space formulas", "mrmustard/physics"),
                   ("PolyExpAnsatz.PS", "mrmustard/physics/ansatz/polyexp_ansatz.py")],
        observe=["gaussian.number_means/purity/fidelity", "State.phase_space", "Channel.XY", "State.wigner", "CircuitComponent.quadrature"],
        technique="unit (dimension) inference: exponents of hbar propagated through the arithmetic of each function, interprocedurally",
        level_note=BASE_NOTE + "Decides exponents of hbar only; factors of 2 and pi, signs and the formulas themselves "
        "are not decided. Exponents that depend on run-time sizes are fixed to two modes; where none can be derived "
        "there is no verdict.",
    ),
    dict(
        id="P14",
        title="Batched components behave as the batch of their elements",
        statement=(
            "Batch axes come first in every array that components, ansatze and triples are made of, and never meet core axes: "
            "parameters broadcast against the batch, and Bargmann and Fock representations, Gaussian integrals, contractions, "
            "products, norms, probabilities and conversions act on each element of the batch alone, for batches of any number "
            "of axes. A linear superposition is one extra, last batch axis: results that are numbers or Fock arrays sum over "
            "exactly that axis, contraction, reordering and conversion keep it marked as such, and the batch shape of a "
            "result no longer counts it once it is summed."
        ),
        over=["inputs"],
        forall="every batch shape (also of several axes), every number of modes, every superposition, every operation of components and ansatze",
        why=(
            "Axis mistakes are invisible without a batch, and with many batch sizes: when the batch has as many elements "
            "as the core axis has entries, or one, broadcasting silently gives numbers of the right shape."
        ),
        files=["mrmustard/physics/triples.py", "mrmustard/physics/gaussian_integrals.py", "mrmustard/physics/bargmann_utils.py",
               "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py",
               "mrmustard/lab/circuit_components.py", "mrmustard/lab/states", "mrmustard/lab/transformations"],
        mechanism=[("triples of the built-in components", "mrmustard/physics/triples.py"),
                   ("Gaussian integrals and joins over batches", "mrmustard/physics/gaussian_integrals.py"),
                   ("ansatz algebra with _lin_sup", "mrmustard/physics/ansatz/polyexp_ansatz.py")],
        observe=["Component(batch).ansatz.triple[i] == Component(batch[i]).ansatz.triple", "fock_array", "contract", "scalar", "to_fock", "to_bargmann"],
        technique="rank inference: arrays are typed by batch axes in front and a number of core axes, propagated flow-sensitively and interprocedurally, with rules for every operation that mixes, indexes, reduces or rearranges axes; provenance of ansatz data for the batch and superposition marks",
        level_note=BASE_NOTE + "Decides the discipline of axes only, not the formulas. Values whose rank is not known carry "
        "no verdict, nor does code that is special-cased on the batch. Decompositions of superpositions are outside.",
    ),
]

NOT_APPLICABLE = [
    dict(
        id="P50",
        title="Bargmann and Fock representations describe the same object",
        statement=(
            "Computing a quantity (amplitudes, contraction, trace, probability, equality) in the Fock representation "
            "and in the Bargmann representation gives the same numbers up to the truncation of the Fock space."
        ),
        over=["inputs"], forall="every component, every contraction, every cutoff",
        why="Tests compare the two for sampled states and cutoffs.",
        files=["mrmustard/lab/circuit_components.py", "mrmustard/physics/ansatz", "mrmustard/math/lattice"],
        mechanism=[("to_fock / to_bargmann and contraction", "mrmustard/lab/circuit_components.py")],
        observe=["CircuitComponent.fock_array", "CircuitComponent.__rshift__"],
        reason=(
            "Equality of a Gaussian integral with a sum over recurrence values is numerical: no dataflow, type or effect "
            "argument over the source bounds it. The structural parts (arguments, flags, wiring) are P06, P07, P10."
        ),
    ),
    dict(
        id="P51",
        title="All Fock recurrence strategies compute the same amplitudes",
        statement=(
            "The vanilla, stable, binomial, batched, diagonal and compact strategies of the Hermite recurrence return the "
            "same amplitudes for the same (A, b, c), within the tolerance of the precision they use."
        ),
        over=["inputs"], forall="every (A, b, c), every cutoff, every strategy",
        why="Tests compare strategies on random small triples.",
        files=["mrmustard/math/lattice"], mechanism=[("lattice strategies", "mrmustard/math/lattice/strategies")],
        observe=["hermite_renormalized*"],
        reason="The strategies walk index lattices whose extent is a run-time quantity; their agreement is a theorem about recurrences and rounding, out of reach of static analysis.",
    ),
    dict(
        id="P52",
        title="Channels keep trace and positivity",
        statement=(
            "Unitaries preserve norms, channels preserve trace and complete positivity, states built by the library are "
            "normalised and positive, and duals and inverses compose to the identity."
        ),
        over=["inputs"], forall="every gate and channel, every parameter value, every input state",
        why="Tests sample parameters.",
        files=["mrmustard/lab", "mrmustard/physics/triples.py"], mechanism=[("triples", "mrmustard/physics/triples.py")],
        observe=["Channel.is_physical", "State.probability"],
        reason="Positivity and normalisation are properties of computed matrices (spectra, determinants); static analysis of the source does not bound them.",
    ),
    dict(
        id="P53",
        title="Gradients equal the derivatives of what is computed",
        statement="The gradients used in training equal the derivatives of the forward values with respect to every trainable parameter.",
        over=["inputs"], forall="every differentiable operation, every input",
        why="Tests compare a few gradients with finite differences.",
        files=["mrmustard/math/jax_vjps", "mrmustard/math/lattice/strategies"],
        mechanism=[("vjp kernels", "mrmustard/math/lattice/strategies")], observe=["jax.grad of Fock amplitudes"],
        reason="The formulas inside the gradient kernels are numerical recurrences; only their wiring is structural (P18).",
    ),
    dict(
        id="P54",
        title="The contraction path does not change the result",
        statement="Contracting a circuit along any valid path gives the same component, and the optimizer of paths returns a valid path whose cost is minimal under its cost model.",
        over=["programs", "inputs"], forall="every circuit, every path",
        why="Tests contract a few circuits along a few paths.",
        files=["mrmustard/lab/circuits.py", "mrmustard/path"], mechanism=[("optimal_path", "mrmustard/path")],
        observe=["Circuit.contract", "Circuit.optimize"],
        reason="It quantifies over run-time graphs and the search of the branch-and-bound over them; associativity of the numerical contraction is not a property a static analysis decides.",
    ),
    dict(
        id="P55",
        title="Training converges and keeps parameters on their manifold",
        statement="Each optimizer step decreases the cost for a small enough rate, symplectic, orthogonal and unitary parameters stay on their manifold, and bounded parameters stay within their bounds.",
        over=["histories"], forall="every cost function, every number of steps",
        why="Tests run a few optimisations for a few steps.",
        files=["mrmustard/training"], mechanism=[("parameter updates", "mrmustard/training/parameter_update.py")],
        observe=["Optimizer.minimize"],
        reason="Convergence and manifold membership are numerical properties of iterates.",
    ),
    dict(
        id="P56",
        title="Samples follow the distribution of the state",
        statement="Samplers draw outcomes with the probabilities the state assigns to them, and report the probability of each drawn outcome.",
        over=["inputs", "schedules"], forall="every state and sampler",
        why="Tests compare histograms of a few states.",
        files=["mrmustard/lab/samplers.py"], mechanism=[("Sampler.sample", "mrmustard/lab/samplers.py")],
        observe=["Sampler.sample", "Sampler.sample_prob_dist"],
        reason="A statement about distributions of random draws; static analysis decides only which generator draws (P05) and which arguments are used (P06).",
    ),
]
