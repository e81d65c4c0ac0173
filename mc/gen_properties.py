"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and anchors stay in one place)."""
import json, os

P = []
OPT = ["pyswarms/single/global_best.py", "pyswarms/single/local_best.py",
       "pyswarms/single/general_optimizer.py", "pyswarms/discrete/binary.py"]
BASE = ["pyswarms/base/base_single.py", "pyswarms/base/base_discrete.py"]
TOP = ["pyswarms/backend/topology/%s.py" % t for t in
       ("base", "star", "ring", "von_neumann", "pyramid", "random")]
OPS = "pyswarms/backend/operators.py"
HND = "pyswarms/backend/handlers.py"
GEN = "pyswarms/backend/generators.py"


def add(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


add("C01", "optimize() returns the best evaluation made during that call",
    "For every optimizer and topology, the pair (cost, position) that optimize() returns is a minimum over all evaluations "
    "the objective function answered during that call: no evaluation of the call has a lower cost, and the objective returned "
    "exactly this cost for exactly this position. The optimizer's swarm.best_cost and the last entry of its cost_history are that same cost.",
    ["inputs", "histories", "configurations"],
    "every sequence of costs (ties, negative, huge, infinite, integer) the objective may answer with, every random draw, every optimizer, topology, boundary/velocity strategy, swarm size and number of iterations",
    "The tests run a few seeded optimisations and check that the cost is small or of the right type; they never compare the result with the log of all evaluations, and cannot range over cost orders, ties and coincident particles.",
    OPT + TOP + [OPS], [("compute_pbest", OPS), ("compute_gbest", "pyswarms/backend/topology/*.py"), ("final_best_pos", "optimize() of each optimizer")],
    ["objective_func calls", "optimize() return value", "optimizer.swarm", "cost_history"])

add("C02", "Personal bests are each particle's first strict best",
    "After every iteration each particle's personal best cost is the minimum of the costs that particle was given so far in the current optimize() call, "
    "and its personal best position is where it first reached that cost: a personal best is replaced only by a strictly lower cost. "
    "compute_pbest decides this per particle, independent of the other particles, and leaves its inputs unmodified.",
    ["inputs", "histories"],
    "every sequence of costs per particle including ties and infinities, every swarm size and dimension",
    "The tests call compute_pbest on two literal swarms; ties, infinities, mixed improvements across particles and long runs are not reached.",
    [OPS] + OPT, [("compute_pbest", OPS), ("pbest_cost initialised to inf", "optimize() of each optimizer")],
    ["optimizer.swarm.pbest_cost / pbest_pos", "compute_pbest return value"])

add("C03", "The recorded histories are a faithful, immutable log of the run",
    "cost_history, mean_pbest_history, mean_neighbor_history, pos_history and velocity_history hold exactly one entry per executed iteration, over all optimize() calls since construction or reset(). "
    "Entry t is the best cost so far in its call (hence non-increasing within a call), the mean of the personal best costs, the mean of the best costs the neighbourhoods reported, the positions evaluated in that iteration, and the velocities of that iteration (the difference to the previous positions where no bound interfered). "
    "An entry never changes once recorded, also when the caller overwrites the array of starting positions it passed in (which does not change the run either).",
    ["histories", "inputs", "configurations"],
    "every optimizer/handler configuration, every cost sequence, any number of iterations and optimize() calls",
    "The tests compare list lengths and shapes for one run; they cannot see aliasing between entries and the live swarm, or wrong contents.",
    OPT + BASE, [("_populate_history", "pyswarms/base/*.py"), ("positions and velocities are replaced, not updated in place", OPS)],
    ["*_history attributes", "objective_func arguments"])

add("C04", "The ftol/ftol_iter stopping rule is exact; without ftol nothing stops early",
    "optimize() stops after iteration i (counted from 0) if and only if i >= ftol_iter and in each of the last ftol_iter iterations the best cost changed by strictly less than ftol*(1+|previous best|); otherwise it runs exactly iters iterations. "
    "With the default ftol it never stops early, whatever the costs. The decision depends on the iterations of the current call only.",
    ["inputs", "histories", "configurations"],
    "every sequence of best costs, every ftol, ftol_iter and iters, every optimizer, repeated calls",
    "The tests check that a run with a big ftol is shorter than iters; exact thresholds, windows longer than the run, improvement patterns inside the window and negative costs are not reached.",
    OPT, [("ftol_history deque", "optimize() of each optimizer"), ("relative_measure", "optimize() of each optimizer")],
    ["number of objective_func calls", "len(cost_history)"])

add("C05", "With bounds, every evaluated position lies within the bounds",
    "When bounds are given, each coordinate of each position ever passed to the objective function, recorded in pos_history or returned lies within [lower, upper], exactly and not just up to rounding. "
    "This holds for all six boundary strategies with every velocity strategy, every optimizer and topology, and bounds given as arrays or lists.",
    ["inputs", "histories", "configurations"],
    "every random draw, velocity magnitude (up to many times the box width), asymmetric/negative/narrow boxes, start positions on the bounds, any number of iterations and repeated calls; lower < upper in every dimension",
    "The tests apply each handler to one small literal swarm or check one seeded run; histories of a stateful handler (memory), corner starts, rounding and multi-bound excursions are not reached.",
    [HND, OPS, GEN] + OPT, [("BoundaryHandler strategies", HND), ("compute_position", OPS), ("handler memory populated at the start of optimize()", "optimize()")],
    ["objective_func arguments", "pos_history"])

add("C06", "With a velocity clamp, every velocity stays within the clamp",
    "When a velocity clamp (scalars or one value per dimension) is given, every velocity of the initial swarm, of velocity_history and of the final swarm lies within [min, max] of the clamp. "
    "This holds for all four velocity strategies, all boundary strategies and all optimizers, and for a velocity handler called on its own, from its first call on.",
    ["inputs", "histories", "configurations"],
    "every random draw, coefficients far larger than the clamp, asymmetric and per-dimension clamps containing zero, any number of iterations",
    "The tests clamp one literal velocity matrix; strategy x clamp combinations inside a running optimizer and per-dimension clamps are not reached.",
    [HND, OPS, GEN] + OPT, [("__apply_clamp", HND), ("generate_velocity", GEN)],
    ["velocity_history", "swarm.velocity", "VelocityHandler.__call__"])

add("C07", "Each step follows the PSO update law with independent random factors",
    "For in-bounds particles each iteration computes v' = w*v + c1*r1*(pbest - x) + c2*r2*(best - x), clamps it, and moves to x' = x + v' before boundary handling, with x, v, personal best and (neighbourhood) best taken from the current iteration. "
    "r1 and r2 are separate uniform draws from [0,1) for every particle and dimension: every combination of draws is reachable and no draw is shared. "
    "The swarm passed to the velocity and position operators is not modified by them.",
    ["inputs", "histories", "configurations"],
    "all draws from a finite alphabet for every matrix element, all coefficients, swarm sizes and dimensions, all optimizers",
    "The tests check shapes and clamping of the velocity only; no test fixes the random draws, so neither the formula nor the independence of the draws is decided.",
    [OPS] + OPT, [("compute_velocity", OPS), ("compute_position", OPS)],
    ["velocity_history", "pos_history", "compute_velocity / compute_position return values"])

add("C08", "Objective protocol: one whole-swarm call per iteration; errors propagate",
    "In serial mode the objective is called exactly once per executed iteration with the (n_particles, dimensions) array of current positions and exactly the keyword arguments given to optimize(), the same on every call. "
    "An exception raised by the objective at any iteration propagates unchanged out of optimize(), the histories then hold exactly the completed iterations, and the optimizer stays usable: a later reset() and optimize() behaves like on an optimizer that never failed.",
    ["fault_sequences", "histories", "configurations"],
    "an exception at every possible evaluation, of several exception types, before any sequence of later operations; all optimizers, kwargs sets and iteration counts",
    "The tests pass kwargs to one run and check that a missing kwarg raises; failures in the middle of a run and what remains afterwards are not exercised.",
    [OPS] + OPT, [("compute_objective_function", OPS), ("kwargs forwarding", "optimize()")],
    ["objective_func calls", "exceptions out of optimize()"])

add("C09", "Parallel evaluation gives the same run as serial evaluation",
    "optimize() with n_processes gives exactly the evaluated positions, costs, histories and result of the serial run, whatever the number of workers (also more workers than particles), the order in which workers finish, and the kwargs. "
    "Each particle is evaluated exactly once per iteration in a non-empty chunk, an exception in a worker propagates, and the worker pool is closed when optimize() returns. The 3-D history and mesh helpers give the same values with and without workers.",
    ["schedules", "inputs", "configurations", "fault_sequences"],
    "all completion orders of the chunks, all worker counts from 1 to beyond the swarm size, all swarm sizes in the bound, worker exceptions at every chunk",
    "The tests compare nothing between serial and parallel runs and cannot control which worker finishes first.",
    [OPS] + OPT + ["pyswarms/utils/plotters/formatters.py", "pyswarms/utils/plotters/plotters.py"],
    [("pool.map over array_split", OPS), ("mp.Pool / pool.close", "optimize()")],
    ["objective_func calls in the workers", "optimize() return value", "pool life cycle"])

add("C10", "reset() makes an optimizer equivalent to a freshly constructed one",
    "After any history of optimize() calls (complete, stopped early or failed), reset() empties all histories and best values and re-creates the swarm as construction does, so that with the same random numbers every later optimize() evaluates the same positions and returns the same result as on a new optimizer with the same arguments. "
    "This includes the neighbourhoods of static topologies.",
    ["histories", "configurations"],
    "all operation sequences up to a depth over {optimize with different objectives and lengths, failing optimize, reset}, all optimizers, topologies, handlers",
    "The tests check that best_cost is inf after one reset; state surviving in handlers, topologies, options or histories is not observed.",
    BASE + OPT + TOP, [("reset", "pyswarms/base/*.py"), ("handler memory re-populated in optimize()", "optimize()")],
    ["objective_func arguments after reset()", "optimize() return value", "histories"])

add("C11", "Caller-owned inputs are never modified and optimizers never interfere",
    "No operation modifies objects the caller passed in: options, bounds, init_pos, clamp, center, objective keyword arguments, cost arrays returned by the objective. "
    "What one optimizer computes does not depend on other optimizers existing or running, in any interleaving of their iterations, even when they share these inputs; nor on when threads running two of them are preempted.",
    ["histories", "schedules", "inputs", "configurations"],
    "all sequences and interleavings of operations on two optimizers up to a bound, all handler strategies, shared input objects",
    "The tests build one optimizer at a time and never look at their inputs again; aliasing only shows after particular operations or with two live optimizers.",
    BASE + OPT + [HND, GEN, OPS, "pyswarms/backend/swarms.py"] + TOP, [("copies in operators and handlers", OPS), ("per-instance handlers and topologies", "optimizer constructors")],
    ["input objects after each operation", "objective_func arguments of both optimizers"])

add("C12", "A further optimize() call continues the swarm where the last call left it",
    "A second optimize() without reset() evaluates first the positions the swarm had moved to at the end of the previous call (the last evaluated ones if that call stopped early), with its velocities, and appends to the histories. "
    "Its best cost, personal best costs and result are those of the second call only, even if the first call had found lower costs or used another objective.",
    ["histories", "configurations"],
    "all sequences of up to three optimize() calls with objectives answering better, worse or equal costs, early stops and different lengths; all optimizers and topologies",
    "No test calls optimize() twice on one instance with different objectives and inspects the result.",
    OPT + BASE, [("pbest_cost and best_cost re-initialised per call", "optimize()")],
    ["objective_func arguments", "optimize() return value", "histories"])

add("C13", "Runs are reproducible from numpy's seed and independent of verbosity",
    "With numpy's global generator seeded identically before construction, the same program gives bit-identical evaluations, histories and results: no other source of nondeterminism is used. "
    "The verbose flag changes neither the random stream nor any result, and with verbose=False optimize() writes nothing to stdout or stderr.",
    ["inputs", "histories", "configurations"],
    "all seeds of a finite set x all optimizers, topologies and handlers x operation sequences, verbose on/off",
    "One test captures the output of one verbose/non-verbose run; equality of results across verbosity or repetition is not compared.",
    OPT + [GEN, OPS, HND, "pyswarms/utils/reporter/reporter.py"] + TOP, [("np.random.* global generator only", GEN), ("rep.pbar only if verbose", "optimize()")],
    ["objective_func arguments", "optimize() return value", "stdout/stderr"])

add("C14", "BinaryPSO positions are independent Bernoulli(sigmoid(v)) bits",
    "Every position BinaryPSO evaluates, records or returns consists of the integers 0 and 1 only; those it computes are integers wide enough (32 bits or more) to do arithmetic with. "
    "In each step bit j of particle i becomes 1 exactly when a draw from [0,1) that belongs to this particle and dimension alone is below 1/(1+exp(-v_ij)) of the updated velocity; every combination of bits with probabilities strictly between 0 and 1 is reachable.",
    ["inputs", "histories"],
    "all draws from a finite alphabet for every bit, velocities from very negative to very positive, all swarm sizes in the bound",
    "The tests check that positions are binary after one run and never control a draw; shared draws and a wrong sigmoid are invisible to them.",
    ["pyswarms/discrete/binary.py", GEN, "pyswarms/base/base_discrete.py"], [("_compute_position", "pyswarms/discrete/binary.py"), ("_sigmoid", "pyswarms/discrete/binary.py")],
    ["objective_func arguments", "pos_history", "velocity_history"])

add("C15", "Option schedules follow their formula and are applied in every iteration",
    "For each option (w, c1, c2) with a strategy, the value used in iteration i of n is the documented exp_decay, lin_variation, nonlin_mod or random formula applied to the options given at construction (never to already varied ones) with iternow=i and itermax=n; options without a strategy stay constant. "
    "OptionsHandler returns new options without modifying its input and honours end_opts and the strategy's parameters.",
    ["inputs", "histories", "configurations"],
    "all strategy assignments to the three options, all iterations of runs of several lengths, start/end values on a grid, repeated calls",
    "The tests check one call per strategy on literal values (most compare with themselves); per-iteration use inside the optimizers is not checked.",
    [HND] + OPT[:3], [("OptionsHandler", HND), ("options update per iteration", "optimize()")],
    ["swarm.options during each evaluation", "velocity_history", "OptionsHandler return value"])

add("C16", "Ring: each particle's best is the best personal best of its k nearest",
    "With the ring topology every particle is guided by the particle with the lowest personal best cost among its k nearest particles in the L1 or L2 norm, itself included; ties in distance may be broken arbitrarily, the particle itself always belongs. "
    "With k=1 each particle follows its own personal best. The reported best cost is the lowest personal best cost of the swarm.",
    ["inputs", "histories"],
    "all point configurations on a small lattice (with coincident and collinear points), all orders of personal best costs, all k and both norms; repeated calls on one static or dynamic topology",
    "The tests evaluate one literal swarm; ties, coincident particles and repeated calls are not reached.",
    ["pyswarms/backend/topology/ring.py", "pyswarms/single/local_best.py", "pyswarms/discrete/binary.py"], [("cKDTree query", "pyswarms/backend/topology/ring.py"), ("k==1 case", "pyswarms/backend/topology/ring.py")],
    ["compute_gbest return value"])

add("C17", "Von Neumann: range-r neighbourhood sized by the Delannoy number",
    "VonNeumann.delannoy(d, r) is the Delannoy number D(d, r) for all d, r >= 0. "
    "compute_gbest of the Von Neumann topology gives every particle the best personal best among its D(d, r) nearest particles (itself included) and keeps the neighbourhoods of its first call.",
    ["inputs", "histories"],
    "all d and r up to a bound against a closed form, all small point configurations and cost orders, repeated calls with moved particles",
    "The tests check a handful of Delannoy numbers and one literal swarm.",
    ["pyswarms/backend/topology/von_neumann.py", "pyswarms/backend/topology/ring.py"], [("delannoy recursion", "pyswarms/backend/topology/von_neumann.py")],
    ["delannoy()", "compute_gbest return value"])

add("C18", "Random topology: connected, symmetric graph with k drawn neighbours each",
    "For every outcome of the random draws the neighbourhood graph of the random topology is symmetric, contains every particle as its own neighbour, is connected, and links every particle to at least k distinct others, each of the other particles being equally eligible. "
    "Every particle is guided by the lowest personal best cost in its neighbourhood, and the reported best cost is the lowest personal best cost of the swarm.",
    ["inputs", "histories"],
    "every outcome of the neighbour draws for small swarms and every k, all winner positions; static and dynamic use",
    "The tests draw one random graph and check the shape of the result.",
    ["pyswarms/backend/topology/random.py"], [("__compute_neighbors", "pyswarms/backend/topology/random.py")],
    ["compute_gbest return value"])

add("C19", "Pyramid: neighbours are exactly the Delaunay-adjacent particles",
    "With the pyramid topology each particle is guided by the lowest personal best cost among the other particles that share a simplex with it in the Delaunay triangulation of the positions, whatever the scale and location of the swarm; swarms too small to triangulate are fully connected. "
    "The reported best cost is the lowest personal best cost of the swarm, also for degenerate (collinear, coincident) swarms.",
    ["inputs", "histories"],
    "all point sets in general position on a small lattice against an exact in-circle test, all winner positions, degenerate sets for the best-cost part",
    "The tests evaluate one literal swarm (and failed to run at all with current numpy before the repair).",
    ["pyswarms/backend/topology/pyramid.py"], [("Delaunay vertex_neighbor_vertices", "pyswarms/backend/topology/pyramid.py")],
    ["compute_gbest return value"])

add("C20", "Star: one global best that only ever improves",
    "The star topology returns the lowest personal best cost and a personal best position having it whenever that cost is strictly below the swarm's current best, and the swarm's current best unchanged otherwise; if there is no best position yet it returns one. "
    "All particles are guided by this one position.",
    ["inputs", "histories"],
    "all orders of personal best costs and current bests including ties and infinities; sequences of calls",
    "The tests evaluate one literal swarm.",
    ["pyswarms/backend/topology/star.py", "pyswarms/single/global_best.py"], [("compute_gbest", "pyswarms/backend/topology/star.py")],
    ["compute_gbest return value"])

add("C21", "Static topologies keep their neighbourhoods; dynamic ones follow the swarm",
    "A static ring, pyramid, random or Von Neumann topology computes the neighbourhoods once, from the first swarm it sees, and keeps them for all later iterations however the particles move. "
    "A dynamic one computes them from the current positions (or fresh draws) in every iteration. In both cases the current personal bests are used.",
    ["histories", "configurations"],
    "all sequences of point configurations up to a length, all topologies static and dynamic, on their own and inside the optimizers",
    "The tests check that a neighbour array is kept for one literal swarm; movement between calls is not explored.",
    TOP + OPT[1:], [("static flag and neighbor_idx", "pyswarms/backend/topology/*.py")],
    ["compute_gbest return value over a sequence of calls"])

add("C22", "Each boundary strategy applies its documented repair, and only where needed",
    "nearest, reflective, periodic, intermediate, shrink and random each map out-of-bounds positions as documented (clip; repeated mirroring; wrap-around; midpoint of previous coordinate and bound; shortened step ending on the bound; uniform redraw of the particle, each particle its own) and return particles that are in bounds unchanged. "
    "The result always lies in bounds, given a previous position for the two strategies that use one. An unknown strategy raises KeyError.",
    ["inputs", "histories", "configurations"],
    "all positions on a lattice reaching several box widths out on both sides in every combination of dimensions, boxes of several shapes, all previous positions, all draws; sequences of calls on one handler",
    "The tests apply each strategy to one literal swarm; combinations of dimensions out on different sides, far excursions and handler memory over several calls are not reached.",
    [HND, OPS], [("BoundaryHandler", HND)], ["BoundaryHandler.__call__"])

add("C23", "Each velocity strategy applies its documented rule, then the clamp",
    "unmodified returns the velocity, adjust the difference between the given and the previously given position, invert -z times the velocity (z=0.5 unless given) of particles that are out of bounds in any dimension, zero the zero vector for these; other particles keep their velocity. "
    "A clamp is applied to the result elementwise; an unknown strategy, or a missing position or bounds a strategy needs, raises KeyError.",
    ["inputs", "histories", "configurations"],
    "all velocity/position lattice combinations including particles out on both sides at once, all clamps, z values, sequences of calls on one handler",
    "The tests apply each strategy to one literal swarm; particles out in several dimensions and sequences of calls are not reached.",
    [HND], [("VelocityHandler", HND)], ["VelocityHandler.__call__"])

add("C24", "Swarm generation respects shape, bounds, clamp and init_pos",
    "generate_swarm, generate_discrete_swarm, generate_velocity and create_swarm return (n_particles, dimensions) arrays: uniform on [0,1) times center, within the bounds if given, equal to init_pos if given, velocities within the clamp ([0,1) without one), a permutation of 0..dimensions-1 per row for discrete swarms and 0/1 for binary ones, every element from its own draw. "
    "A continuous init_pos with the wrong shape or out of bounds, and a binary one with more than two distinct values, raises ValueError.",
    ["inputs", "configurations"],
    "all draws from a finite alphabet per element, all small shapes, boxes, clamps, centers, init_pos on, inside and outside each bound",
    "The tests sample a few seeded swarms and one bad init_pos; element-wise reachability and every side/dimension of the checks are not reached.",
    [GEN, "pyswarms/backend/swarms.py"] + BASE, [("generate_swarm", GEN), ("generate_discrete_swarm", GEN), ("generate_velocity", GEN), ("create_swarm", GEN)],
    ["return values and exceptions"])

add("C25", "@cost evaluates the function once per particle, in order",
    "The decorated function returns an array of shape (n_particles,) whose i-th entry is the user function's value for row i, for any number of particles and dimensions, passing the keyword arguments through; the user function is called exactly once per row in order when all values are scalars. "
    "A non-scalar return value raises ValueError and exceptions of the user function propagate. Optimizing with it is the same as optimizing with the equivalent vectorised function.",
    ["inputs", "fault_sequences"],
    "all swarm shapes in the bound, all assignments of return values from an alphabet, failure or non-scalar value at each row",
    "The tests decorate two functions and check one shape.",
    ["pyswarms/utils/decorators/decorators.py"], [("cost", "pyswarms/utils/decorators/decorators.py")], ["decorated function"])

add("C26", "GridSearch tries every combination once and reports the best",
    "The grid consists of every element of the cartesian product of the option values (scalars count as single values), each exactly once. "
    "search() runs the optimizer class once per combination with the given particles, dimensions, bounds, clamp, objective and iterations, and returns the minimum score (the maximum with maximum=True) together with the options that produced it, also stored as best_score and best_options.",
    ["inputs", "configurations"],
    "all option dictionaries over small value lists, all assignments of scores (with ties) to combinations, minimum and maximum",
    "The tests run one real search with fixed options; which combination wins is never varied.",
    ["pyswarms/utils/search/grid_search.py", "pyswarms/utils/search/base_search.py"], [("generate_grid", "pyswarms/utils/search/grid_search.py"), ("search", "pyswarms/utils/search/base_search.py")],
    ["generate_grid()", "search() return value", "optimizer constructor and optimize() arguments"])

add("C27", "RandomSearch draws options in range and reports the best",
    "The grid has exactly n_selection_iters entries; in each, c1, c2 and w lie within their given ranges, k is an integer with low <= k < high, p is the given constant, and every entry and option has its own draw. "
    "search() returns the minimum (or maximum) score over exactly these entries together with the options that produced it. A non-integer n_selection_iters raises TypeError.",
    ["inputs", "configurations"],
    "all draws from a finite alphabet for every option and entry, all score assignments with ties",
    "The tests check ranges for one seeded draw.",
    ["pyswarms/utils/search/random_search.py", "pyswarms/utils/search/base_search.py"], [("generate_grid", "pyswarms/utils/search/random_search.py"), ("search", "pyswarms/utils/search/base_search.py")],
    ["generate_grid()", "search() return value"])

add("C28", "Benchmark functions: formula, minimum, domain and row independence",
    "Each function in single_obj returns one cost per row equal to its closed-form formula for that row alone, whatever the other rows, their number or order, has its documented minimum value at its documented minimisers and nothing lower on the grid, and leaves its input unmodified. "
    "A row with any coordinate outside the documented domain raises ValueError, the closed domain boundary is accepted, and two-dimensional functions reject other dimensions with IndexError.",
    ["inputs"],
    "all points of a lattice over each domain including its boundary and points just outside in every coordinate and row, batches of all small sizes and orders",
    "The tests evaluate minimisers and a few random inputs; row mixing, single-coordinate domain violations in later rows and boundary points are not enumerated.",
    ["pyswarms/utils/functions/single_obj.py"], [("objective functions", "pyswarms/utils/functions/single_obj.py")], ["function return values and exceptions"])

add("C29", "Plot data shows the recorded run",
    "Mesher.compute_history_3d returns for every iteration and particle its two coordinates and the function's value there. "
    "The contour and surface animations have one frame per recorded iteration, and frame i draws exactly the particles' positions of iteration i, for frames drawn in any order; the mesh under the animation is the function on the grid of the given limits and delta, and plot_cost_history draws cost t at iteration t. "
    "The figure has the size, fonts, labels, legend, limits and colours its designer asks for, and the animation advances and repeats as its animator asks.",
    ["inputs", "histories"],
    "all small history shapes and contents from an alphabet, all orders of drawing frames, mesh limits and deltas",
    "The tests check return types only.",
    ["pyswarms/utils/plotters/plotters.py", "pyswarms/utils/plotters/formatters.py"], [("compute_history_3d", "pyswarms/utils/plotters/formatters.py"), ("_animate / _mesh", "pyswarms/utils/plotters/plotters.py")],
    ["matplotlib artists", "compute_history_3d()"])

add("C30", "Reporter emits each message once at its level and prints above threshold",
    "Reporter.log emits its message exactly once at exactly the given level, however many reporters exist, and the default configuration writes records of level INFO and above, and no others, to the report file of the last reporter. "
    "Reporter.print prints its message if and only if verbosity is greater than threshold, and pbar yields exactly 0..iters-1 in order, with any interleaving of hook() calls. A verbose optimize() reports its start and its result (best cost and position) once each at level INFO, a silent one reports nothing at INFO or above.",
    ["inputs", "histories", "configurations"],
    "all sequences of reporter creations and log calls at all levels up to a depth, all small verbosity/threshold pairs, all hook interleavings, all optimizers",
    "There are no tests of the reporter; duplicated handlers only show after several reporters exist.",
    ["pyswarms/utils/reporter/reporter.py"], [("log/print/pbar/hook", "pyswarms/utils/reporter/reporter.py"), ("_setup_logger", "pyswarms/utils/reporter/reporter.py")],
    ["log records", "report file", "stdout"])

add("C31", "Optimizers converge to good optima on the benchmark functions",
    "With the customary coefficients a swarm of reasonable size finds a point close to the global minimum of the smooth benchmark functions with high probability, and more iterations do not make the expected result worse.",
    ["inputs", "configurations"],
    "the distribution of the random number generator, all benchmark functions and coefficient settings",
    "The tests check for one seed that the cost on the sphere function is below a tolerance.",
    OPT, [("the update law as a whole", OPS)], ["optimize() return value"])

add("C32", "Malformed requests raise instead of running; well-formed ones run",
    "A starting position matrix of the wrong shape or with any coordinate outside the bounds, a binary starting matrix with more than two values, bounds that are not two arrays of length dimensions, a velocity clamp without exactly two entries, an n_particles or dimensions that is no integer, an ftol_iter that is not a positive int, a missing option, an unknown strategy name, a topology that is no Topology object, "
    "an object that is no Swarm given to an operator or topology, a Swarm or formatter attribute of the wrong type, a search with an optimizer without optimize() or a non-integer n_selection_iters, and a subclass missing an abstract method are rejected with an exception (of the documented type, where one is documented) at the latest when first used; the closest well-formed request is accepted, starting positions exactly on a bound included. "
    "A rejected request leaves nothing behind: what runs after it behaves as without it. Every name a module offers exists.",
    ["inputs", "configurations", "histories"],
    "every single malformed argument in every position x optimizers, generators, sizes and surrounding configurations, every coordinate just outside or on each bound, all short sequences of rejected requests before a run",
    "The tests try one malformed value for some arguments; each element, side, optimizer and combination with other arguments, and what a rejected request leaves behind, are not tried.",
    [GEN, HND, OPS, "pyswarms/backend/swarms.py", "pyswarms/utils/search/random_search.py", "pyswarms/utils/search/base_search.py", "pyswarms/utils/plotters/formatters.py"] + BASE + OPT + TOP,
    [("checks of init_pos and bounds", GEN), ("ftol_iter assertion", "pyswarms/base/*.py"), ("strategy lookup", HND), ("attribute validators", "pyswarms/backend/swarms.py"), ("assertions", "pyswarms/utils/search/*.py")],
    ["exceptions of constructors, optimize(), operators and generators"])

add("C33", "Equivalent ways to set up and run a swarm give the same run",
    "With the same random draws, GlobalBestPSO runs exactly as GeneralOptimizerPSO with a Star topology, LocalBestPSO as GeneralOptimizerPSO with a Ring of the same staticness, and every continuous optimizer as the loop written with the backend (create_swarm, compute_objective_function, compute_pbest, the topology's compute_gbest/compute_velocity/compute_position and the handlers), as in the tutorials: the same evaluated positions, best costs, results and final swarm, over one or several calls. "
    "So do two spellings of one configuration: bounds and clamps as arrays, tuples or lists, clamps as numbers or per-dimension arrays, Python or numpy integers or floats, read-only or strided arrays, options the optimizer does not know beside those it does, arguments by position or keyword, defaults left out or stated.",
    ["inputs", "configurations", "histories"],
    "all draw sequences and cost orders in small runs, all configurations in the bound, sequences of calls, all single and pairs of spellings",
    "Every optimizer is tested on its own; no test compares two of them or with a loop of the backend.",
    OPT + TOP + [OPS, GEN, HND, "pyswarms/backend/swarms.py"], [("optimize()", "pyswarms/single/*.py"), ("create_swarm", GEN), ("compute_velocity / compute_position defaults", "pyswarms/backend/topology/*.py")],
    ["objective_func calls", "optimize() return value", "optimizer.swarm", "cost_history"])

add("C34", "Only the order of the costs matters",
    "Without a stopping rule, an objective and any strictly increasing recoding of it give the same search under the same draws: the same evaluated positions, final positions, velocities and personal best positions, the same returned position, and the recoded best costs and personal best costs, "
    "whatever the size, sign, spacing and number type of the costs: neighbouring floats, 1e-300 to 1.7e308, infinite costs, integers, booleans, single or extended precision. This holds for every optimizer, in every configuration of bounds, strategies, clamps and schedules and over several calls.",
    ["inputs", "configurations"],
    "all orders of the costs of small searches and real functions in larger ones, times all recodings, optimizers and configurations",
    "The tests use a few benchmark functions with ordinary positive costs; a tolerance, a rounding, an absolute value or a cast in a comparison of costs passes them.",
    [OPS] + OPT + TOP, [("compute_pbest mask", OPS), ("argmin of costs", "pyswarms/backend/topology/*.py"), ("best_cost", "pyswarms/single/*.py")],
    ["objective_func calls", "optimize() return value", "cost_history", "optimizer.swarm"])

add("C35", "No scale, direction, origin, coordinate or particle is special",
    "A search in a transformed space is the transformed search. Given the corresponding draws and starting state, the whole run (evaluated positions, costs, velocities, personal bests, result) corresponds exactly when the space, bounds and clamps are scaled by a power of two, "
    "when axes are mirrored, when the coordinates are reordered, when the particles are reordered (ties apart), and when the origin is moved by an exactly representable amount; so no absolute tolerance, special zero, sign, first coordinate or first particle enters the update, the boundary and velocity strategies (the random strategy is compared under scaling and shifts), the clamps or the neighbourhoods.",
    ["inputs", "configurations"],
    "every optimizer x boundary and velocity strategy x clamp x schedule in the bound, times every transformation: scales 2^-300 to 2^300, all mirrorings in the bound, permutations, shifts",
    "The tests compare nothing between two runs; every example lives near the origin, at scale one, with interchangeable coordinates.",
    [OPS, HND, GEN] + TOP + OPT, [("update law", OPS), ("strategies", HND), ("neighbourhoods", "pyswarms/backend/topology/*.py")],
    ["objective_func calls", "optimize() return value", "optimizer.swarm"])

add("C36", "The library leaves the process as it found it and keeps nothing alive",
    "Creating, running (quietly or verbosely, serially or on a pool, to the end or into an exception), resetting and dropping optimizers, searches, backend calls, benchmark functions and plots leave the process-wide state alone: numpy's error handling and print options, warning filters, working directory, environment, standard streams, hooks, import path, signal handlers, threads, child processes, open files, locale, matplotlib's settings, an application's own loggers, other files, "
    "and the state of random generators not in use. The objective runs in the caller's thread (without n_processes) and sees that same state. Worker processes end after the run. Optimizers, swarms, topologies and objectives can be garbage collected once the program drops them. (The log configuration of the root logger and report.log are installed by design, and do not pile up.)",
    ["histories", "configurations"],
    "all operation sequences up to the depth, all pairs with the logging configuration in place, process state compared after every operation and inside the objective",
    "No test looks at the process around the library.",
    ["pyswarms/utils/reporter/reporter.py", "pyswarms/utils/search/base_search.py", "pyswarms/utils/plotters/plotters.py", "pyswarms/utils/plotters/formatters.py", GEN, OPS, HND] + BASE + OPT + TOP, [("optimize()", "pyswarms/single/*.py"), ("logging configuration", "pyswarms/utils/reporter/reporter.py")],
    ["process state after each call", "optimizers after they are dropped"])

add("C37", "What is left out means its documented default; position and keyword agree",
    "Every optional argument of the optimizers, their base classes, optimize(), the swarm generators, Swarm, the topologies' methods, the operators, the handlers, the searches, the formatters and the plot functions may be left out, and doing so is the same as giving its documented default "
    "(no bounds, periodic boundaries, unmodified velocities, no clamp, centre 1, no stopping rule, one iteration of patience, dynamic neighbourhoods, ...), whichever other arguments are given. "
    "Arguments given by position, in the documented order, mean the same as by keyword, however many are given either way. Defaults are not shared: using one object does not change the defaults of the next.",
    ["inputs", "configurations"],
    "all subsets of optional arguments, all splits into positional and keyword arguments, with none, one or some of the others set",
    "The tests give nearly always the same few arguments, by keyword; a changed default or order shows only in what a caller who left it out gets.",
    [GEN, OPS, HND, "pyswarms/backend/swarms.py", "pyswarms/utils/search/base_search.py", "pyswarms/utils/plotters/plotters.py", "pyswarms/utils/plotters/formatters.py"] + BASE + OPT + TOP,
    [("constructors", "pyswarms/single/*.py"), ("create_swarm", GEN), ("default handlers", "pyswarms/backend/topology/*.py")],
    ["objective_func calls", "optimize() return value", "optimizer.swarm", "matplotlib artists"])

add("C38", "User-defined topologies, strategies and optimizers plug in as documented",
    "The library serves as the documented environment for code written against it. A Topology subclass given to GeneralOptimizerPSO is asked, in every iteration, for the best, the velocity and the position, in that order and once each; "
    "it gets the whole swarm in its true state, the optimizer's options as keywords, the bounds, clamp and handlers; its answers, whatever they are, are used as they stand: stored, reported, recorded in the histories and evaluated next. "
    "Anything that is not a Topology is rejected. Methods added to a subclass of a handler become strategies that can be selected by name and get all arguments through. "
    "Optimizers written from the base classes get a swarm, histories and reset() that follow the configuration; any class with optimize() can be searched over, and gets exactly the combination, bounds and clamp of the search.",
    ["histories", "inputs", "configurations"],
    "all sequences of answers of an arbitrary topology up to a number of iterations, all settings; custom strategies of every handler, custom optimizers in both searches and on both base classes",
    "The tests use only the library's own topologies and optimizers, whose answers are all of one kind.",
    ["pyswarms/single/general_optimizer.py", HND, "pyswarms/utils/search/base_search.py"] + BASE + TOP,
    [("GeneralOptimizerPSO.optimize", "pyswarms/single/general_optimizer.py"), ("HandlerMixin._get_all_strategies", HND), ("SearchBase.generate_score", "pyswarms/utils/search/base_search.py")],
    ["calls received by the user's methods", "objective_func calls", "optimizer histories", "optimize() return value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
