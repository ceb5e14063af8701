import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=s,meaning=s,where=files[0]) for s in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
TP=["altro/common/threadpool.hpp","altro/common/threadpool.cpp"]
Q=["altro/common/threadsafe_queue.hpp"]
IL=["altro/ilqr/ilqr.hpp"]
KF=["altro/ilqr/knot_point_function_type.hpp"]
AS=["altro/augmented_lagrangian/al_solver.hpp"]
AC=["altro/augmented_lagrangian/al_cost.hpp"]
CV=["altro/constraints/constraint_values.hpp"]
p("P01","Every submitted task runs exactly once and waiting is a barrier",
"Every task submitted to a running thread pool is executed exactly once, by one worker, however tasks, workers and the submitting thread interleave. When the wait call returns (no task having exceeded its time limit), every task submitted before it has completely finished and its effects are visible to the waiting thread. With no time limit exceeded, a wait never blocks forever and never reports a time-out. A wait gives up only on tasks that exceed their time limit; it still waits for all the others. A task that ends with an exception is reported: the wait passes on one such exception after every other task has finished, and the pool stays usable.",
["schedules","histories"],"every interleaving of the submitting thread and the workers, every number of workers and tasks, every sequence of add / launch / wait rounds, including tasks that throw",
"The losing interleaving (a worker between the emptiness check and the pop, a wait that returns between a pop and the end of a task) is one schedule in thousands; a test observes whichever schedule the OS happens to run.",
TP+Q,["task queue","futures of submitted tasks","running flag"],
[("worker loop pops and runs","altro/common/threadpool.cpp: WorkerThread"),("barrier over futures","altro/common/threadpool.cpp: Wait"),("enqueue","altro/common/threadpool.hpp: AddTask")],
["task side effects","return of Wait","NumTasks"])
p("P02","The task queue is a linearizable first-in first-out queue",
"Under any concurrent use by pushing and popping threads, every pushed element is popped at most once, none is lost or invented, and the results of all operations are explained by one sequential first-in first-out order consistent with real time. The reported size never exceeds the number of elements pushed and not yet popped by operations that have started, is never negative or wrapped around, and is exact when no operation is in progress; clearing empties the queue and moving a queue transfers exactly its contents, in order. No operation deadlocks or races on memory.",
["schedules","histories"],"every interleaving of pushes, pops, size and emptiness queries by several threads and every sequence of push, pop, clear, move and query operations",
"Tests push and pop a few elements on one or two threads; a two-lock queue breaks only in the one-element and empty boundary states under particular interleavings.",
Q,["head and tail pointers","element counter"],
[("two-lock linked list","altro/common/threadsafe_queue.hpp: Push/TryPop"),("dummy node and emptiness test","altro/common/threadsafe_queue.hpp: GetTail/IsEmpty"),("element count","altro/common/threadsafe_queue.hpp: Size"),("clear and move","altro/common/threadsafe_queue.hpp: Clear, move operations")],
["TryPop results","Size","IsEmpty"])
p("P03","A pool can be stopped, relaunched, moved and destroyed safely at any time",
"Any sequence of launching, adding tasks, waiting, stopping, relaunching, moving and destroying a pool completes without deadlock, crash, data race or leaked thread, whatever the workers are doing at that moment; once a stop or the destruction returns no worker is running any task, and a worker that is busy when the stop begins finishes that task but starts no other. Tasks that had not started when the pool was stopped stay queued and run exactly once after a relaunch, also when the stopped pool was moved in between. If a thread cannot be created, launching reports the failure by an exception and leaves the pool stopped and usable.",
["schedules","histories","fault_sequences"],"every sequence of pool operations up to a bound, every interleaving with the workers, every position at which thread creation fails",
"Tests run one launch/stop sequence under one schedule; thread-creation failure and stopping in the middle of a pop never occur in them.",
TP+Q,["running flag","worker threads","queued tasks"],
[("launch and failure path","altro/common/threadpool.cpp: LaunchThreads"),("stop and join","altro/common/threadpool.cpp: StopThreads"),("move","altro/common/threadpool.cpp: move constructor/assignment"),("destructor","altro/common/threadpool.hpp: ~ThreadPool")],
["IsRunning","NumThreads","NumTasks","task side effects"])
p("P04","Multi-threaded solves give the single-threaded result on every schedule",
"For every number of threads, number of tasks per thread, custom task division and thread schedule, the derivative expansions and every result of a solve (trajectory, gains, costs, statistics, status) equal those computed with one thread, provided the user's functions are free of side effects. Concurrent evaluation never touches the same memory in a conflicting way. This also holds when the number of threads is changed between solves, and when a user function throws: the solve ends with that exception whatever the number of threads, and the solver stays usable.",
["schedules","configurations"],"every interleaving of the worker threads, every thread/task configuration, every problem of the enumerated family",
"Tests compare one multi-threaded run with one serial run under whatever schedule occurred; a race or a missed barrier shows on rare schedules.",
IL+TP,["per-knot-point expansions","per-knot-point costs","task list"],
[("blocked parallel expansion","altro/ilqr/ilqr.hpp: UpdateExpansions/UpdateExpansionsBlock"),("thread relaunch","altro/ilqr/ilqr.hpp: LaunchThreads")],
["GetTrajectory","GetStats","GetKnotPointFunction","GetCosts"])
p("P05","Work is divided so that each time step is processed exactly once",
"For every horizon, thread count and tasks-per-thread setting, the division of the trajectory into tasks is a strictly increasing list of indices that starts at the first time step and ends just past the last one, so every time step including the terminal one belongs to exactly one task, and the number of tasks never exceeds the number requested. A division supplied by the user is validated and then used exactly as given, no matter whether it is supplied before or after other solves. An invalid division is rejected.",
["inputs","configurations","histories"],"every horizon length and every thread and task count, every order of setting options, divisions and solving",
"Tests try one or two horizons; the division comes from accumulated floating-point steps and fails only for particular combinations of horizon and task count.",
IL,["task division","custom-division flag"],
[("default division","altro/ilqr/ilqr.hpp: DefaultTaskAssignment"),("custom division","altro/ilqr/ilqr.hpp: SetTaskAssignment"),("refresh rule","altro/ilqr/ilqr.hpp: ShouldRedoTaskAssignment/LaunchThreads")],
["GetTaskAssignment","which knot points are evaluated how often in an expansion update"])
p("P06","The returned trajectory always obeys the dynamics from the current initial state",
"After every solve, whatever its outcome, the trajectory handed back starts exactly at the problem's current initial state, and each later state is exactly the discrete dynamics applied to the previous state and control with that step's time and step length. The time stamps and step lengths the user gave are unchanged. This covers solves that fail, stop early, reject every step or are repeated after the initial state, guess or options changed, for plain and augmented-Lagrangian solves.",
["inputs","histories","fault_sequences"],"every sequence of line-search accept/reject outcomes, every initial guess and non-uniform time grid of the enumerated family, every sequence of solves and changes between them",
"Tests check final costs of a few converging problems; a trajectory left half-updated by a failed line search or a stale initial state is invisible there.",
IL+AS,["current trajectory","candidate trajectory","initial state"],
[("open-loop rollout","altro/ilqr/ilqr.hpp: Rollout"),("closed-loop rollout","altro/ilqr/ilqr.hpp: RolloutClosedLoop"),("accepting a candidate","altro/ilqr/ilqr.hpp: ForwardPass"),("time bookkeeping","altro/ilqr/ilqr.hpp: SolveSetup")],
["GetTrajectory"])
p("P07","Iterations never raise the cost and the reported cost is the trajectory's cost",
"Within one unconstrained solve the recorded cost never increases from one iteration to the next, and a step is taken only when it lowers the cost by a fraction of the predicted decrease that lies inside the configured line-search bounds; otherwise the trajectory is left untouched. The cost and cost decrease recorded for each iteration are those of the trajectory held after that iteration. The cost the solver returns for its trajectory equals the sum of the user's cost functions over it. Within each inner solve of an augmented-Lagrangian solve the same holds for the augmented cost with the multipliers and penalties then in effect.",
["inputs","fault_sequences"],"every sequence of cost values (lower, higher, equal, infinite, not-a-number) and state or control limits met by trial steps, for every bounded number of iterations and line-search trials",
"User functions that reject steps in a particular pattern are never produced by the convergent benchmark problems in the tests.",
IL,["accepted cost","per-iteration statistics","step length"],
[("line search","altro/ilqr/ilqr.hpp: ForwardPass"),("statistics","altro/ilqr/ilqr.hpp: UpdateConvergenceStatistics"),("cost","altro/ilqr/ilqr.hpp: Cost/CalcIndividualCosts")],
["GetStats().cost","GetStats().cost_decrease","GetTrajectory","Cost"])
p("P08","The final status tells the truth about why the solver stopped",
"A solve is reported as successful only if the last recorded cost decrease and gradient measure are below their tolerances, and for constrained problems also the constraint violation; every other status is reported only when its named reason occurred (an iteration limit reached, state or control limit exceeded by the final trial, regularization exhausted, penalty limit reached). A solve never ends in the undecided status. Success is never claimed on the strength of a backward pass that failed, and a constraint value that is not a number never counts as satisfied.",
["inputs","configurations","fault_sequences"],"every sequence of environment answers (cost, curvature, limits) and every combination of tolerances and limits of the enumerated family",
"Tests look at the status of a handful of successful solves; the untruthful paths need a failing factorization or a specific rejection pattern.",
IL+AS,["solver status","last iteration's statistics","penalty","iteration counters"],
[("inner stop rule","altro/ilqr/ilqr.hpp: IsDone"),("regularization failure","altro/ilqr/ilqr.hpp: BackwardPass"),("bounds","altro/ilqr/ilqr.hpp: RolloutClosedLoop"),("outer stop rule","altro/augmented_lagrangian/al_solver.hpp: IsDone")],
["GetStatus","GetStats"])
p("P09","Every solve terminates within its configured limits",
"Every solve returns after finitely many steps: it never performs more inner iterations per inner solve, outer iterations, total iterations, line-search trials or failed backward passes at full regularization than the options allow, for any user functions and option values. The iteration counters equal the number of iterations actually performed and the recorded history has an entry for each of them. Regularization never exceeds its configured maximum and, from its first change on, never falls below its configured minimum.",
["inputs","configurations","fault_sequences"],"every combination of small limits and every sequence of environment answers, including adversarial ones that never converge",
"Tests use default limits which are never reached; off-by-one limits and endless restarts appear only at the boundary.",
IL+AS,["iteration counters","regularization value","line-search counter"],
[("iteration loops","altro/ilqr/ilqr.hpp: Solve, altro/augmented_lagrangian/al_solver.hpp: Solve"),("limits","IsDone in both solvers"),("restart cap","altro/ilqr/ilqr.hpp: BackwardPass"),("clamping","altro/ilqr/ilqr.hpp: IncreaseRegularization/DecreaseRegularization")],
["iterations_inner, iterations_outer, iterations_total","number of user-function evaluations","GetRegularization"])
p("P10","Solving is repeatable: earlier use of a solver does not leak into later solves",
"Starting from the same initial trajectory, initial state, options and multipliers, a solver object that has been used before (for any sequence of solves, option changes, profiler or verbosity changes, thread-count changes or moves of the solver object) produces the same trajectory, status and per-solve statistics as a freshly made solver. Fixed-size and run-time-sized solvers agree. Solvers made from the same problem do not disturb one another.",
["histories","configurations"],"every sequence up to a bound of solve, option change, initial-state change, trajectory reset and move operations",
"Tests solve once per object; state that survives into the next solve (step sizes, regularization, callbacks bound to a moved-from object) is never observed.",
IL+AS+["altro/common/solver_stats.hpp","altro/common/solver_stats.cpp"],["all solver-internal buffers","statistics","callbacks"],
[("reset","altro/ilqr/ilqr.hpp: SolveSetup/ResetInternalVariables"),("outer reset","altro/augmented_lagrangian/al_solver.hpp: Init"),("move","altro/ilqr/ilqr.hpp: move constructor")],
["GetTrajectory","GetStats","GetStatus"])
p("P11","The backward pass computes the exact regularized linear-quadratic optimum",
"Given the expansions of dynamics and cost, the feedforward and feedback gains, cost-to-go terms and predicted cost decrease equal the exact solution of the corresponding regularized linear-quadratic problem, for every horizon, dimension and curvature for which it exists. When the problem is indefinite at the current regularization, regularization grows and the whole pass is redone, and the final gains and predicted decrease are those of the final regularization alone. On a linear-quadratic problem one unregularized full step reaches the true optimum.",
["inputs","configurations"],"every linear-quadratic problem on the enumerated grid of horizons, sizes, dynamics, cost blocks (including indefinite ones and cross terms) and regularization settings",
"Tests hard-code gains of one problem; sign, transpose or stale-accumulator errors hide when cross terms vanish or no restart occurs.",
IL+KF+["altro/ilqr/cost_expansion.hpp","altro/ilqr/dynamics_expansion.hpp"],["gains","action-value expansion","cost-to-go expansion","expected decrease","regularization"],
[("recursion","altro/ilqr/knot_point_function_type.hpp: CalcActionValueExpansion/CalcGains/CalcCostToGo"),("regularization","altro/ilqr/knot_point_function_type.hpp: RegularizeActionValue"),("restart","altro/ilqr/ilqr.hpp: BackwardPass")],
["GetFeedbackGain","GetFeedforwardGain","GetCostToGoHessian/Gradient","GetRegularization","accepted step and recorded improvement ratio"])
p("P12","The augmented cost is the augmented Lagrangian and its derivatives are right",
"At every point, the augmented cost of a time step equals the user's cost plus, for each constraint there, the augmented-Lagrangian penalty built from that constraint's values, multipliers and penalty parameters; the gradient returned is its exact gradient and the Hessian its Gauss-Newton Hessian, with contributions of several constraints added up. Evaluation gives the same result regardless of what was evaluated before, and does not change multipliers or penalties.",
["inputs","configurations","histories"],"every combination on the grid of constraint values, active sets, multipliers, penalties, numbers and kinds of constraints, and every order of evaluations",
"Tests evaluate one constraint at one point; wrong active-set switching or accumulation between constraints needs specific combinations.",
AC+CV+["altro/constraints/constraint.hpp"],["multipliers","penalties","constraint values and Jacobians"],
[("penalty value","altro/constraints/constraint_values.hpp: AugLag"),("gradient and Hessian","altro/constraints/constraint_values.hpp: AugLagGradient/AugLagHessian"),("accumulation","altro/augmented_lagrangian/al_cost.hpp: Evaluate/Gradient/Hessian")],
["ALCost Evaluate/Gradient/Hessian"])
p("P13","Multipliers and penalties follow the augmented-Lagrangian update rules",
"After each outer iteration every multiplier equals the projection onto the dual cone of its previous value minus penalty times the constraint value of the trajectory held by the solver, so inequality multipliers never have the wrong sign, and multipliers of constraints at every time step are updated exactly once. Penalties start at the configured initial value (when one is given), grow by the configured factor after each outer iteration that does not end the solve, and always stay positive; multipliers restart at zero exactly when resetting is enabled.",
["histories","inputs","configurations"],"every sequence of outer iterations, solves and option changes, every sequence of constraint values of the enumerated family",
"Tests update one multiplier once; errors in ordering, stale constraint values after a rejected step, or per-step omissions show only in longer histories.",
AS+AC+CV,["multipliers","penalties","constraint values"],
[("dual update","altro/constraints/constraint_values.hpp: UpdateDuals"),("penalty update","altro/constraints/constraint_values.hpp: UpdatePenalties"),("reset","altro/augmented_lagrangian/al_solver.hpp: Init"),("outer loop","altro/augmented_lagrangian/al_solver.hpp: Solve")],
["GetDuals","GetPenalty","GetMaxPenalty"])
p("P14","Reported constraint violation is the violation of the returned trajectory",
"Every violation the library reports (per constraint, per time step, maximum, in the statistics and in constraint listings) equals the distance of the constraint values from their feasible set in the stated norm, evaluated (by a solve or by asking for the maximum violation) on the trajectory the solver holds, over all constraints at all time steps including the last one. It is zero exactly when the trajectory is feasible. Listings contain every constraint once, in the documented order, sorted by violation on request (largest first; violations that are not a number before all others).",
["inputs","configurations","histories"],"every assignment of constraints to time steps and every sign pattern of constraint values on the grid, after accepted and after rejected steps",
"Tests check a few constraints with one sign; a dropped time step, the wrong norm, or values left from a rejected trial step need particular combinations.",
AS+AC+CV+["altro/constraints/constraint.hpp","altro/constraints/constraint.cpp"],["constraint values"],
[("per constraint","altro/constraints/constraint_values.hpp: Violation/MaxViolation"),("per time step","altro/augmented_lagrangian/al_cost.hpp: MaxViolation"),("per problem","altro/augmented_lagrangian/al_solver.hpp: MaxViolation/GetMaxViolation"),("listing","GetConstraintInfo in al_cost.hpp and al_solver.hpp")],
["GetMaxViolation","MaxViolation","GetConstraintInfo","GetStats().violations"])
p("P15","Cone projections are exact, idempotent and consistent with their derivatives",
"For every vector, projecting onto a constraint cone gives the nearest point of that cone, projecting twice changes nothing, and the point splits into its projection and its projection onto the polar cone. The dual cone of each cone is correct, and the projection Jacobian (fully written, whatever was in the output before) is the derivative of the projection wherever it exists.",
["inputs"],"every sign pattern and magnitude pattern of vectors up to the enumerated dimension",
"Tests project one vector per cone; mixed sign patterns and stale off-diagonal output entries are not sampled.",
["altro/constraints/constraint.hpp"],["none (pure functions)"],
[("cone projections","altro/constraints/constraint.hpp: ZeroCone/IdentityCone/NegativeOrthant/PositiveOrthant")],
["Projection","Jacobian","Hessian","DualCone"])
p("P16","Discretized dynamics follow their integrator exactly, with exact Jacobians",
"One discrete step equals the stated Runge-Kutta or Euler formula applied to the continuous dynamics with stages evaluated at the right times, for time-varying systems, any time, step length and dimensions. The Jacobian of the step is its exact derivative with respect to state and control. Repeated or interleaved use of one model object does not change results.",
["inputs","configurations","histories"],"every state, control, time and step on grids that decide the polynomial identities for the enumerated family of time-varying polynomial systems",
"Tests use autonomous systems at one point, so wrong stage times and stale intermediate storage cannot show.",
["altro/problem/integration.hpp","altro/problem/integration.cpp","altro/problem/discretized_model.hpp","altro/problem/dynamics.hpp","altro/problem/dynamics.cpp"],["integrator scratch storage"],
[("RK4 step","altro/problem/integration.hpp: RungeKutta4::Integrate"),("RK4 Jacobian","altro/problem/integration.hpp: RungeKutta4::Jacobian"),("Euler","altro/problem/integration.hpp: ExplicitEuler"),("wrapper","altro/problem/discretized_model.hpp")],
["DiscretizedModel Evaluate/Jacobian"])
p("P17","Function values and derivatives agree across interfaces and are checked soundly",
"For costs, dynamics and constraints alike, the generic stacked-vector interface and the specialised state/control interface give the same values, gradients, Jacobians and Hessians, completely written and correctly laid out whatever array or sub-block receives them. The derivative checker accepts a function when its analytic derivatives match finite differences within the tolerance and reports failure when any single entry is wrong by clearly more than the tolerance.",
["inputs","programs"],"every function kind, dimension pair and derivative entry of the enumerated family, every single-entry derivative error",
"Tests check correct functions, mostly at random points; that each individual wrong entry would be caught, and sub-block outputs, are not sampled.",
["altro/common/functionbase.hpp","altro/common/functionbase.cpp","altro/problem/costfunction.hpp","altro/problem/dynamics.hpp","altro/problem/dynamics.cpp","altro/utils/derivative_checker.hpp","altro/constraints/constraint.hpp"],["none (pure functions)"],
[("scalar functions","altro/common/functionbase.hpp: ScalarFunction"),("checks","altro/common/functionbase.cpp: CheckJacobian/CheckHessian/CheckGradient"),("cost adaptor","altro/problem/costfunction.hpp"),("dynamics adaptor","altro/problem/dynamics.hpp")],
["Evaluate/Gradient/Jacobian/Hessian","CheckJacobian/CheckHessian/CheckGradient"])
p("P18","The problem description stores exactly what was specified",
"After any sequence of setting dynamics, costs, constraints and initial state over single steps or ranges, in any order and with replacement, each time step holds exactly the last dynamics and cost given for it and every constraint given for it, in order, split into equalities and inequalities. Constraint counts and dimensions match, and the problem counts as fully defined exactly when every step has dynamics and cost and the initial state is set with the right size. Copies and moves preserve all of this, and the derived augmented problem keeps dynamics and initial state and wraps every cost with its own constraints.",
["histories","configurations"],"every sequence of definition operations up to a bound over small horizons, including copies, moves and replacements",
"Tests define one well-formed problem in one order; replacement, partial definition and copies mid-way are not tried.",
["altro/problem/problem.hpp","altro/problem/problem.cpp","altro/augmented_lagrangian/al_problem.hpp"],["per-step dynamics, costs, constraints","initial state","horizon"],
[("setters","altro/problem/problem.hpp: SetDynamics/SetCostFunction/SetConstraint/SetInitialState"),("completeness","altro/problem/problem.cpp: IsFullyDefined"),("counts","altro/problem/problem.hpp: NumConstraints"),("augmented problem","altro/augmented_lagrangian/al_problem.hpp: BuildAugLagProblem")],
["GetDynamics","GetCostFunction","GetEqualityConstraints","GetInequalityConstraints","NumConstraints","IsFullyDefined"])
p("P19","Trajectories store states, controls and times independently and consistently",
"After any sequence of writes, copies, assignments, zeroing and time-grid changes, reading any state, control, time or step of a trajectory returns exactly the value last written there, and no operation disturbs another entry or another trajectory. A uniform time grid puts each step at its index times the step length with a zero-length final step, and the consistency check accepts exactly the grids in which every time equals the previous time plus its step within tolerance. Fixed-size and run-time-sized trajectories behave alike.",
["histories","inputs"],"every sequence of trajectory operations up to a bound over small horizons and dimensions",
"Tests write and read back single entries; aliasing between entries and copies shows only in sequences.",
["altro/common/trajectory.hpp","altro/common/knotpoint.hpp","altro/common/state_control_sized.hpp"],["knot points","time stamps"],
[("accessors","altro/common/trajectory.hpp"),("knot point storage","altro/common/knotpoint.hpp"),("time grid","altro/common/trajectory.hpp: SetUniformStep/CheckTimeConsistency")],
["State/Control/GetTime/GetStep","CheckTimeConsistency"])
p("P20","Recorded statistics are a faithful history of what was logged",
"After any sequence of logging values, starting iterations, resetting, resizing, copying and moving the statistics object, each recorded series contains for every iteration exactly the last value logged for it up to that point (carried over when nothing new was logged), all series have one entry per iteration, and the counters match. Logging to a copied or moved object changes that object only. The first value logged starts the first iteration. Unknown names leave the recorded values untouched.",
["histories"],"every sequence up to a bound of log, new-iteration, reset, capacity, copy and move operations",
"Tests log a few values in a fixed order on one object; interactions with copies, moves and resets are not exercised.",
["altro/common/solver_stats.hpp","altro/common/solver_stats.cpp"],["series","iteration counters","name-to-series map"],
[("log","altro/common/solver_stats.hpp: Log"),("advance","altro/common/solver_stats.cpp: NewIteration"),("reset","altro/common/solver_stats.cpp: Reset/SetCapacity/SetTolerances")],
["public series of SolverStats","iterations_inner/outer/total"])
p("P21","The progress table prints exactly the logged data at the chosen verbosity",
"After any sequence of adding columns, changing verbosity, logging, clearing and printing, each printed row shows, in column order and at the column's width and format (and in the bound's colour when the value is out of the column's bounds), the last value logged for every column active at the current verbosity and nothing else; the header shows the same columns and repeats at the configured interval. Data logged for an inactive column is never printed, and a silent logger prints nothing. Columns can be inserted at any position from either end without disturbing others.",
["histories","configurations"],"every sequence of logger operations up to a bound, every verbosity level, column position and header interval of the enumerated family",
"Tests print a table to the screen and check little of it.",
["altro/common/solver_logger.hpp","altro/common/solver_logger.cpp","altro/common/log_entry.hpp","altro/common/log_entry.cpp"],["columns and order","pending row data","print counter","verbosity"],
[("columns","altro/common/solver_logger.cpp: AddEntry"),("print","altro/common/solver_logger.cpp: Print/PrintHeader/PrintData"),("cell formatting","altro/common/log_entry.hpp")],
["standard output"])
p("P22","The profiler attributes every measured interval to the right nested section",
"For any nesting and sequence of timed sections, each section's recorded intervals are those between its start and stop under the name path of the sections open at that moment, an inactive timer records nothing, and turning the timer on or off between sections never unbalances the nesting. The summary lists each recorded section once, with the total of its own intervals and its share of its parent and of the whole, and goes to the output the user chose, which stays usable afterwards.",
["histories","configurations"],"every sequence up to a bound of start, stop, activate, deactivate, output-selection and summary operations",
"Tests time one nested pair against the wall clock and cannot see wrong attribution in other orders.",
["altro/common/timer.hpp","altro/common/timer.cpp","altro/common/profile_entry.hpp","altro/common/profile_entry.cpp"],["open-section stack","recorded intervals","output handle"],
[("start/stop","altro/common/timer.cpp: Start, Stopwatch"),("summary","altro/common/timer.cpp: PrintSummary; profile_entry.cpp"),("output","altro/common/timer.hpp: SetOutput")],
["printed summary","GetTimes"])
p("P23","Misuse is stopped with a diagnostic before it can corrupt a result",
"Every documented precondition of the public interface (indices in range, matching horizons and dimensions, trajectories and initial states present, problems fully defined, options that make sense, a pool not running when launched or moved) is checked: a call that violates it ends with a diagnostic instead of going on with wrong data, and a call that satisfies it is never rejected.",
["inputs","configurations","histories"],"every interface precondition, every boundary value just inside and just outside it, in every reachable object state of the enumerated family",
"Tests have a death test for some of the checks at one value; the boundary values on both sides are not covered.",
["altro/utils/assert.hpp","altro/ilqr/ilqr.hpp","altro/problem/problem.hpp","altro/problem/dynamics.hpp","altro/common/trajectory.hpp","altro/common/knotpoint.hpp","altro/augmented_lagrangian/al_solver.hpp","altro/augmented_lagrangian/al_cost.hpp"],["preconditions"],
[("assertion","altro/utils/assert.hpp: ALTRO_ASSERT"),("solver checks","altro/ilqr/ilqr.hpp"),("problem checks","altro/problem/problem.hpp")],
["process exit with a diagnostic"])
p("P24","Benchmark results are the statistics of exactly the measured runs",
"A benchmark runs the function exactly the requested number of times and measures each run once with a clock that changes of the system time do not affect. Its result holds the arithmetic mean, median, population standard deviation, maximum, minimum and number of exactly those samples, in the chosen unit, whatever their order or ties, and the printed summary shows these values. Without any sample there is no result: the request is refused.",
["inputs","histories"],"every list of samples up to a length over a grid with ties, every sequence of run durations, every position at which the system time is changed",
"Tests benchmark a sleep and compare with loose tolerances; order, ties, even and odd counts, empty lists and clock changes are not sampled.",
["altro/utils/benchmarking.hpp"],["list of samples"],
[("statistics","altro/utils/benchmarking.hpp: BenchmarkResults::Calculate"),("measurement","altro/utils/benchmarking.hpp: Benchmark"),("summary","altro/utils/benchmarking.hpp: Print")],
["BenchmarkResults fields","printed summary","calls of the function"])
p("P25","Equivalent descriptions of a problem give the same solution",
"The result of a solve (trajectory, costs, statistics, status, iteration counts, multipliers, penalties, violation) depends on the problem and not on how it was described: not on the order in which costs, dynamics and constraints are set or on values set before and replaced, not on how constraint components are grouped into constraint functions, not on copies or moves of the problem or on initializing the solver in one or several pieces, not on the states of the initial guess, not on a shift of the time axis the dynamics take into account, not on the order, signs and (power of two) units of the state coordinates or the order and signs of the controls, and not on the unit of the cost when the tolerance, penalties and regularization are given in the same unit. Without constraints the augmented Lagrangian solver takes the iterations of the iLQR solver.",
["inputs","configurations","histories"],"every description in bounded families: all orders and groupings of up to four constraint components, all signed and scaled permutations of up to three coordinates, all paths of the objects, units and guesses",
"Tests solve one description of each example and compare with recorded numbers; an error that depends on position, order or grouping is invisible unless two descriptions are compared.",
IL+AS+AC+KF+["altro/problem/problem.hpp","altro/augmented_lagrangian/al_problem.hpp"],["constraint lists","stored expansions","initial guess"],
[("conversion of the problem","altro/augmented_lagrangian/al_problem.cpp: BuildAugLagProblem"),("sums over constraints","altro/augmented_lagrangian/al_cost.hpp"),("initialization","altro/ilqr/ilqr.hpp: CopyFromProblem/InitializeFromProblem"),("convergence tests","altro/ilqr/ilqr.hpp: IsDone")],
["GetTrajectory","GetStats","GetStatus","GetDuals","GetPenalty","MaxViolation"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,s)
    except Exception as e: print(x['id'],str(e)[:300])
print(len(P))
