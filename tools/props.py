"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
B = 'skdecide/builders/'
DO = B + 'discrete_optimization/'


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p('C01', 'Adapting a domain to another level of generality preserves its behaviour',
  'Viewing a domain (or calling it) at a more general or more specific characteristic level - single or multi agent, '
  'Markovian or with history, one or several concurrent actions, deterministic/simulated dynamics - gives exactly the values the original gives, '
  'wrapped or unwrapped structurally: agents become dictionary entries, histories reduce to their most recent '
  'element, optional values stay absent, and distributions, outcomes, spaces and constraints are converted inside. '
  'Converting a value to a more general view and back is the identity.',
  ['inputs', 'programs'], 'All type descriptions built from the supported containers, all values of them, and all pairs of characteristic levels of a domain.',
  'The 96 existing tests enumerate fixed combinations of hints over a handful of constants; nested values, constraints called back through the cast, and multi-step use of a cast domain are not reached.',
  ['skdecide/core.py', 'skdecide/domains.py'],
  [('cast rules table and recursive cast', 'skdecide/core.py'), ('autocast of every domain/solver method', 'skdecide/core.py, skdecide/domains.py')])
p('C02', 'Episodes follow the domain dynamics: reset, step, sample and memory',
  'After a reset, the memory a domain holds is the initial state (or the chosen representation of it), and every step applies the given '
  'action to that memory, records exactly the new state, and returns the observation, value, termination and info that the declared dynamics '
  'give for it. A history domain keeps the most recent states in order, at most as many as its declared bound; a memoryless one keeps none; sampling never changes the domain.',
  ['histories', 'inputs', 'configurations'], 'All finite sequences of reset/step/sample/set-memory operations, over all characteristic combinations of dynamics, memory and observability, and all table-defined dynamics.',
  'No existing test runs a domain episode in the pinned environment; only the cast of single calls is tested.',
  ['skdecide/builders/domain/dynamics.py', 'skdecide/builders/domain/memory.py', 'skdecide/builders/domain/initialization.py'],
  [('step/sample and memory update', B + 'domain/dynamics.py'), ('memory initialisation', B + 'domain/memory.py'), ('initial state (distribution) and reset', B + 'domain/initialization.py')])
p('C03', 'Applicable events, goals and observations agree with what is enabled',
  'Enabled events, the action space and the applicable actions are those the domain declares for the current memory, and the membership tests agree with the listed sets, for each agent separately when there are several; '
  'goal tests agree with the goal set, and terminal tests with the declared terminal condition. In a fully observable '
  'domain the observation is the state itself; in a partially observable one it is drawn from the declared distribution given state and action.',
  ['inputs', 'configurations'], 'All table-defined event, goal and observation structures, with one or several agents, and all memories and candidate actions.',
  'No existing test calls these functions outside of a fixed cast check.',
  [B + 'domain/events.py', B + 'domain/goals.py', B + 'domain/observability.py', B + 'domain/agent.py', B + 'domain/concurrency.py'],
  [('events/actions derivation and membership', B + 'domain/events.py'), ('goal set', B + 'domain/goals.py'), ('observation models', B + 'domain/observability.py')])
p('C04', 'Distributions, transition values and constraints mean what they declare',
  'The support and weights of a next-state distribution are those declared, sampling only ever returns supported values, and proportionally often; a deterministic next state is the single point of it. '
  'Rewards and costs are opposite, in every domain value, and a domain with positive costs reports them as such; constraints hold exactly when their evaluation satisfies the declared inequality and bound.',
  ['inputs'], 'All finite distributions, transition values, bound and implicit constraints, and table-defined dynamics at each level of detail.',
  'Unit tests use two or three constants; sampling and the constraint comparison are not tested.',
  ['skdecide/core.py', B + 'domain/value.py', B + 'domain/constraints.py', B + 'domain/dynamics.py'],
  [('distribution classes, transition values, constraints', 'skdecide/core.py'), ('levels of dynamics', B + 'domain/dynamics.py')])
p('C05', 'Solver-domain compatibility and the solving life cycle are exact',
  'A solver is reported compatible with a domain exactly when the domain offers every characteristic the solver requires (at that level or a more specific one) and meets its additional requirement, and matching returns exactly the compatible solvers. '
  'Solving works on a freshly made domain seen at the level the solver asks for, solves from every initial state asked, and a policy query (sample, single action, distribution, definedness) agrees with the solver, in the level of the domain it is queried from.',
  ['inputs', 'configurations', 'histories'], 'All combinations of domain characteristics and solver requirements, and sequences of solve / query operations.',
  'No existing test checks compatibility or a solver life cycle.',
  ['skdecide/solvers.py', 'skdecide/utils.py', B + 'solver/policy.py', B + 'solver/assessability.py'],
  [('domain requirements check and solve life cycle', 'skdecide/solvers.py'), ('solver registration/matching', 'skdecide/utils.py'), ('policy characteristics', B + 'solver/policy.py')])
p('C06', 'Rollouts run the chosen policy faithfully and report the true episode',
  'A rollout runs the requested number of episodes from the requested start, each applying at every step the action the policy chose for the current observation, stopping exactly at termination, at the goal when asked, or at the step limit. '
  'The observations, actions and values it reports or passes to its formatters and saves are those of the episode that took place.',
  ['inputs', 'configurations', 'histories'], 'All table-defined domains and policies, and all combinations of start, limits, stopping flags and reporting options.',
  'Existing tests of rollouts do not run in this environment.',
  ['skdecide/utils.py'], [('rollout and rollout_episode', 'skdecide/utils.py')])
p('C07', 'Parallel domains answer exactly as the sequential domain would',
  'Calling a domain through the multi-process wrapper - over pipes or over shared memory, with or without cast to a solver level - returns for every call the value the wrapped domain returns for the same call and arguments, '
  'whatever the number of workers and the interleaving of pending calls. '
  'A failing call yields no result (None) and leaves the wrapper usable for the following ones.',
  ['schedules', 'inputs', 'histories', 'fault_sequences'], 'All sequences of synchronous and asynchronous calls over several workers, with calls that raise.',
  'Parallel tests need compiled solvers and do not run; interleavings of pending calls are never sampled.',
  ['skdecide/domains.py', B + 'solver/parallelability.py'],
  [('pipe and shared-memory parallel domains', 'skdecide/domains.py')])
p('S01', 'LazyA* returns an executable optimal plan exactly when one exists',
  'On any finite deterministic positive-cost goal domain with a consistent heuristic, the plan followed by the lazy A* policy leads from every start it was asked to solve to a goal, executing only applicable actions, with total cost equal to the shortest path cost (at most w times it when the heuristic is weighted by w >= 1). '
  'The value it reports on the plan is the true cost to go, and a state the plan does not cover is reported as undefined.',
  ['inputs'], 'All finite cost graphs (including zero heuristic, ties, cycles, start in goal), admissible heuristics and edge weights.',
  'No existing test runs this solver here.',
  ['skdecide/hub/solver/lazy_astar/lazy_astar.py'], [('lazy A* search and plan extraction', 'skdecide/hub/solver/lazy_astar/lazy_astar.py')])
p('S02', 'LRTA* converges to plans that reach the goal; values stay admissible',
  'On a finite deterministic goal domain where the goal stays reachable, the policy LRTA* builds after enough trials picks only applicable actions and leads from the start to the goal. '
  'Without cycles, its learned cost-to-go never exceeds the true optimal cost when the initial heuristic does not and the plan is optimal; its policy is defined exactly on states it holds an action for.',
  ['inputs'], 'All finite cost graphs with reachable goals, admissible heuristics, and trial/depth limits.',
  'No existing test runs this solver here.',
  ['skdecide/hub/solver/lrtastar/lrtastar.py'], [('trial and value update', 'skdecide/hub/solver/lrtastar/lrtastar.py')])
p('S03', 'Greedy and sampling online solvers choose applicable actions by their criterion',
  'The greedy solver returns an applicable action with the best expected immediate value, whatever the level of detail at which values are declared; POMCP always returns an applicable action, and takes the action that reaches the goal at once from every state compatible with its observations when no other action can match it.',
  ['inputs'], 'All table-defined domains, policies and memories.',
  'No existing test runs these solvers here.',
  ['skdecide/hub/solver/simple_greedy/simple_greedy.py', 'skdecide/hub/solver/pomcp/pomcp.py'],
  [('argmax over applicable actions', 'skdecide/hub/solver/simple_greedy/simple_greedy.py'), ('Monte-Carlo tree search over beliefs', 'skdecide/hub/solver/pomcp/pomcp.py')])
p('S04', 'Evaluating a policy enumerates its executions and expected cost exactly',
  'The evaluation of a policy on a domain with enumerable outcomes visits exactly the states the policy can reach from the start, records for each the action taken, its successors and predecessors, and gives exactly the expected cost to reach the goal for every state that surely reaches it without looping, and none for the others.',
  ['inputs'], 'All finite table-defined domains, deterministic policies and starts.',
  'No existing test runs this code.',
  ['skdecide/hub/solver/policy_evaluators/policy_evaluator.py'], [('policy graph and backward evaluation', 'skdecide/hub/solver/policy_evaluators/policy_evaluator.py')])
p('S05', 'State-space exploration builds the reachable transition graph faithfully',
  'The graph built by exploring a domain contains only reachable states and true transitions with their true value and probability, and contains all of them (goal and terminal states being left unexpanded) when no limit stops the exploration; '
  'a domain rebuilt from a graph has exactly its states, actions, transitions, costs and goals.',
  ['inputs'], 'All finite table-defined deterministic and uncertain domains, with and without limits.',
  'No existing test runs this code here.',
  ['skdecide/hub/solver/graph_explorer/'], [('exploration and graph domain', 'skdecide/hub/solver/graph_explorer/')])
p('S06', 'Program-search and policy-search solvers evaluate what they represent',
  'A Cartesian genetic program outputs exactly the value of the expression its genome encodes and mutation keeps genomes valid; its evolution strategy never loses the best individual; flattening and rebuilding actions and observations round-trips; policies trained by these solvers return actions of the action space for every observation.',
  ['inputs'], 'All genomes over the function set and all numeric inputs; all spaces the solvers accept.',
  'No existing test runs this code here.',
  ['skdecide/hub/solver/cgp/', 'skdecide/hub/solver/ars/ars.py'], [('CGP evaluation', 'skdecide/hub/solver/cgp/pycgp/cgp.py')])
p('S07', 'Rollout estimates and policies chosen by them follow what really happens',
  'Estimating a policy of a scheduling domain by n rollouts runs it n times from the initial state to the end and reports, for each state met, the mean over its visits of the cost paid from there on, the action taken, and the states seen before and after it; the fast estimate is the mean end of the executions and leaves the initial state as it was. A policy that chooses among others does what they agree on, else the action of one whose execution from there ends first, and leaves the state it is asked about unchanged.',
  ['inputs', 'histories'], 'All projects with fixed or random durations, policies and numbers of rollouts.', 'No existing test runs this code here.',
  ['skdecide/hub/solver/policy_evaluators/policy_evaluator.py', 'skdecide/hub/solver/meta_policy/meta_policies.py'],
  [('estimation by rollouts', 'skdecide/hub/solver/policy_evaluators/policy_evaluator.py'), ('choice among policies', 'skdecide/hub/solver/meta_policy/meta_policies.py')])
p('H01', 'The example domains implement the rules of their games',
  'In the maze, grid, Mastermind and rock-paper-scissors domains, every move has the outcome, cost or reward, applicable actions, observation and end condition that the rules of the game give, for every board, size, secret and history of moves; '
  'the values they return always lie in the spaces they declare.',
  ['inputs', 'histories'], 'All mazes, grid sizes, code lengths/colours, secrets, guesses and play sequences.',
  'No existing test of these domains runs here, and tests run only default sizes.',
  ['skdecide/hub/domain/'], [('domain rules', 'skdecide/hub/domain/mastermind/mastermind.py, maze/maze.py, simple_grid_world/simple_grid_world.py, rock_paper_scissors/rock_paper_scissors.py')])
p('H02', 'Spaces contain exactly what they sample, list and round-trip',
  'Every space contains each element it lists or samples, and nothing outside of its definition; converting elements to the wrapped library representation and back is the identity, element by element, for every kind and nesting of space.',
  ['inputs'], 'All finite sets, ranges, boxes, enumerations, data classes, dictionaries, tuples and lists of spaces and their elements.',
  'Only trivial cast checks of spaces run today.',
  ['skdecide/core.py', 'skdecide/hub/space/gym/gym.py'], [('space classes and wrap/unwrap', 'skdecide/hub/space/gym/gym.py')])
p('H03', 'Wrapped gym environments behave like the environment itself',
  'A gym environment used through the domain wrapper, and a domain used as a gym environment, yield the same observations, rewards and end flags as the original for every seed and action sequence; '
  'planning wrappers restore any earlier state exactly, discretised actions are members of the action space covering its extremes, derived features identify the state they were built from and refine it consistently from state to state, and comparable states are equal exactly when their contents are.',
  ['histories', 'inputs'], 'All deterministic environments over the supported spaces and all action sequences, with state restoration in any order.',
  'Existing gym tests cannot run here; they drive one environment for one episode.',
  ['skdecide/hub/domain/gym/gym.py'], [('gym domain wrappers', 'skdecide/hub/domain/gym/gym.py')])
SD = B + 'scheduling/scheduling_domains.py'
p('D01', 'Schedules obtained by executing a scheduling domain are feasible',
  'Whatever actions are chosen among the proposed ones, an execution of a scheduling domain never starts a task before its predecessors are complete, runs it for exactly the duration of its mode, never starts or resumes work for which a renewable or non-renewable resource lacks at that time, always records as used the consumption of the ongoing tasks, and reaches the goal exactly when every required task is complete.',
  ['histories', 'inputs'], 'All generated projects (modes, precedence, time-varying availability and consumption) and all legal action sequences.',
  'The scheduling tests need compiled or commercial solvers to import and do not run here; they also follow one greedy path.',
  [SD, B + 'scheduling/'], [('transition function over tasks and resources', SD)])
p('D02', 'A scheduling domain offers exactly the actions its rules allow',
  'The actions proposed in a state are exactly those the rules allow - starting an eligible task in any of its feasible modes, pausing, resuming, advancing time - and the membership test agrees with that list on every action built from any task, mode and kind; there is always a way to let time pass.',
  ['histories', 'inputs'], 'All reachable states of all generated projects, and all candidate actions.',
  'No running test inspects the action sets.',
  [SD, B + 'scheduling/scheduling_domains_modelling.py'], [('applicable actions and membership', SD)])
p('D03', 'All views of a scheduling transition agree, with correct probabilities',
  'For a given state and action, the deterministic, simulated and distribution-level transitions of a project describe the same outcomes: every sampled outcome is in the support, the deterministic one is its only element, probabilities sum to one and equal the product of the declared duration and condition probabilities. '
  'Values and durations follow the sampled outcome, and computing a transition never changes the state given as input (unless in-place updates are asked for).',
  ['inputs', 'histories'], 'All projects with deterministic or random durations and conditional tasks, and all reachable state/action pairs.',
  'No running test covers uncertain transitions.',
  [SD, B + 'scheduling/task_duration.py', B + 'scheduling/conditional_tasks.py'], [('uncertain updates', SD)])
p('D04', 'Pausing and resuming preserves work done and resource accounting',
  'A pausable task that is paused keeps the progress made, frees (or not) the resources its rules say, and resumes with the remaining or restarted duration its rules say, so that total executed time and resource use always agree with the history; a task that cannot be paused never is.',
  ['histories', 'inputs'], 'All histories of start/pause/resume/advance actions on generated preemptive projects.',
  'No running test covers preemption.', [SD, B + 'scheduling/preemptivity.py'], [('pause/resume updates', SD)])
p('D06', 'Skilled resources are allocated only when they cover the skills needed',
  'With skills, a task starts only with available units whose combined skills cover its requirement, every unit works on at most one task at a time, and the units recorded as used are exactly those released at completion.',
  ['histories', 'inputs'], 'All generated multi-skill projects and all legal action sequences.',
  'Multi-skill tests do not run here.', [SD, B + 'scheduling/skills.py'], [('skill cover and unit allocation', SD)])
p('D07', 'Scheduling domains answer exactly what their building blocks declare',
  'Whatever building block a scheduling domain is made of for each characteristic, its questions answer the declarations: predecessors, successors and the precedence graph mirror each other; modes give their needs at each time; durations at any progress are drawn from the declared distribution, uniform between the bounds if so declared, within bounds that are exact, and simulated ones are drawn once, then remembered; progress is linear in the duration; quantities, renewability, units, skills, preemption, time windows and lags (bounds not given are the loosest), preallocations, costs and conditions are the declared ones, and a characteristic a domain is without answers its neutral value for every task and resource.',
  ['inputs'], 'All combinations of blocks and generated declarations.', 'Tests only run a few example domains.',
  [B + 'scheduling/'], [('building blocks', B + 'scheduling/task_duration.py, precedence.py, time_windows.py, time_lag.py, modes.py, preemptivity.py, resource_costs.py, resource_availability.py, conditional_tasks.py')])
p('D09', 'Scheduling policies built from solutions reproduce valid schedules',
  'Turning a project into an optimisation problem keeps all tasks, durations, resources and precedence; '
  'following a policy made from an optimisation solution, a priority list or a pile rule always completes the project feasibly, and a policy that follows a schedule in time on the deterministic project reproduces its start times. A policy dispatching along a priority list starts, whenever it can, the first task of its order that fits within the freedom its method allows, and lets time pass only if none can start; a pile policy starts a startable task best by its rule.',
  ['inputs', 'histories'], 'All generated projects and all permutations/mode vectors as priority lists.',
  'The policies are covered only through solvers that do not import here.',
  ['skdecide/hub/solver/do_solver/', 'skdecide/hub/solver/sgs_policies/sgs_policies.py', 'skdecide/hub/solver/pile_policy/pile_policy.py'],
  [('project to optimisation problem binding', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py'), ('policies', 'skdecide/hub/solver/sgs_policies/sgs_policies.py')])
R = DO + 'rcpsp/rcpsp_model.py'
p('O01', 'Schedule generation always yields feasible, left-justified schedules',
  'Decoding any permutation and mode vector yields a schedule that respects precedence, durations and resource capacity at every time, in which no activity could start earlier while all earlier decisions stay in place; if it cannot, the solution is reported infeasible and never scored as feasible. '
  'Makespan is the end of the last activity, and decoding again, or copying the solution, gives the same schedule.',
  ['inputs', 'histories'], 'All projects (single/multi mode, calendars, non-renewable resources), permutations, mode vectors and sequences of edits.',
  'No running test covers the discrete-optimisation library.',
  [R], [('serial schedule generation', R)])
p('O02', 'Solution checkers accept exactly the feasible schedules',
  'The verdict that a scheduling solution satisfies its problem is true exactly when precedence, capacity (at each time and in total for non-renewable resources) and, for skills, coverage and unit uniqueness, all hold; the scores computed for it are the declared measures of that schedule.',
  ['inputs'], 'All schedules, feasible or perturbed, of generated projects.',
  'No running test covers the checkers.', [R, DO + 'rcpsp_multiskill/rcpsp_multiskill.py'], [('satisfy/evaluate', R)])
p('O03', 'Partial rescheduling keeps the past and stays feasible',
  'Rescheduling from a time with some tasks complete and some running keeps their times, starts nothing else before that time, and yields a schedule respecting every constraint.',
  ['inputs'], 'All projects, partial schedules at a time, and permutations of the rest.', 'Not covered by a running test.',
  [R], [('partial schedule generation', R)])
p('O05', 'Critical-path and dispatching heuristics give true bounds and schedules',
  'Earliest/latest dates, critical path and slack computed by the critical-path method are those of the precedence graph; heuristic schedulers always return schedules the problem accepts, never shorter than the critical path: list schedulers place each task of their order at the earliest time possible, dispatching ones leave no task waiting that could start.',
  ['inputs'], 'All generated projects and heuristic settings.', 'Not covered by a running test.',
  [DO + 'rcpsp/solver/cpm.py', DO + 'rcpsp/solver/rcpsp_pile.py'], [('critical path', DO + 'rcpsp/solver/cpm.py'), ('dispatching', DO + 'rcpsp/solver/rcpsp_pile.py')])
p('O06', 'Multi-skill schedule generation respects skills, calendars and units',
  'Decoding any permutation, modes and unit preference of a multi-skill project gives a schedule that respects precedence, resources and calendars, in which the units assigned cover the skills required and no unit is used twice at once; each task, in order of priority, starts as early as the tasks placed before it allow, with the first available units of its preference that cover its needs, and what cannot be scheduled within the horizon is reported infeasible.',
  ['inputs'], 'All generated multi-skill projects and solution vectors.', 'Not covered by a running test.',
  [DO + 'rcpsp_multiskill/rcpsp_multiskill.py'], [('multi-skill schedule generation', DO + 'rcpsp_multiskill/rcpsp_multiskill.py')])
p('O07', 'Instance parsers read back exactly the instance written',
  'Parsing an instance file of any supported format gives a problem with exactly the tasks, durations, resources, precedence, items, nodes, edges, demands and distances in that file, whatever the size and layout the format permits; a multi-skill solution written to a file is read back unchanged.',
  ['inputs'], 'All generated instances printed in each format.', 'Parsers are exercised only on data files not shipped here.',
  [DO], [('parsers', DO + 'rcpsp/rcpsp_parser.py, rcpsp_multiskill/rcpsp_multiskill_parser.py, knapsack/knapsack_parser.py, coloring/coloring_parser.py, facility/facility_parser.py, vrp/vrp_parser.py, ttp/ttp_parser.py')])
p('O08', 'Combinatorial models score and validate solutions correctly',
  'For knapsack, colouring, facility location, vehicle routing, travelling salesman and thief problems, the scores computed for a solution equal those of the definition of the problem, and (but for thief problems, only scored) the verdict on it is true exactly when the definition is satisfied - also after any sequence of edits, copies, changes of problem and re-encodings of the solution.',
  ['inputs', 'histories'], 'All generated instances and solutions, valid and invalid.', 'Not covered by a running test.',
  [DO + x for x in ('knapsack/knapsack_model.py', 'coloring/coloring_model.py', 'facility/facility_model.py', 'vrp/vrp_model.py', 'ttp/ttp_model.py', 'tsp/tsp_model.py')],
  [('evaluate/satisfy', DO + '*/*_model.py')])
p('O09', 'Exact combinatorial solvers are optimal; heuristics are feasible',
  'Solvers that claim optimality (dynamic programming and constraint models run to completion) return the true optimum of every small instance; greedy and metaheuristic ones always return solutions the problem accepts and report their true score.',
  ['inputs'], 'All small generated instances, compared with exhaustive enumeration.', 'Not covered by a running test.',
  [DO], [('solvers', DO + '*/solvers')])
p('O10', 'Mutations stay in the solution space and undo exactly',
  'Every mutation applied to a solution gives a solution of the same encoding (permutations stay permutations, values stay in range) and the score it reports is that of the solution returned; undoing the move it returns restores the earlier solution and its score (also several moves, last one first, where they work alike), applying it again gives its result again, and copies made before are never altered.',
  ['inputs', 'histories'], 'All encodings, solutions and sequences of moves and undos.', 'Not covered by a running test.',
  [DO + 'generic_tools/mutations/', DO + 'rcpsp/mutations/', DO + 'knapsack/mutation/'], [('mutations and local moves', DO + 'generic_tools/mutations/permutation_mutations.py')])
p('O11', 'Local and evolutionary search return the best solution they visited',
  'The best solution reported by hill climbing, annealing, genetic and alternating search is at least as good as the starting one and as every solution kept during the run, in the direction of optimisation asked, with a score equal to its re-evaluation, and runs respect their iteration limits. Each local step goes on from the solution before it or, if accepted (only improvements, for hill climbing), the one it produced, or the best one on a restart; the starting solution is not altered; fronts kept hold no dominated point and cover every solution accepted.',
  ['inputs', 'histories'], 'All generated problems, starts, objectives (one or several) and limits.', 'Not covered by a running test.',
  [DO + 'generic_tools/ls/', DO + 'generic_tools/ea/'], [('best-solution tracking', DO + 'generic_tools/ls/hill_climber.py')])
p('O12', 'Result storage returns true bests, rankings and Pareto fronts',
  'Among the solutions stored, at once or one by one, the best (one not dominated, for several objectives), the last or a random best, the extreme of an objective, and the Pareto front returned are exactly those of the definition, for both directions of optimisation; merging, comparing and plotting tools report the stored values, and re-evaluation on test problems their scores there, without altering the stored solutions.',
  ['inputs', 'histories'], 'All lists of solutions and fitness vectors, with ties and duplicates.', 'Not covered by a running test.',
  [DO + 'generic_tools/result_storage/'], [('result storage and comparator', DO + 'generic_tools/result_storage/result_storage.py')])
p('O13', 'Objective aggregation, encodings and graph tools are exact',
  'Objective values used for optimisation equal the declared ones (first weighted objective, weighted sum, or weighted vector), by default those of the objective register; vectors of objectives compare by dominance; scenario aggregation is the declared statistic of each objective; the graph tools return the neighbours, attributes, ancestors, descendants and loops of the graph given.',
  ['inputs'], 'All objective registers, weights, handlings, scenario sets and graphs (directed or not).', 'Not covered by a running test.',
  [DO + 'generic_tools/do_problem.py', DO + 'generic_tools/graph_api.py', B + 'scheduling/graph_toolbox.py'], [('objective aggregation', DO + 'generic_tools/do_problem.py'), ('graph wrapper', DO + 'generic_tools/graph_api.py')])
p('O14', 'Exact scheduling solvers find a shortest schedule, also around an imposed part',
  'Constraint and integer programming solvers of single- and multi-mode projects, run to completion, return only schedules that respect durations, precedence and resources (constraint models: also their calendars), each with its true makespan as score, and the best one is as short as any schedule. When part of the schedule is imposed (start times, orders, simultaneous or consecutive starts, delays, modes), every schedule returned keeps to it and the best is the shortest that does; the mode search returns exactly the mode choices that the non-renewable resources permit.',
  ['inputs'], 'All small projects and imposed parts, compared with exhaustive enumeration of schedules.', 'Not covered by a running test.',
  [DO + 'rcpsp/solver/cp_solvers.py', DO + 'rcpsp/solver/rcpsp_lp_solver.py', DO + 'rcpsp/minizinc/'], [('constraint models', DO + 'rcpsp/solver/cp_solvers.py'), ('integer programs', DO + 'rcpsp/solver/rcpsp_lp_solver.py')])
p('O15', 'Large neighbourhood search keeps its start within reach and loses no solution',
  'Each neighbourhood holds the solution it is built from: solving it, for knapsack, coloring, facility location and single- or multi-mode scheduling, gives only feasible solutions with true scores that keep the part chosen to be fixed (all at most as good as the optimum, reaching it when nothing is fixed), the best of them no worse than that solution; afterwards the model is the original one again. A whole search stores every solution met, among them the best as its best, in the direction of optimisation of the problem; it is never worse than its starting solution, goes on after iterations that find nothing, and respects its limits on iterations, with or without improvement.',
  ['inputs', 'histories'], 'All small problems, starting solutions, fractions and parts fixed, and all scripts of solutions found per iteration.', 'Not covered by a running test.',
  [DO + 'generic_tools/lns_cp.py', DO + 'generic_tools/lns_mip.py', DO + 'rcpsp/solver/rcpsp_cp_lns_solver.py', DO + 'rcpsp/solver/rcpsp_lp_lns_solver.py', DO + 'knapsack/solvers/', DO + 'coloring/solvers/', DO + 'facility/solvers/'],
  [('search loops', DO + 'generic_tools/lns_cp.py, ' + DO + 'generic_tools/lns_mip.py'), ('neighbourhoods of schedules', DO + 'rcpsp/solver/rcpsp_cp_lns_solver.py')])
p('O16', 'Multi-skill solvers find a shortest project and never break its rules',
  'For projects whose tasks need skills of units with calendars, resources with calendars, modes and precedences: the constraint and integer-programming solvers return only feasible schedules (precedences, resources, units present, on one task at a time, with the skills the task needs, all of it in the mode chosen) with their true makespan, the best as short as any feasible schedule, also when skills must be met exactly, when a task takes at most one unit, and around imposed start times, modes, orders, simultaneous starts and delays. Post-processing moves tasks only earlier and keeps modes, units and feasibility; a neighbourhood holds the schedule it is built from and keeps the part fixed; a whole search only returns feasible schedules with true scores, never worse than its start.',
  ['inputs', 'histories'], 'All small multi-skill projects, imposed parts, schedules, fractions fixed and seeds.', 'Not covered by a running test.',
  [DO + 'rcpsp_multiskill/solvers/', DO + 'rcpsp_multiskill/minizinc/'],
  [('constraint solver', DO + 'rcpsp_multiskill/solvers/cp_solvers.py'), ('integer program', DO + 'rcpsp_multiskill/solvers/lp_model.py'), ('moving tasks earlier', DO + 'rcpsp_multiskill/solvers/lns_post_process_rcpsp.py'), ('neighbourhoods', DO + 'rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py')])
p('O17', 'Any solver offered for a project gives feasible schedules and true makespans',
  'For projects with or without calendars, one or several modes, and skills: the solvers offered for the class of a project, called by class with their default settings in the tables of solvers, return at least one schedule when one exists, every schedule feasible with its true makespan as its score, never shorter than the shortest feasible schedule, and equal to it for the exact solvers. Solvers that walk through orders and modes may also hold schedules flagged infeasible, with a prohibitive score; the solver that first ignores calendars marks as feasible only schedules that respect them; no schedule is returned for an impossible project.',
  ['inputs'], 'All small projects and multi-skill projects, each solver of the tables, few iterations.', 'Not covered by a running test.',
  [DO + 'rcpsp/rcpsp_solvers.py', DO + 'rcpsp/solver/', DO + 'rcpsp_multiskill/rcpsp_multiskill_solvers.py', DO + 'rcpsp_multiskill/solvers/'],
  [('table of solvers', DO + 'rcpsp/rcpsp_solvers.py'), ('table of multi-skill solvers', DO + 'rcpsp_multiskill/rcpsp_multiskill_solvers.py'), ('solver that first ignores calendars', DO + 'rcpsp/solver/calendar_solver_iterative.py')])
p('O18', 'What is derived from a project and its schedules agrees with them',
  'For every project and schedule: resource profiles give the consumption at every date (before or after the date, as asked); the schedule by unit gives each task exactly the units it needs, during all of it, no unit doing two things at once; differences and rank correlations of schedules are exact; uncertain variants keep every value in the declared range (extremes, means, percentiles and samples each meaning what they say) and everything else unchanged; variants with helper tasks keep the tasks and precedences of the original project, are the same for the same seed, and their schedules stay valid with helper tasks only moved later; comparing models over scenarios uses each scenario either for training or for tests, gives the models their declared meaning, and reports how every solution really fares in every test scenario; none of these alters the project it starts from.',
  ['inputs'], 'All small projects with and without calendars, all ranges and percentiles sampled.', 'Not covered by a running test.',
  [DO + 'rcpsp/rcpsp_utils.py', DO + 'rcpsp/rcpsp_model.py', DO + 'rcpsp/rcpsp_data_generator.py', DO + 'generic_tools/robustness/robustness_tool.py'],
  [('profiles and unit schedules', DO + 'rcpsp/rcpsp_utils.py'), ('UncertainRCPSPModel, RCPSP_H_Model', DO + 'rcpsp/rcpsp_model.py'), ('helper task generator', DO + 'rcpsp/rcpsp_data_generator.py'), ('RobustnessTool', DO + 'generic_tools/robustness/robustness_tool.py')])
HUB = 'cpp/src/hub/solver/'
p('P01', 'The C++ A* finds optimal plans from every state it is asked to solve',
  'For every deterministic world with positive costs and a consistent heuristic, and every order of solving from several states and clearing: after solving from a state, a solution is defined for it exactly when a goal can be reached; following the actions given leads to a goal at the least possible cost, and the values are the costs still to pay, also for every other state a solution is defined for; earlier results stay valid after solving from elsewhere; clearing leaves nothing; a goal needs no plan.',
  ['inputs', 'histories'], 'All small deterministic worlds, consistent heuristics and orders of solving.', 'The C++ part is neither built nor tested by the tests.',
  [HUB + 'astar.hh', 'cpp/src/utils/'], [('search and backups', HUB + 'astar.hh')])
p('P02', 'The C++ AO* finds optimal policies of loop-free uncertain worlds',
  'For every loop-free world with uncertain outcomes and a heuristic never above the true cost, any discount and number of tips expanded at once, and every order of solving from several states and clearing: the policy given from each state solved covers every state it can meet, ends in goals, and has the least expected (discounted) cost, which is the value given; values of other states are never above the true ones. With loop detection on, a world with loops is either solved or reported as such, and a loop is only reported where there is one.',
  ['inputs', 'histories'], 'All small loop-free worlds (loops: reported), admissible heuristics, orders of solving.', 'The C++ part is neither built nor tested by the tests.',
  [HUB + 'aostar.hh', 'cpp/src/utils/'], [('search and backups', HUB + 'aostar.hh')])
p('P03', 'The C++ ILAO* finds near-optimal policies of uncertain worlds with loops',
  'For every world where all states can reach a goal, positive costs, heuristics never above the true cost, any discount and precision, and every order of solving from several states and clearing: the policy given from each state solved covers every state it can meet, reaches a goal with certainty when costs are not discounted, and its expected cost and its values are within the precision asked (times the expected number of steps) of the optimum; values never exceed the true ones; clearing leaves nothing.',
  ['inputs', 'histories'], 'All small worlds with loops and without dead ends, admissible heuristics, orders of solving.', 'The C++ part is neither built nor tested by the tests.',
  [HUB + 'ilaostar.hh', 'cpp/src/utils/'], [('search, value iteration, error bound', HUB + 'ilaostar.hh')])
p('P04', 'The C++ LRTDP labels only near-optimal policies and respects its budgets',
  'For every world where all states can reach a goal, positive costs, heuristics never above the true cost, any discount and precision, and every order of solving from several states and clearing: a state solved by labelling has a policy covering every state it can meet whose cost and values are within the precision asked of the optimum; values never exceed the true ones, under any limits; no more rollouts than allowed are made, exactly as many without labels; a limit on depth never makes an unchecked policy pass for solved. Acting while forgetting the states left behind, over several episodes, gives the same guarantees in each state met, and keeps only states that can still be met.',
  ['inputs', 'histories'], 'All small worlds with loops and without dead ends, admissible heuristics, limits, trajectories.', 'The C++ part is neither built nor tested by the tests.',
  [HUB + 'lrtdp.hh', 'cpp/src/utils/'], [('trials, labelling, forgetting', HUB + 'lrtdp.hh')])
p('P05', 'The C++ width-based planners find valid plans whenever there is one',
  'For every deterministic world, features and heuristic, and every order of solving from several states and clearing: after solving from a state, BFWS (keyed by states, or by features that identify them) and IW (with such features, any ordering of nodes, with or without time left to improve) define a solution for it exactly when a goal can be reached; following the actions given leads to a goal, from every state a solution is defined for, and the value is the cost of that plan; earlier results stay valid; clearing leaves nothing; IW does not go on from terminal states.',
  ['inputs', 'histories'], 'All small deterministic worlds, features, orderings and orders of solving.', 'The C++ part is neither built nor tested by the tests.',
  [HUB + 'bfws.hh', HUB + 'iw.hh', 'cpp/src/utils/'], [('BFWS', HUB + 'bfws.hh'), ('IW', HUB + 'iw.hh')])
p('P06', 'The C++ planners keep their guarantees when they run in parallel',
  'Whatever the interleaving of the threads of a parallel execution: A*, AO*, ILAO*, BFWS and IW give the guarantees they give sequentially (optimal plans and values, complete optimal policies, valid plans whenever there is one, results that stay valid over several solves, clearing); LRTDP never overestimates the optimal value, gives an action for the state it solved from and stays within its rollout budget (up to one rollout per thread); nothing crashes or waits for ever.',
  ['schedules', 'inputs', 'histories'], 'Small worlds, orders of solving, and interleavings of 2 to 4 threads at callbacks, locks and atomic variables.', 'Interleavings are out of reach of unit tests, and the C++ part has none.',
  [HUB + 'astar.hh', HUB + 'aostar.hh', HUB + 'ilaostar.hh', HUB + 'lrtdp.hh', HUB + 'bfws.hh', HUB + 'iw.hh', 'cpp/src/utils/execution.hh'],
  [('ParallelExecution', 'cpp/src/utils/execution.hh'), ('AOStar expansion', HUB + 'aostar.hh')])
p('P07', 'The C++ MCTS planner plays by the rules and within its budget, without memory',
  'For every world (distributions; deterministic sampling and stepping) and order of solving and clearing: MCTS only applies applicable actions, never in terminal states; makes exactly the rollouts of its budget; only knows states that can be reached; its policy and best actions and values agree; in loop-free worlds every estimate lies between the least and the greatest return its action can have, and once all actions of the root were tried the chosen one is not dominated; planning before each action of several episodes gives legal moves with nothing left of earlier episodes, and forgetting unreachable states keeps only states that can still be met.',
  ['inputs', 'histories'], 'Small worlds with terminal states, transition modes, budgets, histories and episodes.', 'The C++ part is neither built nor tested by the tests.',
  [HUB + 'mcts.hh', 'cpp/src/utils/'], [('MCTSSolver', HUB + 'mcts.hh'), ('DefaultRolloutPolicy', HUB + 'mcts.hh')])
p('P08', 'The C++ RIW planner finds best returns where features tell states apart',
  'For every deterministic loop-free world, keyed by states or features, sampled or stepped, with a large budget and a feature telling all states apart: after solving, every state that can be met has the best return within the depth limit as its value (in trees; without limit in graphs with shared states) and a best action; with other features (in trees), every estimate is backed up from the explored children or that of a pruned or last state; known states can be met, budgets hold, policy and values agree; episodes planned step by step take legal, best actions with nothing left of earlier episodes, and forgetting keeps only states that can still be met.',
  ['inputs', 'histories'], 'Small loop-free deterministic worlds, features, depth limits, modes, histories and episodes.', 'The C++ part is neither built nor tested by the tests.',
  [HUB + 'riw.hh', 'cpp/src/utils/'], [('RIWSolver', HUB + 'riw.hh'), ('novelty', HUB + 'riw.hh')])
p('P09', 'Python planner wrappers neither change nor lose what passes through them',
  'For each of A*, AO*, ILAO*, LRTDP, IW, BFWS, RIW, MCTS and UCT in Python, sequential or in parallel over pipes or shared memory, and for every set of options, user functions and sequence of calls: the planner gets the options as given; its goal tests, heuristics, features, terminations and policies answer for each state as the domain and user functions do; a search runs exactly when asked for or when no plan is known (each time if planning is continuous); actions, values, statistics and whether a plan is defined are the planner\'s, with some action of the domain where it has none; reset forgets (IW, RIW, MCTS); solving again starts afresh; no worker is left after closing.',
  ['inputs', 'histories'], 'Tables of four states and three actions, options, user functions and histories of up to nine calls, over a stand-in for the compiled library.',
  'The compiled library is not part of the test environment, so none of the wrappers is ever imported.',
  ['skdecide/hub/solver/lrtdp/lrtdp.py', 'skdecide/hub/solver/riw/riw.py', 'skdecide/hub/solver/mcts/mcts.py', 'skdecide/hub/solver/iw/iw.py', 'skdecide/hub/solver/bfws/bfws.py', 'skdecide/hub/solver/astar/astar.py',
   'skdecide/hub/solver/aostar/aostar.py', 'skdecide/hub/solver/ilaostar/ilaostar.py', 'skdecide/builders/solver/parallelability.py'],
  [('LRTDP', 'skdecide/hub/solver/lrtdp/lrtdp.py'), ('MCTS', 'skdecide/hub/solver/mcts/mcts.py'), ('ParallelSolver', 'skdecide/builders/solver/parallelability.py')])
p('S08', 'GPHH features, fitness and policies follow from their definitions',
  'For every small project with one mode per task and constant or growing availability, and every priority rule built from the features and operators: each feature is what its definition says of the task and state; the fitness of a rule is the mean makespan of the schedules its order gives, or its mean distance to the reference orders plus the share of the most common value; policies (single rule, or a pool\'s mean or median without extremes) start only what the rule\'s order, replanned around what has started, allows, and execute feasible schedules; after solving, the best rule is the best of all evaluated.',
  ['inputs', 'histories'], 'Projects of up to six tasks, random rules, sets of rules and reference orders; whole executions.', 'No test runs GPHH; which rule order a state leads to depends on the whole execution.',
  ['skdecide/hub/solver/gphh/gphh.py'], [('feature functions', 'skdecide/hub/solver/gphh/gphh.py'), ('GPHHPolicy', 'skdecide/hub/solver/gphh/gphh.py')])
TECH = {}
NOTE = {}
NA = {}
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
