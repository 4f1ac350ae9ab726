"""O15: large neighbourhood search: neighbourhoods that hold the solution they start from, nothing worse returned, nothing left behind."""
import random
from contextlib import contextmanager
from itertools import product

from hypothesis import strategies as st

from checks import o14
from checks.o09 import chromatic, cp, load, milp, mip, storage
from harness import dodomain as dd
from harness import rcpspdomain as rd
from harness import mzn  # noqa: F401
from harness.api import Discard, Sub, eq, require
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName, ParametersCP
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, Problem, Solution
from skdecide.builders.discrete_optimization.generic_tools.do_problem import EncodingRegister, ObjectiveHandling, ObjectiveRegister, TypeObjective
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import MilpSolverName
from skdecide.builders.discrete_optimization.generic_tools.lns_cp import LNS_CP
from skdecide.builders.discrete_optimization.generic_tools.lns_mip import LNS_MILP
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage

RULE = 'Small problems with a feasible solution to start from; non-trivial as stated per sub-check.'
ASSUMPTIONS = ['Constraint models run on Gecode, integer programs on CBC (Gurobi and Chuffed are absent)',
               'the models of facility location and scheduling are those which can express the starting solution (no pruning, horizon at least its end)']


# ------------------------------------------------------------------------------------------------ the loops, with scripted solvers
class Toy(Problem):
    def __init__(self, sense):
        self.sense = sense

    def evaluate(self, s):
        return {'v': s.v}

    def satisfy(self, s):
        return True

    def get_solution_type(self):
        return ToySolution

    def get_attribute_register(self):
        return EncodingRegister({})

    def get_objective_register(self):
        return ObjectiveRegister(objective_sense=self.sense, objective_handling=ObjectiveHandling.SINGLE,
                                 dict_objective_to_doc={'v': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}})


class ToySolution(Solution):
    def __init__(self, v, k):
        self.v, self.k = v, k

    def copy(self):
        return ToySolution(self.v, self.k)

    def change_problem(self, p):
        pass

    def __repr__(self):
        return 'toy %s (%s)' % (self.k, self.v)


class Status:
    status = 'scripted'


@st.composite
def scripts(draw):
    n = draw(st.integers(1, 8))
    values = st.integers(0, 6)
    runs = [draw(st.one_of(st.lists(values, min_size=1, max_size=3), st.lists(values, min_size=1, max_size=3), st.sampled_from([[], None]))) for _ in range(n)]
    first = draw(st.lists(values, min_size=1, max_size=2))
    return dict(max=draw(st.booleans()), runs=runs, first=first, stop=draw(st.one_of(st.none(), st.integers(0, 4))), skip=draw(st.integers(0, 3)) == 0,
                post=draw(st.one_of(st.none(), st.lists(values, min_size=n, max_size=n))))


class Script:
    """Solver, neighbourhoods, start and post-processing that follow the script and keep a record."""

    def __init__(self, c):
        self.c = c
        self.sense = ModeOptim.MAXIMIZATION if c['max'] else ModeOptim.MINIMIZATION
        self.p = Toy(self.sense)
        self.k, self.calls, self.made, self.active, self.children = -1, [], [], [], 0
        self.instance = self

    def store(self, values, what):
        x = [(ToySolution(v, (what, i)), v) for i, v in enumerate(values)]
        self.made.append([s for s, _ in x])
        return ResultStorage(list_solution_fits=x, mode_optim=self.sense)

    # start, post-processing
    def get_starting_solution(self):
        self.calls.append('start')
        return self.store(self.c['first'], 'start')

    def build_other_solution(self, result_storage):
        if self.c['post'] is not None:
            v = self.c['post'][self.k]
            s = ToySolution(v, ('post', self.k))
            self.made.append([s])
            result_storage.add_solution(s, v)
        return result_storage

    # constraint solver
    @contextmanager
    def branch(self):
        self.children += 1
        self.active = []
        yield self
        self.active = []

    def solve(self, timeout=None, intermediate_solutions=None, parameters_milp=None, **kw):
        self.k += 1
        self.calls.append(('solve', timeout.total_seconds() if timeout is not None else None, list(self.active), intermediate_solutions))
        if parameters_milp is not None:
            return self.retrieve_solutions(None, None)
        return Status

    def retrieve_solutions(self, result, parameters_cp):
        values = self.c['runs'][self.k]
        if values is None:
            raise RuntimeError('no solution found')
        return self.store(values, self.k)

    # neighbourhoods
    def adding_constraint_from_results_store(self, cp_solver=None, child_instance=None, result_storage=None, milp_solver=None):
        require((cp_solver or milp_solver) is self and (milp_solver is not None or child_instance is self), 'neighbourhood built for another solver')
        best = (max if self.c['max'] else min)(f for _, f in result_storage.list_solution_fits)
        cons = ('fix', len([1 for x in self.calls if x[0] == 'add']), best)
        self.calls.append(('add', [s.k for s, _ in result_storage.list_solution_fits]))
        self.active.append(cons)
        return {'fix': cons}

    def remove_constraints_from_previous_iteration(self, cp_solver=None, child_instance=None, previous_constraints=None, milp_solver=None):
        self.calls.append(('remove', previous_constraints.get('fix')))
        if 'fix' in previous_constraints:
            self.active.remove(previous_constraints['fix'])


def better(c, a, b):
    return a > b if c['max'] else a < b


def check_store(c, s, store, used, what):
    """All solutions met are stored, the best one among them."""
    all_ = [x for l in s.made for x in l]
    got = [x for x, _ in store.list_solution_fits]
    eq(sorted(id(x) for x in got), sorted(id(x) for x in all_), what + ': solutions stored')
    for x, f in store.list_solution_fits:
        eq(f, x.v, what + ': score stored')
    x, f = store.get_best_solution_fit()
    eq(f, (max if c['max'] else min)(y.v for y in all_), what + ': best score')


def loop_cp(c, ctx):
    c = dict(c)
    if c['skip'] and not c['runs'][0]:
        c['runs'] = [[3]] + c['runs'][1:]
    s = Script(c)
    lns = LNS_CP(problem=s.p, cp_solver=s, initial_solution_provider=s, constraint_handler=s, post_process_solution=s)
    q = ParametersCP.default()
    q.TimeLimit, q.TimeLimit_iter0 = 7, 11
    store = lns.solve_lns(parameters_cp=q, nb_iteration_lns=len(c['runs']), nb_iteration_no_improvement=c['stop'], skip_first_iteration=c['skip'])
    # reference
    stop = 2 * len(c['runs']) if c['stop'] is None else c['stop']
    calls, best, known, still = [], None, [], 0
    if not c['skip']:
        calls.append('start')
        known = [('start', i) for i in range(len(c['first']))]
        best = (max if c['max'] else min)(c['first'])
    for k, values in enumerate(c['runs']):
        active = []
        if k > 0 or not c['skip']:
            calls.append(('add', list(known)))
            active = [('fix', len([1 for x in calls if x[0] == 'add']) - 1, best)]
        calls.append(('solve', 11.0 if k == 0 else 7.0, active, q.intermediate_solution))
        if values:
            new = list(values) + ([c['post'][k]] if c['post'] is not None else [])
            v = (max if c['max'] else min)(new)
            known += [(k, i) for i in range(len(values))] + ([('post', k)] if c['post'] is not None else [])
            if best is None or better(c, v, best):
                best, still = v, 0
            else:
                still += 1
        else:
            still += 1
        if still > stop:
            break
    eq(s.calls, calls, 'cp: calls')
    check_store(c, s, store, None, 'cp')
    eq(store.get_best_solution_fit()[1], best, 'cp: best')
    ctx.nontrivial(len(calls) >= 6 and len(known) >= 4)
    ctx.label('stopped early' if calls and len([1 for x in calls if x[0] == 'solve']) < len(c['runs']) else None, 'failures' if any(not x for x in c['runs']) else None)


def loop_milp(c, ctx):
    c = dict(c, runs=[x or [2] for x in c['runs']])
    s = Script(c)
    lns = LNS_MILP(problem=s.p, milp_solver=s, initial_solution_provider=s, constraint_handler=s, post_process_solution=s)
    store = lns.solve_lns(parameters_milp=milp(), nb_iteration_lns=len(c['runs']), nb_iteration_no_improvement=c['stop'], skip_first_iteration=c['skip'])
    check_store(c, s, store, None, 'milp')
    solves = [x for x in s.calls if x[0] == 'solve']
    for k, x in enumerate(solves):
        eq(len(x[2]), 0 if k == 0 and c['skip'] else 1, 'milp: neighbourhoods active in iteration %d' % k)
    eq([x[2][0][1] for x in solves if x[2]], list(range(len([x for x in solves if x[2]]))), 'milp: neighbourhood of each iteration')
    best = None if c['skip'] else (max if c['max'] else min)(c['first'])
    stop = 2 * len(c['runs']) if c['stop'] is None else c['stop']
    since, longest = 0, 0
    for k in range(len(solves)):
        require(since <= stop, 'milp: iteration %d although %d iterations had brought no improvement, with %d allowed', k, since, stop)
        v = (max if c['max'] else min)(c['runs'][k] + ([c['post'][k]] if c['post'] is not None else []))
        if best is None or better(c, v, best):
            best, since = v, 0
        else:
            since += 1
        longest = max(longest, since)
    require(len(solves) == len(c['runs']) or since > stop, 'milp: stops after %d of %d iterations, the last %d without improvement, %d allowed', len(solves), len(c['runs']), since, stop)
    eq(store.get_best_solution_fit()[1], best, 'milp: best')
    ctx.nontrivial(len(solves) >= 3 and longest >= 1)
    ctx.label('stopped early' if len(solves) < len(c['runs']) else None)


# ------------------------------------------------------------------------------------------------ knapsack, coloring, facility location
def feasibles(c):
    """All feasible solutions with their scores."""
    if c['world'] == 'knapsack':
        out = [(t, dd.ref_knapsack(c, t)) for t in product([0, 1], repeat=len(c['items']))]
        return [(t, v['value']) for t, (v, ok) in out if ok]
    if c['world'] == 'coloring':
        k = c['colors']
        return [(t, -len(set(t))) for t in product(range(k), repeat=c['n']) if set(t) == set(range(max(t) + 1)) and all(t[a] != t[b] for a, b in c['edges'])]
    out = [(t, dd.ref_facility(c, t)) for t in product(range(len(c['fac'])), repeat=len(c['cust']))]
    return [(t, -(v['cost'] + v['setup_cost'])) for t, (v, ok) in out if ok]


@st.composite
def worlds(draw, world, how):
    if world == 'knapsack':
        c = draw(dd.knapsack(max_items=7, positive=True))
        n = len(c['items'])
        first = draw(st.sampled_from([0, 0, 1, 5]))
        c['index'] = [first + k for k in range(n)]
        if draw(st.booleans()):
            c['index'] = draw(st.permutations(c['index']))
        c['mobj'] = False
        c['cap'] = draw(st.integers(1, max(2, sum(w for _, w in c['items']) * 2 // 3)))
    elif world == 'coloring':
        c = draw(dd.coloring(max_nodes=6))
        c['colors'] = min(c['n'], chromatic(c) + draw(st.integers(0, 2)))
    else:
        c = draw(dd.facility(max_fac=3, max_cust=5))
    c['world'], c['how'] = world, how
    c['pick'] = draw(st.integers(0, 10 ** 4))
    c['worst'] = draw(st.booleans())
    c['fraction'] = draw(st.sampled_from([0, 0.3, 0.5, 0.8, 0.9, 1, 1]))
    c['seed'] = draw(st.integers(0, 1000))
    c['flags'] = [draw(st.booleans()) for _ in range(3)]
    c['iters'] = draw(st.integers(1, 3))
    c['greedy'] = draw(st.booleans())
    return c


def setting(c):
    """Problem, solver (model built), neighbourhood, start, functions: scores of a solution, its plain values, solution of plain values."""
    world, how, fl = c['world'], c['how'], c['flags']
    if world == 'knapsack':
        p = dd.build_knapsack(c)
        from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackSolution
        m = load('knapsack.solvers.knapsack_lns_solver', True)
        if how == 'mip':
            s = load('knapsack.solvers.lp_solvers', True).LPKnapsack(p, milp_solver_name=MilpSolverName.CBC)
            h = m.ConstraintHandlerKnapsack(p, c['fraction'])
        else:
            k = load('knapsack.solvers.knapsack_lns_cp_solver', True)
            s = k.CPKnapsackMZN2(p, cp_solver_name=CPSolverName.GECODE)
            h = k.ConstraintHandlerKnapsack(p, c['fraction'])
        s.init_model()
        first = m.InitialKnapsackSolution(p, m.InitialKnapsackMethod.GREEDY if c['greedy'] else m.InitialKnapsackMethod.DUMMY, s.params_objective_function)
        return (p, s, h, first, lambda x: dd.ref_knapsack(c, x.list_taken), lambda x: tuple(x.list_taken),
                lambda t: KnapsackSolution(problem=p, list_taken=list(t)), {'value': 1, 'weight_violation': -100000}, None)
    if world == 'coloring':
        p = dd.build_coloring(c)
        from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringSolution
        post = None
        if how == 'mip':
            m = load('coloring.solvers.coloring_lp_lns_solvers', True)
            s = m.ColoringLP_MIP(p, params_objective_function=None, milp_solver_name=MilpSolverName.CBC)
            s.init_model(greedy_start=False, use_cliques=fl[0])
            h = m.ConstraintHandlerFixColorsPyMip(p, c['fraction'])
        else:
            m = load('coloring.solvers.coloring_cp_lns_solvers')
            k = load('coloring.solvers.coloring_cp_solvers')
            s = k.ColoringCP(p, params_objective_function=None)
            s.init_model(cp_model=k.ColoringCPModel.DEFAULT, nb_colors=c['n'])  # the other one breaks symmetries between colours
            h = m.ConstraintHandlerFixColorsCP(p, c['fraction'])
            post = m.PostProcessSolutionColoring(p, None) if fl[1] else None
        first = m.InitialColoring(p, m.InitialColoringMethod.GREEDY if c['greedy'] else m.InitialColoringMethod.DUMMY, s.params_objective_function)
        return (p, s, h, first, lambda x: dd.ref_coloring(c, x.colors), lambda x: tuple(x.colors), lambda t: ColoringSolution(p, list(t)),
                {'nb_colors': -1, 'nb_violations': -100}, post)
    p = dd.build_facility(c)
    from skdecide.builders.discrete_optimization.facility.facility_model import FacilitySolution
    m = load('facility.solvers.facility_lp_lns_solver', True)
    s = m.LP_Facility_Solver_PyMip(p, MilpSolverName.CBC, None)
    s.init_model(use_matrix_indicator_heuristic=False)
    h = m.ConstraintHandlerFacility(p, c['fraction'], skip_first_iter=False)
    first = m.InitialFacilitySolution(p, m.InitialFacilityMethod.GREEDY if c['greedy'] else m.InitialFacilityMethod.DUMMY, s.params_objective_function)
    return (p, s, h, first, lambda x: dd.ref_facility(c, x.facility_for_customers), lambda x: tuple(x.facility_for_customers),
            lambda t: FacilitySolution(p, list(t)), {'cost': -1, 'setup_cost': -1, 'capacity_constraint_violation': -10000}, None)


def neighbourhood(c, ctx):
    """One neighbourhood of a given solution, and the model once it is left."""
    feas = feasibles(c)
    if not feas:
        raise Discard
    best = max(f for _, f in feas)
    pool = sorted(feas, key=lambda x: x[1])[:max(1, len(feas) // 3)] if c['worst'] else feas
    t, f = pool[c['pick'] % len(pool)]
    p, s, h, _, ref, plain, make, w, _ = setting(c)
    random.seed(c['seed'])
    inc = make(t)
    store = ResultStorage(list_solution_fits=[(inc, sum(w[k] * v for k, v in p.evaluate(inc).items() if k in w))], mode_optim=s.params_objective_function.sense_function)
    if c['how'] == 'mip':
        cons = h.adding_constraint_from_results_store(milp_solver=s, result_storage=store)
        r = s.solve(milp(c['flags'][2]))
    else:
        with s.instance.branch() as child:
            h.adding_constraint_from_results_store(cp_solver=s, child_instance=child, result_storage=store)
            from datetime import timedelta
            r = s.retrieve_solutions(child.solve(timeout=timedelta(seconds=100), intermediate_solutions=c['flags'][2]), parameters_cp=cp(c['flags'][2]))
    eq(plain(inc), t, 'solution started from, after the search')
    storage(p, r, ref, w, 'neighbourhood')
    x, g = r.get_best_solution_fit()
    require(g >= f or dd.near(g, f), 'best of the neighbourhood %r worse than the solution it is built from, %r', g, f)
    n = len(t)
    fixed = int(c['fraction'] * n)
    free = t.count(max(t)) if c['world'] == 'coloring' else 0
    for x, _ in r.list_solution_fits:
        same = sum(a == b for a, b in zip(plain(x), t))
        require(same >= fixed - free, '%s agrees with %s on %d values, %d to fix', plain(x), t, same, fixed - free)
    # the best solution that keeps as many values is no better
    reach = max(v for u, v in feas if sum(a == b for a, b in zip(u, t)) >= fixed - free)
    require(g <= reach or dd.near(g, reach), 'score %r, out of reach of the neighbourhood (%r)', g, reach)
    if fixed == 0:
        require(dd.near(g, best), 'nothing fixed: %r, optimum %r', g, best)
    if c['how'] == 'mip':
        h.remove_constraints_from_previous_iteration(milp_solver=s, previous_constraints=cons)
        s.model.start = []
        r = s.solve(milp(c['flags'][2]))
    else:
        r = s.retrieve_solutions(s.instance.solve(intermediate_solutions=True), parameters_cp=cp())
    g2 = storage(p, r, ref, w, 'after')[1]
    require(dd.near(g2, best), 'model after the neighbourhood: %r, optimum %r', g2, best)
    ctx.label('improved' if not dd.near(g, f) else None, 'fraction %s' % c['fraction'])
    ctx.nontrivial(len(feas) >= 3 and not dd.near(f, best))


def search(c, ctx):
    """Complete searches."""
    feas = feasibles(c)
    if not feas:
        raise Discard
    best = max(f for _, f in feas)
    p, s, h, first, ref, plain, make, w, post = setting(c)
    if c['world'] == 'facility':
        left, f = [x[1] for x in c['fac']], 0
        for d, _, _ in c['cust']:  # start: facilities filled in turn
            if left[f] < d:
                f += 1
            if f >= len(left) or left[f] < d:
                raise Discard
            left[f] -= d
        if not c['greedy']:
            raise Discard
    random.seed(c['seed'])
    start = first.get_starting_solution()
    random.seed(c['seed'])
    storage(p, start, ref, w, 'start')
    f0 = start.get_best_solution_fit()[1]
    if c['how'] == 'mip':
        r = LNS_MILP(p, s, first, h, post, s.params_objective_function).solve_lns(milp(c['flags'][2]), c['iters'])
    else:
        r = LNS_CP(p, s, first, h, post, s.params_objective_function).solve_lns(cp(c['flags'][2]), c['iters'])
    _, f = storage(p, r, ref, w, 'search')
    require(f >= f0 or dd.near(f, f0), 'best %r worse than the start %r', f, f0)
    require(f <= best or dd.near(f, best), 'best %r better than the optimum %r', f, best)
    if int(c['fraction'] * len(plain(r.get_best_solution_fit()[0]))) == 0:
        require(dd.near(f, best), 'nothing fixed: %r, optimum %r', f, best)
    ctx.label('improved' if not dd.near(f, f0) else None)
    ctx.nontrivial(len(feas) >= 3 and not dd.near(f0, best))


# ------------------------------------------------------------------------------------------------ scheduling
@st.composite
def projects(draw, how):
    c = draw(o14.projects((how,)))
    v = draw(rd.vectors(c, wild=False))
    wait = [draw(st.sampled_from([0, 0, 0, 1, 2])) for _ in range(c['n'])]
    c['modes_'] = v['modes']
    s = o14.delayed(c, v['perm'], v['modes'], wait)
    if s is None or max(b for _, b in s.values()) > o14.latest(c):
        s = o14.delayed(c, v['perm'], v['modes'], [0] * c['n'])
    if s is None or not rd.nr_ok(c, v['modes']) or max(b for _, b in s.values()) > o14.latest(c):
        s = None
    c['witness'] = None if s is None else [s[i][0] for i in range(c['n'])]
    c['fraction'] = draw(st.sampled_from([0, 0.3, 0.5, 0.8, 1, 1]))
    c['delta'] = [draw(st.integers(0, 2)), draw(st.integers(0, 2))]
    c['last'] = draw(st.sampled_from([-1, -1, 0, 2, 5]))
    c['parts'] = draw(st.integers(1, 3))
    c['handler'] = draw(st.sampled_from({'lp-single': ['fix', 'interval'], 'lp': ['interval-modes'], 'cp': ['interval', 'part', 'mix'], 'cp-single': ['interval', 'part', 'mix']}[how]))
    c['seed'] = draw(st.integers(0, 1000))
    c['iters'] = draw(st.integers(1, 3))
    c['first'] = draw(st.sampled_from(['DUMMY', 'PILE', 'PILE_CALENDAR']))
    return c


def scheduler(c, p, start):
    how, fl = c['how'], c['flags']
    f, (a, b) = c['fraction'], c['delta']
    if how in ('lp', 'lp-single'):
        m = load('rcpsp.solver.rcpsp_lp_lns_solver', True)
        s = (m.LP_RCPSP if how == 'lp-single' else m.LP_MRCPSP)(p)
        s.init_model(greedy_start=False, **({'start_solution': start} if start is not None else {}))
        h = {'fix': lambda: m.ConstraintHandlerFixStartTime(p, f), 'interval': lambda: m.ConstraintHandlerStartTimeInterval(p, f, a, b),
             'interval-modes': lambda: m.ConstraintHandlerStartTimeIntervalMRCPSP(p, f, a, b)}[c['handler']]()
    else:
        load('rcpsp.solver.rcpsp_lp_lns_solver', True)
        m = load('rcpsp.solver.rcpsp_cp_lns_solver', True)
        s = (m.CP_RCPSP_MZN if how == 'cp-single' else m.CP_MRCPSP_MZN)(p, cp_solver_name=CPSolverName.GECODE if fl[0] else CPSolverName.CHUFFED)
        s.init_model(output_type=True)
        h = {'interval': lambda: m.ConstraintHandlerStartTimeInterval_CP(p, f, a, b, c['last']),
             'part': lambda: m.ConstraintHandlerByPart_CP(p, f, c['parts'], a, b, c['last']),
             'mix': lambda: m.ConstraintHandlerMix(p, [m.Params(f, a, b, c['last']), m.Params(f, a, b, c['last'])], [0.5, 0.5])}[c['handler']]()
    return s, h


def schedule_neighbourhood(c, ctx):
    if c['witness'] is None:
        raise Discard
    p = rd.build(c)
    how = c['how']
    best = o14.shortest(c)
    inc = o14.as_solution(c, p, c['witness'], c['modes_'])
    start = {i: c['witness'][i] for i in range(c['n'])}
    end = inc.rcpsp_schedule[c['n'] + 2]['end_time']
    s, h = scheduler(c, p, inc)
    random.seed(c['seed'])
    store = ResultStorage(list_solution_fits=[(inc, -end)], mode_optim=s.params_objective_function.sense_function)
    if how in ('lp', 'lp-single'):
        cons = h.adding_constraint_from_results_store(milp_solver=s, result_storage=store)
        r = s.solve(parameters_milp=milp(c['flags'][1]))
    else:
        from datetime import timedelta
        with s.instance.branch() as child:
            h.adding_constraint_from_results_store(cp_solver=s, child_instance=child, result_storage=store)
            r = s.retrieve_solutions(child.solve(timeout=timedelta(seconds=100), intermediate_solutions=c['flags'][2]), parameters_cp=cp(c['flags'][2]))
    require(len(r.list_solution_fits) > 0, 'nothing found around a schedule')
    for x, f in r.list_solution_fits:
        o14.check_solution(c, p, x, f, what='neighbourhood')
    x, f = r.get_best_solution_fit()
    require(-f <= end, 'best schedule around one that ends at %s ends at %s', end, -f)
    require(-f >= best, 'schedule of length %s, the shortest is %s', -f, best)
    # how many tasks keep to their neighbourhood
    n = c['n'] + 2
    lo, hi = (0, 0) if c['handler'] == 'fix' else c['delta']
    times = dict(start)
    dur = {i: rd.mode(c, i, c['modes_'])['d'] for i in range(c['n'])}
    slack = {'fix': None, 'interval': c['last'] if how.startswith('cp') else 5, 'interval-modes': 5, 'part': c['last'], 'mix': c['last']}[c['handler']]
    out = 0  # tasks (with source and sink) that may be left free although drawn
    if slack is not None:
        out = sum(times[i] + dur[i] >= end - slack for i in times) + 1 + (0 >= end - slack)
    if c['handler'] == 'part':
        cut = end / c['parts']
        out = sum(times[i] + dur[i] >= end - slack or 0 <= times[i] <= cut for i in times) + 2
    need = int(c['fraction'] * n) - 2 - out
    for x, _ in r.list_solution_fits:
        near = sum(times[i] - lo <= x.rcpsp_schedule[i + 2]['start_time'] <= times[i] + hi for i in times)
        require(near >= need, '%d tasks stay near their start, %d fixed', near, need)
    if int(c['fraction'] * n) == 0:
        eq(-f, best, 'nothing fixed: best schedule')
    if how in ('lp', 'lp-single'):
        h.remove_constraints_from_previous_iteration(milp_solver=s, previous_constraints=cons)
        s.model.start = []
        r = s.solve(parameters_milp=milp(c['flags'][1]))
    else:
        r = s.retrieve_solutions(s.instance.solve(intermediate_solutions=True), parameters_cp=cp())
    eq(-r.get_best_solution_fit()[1], best, 'model after the neighbourhood')
    ctx.label(c['handler'], c['kind'], 'improved' if -f < end else None)
    ctx.nontrivial(end > best and c['fraction'] > 0)


def schedule_search(c, ctx):
    p = rd.build(c)
    how = c['how']
    best = o14.shortest(c)
    m = load('rcpsp.solver.rcpsp_lp_lns_solver', True)
    if best is None or best > o14.latest(c):
        raise Discard
    if 'calendar' in c['kind'] and c['first'] == 'PILE':
        c = dict(c, first='PILE_CALENDAR')
    if how in ('lp', 'lp-single'):
        c = dict(c, first='DUMMY')  # its end bounds the model
    first = m.InitialSolutionRCPSP(p, initial_method=m.InitialMethodRCPSP[c['first']])
    start = first.get_starting_solution()
    x, f0 = start.get_best_solution_fit()
    if not (p.satisfy(x) and x.rcpsp_schedule_feasible) or -f0 > o14.latest(c):
        raise Discard  # no feasible start (modes)
    o14.check_solution(c, p, x, f0, what='start')
    s, h = scheduler(c, p, None)
    random.seed(c['seed'])
    if how in ('lp', 'lp-single'):
        r = LNS_MILP(p, s, first, h, None, get_default_objective_setup(p)).solve_lns(milp(c['flags'][2]), c['iters'])
    else:
        r = LNS_CP(p, s, first, h, None, get_default_objective_setup(p)).solve_lns(cp(c['flags'][2]), c['iters'])
    for x, f in r.list_solution_fits:
        o14.check_solution(c, p, x, f, what='search')
    f = r.get_best_solution_fit()[1]
    require(f >= f0, 'best %s worse than the start %s', f, f0)
    require(-f >= best, 'length %s, the shortest is %s', -f, best)
    if int(c['fraction'] * (c['n'] + 2)) == 0:
        eq(-f, best, 'nothing fixed: best schedule')
    ctx.label(c['handler'], c['first'], c['kind'], 'improved' if f > f0 else None)
    ctx.nontrivial(-f0 > best or c['n'] >= 3 and c['fraction'] > 0)


def both(a, b):
    """Alternately one check and the other, on the same cases."""
    def check(c, ctx):
        (a if c['seed'] % 3 else b)(c, ctx)
    return check


SUBCHECKS = [
    Sub('loop-cp', scripts, loop_cp, quick=600, thorough=6000, rule='at least two iterations and four solutions'),
    Sub('loop-milp', scripts, loop_milp, quick=600, thorough=6000, rule='at least three iterations, one without improvement'),
    Sub('knapsack-cp', lambda: worlds('knapsack', 'cp'), both(neighbourhood, search), quick=60, thorough=600, cpu_limit=60, rule='at least three feasible solutions, and the start is not optimal'),
    Sub('coloring-cp', lambda: worlds('coloring', 'cp'), both(neighbourhood, search), quick=60, thorough=600, cpu_limit=60, rule='as knapsack-cp'),
    Sub('knapsack-mip', lambda: worlds('knapsack', 'mip'), both(neighbourhood, search), quick=80, thorough=800, cpu_limit=60, rule='as knapsack-cp', native=mip('knapsack.solvers.lp_solvers')),
    Sub('coloring-mip', lambda: worlds('coloring', 'mip'), both(neighbourhood, search), quick=80, thorough=800, cpu_limit=60, rule='as knapsack-cp', native=mip('coloring.solvers.coloring_lp_solvers')),
    Sub('facility-mip', lambda: worlds('facility', 'mip'), both(neighbourhood, search), quick=80, thorough=800, cpu_limit=60, rule='as knapsack-cp', native=mip('facility.solvers.facility_lp_lns_solver')),
    Sub('rcpsp-cp-single', lambda: projects('cp-single'), both(schedule_neighbourhood, schedule_search), quick=50, thorough=600, cpu_limit=60,
        rule='the start is not optimal and part of it is fixed'),
    Sub('rcpsp-cp', lambda: projects('cp'), both(schedule_neighbourhood, schedule_search), quick=50, thorough=600, cpu_limit=60, rule='as rcpsp-cp-single'),
    Sub('rcpsp-lp-single', lambda: projects('lp-single'), both(schedule_neighbourhood, schedule_search), quick=80, thorough=800, cpu_limit=60, rule='as rcpsp-cp-single', native=mip('rcpsp.solver.rcpsp_lp_lns_solver')),
    Sub('rcpsp-lp', lambda: projects('lp'), both(schedule_neighbourhood, schedule_search), quick=80, thorough=800, cpu_limit=60, rule='as rcpsp-cp-single', native=mip('rcpsp.solver.rcpsp_lp_lns_solver')),
]
