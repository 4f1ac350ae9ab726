"""O09: exact solvers of combinatorial problems are optimal, heuristics are feasible, and all report true scores."""
import importlib
import os
import sys
from itertools import permutations, product

from hypothesis import strategies as st

from harness import dodomain as dd
from harness import mzn  # noqa: F401
from harness.boot import Stub
from harness.api import Discard, Sub, eq, require
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName, ParametersCP
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import MilpSolverName, ParametersMilp
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackSolution
from skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack import KnapsackDynProg
from skdecide.builders.discrete_optimization.knapsack.solvers.greedy_solvers import GreedyBest, GreedyDummy
from skdecide.builders.discrete_optimization.knapsack.solvers.cp_solvers import CPKnapsackMZN, CPKnapsackMZN2
from skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring import GreedyColoring, NXGreedyColoringMethod
from skdecide.builders.discrete_optimization.coloring.solvers.coloring_cp_solvers import ColoringCP, ColoringCPModel
from skdecide.builders.discrete_optimization.facility.solvers.greedy_solvers import GreedySolverFacility

DO = 'skdecide.builders.discrete_optimization.'
RULE = 'Small instances of each problem, compared with exhaustive enumeration; non-trivial as stated per sub-check.'
ASSUMPTIONS = ['MiniZinc models run on Gecode with the standard library of constraints; integer programs on CBC (Gurobi and Chuffed are absent)']


def load(module, mip=False):
    """Solvers are imported in the process of their sub-check: the CBC bundled with OR-tools and that of mip cannot be loaded together."""
    if mip:
        for pack, name in (('ortools.linear_solver', 'pywraplp'), ('ortools.constraint_solver', 'pywrapcp')):
            if pack + '.' + name not in sys.modules:
                sys.modules[pack + '.' + name] = Stub(name)
                setattr(importlib.import_module(pack), name, sys.modules[pack + '.' + name])
        steady()
    made = os.makedirs
    os.makedirs = lambda *a, **k: None  # a module creates a directory of images on import
    here = os.getcwd()
    try:
        return importlib.import_module(DO + module)
    finally:
        os.makedirs = made
        os.chdir(here)


def steady():
    """The CBC library that comes with mip crashes in its preprocessing on some feasible models: it runs without."""
    import mip
    if not hasattr(mip.Model, 'steady'):
        init = mip.Model.__init__

        def plain(self, *a, **k):
            init(self, *a, **k)
            self.preprocess = 0
        mip.Model.__init__ = plain
        mip.Model.steady = True


def cp(all_solutions=True):
    p = ParametersCP.default()
    p.TimeLimit = 100
    p.intermediate_solution = all_solutions
    p.all_solutions = False
    return p


def milp(all_solutions=True):
    p = ParametersMilp.default()
    p.TimeLimit = 100
    p.retrieve_all_solution = all_solutions
    return p


def storage(problem, st_, ref, weights, what, best=None):
    """ref(solution) -> (true scores, feasible); weights: of the aggregated score; best: true optimum of that score, if claimed."""
    pairs = st_.list_solution_fits
    require(len(pairs) > 0, '%s: no solution', what)
    for s, f in pairs:
        want, ok = ref(s)
        require(ok, '%s: infeasible solution %s', what, s)
        require(problem.satisfy(s), '%s: the problem rejects %s', what, s)
        got = problem.evaluate(s)
        for k in want:
            require(dd.near(got[k], want[k]), '%s: %s of %s is %r, not %r', what, k, s, got[k], want[k])
        true = sum(w * want[k] for k, w in weights.items())
        require(dd.near(f, true), '%s: %s has score %r, not %r', what, s, f, true)
    s, f = st_.get_best_solution_fit()
    if best is not None:
        require(dd.near(f, best), '%s: best score %r, optimum %r', what, f, best)
    return s, f


# ------------------------------------------------------------------------------------------------ knapsack
@st.composite
def knapsacks(draw, hows=('dyn', 'dyn', 'dyn', 'np', 'np', 'greedy', 'greedy', 'dummy', 'cp', 'cp2', 'cp-lns')):
    c = draw(dd.knapsack(max_items=7, positive=True))
    first = draw(st.sampled_from([0, 0, 1, 5]))
    c['index'] = [first + k for k in range(len(c['items']))]
    if draw(st.booleans()):
        c['index'] = draw(st.permutations(c['index']))
    c['mobj'] = False
    n = len(c['items'])
    c['cap'] = draw(st.integers(1, max(2, sum(w for _, w in c['items']) * 2 // 3)))
    c['how'] = draw(st.sampled_from(hows))
    c['flag'] = draw(st.booleans())
    c['warm'] = [draw(st.integers(0, 1)) for _ in range(n)]
    return c


def knapsack(c, ctx):
    p = dd.build_knapsack(c)
    how, flag = c['how'], c['flag']
    ref = lambda s: dd.ref_knapsack(c, s.list_taken)
    feasible = [t for t in product([0, 1], repeat=len(c['items'])) if dd.ref_knapsack(c, t)[1]]
    best = max(dd.ref_knapsack(c, t)[0]['value'] for t in feasible)
    warm = dict(zip(c['index'], c['warm'])) if flag else {}
    if how == 'dyn':
        r = KnapsackDynProg(p).solve(greedy_start=flag)
    elif how == 'np':
        r = KnapsackDynProg(p).solve_np(greedy_start=flag)
    elif how == 'greedy':
        r, best = GreedyBest(p).solve(), None
    elif how == 'dummy':
        r, best = GreedyDummy(p).solve(), None
    elif how == 'cp':
        s = CPKnapsackMZN(p, cp_solver_name=CPSolverName.GECODE)
        s.init_model()
        r = s.solve(parameters_cp=cp(flag))
    elif how == 'cp2':
        s = CPKnapsackMZN2(p, cp_solver_name=CPSolverName.GECODE)
        s.init_model()
        r = s.solve(parameter_cp=cp(flag))
    elif how == 'cp-lns':
        s = CPKnapsackMZN2(p, cp_solver_name=CPSolverName.GECODE)
        s.init_model()
        start = KnapsackSolution(problem=p, list_taken=list(feasible[sum(c['warm']) * 7 % len(feasible)]))
        first = p.evaluate(start)['value']
        (x,), hist = s.solve_lns(start, 0.5, 2, 100)
        v, ok = ref(x)
        require(ok and p.satisfy(x), 'cp-lns: infeasible %s', x)
        eq(p.evaluate(x)['value'], v['value'], 'cp-lns: value')
        require(v['value'] >= first, 'cp-lns: worse than its start')
        eq(hist['objective'][0], first, 'cp-lns: first value')
        eq(max(hist['objective']), v['value'], 'cp-lns: best value')
        for t, o in zip(hist['taken'], hist['objective']):
            w, ok = dd.ref_knapsack(c, t)
            require(ok and w['value'] == o, 'cp-lns: history %r scored %r', t, o)
        ctx.nontrivial(first < v['value'])
        ctx.label(how)
        return
    elif how == 'cbc':
        s = load('knapsack.solvers.lp_solvers').LPKnapsackCBC(p, params_objective_function=None)
        s.init_model(warm_start=warm)
        r = s.solve()
    else:
        s = load('knapsack.solvers.lp_solvers', True).LPKnapsack(p, milp_solver_name=MilpSolverName.CBC)
        s.init_model(warm_start=warm)
        r = s.solve(parameters_milp=milp(flag))
    storage(p, r, ref, {'value': 1, 'weight_violation': -100000}, how, best)
    ctx.label(how, 'item too heavy' if any(w > c['cap'] for _, w in c['items']) else None, 'indices' if c['index'] != list(range(len(c['items']))) else None)
    ctx.nontrivial(len(feasible) >= 4 and len(feasible) < 2 ** len(c['items']))


# ------------------------------------------------------------------------------------------------ coloring
@st.composite
def colorings(draw, hows=('greedy', 'greedy', 'cp', 'cp', 'cliques', 'lns')):
    c = draw(dd.coloring(max_nodes=7))
    c['how'] = draw(st.sampled_from(hows))
    c['strategy'] = draw(st.sampled_from([m.name for m in NXGreedyColoringMethod]))
    c['flags'] = [draw(st.booleans()) for _ in range(3)]
    return c


def chromatic(c):
    for k in range(1, c['n'] + 1):
        if any(all(t[a] != t[b] for a, b in c['edges']) for t in product(range(k), repeat=c['n'])):
            return k


def coloring(c, ctx):
    p = dd.build_coloring(c)
    how, fl = c['how'], c['flags']
    order = sorted(range(c['n']), key=lambda k: p.index_nodes_name[3 * k + 1])
    eq(order, list(range(c['n'])), 'order of nodes')
    ref = lambda s: dd.ref_coloring(c, s.colors)
    k = chromatic(c)
    best = -k
    if how == 'greedy':
        r, best = GreedyColoring(p).solve(strategy=NXGreedyColoringMethod[c['strategy']]), None
    elif how == 'lp':
        s = load('coloring.solvers.coloring_lp_solvers', True).ColoringLP_MIP(p, params_objective_function=None, milp_solver_name=MilpSolverName.CBC)
        s.init_model(greedy_start=fl[0], use_cliques=fl[1])
        r = s.solve(parameters_milp=milp())
    else:
        s = ColoringCP(p, params_objective_function=None)
        if how == 'lns':
            x, fit = s.solve_lns(fraction_to_fix=0.5, nb_iteration=2, parameters_cp=cp(fl[2]), greedy_start=fl[0],
                                 cp_model=ColoringCPModel.LNS)
            v, ok = ref(x)
            require(ok and p.satisfy(x), 'lns: infeasible %s', x)
            eq(fit, v, 'lns: scores')
            ctx.nontrivial(k >= 3)
            ctx.label(how)
            return
        s.init_model(cp_model=ColoringCPModel.CLIQUES if how == 'cliques' else ColoringCPModel.DEFAULT, greedy_start=fl[0])
        r = s.solve(parameters_cp=cp(fl[2]))
    x, f = storage(p, r, ref, {'nb_colors': -1, 'nb_violations': -100}, how, best)
    ctx.label(how, c['strategy'] if how == 'greedy' else None)
    ctx.nontrivial(k >= 3)


# ------------------------------------------------------------------------------------------------ facility location
@st.composite
def facilities(draw, hows=('greedy', 'cp', 'cp', 'cp', 'lns', 'lns')):
    c = draw(dd.facility(max_fac=4, max_cust=5))
    c['how'] = draw(st.sampled_from(hows))
    if c['how'] in ('cp', 'lns'):  # integral distances: the constraint model rounds them
        c['fac'] = [[s, q, 2 * x, 0] for s, q, x, y in c['fac']]
        c['cust'] = [[d, 2 * x, 0] for d, x, y in c['cust']]
    c['prune'] = draw(st.sampled_from([None, None, [1, 1], [2, 1], [1, 2]])) if c['how'] in ('mip', 'cbc') else None
    return c


def few(values, n):
    """The n smallest, if there is no doubt which they are."""
    order = sorted(range(len(values)), key=lambda i: values[i])
    if n < len(order) and dd.near(values[order[n - 1]], values[order[n]]):
        raise Discard
    return set(order[:n])


def facility(c, ctx):
    p = dd.build_facility(c)
    how = c['how']
    ref = lambda s: dd.ref_facility(c, s.facility_for_customers)
    nf, nc = len(c['fac']), len(c['cust'])
    scores = [dd.ref_facility(c, t) for t in product(range(nf), repeat=nc)]
    feas = [-(v['cost'] + v['setup_cost']) for v, ok in scores if ok]
    if not feas:
        raise Discard
    best = max(feas)
    w = {'cost': -1, 'setup_cost': -1, 'capacity_constraint_violation': -10000}
    flags = dict(use_matrix_indicator_heuristic=nc % 2 == 0)
    if c['prune'] is not None:  # only facilities among the cheapest, or the closest to the customer
        flags = dict(zip(('n_cheapest', 'n_shortest'), c['prune']))
        cheap = few([x[0] for x in c['fac']], c['prune'][0])
        close = [few([dd.dist(x[2:], y[1:]) for x in c['fac']], c['prune'][1]) for y in c['cust']]
        left = [-(v['cost'] + v['setup_cost']) for t, (v, ok) in zip(product(range(nf), repeat=nc), scores)
                if ok and all(f in cheap or f in close[i] for i, f in enumerate(t))]
        if not left:
            raise Discard
        best = max(left)
    if how in ('greedy', 'lns'):  # fills facilities in turn and never comes back to one
        left, f = [x[1] for x in c['fac']], 0
        for d, _, _ in c['cust']:
            if left[f] < d:
                f += 1
            if f >= nf or left[f] < d:
                raise Discard
            left[f] -= d
    if how == 'greedy':
        storage(p, GreedySolverFacility(p).solve(), ref, w, how)
    elif how == 'mip':
        s = load('facility.solvers.facility_lp_solver', True).LP_Facility_Solver_PyMip(p, MilpSolverName.CBC, None)
        s.init_model(**flags)
        storage(p, s.solve(milp()), ref, w, how, best)
    else:
        if how == 'cbc':
            s = load('facility.solvers.facility_lp_solver').LP_Facility_Solver_CBC(p, None)
            s.init_model(**flags)
            x, fit = s.solve(limit_time_s=100)
        else:
            m = load('facility.solvers.facility_cp_solvers')
            s = m.FacilityCP(p, None)
            if how == 'cp':
                s.init_model()
                x, fit = s.solve()
            else:
                x, fit = s.solve_lns(fraction_to_fix=0.5, nb_iteration=2, cp_model=m.FacilityCPModel.DEFAULT_INT_LNS)
        v, ok = ref(x)
        require(ok and p.satisfy(x), '%s: infeasible %s', how, x)
        for k in v:
            require(dd.near(fit[k], v[k]), '%s: %s is %r, not %r', how, k, fit[k], v[k])
        if how != 'lns':
            require(dd.near(-v['cost'] - v['setup_cost'], best), '%s: %r, optimum %r', how, v, best)
    ctx.label(how)
    ctx.nontrivial(nf >= 2 and nc >= 3 and len(feas) >= 2)


# ------------------------------------------------------------------------------------------------ travelling salesman
@st.composite
def tours(draw, hows=('int',), max_nodes=7):
    c = draw(dd.tsp(max_nodes=max_nodes, min_inner=2))
    c['how'] = draw(st.sampled_from(hows))
    c['numba'] = False
    if c['how'] == 'int':
        c['pts'] = [[2 * x, 0] for x, _ in c['pts']]
    return c


def shortest(c):
    return min(dd.ref_tsp(c, q)[1] for q in permutations(dd.inner(c)))


def tsp(c, ctx):
    p = dd.build_tsp(c)
    how = c['how']

    def ref(s):
        _, total, ok = dd.ref_tsp(c, s.permutation)
        return {'length': total}, ok
    best = shortest(c)
    if how in ('float', 'int'):
        m = load('tsp.solver.tsp_cp_solver')
        s = m.TSP_CP_Solver(p, m.TSP_CPModel.FLOAT_VERSION if how == 'float' else m.TSP_CPModel.INT_VERSION, None)
        s.init_model(solver='gecode')
        r = s.solve(max_time_seconds=100)
    elif how == 'routing':
        s = load('tsp.solver.solver_ortools').TSP_ORtools(p, None)
        s.init_model()
        s.search_parameters.time_limit.seconds = 1
        r = s.solve()
    else:
        m = load('tsp.solver.solver_lp_iterative')
        s = m.LP_TSP_Iterative(p, graph_builder=m.build_graph_complete if how == 'complete' else m.build_graph_pruned)
        s.init_model(method=m.MILPSolver.CBC)
        r = s.solve(plot=False)
    storage(p, r, ref, {'length': 1}, how, None if how == 'routing' else best)
    ctx.label(how, 'loop' if c['start'] == c['end'] else 'path')
    ctx.nontrivial(len(c['pts']) >= 5)


# ------------------------------------------------------------------------------------------------ vehicle routing
@st.composite
def routings(draw, hows=('greedy', 'routing')):
    c = draw(dd.vrp(max_cust=6, same_depot=True))
    c['how'] = draw(st.sampled_from(hows))
    return c


def vrp(c, ctx):
    p = dd.build_vrp(c)
    how = c['how']
    nv, inner = len(c['cap']), range(1, len(c['cust']))
    lengths = []
    for t in product(range(nv), repeat=len(inner)):
        groups = [[i for i, v in zip(inner, t) if v == k] for k in range(nv)]
        if dd.ref_vrp(c, groups)[1]:
            lengths.append(sum(min(dd.ref_vrp(dict(c, cap=[99], start=[0], end=[0]), [list(q)])[0]['length'] for q in permutations(g)) for g in groups))
    if not lengths:
        raise Discard
    best = min(lengths)
    if how == 'greedy':
        s = load('vrp.solver.greedy_vrp').GreedyVRPSolver(p)
        r = s.solve()
    elif how == 'routing':
        s = load('vrp.solver.solver_ortools').VrpORToolsSolver(p)
        s.init_model()
        r = s.solve(limit_time_s=1)
    else:
        s = load('vrp.solver.lp_vrp_iterative_pymip', True).VRPIterativeLP(p, None)
        s.init_model()
        r = s.solve(plot=False, nb_iteration_max=4)
    ref = lambda s: dd.ref_vrp(c, s.list_paths)
    storage(p, r, ref, {'length': -1, 'capacity_violation': -100000}, how)
    ctx.label(how)
    ctx.nontrivial(nv >= 2 and len(inner) >= 3)


def mip(module):
    return lambda: load(module, True)


SUBCHECKS = [
    Sub('knapsack', knapsacks, knapsack, quick=150, thorough=1500, cpu_limit=60,
        rule='at least four feasible selections, and not all of them'),
    Sub('coloring', colorings, coloring, quick=80, thorough=800, cpu_limit=60, rule='three colors needed'),
    Sub('facility', facilities, facility, quick=80, thorough=800, cpu_limit=60,
        rule='at least two facilities, three customers and two feasible assignments'),
    Sub('knapsack-quick', lambda: knapsacks(('dyn', 'np', 'greedy')), knapsack, quick=400, thorough=4000, rule='as knapsack'),
    Sub('coloring-quick', lambda: colorings(('greedy',)), coloring, quick=200, thorough=2000, rule='as coloring'),
    Sub('facility-quick', lambda: facilities(('greedy',)), facility, quick=400, thorough=4000, rule='as facility'),
    Sub('tsp', tours, tsp, quick=40, thorough=400, cpu_limit=60, rule='at least five points'),
    Sub('knapsack-cbc', lambda: knapsacks(('cbc',)), knapsack, quick=100, thorough=1000, rule='as knapsack'),
    Sub('facility-cbc', lambda: facilities(('cbc',)), facility, quick=100, thorough=1000, rule='as facility'),
    Sub('tsp-cbc', lambda: tours(('complete', 'pruned')), tsp, quick=100, thorough=1000, rule='as tsp'),
    Sub('knapsack-mip', lambda: knapsacks(('mip',)), knapsack, quick=100, thorough=1000, rule='as knapsack', native=mip('knapsack.solvers.lp_solvers')),
    Sub('coloring-mip', lambda: colorings(('lp',)), coloring, quick=100, thorough=1000, rule='as coloring', native=mip('coloring.solvers.coloring_lp_solvers')),
    Sub('facility-mip', lambda: facilities(('mip',)), facility, quick=100, thorough=1000, rule='as facility', native=mip('facility.solvers.facility_lp_solver')),
    Sub('vrp-mip', lambda: routings(('mip',)), vrp, quick=60, thorough=600, cpu_limit=60, rule='at least two vehicles and three customers', native=mip('vrp.solver.lp_vrp_iterative_pymip')),
    Sub('tsp-routing', lambda: tours(('routing',), 9), tsp, quick=20, thorough=100, rule='as tsp'),
    Sub('vrp-routing', lambda: routings(('routing',)), vrp, quick=30, thorough=200, rule='as vrp-mip'),
    Sub('vrp', lambda: routings(('greedy',)), vrp, quick=150, thorough=1500, rule='as vrp-mip'),
]
