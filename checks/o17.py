"""O17: whichever solver is chosen for a project, by its class: feasible schedules with true makespans."""
import random

from hypothesis import strategies as st

from checks import o14, o16
from checks.o09 import cp, load, milp, mip
from harness import mzn  # noqa: F401
from harness import rcpspdomain as rd
from harness import skilldomain as sd
from harness.api import Discard, Sub, eq, require

RULE = 'Small projects, whose schedules are enumerated exhaustively; non-trivial as stated per sub-check.'
ASSUMPTIONS = ['calendars of multi-skill projects are open from some time on for the solvers which start from a dispatching rule',
               'Constraint models run on Gecode with the standard library of constraints; integer programs on CBC (Gurobi and Chuffed are absent)',
               'Solvers that walk through orders and modes (local search, genetic) may meet modes that exceed non-renewable resources: such schedules have no makespan, and are flagged', 'Genetic solvers need two tasks']
KINDS = ('single', 'multi', 'calendar', 'calendar-multi')
EXACT = {'LP_RCPSP', 'LP_MRCPSP', 'CP_RCPSP_MZN', 'CP_MRCPSP_MZN'}
WALKS = {'LS_RCPSP_Solver', 'GA_RCPSP_Solver', 'GA_MRCPSP_Solver'}


@st.composite
def projects(draw, names):
    name = draw(st.sampled_from(names))
    kinds = {'LP_RCPSP': KINDS[:1], 'CP_RCPSP_MZN': KINDS[:1], 'GA_RCPSP_Solver': KINDS[:1], 'GA_MRCPSP_Solver': KINDS[1:2],
             'PileSolverRCPSP': KINDS[:2]}.get(name, KINDS)
    c = draw(rd.instances(kinds=kinds, min_n=draw(st.sampled_from([2 if name.startswith('GA') else 1, 2, 3, 4, 4])), max_n=4, over=False, max_d=3,
                          nr_ok=name not in ('LP_RCPSP', 'CP_RCPSP_MZN'), loose=True))
    if 'multi' in c['kind'] and c['n'] == 4:
        c['modes'] = [ms[:2] for ms in c['modes']]
    c['name'] = name
    c['iters'] = draw(st.integers(1, 3))
    c['moves'] = draw(st.sampled_from([1, 20, 60]))
    c['flags'] = [draw(st.booleans()) for _ in range(3)]
    c['seed'] = draw(st.integers(0, 1000))
    return c


def settings(c, table, name):
    """Arguments of the solver in its table, with few iterations."""
    method = next(m for m in table.solvers_map if m.__name__ == name)
    a = dict(table.solvers_map[method][1])
    if 'nb_iteration_lns' in a:
        a['nb_iteration_lns'] = c['iters']
    if 'nb_iteration_max' in a:
        a['nb_iteration_max'] = c['moves']
    if 'parameters_cp' in a or c['flags'][0] and name.startswith('LNS_CP'):
        a['parameters_cp'] = cp(c['flags'][1])
    if 'parameters_milp' in a:
        a['parameters_milp'] = milp(c['flags'][1])
    if 'lp_solver' in a:
        a['lp_solver'] = next(x for x in type(a['lp_solver']) if x.name == 'CBC')
    if 'ls_solver' in a and c['flags'][1]:
        a['ls_solver'] = next(x for x in type(a['ls_solver']) if x.name == 'HC')
    if 'parameters_ga' in a:
        q = a['parameters_ga']
        q = type(q)(**{k: getattr(q, k) for k in vars(q)})
        q.max_evals = 300
        if hasattr(q, 'sub_evals'):
            q.sub_evals = [100 for _ in q.sub_evals]
        a['parameters_ga'] = q
    return method, a


def chosen(c, ctx):
    m = load('rcpsp.rcpsp_solvers', True)
    p = rd.build(c)
    method, args = settings(c, m, c['name'])
    require(method in m.look_for_solver(p), '%s is not offered for %s', c['name'], type(p).__name__)
    best = o14.shortest(c)
    if best is None or best > o14.latest(c):
        raise Discard
    random.seed(c['seed'])
    if c['flags'][2]:
        r = m.solve(method, p, **args)
    else:
        s = m.return_solver(method, p, **args)
        r = s.solve(**args)
    require(len(r.list_solution_fits) > 0, '%s: no schedule', c['name'])
    good = []
    for x, f in r.list_solution_fits:
        if c['name'] in WALKS and not x.rcpsp_schedule_feasible:
            require(not rd.nr_ok(c, [int(v) for v in x.rcpsp_modes]) or rd.sgs(c, [int(v) for v in x.rcpsp_permutation], [int(v) for v in x.rcpsp_modes]) is None, '%s: schedule of modes %s flagged infeasible', c['name'], x.rcpsp_modes)
            require(-f > 1000, '%s: infeasible schedule scores %s', c['name'], f)
            continue
        good.append(o14.check_solution(c, p, x, f, what=c['name']))
    x, f = r.get_best_solution_fit()
    if good:
        eq(-f, min(good), 'score of the best solution')
        require(-f >= best, 'schedule of length %s, the shortest is %s', -f, best)
    if c['name'] in EXACT:
        eq(-f, best, 'the shortest schedule')
    ctx.label(c['name'], c['kind'])
    ctx.nontrivial(o14.shortest(c, max) > best)


def calendars(c, ctx):
    """The iterative solver first ignores the calendars: the schedules it marks as feasible respect them."""
    m = load('rcpsp.rcpsp_solvers', True)
    p = rd.build(c)
    best = o14.shortest(c)
    if best is None or best > o14.latest(c):
        raise Discard
    method, args = settings(c, m, 'SolverWithCalendarIterative')
    first = m.InitialSolutionRCPSP(p, initial_method=load('rcpsp.solver.rcpsp_lp_lns_solver', True).InitialMethodRCPSP.PILE_CALENDAR)
    random.seed(c['seed'])
    x0, f0 = first.get_starting_solution().get_best_solution_fit()
    if not (p.satisfy(x0) and x0.rcpsp_schedule_feasible) or -f0 > o14.latest(c):
        raise Discard
    args['skip_first_iteration'] = c['flags'][0]
    r = m.solve(method, p, **args)
    marked = []
    for x, f in r.list_solution_fits:
        if getattr(x, 'satisfy', None) is True:
            marked.append(o14.check_solution(c, p, x, f, what='marked feasible') if hasattr(x, 'satisfy') else None)
    if not c['flags'][0]:
        require(marked and -min(marked) >= f0, 'best schedules %s, the start ends at %s', marked, -f0)
    ctx.nontrivial('calendar' in c['kind'] and -f0 > best)


# ------------------------------------------------------------------------------------------------ multi-skill
@st.composite
def teams(draw, names):
    name = draw(st.sampled_from(names))
    # the solver with calendars starts from a dispatching rule, which may place everything after the calendars open
    c = draw(o16.projects(max_n=4, open_end=14 if name in ('SolverWithCalendarIterative', 'LNS_CP_MS_RCPSP_SOLVER', 'LS_RCPSP_Solver') else 0))
    c['name'] = name
    c['iters'] = draw(st.integers(1, 3))
    c['moves'] = draw(st.sampled_from([1, 20]))
    return c


def skilled(c, ctx):
    m = load('rcpsp_multiskill.rcpsp_multiskill_solvers', True)
    name = c['name']
    if name == 'GA_MSRCPSP_Solver' and c['n'] < 2:
        raise Discard
    variant = c['flags'][3] or name in ('GA_MSRCPSP_Solver', 'LS_RCPSP_Solver')
    p = sd.build(c, variant=variant)
    method, args = settings(c, m, name)
    offered = m.look_for_solver(p)
    require(method in offered, '%s is not offered for %s', name, type(p).__name__)
    require(variant or not {'LS_RCPSP_Solver', 'GA_MSRCPSP_Solver'} & {x.__name__ for x in offered}, 'solvers that search encodings, offered for a model without')
    exact = name == 'CP_MS_MRCPSP_MZN'  # skills are spent exactly, unless told otherwise
    best = o16.shortest(c, c['hor'], exact)
    if best is None and not exact:
        raise Discard
    random.seed(c['seed'])
    if c['flags'][2]:
        r = m.solve(method, p, **args)
    else:
        s = m.return_solver(method, p, **args)
        r = s.solve(**args)
    if best is None:
        ctx.label('no schedule')
        require(not r.list_solution_fits, '%s: schedules of an impossible project', name)
        return
    require(len(r.list_solution_fits) > 0, '%s: no schedule', name)
    good = []
    for x, f in r.list_solution_fits:
        marked = x.__dict__.get('satisfy')  # by the solver that first ignores calendars
        if marked is False or marked is None and not p.satisfy(x):
            ctx.label('infeasible')
            require(name == 'SolverWithCalendarIterative' or name in ('LS_RCPSP_Solver', 'GA_MSRCPSP_Solver', 'LNS_CP_MS_RCPSP_SOLVER') and -f > 1000, '%s: infeasible schedule, score %s', name, f)
            continue
        good.append(o16.check_solution(c, p, x, f, name, exact))
    if exact or name == 'LP_Solver_MRSCPSP':
        eq(good and min(good), best, 'the shortest schedule')
    require(not good or min(good) >= best, '%s: a schedule of length %s, the shortest is %s', name, good, best)
    ctx.label(name)
    ctx.nontrivial(c['n'] >= 2 and best > o16.critical(c))


SKILLED = ['LP_Solver_MRSCPSP', 'CP_MS_MRCPSP_MZN', 'LNS_CP_MS_RCPSP_SOLVER', 'LS_RCPSP_Solver', 'GA_MSRCPSP_Solver', 'SolverWithCalendarIterative']
SUBCHECKS = [
    Sub('exact', lambda: projects(sorted(EXACT)), chosen, quick=120, thorough=1200, cpu_limit=60, rule='some order of tasks gives a longer schedule', native=mip('rcpsp.rcpsp_solvers')),
    Sub('greedy', lambda: projects(['PileSolverRCPSP', 'PileSolverRCPSP_Calendar']), chosen, quick=100, thorough=1200, cpu_limit=60, rule='as exact', native=mip('rcpsp.rcpsp_solvers')),
    Sub('walks', lambda: projects(sorted(WALKS)), chosen, quick=100, thorough=1200, cpu_limit=60, rule='as exact', native=mip('rcpsp.rcpsp_solvers')),
    Sub('lns', lambda: projects(['LNS_LP_RCPSP_SOLVER', 'LNS_CP_RCPSP_SOLVER']), chosen, quick=60, thorough=600, cpu_limit=60, rule='as exact', native=mip('rcpsp.rcpsp_solvers')),
    Sub('calendars', lambda: projects(['SolverWithCalendarIterative']), calendars, quick=60, thorough=600, cpu_limit=60, rule='a calendar makes the start not optimal', native=mip('rcpsp.rcpsp_solvers')),
    Sub('skilled', lambda: teams(SKILLED), skilled, quick=60, thorough=600, cpu_limit=60, rule='units or resources delay the end', native=mip('rcpsp_multiskill.rcpsp_multiskill_solvers')),
]
