"""O16: solvers of multi-skill projects."""
import random
from copy import deepcopy
from datetime import timedelta
from itertools import combinations

from hypothesis import strategies as st

from checks import o14
from checks.o09 import cp, load, milp, mip
from harness import mzn  # noqa: F401
from harness import skilldomain as sd
from harness.api import Discard, Sub, eq, require
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPSolution

RULE = 'Small multi-skill projects, whose schedules are enumerated exhaustively; non-trivial as stated per sub-check.'
ASSUMPTIONS = ['Constraint models run on Gecode with the standard library of constraints; integer programs on CBC (Gurobi and Chuffed are absent)',
               'Calendars cover the horizon; the horizon leaves room for the sum of the durations and a few slots more',
               'A schedule that ends exactly at the horizon need not satisfy the problem']


def teams(c, m, exact=False, one=False, single=False):
    """Smallest sets of units that do the task in the mode."""
    need = sd.need(m)
    out = []
    by = {x['k']: x['s'] for x in c['emp']}
    for k in range(0, len(by) + 1):
        for w in combinations(sorted(by), k):
            if one and k > 1 or any(set(x) <= set(w) for x in out):
                continue
            got = {s: sum(by[x].get(s, 0) for x in w) for s in need}
            if all(got[s] == v if exact else got[s] >= v for s, v in need.items()):
                out.append(w)
    return out


def order_of(c):
    pr, order = sd.preds_of(c), []
    while len(order) < c['n']:
        order += [i for i in range(c['n']) if i not in order and pr[i] <= set(order)]
    return order


def shortest(c, last, exact=False, one=False, keep=None):
    """Minimal end (at most last) of a schedule; keep(schedule, modes) says whether it is allowed."""
    pr, order = sd.preds_of(c), order_of(c)
    cal = {x['k']: x['cal'] for x in c['emp']}
    best = [last + 1]
    options = [[(j + 1, m, teams(c, m, exact, one)) for j, m in enumerate(ms)] for ms in c['modes']]
    nr = {k: x['cap'][0] for k, x in c['res'].items() if x['nr']}
    left0 = {k: [x['cap'][t] for t in range(c['hor'] + 1)] for k, x in c['res'].items() if not x['nr']}
    left, busy = left0, {k: [not b for b in v] for k, v in cal.items()}
    s, modes = {}, [1] * c['n']

    def go(k):
        if k == len(order):
            end = max([e for _, e in s.values()], default=0)
            if end < best[0] and (keep is None or keep(s, modes)):
                best[0] = end
            return
        i = order[k]
        low = max([s[j][1] for j in pr[i]], default=0)
        for mode, m, ws in options[i]:
            if any(m['r'][r] > nr[r] for r in nr):
                continue
            for r in nr:
                nr[r] -= m['r'][r]
            modes[i] = mode
            t = low
            while t + m['d'] < best[0]:
                span = range(t, t + m['d'])
                if all(left[r][u] >= m['r'][r] for r in left for u in span):
                    for w in ws:
                        if any(busy[x][u] for x in w for u in span):
                            continue
                        for u in span:
                            for r in left:
                                left[r][u] -= m['r'][r]
                            for x in w:
                                busy[x][u] = True
                        s[i] = (t, t + m['d'])
                        go(k + 1)
                        del s[i]
                        for u in span:
                            for r in left:
                                left[r][u] += m['r'][r]
                            for x in w:
                                busy[x][u] = False
                t += 1
            for r in nr:
                nr[r] += m['r'][r]
    go(0)
    return best[0] if best[0] <= last else None


@st.composite
def projects(draw, max_n=4, spare=4, open_end=0):
    c = draw(sd.instances(min_n=draw(st.sampled_from([3, 2, 3, 2, 1])), max_n=max_n))
    c['emp'] = c['emp'][:draw(st.sampled_from([2, 3, 2, 1]))]
    busy = draw(st.integers(0, 2)) > 0
    for ms in c['modes']:
        for m in ms:
            m['d'] = min(m['d'], 3)
            if busy:  # units in demand
                x = c['emp'][draw(st.integers(0, len(c['emp']) - 1))]['s']
                m['d'] = max(m['d'], 1)
                m['s'] = {s: draw(st.integers(0 if j else 1, v)) for j, (s, v) in enumerate(x.items())}
    hor = sum(max(m['d'] for m in ms) for ms in c['modes']) + draw(st.integers(1, spare))
    for x in list(c['res'].values()):
        x['cap'] = (x['cap'] + [max(x['cap'])] * (hor + 1))[:hor + 1]
    for x in c['emp']:
        x['cal'] = (x['cal'] + [1] * (hor + 1))[:hor + 1]
    if open_end:
        for x in list(c['res'].values()) :
            x['cap'] = x['cap'] + [max(x['cap'])] * open_end
        for x in c['emp']:
            x['cal'] = x['cal'] + [1] * open_end
        hor += open_end
    c['hor'] = hor
    c['flags'] = [draw(st.booleans()) for _ in range(4)]
    c['seed'] = draw(st.integers(0, 1000))
    return c


def check_solution(c, p, sol, fit=None, what='', exact=False, one=False):
    n = c['n']
    eq(sorted(sol.schedule), list(range(1, n + 3)), what + ': tasks scheduled')
    modes = [int(sol.modes[i + 2]) for i in range(n)]
    require(all(1 <= m <= len(c['modes'][i]) for i, m in enumerate(modes)), '%s: modes %s', what, modes)
    s, usage = sd.plain(c, sol)
    usage = {i: {w: sk for w, sk in u.items() if sk} for i, u in usage.items()}
    sink, source = sol.schedule[n + 2], sol.schedule[1]
    require(sink['start_time'] == sink['end_time'] and source['start_time'] == source['end_time'], '%s: source or sink lasts', what)
    for i, (a, b) in s.items():
        require(a >= 0 and b - a == sd.mode(c, i, modes)['d'], '%s: task %d lasts %s in mode %s', what, i, (a, b), modes[i])
        require(a >= source['end_time'], '%s: task %d starts before the source', what, i)
    require(sd.feasible(c, s, modes, usage, int(sink['end_time'])), '%s: schedule %s, units %s, modes %s break the project', what, s, usage, modes)
    by = {x['k']: x['s'] for x in c['emp']}
    for i, u in usage.items():
        for w, sk in u.items():
            require(set(sk) <= set(x for x, v in by[w].items() if v > 0), '%s: unit %s lacks a skill of %s', what, w, sk)
        if exact:
            for x, v in sd.need(sd.mode(c, i, modes)).items():
                eq(sum(by[w].get(x, 0) for w in u), v, '%s: skill %s spent on task %d' % (what, x, i))
        require(not one or len(u) <= 1, '%s: several units on task %d: %s', what, i, u)
    end = int(sink['end_time'])
    eq(p.evaluate(sol)['makespan'], end, what + ': makespan')
    if end < c['hor']:
        require(p.satisfy(sol), '%s: the problem rejects %s', what, s)
    if fit is not None:
        eq(fit, -end, what + ': score')
    return end


def cp_solver(c, p, name=CPSolverName.GECODE):
    m = load('rcpsp_multiskill.solvers.cp_solvers')
    return m.CP_MS_MRCPSP_MZN(p, cp_solver_name=name, one_ressource_per_task=c['one'])


def exact_cp(c, ctx):
    exact = c['flags'][0]
    best = shortest(c, c['hor'], exact, c['one'])
    if best is None:
        raise Discard
    p = sd.build(c, variant=c['flags'][1])
    s = cp_solver(c, p, CPSolverName.GECODE if c['flags'][2] else CPSolverName.CHUFFED)
    s.init_model(output_type=c['seed'] % 2 == 0, exact_skills_need=exact)
    r = s.solve(parameters_cp=cp(c['flags'][3]), verbose=False)
    require(len(r.list_solution_fits) > 0, 'no solution, one ends at %s', best)
    for x, f in r.list_solution_fits:
        check_solution(c, p, x, f, 'cp', exact, c['one'])
    eq(-r.get_best_solution_fit()[1], best, 'end of the best schedule')
    ctx.nontrivial(c['n'] >= 2 and best > critical(c))
    ctx.label('exact' if exact else None, 'one' if c['one'] else None)


def critical(c):
    d = [min(m['d'] for m in ms) for ms in c['modes']]
    e = {}
    pr = sd.preds_of(c)
    for i in order_of(c):
        e[i] = max([e[j] for j in pr[i]], default=0) + d[i]
    return max(e.values())


def exact_lp(c, ctx):
    best = shortest(c, c['hor'])
    if best is None:
        raise Discard
    p = sd.build(c, variant=c['flags'][1])
    m = load('rcpsp_multiskill.solvers.lp_model', True)
    s = m.LP_Solver_MRSCPSP(p)
    if c['flags'][2]:
        s.init_model()
    r = s.solve(parameters_milp=milp(c['flags'][3]))
    for x, f in r.list_solution_fits:
        check_solution(c, p, x, f, 'lp')
    eq(-r.get_best_solution_fit()[1], best, 'end of the best schedule')
    ctx.nontrivial(c['n'] >= 2 and best > critical(c))



# ------------------------------------------------------------------------------------------------ imposed parts
@st.composite
def partials(draw):
    c = draw(projects(max_n=3))
    e = draw(sd.vectors(c, wild=False))
    got = sd.decode(c, e)
    c['imp'] = None
    if got is not None:
        keys = draw(st.sampled_from([o14.SOLO + ('task_mode',), ('task_mode', 'start_together', 'start_at_end', 'start_after_nunit')]))
        c['imp'] = draw(o14.imposed(c, keys, got[0], e['modes'], None))
    return c


def partial_cp(c, ctx):
    """Around imposed start times, orders, simultaneous starts, delays and modes."""
    imp = c['imp']
    if not imp:
        raise Discard
    best = shortest(c, c['hor'], False, c['one'], lambda s, modes: all(o14.holds(c, imp, s, modes).values()))
    if best is None:
        raise Discard
    p = sd.build(c, variant=c['flags'][1])
    s = cp_solver(c, p)
    s.init_model(exact_skills_need=False, partial_solution=o14.partial(imp))
    r = s.solve(parameters_cp=cp(c['flags'][3]), verbose=False)
    require(len(r.list_solution_fits) > 0, 'no solution with %s, one ends at %s', imp, best)
    for x, f in r.list_solution_fits:
        check_solution(c, p, x, f, 'imposed', one=c['one'])
        modes = [int(x.modes[i + 2]) for i in range(c['n'])]
        broken = [k for k, ok in o14.holds(c, imp, sd.plain(c, x)[0], modes).items() if not ok]
        require(not broken, 'schedule does not respect %s of %s', broken, imp)
    eq(-r.get_best_solution_fit()[1], best, 'end of the best schedule with %s' % (imp,))
    ctx.label(*imp)
    ctx.nontrivial(best > shortest(c, c['hor'], False, c['one']))


# ------------------------------------------------------------------------------------------------ a schedule delayed, and improved
@st.composite
def delays(draw, max_n=6):
    """A feasible schedule, with its units, that waits here and there."""
    c = draw(projects(max_n=max_n, open_end=8))
    e = draw(sd.vectors(c, wild=False))
    c['e'] = e
    c['wait'] = [draw(st.sampled_from([0, 0, 1, 2, 3])) for _ in range(c['n'])]
    got = decode_late(c, e, c['wait'])
    c['witness'] = None if got is None else [[i, got[0][i][0], sorted(got[1].get(i, []))] for i in got[0]]
    return c


def decode_late(c, e, wait):
    modes = e['modes']
    if not sd.nr_ok(c, modes):
        return None
    pr = sd.preds_of(c)
    s, units = {}, {}
    todo = list(e['perm'])
    while todo:
        i = next(x for x in todo if not (pr[x] & set(todo)))
        m = sd.mode(c, i, modes)
        ws = teams(c, m, one=c['one'])
        t = max([s[j][1] for j in pr[i]], default=0) + wait[i]
        while True:
            if t + m['d'] >= c['hor']:
                return None
            ok = next((w for w in ws if fits(c, s | {i: (t, t + m['d'])}, modes, units | {i: w})), None)
            if ok is not None:
                break
            t += 1
        s[i], units[i] = (t, t + m['d']), ok
        todo.remove(i)
    return s, units


def fits(c, s, modes, units):
    cal = {x['k']: x['cal'] for x in c['emp']}
    for i, (a, b) in s.items():
        for t in range(a, b):
            now = [j for j, (x, y) in s.items() if x <= t < y]
            if any(sum(sd.mode(c, j, modes)['r'][k] for j in now) > c['res'][k]['cap'][t] for k in sd.ren(c)):
                return False
            if any(not cal[w][t] or sum(w in units[j] for j in now) > 1 for w in units[i]):
                return False
    return True


def skills(c, w):
    return [s for x in c['emp'] if x['k'] == w for s, v in x['s'].items() if v > 0]


def as_solution(c, p):
    modes = c['e']['modes']
    n = c['n']
    sched, use = {}, {}
    for i, t, ws in c['witness']:
        m = sd.mode(c, i, modes)
        sched[i + 2] = {'start_time': t, 'end_time': t + m['d']}
        if ws:
            use[i + 2] = {w: set(sd.need(m)) & set(skills(c, w)) for w in ws}
    end = max(x['end_time'] for x in sched.values())
    sched[1] = {'start_time': 0, 'end_time': 0}
    sched[n + 2] = {'start_time': end, 'end_time': end}
    return MS_RCPSPSolution(problem=p, modes={1: 1, n + 2: 1, **{i + 2: m for i, m in enumerate(modes)}}, schedule={k: sched[k] for k in sorted(sched)}, employee_usage=use)


def post_process(c, ctx):
    """Tasks moved left: still feasible, with the same modes and units, none later, none earlier than it could."""
    if c['witness'] is None:
        raise Discard
    m = load('rcpsp_multiskill.solvers.lns_post_process_rcpsp')
    p = sd.build(c, variant=False)
    sol = as_solution(c, p)
    end = check_solution(c, p, sol, None, 'start')
    before = sd.plain(c, sol)
    cal = {k: list(x) for k, x in p.resources_availability.items()}
    store = ResultStorage(list_solution_fits=[(sol, -end)], mode_optim=get_default_objective_setup(p).sense_function)
    post = m.PostProMSRCPSP(p, get_default_objective_setup(p))
    r = post.build_other_solution(store)
    eq(sd.plain(c, sol), before, 'solution post-processed')
    eq({k: list(x) for k, x in p.resources_availability.items()}, cal, 'resources after')
    require(any(x is sol for x, _ in r.list_solution_fits), 'the solution itself is lost')
    for x, f in r.list_solution_fits:
        e2 = check_solution(c, p, x, f, 'moved left')
        require(e2 <= end, 'moved left from %s to %s', end, e2)
        got, use = sd.plain(c, x)
        eq(use, before[1], 'units')
        for i in got:
            require(got[i][0] <= before[0][i][0], 'task %d moved from %s to %s', i, before[0][i], got[i])
    ctx.nontrivial(c['n'] >= 3 and len(r.list_solution_fits) > 1 and any(f > -end for _, f in r.list_solution_fits))



# ------------------------------------------------------------------------------------------------ large neighbourhood search
def stretched(c, f):
    """The same project with a finer unit of time."""
    c = deepcopy(c)
    c['hor'] *= f
    for ms in c['modes']:
        for m in ms:
            m['d'] *= f
    for x in c['res'].values():
        x['cap'] = [v for v in x['cap'] for _ in range(f)][:c['hor'] + 1]
    for x in c['emp']:
        x['cal'] = [v for v in x['cal'] for _ in range(f)][:c['hor'] + 1]
    if c.get('witness'):
        c['witness'] = [[i, t * f, w] for i, t, w in c['witness']]
    return c


@st.composite
def searches(draw):
    c = draw(delays(max_n=4))
    c['stretch'] = draw(st.sampled_from([1, 7, 7]))
    c['fraction'] = draw(st.sampled_from([0, 0.5, 0.8, 1, 1]))
    c['fraction2'] = draw(st.sampled_from([0, 0.5, 0.8, 1]))
    c['delta'] = [draw(st.integers(0, 8)), draw(st.integers(0, 8))]
    c['option'] = draw(st.sampled_from(['MIX_ALL', 'MIX_FAST', 'MIX_LARGE_NEIGH', 'OM', 'DEBUG']))
    c['iters'] = draw(st.integers(1, 3))
    return c


def neighbourhood(c, ctx):
    if c['witness'] is None:
        raise Discard
    m = load('rcpsp_multiskill.solvers.ms_rcpsp_cp_lns_solver', True)
    f = c['stretch']
    best = shortest(c, c['hor'], False, c['one']) * f
    c = stretched(c, f)
    p = sd.build(c, variant=False)
    inc = as_solution(c, p)
    end = check_solution(c, p, inc, None, 'start')
    s = m.CP_MS_MRCPSP_MZN(p, cp_solver_name=CPSolverName.GECODE, one_ressource_per_task=c['one'])
    s.init_model(output_type=True, exact_skills_need=False)
    (a, b), x = c['delta'], c['fraction2']
    q = m.Params(c['fraction'], a, b, x)
    h = m.ConstraintHandlerMix(p, [q, q], [0.5, 0.5]) if c['flags'][0] else m.ConstraintHandlerStartTimeInterval_CP(p, c['fraction'], a, b, x)
    random.seed(c['seed'])
    store = ResultStorage(list_solution_fits=[(inc, -end)], mode_optim=s.params_objective_function.sense_function)
    with s.instance.branch() as child:
        h.adding_constraint_from_results_store(cp_solver=s, child_instance=child, result_storage=store)
        r = s.retrieve_solutions(child.solve(timeout=timedelta(seconds=100), intermediate_solutions=c['flags'][1]), parameters_cp=cp(c['flags'][1]))
    require(len(r.list_solution_fits) > 0, 'nothing found around a schedule')
    before = sd.plain(c, inc)
    n = c['n'] + 2
    free = sum(before[0][i][1] >= end - 20 for i in before[0])
    for x, g in r.list_solution_fits:
        check_solution(c, p, x, g, 'neighbourhood', one=c['one'])
        require(-g <= end, 'schedule that ends at %s around one that ends at %s', -g, end)
        got = sd.plain(c, x)
        near = sum(before[0][i][0] - a <= got[0][i][0] <= before[0][i][0] + b for i in got[0])
        require(near >= int(c['fraction'] * n) - 2 - free, '%d tasks near their start, fraction %s of %d', near, c['fraction'], n)
        # a unit kept on a task whose new mode needs no skill of it is not reported
        team = sum(set(got[1].get(i, {})) == set(before[1].get(i, {})) or x.modes[i + 2] != inc.modes[i + 2] for i in got[0])
        require(team >= int(c['fraction2'] * n) - 2, '%d tasks keep their units, fraction %s of %d', team, c['fraction2'], n)
    g = r.get_best_solution_fit()[1]
    require(-g >= best, 'schedule of length %s, the shortest is %s', -g, best)
    if int(c['fraction'] * n) == int(c['fraction2'] * n) == 0:
        eq(-g, best, 'nothing fixed: best schedule')
    r = s.retrieve_solutions(s.instance.solve(intermediate_solutions=True), parameters_cp=cp())
    eq(-r.get_best_solution_fit()[1], best, 'model after the neighbourhood')
    ctx.label('improved' if -g < end else None, 'stretched' if f > 1 else None)
    ctx.nontrivial(end > best and c['fraction'] + c['fraction2'] > 0)


def search(c, ctx):
    if c['witness'] is None:
        raise Discard
    m = load('rcpsp_multiskill.solvers.ms_rcpsp_cp_lns_solver', True)
    f = c['stretch']
    best = shortest(c, c['hor'], False, c['one']) * f
    c = stretched(c, f)
    p = sd.build(c, variant=True)
    first = m.InitialSolutionMS_RCPSP(p, initial_method=m.InitialMethodRCPSP.PILE_CALENDAR, params_objective_function=get_default_objective_setup(p))
    random.seed(c['seed'])
    start = first.get_starting_solution()
    x, f0 = start.get_best_solution_fit()
    if not p.satisfy(x):
        ctx.label('no start')
        raise Discard
    check_solution(c, p, x, f0, 'start', one=c['one'])
    s = m.LNS_CP_MS_RCPSP_SOLVER(p, option_neighbor=m.OptionNeighbor[c['option']], exact_skills_need=False, one_ressource_per_task=c['one'])
    r = s.solve(parameters_cp=cp(c['flags'][1]), nb_iteration_lns=c['iters'])
    for x, g in r.list_solution_fits:
        check_solution(c, p, x, g, 'search', one=c['one'])
    g = r.get_best_solution_fit()[1]
    require(g >= f0, 'best %s worse than the start %s', g, f0)
    require(-g >= best, 'length %s, the shortest is %s', -g, best)
    ctx.label(c['option'], 'improved' if g > f0 else None, 'stretched' if f > 1 else None)
    ctx.nontrivial(-f0 > best)


SUBCHECKS = [
    Sub('exact-cp', projects, exact_cp, quick=160, thorough=600, cpu_limit=60, rule='at least two tasks, and units or resources delay the end'),
    Sub('exact-lp', projects, exact_lp, quick=120, thorough=600, cpu_limit=60, rule='as exact-cp', native=mip('rcpsp_multiskill.solvers.lp_model')),
    Sub('imposed-cp', partials, partial_cp, quick=160, thorough=600, cpu_limit=60, rule='the imposed part makes the project longer'),
    Sub('post-process', delays, post_process, quick=300, thorough=3000, rule='at least three tasks, and the end is moved'),
    Sub('neighbourhood', searches, neighbourhood, quick=60, thorough=600, cpu_limit=60, rule='the start is not optimal, part of it is fixed'),
    Sub('search', searches, search, quick=40, thorough=400, cpu_limit=60, rule='the start is not optimal'),
]
