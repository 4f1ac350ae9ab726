"""O05: critical path method and list/dispatching schedulers of RCPSP."""
from copy import deepcopy
import numpy as np
from hypothesis import strategies as st
from harness import mzn, rcpspdomain as rd  # noqa: F401
from harness.api import Sub, require, eq, close
from skdecide.builders.discrete_optimization.generic_tools.do_problem import build_evaluate_function_aggregated
from skdecide.builders.discrete_optimization.rcpsp.solver.cpm import CPM
from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_pile import (
    PileSolverRCPSP, PileSolverRCPSP_Calendar, Executor, GreedyChoice)

RULE = ('Projects of 1-7 tasks with 1-3 modes, resources, calendars and any precedence graph, horizons long enough; non-trivial: at least three tasks, and '
        '(critical path) some arc is not tight or (schedulers) resources delay some task beyond its predecessors.')
ASSUMPTIONS = ['the project fits in its horizon and resources (non-renewable needs included)', 'availability is full from some time on',
               'modes are chosen by Gecode where the library asks for Chuffed, absent here']


@st.composite
def roomy(draw, kinds, **k):
    """Instances where every list order fits."""
    c = draw(rd.instances(kinds=kinds, over=False, loose=True, min_n=1, max_n=7, **k))
    n, total = c['n'], sum(max(m['d'] for m in ms) for ms in c['modes'])
    c['hor'] = 3 * total + 2 * n + 8
    if draw(st.booleans()):
        # scarce: most tasks need at least half of some resource
        for ms in c['modes']:
            for m in ms:
                for name, x in c['res'].items():
                    if not x['nr'] and draw(st.booleans()):
                        top = x['cap'] if isinstance(x['cap'], int) else max(x['cap'])
                        m['r'][name] = draw(st.integers((top + 1) // 2, top))
    for x in c['res'].values():
        if isinstance(x['cap'], list):
            top = max(x['cap'])
            size = c['hor'] + 1
            x['cap'] = (x['cap'][:2 + total // 2] + [top] * size)[:size]
    for name, x in c['res'].items():
        # non-renewable resources suffice whatever the modes
        if x['nr']:
            need = max(1, sum(max(m['r'][name] for m in ms) for ms in c['modes']))
            if c['kind'] == 'multi':
                need = max(1, draw(st.integers(sum(min(m['r'][name] for m in ms) for ms in c['modes']), need)))
                if not any_modes(c, {name: need}):
                    need = sum(max(m['r'][name] for m in ms) for ms in c['modes'])
            x['cap'] = need if isinstance(x['cap'], int) else [need] * len(x['cap'])
    if c['kind'] == 'multi' and not any_modes(c, {k: x['cap'] for k, x in c['res'].items() if x['nr']}):
        for name, x in c['res'].items():
            if x['nr']:
                x['cap'] = max(1, sum(max(m['r'][name] for m in ms) for ms in c['modes']))
    return c


def any_modes(c, caps):
    def go(i, left):
        if min(left.values(), default=0) < 0:
            return False
        return i == c['n'] or any(go(i + 1, {k: v - m['r'][k] for k, v in left.items()}) for m in c['modes'][i])
    return go(0, caps)


def cpm_dates(c):
    """-> {task: (earliest start, latest start)}, length of the critical path; with the shortest modes."""
    pr = rd.preds_of(c)
    d = [min(m['d'] for m in ms) for ms in c['modes']]
    es, ls = {}, {}

    def early(i):
        if i not in es:
            es[i] = max([early(j) + d[j] for j in pr[i]], default=0)
        return es[i]
    total = max(early(i) + d[i] for i in range(c['n']))

    def late(i):
        if i not in ls:
            ls[i] = min([late(j) for j in c['succ'][i]], default=total) - d[i]
        return ls[i]
    return {i: (early(i), late(i)) for i in range(c['n'])}, d, total


def check_dates(k, ctx):
    c = k['c']
    n = c['n']
    p = rd.build(c)
    cpm = CPM(p)
    path = cpm.run_classic_cpm()
    dates, d, total = cpm_dates(c)
    for i, (e, l) in dates.items():
        o = cpm.map_node[i + 2]
        eq((o._ESD, o._EFD, o._LSD, o._LFD), (e, e + d[i], l, l + d[i]), 'dates of task %d' % i)
    for t, x in ((1, 0), (n + 2, total)):
        o = cpm.map_node[t]
        eq((o._ESD, o._EFD, o._LSD, o._LFD), (x, x, x, x), 'dates of ' + ('the source' if t == 1 else 'the sink'))
    eq((path[0], path[-1]), (1, n + 2), 'ends of the critical path')
    for a, b in zip(path, path[1:]):
        require(b in p.successors[a], 'critical path %r does not follow the precedence graph', path)
    eq(sum(d[t - 2] for t in path[1:-1]), total, 'length of the critical path %r' % (path,))
    order = cpm.return_order_cpm()
    eq(sorted(order), list(range(1, n + 3)), 'tasks by date')
    key = {t: (cpm.map_node[t]._ESD, cpm.map_node[t]._LSD) for t in order}
    require(all(key[a] <= key[b] for a, b in zip(order, order[1:])), 'order %r is not by earliest, then latest start', order)
    pr = rd.preds_of(c)
    ctx.nontrivial(n >= 3 and any(dates[j][0] + d[j] < dates[i][0] for i in range(n) for j in pr[i]))


def check_schedule(c, modes, got, total, what, left=True):
    eq(sorted(got), list(range(c['n'])), what + ' tasks scheduled')
    for i, (s, e) in got.items():
        require(s >= 0 and e - s == rd.mode(c, i, modes)['d'], '%s task %d scheduled %r', what, i, (s, e))
    require(rd.feasible(c, got, modes), '%s schedule %r breaks a constraint', what, got)
    require(max(e for _, e in got.values()) >= total, '%s schedule %r shorter than the critical path %r', what, got, total)
    pr = rd.preds_of(c)
    if left:
        for i, (s, e) in got.items():
            for x in range(max([got[j][1] for j in pr[i]], default=0), s):
                moved = dict(got)
                moved[i] = (x, x + e - s)
                require(not rd.feasible(c, moved, modes), '%s task %d could start at %d instead of %d', what, i, x, s)
    return any(s > max([got[j][1] for j in pr[i]], default=0) for i, (s, _) in got.items())


def table(c, t, what):
    eq(sorted(t), list(range(1, c['n'] + 3)), what + ' tasks scheduled')
    got = {i - 2: (int(x['start_time']), int(x['end_time'])) for i, x in t.items() if 2 <= i <= c['n'] + 1}
    end = max(e for _, e in got.values())
    eq((t[1]['start_time'], t[1]['end_time']), (0, 0), what + ' source')
    require(t[c['n'] + 2]['start_time'] == t[c['n'] + 2]['end_time'] >= end, '%s sink %r before the end %r', what, t[c['n'] + 2], end)
    return got, end


def frozen(p):
    return [{r: list(map(int, np.ravel(x))) for r, x in p.resources.items()}] + list(deepcopy((p.mode_details, p.successors, list(p.non_renewable_resources), p.horizon)))


@st.composite
def order_cases(draw):
    c = draw(roomy(('single', 'single', 'calendar')))
    return dict(c=c, perm=list(draw(st.permutations(range(c['n'])))), given=draw(st.booleans()), cut=draw(st.booleans()), arr=draw(st.booleans()))


def check_order(k, ctx):
    c = k['c']
    n = c['n']
    p = rd.build(c)
    if k['arr'] and c['kind'] == 'calendar':
        p.resources = {r: np.array(x) for r, x in p.resources.items()}
    before = frozen(p)
    cpm = CPM(p)
    path = cpm.run_classic_cpm()
    order = [1] + [i + 2 for i in k['perm']] + [n + 2] if k['given'] else cpm.return_order_cpm()
    _, _, total = cpm_dates(c)
    modes = [1] * n
    args = dict(total_order=list(order)) if k['given'] else {}
    t = cpm.run_sgs_on_order(map_nodes=cpm.map_node, critical_path=path, cut_sgs_by_critical=k['cut'], **args)[0]
    got, end = table(c, t, 'list')
    delayed = check_schedule(c, modes, got, total, 'list')
    eq(t[n + 2]['start_time'], end, 'sink')
    if not k['cut']:
        eq(got, rd.sgs(dict(c, mult=1), [x - 2 for x in order if 2 <= x <= n + 1], modes), 'schedule of the order')
    t = CPM(p)
    path = t.run_classic_cpm()
    t = t.run_sgs_time_loop(map_nodes=t.map_node, critical_path=path, **args)[0]
    got, end = table(c, t, 'time loop')
    check_schedule(c, modes, got, total, 'time loop', left=False)
    eq(frozen(p), before, 'problem after scheduling')
    ctx.nontrivial(n >= 3 and delayed)


@st.composite
def pile_cases(draw, kinds=('single',)):
    c = draw(roomy(kinds))
    if draw(st.integers(0, 4)):
        for ms in c['modes']:
            for m in ms:
                if m['d'] == 0:
                    m['r'] = {k: 0 for k in m['r']}
    return dict(c=c, g=draw(st.sampled_from([g.name for g in GreedyChoice])), perm=list(draw(st.permutations(range(c['n'])))), modes=draw(rd.vectors(c, False))['modes'],
                cal=draw(st.booleans()))


def instant(c):
    """Some task needs resources for no time: whether that delays others is left open."""
    return any(m['d'] == 0 and any(m['r'].values()) for ms in c['modes'] for m in ms)


def check_storage(c, p, res, total, what, left=True):
    """The stored solution is accepted by the problem, correct and truly scored."""
    left = left and not instant(c)
    sol, fit = res.get_best_solution_fit()
    modes = [int(m) for m in sol.rcpsp_modes]
    eq(len(modes), c['n'], what + ' modes')
    got, end = table(c, sol.rcpsp_schedule, what)
    delayed = check_schedule(c, modes, got, total, what, left)
    require(p.satisfy(sol), '%s schedule not accepted by the problem', what)
    f, _ = build_evaluate_function_aggregated(p)
    close(float(fit), float(f(sol)), what + ' fitness')
    eq(p.evaluate(sol)['makespan'], int(sol.rcpsp_schedule[c['n'] + 2]['end_time']), what + ' makespan')
    perm = [int(x) for x in sol.rcpsp_permutation]
    eq(sorted(perm), list(range(c['n'])), what + ' permutation')
    require(all(got[a][0] <= got[b][0] for a, b in zip(perm, perm[1:])), '%s permutation %r is not that of schedule %r', what, perm, got)
    return delayed, modes, got


def check_pile(k, ctx):
    c = k['c']
    p = rd.build(c)
    before = frozen(p)
    _, _, total = cpm_dates(c)
    calendar = 'calendar' in c['kind'] or k['cal']
    s = PileSolverRCPSP_Calendar(p) if calendar else PileSolverRCPSP(p)
    delayed, modes, got = check_storage(c, p, s.solve(greedy_choice=GreedyChoice[k['g']]), total, k['g'], left=not calendar)
    require(all(1 <= m <= len(ms) for m, ms in zip(modes, c['modes'])), 'modes %r do not exist', modes)
    check_storage(c, p, s.solve(greedy_choice=GreedyChoice.MOST_SUCCESSORS), total, 'again', left=not calendar)
    eq(frozen(p), before, 'problem after scheduling')
    ctx.label(k['g'])
    ctx.nontrivial(c['n'] >= 3 and delayed)


def check_executor(k, ctx):
    c = k['c']
    n = c['n']
    p = rd.build(c)
    if not rd.nr_ok(c, k['modes']):
        k['modes'] = [1] * n
        if not rd.nr_ok(c, k['modes']):
            return
    _, _, total = cpm_dates(c)
    ex = Executor(p)
    md = {i + 2: m for i, m in enumerate(k['modes'])}
    md[1] = md[n + 2] = 1
    res = ex.compute_schedule_from_priority_list([1] + [i + 2 for i in k['perm']] + [n + 2], dict(md))
    delayed, modes, got = check_storage(c, p, res, total, 'executor')
    eq(modes, k['modes'], 'modes executed')
    # of two tasks which could both start, the first in the list does
    pr = rd.preds_of(c)
    pos = {i: x for x, i in enumerate(k['perm'])}
    for i, (s, e) in got.items():
        for j, (a, b) in got.items():
            if instant(c):
                continue
            if pos[j] < pos[i] and s < a and all(got[x][1] < s for x in pr[j]) and all(got[x][1] < s for x in pr[i]):
                moved = {x: v for x, v in got.items() if v[0] < s or (v[0] == s and pos[x] < pos[j])}
                moved[j] = (s, s + b - a)
                sub = dict(moved)
                require(not fits(c, sub, modes, s), 'task %d started at %d although %d comes first in %r and could start', i, s, j, k['perm'])
    ctx.nontrivial(n >= 3 and delayed)


def fits(c, sched, modes, t):
    """Capacities at time t only."""
    return all(sum(rd.mode(c, i, modes)['r'][k] for i, (s, e) in sched.items() if s <= t < e) <= rd.cap(c, k, t) for k in rd.ren(c))


@st.composite
def dates_cases(draw):
    return dict(c=draw(rd.instances(kinds=('single', 'multi', 'calendar'), min_n=1, max_n=9, nr_ok=False)))


SUBCHECKS = [
    Sub('dates', dates_cases, check_dates, 2400),
    Sub('lists', order_cases, check_order, 1400),
    Sub('pile', pile_cases, check_pile, 1400),
    Sub('pile modes', lambda: pile_cases(('multi', 'calendar', 'calendar')), check_pile, 140),
    Sub('executor', pile_cases, check_executor, 1000),
    Sub('executor modes', lambda: pile_cases(('multi',)), check_executor, 100),
]
