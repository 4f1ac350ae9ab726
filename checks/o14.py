"""O14: solvers of project scheduling: the exact ones return the shortest schedule, also when part of it is imposed, and every
solver returns schedules that respect the project, with their true makespan."""
from itertools import permutations, product

from hypothesis import strategies as st

from checks.o09 import cp, load, milp
from harness import mzn  # noqa: F401
from harness import rcpspdomain as rd
from harness.api import Discard, Sub, eq, require
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import CPSolverName
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import PartialSolution, RCPSPSolution

RULE = 'Small projects, whose schedules are enumerated exhaustively; non-trivial as stated per sub-check.'
ASSUMPTIONS = ['Constraint models run on Gecode with the standard library of constraints; integer programs on CBC (Gurobi and Chuffed are absent)',
               'makespans are compared with the minimum over all mode vectors and all serial schedules (or all start vectors, when part of the schedule is imposed)']


def all_modes(c):
    return [list(m) for m in product(*[range(1, len(ms) + 1) for ms in c['modes']]) if rd.nr_ok(c, m)]


def span(s):
    return max([e for _, e in s.values()], default=0)


def shortest(c, pick=min):
    """Minimal makespan over all modes and orders, None if there is no schedule."""
    return pick((span(s) for m in all_modes(c) for p in permutations(range(c['n'])) for s in [rd.sgs(c, p, m)] if s is not None), default=None)


def longest(c):
    return sum(max(m['d'] for m in ms) for ms in c['modes'])


def latest(c):
    """Last end that the models consider: the calendar, or the sum of the durations."""
    return min([len(x['cap']) for x in c['res'].values()]) if 'calendar' in c['kind'] else longest(c)


def schedule_of(c, sol):
    eq(sorted(sol.rcpsp_schedule), list(range(1, c['n'] + 3)), 'tasks of the schedule')
    s = rd.plain_schedule(c, sol)
    sink = sol.rcpsp_schedule[c['n'] + 2]
    source = sol.rcpsp_schedule[1]
    require(sink['start_time'] == sink['end_time'] and 0 <= source['start_time'] == source['end_time'], 'source or sink lasts')
    for i, (a, b) in s.items():
        require(a >= source['start_time'], 'task %d starts before the project', i)
    return s, int(sink['end_time'])


def check_solution(c, p, sol, fit=None, imposed=None, what=''):
    s, end = schedule_of(c, sol)
    modes = [int(m) for m in sol.rcpsp_modes]
    require(len(modes) == c['n'] and all(1 <= m <= len(c['modes'][i]) for i, m in enumerate(modes)), '%s: modes %s', what, modes)
    for i, (a, b) in s.items():
        require(a >= 0 and b - a == rd.mode(c, i, modes)['d'], '%s: task %d lasts %s in mode %s', what, i, (a, b), modes[i])
    require(rd.feasible(c, s, modes, end), '%s: schedule %s (end %s) in modes %s breaks the project', what, s, end, modes)
    require(p.satisfy(sol), '%s: the problem rejects %s', what, s)
    require(sol.rcpsp_schedule_feasible, '%s: %s flagged infeasible', what, s)
    eq(p.evaluate(sol)['makespan'], end, what + ': makespan')
    if fit is not None:
        eq(fit, -end, what + ': score')
    if imposed is not None:
        broken = [k for k, ok in holds(c, imposed, s, modes).items() if not ok]
        require(not broken, '%s: schedule %s does not respect %s of %s', what, s, broken, imposed)
    return end


# ------------------------------------------------------------------------------------------------ imposed parts of a schedule
KEYS = ('start_times', 'partial_permutation', 'list_partial_order', 'start_together', 'start_after_nunit', 'start_at_end_plus_offset', 'start_at_end', 'task_mode')


def holds(c, imp, s, modes):
    """Which of the imposed conditions hold for the schedule."""
    d = lambda i: rd.mode(c, i, modes)['d']
    out = {}
    for k, v in imp.items():
        if k == 'start_times':
            ok = all(s[i][0] == t for i, t in v)
        elif k == 'partial_permutation':
            ok = all(s[a][0] <= s[b][0] for a, b in zip(v, v[1:]))
        elif k == 'list_partial_order':
            ok = all(s[a][0] <= s[b][0] for l in v for a, b in zip(l, l[1:]))
        elif k == 'start_together':
            ok = all(s[a][0] == s[b][0] for a, b in v)
        elif k == 'start_after_nunit':
            ok = all(s[b][0] >= s[a][0] + u for a, b, u in v)
        elif k == 'start_at_end_plus_offset':
            ok = all(s[b][0] >= s[a][0] + d(a) + u for a, b, u in v)
        elif k == 'start_at_end':
            ok = all(s[b][0] == s[a][0] + d(a) for a, b in v)
        else:
            ok = all(modes[i] == m for i, m in v)
        out[k] = ok
    return out


def partial(imp):
    """As the library takes it (tasks from 2)."""
    f = {'start_times': lambda v: {i + 2: t for i, t in v}, 'task_mode': lambda v: {i + 2: m for i, m in v},
         'partial_permutation': lambda v: [i + 2 for i in v], 'list_partial_order': lambda v: [[i + 2 for i in l] for l in v],
         'start_together': lambda v: [(a + 2, b + 2) for a, b in v], 'start_at_end': lambda v: [(a + 2, b + 2) for a, b in v]}
    g = lambda v: [(a + 2, b + 2, u) for a, b, u in v]
    return PartialSolution(**{k: f.get(k, g)(v) for k, v in imp.items()})


@st.composite
def imposed(draw, c, keys, witness, modes, best=()):
    """Conditions of a few kinds that hold for the witness (rather than for the best schedule)."""
    n, out = c['n'], {}
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
    dur = lambda i: rd.mode(c, i, modes)['d']
    if best == ():
        best = min(((span(s), m, s) for m in all_modes(c) for q in permutations(range(n)) for s in [rd.sgs(c, q, m)] if s is not None),
                   key=lambda x: x[0], default=None)
    differs = lambda cond: best is not None and not all(holds(c, cond, best[2], best[1]).values())
    for k in draw(st.lists(st.sampled_from(keys), min_size=1, max_size=2, unique=True)):
        some = draw(st.one_of(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True), st.permutations(range(n)).map(list)))
        by_start = sorted(some, key=lambda i: witness[i][0])
        if draw(st.integers(0, 3)):  # tasks on which the shortest schedule differs come first
            some.sort(key=lambda i: not differs({'task_mode': [[i, modes[i]]]} if k == 'task_mode' else {'start_times': [[i, witness[i][0]]]}))
        if k == 'start_times':
            out[k] = [[i, witness[i][0]] for i in some[:2]]
        elif k == 'task_mode':
            out[k] = [[i, modes[i]] for i in some]
        elif k == 'partial_permutation':
            out[k] = by_start if differs({k: by_start}) else sorted(range(n), key=lambda i: witness[i][0])
        elif k == 'list_partial_order':
            other = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True))
            out[k] = [by_start, sorted(other, key=lambda i: witness[i][0])][::draw(st.sampled_from([1, -1]))]
        else:
            ok = {'start_together': lambda a, b: witness[a][0] == witness[b][0],
                  'start_at_end': lambda a, b: witness[b][0] == witness[a][0] + dur(a),
                  'start_after_nunit': lambda a, b: True,
                  'start_at_end_plus_offset': lambda a, b: witness[b][0] >= witness[a][0] + dur(a)}[k]
            fit = [q for q in pairs if ok(*q)]
            if fit:
                def cond(a, b):
                    gap = witness[b][0] - witness[a][0]
                    return [[a, b] + ([gap] if k == 'start_after_nunit' else [gap - dur(a)] if k == 'start_at_end_plus_offset' else [])]
                if draw(st.integers(0, 3)):
                    fit = [q for q in fit if differs({k: cond(*q)})] or fit
                out[k] = cond(*draw(st.sampled_from(fit)))
    return out


def shortest_imposed(c, imp, last):
    """Minimal end of a schedule with the imposed conditions whose starts are at most `last`."""
    best = None
    pr = rd.preds_of(c)
    order = []
    while len(order) < c['n']:
        order += [i for i in range(c['n']) if i not in order and pr[i] <= set(order)]
    fixed = dict(imp.get('start_times', []))
    for modes in all_modes(c):
        if any(modes[i] != m for i, m in imp.get('task_mode', [])):
            continue
        def go(k, s):
            nonlocal best
            if k == c['n']:
                if rd.feasible(c, s, modes) and all(holds(c, imp, s, modes).values()):
                    best = span(s)
                return
            i = order[k]
            d = rd.mode(c, i, modes)['d']
            low = max([s[j][1] for j in pr[i]], default=0)
            for t in ([fixed[i]] if i in fixed else range(low, last + 1)):
                if t >= low and (best is None or t + d < best):
                    s[i] = (t, t + d)
                    go(k + 1, s)
                    s.pop(i, None)
        go(0, {})
    return best


def delayed(c, seq, modes, wait):
    """A feasible schedule that waits before some tasks."""
    s = {}
    pr = rd.preds_of(c)
    todo = list(seq)
    while todo:
        i = next(x for x in todo if not (pr[x] & set(todo)))
        d = rd.mode(c, i, modes)['d']
        t = max([s[j][1] for j in pr[i]], default=0) + wait[i]
        while True:
            s[i] = (t, t + d)
            if t > 60:
                return None
            part = dict(s)
            use = all(sum(rd.mode(c, j, modes)['r'][k] for j, (a, b) in part.items() if a <= u < b) <= rd.cap(c, k, u)
                      for k in rd.ren(c) for u in range(t, t + d))
            if use:
                break
            t += 1
        todo.remove(i)
    return s


# ------------------------------------------------------------------------------------------------ exact solvers
SOLO = ('start_times', 'partial_permutation', 'list_partial_order', 'start_together', 'start_after_nunit', 'start_at_end_plus_offset', 'start_at_end')


def scarce(draw, c):
    """Often makes non-renewable resources bind: the faster a mode, the more it takes."""
    for k, x in c['res'].items():
        if not x['nr'] or not draw(st.integers(0, 3)):
            continue
        for ms in c['modes']:
            ms.sort(key=lambda m: m['d'])
            take = sorted([draw(st.integers(0, 3)) for _ in ms], reverse=True)
            for m, t in zip(ms, take):
                m['r'][k] = t
        low = sum(min(m['r'][k] for m in ms) for ms in c['modes'])
        top = sum(max(m['r'][k] for m in ms) for ms in c['modes'])
        new = max(1, min(top, low + draw(st.integers(0, 2))))
        old = x['cap']
        x['cap'] = new if isinstance(x['cap'], int) else [new] * len(x['cap'])
        if not all_modes(c):  # with the other non-renewable resources
            x['cap'] = max(top, 1) if isinstance(old, int) else [max(top, 1)] * len(old)


@st.composite
def projects(draw, hows, impose=False):
    how = draw(st.sampled_from(hows))
    kinds = {'cp-single': ('single',), 'lp-single': ('single',), 'cp': ('single', 'multi', 'calendar', 'calendar-multi'),
             'lp': ('single', 'multi'), 'modes': ('multi', 'calendar-multi')}[how]
    c = draw(rd.instances(kinds=kinds, min_n=2 if impose else draw(st.sampled_from([1, 3, 4, 4, 4])), max_n=3 if impose else 4, over=False, max_d=3, nr_ok=how not in ('cp-single', 'lp-single'), loose=True))
    if not impose and 'multi' in c['kind'] and c['n'] == 4:
        c['modes'] = [ms[:2] for ms in c['modes']]
    if draw(st.integers(0, 3)):  # little of each resource, and more tasks that need some
        busy = draw(st.sampled_from(sorted(c['res'])))
        for ms in c['modes']:
            for m in ms:
                m['d'] = max(m['d'], draw(st.integers(0, 2)))
                if not c['res'][busy]['nr']:
                    m['r'][busy] = max(m['r'][busy], draw(st.integers(0, 1)))
        for k, x in c['res'].items():
            top = max([1] + [m['r'][k] for ms in c['modes'] for m in ms])
            if not x['nr']:
                x['cap'] = top if isinstance(x['cap'], int) else [min(t, top) for t in x['cap']]
                if not isinstance(x['cap'], int) and max(x['cap']) < top:
                    x['cap'][-1] = top
    scarce(draw, c)
    c['how'] = how
    c['flags'] = [draw(st.booleans()) for _ in range(3)]
    if impose:
        v = draw(rd.vectors(c, wild=False))
        wait = [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(c['n'])]
        if draw(st.booleans()):  # the worst serial schedule, often far from what would be chosen freely
            v = max(({'perm': list(q), 'modes': m} for m in all_modes(c) for q in permutations(range(c['n']))),
                    key=lambda v: span(rd.sgs(c, v['perm'], v['modes']) or {}), default=v)
        c['modes_'] = v['modes']
        s = delayed(c, v['perm'], v['modes'], wait)
        if s is None or max(b for _, b in s.values()) > latest(c):
            s = delayed(c, v['perm'], v['modes'], [0] * c['n'])
        if s is None or not rd.nr_ok(c, v['modes']) or max(b for _, b in s.values()) > latest(c):
            s = None
        c['witness'] = None if s is None else [s[i][0] for i in range(c['n'])]
        keys = {'cp': KEYS, 'cp-single': SOLO, 'lp-single': SOLO, 'lp': ('start_times', 'partial_permutation', 'list_partial_order')}[how]
        c['imp'] = {} if s is None else draw(imposed(c, keys, s, v['modes']))
    return c


def as_solution(c, p, starts, modes):
    sched = {i + 2: {'start_time': t, 'end_time': t + rd.mode(c, i, modes)['d']} for i, t in enumerate(starts)}
    end = max([x['end_time'] for x in sched.values()], default=0)
    sched[1] = {'start_time': 0, 'end_time': 0}
    sched[c['n'] + 2] = {'start_time': end, 'end_time': end}
    return RCPSPSolution(problem=p, rcpsp_schedule=sched, rcpsp_modes=list(modes), rcpsp_schedule_feasible=True)


def exact(c, ctx):
    p = rd.build(c)
    how, fl = c['how'], c['flags']
    imp = c.get('imp')
    UB = latest(c)
    args = {}
    if imp is not None:
        if c['witness'] is None or not imp:
            raise Discard
        want = shortest_imposed(c, imp, UB)
        args['partial_solution'] = partial(imp)
    else:
        want = shortest(c)
    if want is None or want > UB:  # beyond the calendar, or waiting more than all durations
        raise Discard
    if how in ('lp', 'lp-single'):
        m = load('rcpsp.solver.rcpsp_lp_solver', True)
        s = (m.LP_RCPSP if how == 'lp-single' else m.LP_MRCPSP)(p)
        if imp is not None:  # the start solution bounds the schedules considered
            args['start_solution'] = as_solution(c, p, c['witness'], c['modes_'])
        s.init_model(greedy_start=fl[0], **args)
        r = s.solve(parameters_milp=milp(fl[1]))
    else:
        m = load('rcpsp.solver.cp_solvers', True)
        s = (m.CP_RCPSP_MZN if how == 'cp-single' else m.CP_MRCPSP_MZN)(p, cp_solver_name=CPSolverName.GECODE if fl[0] else CPSolverName.CHUFFED)
        s.init_model(output_type=fl[1], **args)
        r = s.solve(parameters_cp=cp(fl[2]))
    require(len(r.list_solution_fits) > 0, '%s: no solution, the shortest schedule ends at %s', how, want)
    ends = [check_solution(c, p, x, f, imp, how) for x, f in r.list_solution_fits]
    x, f = r.get_best_solution_fit()
    eq(-f, want, how + ': best makespan, against the shortest schedule')
    eq(min(ends), want, how + ': makespan, against the shortest schedule')
    eq(schedule_of(c, r.best_solution)[1], want, how + ': best solution')
    ctx.label(how, c['kind'], *(imp or {}))
    ctx.nontrivial(want > 0 and (imp is not None and any(holds(c, imp, s0, m0) and not all(holds(c, imp, s0, m0).values())
                                                         for m0 in all_modes(c)[:4] for q in permutations(range(c['n']))
                                                         for s0 in [rd.sgs(c, q, m0)] if s0 is not None)
                                 or imp is None and shortest(c, max) > want))


def modes(c, ctx):
    p = rd.build(c)
    s = load('rcpsp.solver.cp_solvers', True).CP_MRCPSP_MZN_MODES(p, cp_solver_name=CPSolverName.GECODE)
    args = {}
    imp = {}
    want = {tuple(m) for m in all_modes(c)}
    if c['flags'][0] and want:
        imp = {0: sorted(want)[0][0]}
        args['partial_solution'] = PartialSolution(task_mode={i + 2: m for i, m in imp.items()})
        want = {m for m in want if all(m[i] == x for i, x in imp.items())}
    if not want:
        raise Discard
    s.init_model(**args)
    q = cp(True)
    q.all_solutions = c['flags'][1]
    q.nr_solutions = 1
    got = s.solve(parameters_cp=q)
    for g in got:
        eq((g[0], g[-1]), (1, 1), 'modes of the source and the sink')
        require(tuple(g[1:-1]) in want, 'modes %s exceed the resources or the imposed modes %s', g, imp)
    if c['flags'][1]:
        eq({tuple(g[1:-1]) for g in got}, want, 'all mode vectors')
    require(len(got) > 0, 'no mode vector')
    ctx.nontrivial(1 < len(want) or len(want) < len(list(product(*c['modes']))))


def lp():
    load('rcpsp.solver.rcpsp_lp_solver', True)


SUBCHECKS = [
    Sub('cp-single', lambda: projects(('cp-single',)), exact, quick=50, thorough=600, cpu_limit=60, rule='some order of tasks gives a longer schedule'),
    Sub('cp', lambda: projects(('cp',)), exact, quick=60, thorough=600, cpu_limit=60, rule='as cp-single'),
    Sub('cp-single-imposed', lambda: projects(('cp-single',), True), exact, quick=50, thorough=600, cpu_limit=60, rule='some serial schedule breaks the imposed conditions'),
    Sub('cp-imposed', lambda: projects(('cp',), True), exact, quick=60, thorough=600, cpu_limit=60, rule='as cp-single-imposed'),
    Sub('lp-single', lambda: projects(('lp-single',)), exact, quick=80, thorough=800, cpu_limit=60, rule='as cp-single', native=lp),
    Sub('lp', lambda: projects(('lp',)), exact, quick=80, thorough=800, cpu_limit=60, rule='as cp-single', native=lp),
    Sub('lp-single-imposed', lambda: projects(('lp-single',), True), exact, quick=320, thorough=800, cpu_limit=60, rule='as cp-single-imposed', native=lp),
    Sub('lp-imposed', lambda: projects(('lp',), True), exact, quick=160, thorough=800, cpu_limit=60, rule='as cp-single-imposed', native=lp),
    Sub('modes', lambda: projects(('modes',)), modes, quick=50, thorough=600, cpu_limit=60, rule='several mode vectors fit, or some do not'),
]
