"""D09: projects turned into optimisation problems and back; policies made from solutions, priority lists and pile rules."""
from copy import deepcopy
from hypothesis import strategies as st
from harness import mzn, rcpspdomain as rd, scheddomain as SD, skilldomain as sd  # noqa: F401
from harness.api import Sub, require, eq, Discard
from checks.o05 import roomy
from skdecide.hub.domain.rcpsp.rcpsp_sk import build_stochastic_from_deterministic, build_n_determinist_from_stochastic
from skdecide.hub.solver.do_solver.do_solver_scheduling import DOSolver, SolvingMethod, from_solution_to_policy
from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain, build_sk_domain, from_last_state_to_solution
from skdecide.hub.solver.pile_policy.pile_policy import PilePolicy, GreedyChoice
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod as B
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP
from skdecide.builders.discrete_optimization.generic_tools.ea.ga_tools import ParametersAltGa
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModelCalendar, RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel, MS_RCPSPSolution_Variant
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as K

RULE = ('Projects of 1-7 tasks (modes, calendars, multi-skill units, random durations), any order of tasks, modes and units; every action of a rollout is '
        'compared with the rule of its policy. Non-trivial: at least three tasks and (policies) some start was delayed by resources or freedom.')
ASSUMPTIONS = ['tasks without duration need no resource', 'dispatching policies run where availability never decreases (following a schedule: any calendar)',
               'multi-skill optimisation problems number units by their sorted names, as the library does',
               'Chuffed is absent here: Gecode solves the constraint models']
KINDS = ('single', 'multi', 'calendar', 'calendar-multi')
POLICIES = ['FOLLOW_GANTT', 'SGS_PRECEDENCE', 'SGS_READY', 'SGS_STRICT', 'SGS_TIME_FREEDOM', 'SGS_INDEX_FREEDOM']


@st.composite
def projects(draw, kinds=KINDS, drops=True):
    c = draw(roomy(kinds))
    for ms in c['modes']:
        for m in ms:
            if m['d'] == 0:
                m['r'] = {k: 0 for k in m['r']}
    if not drops:
        for x in c['res'].values():
            if isinstance(x['cap'], list):
                x['cap'] = sorted(x['cap'])
    return c


# ---------------------------------------------------------------- binding
def plain_model(p):
    return dict(tasks=sorted(p.mode_details), modes={i: {m: dict(x) for m, x in ms.items()} for i, ms in p.mode_details.items()},
                nr=sorted(p.non_renewable_resources), succ={i: sorted(set(s)) for i, s in p.successors.items()}, horizon=p.horizon)


def check_binding(k, ctx):
    c, varying = k['c'], k['varying']
    p = rd.build(c)
    before = deepcopy(plain_model(p))
    dom = build_sk_domain(p, varying_ressource=varying)
    eq(sorted(dom.get_tasks_ids()), before['tasks'], 'tasks of the domain')
    cal = 'calendar' in c['kind']
    for r, x in c['res'].items():
        for t in range(c['hor']):
            want = rd.cap(c, r, t) if varying or not cal else max(x['cap'])
            eq(dom.get_quantity_resource(r, time=t), want, 'availability of %s at %d in the domain' % (r, t))
        eq(bool(dom.is_renewable(r)), not x['nr'], '%s is renewable in the domain' % r)
    for i, ms in before['modes'].items():
        eq(sorted(dom.get_task_modes(i)), sorted(ms), 'modes of task %d in the domain' % i)
        for m, x in ms.items():
            eq(dom.get_task_duration(i, m), x['duration'], 'duration of task %d mode %d in the domain' % (i, m))
            for r in c['res']:
                eq(dom.get_task_modes(i)[m].get_resource_need_at_time(r, time=0), x[r], 'need of task %d mode %d for %s in the domain' % (i, m, r))
    eq({i: sorted(set(s)) for i, s in dom.get_successors().items()}, before['succ'], 'successors in the domain')
    eq(dom.get_max_horizon(), c['hor'], 'horizon of the domain')
    q = build_do_domain(dom)
    eq(plain_model(q), before, 'project back from the domain')
    eq(plain_model(p), before, 'project which was converted')
    if varying and cal:
        require(isinstance(q, RCPSPModelCalendar), 'a project with calendars came back as %s', type(q).__name__)
        eq({r: list(v)[:c['hor']] for r, v in q.resources.items()}, {r: [rd.cap(c, r, t) for t in range(c['hor'])] for r in c['res']}, 'calendars')
    else:
        eq(dict(q.resources), {r: max(x['cap']) if cal else x['cap'] for r, x in c['res'].items()}, 'resources')
    eq(q.n_jobs, c['n'], 'number of tasks')
    eq(bool(q.is_rcpsp_multimode()), any(len(ms) > 1 for ms in c['modes']), 'several modes')
    ctx.nontrivial(c['n'] >= 3)
    ctx.label(c['kind'])


@st.composite
def binding_cases(draw):
    c = draw(rd.instances(max_n=7, loose=True, over=False))
    return dict(c=c, varying=draw(st.booleans()) if 'calendar' in c['kind'] else False)


def check_skill_binding(k, ctx):
    c, varying = k['c'], k['varying']
    p = sd.build(c)
    dom = build_sk_domain(p, varying_ressource=varying)
    names = sorted(str(x['k']) for x in c['emp'])
    by = {str(x['k']): x for x in c['emp']}
    eq(sorted(dom.get_resource_units_names()), names, 'units of the domain')
    for w in names:
        eq({s: v for s, v in dom.get_skills_of_resource(w).items() if v}, by[w]['s'], 'skills of unit %s in the domain' % w)
    q = build_do_domain(dom)
    require(isinstance(q, MS_RCPSPModel), 'a multi-skill project came back as %s', type(q).__name__)
    md = {i: {m: {k: v for k, v in x.items() if v or k == 'duration'} for m, x in ms.items()} for i, ms in p.mode_details.items()}
    eq({i: {m: {k: v for k, v in x.items() if v or k == 'duration'} for m, x in ms.items()} for i, ms in q.mode_details.items()}, md, 'modes')
    eq({i: sorted(set(s)) for i, s in q.successors.items()}, {i: sorted(set(s)) for i, s in p.successors.items()}, 'successors')
    eq(set(q.non_renewable_resources), {r for r, x in c['res'].items() if x['nr']}, 'non-renewable resources')
    eq(set(q.resources_set), set(c['res']), 'resources')
    eq(set(q.skills_set), set(c['skills']), 'skills')
    eq(q.horizon, c['hor'], 'horizon')
    for r, x in c['res'].items():
        eq([q.resources_availability[r][t] for t in range(c['hor'] + 1)], [x['cap'][t if varying else 0] for t in range(c['hor'] + 1)], 'availability of ' + r)
    eq(sorted(q.employees), list(range(len(names))), 'units')
    for i, w in enumerate(names):
        e = q.employees[i]
        eq({s: d.skill_value for s, d in e.dict_skill.items()}, by[w]['s'], 'skills of unit %d (%s)' % (i, w))
        eq([bool(e.calendar_employee[t]) for t in range(c['hor'] + 1)], [bool(by[w]['cal'][t]) if varying else True for t in range(c['hor'] + 1)],
           'calendar of unit %d (%s)' % (i, w))
    ctx.nontrivial(c['n'] >= 2 and len(names) >= 2)
    ctx.label('varying' if varying else 'constant')


@st.composite
def skill_binding_cases(draw):
    return dict(c=draw(sd.instances(max_n=5, loose=True)), varying=draw(st.booleans()))


# ---------------------------------------------------------------- the rules of the policies
class World:
    """Tasks by identifier (1 = source, n + 2 = sink), modes and needs; what a state of the domain means."""

    def __init__(self, c, modes, skills=None, units=None, free_units=None):
        self.c, self.n = c, c['n']
        self.modes = {1: 1, self.n + 2: 1, **{i + 2: m for i, m in enumerate(modes)}}
        pr = rd.preds_of(c)
        self.pred = {i + 2: {j + 2 for j in pr[i]} | {1} for i in range(self.n)}
        self.pred[1] = set()
        self.pred[self.n + 2] = set(range(1, self.n + 2))
        self.units = units or {}
        self.at = free_units
        self.cap = rd.cap

    def spec(self, i, m):
        if i in (1, self.n + 2):
            return {'d': 0, 'r': {}}
        return self.c['modes'][i - 2][m - 1]

    def eligible(self, s):
        return [i for i in sorted(s.tasks_remaining) if self.pred[i] <= set(s.tasks_complete)]

    def fits(self, s, i, m):
        need = self.spec(i, m)['r']
        for r, x in self.c['res'].items():
            used = sum(self.spec(j, s.tasks_mode[j])['r'].get(r, 0) for j in (set(s.tasks_ongoing) | set(s.tasks_complete) if x['nr'] else s.tasks_ongoing))
            if need.get(r, 0) > self.cap(self.c, r, s.t) - used:
                return False
        busy = {u for j in s.tasks_ongoing for u in self.units.get(j, [])}
        return all(u not in busy and self.at(u, s.t) for u in self.units.get(i, []))


def expected(w, s, kind, order, start, dt, di):
    """The tasks which the policy may start in this state, in order of preference."""
    el = w.eligible(s)
    if kind == 'FOLLOW_GANTT':
        return [i for i in el if start[i] == s.t]
    el = [i for i in order if i in el]
    if not el:
        return []
    first = el[0]
    if kind == 'SGS_READY':
        pass
    elif kind in ('SGS_STRICT', 'SGS_PRECEDENCE'):
        el = [i for i in el if i == first or (start is not None and start[i] == start[first])]
    elif kind == 'SGS_TIME_FREEDOM':
        el = [i for i in el if i == first or (start is not None and start[first] <= start[i] <= start[first] + dt)]
    else:
        el = [i for i in el if order.index(i) <= order.index(first) + di]
    return el


def follow(dom, policy, w, rule, ctx, limit):
    """Rolls out, checks every action, returns the last state."""
    s = dom.get_initial_state()
    delayed = False
    for _ in range(limit):
        if len(s.tasks_complete) == w.n + 2:
            break
        require(policy.is_policy_defined_for(s), 'the policy is not defined at time %s', s.t)
        a = policy.get_next_action(s)
        where = 'at time %d (complete %s, running %s)' % (s.t, sorted(s.tasks_complete), sorted(s.tasks_ongoing))
        want, any_of = rule(s)
        if a.action == K.START:
            m = w.modes[a.task]
            eq(a.mode, m, 'mode in which task %s is started %s' % (a.task, where))
            if any_of:
                require(a.task in want, 'the policy starts task %s, not one of %s, %s', a.task, want, where)
            else:
                eq(a.task, want, 'task started ' + where)
            if w.units.get(a.task):
                eq(sorted(a.resource_unit_names or []), sorted(w.units[a.task]), 'units of task %s' % a.task)
        else:
            eq(a.action, K.TIME_PR, 'action ' + where)
            require(not want and want != 0, 'the policy lets time pass although task %s can start %s', want, where)
            delayed = delayed or len(w.eligible(s)) > 0
        nxt = dom.get_next_state(s, a) if w.sampled is None else w.sampled(s, a)
        if a.action == K.START:
            require(a.task in nxt.tasks_ongoing or a.task in nxt.tasks_complete, 'task %s did not start %s', a.task, where)
        s = nxt
    require(len(s.tasks_complete) == w.n + 2, 'the project is not complete after %d steps: time %s, remaining %s, running %s', limit, s.t,
            sorted(s.tasks_remaining), sorted(s.tasks_ongoing))
    return s, delayed


def verify(c, dom, w, s, durations=None):
    got = {i: (s.tasks_details[i].start, s.tasks_details[i].end) for i in w.modes}
    for i, (a, b) in got.items():
        d = w.spec(i, w.modes[i])['d']
        if durations is None:
            eq(b - a, d, 'duration of task %d in the execution' % i)
        else:
            require(b - a in durations(i, d), 'task %d of duration %d took %s', i, d, b - a)
        eq(s.tasks_mode[i], w.modes[i], 'mode of task %d in the execution' % i)
        require(all(got[j][1] <= a for j in w.pred[i]), 'task %d starts at %s before a predecessor ends: %s', i, a, got)
    sched = {i - 2: got[i] for i in range(2, w.n + 2)}
    return sched, got


def simple_rule(w, kind, order, start, dt, di):
    def rule(s):
        can = [i for i in expected(w, s, kind, order, start, dt, di) if w.fits(s, i, w.modes[i])]
        if kind == 'FOLLOW_GANTT':
            return can, True
        return (can[0] if can else None), False
    return rule


def run_policy(c, dom, policy, w, kind, order, start, dt, di, ctx, limit=None):
    return follow(dom, policy, w, simple_rule(w, kind, order, start, dt, di), ctx, limit or 3 * c['hor'] + 10)


def check_policies(k, ctx):
    c, e, kind = k['c'], k['e'], k['kind']
    p0 = rd.build(c)
    dom = build_sk_domain(p0, varying_ressource=True)
    p = build_do_domain(dom)
    sol = RCPSPSolution(problem=p, rcpsp_permutation=list(e['perm']), rcpsp_modes=list(e['modes']))
    if not sol.rcpsp_schedule_feasible:
        raise Discard()
    start = {i: int(x['start_time']) for i, x in sol.rcpsp_schedule.items()}
    order = sorted(start, key=lambda i: (start[i], i))
    policy = from_solution_to_policy(sol, dom, PolicyMethodParams(B[kind], delta_time_freedom=k['dt'], delta_index_freedom=k['di']))
    w = World(c, e['modes'])
    w.sampled = None
    s, delayed = run_policy(c, dom, policy, w, kind, order, start, k['dt'], k['di'], ctx)
    sched, got = verify(c, dom, w, s)
    require(rd.feasible(c, sched, e['modes'], got[w.n + 2][0]), 'the execution %s is not feasible', sched)
    if kind == 'FOLLOW_GANTT':
        eq({i: a for i, (a, _) in got.items()}, start, 'starting times of the execution')
    back = from_last_state_to_solution(s, dom)
    eq({i: (int(x['start_time']), int(x['end_time'])) for i, x in back.rcpsp_schedule.items()}, got, 'schedule of the solution made from the last state')
    eq(list(back.rcpsp_modes), list(e['modes']), 'modes of the solution made from the last state')
    require(back.problem.satisfy(back), 'the solution made from the last state is refused')
    eq(back.problem.evaluate(back)['makespan'], got[w.n + 2][1], 'makespan of the solution made from the last state')
    ctx.nontrivial(c['n'] >= 3 and delayed and (kind == 'FOLLOW_GANTT' or len(set(start.values())) > 2))
    ctx.label(kind)


@st.composite
def policy_cases(draw):
    kind = draw(st.sampled_from(POLICIES))
    c = draw(projects(drops=kind == 'FOLLOW_GANTT'))
    return dict(c=c, e=draw(rd.vectors(c, wild=False)), kind=kind, dt=draw(st.integers(0, 6)), di=draw(st.integers(0, 5)))


def check_lists(k, ctx):
    """A priority list alone (no schedule), also with random durations."""
    c, e, kind = k['c'], k['e'], k['kind']
    if not rd.nr_ok(c, e['modes']):
        raise Discard()
    dom = build_sk_domain(rd.build(c), varying_ressource=True)
    w = World(c, e['modes'])
    w.sampled = None
    durations = None
    if k['noise'] is not None:
        dom = build_stochastic_from_deterministic(dom, task_to_noise={i + 2 for i in k['noise']})
        durations = lambda i, d: [d] if d == 0 or i - 2 not in k['noise'] else range(max(1, d - 10), d + 11)  # noqa: E731
        w.sampled = lambda s, a: dom.get_next_state_distribution(s, a).sample() if k['dist'] else dom.sample(s, a).observation  # noqa: E731
    order = [i + 2 for i in e['perm']]
    order.insert(min(k['pos'][0], len(order)), 1)
    order.insert(min(k['pos'][1], len(order)), w.n + 2)
    start = None
    if k['plan'] is not None:  # the dates of some plan, whose order need not be that of the list
        at = dict(zip(range(1, w.n + 3), k['plan']))
        start = {i: at[i] for i in range(1, w.n + 3)}
    policy = PolicyRCPSP(domain=dom, policy_method_params=PolicyMethodParams(B[kind], delta_time_freedom=k['dt'], delta_index_freedom=k['di']),
                         permutation_task=list(order), modes_dictionnary=dict(w.modes),
                         schedule=None if start is None else {i: {'start_time': t, 'end_time': t + w.spec(i, w.modes[i])['d']} for i, t in start.items()})
    s, delayed = run_policy(c, dom, policy, w, kind, order, start, k['dt'], k['di'], ctx, limit=3 * c['hor'] + 200)
    sched, got = verify(c, dom, w, s, durations)
    require(rd.feasible(c, sched, e['modes'], got[w.n + 2][0]), 'the execution %s is not feasible', sched)
    ctx.nontrivial(c['n'] >= 3 and delayed)
    ctx.label(kind + (' random' if durations else ''))


@st.composite
def list_cases(draw):
    noisy = draw(st.integers(0, 2)) == 0
    c = draw(projects(kinds=('single', 'multi') if noisy else KINDS, drops=False))
    if noisy:
        c['hor'] += 12 * c['n']
    return dict(c=c, e=draw(rd.vectors(c, wild=False)), kind=draw(st.sampled_from(POLICIES[1:])), dt=draw(st.integers(0, 6)), di=draw(st.integers(0, 5)),
                pos=[draw(st.integers(0, 7)), draw(st.integers(0, 8))], noise=draw(st.lists(st.integers(0, c['n'] - 1), unique=True)) if noisy else None,
                dist=draw(st.booleans()), plan=draw(st.one_of(st.none(), st.lists(st.integers(0, 8), min_size=c['n'] + 2, max_size=c['n'] + 2))))


def check_pile(k, ctx):
    c, choice = k['c'], k['choice']
    dom = build_sk_domain(rd.build(c), varying_ressource=True)
    w = World(c, [1] * c['n'])
    w.sampled = None
    solver = PilePolicy(greedy_method=GreedyChoice[choice])
    solver.solve(lambda: dom)
    desc = {}

    def below(i):
        if i not in desc:
            direct = [j for j in w.pred if i in w.pred[j]]
            desc[i] = set(direct).union(*[below(j) for j in direct]) if direct else set()
        return desc[i]

    def rule(s):
        can = [i for i in w.eligible(s) if w.fits(s, i, 1)]
        if can and choice == 'MOST_SUCCESSORS':
            best = max(len(below(i)) for i in can)
            can = [i for i in can if len(below(i)) == best]
        elif can and choice == 'FASTEST':
            best = min(w.spec(i, 1)['d'] for i in can)
            can = [i for i in can if w.spec(i, 1)['d'] == best]
        elif can and choice == 'SAMPLE_MOST_SUCCESSORS' and any(below(i) for i in can):
            can = [i for i in can if below(i)]
        return can, True
    s, delayed = follow(dom, solver, w, rule, ctx, 3 * c['hor'] + 10)
    sched, got = verify(c, dom, w, s)
    require(rd.feasible(c, sched, [1] * c['n'], got[w.n + 2][0]), 'the execution %s is not feasible', sched)
    ctx.nontrivial(c['n'] >= 3 and delayed)
    ctx.label(choice)


@st.composite
def pile_cases(draw):
    c = draw(projects(drops=False))
    for r, x in c['res'].items():
        if x['nr']:
            v = max(1, sum(ms[0]['r'][r] for ms in c['modes']))
            x['cap'] = v if isinstance(x['cap'], int) else [v] * len(x['cap'])
    return dict(c=c, choice=draw(st.sampled_from([g.name for g in GreedyChoice])))


# ---------------------------------------------------------------- multi-skill
def plain_units(c, varying):
    """The project without its calendars, unless they count."""
    return c if varying else dict(c, res={r: dict(x, cap=[x['cap'][0]] * len(x['cap'])) for r, x in c['res'].items()},
                                  emp=[dict(x, cal=[1] * len(x['cal'])) for x in c['emp']])


def skilled_run(c, dom, policy, sol, modes, start, kind, k, ctx):
    """Follows a policy made from the solution: -> whether something waited, the units of the tasks."""
    varying = k['varying']
    names = sorted(str(x['k']) for x in c['emp'])
    units = {i: sorted(names[j] for j in u) for i, u in sol.employee_usage.items()}
    by = {str(x['k']): x for x in c['emp']}
    w = World(c, modes, units=units, free_units=lambda u, t: bool(by[u]['cal'][t]) if varying else True)
    w.cap = lambda c, r, t: c['res'][r]['cap'][t if varying else 0]
    w.sampled = None
    order = sorted(start, key=lambda i: (start[i], i))
    s, delayed = run_policy(c, dom, policy, w, kind, order, start, k['dt'], k['di'], ctx)
    sched, got = verify(c, dom, w, s)
    if kind == 'FOLLOW_GANTT':
        eq({i: a for i, (a, _) in got.items()}, start, 'starting times of the execution')
    cc = plain_units(c, varying)
    usage = {i - 2: {next(x['k'] for x in c['emp'] if str(x['k']) == u): sorted(by[u]['s']) for u in s.tasks_details[i].resources
                     if u in by and s.tasks_details[i].resources[u]} for i in range(2, c['n'] + 2)}
    require(sd.feasible(cc, sched, modes, usage, got[w.n + 2][0]), 'the execution %s with units %s is not feasible', sched, usage)
    return delayed, units


def check_skills(k, ctx):
    c, e, kind, varying = k['c'], k['e'], k['kind'], k['varying']
    dom = build_sk_domain(sd.build(c), varying_ressource=varying)
    p = build_do_domain(dom)
    names = sorted(str(x['k']) for x in c['emp'])
    ix = {x['k']: names.index(str(x['k'])) for x in c['emp']}
    sol = MS_RCPSPSolution_Variant(problem=p, priority_list_task=list(e['perm']), modes_vector=list(e['modes']),
                                   priority_worker_per_task=[[ix[w] for w in ws] for ws in e['pw']])
    start = {i: int(x['start_time']) for i, x in sol.schedule.items()}
    if len(start) < c['n'] + 2 or not p.satisfy(sol) or max(start.values()) > c['hor']:
        raise Discard()
    policy = from_solution_to_policy(sol, dom, PolicyMethodParams(B[kind], delta_time_freedom=k['dt'], delta_index_freedom=k['di']))
    delayed, units = skilled_run(c, dom, policy, sol, e['modes'], start, kind, k, ctx)
    ctx.nontrivial(c['n'] >= 2 and delayed and any(units.values()))
    ctx.label(kind + (' calendars' if varying else ''))


@st.composite
def skill_cases(draw):
    c = draw(sd.instances(max_n=6, loose=True))
    for ms in c['modes']:
        for m in ms:
            if m['d'] == 0:
                m['r'], m['s'] = {k: 0 for k in m['r']}, {}
    # beyond the calendars generated, everything is there
    kind = draw(st.sampled_from(POLICIES))
    return dict(c=c, e=draw(sd.vectors(c, wild=False)), kind=kind, dt=draw(st.integers(0, 6)), di=draw(st.integers(0, 5)),
                varying=kind == 'FOLLOW_GANTT' and draw(st.booleans()))


# ---------------------------------------------------------------- whole chain
def solver_params(method, c):
    if method == 'LS':
        return {'nb_iteration_max': 30}
    if method in ('CP', 'LP'):
        q = (ParametersCP if method == 'CP' else ParametersMilp).default()
        q.TimeLimit = 300
        return {'parameters_cp' if method == 'CP' else 'parameters_milp': q}
    if method == 'GA':
        q = ParametersAltGa.default_msrcpsp() if 'emp' in c else ParametersAltGa.default_mrcpsp()
        q.max_evals, q.sub_evals, q.pop_size = 300, [100] * 3, 20
        return {'parameters_ga': q}
    return {}


def check_chain(k, ctx):
    c, method, kind = k['c'], k['method'], k['kind']
    dom = build_sk_domain(rd.build(c), varying_ressource=True)
    solver = DOSolver(PolicyMethodParams(B[kind], delta_time_freedom=k['dt'], delta_index_freedom=k['di']),
                      method=SolvingMethod[method], dict_params=solver_params(method, c))
    solver.solve(lambda: dom)
    sol = solver.best_solution
    modes = list(sol.rcpsp_modes)
    eq(len(modes), c['n'], 'modes of the best solution')
    sched0 = rd.plain_schedule(c, sol)
    if method in ('LS', 'GA') and any(x['nr'] and sum(ms[m - 1]['r'][r] for ms, m in zip(c['modes'], modes)) > (x['cap'][0] if isinstance(x['cap'], list) else x['cap'])
                                      for r, x in c['res'].items()):
        ctx.label('no solution')  # searches over modes may meet none that fit
        require(not sol.rcpsp_schedule_feasible, '%s returns as feasible the modes %s, which exceed non-renewable resources', method, modes)
        raise Discard()
    require(len(sched0) == c['n'] and rd.feasible(c, sched0, modes), 'the best solution %s in modes %s is not feasible', sched0, modes)
    start = {i: int(x['start_time']) for i, x in sol.rcpsp_schedule.items()}
    order = sorted(start, key=lambda i: (start[i], i))
    w = World(c, modes)
    w.sampled = None
    for policy, knd in ((solver, kind), (solver.get_external_policy(), kind),
                        (solver.compute_external_policy(PolicyMethodParams(B.FOLLOW_GANTT)), 'FOLLOW_GANTT')):
        s, delayed = run_policy(c, dom, policy, w, knd, order, start, k['dt'], k['di'], ctx)
        sched, got = verify(c, dom, w, s)
        require(rd.feasible(c, sched, modes, got[w.n + 2][0]), 'the execution %s is not feasible', sched)
        if knd == 'FOLLOW_GANTT':
            eq({i: a for i, (a, _) in got.items()}, start, 'starting times of the execution')
    ctx.nontrivial(c['n'] >= 3)
    ctx.label('%s %s' % (method, c['kind']))


@st.composite
def chain_cases(draw):
    method = draw(st.sampled_from(['PILE', 'PILE', 'CP', 'LS', 'LP', 'GA']))
    kinds = {'PILE': KINDS, 'CP': ('single', 'multi'), 'LS': KINDS, 'LP': ('single', 'multi'), 'GA': ('single', 'multi')}[method]
    c = draw(projects(kinds=kinds, drops=False))
    method = 'PILE' if method == 'GA' and c['n'] == 1 else method
    return dict(c=c, method=method, kind=draw(st.sampled_from(POLICIES)), dt=draw(st.integers(0, 6)), di=draw(st.integers(0, 5)))


def check_chain_skills(k, ctx):
    c, method, kind = k['c'], k['method'], k['kind']
    if sd.decode(plain_units(c, k['varying']), k['e'], c['hor'] - 1) is None:
        raise Discard()
    dom = build_sk_domain(sd.build(c), varying_ressource=k['varying'])
    solver = DOSolver(PolicyMethodParams(B[kind], delta_time_freedom=k['dt'], delta_index_freedom=k['di']), method=SolvingMethod[method],
                      dict_params=dict(solver_params(method, c), **({'exact_skills_need': False} if method == 'CP' else {})))
    solver.solve(lambda: dom)
    sol = solver.best_solution
    if not solver.do_domain.satisfy(sol):
        ctx.label('no solution')
        require(method in ('LS', 'GA'), '%s returns %s, which is refused', method, sol)
        return
    start = {i: int(x['start_time']) for i, x in sol.schedule.items()}
    modes = [sol.modes[i] for i in range(2, c['n'] + 2)] if not isinstance(sol, MS_RCPSPSolution_Variant) else list(sol.modes_vector)
    skilled_run(c, dom, solver, sol, modes, start, kind, k, ctx)
    skilled_run(c, dom, solver.compute_external_policy(PolicyMethodParams(B.FOLLOW_GANTT)), sol, modes, start, 'FOLLOW_GANTT', k, ctx)
    ctx.nontrivial(c['n'] >= 2)
    ctx.label(method)


@st.composite
def chain_skill_cases(draw):
    k = draw(skill_cases())
    c = k['c']
    c['one'] = False
    method = draw(st.sampled_from((['LS', 'GA'] if c['n'] > 1 and len(c['emp']) > 1 else ['LS']) + ['CP'] * (c['n'] <= 4)))
    if method == 'CP':  # the model knows the calendars of the units, not those of the resources
        for x in c['res'].values():
            x['cap'] = [max(x['cap'])] * len(x['cap'])
    return dict(k, method=method)


def check_samples(k, ctx):
    """Deterministic projects drawn from one with random durations."""
    c, noise = k['c'], k['noise']
    dom = build_stochastic_from_deterministic(build_sk_domain(rd.build(c)), task_to_noise={i + 2 for i in noise})
    base = plain_model(rd.build(c))
    for d in build_n_determinist_from_stochastic(dom, 3):
        q = plain_model(build_do_domain(d))
        for i, ms in q['modes'].items():
            for m, x in ms.items():
                d0 = base['modes'][i][m]['duration']
                ok = [d0] if d0 == 0 or i - 2 not in noise else range(max(1, d0 - 10), d0 + 11)
                require(x['duration'] in ok, 'task %d of duration %d was sampled %s', i, d0, x['duration'])
                x['duration'] = d0
        eq({x: q[x] for x in q if x != 'horizon'}, {x: base[x] for x in base if x != 'horizon'}, 'sampled project')
    ctx.nontrivial(c['n'] >= 3 and len(noise) > 0)


def check_domains(p, ctx):
    """Projects defined as domains, of every class the binding accepts."""
    dom = SD.make_domain(p)
    q = build_do_domain(dom)
    ids = p['ids']
    want = {t: {m + 1: dict(x['need'], duration=x['durs']) for m, x in enumerate(p['tasks'][i])} for i, t in enumerate(ids)}
    eq({t: sorted(ms) for t, ms in q.mode_details.items()}, {t: sorted(ms) for t, ms in want.items()}, 'tasks and modes')
    for t, ms in want.items():
        for m, x in ms.items():
            got = q.mode_details[t][m]
            require(got['duration'] in x['duration'], 'duration of task %s mode %s is %s, not one of %s', t, m, got['duration'], x['duration'])
            for r in p['res']:
                eq(got.get(r, 0), x[r][0] if isinstance(x.get(r), list) else x.get(r, 0), 'need of task %s mode %s for %s' % (t, m, r))
    eq({t: sorted(set(s)) for t, s in q.successors.items()}, {t: sorted({ids[j] for j in p['succ'][i]}) for i, t in enumerate(ids)}, 'successors')
    eq(sorted(q.non_renewable_resources), sorted(r for r, b in zip(p['res'], p['renew']) if not b), 'non-renewable resources')
    eq(q.horizon * q.horizon_multiplier, p['horizon'], 'horizon')
    if p['cal']:
        eq({r: list(v)[:p['horizon']] for r, v in q.resources.items()}, {r: [SD.avail(p, r, t) for t in range(p['horizon'])] for r in p['res']}, 'calendars')
    else:
        eq(dict(q.resources), {r: p['avail'][r][0] for r in p['res']}, 'resources')
    ctx.nontrivial(len(ids) >= 3)
    ctx.label(type(q).__name__, p['level'])


@st.composite
def domain_cases(draw):
    p = draw(SD.projects(level=('det', 'det', 'unc'), varying=False, costs=draw(st.integers(0, 3)) == 0))
    if 'rate' in p:
        p['level'], p['cal'], p['single'] = 'det', False, False
        p['avail'] = {r: a[:1] for r, a in p['avail'].items()}
        for ms in p['tasks']:
            for m in ms:
                m['durs'], m['probs'] = m['durs'][:1], [1.0]
    if p['level'] == 'unc':
        p['single'], p['cal'] = True, False
        p['renew'] = [True for _ in p['renew']]
        p['tasks'] = [ms[:1] for ms in p['tasks']]
        p['avail'] = {r: a[:1] for r, a in p['avail'].items()}
    p['hub'] = False
    return p


@st.composite
def sample_cases(draw):
    c = draw(rd.instances(kinds=('single', 'multi'), max_n=6, loose=True, over=False))
    return dict(c=c, noise=draw(st.lists(st.integers(0, c['n'] - 1), unique=True)))


SUBCHECKS = [
    Sub('binding', binding_cases, check_binding, 400, 8000, 'project to domain and back'),
    Sub('binding-skills', skill_binding_cases, check_skill_binding, 300, 6000, 'multi-skill project to domain and back'),
    Sub('policies', policy_cases, check_policies, 900, 20000, 'policies made from schedules'),
    Sub('lists', list_cases, check_lists, 1200, 12000, 'policies made from priority lists, random durations'),
    Sub('pile', pile_cases, check_pile, 400, 8000, 'pile rules'),
    Sub('skills', skill_cases, check_skills, 600, 12000, 'multi-skill policies'),
    Sub('chain', chain_cases, check_chain, 60, 1200, 'solver to policy to execution', native=lambda: None),
    Sub('chain-skills', chain_skill_cases, check_chain_skills, 30, 600, 'solver to policy to execution, multi-skill', native=lambda: None),
    Sub('domains', domain_cases, check_domains, 300, 6000, 'domains of every class to projects'),
    Sub('samples', sample_cases, check_samples, 150, 2000, 'deterministic samples of random projects'),
]
