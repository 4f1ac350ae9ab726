"""D06: multi-skill scheduling domains: units allocated cover the skills, one task at a time, released at completion."""
import random
from itertools import combinations

from hypothesis import strategies as st

from harness.api import Sub, close, require, eq
from harness.scheddomain import *
from skdecide.hub.domain.rcpsp.rcpsp_sk import MSRCPSP, MSRCPSPCalendar
from skdecide.builders.scheduling.scheduling_domains import SchedulingActionSpaceWithResourceUnit

RULE = ('Random multi-skill projects (units with skill levels, resource types, modes, calendars of units, preemption) walked by actions '
        'sampled from the action space and by generated starts with arbitrary sets of units; every allocation is compared with '
        'the rule. A case counts when a task needing at least two units was started, or a start was refused for lack of skill.')
ASSUMPTIONS = ['resource types are listed with no skill, as the loader of the library does',
               'starting a task with units which do not cover its skills, or are busy, has no effect']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    skills = ['s%d' % i for i in range(draw(st.integers(1, 3)))]
    units = ['u%d' % i for i in range(draw(st.integers(1, 4)))]
    types = ['r0'] if draw(st.booleans()) else []
    has = {u: {s: draw(st.integers(0, 2)) for s in skills if draw(st.integers(0, 2))} for u in units}
    total = {s: sum(has[u].get(s, 0) for u in units) for s in skills}
    tasks = []
    for i in range(n):
        modes = []
        for _ in range(draw(st.integers(1, 2))):
            need = {s: min(draw(st.sampled_from([0, 1, 1, 2, 3])), total[s] + (draw(st.integers(0, 9)) == 0)) for s in skills}
            modes.append(dict(need, duration=draw(st.integers(0, 4)), **{r: draw(st.integers(0, 2)) for r in types}))
        tasks.append(modes)
    pre = [[draw(st.integers(0, 4)) > 0, draw(st.booleans())] for _ in range(n)] if draw(st.booleans()) else None
    cal = draw(st.booleans())
    horizon = 60
    av = {}
    for u in units:
        av[u] = [draw(st.sampled_from([1, 1, 1, 0])) for _ in range(8)] if cal and draw(st.booleans()) else [1]
    for r in types:
        av[r] = [draw(st.integers(2, 4))]
    succ = [sorted(set(draw(st.lists(st.integers(i + 1, n - 1), max_size=2)))) if i + 1 < n else [] for i in range(n)]
    act = st.tuples(st.integers(0, 50), st.integers(0, 1), st.lists(st.sampled_from(units), unique=True)).map(list)
    steps = st.one_of(st.just('sample'), st.just('time'), act, *([st.tuples(st.just('pause'), st.integers(0, 50)).map(list), act] if pre else []))
    rate = None
    if draw(st.booleans()):
        rate = dict(mode=[[draw(st.integers(0, 5)) for _ in ms] for ms in tasks], res={r: draw(st.integers(0, 3)) for r in units + types},
                    makespan=draw(st.booleans()))
    return dict(rate=rate, skills=skills, units=units, types=types, has=has, tasks=tasks, cal=cal, horizon=horizon, avail=av, succ=succ, pre=pre,
                seed=draw(st.integers(0, 10 ** 6)), walk=draw(st.lists(steps, min_size=10, max_size=30)))


def build_domain(c):
    n = len(c['tasks'])
    res = c['units'] + c['types']
    kw = dict(skills_names=list(c['skills']), resource_unit_names=list(c['units']), resource_type_names=list(c['types']),
              resource_skills=dict({u: dict(c['has'][u]) for u in c['units']}, **{r: {} for r in c['types']}),
              task_ids=list(range(1, n + 1)), tasks_mode={i + 1: {m + 1: dict(x) for m, x in enumerate(ms)} for i, ms in enumerate(c['tasks'])},
              successors={i + 1: [j + 1 for j in c['succ'][i]] for i in range(n)}, max_horizon=c['horizon'],
              resource_renewable={r: True for r in res})
    pre = c.get('pre')

    def preemptive(base):
        rate = c.get('rate')
        if rate:
            class Costs(base):
                def _get_objectives(self):
                    return [SchedulingObjectiveEnum.COST] + [SchedulingObjectiveEnum.MAKESPAN] * rate['makespan']

                def _get_mode_costs(self):
                    return {i + 1: {m + 1: float(x) for m, x in enumerate(ms)} for i, ms in enumerate(rate['mode'])}

                def _get_resource_cost_per_time_unit(self):
                    return {r: float(x) for r, x in rate['res'].items()}
            base = Costs
        if not pre:
            return base

        class Preemptive(base):
            def _get_task_preemptivity(self):
                return {i + 1: x[0] for i, x in enumerate(pre)}

            def _get_task_resuming_type(self):
                return {i + 1: ResumeType.Restart if x[1] else ResumeType.Resume for i, x in enumerate(pre)}

            def _get_task_paused_non_renewable_resource_returned(self):
                return {i + 1: False for i in range(n)}
        return Preemptive
    if c['cal']:
        return preemptive(MSRCPSPCalendar)(resource_availability={r: [at(c, r, t) for t in range(c['horizon'] + 3)] for r in res}, **kw)
    return preemptive(MSRCPSP)(resource_availability={r: c['avail'][r][0] for r in res}, **kw)


def at(c, r, t):
    a = c['avail'][r]
    return a[t] if t < len(a) else (a[0] if len(a) == 1 else 1)


def check(case, ctx):
    c = case
    dom = build_domain(c)
    random.seed(c['seed'])
    n = len(c['tasks'])
    res = c['units'] + c['types']
    s = dom.get_initial_state()
    t, done, run, idle = 0, set(), {}, {}  # run: task -> (mode, units, work done), idle: task -> (mode, work kept)
    pre = c.get('pre')
    pred = {j: {i + 1 for i in range(n) if j - 1 in c['succ'][i]} for j in range(1, n + 1)}

    def used():
        u = {r: 0 for r in res}
        for k, (m, units, _) in run.items():
            for r in c['types']:
                u[r] += c['tasks'][k - 1][m - 1][r]
            for x in units:
                u[x] += 1
        return u

    def free():
        u = used()
        return {r: at(c, r, t) - u[r] for r in res}

    def types_ok(k, m):
        f = free()
        return all(c['tasks'][k - 1][m - 1][r] <= f[r] for r in c['types'])

    def cover(k, m, units):
        return all(sum(c['has'][u].get(x, 0) for u in units) >= c['tasks'][k - 1][m - 1][x] for x in c['skills'])

    def eligible():
        return [('START', k, m) for k in range(1, n + 1) if k not in done and k not in run and k not in idle and pred[k] <= done
                for m in range(1, len(c['tasks'][k - 1]) + 1) if types_ok(k, m)] + \
               [('RESUME', k, m) for k, (m, _) in sorted(idle.items()) if types_ok(k, m)]

    def needs_skill(k, m):
        return any(c['tasks'][k - 1][m - 1][x] for x in c['skills'])

    for step in c['walk']:
        where = 'time %d, complete %s, running %s, paused %s, units free %s' % (t, sorted(done), run, idle, free())
        over = any(v < 0 for v in free().values())
        el = [] if over else eligible()
        freeu = [u for u in c['units'] if free()[u] > 0]
        pausable = sorted(k for k in run if pre and pre[k - 1][0])
        ctx.label('overconsuming' if over else '', 'paused' if idle else '')
        enum = {(a.action.name, a.task, a.mode, tuple(sorted(a.resource_unit_names or ())))
                for a in SchedulingActionSpaceWithResourceUnit(dom, s).get_elements()}
        want = {('TIME_PR', None, None, ())} | {('PAUSE', k, None, ()) for k in pausable}
        for kind, k, m in el:
            if not needs_skill(k, m):
                want.add((kind, k, m, ()))
            else:
                want |= {(kind, k, m, (u,)) for u in freeu if cover(k, m, [u])}
        eq(sorted(enum, key=repr), sorted(want, key=repr), 'actions with a single unit at ' + where)
        if step == 'sample':
            space = dom.get_applicable_actions(s)
            startable = [x for x in el if cover(*x[1:], freeu)]
            kinds = {x[0] for x in el}
            seen, a = set(), None
            for i in range(200):
                b = space.sample()
                require(b.action.name in ('START', 'TIME_PR', 'RESUME', 'PAUSE'), 'sampled %s at %s', b, where)
                eq(bool(b.time_progress), b.action == K.TIME_PR, 'time progress of the sampled %s' % b)
                seen.add(b.action.name)
                if b.action == K.PAUSE:
                    require(b.task in pausable, 'sampled pause of task %s at %s', b.task, where)
                elif b.action != K.TIME_PR:
                    kind, us = b.action.name, list(b.resource_unit_names or [])
                    require((kind, b.task, b.mode) in el, 'sampled %s of task %s mode %s at %s', kind, b.task, b.mode, where)
                    eq(len(us), len(set(us)), 'units %s are different' % us)
                    require(set(us) <= set(freeu), 'sampled %s of task %s with units %s at %s', kind, b.task, us, where)
                    require(cover(b.task, b.mode, us), 'sampled %s of task %s mode %s with units %s which do not have the skills', kind, b.task, b.mode, us)
                require(space.contains(b), 'sampled action is not contained: %s', b)
                a = b if a is None or a.action not in (K.START, K.RESUME) else a
                if i > 12 and (seen >= kinds | ({'PAUSE'} if pausable else set()) or not startable):
                    break
            for kind in kinds:
                if startable and len(startable) == len(el):
                    require(kind in seen, 'no %s was ever sampled at %s', kind, where)
            require(not (pausable and i > 150) or 'PAUSE' in seen, 'no pause was ever sampled at %s', where)
        elif step != 'time' and step[0] == 'pause' and pausable:
            a = build(('PAUSE', pausable[step[1] % len(pausable)], None))
        elif step == 'time' or step[0] == 'pause' or not el:
            a = build(('TIME_PR', None, None))
        else:
            kind, k, m = el[step[0] % len(el)]
            us = set(step[2])
            if step[1]:  # a minimal covering set if there is one
                us = next((set(x) for z in range(len(freeu) + 1) for x in combinations(freeu, z) if cover(k, m, x)), us)
            a = SchedulingAction(task=k, action=K[kind], mode=m, time_progress=False, resource_unit_names=us)
        t0, used0, began, before = t, used(), 0, s
        if a.action in (K.START, K.RESUME):
            us = set(a.resource_unit_names or ())
            ok = us <= set(freeu) and cover(a.task, a.mode, us)
            eq(bool(dom.check_if_action_can_be_started(s, a)[0]), ok, 'task %s mode %s can start with units %s at %s' % (a.task, a.mode, us, where))
            ctx.nontrivial(len(us) > 1 and ok or (us <= set(freeu) and not ok))
            ctx.label(a.action.name.lower() if ok else 'refused')
            if ok:
                began = a.action == K.START
                work = idle.pop(a.task)[1] if a.action == K.RESUME else 0
                if c['tasks'][a.task - 1][a.mode - 1]['duration'] == 0:
                    done.add(a.task)
                else:
                    run[a.task] = (a.mode, sorted(us), work)
        elif a.action == K.PAUSE:
            m, _, work = run.pop(a.task)
            idle[a.task] = (m, 0 if pre[a.task - 1][1] else work)
        else:
            t += 1
            for k, (m, us, work) in list(run.items()):
                run[k] = (m, us, work + 1)
                if work + 1 >= c['tasks'][k - 1][m - 1]['duration']:
                    del run[k]
                    done.add(k)
        s = dom.get_next_state(s, a)
        after = 'after %s %s %s at %s' % (a.action.name, a.task, a.resource_unit_names, where)
        eq(s.t, t, 'time ' + after)
        rate = c.get('rate')
        if rate:
            want = sum(rate['res'][r] * used0[r] * (t - t0) for r in res) + (t - t0) * rate['makespan']
            if a.action == K.START and began:
                want += rate['mode'][a.task - 1][a.mode - 1]
            if a.action != K.START or began:
                close(dom.get_transition_value(before, a, s).cost, want, 'cost ' + after)
                ctx.label('costs')
        else:
            close(dom.get_transition_value(before, a, s).cost, t - t0, 'cost ' + after)
        eq(set(s.tasks_complete), done, 'complete tasks ' + after)
        eq(set(s.tasks_ongoing), set(run), 'running tasks ' + after)
        eq(set(s.tasks_paused), set(idle), 'paused tasks ' + after)
        eq({r: s.resource_used[r] for r in res}, used(), 'usage ' + after)
        eq({r: s.resource_availability[r] for r in res}, {r: at(c, r, t) for r in res}, 'availability ' + after)
        eq(set(s.resource_used_for_task), set(run), 'tasks holding resources ' + after)
        for k, (m, us, _) in run.items():
            eq(sorted(r for r, v in s.resource_used_for_task[k].items() if v and r in c['units']), us, 'units of task %s %s' % (k, after))
            if not pre:
                eq(sorted(r for r in s.tasks_details[k].resources if r in c['units']), us, 'recorded units of task %s %s' % (k, after))
        eq(bool(dom.is_goal(s)), len(done) == n, 'goal ' + after)
        if len(done) == n:
            ctx.label('finished')
            break


@st.composite
def covers(draw):
    skills = ['a', 'b', 'c']
    units = {('u%d' % i): {s: draw(st.integers(0, 3)) for s in draw(st.lists(st.sampled_from(skills), unique=True))} for i in range(draw(st.integers(1, 4)))}
    return dict(units=units, need={s: draw(st.integers(0, 4)) for s in draw(st.lists(st.sampled_from(skills), unique=True))},
                use=draw(st.lists(st.sampled_from(sorted(units)), unique=True)))


def check_covers(case, ctx):
    dom = MSRCPSP(skills_names=['a', 'b', 'c'], resource_unit_names=sorted(case['units']), resource_type_names=[],
                  resource_skills={u: dict(x) for u, x in case['units'].items()}, task_ids=[1, 2],
                  tasks_mode={1: {1: dict(case['need'], duration=1)}, 2: {1: dict(duration=0)}}, successors={1: [2], 2: []},
                  max_horizon=10, resource_availability={u: 1 for u in case['units']}, resource_renewable={u: True for u in case['units']})
    need = {s: x for s, x in case['need'].items() if x}
    eq(dom.get_skills_of_task(1, 1), need, 'skills of the task')
    for u in case['units']:
        eq(dom.get_skills_of_resource(u), case['units'][u], 'skills of unit')
    names = {s for x in case['units'].values() for s in x} | set(case['need'])
    eq(set(dom.get_skills_names()), names, 'skill names')
    one = [u for u in sorted(case['units']) if all(case['units'][u].get(s, 0) >= x for s, x in need.items())]
    got = dom.find_one_ressource_to_do_one_task(1, 1)
    eq(sorted(got) if need else list(got), one if need else [None], 'units able to do the task alone')
    eq(dom.find_one_ressource_to_do_one_task(2, 1), [None], 'no unit is needed')
    ok = all(sum(case['units'][u].get(s, 0) for u in case['use']) >= x for s, x in need.items())
    eq(bool(dom.check_if_skills_are_fulfilled(1, 1, {u: 1 for u in case['use']})), ok, 'units %s cover %s' % (case['use'], need))
    ctx.nontrivial(len(case['use']) > 1 and need)
    ctx.label('covered' if ok else 'not covered')


SUBCHECKS = [Sub('allocation', cases, check, quick=4500, thorough=20000, rule=RULE),
             Sub('skills', covers, check_covers, quick=900, thorough=4000, rule='Random units and needs; counts with several units.')]
