"""O18: what is derived from a project (resource profiles, unit schedules, uncertain and helper variants) agrees with it."""
import multiprocessing
import random
from copy import deepcopy
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from harness.api import Sub, require, eq, close, Discard
from harness import rcpspdomain as rd
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_utils as ru
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import (
    RCPSPSolution, RCPSP_H_Model, UncertainRCPSPModel, MethodRobustification, MethodBaseRobustification,
    create_poisson_laws, create_poisson_laws_duration, create_poisson_laws_resource)
from skdecide.builders.discrete_optimization.generic_tools.robustness.robustness_tool import RobustnessTool
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_data_generator import generate_rcpsp_with_helper_tasks_data

RULE = ('Generated projects with schedules made by the serial scheme from generated orders and modes, or spread out from it by generated '
        'delays; profiles, unit schedules, distances, ranges of values, robust variants and helper variants recomputed from the plain data. '
        'Non-trivial: at least two tasks run and some resource is used.')
ASSUMPTIONS = ['unit schedules: renewable resources, whose units are numbered from 0; under a calendar, only the units used when a task starts are constrained',
               'helper variants: one mode, renewable resources, tasks numbered in a precedence order, as the generator requires']


@st.composite
def scheduled(draw, kinds=('single', 'multi', 'calendar', 'calendar-multi'), n=1, **kw):
    c = draw(rd.instances(kinds=kinds, loose=True, over=False, min_n=n, **kw))
    return dict(c=c, e=draw(rd.vectors(c, False)), f=draw(rd.vectors(c, False)), delay=draw(st.lists(st.integers(0, 3), min_size=c['n'], max_size=c['n'])) if 'calendar' not in c['kind'] and draw(st.booleans()) else None,
                types=draw(st.one_of(st.none(), st.permutations(rd.ren(c)), st.lists(st.sampled_from(sorted(c['res'])), unique=True))))


def schedule(k, p, e):
    """A library solution of the project, and its plain schedule."""
    c = k['c']
    ref = rd.sgs(c, e['perm'], e['modes'])
    if ref is None:
        raise Discard('infeasible')
    if k['delay']:
        # the same order with pauses between: every constraint still holds when everything after is pushed by the pause
        starts = sorted({s for s, _ in ref.values()})
        events = sorted({t for s in ref.values() for t in s})
        cuts = [t for t in starts if all(not (a < t < b) for a, b in ref.values())]
        push = {t: sum(k['delay'][i % len(k['delay'])] for i, x in enumerate(cuts) if x <= t) for t in events}
        ref = {i: (s + push[s], s + push[s] + (b - s)) for i, (s, b) in ref.items()}
    end = max([b for _, b in ref.values()], default=0)
    plain = {1: {'start_time': 0, 'end_time': 0}, c['n'] + 2: {'start_time': end, 'end_time': end}}
    plain.update({i + 2: {'start_time': s, 'end_time': b} for i, (s, b) in ref.items()})
    sol = RCPSPSolution(problem=p, rcpsp_permutation=list(e['perm']), rcpsp_modes=list(e['modes']), rcpsp_schedule=deepcopy(plain), rcpsp_schedule_feasible=True)
    return sol, ref, end


def check_profiles(k, ctx):
    c = k['c']
    p = rd.build(c)
    sol, ref, end = schedule(k, p, k['e'])
    modes = k['e']['modes']
    names = list(c['res']) if k['types'] is None else list(k['types'])
    use = {r: [sum(rd.mode(c, i, modes)['r'][r] for i, (s, b) in ref.items() if s <= t < b) for t in range(end)] for r in c['res']}
    ctx.nontrivial(c['n'] >= 2 and any(any(u) for u in use.values()) and len({u for r in names for u in use[r]}) > 1)
    ctx.label('delayed' if k['delay'] else '', 'calendar' if 'calendar' in c['kind'] else '', 'some resources' if k['types'] is not None else '')
    before = [list(r) for r in p.compute_resource_consumption(sol).tolist()]
    eq(before, [[0.] + [float(x) for x in use[r]] for r in p.resources_list], 'consumption computed by the project')
    for view in (True, False):
        got, times = ru.compute_resource_consumption(p, sol, list_resources=None if k['types'] is None else list(names), future_view=view)
        eq(list(times), list(range(end + 1)), 'dates')
        eq(got.shape, (len(names), end + 1), 'size of the profile')
        for i, r in enumerate(names):
            eq(got[i].tolist(), [0] + use[r] if view else use[r] + [0], 'profile of %s (%s)' % (r, 'future' if view else 'past'))
    times, cons = ru.compute_nice_resource_consumption(p, sol, list_resources=None if k['types'] is None else list(names))
    for i, r in enumerate(names):
        eq(list(times[i]), [t for t in range(end + 1) for _ in range(2)], 'dates of the stairs')
        eq(cons[i].tolist(), [x for t in range(end + 1) for x in ((use[r][t - 1] if t else 0), (use[r][t] if t < end else 0))], 'stairs')
    g = ru.compute_graph_rcpsp(p)
    eq(sorted(g.get_edges()), sorted((a, b) for a in p.successors for b in p.successors[a]), 'graph: precedence')
    g.to_networkx()
    eq(sorted(x[0] for x in g.nodes), list(range(1, c['n'] + 3)), 'graph: tasks')
    for n, infos in g.nodes:
        ds = [m['d'] for m in c['modes'][n - 2]] if 2 <= n <= c['n'] + 1 else [0]
        eq([infos[j + 1] for j in range(len(ds))], ds, 'graph: durations of task %d' % n)
    for a, b, infos in g.edges:
        ds = [m['d'] for m in c['modes'][a - 2]] if 2 <= a <= c['n'] + 1 else [0]
        eq((infos['min_duration'], infos['max_duration'], infos['minus_min_duration'], infos['minus_max_duration'], [infos[j + 1] for j in range(len(ds))]),
           (min(ds), max(ds), -min(ds), -max(ds), ds), 'graph: arc')
    eq({i: dict(x) for i, x in sol.rcpsp_schedule.items() if 2 <= i <= c['n'] + 1}, {i + 2: {'start_time': s, 'end_time': b} for i, (s, b) in ref.items()}, 'schedule afterwards')


def check_units(k, ctx):
    c = k['c']
    p = rd.build(c)
    sol, ref, end = schedule(k, p, k['e'])
    modes = k['e']['modes']
    if k['types'] is None and any(x['nr'] for x in c['res'].values()):
        k = dict(k, types=rd.ren(c))
    names = list(c['res']) if k['types'] is None else [r for r in k['types'] if not c['res'][r]['nr']]
    table = ru.compute_schedule_per_resource_individual(p, sol, resource_types_to_consider=None if k['types'] is None else list(names))
    eq(sorted(table), sorted(names), 'resources of the unit schedules')
    used = 0
    for r in names:
        cap = c['res'][r]['cap']
        cap = cap if isinstance(cap, int) else max(cap)
        t = table[r]
        act = t['activity']
        eq(act.shape, (end + 1, cap), 'size of the unit schedule')
        eq(t['binary_activity'].tolist(), (act != 0).astype(float).tolist(), 'busy or not')
        eq(t['total_activity'].tolist(), (act != 0).sum(axis=0).astype(float).tolist(), 'worked time of each unit')
        seen = {}
        for u in range(cap):
            for i in range(end + 1):
                if act[i, u]:
                    seen.setdefault((int(act[i, u]), u), set()).add(i)
        count = {}
        for (task, u), dates in seen.items():
            s, b = ref[task - 2]
            eq(sorted(dates), list(range(s, b)), 'dates when unit %d of %s works on task %d' % (u, r, task))
            count[task] = count.get(task, 0) + 1
            if u >= rd.cap(c, r, s):
                require(False, 'unit %d of %s starts task %d at %d, when only %d units are there', u, r, task, s, rd.cap(c, r, s))
        want = {i + 2: rd.mode(c, i, modes)['r'][r] for i, (s, b) in ref.items() if b > s and rd.mode(c, i, modes)['r'][r] > 0}
        eq(count, want, 'number of units of %s by task' % r)
        boxes = sorted((round(b[0][0] + 0.25), round(b[0][1] - 0.01), round(b[1][1] + 0.01), b[0][2]) for b in t['boxes_time'])
        eq(boxes, sorted((u, ref[task - 2][0], ref[task - 2][1], task) for task, u in seen), 'boxes to draw')
        used += len(want)
        if isinstance(c['res'][r]['cap'], int) and want and all(v == 1 for v in want.values()):
            # the least busy of the free units is chosen: with unit needs, no unit stays unused while another takes two tasks one after the other
            idle = [u for u in range(cap) if t['total_activity'][u] == 0]
            twice = [u for u in range(cap) if len({x for x, v in seen if v == u}) > 1]
            require(not (idle and twice), 'a unit takes several tasks and another one none')
    ctx.nontrivial(used >= 2)
    ctx.label('delayed' if k['delay'] else '', 'calendar' if 'calendar' in c['kind'] else '')


def check_distance(k, ctx):
    c = k['c']
    p = rd.build(c)
    a, ra, ea = schedule(k, p, k['e'])
    b, rb, eb = schedule(dict(k, delay=None), p, k['f'])
    d = ru.all_diff_start_time((a, b))
    want = {i + 2: ra[i][0] - rb[i][0] for i in ra}
    want.update({1: 0, c['n'] + 2: ea - eb})
    eq({i: int(x) for i, x in d.items()}, want, 'differences of starts')
    pa, pb = a.generate_permutation_from_schedule(), b.generate_permutation_from_schedule()
    for perm, ref in ((pa, ra), (pb, rb)):
        eq(sorted(perm), list(range(c['n'])), 'order of a schedule')
        require(all(ref[x][0] <= ref[y][0] for x, y in zip(perm, perm[1:])), 'order of a schedule %r is not by start', perm)
    if c['n'] >= 2:
        n = c['n']
        num = sum(np.sign(pa[i] - pa[j]) * np.sign(pb[i] - pb[j]) for i in range(n) for j in range(i))
        close(float(ru.kendall_tau_similarity((a, b))), float(num) / (n * (n - 1) / 2), 'similarity')
        close(float(ru.kendall_tau_similarity((a, a))), 1., 'similarity with itself')
    ctx.nontrivial(pa != pb)


@st.composite
def uncertain_cases(draw):
    c = draw(rd.instances(kinds=('single', 'multi'), over=False, loose=True))
    return dict(c=c, rd=draw(st.integers(0, 4)), rr=draw(st.integers(0, 3)), res=draw(st.booleans()), dur=draw(st.booleans()), uniform=draw(st.booleans()),
                q=draw(st.sampled_from([1, 5, 10, 25, 33, 50, 75, 90, 99, 100])), seed=draw(st.integers(0, 10 ** 6)))


def check_uncertain(k, ctx):
    c = k['c']
    p = rd.build(c)
    plain = deepcopy((p.mode_details, p.successors, p.resources))
    n = c['n']
    zero = any(m['d'] == 0 for ms in c['modes'] for m in ms)
    if k['dur'] and k['rd'] == 0 and zero:
        k = dict(k, rd=1)
    laws = create_poisson_laws(p, range_around_mean_resource=k['rr'], range_around_mean_duration=k['rd'], do_uncertain_resource=k['res'], do_uncertain_duration=k['dur'])
    nr = [r for r, x in c['res'].items() if x['nr']]
    fields = (['duration'] if k['dur'] else []) + (rd.ren(c) if k['res'] else [])
    for t, ms in p.mode_details.items():
        for m, d in ms.items():
            if not fields:
                continue
            eq(sorted(laws[t][m]), sorted(fields), 'uncertain values of a mode')
            for r in fields:
                lo, mid, hi = laws[t][m][r]
                if t in (1, n + 2):
                    want = (d[r],) * 3
                elif r == 'duration':
                    want = (max(1, d[r] - k['rd']), d[r], d[r] + k['rd'])
                else:
                    want = (max(0, d[r] - k['rr']), d[r], min(d[r] + k['rr'], c['res'][r]['cap']))
                eq((lo, mid, hi), want, 'range of %s' % r)
    eq(create_poisson_laws_duration(p, 2)[1][1]['duration'], (0, 0, 0), 'source')
    require(not any(r in create_poisson_laws_resource(p, 1)[1][1] for r in nr), 'a non-renewable resource is uncertain')
    if not fields:
        return
    if not k['uniform'] and any(laws[t][m][r][1] == 0 and laws[t][m][r][0] > 0 for t in p.mode_details for m in p.mode_details[t] for r in fields):
        raise Discard('no Poisson law has a zero mean and positive values')
    u = UncertainRCPSPModel(p, laws, uniform_law=k['uniform'])
    np.random.seed(k['seed'])
    B = MethodBaseRobustification
    out = {}
    for meth in B:
        q = u.create_rcpsp_model(MethodRobustification(meth, percentile=k['q']))
        out[meth] = q
        require(type(q) is type(p), 'class of the variant')
        eq((q.successors, q.horizon, q.n_jobs, dict(q.resources), list(q.non_renewable_resources)), (p.successors, p.horizon, p.n_jobs, dict(p.resources), list(p.non_renewable_resources)), 'rest of the project')
        for t, ms in p.mode_details.items():
            eq(sorted(q.mode_details[t]), sorted(ms), 'modes of task %d' % t)
            for m, d in ms.items():
                eq(sorted(q.mode_details[t][m]), sorted(d), 'values of a mode')
                for r in d:
                    v = q.mode_details[t][m][r]
                    if r not in fields or t in (1, n + 2):
                        eq(v, d[r], 'certain value %s of task %d' % (r, t))
                        continue
                    lo, mid, hi = laws[t][m][r]
                    xs = list(range(lo, hi + 1))
                    ws = [1. for _ in xs] if k['uniform'] else poisson(mid, xs)
                    tot = sum(ws)
                    mean = sum(x * w for x, w in zip(xs, ws)) / tot
                    what = '%s %s of task %d (values %d to %d)' % (meth.name, r, t, lo, hi)
                    require(v == int(v) and lo <= v <= hi, '%s is %r', what, v)
                    if meth == B.WORST_CASE:
                        eq(v, hi, what)
                    elif meth == B.BEST_CASE:
                        eq(v, lo, what)
                    elif meth == B.AVERAGE:
                        require(abs(v - mean) < 1 - 1e-6, '%s is %r, mean %r', what, v, mean)
                    elif meth == B.PERCENTILE:
                        cdf = lambda x: sum(w for y, w in zip(xs, ws) if y <= x) / tot
                        require(cdf(v) >= k['q'] / 100 - 1e-6, '%s is %r: only %r of the values are not above', what, v, cdf(v))
                        require(cdf(v - 1) <= k['q'] / 100 + 1e-6, '%s is %r: %r of the values are below', what, v, cdf(v - 1))
        if meth == B.SAMPLE:
            for t in u.probas:
                for m in u.probas[t]:
                    for r, x in u.probas[t][m].items():
                        close(float(sum(x['proba'])), 1., 'probabilities')
    eq((p.mode_details, p.successors, p.resources), plain, 'project afterwards')
    spread = [laws[t][m][r][2] - laws[t][m][r][0] for t in p.mode_details for m in p.mode_details[t] for r in fields]
    ctx.nontrivial(max(spread) >= 2 and n >= 2)
    ctx.label('uniform' if k['uniform'] else 'poisson')
    # more time for the tasks and unchanged needs never shorten the longest chain
    if fields == ['duration']:
        def chain(q):
            far = {}
            for t in reversed(topological(p)):
                far[t] = min(x['duration'] for x in q.mode_details[t].values()) + max([far[s] for s in p.successors[t]], default=0)
            return far[1]
        require(chain(out[B.BEST_CASE]) <= chain(out[B.SAMPLE]) <= chain(out[B.WORST_CASE]), 'longest chains are not ordered')


def poisson(mean, xs):
    from math import exp, factorial
    return [exp(-mean) * mean ** x / factorial(x) for x in xs]


def topological(p):
    order, todo = [], list(p.mode_details)
    preds = {t: {a for a in p.successors if t in p.successors[a]} for t in todo}
    while todo:
        t = next(x for x in todo if preds[x] <= set(order))
        order.append(t)
        todo.remove(t)
    return order


@st.composite
def helper_cases(draw):
    c = draw(rd.instances(kinds=('single',), over=False, loose=True, nr_ok=False, max_n=5))
    # tasks numbered in a precedence order
    c['succ'] = [[j for j in range(c['n']) if j > i and (j in s or i in c['succ'][j])] for i, s in enumerate(c['succ'])]
    res = draw(st.integers(1, 3))
    c['res'] = {'R%d' % (i + 1): dict(x) for i, x in enumerate(list(c['res'].values()))}
    for ms in c['modes']:
        for m in ms:
            m['r'] = {'R%d' % (i + 1): v for i, v in enumerate(m['r'].values())}
    c['hor'] = draw(st.one_of(st.just(400), st.just(400), st.just(400), st.integers(c['hor'] // 2 + 1, c['hor'] * 3)))
    n = draw(st.integers(0, c['n']))
    perms = [draw(st.permutations(range(c['n'] + 2 * n))) for _ in range(2)]
    return dict(c=c, mult=draw(st.integers(1, 3)), n=n, assist=draw(st.integers(1, 2)), proba=draw(st.sampled_from([0, 0.3, 1])), dur=draw(st.integers(1, 3)),
                seed=draw(st.integers(0, 10 ** 6)), perms=[list(x) for x in perms], res=res)


def check_helpers(k, ctx):
    c = k['c']
    p = rd.build(c)
    plain = deepcopy((p.mode_details, p.successors, p.resources, p.n_jobs, p.horizon))
    make = lambda: generate_rcpsp_with_helper_tasks_data(p, k['mult'], k['n'], k['assist'], k['proba'], k['dur'], k['seed'])
    random.seed(k['seed'])
    h = make()
    eq((p.mode_details, p.successors, p.resources, p.n_jobs, p.horizon), plain, 'original project afterwards')
    random.seed(k['seed'] + 1)
    twin = make()
    eq((twin.mode_details, twin.successors), (h.mode_details, h.successors), 'project generated again with the same seed')
    n, sink = c['n'], c['n'] + 2 + 2 * k['n']
    extra = 'R%d' % (len(c['res']) + 1)
    eq(type(h), RCPSP_H_Model, 'class')
    eq(dict(h.resources), dict(plain[2], **{extra: k['assist']}), 'resources')
    eq(h.n_jobs, n + 2 * k['n'], 'number of tasks')
    eq(sorted(h.mode_details), list(range(1, sink + 1)), 'tasks')
    for i in range(n):
        d = c['modes'][i][0]
        eq(h.mode_details[i + 2], {1: dict(d['r'], duration=d['d'] * k['mult'], **{extra: 0})}, 'task %d' % (i + 2))
    for t in range(n + 2, sink):
        eq(h.mode_details[t], {1: dict({r: 0 for r in c['res']}, duration=k['dur'], **{extra: 1})}, 'helper task')
    eq({h.mode_details[t][1]['duration'] for t in (1, sink)}, {0}, 'source and sink')
    pre, post = h.pre_helper_activities, h.post_helper_activities
    eq((sorted(pre), len(pre)), (sorted(post), k['n']), 'assisted tasks')
    require(all(2 <= t <= n + 1 for t in pre), 'assisted tasks %r', sorted(pre))
    eq(sorted(x for v in list(pre.values()) + list(post.values()) for x in v), list(range(n + 2, sink)), 'helper tasks')
    arcs = {(a, b) for a, s in h.successors.items() for b in s}
    reach = closure(h)
    require(all((pre[t][0], t) in arcs and (t, post[t][0]) in arcs for t in pre), 'a helper task is not tied to its task')
    for i in range(n):
        require(all((i + 2, j + 2) in reach for j in c['succ'][i]), 'a precedence of the original project is lost')
    require(not any((t, t) in reach for t in h.successors), 'cycle')
    require(all((t, sink) in reach for t in range(1, sink)), 'a task may end after the sink')
    crossed = {(a, b) for a, b in arcs if a >= n + 2 and n + 2 <= b < sink}
    eq(crossed <= {(post[a][0], pre[b][0]) for a in pre for b in pre if a < b}, True, 'precedence between helpers')
    if k['proba'] in (0, 1):
        eq(len(crossed), k['proba'] * k['n'] * (k['n'] - 1) // 2, 'number of precedences between helpers')
    moved = 0
    for perm in k['perms']:
        first = RCPSPSolution(problem=h, rcpsp_permutation=list(perm), rcpsp_modes=[1] * h.n_jobs)
        first.generate_schedule_from_permutation_serial_sgs()
        if not first.rcpsp_schedule_feasible:
            ctx.label('beyond the horizon')
            v = h.evaluate(RCPSPSolution(problem=h, rcpsp_permutation=list(perm), rcpsp_modes=[1] * h.n_jobs))
            require(v['makespan'] >= 9999999, 'an infeasible order is scored %r', v)
            continue
        was = {t: (x['start_time'], x['end_time']) for t, x in first.rcpsp_schedule.items()}
        sol = RCPSPSolution(problem=h, rcpsp_permutation=list(perm), rcpsp_modes=[1] * h.n_jobs)
        mid = {t: x['start_time'] for t, x in sol.rcpsp_schedule.items()}
        v = h.evaluate(sol)
        now = {t: (x['start_time'], x['end_time']) for t, x in sol.rcpsp_schedule.items()}
        helpers = [pre[t][0] for t in pre]
        eq({t: x for t, x in now.items() if t not in helpers}, {t: x for t, x in was.items() if t not in helpers}, 'tasks other than helpers')
        for t in helpers:
            require(now[t][0] >= was[t][0] and now[t][1] - now[t][0] == k['dur'], 'helper %d at %r instead of %r', t, now[t], was[t])
            moved += now[t] != was[t]
        require(valid(h, now), 'invalid schedule %r', now)
        require(h.satisfy(sol), 'the schedule is reported infeasible')
        eq(v['makespan'], now[sink][1], 'makespan')
        eq(v['makespan'], max(b for _, b in now.values()), 'makespan and last end')
        eq(v['cumulated_helper_gap'], sum(now[t][0] - now[pre[t][0]][1] + now[post[t][0]][0] - now[t][1] for t in pre), 'gap around the assisted tasks')
        if helpers:
            # the helper considered last (the earliest one) cannot start any later
            last = min(helpers, key=lambda t: (mid[t], t))
            for s in range(now[last][0] + 1, now[sink][1] - k['dur'] + 1):
                require(not valid(h, {**now, last: (s, s + k['dur'])}), 'helper %d could start at %d rather than %d', last, s, now[last][0])
        w = h.evaluate_from_encoding(list(perm), 'rcpsp_permutation')
        eq({x: w[x] for x in ('makespan', 'cumulated_helper_gap')}, {x: v[x] for x in ('makespan', 'cumulated_helper_gap')}, 'score of the order')
    ctx.nontrivial(k['n'] >= 1 and n >= 2)
    ctx.label('helper moved' if moved else '')


def closure(h):
    reach = {(a, b) for a, s in h.successors.items() for b in s}
    while True:
        more = {(a, d) for a, b in reach for x, d in reach if b == x} - reach
        if not more:
            return reach
        reach |= more


def valid(h, sched):
    if any(sched[a][1] > sched[b][0] for a, s in h.successors.items() for b in s):
        return False
    end = max(b for _, b in sched.values())
    return all(sum(h.mode_details[t][1][r] for t, (s, b) in sched.items() if s <= x < b) <= h.resources[r] for r in h.resources for x in range(end))


@st.composite
def robust_cases(draw):
    c = draw(rd.instances(kinds=('single', 'multi'), over=False, loose=True, nr_ok=False, max_n=5))
    c['hor'] = draw(st.one_of(st.just(200), st.just(200), st.integers(c['hor'] // 2, c['hor'])))
    scen = []
    for _ in range(draw(st.integers(2, 8))):
        scen.append([[max(0, m['d'] + draw(st.integers(-1, 3))) for m in ms] for ms in c['modes']])
    return dict(c=c, scen=scen, es=[draw(rd.vectors(c, False)) for _ in range(9)], seed=draw(st.integers(0, 10 ** 6)), prop=draw(st.sampled_from([0.5, 0.8, 0.9])),
                given=draw(st.booleans()), prio=draw(st.booleans()), post=draw(st.booleans()))


class InlinePool:
    """Stands in for the pool of processes: models are solved here, in the order given."""
    def __init__(self, *a):
        pass

    def map(self, f, xs):
        return [f(x) for x in xs]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def check_robust(k, ctx):
    c = k['c']
    data = [dict(c, modes=[[dict(m, d=d) for m, d in zip(ms, ds)] for ms, ds in zip(c['modes'], x)]) for x in k['scen']]
    base, scen = rd.build(c), [rd.build(x) for x in data]
    random.seed(k['seed'])
    if k['given']:
        cut = max(1, int(k['prop'] * len(scen)))
        tool = RobustnessTool(base, list(scen), train_instance=scen[:cut], test_instance=scen[cut:])
        eq([id(x) for x in tool.train_instance], [id(x) for x in scen[:cut]], 'training scenarios')
        eq([id(x) for x in tool.test_instance], [id(x) for x in scen[cut:]], 'test scenarios')
    else:
        tool = RobustnessTool(base, list(scen), proportion_train=k['prop'])
        eq(sorted(id(x) for x in tool.train_instance + tool.test_instance), sorted(id(x) for x in scen), 'scenarios for training and for tests')
        eq(len(tool.train_instance), int(k['prop'] * len(scen)), 'number of training scenarios')
    where = {id(p): x for p, x in zip(scen, data)}
    train, test = [where[id(p)] for p in tool.train_instance], [where[id(p)] for p in tool.test_instance]
    post, prio = k['post'], k['prio']
    models = tool.get_models(apriori=prio, aposteriori=post)
    eq(tool.tags, [a + b for a in ['post_'] * post + ['prio_'] * prio for b in ('mean', 'max', 'min', 'median')] + ['original'], 'names of the models')
    eq(len(models), len(tool.tags), 'number of models')
    require(models[-1] is base, 'the last model is the original project')
    way = dict(mean=np.mean, max=max, min=min, median=np.median)
    e = k['es'][0]
    for model, tag in zip(models, tool.tags):
        if tag == 'original':
            continue
        f = way[tag[5:]]
        if tag.startswith('prio'):
            for i in range(c['n']):
                for j in range(len(c['modes'][i])):
                    eq(int(model.mode_details[i + 2][j + 1]['duration']), int(f([x['modes'][i][j]['d'] for x in train])), '%s: duration' % tag)
        else:
            v = model.evaluate(RCPSPSolution(problem=tool.train_instance[0], rcpsp_permutation=list(e['perm']), rcpsp_modes=list(e['modes'])))
            ends = [rd.sgs(x, e['perm'], e['modes']) for x in train]
            close(float(v['makespan']), float(f([9999999 if r is None else max(b for _, b in r.values()) for r in ends])), '%s: makespan' % tag)
    asked = []

    def solve(model):
        x = k['es'][len(asked)]
        asked.append(model)
        return SimpleNamespace(best_solution=RCPSPSolution(problem=base, rcpsp_permutation=list(x['perm']), rcpsp_modes=list(x['modes'])))
    true_pool = multiprocessing.Pool
    multiprocessing.Pool = InlinePool
    try:
        out = tool.solve_and_retrieve(solve, apriori=prio, aposteriori=post)
    finally:
        multiprocessing.Pool = true_pool
    eq([type(x) for x in asked], [type(x) for x in models], 'models solved')
    eq(out.shape, (len(models), len(test), 3), 'size of the results')
    worth = set()
    for i in range(len(models)):
        x = k['es'][i]
        for j, t in enumerate(test):
            ref = rd.sgs(t, x['perm'], x['modes'])
            end = 9999999 if ref is None else max(b for _, b in ref.values())
            eq((out[i, j, 0], out[i, j, 1]), (0. if ref is None else 1., float(end)), 'feasible, makespan of solution %d in test %d' % (i, j))
            r = 0 if ref is None else rd.reserve(t, ref, x['modes'], end)
            if r is not None:
                close(float(out[i, j, 2]), float(r), 'reserve of solution %d in test %d' % (i, j))
            worth.add(end)
    for p, x in zip(scen + [base], data + [c]):
        require(all(p.mode_details[i + 2][j + 1]['duration'] == m['d'] for i, ms in enumerate(x['modes']) for j, m in enumerate(ms)), 'a scenario was altered')
    ctx.nontrivial(len(worth) > 1)
    ctx.label('given' if k['given'] else 'drawn')


SUBCHECKS = [
    Sub('profiles', scheduled, check_profiles, 900),
    Sub('units', scheduled, check_units, 900),
    Sub('distance', lambda: scheduled(n=2), check_distance, 600),
    Sub('uncertain', uncertain_cases, check_uncertain, 150),
    Sub('helpers', helper_cases, check_helpers, 600),
    Sub('robustness', robust_cases, check_robust, 400),
]
