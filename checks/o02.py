"""O02: verdicts and scores of RCPSP schedules given explicitly (multi-skill ones: sub-check skills)."""
from copy import deepcopy
from hypothesis import strategies as st
from harness import rcpspdomain as rd
from harness import skilldomain as sd
from harness.api import Sub, require, eq, close
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPSolution

RULE = ('Schedules which are correct, or correct but for one or two tasks moved, capacities lowered, arcs added or needs raised, or random; '
        'non-trivial: infeasible for exactly one kind of reason, or feasible with at least two tasks at the same time.')
ASSUMPTIONS = ['every task is scheduled for its duration, at or after time 0, within the calendars']


@st.composite
def cases(draw):
    c = draw(rd.instances(over=False, loose=True, min_n=1, max_n=6))
    e = draw(rd.vectors(c, False))
    ref = rd.sgs(c, e['perm'], e['modes'])
    size = c['hor'] * c['mult']
    ds = [rd.mode(c, i, e['modes'])['d'] for i in range(c['n'])]
    how = draw(st.sampled_from(['as is', 'moved', 'moved', 'lowered', 'raised', 'arc', 'random', 'delayed']))
    if ref is None or how == 'random':
        starts = [draw(st.integers(0, max(0, size - d))) for d in ds]
    else:
        starts = [ref[i][0] for i in range(c['n'])]
    if how == 'delayed':
        # everything from some time on is one later (feasible when availability is constant)
        t = draw(st.integers(0, size))
        starts = [min(s + (s >= t), size - d) for s, d in zip(starts, ds)]
    if how == 'moved':
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, c['n'] - 1))
            starts[i] = draw(st.one_of(st.integers(max(0, starts[i] - 2), min(starts[i] + 2, size - ds[i])), st.integers(0, size - ds[i])))
    if how == 'lowered':
        k = draw(st.sampled_from(sorted(c['res'])))
        x = c['res'][k]
        if isinstance(x['cap'], int):
            x['cap'] = max(1, x['cap'] - 1)
        elif x['nr']:
            x['cap'] = [max(1, x['cap'][0] - 1)] * len(x['cap'])
        else:
            t = draw(st.integers(0, len(x['cap']) - 1))
            if sum(map(bool, x['cap'])) > 1:
                x['cap'][t] = max(0, x['cap'][t] - 1)
    if how == 'raised':
        i = draw(st.integers(0, c['n'] - 1))
        m = rd.mode(c, i, e['modes'])
        k = draw(st.sampled_from(sorted(m['r'])))
        m['r'][k] += 1
    if how == 'arc' and c['n'] > 1:
        i, j = list(draw(st.permutations(range(c['n']))))[:2]
        if starts[i] <= starts[j] and j not in c['succ'][i] and i not in c['succ'][j]:
            c['succ'][i] = sorted(c['succ'][i] + [j])
    end = max(s + d for s, d in zip(starts, ds))
    return dict(c=c, e=e, starts=starts, sink=draw(st.one_of(st.just(end), st.just(end), st.just(end), st.integers(max(0, end - 1), min(end + 1, size)))),
                perm=draw(st.booleans()), how=how)


def reasons(c, sched, modes, sink):
    """Which constraints are broken."""
    pr = rd.preds_of(c)
    bad = set()
    if any(sched[j][1] > sched[i][0] for i in range(c['n']) for j in pr[i]) or any(e > sink for _, e in sched.values()):
        bad.add('precedence')
    if not rd.nr_ok(c, modes):
        bad.add('non-renewable')
    for k in rd.ren(c):
        for t in range(max([e for _, e in sched.values()], default=0)):
            if sum(rd.mode(c, i, modes)['r'][k] for i, (s, e) in sched.items() if s <= t < e) > rd.cap(c, k, t):
                bad.add('renewable')
    return bad


def check(k, ctx):
    c, e = k['c'], k['e']
    p = rd.build(c)
    sched = {i: (s, s + rd.mode(c, i, e['modes'])['d']) for i, s in enumerate(k['starts'])}
    table = {i + 2: {'start_time': s, 'end_time': f} for i, (s, f) in sched.items()}
    table[1] = {'start_time': 0, 'end_time': 0}
    table[c['n'] + 2] = {'start_time': k['sink'], 'end_time': k['sink']}
    args = dict(rcpsp_permutation=list(e['perm'])) if k['perm'] else {}
    sol = RCPSPSolution(problem=p, rcpsp_schedule=deepcopy(table), rcpsp_modes=list(e['modes']), rcpsp_schedule_feasible=True, **args)
    bad = reasons(c, sched, e['modes'], k['sink'])
    got = p.satisfy(sol)
    require(bool(got) == (not bad), 'verdict %r, but constraints broken: %r (%s)', got, sorted(bad), k['how'])
    together = any(i < j and sched[i][0] < sched[j][1] and sched[j][0] < sched[i][1] for i in sched for j in sched)
    ctx.nontrivial(len(bad) == 1 or (not bad and together))
    ctx.label(k['how'], *(sorted(bad) or ['feasible']))
    eq(sol.rcpsp_schedule, table, 'schedule after the verdict')
    if k['sink'] >= max(f for _, f in sched.values()):
        v = p.evaluate(sol)
        eq(v['makespan'], k['sink'], 'makespan')
        r = rd.reserve(c, sched, e['modes'], k['sink'])
        if r is not None:
            close(float(v['mean_resource_reserve']), r, 'mean resource reserve')
    eq(sol.rcpsp_schedule, table, 'schedule after the evaluation')
    again = sol.copy()
    eq((again.rcpsp_schedule, bool(p.satisfy(again))), (table, not bad), 'copy')
    flagged = RCPSPSolution(problem=p, rcpsp_schedule=deepcopy(table), rcpsp_modes=list(e['modes']), rcpsp_schedule_feasible=False, rcpsp_permutation=list(e['perm']))
    require(not p.satisfy(flagged), 'a schedule reported infeasible satisfies the problem')


@st.composite
def skill_cases(draw):
    c = draw(sd.instances(loose=True, long=True))
    e = draw(sd.vectors(c, False))
    ref = sd.decode(c, e)
    n = c['n']
    size = c['hor'] + 1
    ds = [sd.mode(c, i, e['modes'])['d'] for i in range(n)]
    how = draw(st.sampled_from(['as is', 'moved', 'moved', 'unit dropped', 'unit changed', 'unit changed', 'skill dropped', 'calendar', 'lowered', 'raised', 'arc', 'random', 'missing']))
    skill = {x['k']: x['s'] for x in c['emp']}
    if ref is None or how == 'random':
        starts = [draw(st.integers(0, size - d)) for d in ds]
        units = {i: draw(st.lists(st.sampled_from(sorted(skill)), max_size=1 if c['one'] else 2, unique=True)) for i in range(n)}
    else:
        starts = [ref[0][i][0] for i in range(n)]
        units = {i: list(ref[1].get(i, [])) for i in range(n)}
    used = {i: {w: sorted(set(skill[w]) & set(sd.need(sd.mode(c, i, e['modes'])))) for w in units[i]} for i in range(n)}
    i = draw(st.integers(0, n - 1))
    if any(used.values()) and how.split()[0] in ('unit', 'skill', 'calendar'):
        i = draw(st.sampled_from([x for x in used if used[x]]))
    w = draw(st.sampled_from(sorted(used[i]))) if used[i] else None
    if how == 'moved':
        starts[i] = draw(st.one_of(st.integers(max(0, starts[i] - 2), min(starts[i] + 2, size - ds[i])), st.integers(0, size - ds[i])))
    elif how == 'unit dropped' and w is not None:
        del used[i][w]
    elif how == 'unit changed' and w is not None:
        v = draw(st.sampled_from(sorted(skill)))
        sk = used[i].pop(w)
        used[i][v] = [x for x in sk if x in skill[v]] if draw(st.booleans()) else sk
    elif how == 'skill dropped' and w is not None and used[i][w]:
        used[i][w].remove(draw(st.sampled_from(used[i][w])))
    elif how == 'calendar' and w is not None:
        t = draw(st.integers(max(0, starts[i] - 1), min(starts[i] + ds[i], size - 1)))
        next(x for x in c['emp'] if x['k'] == w)['cal'][t] = 0
    elif how == 'lowered' and c['res']:
        x = c['res'][draw(st.sampled_from(sorted(c['res'])))]
        if x['nr']:
            x['cap'] = [max(1, x['cap'][0] - 1)] * size
        else:
            t = draw(st.integers(0, size - 1))
            x['cap'][t] = max(0, x['cap'][t] - 1)
    elif how == 'raised':
        m = sd.mode(c, i, e['modes'])
        k = draw(st.sampled_from(sorted(m['r']) + sorted(m['s']) or ['']))
        if k:
            m['r' if k in m['r'] else 's'][k] += 1
    elif how == 'arc' and n > 1:
        i, j = list(draw(st.permutations(range(n))))[:2]
        if starts[i] <= starts[j] and j not in c['succ'][i] and i not in c['succ'][j]:
            c['succ'][i] = sorted(c['succ'][i] + [j])
    end = max(s + d for s, d in zip(starts, ds))
    return dict(c=c, modes=e['modes'], starts=starts, used=[[i, w, sk] for i in sorted(used) for w, sk in sorted(used[i].items())],
                sink=draw(st.one_of(st.just(end), st.just(end), st.just(end), st.integers(max(0, end - 1), end + 1))), how=how, miss=draw(st.integers(0, n - 1)),
                variant=draw(st.booleans()))


def skill_reasons(c, sched, modes, usage, sink):
    """Which constraints are broken."""
    pr = sd.preds_of(c)
    bad = set()
    if any(sched[j][1] > sched[i][0] for i in range(c['n']) for j in pr[i]) or any(e > sink for _, e in sched.values()):
        bad.add('precedence')
    if sink > c['hor']:
        bad.add('horizon')
    if not sd.nr_ok(c, modes):
        bad.add('non-renewable')
    for k in sd.ren(c):
        for t in range(max([e for _, e in sched.values()], default=0)):
            if sum(sd.mode(c, i, modes)['r'][k] for i, (s, e) in sched.items() if s <= t < e) > c['res'][k]['cap'][t]:
                bad.add('renewable')
    by = {x['k']: x for x in c['emp']}
    for i, (s, f) in sched.items():
        u = usage.get(i, {})
        if any(sum(by[w]['s'].get(x, 0) for w in u if x in u[w]) < v for x, v in sd.need(sd.mode(c, i, modes)).items()):
            bad.add('skills')
        if not all(by[w]['cal'][t] for w in u for t in range(s, f)):
            bad.add('calendar')
        if any(w in usage.get(j, {}) and max(s, a) < min(f, b) for w in u for j, (a, b) in sched.items() if j != i):
            bad.add('unit twice')
    return bad


def check_skills(k, ctx):
    c, modes, n = k['c'], k['modes'], k['c']['n']
    p = sd.build(c, variant=k['variant'])
    sched = {i: (s, s + sd.mode(c, i, modes)['d']) for i, s in enumerate(k['starts'])}
    usage = {}
    for i, w, sk in k['used']:
        usage.setdefault(i, {})[w] = sk
    table = {i + 2: {'start_time': s, 'end_time': f} for i, (s, f) in sched.items()}
    table[1] = {'start_time': 0, 'end_time': 0}
    table[n + 2] = {'start_time': k['sink'], 'end_time': k['sink']}
    md = {i + 2: m for i, m in enumerate(modes)}
    md[1] = md[n + 2] = 1
    use = {i + 2: {w: set(sk) for w, sk in u.items()} for i, u in usage.items()}
    sol = MS_RCPSPSolution(problem=p, modes=dict(md), schedule=deepcopy(table), employee_usage=deepcopy(use))
    bad = skill_reasons(c, sched, modes, usage, k['sink'])
    if k['how'] == 'missing':
        bad = {'missing'}
        del sol.schedule[k['miss'] + 2]
        del table[k['miss'] + 2]
    got = p.satisfy(sol)
    require(bool(got) == (not bad), 'verdict %r, but constraints broken: %r (%s)', got, sorted(bad), k['how'])
    together = any(i < j and sched[i][0] < sched[j][1] and sched[j][0] < sched[i][1] for i in sched for j in sched)
    ctx.nontrivial(len(bad) == 1 or (not bad and together))
    ctx.label(k['how'], *(sorted(bad) or ['feasible']))
    eq(p.evaluate(sol)['makespan'], k['sink'], 'makespan')
    again = sol.copy()
    eq((again.schedule, again.employee_usage, bool(p.satisfy(again))), (table, use, not bad), 'copy')
    eq((sol.schedule, sol.employee_usage), (table, use), 'schedule after the verdict')


SUBCHECKS = [
    Sub('schedules', cases, check, 4000),
    Sub('skills', skill_cases, check_skills, 3000),
]
