"""Generated multi-skill projects (plain data) and an independent reference of their scheduling rules.

inst: n tasks (0..n-1, task i of the library is i+2), modes[i] = list of {'d', 'r': {res: need}, 's': {skill: need}},
succ, res = {name: {'nr', 'cap': list}}, emp = list of {'k': key, 's': {skill: value}, 'cal': [0/1]}, hor, one (one unit per task).
"""
from copy import deepcopy
from hypothesis import strategies as st
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import (
    MS_RCPSPModel, MS_RCPSPModel_Variant, MS_RCPSPSolution, MS_RCPSPSolution_Variant, Employee, SkillDetail)

SKILLS = ['S0', 'S1', 'S2']


@st.composite
def instances(draw, min_n=1, max_n=6, loose=False, keys=True, long=False):
    n = draw(st.integers(min_n, max_n))
    res = {'R%d' % k: {'nr': draw(st.integers(0, 3)) == 0, 'cap': draw(st.integers(1, 4))} for k in range(draw(st.integers(0, 2)))}
    skills = SKILLS[:draw(st.integers(1, 3))]
    ne = draw(st.integers(1, 4))
    emp = []
    for e in range(ne):
        emp.append({'k': e + 1, 's': {s: draw(st.integers(1, 3)) for s in skills if draw(st.integers(0, 3)) > 0}})
    if keys and draw(st.integers(0, 3)) == 0:
        ks = draw(st.permutations([3, 7, 11, 20]))
        for x, k in zip(emp, ks):
            x['k'] = k
    one = draw(st.booleans())
    modes = []
    for i in range(n):
        ms = []
        for _ in range(draw(st.integers(1, 2))):
            r = {}
            for k, x in res.items():
                top = max(1, x['cap'] // 2) if x['nr'] else x['cap']
                r[k] = draw(st.one_of(st.integers(0, top), st.just(0)))
            sk = {}
            # mostly what the units together (or one of them) can offer
            who = emp[draw(st.integers(0, ne - 1))]['s'] if one else {s: sum(x['s'].get(s, 0) for x in emp) for s in skills}
            for s in skills:
                if draw(st.integers(0, 2)) and who.get(s, 0):
                    sk[s] = draw(st.integers(0, min(who[s], 4)))
                elif draw(st.integers(0, 25)) == 0:
                    sk[s] = draw(st.integers(1, 3))
                elif draw(st.booleans()):
                    sk[s] = 0
            ms.append({'d': draw(st.one_of(st.integers(0, 4), st.integers(1, 3), st.integers(0, 7)) if long else st.one_of(st.integers(0, 4), st.integers(1, 3))), 'r': r, 's': sk})
        modes.append(ms)
    order = list(draw(st.permutations(range(n))))
    succ = {i: [] for i in range(n)}
    for a in range(n):
        for b in range(a + 1, n):
            if draw(st.integers(0, 3)) == 0:
                succ[order[a]].append(order[b])
    total = sum(max(m['d'] for m in ms) for ms in modes)
    hor = total * 3 + 8 if loose or draw(st.booleans()) else draw(st.integers(max(1, total), total + 6))
    size = hor + 1
    for x in res.values():
        cal = [x['cap']] * size
        if not x['nr'] and draw(st.booleans()):
            for t in draw(st.lists(st.integers(0, size - 1), max_size=max(1, size // 3))):
                cal[t] = draw(st.integers(0, x['cap']))
        x['cap'] = cal
    for x in emp:
        cal = [1] * size
        if draw(st.booleans()):
            for t in draw(st.lists(st.integers(0, size - 1), max_size=max(1, size // 4))):
                cal[t] = 0
        x['cal'] = cal
    return dict(n=n, modes=modes, succ=[sorted(set(succ[i])) for i in range(n)], res=res, emp=emp, skills=skills, hor=hor, one=one, full=draw(st.booleans()))


def build(c, variant=True):
    n = c['n']
    md = {1: {1: dict({k: 0 for k in list(c['res']) + c['skills']}, duration=0)}}
    for i, ms in enumerate(c['modes']):
        md[i + 2] = {j + 1: dict(m['r'], duration=m['d'], **m['s']) for j, m in enumerate(ms)}
    md[n + 2] = {1: dict({k: 0 for k in list(c['res']) + c['skills']}, duration=0)}
    succ = {1: [], n + 2: []}
    preds = {j for i in range(n) for j in c['succ'][i]}
    for i in range(n):
        succ[i + 2] = [j + 2 for j in c['succ'][i]]
        if c['full'] or i not in preds:
            succ[1].append(i + 2)
        if c['full'] or not c['succ'][i]:
            succ[i + 2].append(n + 2)
    if c['full']:
        succ[1].append(n + 2)
    succ = {k: succ[k] for k in sorted(succ)}
    emp = {x['k']: Employee({s: SkillDetail(v, 1, 1) for s, v in x['s'].items()}, [bool(b) for b in x['cal']]) for x in c['emp']}
    size = c['hor'] + 1
    return (MS_RCPSPModel_Variant if variant else MS_RCPSPModel)(
        skills_set=set(c['skills']), resources_set=set(c['res']), non_renewable_resources={k for k, x in c['res'].items() if x['nr']},
        resources_availability={k: list(x['cap']) for k, x in c['res'].items()}, employees=emp,
        employees_availability=[sum(x['cal'][t] for x in c['emp']) for t in range(size)],
        mode_details=md, successors=succ, horizon=c['hor'], horizon_multiplier=1, one_unit_per_task_max=c['one'])


def preds_of(c):
    p = [set() for _ in range(c['n'])]
    for i in range(c['n']):
        for j in c['succ'][i]:
            p[j].add(i)
    return p


def fixed_modes(c, modes):
    return [m if 1 <= m <= len(c['modes'][i]) else 1 for i, m in enumerate(modes)]


def mode(c, i, modes):
    return c['modes'][i][modes[i] - 1]


def need(m):
    return {s: v for s, v in m['s'].items() if v > 0}


def ren(c):
    return [k for k, x in c['res'].items() if not x['nr']]


def nr_ok(c, modes):
    return all(sum(mode(c, i, modes)['r'][k] for i in range(c['n'])) <= x['cap'][0] for k, x in c['res'].items() if x['nr'])


def decode(c, e, last=None):
    """Each task in the order of priorities (once its predecessors are placed), as early as resources and free units allow, with its preferred units.
    -> ({task: (start, end)}, {task: [units]}), or None. last: latest end allowed."""
    last = c['hor'] if last is None else last
    modes = fixed_modes(c, e['modes'])
    if not nr_ok(c, modes):
        return None
    pr = preds_of(c)
    use = {k: {} for k in ren(c)}
    busy = {x['k']: set(t for t, b in enumerate(x['cal']) if not b) for x in c['emp']}
    skill = {x['k']: x['s'] for x in c['emp']}
    out, units = {}, {}
    todo = list(e['perm'])
    while todo:
        i = next(x for x in todo if not (pr[x] & set(todo)))
        m = mode(c, i, modes)
        req = need(m)
        s = max([0] + [out[j][1] for j in pr[i]])
        while True:
            if s + m['d'] > last:
                return None
            span = range(s, s + m['d'])
            chosen = None
            if all(use[k].get(t, 0) + m['r'][k] <= c['res'][k]['cap'][t] for t in span for k in use):
                chosen = pick(c, req, [w for w in e['pw'][i] if not any(t in busy[w] for t in span)], skill)
            if chosen is not None:
                break
            s += 1
        for t in span:
            for k in use:
                use[k][t] = use[k].get(t, 0) + m['r'][k]
            for w in chosen:
                busy[w].add(t)
        out[i] = (s, s + m['d'])
        if chosen:
            units[i] = chosen
        todo.remove(i)
    return out, units


def pick(c, req, free, skill):
    if not req:
        return []
    if c['one']:
        for w in free:
            if all(skill[w].get(s, 0) >= v for s, v in req.items()):
                return [w]
        return None
    got = []
    for w in free:
        if any(s in skill[w] for s in req):
            got.append(w)
            if all(sum(skill[x].get(s, 0) for x in got) >= v for s, v in req.items()):
                return got
    return None


def feasible(c, sched, modes, usage, sink=None):
    """Every constraint of the definition. usage = {task: {unit: [skills]}}."""
    pr = preds_of(c)
    end = max([x[1] for x in sched.values()], default=0)
    if end > c['hor'] or (sink is not None and (sink < end or sink > c['hor'])):
        return False
    if any(sched[j][1] > sched[i][0] for i in range(c['n']) for j in pr[i]) or not nr_ok(c, modes):
        return False
    for k in ren(c):
        for t in range(end):
            if sum(mode(c, i, modes)['r'][k] for i, (s, f) in sched.items() if s <= t < f) > c['res'][k]['cap'][t]:
                return False
    by = {x['k']: x for x in c['emp']}
    for i, (s, f) in sched.items():
        for x, v in need(mode(c, i, modes)).items():
            if sum(by[w]['s'].get(x, 0) for w, sk in usage.get(i, {}).items() if x in sk) < v:
                return False
        for w in usage.get(i, {}):
            if not all(by[w]['cal'][t] for t in range(s, f)):
                return False
            if any(w in usage.get(j, {}) and max(s, a) < min(f, b) for j, (a, b) in sched.items() if j != i):
                return False
    return True


@st.composite
def vectors(draw, c, wild=True):
    ks = [x['k'] for x in c['emp']]
    return dict(perm=list(draw(st.permutations(range(c['n'])))),
                modes=[draw(st.integers(1, len(ms) + (1 if wild and draw(st.integers(0, 15)) == 0 else 0))) for ms in c['modes']],
                pw=[list(draw(st.permutations(ks))) for _ in range(c['n'])])


def solution(p, e):
    return MS_RCPSPSolution_Variant(problem=p, priority_list_task=list(e['perm']), modes_vector=list(e['modes']), priority_worker_per_task=deepcopy(e['pw']))


def plain(c, sol):
    """-> schedule, units, skills used, as the reference gives them."""
    sched = {i - 2: (int(x['start_time']), int(x['end_time'])) for i, x in sol.schedule.items() if 2 <= i <= c['n'] + 1}
    usage = {i - 2: {w: sorted(s) for w, s in u.items()} for i, u in (sol.employee_usage or {}).items()}
    return sched, usage
