"""Generated RCPSP instances (plain data) and an independent reference of their scheduling rules.

inst: n tasks (0..n-1, task i of the library is i+2), modes[i] = list of {'d': duration, 'r': {res: need}},
succ[i] = list of tasks, res = {name: {'nr': bool, 'cap': int or list}}, hor, mult, kind, full (source/sink arcs to all).
"""
from copy import deepcopy
from hypothesis import strategies as st
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import (
    SingleModeRCPSPModel, MultiModeRCPSPModel, RCPSPModelCalendar)


@st.composite
def instances(draw, kinds=('single', 'multi', 'calendar', 'calendar-multi'), min_n=1, max_n=6, over=True, max_d=4, nr_ok=True, loose=False):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(min_n, max_n))
    multi = 'multi' in kind
    nres = draw(st.integers(1, 3))
    res = {}
    for k in range(nres):
        res['R%d' % k] = {'nr': nr_ok and draw(st.integers(0, 3)) == 0, 'cap': draw(st.integers(1, 5))}
    modes = []
    for i in range(n):
        ms = []
        for _ in range(draw(st.integers(1, 3)) if multi else 1):
            r = {}
            for k, x in res.items():
                top = x['cap'] + 1 if over and draw(st.integers(0, 30)) == 0 else x['cap']
                if x['nr']:
                    top = max(1, top // 2)
                r[k] = draw(st.one_of(st.integers(0, top), st.just(0)))
            ms.append({'d': draw(st.one_of(st.integers(0, max_d), st.integers(1, max_d))), 'r': r})
        modes.append(ms)
    order = list(draw(st.permutations(range(n))))
    succ = {i: [] for i in range(n)}
    for a in range(n):
        for b in range(a + 1, n):
            if draw(st.integers(0, 2)) == 0:
                succ[order[a]].append(order[b])
    total = sum(max(m['d'] for m in ms) for ms in modes)
    if loose:
        hor = total * 2 + 2
    else:
        hor = max(1, draw(st.one_of(st.just(total * 2 + 2), st.integers(total, total + 3), st.integers(max(1, total // 2), total + 1))))
    mult = draw(st.integers(1, 2)) if not loose else 1
    if 'calendar' in kind:
        size = hor * mult + 1 + draw(st.integers(0, 2))
        for x in res.values():
            if x['nr']:
                x['cap'] = [x['cap']] * size
            else:
                base = x['cap']
                low = draw(st.lists(st.integers(0, size - 1), max_size=max(1, size // 3)))
                cal = [base] * size
                for t in low:
                    cal[t] = draw(st.integers(0, base))
                if not any(cal):
                    cal[-1] = base
                x['cap'] = cal
    return dict(kind=kind, n=n, modes=modes, succ=[sorted(set(succ[i])) for i in range(n)], res=res, hor=hor, mult=mult, full=draw(st.booleans()))


def build(c):
    n = c['n']
    rs = {k: deepcopy(x['cap']) for k, x in c['res'].items()}
    nr = [k for k, x in c['res'].items() if x['nr']]
    md = {1: {1: dict({k: 0 for k in rs}, duration=0)}}
    for i, ms in enumerate(c['modes']):
        md[i + 2] = {j + 1: dict(m['r'], duration=m['d']) for j, m in enumerate(ms)}
    md[n + 2] = {1: dict({k: 0 for k in rs}, duration=0)}
    succ = {1: [], n + 2: []}
    preds = {j for i in range(n) for j in c['succ'][i]}
    for i in range(n):
        succ[i + 2] = [j + 2 for j in c['succ'][i]]
        if c['full'] or i not in preds:
            succ[1].append(i + 2)
        if c['full'] or not c['succ'][i]:
            succ[i + 2].append(n + 2)
    if c['full'] or n == 0:
        succ[1].append(n + 2)
    succ = {k: succ[k] for k in sorted(succ)}
    args = dict(resources=rs, non_renewable_resources=nr, mode_details=md, successors=succ, horizon=c['hor'], horizon_multiplier=c['mult'])
    cls = {'single': SingleModeRCPSPModel, 'multi': MultiModeRCPSPModel}.get(c['kind'], RCPSPModelCalendar)
    return cls(**args)


def cap(c, k, t):
    x = c['res'][k]['cap']
    return x if isinstance(x, int) else (x[t] if t < len(x) else 0)


def cap0(c, k):
    return cap(c, k, 0)


def fixed_modes(c, modes):
    """Modes which do not exist are replaced by the first one."""
    return [m if 1 <= m <= len(c['modes'][i]) else 1 for i, m in enumerate(modes)]


def mode(c, i, modes):
    return c['modes'][i][modes[i] - 1]


def preds_of(c):
    p = [set() for _ in range(c['n'])]
    for i in range(c['n']):
        for j in c['succ'][i]:
            p[j].add(i)
    return p


def nr_ok(c, modes):
    return all(sum(mode(c, i, modes)['r'][k] for i in range(c['n'])) <= cap0(c, k) for k, x in c['res'].items() if x['nr'])


def ren(c):
    return [k for k, x in c['res'].items() if not x['nr']]


def sgs(c, perm, modes, now=0, done=None, running=None):
    """Serial schedule generation: {task: (start, end)} or None when infeasible. done: {task: (start, end)}, running: {task: start}."""
    done, running = done or {}, running or {}
    H = c['hor'] * c['mult']
    modes = fixed_modes(c, modes)
    if not nr_ok(c, modes):
        return None
    pr = preds_of(c)
    use = {k: {} for k in ren(c)}
    out = dict(done)
    todo = [i for i in perm if i in running] + [i for i in perm if i not in running and i not in done]
    while todo:
        i = next(x for x in todo if not (pr[x] & set(todo)))
        m = mode(c, i, modes)
        s = running[i] if i in running else max([now] + [out[j][1] for j in pr[i] if j not in done])
        while True:
            if m['d'] > 0 and s + m['d'] > H:
                return None
            if all(use[k].get(t, 0) + m['r'][k] <= cap(c, k, t) for t in range(s, s + m['d']) for k in use):
                break
            s += 1
        for t in range(s, s + m['d']):
            for k in use:
                use[k][t] = use[k].get(t, 0) + m['r'][k]
        out[i] = (s, s + m['d'])
        todo.remove(i)
    return out


def feasible(c, sched, modes, sink=None):
    """Every constraint of the definition, sched = {task: (start, end)}."""
    pr = preds_of(c)
    end = max([e for _, e in sched.values()], default=0)
    if sink is not None and sink < end:
        return False
    if any(sched[j][1] > sched[i][0] for i in range(c['n']) for j in pr[i]):
        return False
    if not nr_ok(c, modes):
        return False
    for k in ren(c):
        for t in range(end):
            if sum(mode(c, i, modes)['r'][k] for i, (s, e) in sched.items() if s <= t < e) > cap(c, k, t):
                return False
    return True


def reserve(c, sched, modes, makespan):
    """Mean over resources of the mean availability left, relative to the largest availability (None: undefined)."""
    if makespan == 0:
        return None
    vals = []
    for k, x in c['res'].items():
        top = x['cap'] if isinstance(x['cap'], int) else max(x['cap'])
        if top == 0:
            return None
        left = []
        for t in range(makespan):
            used = sum(mode(c, i, modes)['r'][k] for i, (s, e) in sched.items()
                       if s <= t and (t < e or x['nr']) and e > s)
            left.append(cap(c, k, t) - used)
        vals.append(sum(left) / makespan / top)
    return sum(vals) / len(vals)


def plain_schedule(c, sol):
    """The schedule of a library solution as {task: (start, end)}."""
    return {i - 2: (int(x['start_time']), int(x['end_time'])) for i, x in sol.rcpsp_schedule.items() if 2 <= i <= c['n'] + 1}


@st.composite
def vectors(draw, c, wild=True):
    perm = list(draw(st.permutations(range(c['n']))))
    modes = [draw(st.integers(1, len(ms) + (1 if wild and draw(st.integers(0, 15)) == 0 else 0))) for ms in c['modes']]
    return dict(perm=perm, modes=modes)
