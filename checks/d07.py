"""D07: what a scheduling domain declares through its building blocks is what its questions answer."""
from enum import Enum

from hypothesis import strategies as st

from harness.api import Sub, require, eq, close
from skdecide import DiscreteDistribution
from skdecide.builders.scheduling.scheduling_domains import SchedulingDomain
from skdecide.builders.scheduling.scheduling_domains_modelling import State
from skdecide.builders.scheduling import (conditional_tasks as CT, modes as MO, preallocations as PA, precedence as PR, preemptivity as PM,
                                          resource_availability as RA, resource_costs as RC, resource_renewability as RR, resource_type as RT,
                                          skills as SK, task_duration as TD, task_progress as TP, time_lag as TL, time_windows as TW)

RULE = ('Domains assembled from generated choices of a building block per characteristic (each level of each one, from the most general '
        'declaration to "without"), with generated declarations; every question of the domain is asked and compared with the '
        'declarations, or with what the documentation of the default block states. Non-trivial: some block declares and some other one defaults.')
ASSUMPTIONS = ['successors are declared for every task or only for those which have some',
               'a bound that a time window or a time lag does not give is the loosest one (0, the horizon, or nothing)']

ITEM = Enum('ITEM', 'OK A B C')
P = (0., 0.25, 0.5)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    ids = draw(st.permutations(range(1, n + 1)))
    yes = lambda: draw(st.booleans())
    small = st.integers(0, 4)
    c = dict(ids=list(ids), horizon=draw(st.integers(10, 60)), ask=draw(st.lists(st.integers(0, n - 1), max_size=n)))
    # precedence: arcs go forward in the order of ids
    c['arcs'] = None
    if yes():
        c['arcs'] = [[ids[i], ids[j]] for i in range(n) for j in range(i + 1, n) if draw(st.integers(0, 2)) == 0]
        c['sparse'] = yes()
    types = draw(st.lists(st.sampled_from(['r1', 'r2', 'r3']), unique=True, max_size=3)) if yes() else None
    units = draw(st.sampled_from([None, 'single', ['u1'], ['u1', 'u2'], ['u2', 'r1']]))
    c['types'], c['units'] = types, units
    c['unit_types'] = {u: draw(st.sampled_from(['r1', 'r2'])) for u in units if yes()} if isinstance(units, list) else {}
    names = (types or []) + (['single_resource'] if units == 'single' else units or [])
    c['renew'] = {r: yes() for r in names} if yes() else None
    c['single_mode'] = yes()
    c['varying'] = yes()
    modes = {}
    for t in ids:
        ms = [1] if c['single_mode'] else draw(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True))
        modes[t] = {m: {r: draw(st.lists(small, min_size=5, max_size=5)) if c['varying'] else draw(small) for r in names if yes()} for m in ms}
    c['modes'] = [[t, [[m, modes[t][m]] for m in modes[t]]] for t in ids]
    c['preempt'] = {str(t): [yes(), draw(st.integers(0, 2)), yes()] for t in ids} if yes() else None
    # durations: a table of (lowest, highest) by task, mode and progress
    c['level'] = draw(st.sampled_from(['simulated', 'multivariate', 'univariate', 'bounded', 'uniform', 'enumerable', 'deterministic']))
    table = []
    for t in ids:
        for m in modes[t]:
            for q in P:
                lo = draw(small)
                table.append([t, m, q, lo, lo if c['level'] == 'deterministic' else lo + draw(st.integers(0, 3)), draw(st.lists(st.integers(1, 5), min_size=4, max_size=4))])
    c['durations'] = table
    c['custom_progress'] = yes()
    c['intervals'] = [[draw(small), draw(st.integers(4, 9)), draw(st.one_of(st.none(), st.integers(0, 5)))] for _ in range(2)]
    skill = st.dictionaries(st.sampled_from(['s1', 's2', 's3']), st.integers(0, 3), max_size=3)
    c['skills'] = None
    if yes():
        c['skills'] = [{r: draw(skill) for r in names}, [[t, [[m, draw(skill)] for m in modes[t]]] for t in ids]]
    lag = st.tuples(st.sampled_from(['both', 'min', 'max']), small, st.integers(4, 9))
    c['lags'] = [[i, j, list(draw(lag))] for i in ids for j in ids if i != j and draw(st.integers(0, 3)) == 0] if yes() else None
    kinds = ['TimeWindow', 'ClassicTimeWindow', 'StartFromOnlyTimeWindow', 'StartBeforeOnlyTimeWindow', 'EndFromOnlyTimeWindow',
             'EndBeforeOnlyTimeWindow', 'StartTimeWindow', 'EndTimeWindow', 'EmptyTimeWindow']
    c['windows'] = {str(t): [draw(st.sampled_from(kinds)), draw(st.lists(st.integers(1, 9), min_size=4, max_size=4))] for t in ids} if yes() else None
    c['prealloc'] = {str(t): draw(st.lists(st.sampled_from(names or ['x']), max_size=2)) for t in ids if yes()} if yes() else None
    c['conditions'] = None
    if yes():
        items = st.lists(st.sampled_from(['A', 'B', 'C']), max_size=2, unique=True)
        c['conditions'] = dict(exist={str(t): draw(items) for t in ids if yes()},
                               add={str(t): [draw(st.lists(st.tuples(st.sampled_from(['OK', 'A', 'B', 'C']), st.integers(1, 4)).map(list), min_size=1, max_size=3,
                                                           unique_by=lambda x: x[0])) for _ in range(draw(st.integers(0, 2)))] for t in ids if yes()},
                               current=draw(items))
    c['availability'] = draw(st.sampled_from(['uncertain', 'deterministic', 'constant']))
    c['quantities'] = {r: draw(st.lists(small, min_size=4, max_size=4)) for r in names}
    c['mode_costs'] = yes()
    c['costs'] = {r: draw(small) for r in names} if yes() else None
    c['status'] = [draw(st.sampled_from(['remaining', 'complete', 'ongoing'])) for _ in ids]
    return c


WINDOW = {'TimeWindow': (0, 1, 2, 3), 'ClassicTimeWindow': (0, None, None, 1), 'StartFromOnlyTimeWindow': (0, None, None, None),
          'StartBeforeOnlyTimeWindow': (None, 0, None, None), 'EndFromOnlyTimeWindow': (None, None, 0, None), 'EndBeforeOnlyTimeWindow': (None, None, None, 0),
          'StartTimeWindow': (0, 1, None, None), 'EndTimeWindow': (None, None, 0, 1), 'EmptyTimeWindow': (None, None, None, None)}
ARGS = {k: len([x for x in v if x is not None]) for k, v in WINDOW.items()}
LEVEL = dict(simulated=TD.SimulatedTaskDuration, multivariate=TD.UncertainMultivariateTaskDuration, univariate=TD.UncertainUnivariateTaskDuration,
             bounded=TD.UncertainBoundedTaskDuration, uniform=TD.UniformBoundedTaskDuration, enumerable=TD.EnumerableTaskDuration, deterministic=TD.DeterministicTaskDuration)
RESUME = {0: PM.ResumeType.NA, 1: PM.ResumeType.Restart, 2: PM.ResumeType.Resume}


def mode_cost(t, m):
    return float(10 * t + m)


def build(c, drawn):
    """The domain; drawn logs what its simulator drew."""
    ids = c['ids']
    d = {'_get_max_horizon': lambda s: c['horizon'], '_get_objectives': lambda s: [], '_get_tasks_ids': lambda s: set(ids)}
    bases = []
    if c['arcs'] is None:
        bases.append(PR.WithoutPrecedence)
    else:
        bases.append(PR.WithPrecedence)
        succ = {t: [b for a, b in c['arcs'] if a == t] for t in ids}
        if c['sparse']:
            succ = {t: v for t, v in succ.items() if v}
        d['_get_successors'] = lambda s: {t: list(v) for t, v in succ.items()}
    if c['types'] is None:
        bases.append(RT.WithoutResourceTypes)
    else:
        bases.append(RT.WithResourceTypes)
        d['_get_resource_types_names'] = lambda s: list(c['types'])
    if c['units'] is None:
        bases.append(RT.WithoutResourceUnit)
    elif c['units'] == 'single':
        bases.append(RT.SingleResourceUnit)
    else:
        bases.append(RT.WithResourceUnits)
        d['_get_resource_units_names'] = lambda s: list(c['units'])
        d['_get_resource_type_for_unit'] = lambda s: dict(c['unit_types'])
    if c['renew'] is None:
        bases.append(RR.RenewableOnly)
    else:
        bases.append(RR.MixedRenewable)
        d['_get_resource_renewability'] = lambda s: dict(c['renew'])
    kind = MO.VaryingModeConsumption if c['varying'] else MO.ConstantModeConsumption
    modes = {t: {m: kind({r: list(v) if c['varying'] else v for r, v in need.items()}) for m, need in ms} for t, ms in c['modes']}
    if c['single_mode']:
        bases.append(MO.SingleMode)
        d['_get_tasks_mode'] = lambda s: {t: modes[t][1] for t in modes}
    else:
        bases.append(MO.MultiMode)
        d['_get_tasks_modes'] = lambda s: modes
    if c['preempt'] is None:
        bases.append(PM.WithoutPreemptivity)
    else:
        bases.append(PM.WithPreemptivity)
        d['_get_task_preemptivity'] = lambda s: {int(t): v[0] for t, v in c['preempt'].items()}
        d['_get_task_resuming_type'] = lambda s: {int(t): RESUME[v[1]] for t, v in c['preempt'].items()}
        d['_get_task_paused_non_renewable_resource_returned'] = lambda s: {int(t): v[2] for t, v in c['preempt'].items()}
    table = {(t, m, q): (lo, hi, w) for t, m, q, lo, hi, w in c['durations']}
    bases.append(LEVEL[c['level']])

    def distribution(s, task, mode=1, progress_from=0., multivariate_settings=None):
        lo, hi, w = table[task, mode, progress_from]
        return DiscreteDistribution([(x, w[x - lo]) for x in range(lo, hi + 1)])

    def simulate(s, task, mode=1, progress_from=0.):
        lo, hi, w = table[task, mode, progress_from]
        drawn.append((task, mode, progress_from))
        return lo + len(drawn) % (hi - lo + 1)
    lower = lambda s, task, mode=1, progress_from=0.: table[task, mode, progress_from][0]
    upper = lambda s, task, mode=1, progress_from=0.: table[task, mode, progress_from][1]
    level = c['level']
    if level == 'simulated':
        d['_sample_task_duration'] = simulate
    elif level == 'deterministic':
        d['_get_task_duration'] = lower
    elif level == 'uniform':
        d['_get_task_duration_lower_bound'], d['_get_task_duration_upper_bound'] = lower, upper
    else:
        d['_get_task_duration_distribution'] = distribution
        if level == 'bounded':
            d['_get_task_duration_lower_bound'], d['_get_task_duration_upper_bound'] = lower, upper
    if c['custom_progress']:
        bases.append(TP.CustomTaskProgress)
        d['_get_task_progress'] = lambda s, task, t_from, t_to, mode, sampled_duration=None: ('asked', task, t_from, t_to, mode, sampled_duration)
    else:
        bases.append(TP.DeterministicTaskProgress)
    if c['skills'] is None:
        bases.append(SK.WithoutResourceSkills)
    else:
        bases.append(SK.WithResourceSkills)
        d['_get_all_resources_skills'] = lambda s: {r: dict(v) for r, v in c['skills'][0].items()}
        d['_get_all_tasks_skills'] = lambda s: {t: {m: dict(v) for m, v in ms} for t, ms in c['skills'][1]}
    if c['lags'] is None:
        bases.append(TL.WithoutTimeLag)
    else:
        bases.append(TL.WithTimeLag)

        def lags(s):
            r = {}
            for i, j, (k, lo, hi) in c['lags']:
                r.setdefault(i, {})[j] = TL.TimeLag(lo, hi) if k == 'both' else TL.MinimumOnlyTimeLag(lo) if k == 'min' else TL.MaximumOnlyTimeLag(hi)
            return r
        d['_get_time_lags'] = lags
    if c['windows'] is None:
        bases.append(TW.WithoutTimeWindow)
    else:
        bases.append(TW.WithTimeWindow)
        d['_get_time_window'] = lambda s: {int(t): getattr(TW, k)(*(v[:ARGS[k]] + [s.get_max_horizon()])) for t, (k, v) in c['windows'].items()}
    if c['prealloc'] is None:
        bases.append(PA.WithoutPreallocations)
    else:
        bases.append(PA.WithPreallocations)
        d['_get_preallocations'] = lambda s: {int(t): list(v) for t, v in c['prealloc'].items()}
    if c['conditions'] is None:
        bases.append(CT.WithoutConditionalTasks)
    else:
        k = c['conditions']
        bases.append(CT.WithConditionalTasks)
        d['_get_all_condition_items'] = lambda s: ITEM
        d['_get_task_on_completion_added_conditions'] = lambda s: {int(t): [DiscreteDistribution([(ITEM[x], w) for x, w in dist]) for dist in v] for t, v in k['add'].items()}
        d['_get_task_existence_conditions'] = lambda s: {int(t): [ITEM[x] for x in v] for t, v in k['exist'].items()}
    if c['availability'] == 'uncertain':
        bases.append(RA.UncertainResourceAvailabilityChanges)
        d['_sample_quantity_resource'] = lambda s, resource, time, **kw: c['quantities'][resource][time % 4]
    elif c['availability'] == 'deterministic':
        bases.append(RA.DeterministicResourceAvailabilityChanges)
        d['_get_quantity_resource'] = lambda s, resource, time, **kw: c['quantities'][resource][time % 4]
    else:
        bases.append(RA.WithoutResourceAvailabilityChange)
        d['_get_original_quantity_resource'] = lambda s, resource, **kw: c['quantities'][resource][0]
    if c['mode_costs']:
        bases.append(RC.WithModeCosts)
        d['_get_mode_costs'] = lambda s: {t: {m: mode_cost(t, m) for m in modes[t]} for t in modes}
    else:
        bases.append(RC.WithoutModeCosts)
    if c['costs'] is None:
        bases.append(RC.WithoutResourceCosts)
    else:
        bases.append(RC.WithResourceCosts)
        d['_get_resource_cost_per_time_unit'] = lambda s: dict(c['costs'])
    own = tuple(b for b in bases if b not in SchedulingDomain.__bases__)  # the most general blocks are those of the class itself
    return type('Assembled', own + (SchedulingDomain,), d)(), modes, table


def close_sets(arcs, ids):
    """All tasks before each one."""
    before = {t: {a for a, b in arcs if b == t} for t in ids}
    for _ in ids:
        for t in ids:
            for a in list(before[t]):
                before[t] |= before[a]
    return before


def check(c, ctx):
    drawn = []
    dom, modes, table = build(c, drawn)
    ids = c['ids']
    arcs = c['arcs'] or []
    declared = [c[k] is not None for k in ('arcs', 'types', 'renew', 'preempt', 'skills', 'lags', 'windows', 'prealloc', 'conditions', 'costs')]
    ctx.nontrivial(any(declared) and not all(declared))
    ctx.label('duration:' + c['level'], 'availability:' + c['availability'], 'units:%s' % (c['units'] if not isinstance(c['units'], list) else 'several'))
    dom.initialize_domain()
    # precedence
    asset = lambda m: {t: sorted(v) for t, v in m.items() if v}
    before, after = {}, {}
    for a, b in arcs:
        before.setdefault(b, []).append(a)
        after.setdefault(a, []).append(b)
    eq(asset(dom.get_successors()), asset(after), 'successors')
    eq(asset(dom.get_predecessors()), asset(before), 'predecessors')
    eq(set(dom.get_predecessors()), set(ids), 'tasks whose predecessors are known')
    for t in ids:
        eq(sorted(dom.get_predecessors_task(t)), sorted(before.get(t, [])), 'predecessors of task %d' % t)
        if c['arcs'] is None or not c['sparse']:
            eq(sorted(dom.get_successors_task(t)), sorted(after.get(t, [])), 'successors of task %d' % t)
    full = close_sets(arcs, ids)
    eq(asset(dom.ancestors), asset(before), 'direct predecessors in the graph')
    eq(asset(dom.successors), asset(after), 'direct successors in the graph')
    eq({t: set(v) for t, v in dom.full_predecessors.items()}, full, 'all predecessors')
    eq({t: set(v) for t, v in dom.full_successors.items()}, {t: {x for x in ids if t in full[x]} for t in ids}, 'all successors')
    g = dom.compute_graph()
    eq(sorted(g.get_nodes()), sorted(ids), 'nodes of the graph')
    eq(sorted(g.get_edges()), sorted(tuple(a) for a in arcs), 'edges of the graph')
    for t in ids:
        for m in modes[t]:
            lo, hi, _ = table[t, m, 0.]
            require(lo <= g.get_attr_node(t, m) <= hi, 'duration of task %d in mode %d is %r in the graph, out of %d..%d', t, m, g.get_attr_node(t, m), lo, hi)
    state = State(task_ids=list(ids), tasks_available={t for t, x in zip(ids, c['status']) if x == 'remaining'})
    state.tasks_complete = {t for t, x in zip(ids, c['status']) if x == 'complete'}
    state.tasks_ongoing = {t for t, x in zip(ids, c['status']) if x == 'ongoing'}
    free = [t for t in ids if t in state.tasks_remaining and set(before.get(t, [])) <= state.tasks_complete]
    eq(sorted(dom.task_possible_to_launch_precedence(state)), sorted(free), 'tasks which precedence allows')
    eq(sorted(dom.task_modes_possible_to_launch(state)), sorted((t, m) for t in free for m in modes[t]), 'tasks and modes which precedence allows')
    # resources
    types = c['types'] or []
    units = ['single_resource'] if c['units'] == 'single' else c['units'] or []
    eq(list(dom.get_resource_types_names()), types, 'resource types')
    eq(list(dom.get_resource_units_names()), units, 'resource units')
    eq(dict(dom.get_resource_type_for_unit()), c['unit_types'], 'types of units')
    names = types + units
    eq(dom.check_unique_resource_names(), len(set(names)) == len(names) > 0, 'names of resources are unique (%r)' % names)
    renew = c['renew'] if c['renew'] is not None else {r: True for r in names}
    eq(dict(dom.get_resource_renewability()), renew, 'renewability')
    for r in names:
        eq(dom.is_renewable(r), renew[r], 'renewability of ' + r)
        for time in range(6):
            q = c['quantities'][r][0 if c['availability'] == 'constant' else time % 4]
            eq(dom.sample_quantity_resource(r, time), q, 'quantity of %s at %d (sampled)' % (r, time))
            if c['availability'] != 'uncertain':
                eq(dom.get_quantity_resource(r, time), q, 'quantity of %s at %d' % (r, time))
        if c['availability'] == 'constant':
            eq(dom.get_original_quantity_resource(r), c['quantities'][r][0], 'original quantity of ' + r)
    # modes
    eq({t: sorted(v) for t, v in dom.get_tasks_modes().items()}, {t: sorted(v) for t, v in modes.items()}, 'modes')
    need = {(t, m): x for t, ms in c['modes'] for m, x in ms}
    for (t, m), x in need.items():
        eq(sorted(dom.get_task_modes(t)), sorted(modes[t]), 'modes of task %d' % t)
        eq(sorted(dom.get_ressource_names_for_task_mode(t, m)), sorted(x), 'resources named by task %d in mode %d' % (t, m))
        one = dom.get_task_modes(t)[m]
        for time in range(5):
            at = {r: (x.get(r, [0] * 5)[time] if c['varying'] else x.get(r, 0)) for r in names + ['unknown']}
            for r in at:
                eq(dom.get_task_consumption(t, m, r, time), at[r], 'need of %s by task %d in mode %d, %d after its start' % (r, t, m, time))
                eq(one.get_resource_need_at_time(r, time), at[r], 'need of %s in the mode' % r)
            eq(sorted(one.get_non_zero_ressource_need_names(time)), sorted(r for r in at if at[r] > 0), 'resources needed by task %d in mode %d, %d after its start' % (t, m, time))
    # preemption
    pre = {int(t): v for t, v in c['preempt'].items()} if c['preempt'] is not None else {t: [False, 0, True] for t in ids}
    eq(dict(dom.get_task_preemptivity()), {t: v[0] for t, v in pre.items()}, 'tasks which can be paused')
    eq(dict(dom.get_task_resuming_type()), {t: RESUME[v[1]] for t, v in pre.items()}, 'ways of resuming')
    eq(dict(dom.get_task_paused_non_renewable_resource_returned()), {t: v[2] for t, v in pre.items()}, 'resources returned when paused')
    # durations
    for (t, m, q), (lo, hi, w) in table.items():
        what = 'of task %d in mode %d from progress %s' % (t, m, q)
        span = range(lo, hi + 1)
        if c['level'] == 'simulated':
            got = dom.sample_task_duration(t, m, q)
            require(got in span, 'duration %s: got %r, simulated in %d..%d', what, got, lo, hi)
            n = len(drawn)
            eq(dom.get_latest_sampled_duration(t, m, q), got, 'latest sampled duration ' + what)
            eq(dom.sample_task_duration(t, m, q), got, 'sampled duration ' + what + ', once stored')
            eq(len(drawn), n, 'draws for a stored duration')
            eq(drawn.count((t, m, q)), 1, 'draws of the duration ' + what)
            continue
        for _ in range(4):
            got = dom.sample_task_duration(t, m, q)
            require(got in span, 'duration sampled %s: got %r, declared %d..%d', what, got, lo, hi)
            require(dom.get_latest_sampled_duration(t, m, q) in span, 'latest duration %s out of %d..%d', what, lo, hi)
        weights = [1] * len(span) if c['level'] in ('uniform', 'deterministic') else w[:len(span)]
        got = {}
        for v, p in dom.get_task_duration_distribution(t, m, q).get_values():
            got[v] = got.get(v, 0) + p
        eq(sorted(got), list(span), 'possible durations ' + what)
        total = sum(got.values())
        for x, y in zip(span, weights):
            close(got[x] / total, y / sum(weights), 'probability of duration %d %s' % (x, what))
        if c['level'] in ('uniform', 'deterministic'):
            close(total, 1, 'sum of the probabilities of durations')
        if c['level'] in ('bounded', 'uniform', 'enumerable', 'deterministic'):
            eq(dom.get_task_duration_lower_bound(t, m, q), lo, 'lower bound of the duration ' + what)
            eq(dom.get_task_duration_upper_bound(t, m, q), hi, 'upper bound of the duration ' + what)
        if c['level'] == 'deterministic':
            eq(dom.get_task_duration(t, m, q), lo, 'duration ' + what)
    # progress
    for t in ids:
        for m in modes[t]:
            for a, b, s in c['intervals']:
                if c['custom_progress']:
                    eq(dom.get_task_progress(t, a, b, m, s), ('asked', t, a, b, m, s), 'progress')
                    continue
                lo, hi, _ = table[t, m, 0.]
                can = [s] if s is not None else [dom.get_latest_sampled_duration(t, m)] if c['level'] == 'simulated' else range(lo, hi + 1)
                got = dom.get_task_progress(t, a, b, m, s)
                require(any(abs(got - (1 if x == 0 else (b - a) / x)) < 1e-9 for x in can), 'progress of task %d between %d and %d is %r with a duration in %r', t, a, b, got, list(can))
    # skills
    have = c['skills'][0] if c['skills'] else {}
    want = {(t, m): x for t, ms in c['skills'][1] for m, x in ms} if c['skills'] else {}
    eq(dict(dom.get_all_resources_skills()), have, 'skills of resources')
    eq(set(dom.get_skills_names()), {s for v in list(have.values()) + list(want.values()) for s in v}, 'names of skills')
    for t, m in need:
        needs = {s: k for s, k in want.get((t, m), {}).items() if k > 0}
        eq(dict(dom.get_skills_of_task(t, m)), needs, 'skills of task %d in mode %d' % (t, m))
        for used in ([], names[:1], names):
            ok = all(sum(have.get(r, {}).get(s, 0) for r in set(used)) >= k for s, k in needs.items())
            eq(dom.check_if_skills_are_fulfilled(t, m, {r: 1 for r in used}), ok, 'skills of task %d in mode %d are covered by %r' % (t, m, used))
        if c['skills']:
            able = [r for r in have if all(have[r].get(s, 0) >= k for s, k in needs.items())]
            eq(sorted(dom.find_one_ressource_to_do_one_task(t, m), key=str), sorted(able) if needs else [None], 'resources able to do task %d in mode %d alone' % (t, m))
    for r in names:
        eq(dict(dom.get_skills_of_resource(r)), have.get(r, {}), 'skills of ' + r)
    # time lags and windows
    got = {(i, j): x for i, v in dom.get_time_lags().items() for j, x in v.items()}
    eq(set(got), {(i, j) for i, j, _ in c['lags'] or []}, 'pairs of tasks with a time lag')
    for i, j, (k, lo, hi) in c['lags'] or []:
        eq(got[i, j].minimum_time_lag, 0 if k == 'max' else lo, 'minimum time lag from %d to %d (%s)' % (i, j, k))
        if k == 'min':
            require(got[i, j].maximum_time_lags is None or got[i, j].maximum_time_lags >= c['horizon'], 'a maximum time lag of %r when only a minimum is given', got[i, j].maximum_time_lags)
        else:
            eq(got[i, j].maximum_time_lags, hi, 'maximum time lag from %d to %d (%s)' % (i, j, k))
    got = dom.get_time_window()
    eq(set(got), set(ids), 'tasks with a time window')
    for t in ids:
        k, v = c['windows'][str(t)] if c['windows'] is not None else ('EmptyTimeWindow', [])
        bounds = [v[x] if x is not None else loose for x, loose in zip(WINDOW[k], (0, c['horizon'], 0, c['horizon']))]
        eq([got[t].earliest_start, got[t].latest_start, got[t].earliest_end, got[t].latest_end], bounds, 'window of task %d, a %s%r' % (t, k, v))
    eq({int(t): list(v) for t, v in dom.get_preallocations().items()}, {int(t): v for t, v in (c['prealloc'] or {}).items()}, 'preallocations')
    # conditions
    k = c['conditions'] or dict(exist={}, add={}, current=[])
    exist = {int(t): {ITEM[x] for x in v} for t, v in k['exist'].items()}
    eq({t: set(v) for t, v in dom.get_task_existence_conditions().items()}, exist, 'conditions of tasks')
    eq(dom.get_all_condition_items(), ITEM if c['conditions'] is not None else None, 'condition items')
    eq(set(dom.get_all_unconditional_tasks()), {t for t in ids if not exist.get(t)}, 'unconditional tasks')
    current = {ITEM[x] for x in k['current']}
    state._current_conditions = set(current)
    eq(set(dom.get_available_tasks(state)), {t for t in ids if exist.get(t, set()) <= current}, 'tasks available under %r' % current)
    eq(set(dom.get_task_on_completion_added_conditions()), {int(t) for t in k['add']}, 'tasks which add conditions')
    for t, dists in k['add'].items():
        got = dom.sample_completion_conditions(int(t))
        eq(len(got), len(dists), 'conditions drawn at the end of task ' + t)
        for x, dist in zip(got, dists):
            require(x.name in [i for i, _ in dist], 'condition %r drawn at the end of task %s, not one of %r', x, t, dist)
        old = set(state._current_conditions)
        dom.add_to_current_conditions(int(t), state)
        require(old <= state._current_conditions, 'conditions %r were forgotten', old - state._current_conditions)
        new = {x.name for x in state._current_conditions - old}
        require(new <= {i for dist in dists for i, _ in dist}, 'conditions %r added at the end of task %s', new, t)
        for dist in dists:
            require({i for i, _ in dist} & {x.name for x in state._current_conditions}, 'none of the conditions %r added at the end of task %s', dist, t)
    # costs
    eq(dom.get_mode_costs(), {t: {m: mode_cost(t, m) if c['mode_costs'] else 0. for m in modes[t]} for t in modes}, 'costs of modes')
    eq(dict(dom.get_resource_cost_per_time_unit()), c['costs'] if c['costs'] is not None else {r: 0. for r in names}, 'costs of resources')
    # the start of an episode
    s = dom.get_initial_state()
    eq((s.t, set(s.tasks_remaining), set(s.tasks_complete), set(s.tasks_ongoing), set(s.tasks_paused)), (0, {t for t in ids if not exist.get(t)}, set(), set(), set()), 'initial state')
    eq(dict(s.resource_availability), {r: c['quantities'][r][0] for r in names}, 'initial quantities')
    eq(dict(s.resource_used), {r: 0 for r in names}, 'resources used at the start')


SUBCHECKS = [Sub('declarations', cases, check, 2400, 15000, 'some block declares and some other one defaults')]
