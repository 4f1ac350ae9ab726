"""BFWS and IW (C++): valid plans whenever there is one, and values that are their costs."""
import math

from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require, close
from checks.p01 import plan_of, tables

RULE = 'a plan of at least two actions in a world where some state has two actions, or an unreachable goal'
ASSUMPTIONS = ['hashing by features and completeness of IW are only claimed when the features identify the state',
               'IW with remaining time: only the plan of the root is claimed to have the value announced']


@st.composite
def featured(draw, unique):
    world = draw(cpp.deterministic())
    n = len(world)
    k = draw(st.integers(1, 3))
    for i, s in enumerate(world):
        s['f'] = [draw(st.integers(0, 2)) for _ in range(k)]
        if unique:
            s['f'] = s['f'] + [i // 3, i % 3]
        s['h'] = draw(st.sampled_from([0, 1, 2, 5, 0.5]))
        s['term'] = s['goal']
    return world


@st.composite
def bfws_cases(draw):
    by_features = draw(st.booleans())
    world = draw(featured(by_features))
    return {'world': world, 'ordering': int(by_features), 'ops': draw(cpp.orders(world)), 'debug': int(draw(st.integers(0, 7)) == 0)}


@st.composite
def iw_cases(draw):
    by_features = draw(st.booleans())
    world = draw(featured(True))
    for s in world:  # states declared terminal are not expanded
        if draw(st.integers(0, 7)) == 0:
            s['term'] = True
    return {'world': world, 'ordering': int(by_features) + 2 * draw(st.integers(0, 2)),
            'ops': draw(cpp.orders(world)), 'more_time': draw(st.booleans()), 'debug': int(draw(st.integers(0, 7)) == 0)}


def reach(world):
    """Can a goal be reached from each state (nothing follows a terminal state)?"""
    return [x < math.inf for x in cpp.cost_to_go([dict(s, acts=[] if s['term'] and not s['goal'] else s['acts']) for s in world])]


def check(name, params, case, ctx):
    world = case['world']
    n = len(world)
    can = reach(world)
    questions = [o for op in case['ops'] for o in [op] + cpp.dump(n)]
    answers = cpp.run(name, world, dict(params, debug=case['debug'], ordering=case['ordering']), questions, parallel=case.get('parallel', False))
    certain = not params.get('time_budget')
    for op, a, table in tables(case, answers):
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        if op[0] == 'C':
            require(not any(t[0] for t in table), 'solutions left after clear(): %s', table)
            continue
        root = op[1]
        if not world[root]['goal']:
            require(table[root][0] == can[root], 'after solving from %d (goal %sreachable) a solution is %sdefined for it',
                    root, '' if can[root] else 'not ', '' if table[root][0] else 'not ')
        for s, (defined, action, value) in enumerate(table):
            if not defined or world[s]['goal']:
                continue
            require(can[s], 'a solution is defined for state %d, from which no goal can be reached', s)
            cost, met = plan_of(world, table, s)
            require(cost is not None, 'after solving from %d the actions from state %d do not lead to a goal: %s', root, s, met)
            if certain or s == root:
                close(value, cost, 'value of state %d after solving from %d, against the cost of its plan' % (s, root))
        ctx.nontrivial(not can[root] or (len(plan_of(world, table, root)[1]) > 2 and any(len(w['acts']) > 1 for w in world)))
    ctx.label('several roots' if sum(o[0] == 'S' for o in case['ops']) > 1 else None,
              'features as keys' if case['ordering'] % 2 else None,
              'unreachable' if any(o[0] == 'S' and not can[o[1]] for o in case['ops']) else None)


def check_bfws(case, ctx):
    check('BFWS', {}, case, ctx)


def check_iw(case, ctx):
    check('IW', {'time_budget': 3600000 if case['more_time'] else 0}, case, ctx)


SUBCHECKS = [Sub('bfws', bfws_cases, check_bfws, quick=400, rule=RULE),
             Sub('iw', iw_cases, check_iw, quick=400, rule=RULE)]
