"""A* (C++): optimal plans from every root it is asked to solve."""
import math

from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require, close

RULE = 'a plan of at least two actions with at least one non-goal state having two actions, or an unreachable goal'
ASSUMPTIONS = ['heuristics are consistent (cost <= cost of the action + heuristic of the next state, 0 on goals)',
               'costs are positive', 'values are only claimed for states the planner says it has a solution for']


@st.composite
def cases(draw):
    world = cpp.consistent(draw(cpp.deterministic()), draw(st.sampled_from([0.0, 0.5, 1.0, 1.0])),
                           draw(st.sets(st.integers(0, 8), max_size=2)))
    return {'world': world, 'ops': draw(cpp.orders(world)), 'debug': draw(st.integers(0, 7)) == 0}


def plan_of(world, table, s):
    """Follows the best actions from a state to a goal: (cost, states met), or None when they do not lead there."""
    total, met = 0.0, [s]
    while not world[s]['goal']:
        defined, a, _ = table[s]
        if not defined or a is None:
            return None, met
        _, s, c = world[s]['acts'][a][0]
        total += c
        if s in met:
            return None, met + [s]
        met.append(s)
    return total, met


def questions(case):
    n = len(case['world'])
    return [o for op in case['ops'] for o in [op] + cpp.dump(n)]


def tables(case, answers):
    n = len(case['world'])
    step = 1 + 3 * n
    for i, op in enumerate(case['ops']):
        yield op, answers[i * step], cpp.read_dump(answers[i * step + 1:(i + 1) * step], n)


def check(case, ctx):
    world = case['world']
    best = cpp.cost_to_go(world)
    answers = cpp.run('ASTAR', world, {'debug': int(case['debug'])}, questions(case), parallel=case.get('parallel', False))
    for op, a, table in tables(case, answers):
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        if op[0] == 'C':
            require(not any(t[0] for t in table), 'solutions left after clear(): %s', table)
            continue
        root = op[1]
        if not world[root]['goal']:
            require(table[root][0] == (best[root] < math.inf), 'after solving from %d (cheapest plan %r) a solution is %sdefined for it',
                    root, best[root], '' if table[root][0] else 'not ')
        for s, (defined, action, value) in enumerate(table):
            if not defined:
                continue
            cost, met = plan_of(world, table, s)
            require(cost is not None, 'after solving from %d the actions from state %d do not lead to a goal: %s', root, s, met)
            close(cost, best[s], 'cost of the plan from state %d after solving from %d' % (s, root))
            if not world[s]['goal']:
                close(value, best[s], 'value of state %d after solving from %d' % (s, root))
        ctx.nontrivial(best[root] == math.inf or (len(plan_of(world, table, root)[1]) > 2 and any(len(w['acts']) > 1 for w in world)))
    ctx.label('several roots' if sum(o[0] == 'S' for o in case['ops']) > 1 else None,
              'unreachable' if any(o[0] == 'S' and best[o[1]] == math.inf for o in case['ops']) else None)


SUBCHECKS = [Sub('plans', cases, check, quick=600, rule=RULE)]
