"""ILAO* (C++): policies that reach the goal at near-optimal cost, in worlds with loops."""
from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require
from checks.p01 import tables

RULE = 'the policy of a root meets at least three states and some state has two actions'
ASSUMPTIONS = ['heuristics are lower bounds of the optimal values, 0 on goals', 'costs are at least 0.5 and every state can reach a goal',
               'values and costs of policies are claimed up to 3 epsilon times the expected number of steps']


@st.composite
def world_cases(draw, discounts=(1.0, 1.0, 1.0, 0.9, 0.5)):
    discount = draw(st.sampled_from(discounts))
    world = draw(cpp.stochastic())
    world = cpp.admissible(draw, world, cpp.optimal(world, discount))
    return {'world': world, 'discount': discount, 'epsilon': draw(st.sampled_from([0.001, 0.001, 0.01, 0.0001])),
            'ops': draw(cpp.orders(world)), 'debug': int(draw(st.integers(0, 7)) == 0)}


def judge(case, table, root, best, what):
    """The policy from a root and the values along it, against the optimal ones; returns the states met."""
    world, discount, eps = case['world'], case['discount'], case['epsilon']
    got, why = cpp.evaluate(world, lambda s: table[s][1], root, discount)
    require(got is not None, '%s: the policy from %d is not a solution: %s', what, root, why)
    cost, steps, met = got
    greedy = [None if w['goal'] else min(range(len(w['acts'])), key=lambda a: cpp.q_value(best, w['acts'][a], discount)) for w in world]
    ideal, _ = cpp.evaluate(world, lambda s: greedy[s], root, discount)
    slack = 3 * eps * (max(steps, ideal[1] if ideal else 0) + 1) + 1e-6
    require(cost <= best[root] + slack, '%s: the policy from %d costs %r, more than the optimum %r', what, root, cost, best[root])
    for s in met:
        if not world[s]['goal']:
            require(abs(table[s][2] - best[s]) <= slack, '%s: value %r of state %d met from %d, optimum %r', what, table[s][2], s, root, best[s])
    return met


def bounded(case, table, best, what):
    for s, (defined, action, value) in enumerate(table):
        if value is not None and not case['world'][s]['goal'] and defined:
            require(value <= best[s] + 1e-6, '%s: value %r of state %d exceeds the optimum %r', what, value, s, best[s])


def check(case, ctx):
    world = case['world']
    n = len(world)
    best = cpp.optimal(world, case['discount'])
    params = {'discount': case['discount'], 'epsilon': case['epsilon'], 'debug': case['debug']}
    questions = [o for op in case['ops'] for o in [op] + cpp.dump(n)]
    answers = cpp.run('ILAOSTAR', world, params, questions, parallel=case.get('parallel', False))
    solved = []
    for op, a, table in tables(case, answers):
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        if op[0] == 'C':
            require(not any(t[0] for t in table), 'solutions left after clear(): %s', table)
            solved = []
            continue
        if world[op[1]]['goal']:
            continue
        solved.append(op[1])
        bounded(case, table, best, 'after solving from %d' % op[1])
        for root in solved:
            require(table[root][0], 'no solution is defined for root %d after solving from %d', root, op[1])
            met = judge(case, table, root, best, 'after solving from %d' % op[1])
            ctx.nontrivial(len(met) > 2 and any(len(w['acts']) > 1 for w in world))
    ctx.label('several roots' if len(set(solved)) > 1 else None, 'discounted' if case['discount'] < 1 else None)


SUBCHECKS = [Sub('policies', world_cases, check, quick=600, rule=RULE)]
