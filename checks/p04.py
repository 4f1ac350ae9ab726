"""LRTDP (C++): labelled policies are near-optimal, values never exceed the optimum, budgets and forgetting respected."""
from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require
from checks.p01 import tables
from checks.p03 import world_cases, judge, bounded, ASSUMPTIONS as SAME

RULE = 'the policy of a root meets at least three states and some state has two actions'
RULE_BUDGET = 'the planner stops with fewer rollouts than labelling would need, or a depth limit below the number of states'
RULE_ONLINE = 'at least two actions executed in a world with two actions somewhere'
ASSUMPTIONS = SAME + ['with limits or without labels, only bounds are claimed',
                      'forgetting states is used as the framework does: an action is asked after each planning step']


def check(case, ctx):
    world = case['world']
    n = len(world)
    best = cpp.optimal(world, case['discount'])
    params = {'discount': case['discount'], 'epsilon': case['epsilon'], 'debug': case['debug'], 'rollouts': 1000000}
    questions = [o for op in case['ops'] for o in [op] + cpp.dump(n)]
    answers = cpp.run('LRTDP', world, params, questions, parallel=case.get('parallel', False))
    solved = []
    for op, a, table in tables(case, answers):
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        if op[0] == 'C':
            require(not any(t[0] for t in table), 'solutions left after clear(): %s', table)
            solved = []
            continue
        if world[op[1]]['goal']:
            continue
        solved.append(op[1])
        bounded(case, table, best, 'after solving from %d' % op[1])
        for root in solved:
            require(table[root][0], 'no solution is defined for root %d after solving from %d', root, op[1])
            met = judge(case, table, root, best, 'after solving from %d' % op[1])
            ctx.nontrivial(len(met) > 2 and any(len(w['acts']) > 1 for w in world))
    ctx.label('several roots' if len(set(solved)) > 1 else None, 'discounted' if case['discount'] < 1 else None)


@st.composite
def budget_cases(draw):
    case = draw(world_cases())
    return dict(case, labels=int(draw(st.booleans())), rollouts=draw(st.integers(1, 40)), depth=draw(st.integers(1, 12)))


def check_budget(case, ctx):
    world = case['world']
    n = len(world)
    best = cpp.optimal(world, case['discount'])
    params = {k: case[k] for k in ('discount', 'epsilon', 'debug', 'labels', 'rollouts', 'depth')}
    questions = [o for op in case['ops'] for o in [op] + cpp.dump(n) + [['N']]]
    answers = cpp.run('LRTDP', world, params, questions)
    step = 2 + 3 * n
    for i, op in enumerate(case['ops']):
        a, rest, (states, rollouts) = answers[i * step], answers[i * step + 1:(i + 1) * step - 1], answers[(i + 1) * step - 1].values
        table = cpp.read_dump(rest, n)
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        require(states <= n, '%d states explored in a world of %d', states, n)
        if op[0] == 'C':
            continue
        root = op[1]
        bounded(case, table, best, 'after solving from %d' % root)
        if world[root]['goal']:
            continue
        require(table[root][0], 'no action for root %d after solving from it', root)
        require(rollouts <= case['rollouts'], '%d rollouts with a budget of %d', rollouts, case['rollouts'])
        if case['labels'] and rollouts < case['rollouts']:  # stopped because the root is labelled
            judge(case, table, root, best, 'stopped after %d rollouts from %d' % (rollouts, root))
        else:
            ctx.label('budget used up')
        if not case['labels'] and not any(o[0] == 'S' and o[1] == root for o in case['ops'][:i]):
            require(rollouts == case['rollouts'], 'without labels, %d rollouts instead of %d', rollouts, case['rollouts'])
        ctx.nontrivial((rollouts == case['rollouts'] or case['depth'] < n) and len(reached(world, root)) > 2)


def reached(world, root):
    seen, stack = {root}, [root]
    while stack:
        for a in world[stack.pop()]['acts']:
            for _, t, _ in a:
                if t not in seen:
                    seen.add(t)
                    stack.append(t)
    return seen


@st.composite
def online_cases(draw):
    case = draw(world_cases())
    world = case['world']
    places = st.sampled_from([i for i, s in enumerate(world) if not s['goal']] or [0])
    starts = draw(st.lists(st.tuples(places, st.integers(0, 3).map(lambda x: int(x == 0))).map(list), min_size=1, max_size=3))
    walk = draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0, 0, 1, 2])).map(list), min_size=1, max_size=8))
    return dict(case, starts=starts, walk=walk)


def check_online(case, ctx):
    """Plans and acts along trajectories, forgetting the states left behind: what it does next stays near-optimal.

    The trajectory is drawn beforehand (best actions of the world, any of their outcomes), since operations are sent all at once.
    """
    world, discount = case['world'], case['discount']
    n = len(world)
    best = cpp.optimal(world, discount)
    params = {'discount': discount, 'epsilon': case['epsilon'], 'debug': case['debug'], 'garbage': 1, 'rollouts': 1000000}
    questions, acted = [], 0
    for start, clear in case['starts']:
        s = start
        if clear:
            questions.append(['C'])
        for w, other in case['walk']:
            if world[s]['goal']:
                break
            questions += [['S', s], ['P'], ['B', s], ['N']]
            a = min(range(len(world[s]['acts'])), key=lambda a: cpp.q_value(best, world[s]['acts'][a], discount))
            if other:
                a = other % len(world[s]['acts'])
            s = world[s]['acts'][a][w % len(world[s]['acts'][a])][1]
            acted += 1
    answers = cpp.run('LRTDP', world, params, questions)
    for i, (op, a) in enumerate(zip(questions, answers)):
        require(a.error is None, 'operation %d, %s failed: %s', i, op, a.error)
        if op[0] != 'S':
            continue
        s, policy, action, states = op[1], answers[i + 1].values, answers[i + 2].value, answers[i + 3].values[0]
        table = [(False, None, None)] * n
        for x, act, value in zip(policy[::3], policy[1::3], policy[2::3]):
            table[int(x)] = (True, int(act), value)
        bounded(case, table, best, 'at operation %d' % i)
        judge(case, table, s, best, 'at operation %d' % i)
        require(action == table[s][1], 'action %d in state %d, but %s in the policy', action, s, table[s][1])
        require(states <= len(reached(world, s)), '%d states kept after acting in %d, from which %d can be reached',
                states, s, len(reached(world, s)))
    ctx.label('new episode' if len(case['starts']) > 1 else None)
    ctx.nontrivial(acted > 1 and any(len(w['acts']) > 1 for w in world))


SUBCHECKS = [Sub('policies', world_cases, check, quick=500, rule=RULE),
             Sub('budgets', budget_cases, check_budget, quick=400, rule=RULE_BUDGET),
             Sub('online', online_cases, check_online, quick=300, rule=RULE_ONLINE)]
