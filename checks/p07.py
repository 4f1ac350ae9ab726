"""MCTS (C++): legal play only, exact budgets, estimates within the returns that are possible, nothing kept from earlier episodes."""
from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require

RULE = 'at least three states explored and some explored state has two actions'
RULE_EPISODE = 'at least two actions executed, in a world with two actions somewhere'
ASSUMPTIONS = ['every state that is not terminal has an action; solving starts from states that are not terminal',
               'sampled and stepped transitions are deterministic, as the planner announces',
               'estimates are bounded in loop-free worlds, with a depth limit beyond their longest path',
               'convergence to the optimum is not claimed (estimates average over rollouts, several times along shared ancestors)']


def terminals(draw, world):
    """Goals are terminal; some other states are, with or without actions."""
    for s in world:
        s['term'] = s['goal'] or not s['acts'] or draw(st.integers(0, 7)) == 0
    if all(s['term'] for s in world):
        world[0]['term'] = world[0]['goal'] = False
    return world


@st.composite
def layered(draw, random_outcomes):
    """Loop-free worlds with costs of both signs."""
    n = draw(st.integers(2, 9))
    world = []
    for s in range(n):
        acts = []
        if s < n - 1:
            for _ in range(draw(st.integers(1, 3))):
                a = draw(cpp.outcomes(list(range(s + 1, n))))
                a = [[p, t, draw(st.sampled_from([1, -1])) * c] for p, t, c in a]
                acts.append(a if random_outcomes else [[1.0, a[0][1], a[0][2]]])
        elif draw(st.booleans()):
            acts.append([[1.0, 0, 1]])  # must never be taken
        world.append({'goal': s == n - 1, 'acts': acts})
    world = terminals(draw, world)
    if not world[0]['acts']:
        world[0]['acts'] = [[[1.0, n - 1, 1]]]
    return world


def returns(world, discount):
    """Least and greatest discounted return from every state and for every action of a loop-free world."""
    n = len(world)
    v = [(0.0, 0.0)] * n
    q = [[] for _ in world]
    for s in reversed(range(n)):
        if not world[s]['term']:
            q[s] = [(min(-c + discount * v[t][0] for _, t, c in a), max(-c + discount * v[t][1] for _, t, c in a)) for a in world[s]['acts']]
            v[s] = (min(x[0] for x in q[s]), max(x[1] for x in q[s]))
    return v, q


def reached(world, s):
    seen, stack = {s}, [s]
    while stack:
        x = stack.pop()
        if not world[x]['term']:
            for a in world[x]['acts']:
                for _, t, _ in a:
                    if t not in seen:
                        seen.add(t)
                        stack.append(t)
    return seen


@st.composite
def cases(draw):
    mode = draw(st.sampled_from([0, 0, 1, 2]))
    world = draw(layered(mode == 0))
    roots = [i for i, s in enumerate(world) if not s['term']]
    ops = draw(st.lists(st.one_of(*2 * [st.tuples(st.just('S'), st.sampled_from(roots))] + [st.just(('C',))]).map(list), min_size=1, max_size=4))
    return {'world': world, 'mode': mode, 'discount': draw(st.sampled_from([1.0, 0.9, 0.5])), 'rollouts': draw(st.integers(1, 60)),
            'ops': ops, 'seed': draw(st.integers(0, 10000)), 'debug': int(draw(st.integers(0, 9)) == 0)}


def check(case, ctx):
    world, n, discount = case['world'], len(case['world']), case['discount']
    v, q = returns(world, discount)
    params = {'discount': discount, 'rollouts': case['rollouts'], 'depth': 50, 'ordering': case['mode'], 'seed': case['seed'], 'debug': case['debug']}
    ops = [o for op in case['ops'] for o in ([['C']] if case['mode'] == 2 and op[0] == 'S' else []) + ([['R', op[1]]] if op[0] == 'S' else []) + [op]]
    questions = [o for op in ops for o in [op, ['P'], ['N']] + cpp.dump(n)]
    answers = cpp.run('MCTS', world, params, questions, parallel=case.get('parallel', False))
    slots = case['parallel']['capacity'] - 1 if 'parallel' in case else 0
    step = 3 + 3 * n
    allowed, visits = set(), {}
    for i, op in enumerate(ops):
        a, policy, counts = answers[i * step:i * step + 3]
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        if op[0] == 'C':
            allowed, visits = set(), {}
            require(not policy.values and counts.values[0] == 0, 'states left after clear(): %s', policy.values)
        if op[0] != 'S':
            continue
        root = op[1]
        allowed |= reached(world, root)
        states, rollouts = counts.values
        require(case['rollouts'] <= rollouts <= case['rollouts'] + slots, '%d rollouts with a budget of %d', rollouts, case['rollouts'])
        visits[root] = visits.get(root, 0) + case['rollouts']
        require(states <= len(allowed), '%d states explored, %d can be reached', states, len(allowed))
        policy = {int(s): (int(act), value) for s, act, value in zip(policy.values[::3], policy.values[1::3], policy.values[2::3])}
        table = cpp.read_dump(answers[i * step + 3:(i + 1) * step], n)
        for s in range(n):
            defined, act, value = table[s]
            require(defined == (s in policy), 'state %d has %s solution but is %s the policy', s, 'a' if defined else 'no', 'in' if s in policy else 'not in')
            if not defined:
                continue
            require(s in allowed and not world[s]['term'], 'an action is given for state %d, never met or terminal', s)
            require(policy[s] == (act, value), 'policy %s but best action and value %s in state %d', policy[s], (act, value), s)
            lo, hi = q[s][act]
            require(lo - 1e-6 <= value <= hi + 1e-6, 'action %d of state %d is worth between %r and %r, its estimate is %r', act, s, lo, hi, value)
        require(root in policy, 'no action for root %d after solving from it', root)
        if visits[root] >= sum(len(a) for a in world[root]['acts']) and not slots:  # all the actions of the root were tried
            best = max(lo for lo, _ in q[root])
            require(policy[root][1] >= best - 1e-6, 'the estimate of root %d is %r, but it has an action worth at least %r', root, policy[root][1], best)
            require(q[root][policy[root][0]][1] >= best - 1e-6, 'action %d of root %d is worth at most %r, but another one at least %r',
                    policy[root][0], root, q[root][policy[root][0]][1], best)
            ctx.label('all actions of the root tried')
        ctx.nontrivial(states > 2 and any(len(world[s]['acts']) > 1 for s in policy))
    ctx.label(('distribution', 'sample', 'step')[case['mode']])


@st.composite
def episode_cases(draw):
    mode = draw(st.sampled_from([0, 0, 1, 2, 2]))
    loops = draw(st.booleans())
    if loops:
        world = terminals(draw, draw(cpp.stochastic(acyclic=False)))
        if mode:
            for s in world:
                s['acts'] = [[[1.0, a[0][1], a[0][2]]] for a in s['acts']]
    else:
        world = draw(layered(mode == 0))
    roots = [i for i, s in enumerate(world) if not s['term']]
    return {'world': world, 'mode': mode, 'discount': draw(st.sampled_from([1.0, 0.9])), 'rollouts': draw(st.integers(1, 30)), 'garbage': int(draw(st.booleans())),
            'starts': draw(st.lists(st.sampled_from(roots), min_size=1, max_size=3)), 'steps': draw(st.integers(1, 6)),
            'depth': draw(st.integers(1, 10)), 'seed': draw(st.integers(0, 10000))}


def check_episodes(name, params, case, ctx, also=None):
    """Episodes as the framework runs them: cleared first, planning before each action; illegal actions are caught by the driver."""
    world = case['world']
    ops = [o for s in case['starts'] for o in (['C'], ['E', s, case['steps']])]
    params = dict(params, discount=case['discount'], rollouts=case['rollouts'], depth=case['depth'], garbage=case['garbage'], ordering=case['mode'], seed=case['seed'])
    answers = cpp.run(name, world, params, ops, parallel=case.get('parallel', False))
    for op, a in zip(ops, answers):
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        if op[0] == 'C':
            continue
        steps = list(zip(a.values[:-1:3], a.values[1:-1:3], a.values[2:-1:3], a.values[3::3]))
        require(len(steps) == op[2] or world[int(a.values[-1])]['term'], 'episode from %d stopped after %d of %d steps', op[1], len(steps), op[2])
        met = set()
        for s, act, kept, after in steps:
            s, act = int(s), int(act)
            met |= reached(world, s)
            require(0 <= act < len(world[s]['acts']), 'action %d in state %d', act, s)
            require(int(after) in [t for _, t, _ in world[s]['acts'][act]], 'state %d after action %d in state %d', after, act, s)
            limit = reached(world, s) if case['garbage'] else met
            require(kept <= len(limit), '%d states kept after acting in state %d, from which %d can be met', kept, s, len(limit))
            if also:
                also(s, act, kept, int(after))
        ctx.nontrivial(len(steps) > 1 and any(len(w['acts']) > 1 for w in world))
    ctx.label(('distribution', 'sample', 'step')[case['mode']] if name == 'MCTS' else None, 'forgetting' if case['garbage'] else None, 'several episodes' if len(ops) > 2 else None)


def check_mcts_episodes(case, ctx):
    check_episodes('MCTS', {}, case, ctx)


SUBCHECKS = [Sub('estimates', cases, check, quick=500, rule=RULE),
             Sub('episodes', episode_cases, check_mcts_episodes, quick=400, rule=RULE_EPISODE)]
