"""RIW (C++): best returns and actions when features tell states apart, consistent estimates otherwise, episodes as planned."""
from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require
from checks.p07 import check_episodes, reached, terminals

RULE = 'at least three states explored and some explored state has two actions'
RULE_EPISODE = 'at least two actions executed, in a world with two actions somewhere'
ASSUMPTIONS = ['deterministic worlds without loops; solving starts from states that are not terminal',
               'best returns are claimed when one feature tells all states apart and the budget is large: for the horizon of the depth limit in trees, without limit otherwise',
               'with other features (in trees): every estimate is backed up from the explored children or is that of a pruned, terminal or deepest state']
MODES = ('sampled, by state', 'sampled, by features', 'stepped, by state', 'stepped, by features')


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


@st.composite
def worlds(draw, tree):
    n = draw(st.integers(2, 10))
    cost = st.sampled_from(draw(st.sampled_from([[0, 1, 2, 5, 0.5, 8], [0, 1, 2, -1, -3, 8], [-1, -2, -0.5, -4]])))
    world = [{'goal': False, 'acts': []} for _ in range(n)]
    for t in range(1, n):
        parents = [draw(st.integers(0, t - 1))]
        if not tree:
            parents += draw(st.lists(st.integers(0, t - 1), max_size=2))
        for s in parents:
            world[s]['acts'].insert(draw(st.integers(0, len(world[s]['acts']))), [[1.0, t, draw(cost)]])
    terminals(draw, world)
    for s in world:
        if s['term'] and draw(st.booleans()):
            s['acts'] = []
    if world[0]['term']:
        world[0]['term'] = world[0]['goal'] = False
        if not world[0]['acts']:
            world[0]['acts'] = [[[1.0, n - 1, draw(cost)]]]
    identifying = draw(st.integers(0, 3)) > 0
    bits = [[i] for i in range(n)] if identifying else [[i >> b & 1 for b in range(4)] for i in range(n)]
    extra = draw(st.integers(0, 2))
    order = draw(st.permutations(range(len(bits[0]) + extra)))
    for s, f in zip(world, bits):
        f = f + [draw(st.integers(0, 1)) for _ in range(extra)]
        s['f'] = [f[i] for i in order]
    return world, identifying


def best_returns(world, discount, horizon):
    """v[k][s]: best discounted return from s within k steps; q(k, s, a) likewise after action a."""
    v = [[0.0] * len(world)]
    for k in range(1, min(horizon, len(world)) + 1):
        v.append([0.0 if s['term'] or not s['acts'] else max(-a[0][2] + discount * v[-1][a[0][1]] for a in s['acts']) for s in world])

    def value(k, s):
        return v[min(k, len(v) - 1)][s]

    def q(k, s, a):
        _, t, c = world[s]['acts'][a][0]
        return -c + discount * value(k - 1, t)

    return value, q


@st.composite
def cases(draw):
    tree = draw(st.booleans())
    world, identifying = draw(worlds(tree))
    roots = [i for i, s in enumerate(world) if not s['term']]
    n = len(world)
    return {'world': world, 'tree': tree, 'identifying': identifying, 'mode': draw(st.integers(0, 3)),
            'discount': draw(st.sampled_from([1.0, 0.9, 0.5])), 'depth': draw(st.integers(1, 4)) if tree and draw(st.integers(0, 2)) else draw(st.sampled_from([n, n + 3, 50])),
            'rollouts': draw(st.integers(1, 8)) if draw(st.integers(0, 4)) == 0 else 100000, 'exploration': draw(st.sampled_from([0.25, 0.05, 0.75])),
            'roots': draw(st.lists(st.sampled_from(roots + [roots[0]] * 2), min_size=1, max_size=3)), 'clear': draw(st.booleans()),
            'seed': draw(st.integers(0, 10000)), 'debug': int(draw(st.integers(0, 9)) == 0)}


def depths(world, root):
    d, stack = {root: 0}, [root]
    while stack:
        s = stack.pop()
        if not world[s]['term']:
            for a in world[s]['acts']:
                if a[0][1] not in d or d[a[0][1]] > d[s] + 1:
                    d[a[0][1]] = d[s] + 1
                    stack.append(a[0][1])
    return d


def check(case, ctx):
    world, n, discount, depth = case['world'], len(case['world']), case['discount'], case['depth']
    value, q = best_returns(world, discount, depth)
    limited = depth < n
    clear = case['clear'] or limited or not case['identifying']
    params = {k: case[k] for k in ('discount', 'rollouts', 'depth', 'exploration', 'seed', 'debug')}
    questions = []
    for root in case['roots']:
        questions += ([['C']] if clear else []) + [['R', root], ['S', root], ['P'], ['N']] + [['V', s] for s in range(n)] + [['F', s] for s in range(n)]
    answers = cpp.run('RIW', world, dict(params, ordering=case['mode']), questions, parallel=case.get('parallel', False))
    slots = case['parallel']['capacity'] - 1 if case.get('parallel') else 0
    step = 4 + clear + 2 * n
    met = set()
    for i, root in enumerate(case['roots']):
        chunk = answers[i * step:(i + 1) * step]
        for a in chunk[:-2 * n]:
            require(a.error is None, 'an operation of solve %d from %d failed: %s', i, root, a.error)
        states, rollouts = chunk[2 * -n - 1].values
        policy = chunk[-2 * n - 2].values
        policy = {int(s): (int(act), v) for s, act, v in zip(policy[::3], policy[1::3], policy[2::3])}
        values = {s: a.value for s, a in enumerate(chunk[-2 * n:-n]) if a.error is None}
        defined = {s for s, a in enumerate(chunk[-n:]) if a.value}
        d = depths(world, root)
        met = set(d) if clear else met | set(d)
        require(set(values) <= met, 'states %s are known, %s can be met', sorted(values), sorted(met))
        require(states == len(values), '%d states explored, but %s have a value', states, sorted(values))
        require(set(policy) == defined, 'policy on %s, solutions defined on %s', sorted(policy), sorted(defined))
        require(rollouts <= case['rollouts'] + slots, '%d rollouts with a budget of %d', rollouts, case['rollouts'])
        require(root in defined, 'no action for root %d', root)
        for s in policy:
            require(not world[s]['term'] and 0 <= policy[s][0] < len(world[s]['acts']), 'action %d in state %d', policy[s][0], s)
            require(policy[s][1] == values[s], 'value of %d: %r, in the policy %r', s, values[s], policy[s][1])
            if not slots:
                t = world[s]['acts'][policy[s][0]][0][1]
                require(t in values, 'best action of %d leads to %d, never explored', s, t)
        complete = case['rollouts'] > 1000
        if complete and case['identifying']:
            for s in d:
                if d[s] > depth:
                    require(s not in values, 'state %d explored beyond depth %d', s, depth)
                    continue
                require(s in values, 'state %d not explored', s)
                best = value(depth - d[s], s)
                require(near(values[s], best), 'the value of %d is %r, not %r (solved from %d)', s, values[s], best, root)
                if world[s]['term'] or d[s] == depth:
                    continue
                require(s in policy, 'no action in %d (solved from %d)', s, root)
                require(near(q(depth - d[s], s, policy[s][0]), best), 'action %d of %d is worth %r, not %r', policy[s][0], s, q(depth - d[s], s, policy[s][0]), best)
            ctx.label('best returns', 'cut by depth' if max(d.values()) > depth else None)
        elif complete and case['tree']:
            edges = [(s, k, a[0][1], -a[0][2]) for s in values if not world[s]['term'] for k, a in enumerate(world[s]['acts']) if a[0][1] in values]
            known = {r for _, _, _, r in edges} | {0.0}
            for s in values:
                backed = [r + discount * values[t] for x, _, t, r in edges if x == s]
                pruned = [sum(m * discount ** j for j in range(max(0, depth - d[s]))) for m in known]
                require(any(near(values[s], x) for x in pruned + ([max(backed)] if backed else [])),
                        'value %r of state %d (depth %d) neither comes from its children (%s) nor from the least reward (%s)', values[s], s, d[s], backed, pruned)
                if world[s]['term']:
                    require(near(values[s], 0.0) or s != root and any(near(values[s], x) for x in pruned), 'terminal state %d is worth %r', s, values[s])
            ctx.label('pruned with shared features')
        ctx.nontrivial(states > 2 and any(len(world[s]['acts']) > 1 for s in policy))
    ctx.label(MODES[case['mode']], None if complete else 'small budget')


@st.composite
def episode_cases(draw):
    case = draw(cases())
    case['starts'], case['garbage'], case['steps'] = case.pop('roots'), int(draw(st.booleans())), draw(st.integers(1, 5))
    return case


def check_riw_episodes(case, ctx):
    world, depth = case['world'], case['depth']
    _, q = best_returns(world, case['discount'], depth)

    def best(s, act, kept, after):
        if case['garbage']:
            left = reached(world, after)
            require(kept <= len(left), '%d states kept after going from %d to %d, from which %d can be met', kept, s, after, len(left))
        if case['identifying'] and case['rollouts'] > 1000:
            worth = [q(depth, s, a) for a in range(len(world[s]['acts']))]
            require(near(worth[act], max(worth)), 'action %d taken in %d is worth %r, another one %r', act, s, worth[act], max(worth))
            ctx.label('best actions')
    check_episodes('RIW', {'exploration': case['exploration']}, case, ctx, best)
    ctx.label(MODES[case['mode']])


SUBCHECKS = [Sub('values', cases, check, quick=600, rule=RULE),
             Sub('episodes', episode_cases, check_riw_episodes, quick=500, rule=RULE_EPISODE)]
