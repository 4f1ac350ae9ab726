"""S03: the greedy policy and POMCP against exact references."""
import random

from hypothesis import strategies as st

from skdecide import (Domain, DiscreteDistribution, TransitionValue, SingleValueDistribution)
from skdecide.builders.domain import *
from skdecide.hub.solver.simple_greedy import SimpleGreedy
from skdecide.hub.solver.pomcp import POMCP
from harness.api import Sub, require, eq
from harness.tabledomain import Model, make_domain, specs, mem, Elements, CHAINS

RULE = ('Greedy: table domains of every accepted characteristic combination, all memories of one state, expected immediate '
        'reward from the declared table. POMCP: random goal POMDPs with state-revealing or aggregating observations; the chosen '
        'action is compared with an exact belief-support reference whenever an action reaches the goal in one step at a cost no '
        'other action can match.')
ASSUMPTIONS = ['ties between actions may be broken in any way', 'POMCP needs applicable actions that are the same over the belief '
               'and more search iterations than actions']

G_CH = dict(conc=st.sampled_from(['Parallel', 'Sequential']), dyn=st.sampled_from(['EnumerableTransitions', 'DeterministicTransitions']),
            events=st.sampled_from(['Actions', 'UnrestrictedActions', 'Events']), memory=st.sampled_from(['History', 'FiniteHistory', 'Markovian']),
            value=st.sampled_from(['Rewards', 'PositiveCosts']), init=st.sampled_from(CHAINS['init']), obs='FullyObservable')


@st.composite
def greedy_cases(draw):
    spec = draw(specs(ch=G_CH, max_n=4, max_na=4, weights=(1, 1, 2, 3, 4, 150)))
    return dict(spec=spec, states=draw(st.lists(st.integers(0, spec['n'] - 1), min_size=1, max_size=4)))


def greedy(case, ctx):
    spec = case['spec']
    M = Model(spec)
    cls = make_domain(spec)
    dom = cls()
    require(SimpleGreedy.check_domain(dom), 'compatible domain is rejected')
    solver = cls.solve_with(SimpleGreedy(), cls)
    for s in case['states']:
        a = solver.get_next_action(s)
        raw = mem(M, [s] if M.hist else s)
        app = M.applicable(raw)
        if M.par:
            require(isinstance(a, list) and len(a) == 1, 'parallel domain got the action %r', a)
        one = a[0] if M.par else a
        require(one in app, 'action %r is not applicable in %r (%r)', a, s, app)

        def worth(x):
            act = [x] if M.par else x
            sign = (lambda v: -abs(v)) if M.ch['value'] == 'PositiveCosts' else (lambda v: v)
            return sum(p * sign(M.value(raw, act, n)) for n, p in M.trans(raw, act))
        best = max(worth(x) for x in app)
        require(worth(one) >= best - 1e-9, 'greedy chose %r worth %s in %r, the best is %s', one, worth(one), s, best)
        ctx.nontrivial(len({round(worth(x), 9) for x in app}) > 1)
    ctx.label('dep' if spec['rdep'] else 'indep', M.ch['conc'], M.ch['memory'])


@st.composite
def pomcp_cases(draw):
    n = draw(st.integers(2, 6))
    na = draw(st.integers(1, 3))
    goal = n - 1
    cost = st.integers(1, 5)
    rows = []
    for s in range(n):
        rows.append([[draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True)), draw(cost)] for _ in range(na)])
        if draw(st.booleans()):
            rows[s][draw(st.integers(0, na - 1))] = [[goal], 1]
    reveal = draw(st.booleans())
    obs = [10 + i if reveal else draw(st.integers(0, 1)) for i in range(n)]
    obs[goal] = 99
    return dict(n=n, na=na, rows=rows, obs=obs, odep=draw(st.booleans()), init=draw(st.lists(st.integers(0, n - 2), min_size=min(2, n - 1), max_size=3, unique=True)),
                depth=draw(st.integers(2, 6)), iters=draw(st.integers(10, 40)), seed=draw(st.integers(0, 999)),
                episodes=draw(st.integers(1, 2)), flags=[draw(st.booleans()), draw(st.booleans())])


def pomcp_domain(case):
    n, na, rows, goal = case['n'], case['na'], case['rows'], case['n'] - 1

    def obs(s, a):
        if s == goal:
            return 99
        return case['obs'][s] + (1000 * (1 + a) if case['odep'] and a is not None else 0)

    class P(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized, Markovian,
            PartiallyObservable, PositiveCosts):
        def _get_initial_state_distribution_(self):
            return DiscreteDistribution([(s, 1 / len(case['init'])) for s in case['init']])

        def _get_next_state_distribution(self, memory, action):
            if memory == goal:
                return SingleValueDistribution(goal)
            nx = rows[memory][action][0]
            return DiscreteDistribution([(s, 1 / len(nx)) for s in nx])

        def _get_transition_value(self, memory, action, next_state=None):
            return TransitionValue(cost=0 if memory == goal else rows[memory][action][1])

        def _is_transition_value_dependent_on_next_state_(self):
            return False

        def _is_terminal(self, state):
            return state == goal

        def _get_observation_distribution(self, state, action=None):
            return SingleValueDistribution(obs(state, action))

        def _get_action_space_(self):
            return Elements(range(na))

        def _get_applicable_actions_from(self, memory):
            return Elements(range(na))

        def _get_goals_(self):
            return Elements([99])

        def _get_observation_space_(self):
            return Elements(sorted({obs(s, a) for s in range(n) for a in [None] + list(range(na))}))
    return P, obs


def lower_bounds(case):
    """Optimistic (best outcome) cost to go per state: a lower bound of what any search may estimate."""
    goal, inf = case['n'] - 1, float('inf')
    v = [inf] * case['n']
    v[goal] = 0
    for _ in range(case['n'] + 1):
        for s in range(case['n'] - 1):
            v[s] = min(c + min(v[x] for x in nx) for nx, c in case['rows'][s])
    return v


def update(belief, keep):
    b = {s: p for s, p in belief.items() if keep(s)}
    return {s: p / sum(b.values()) for s, p in b.items()}


def pomcp(case, ctx):
    P, obs = pomcp_domain(case)
    goal = case['n'] - 1
    random.seed(case['seed'])
    d = P()
    require(POMCP.check_domain(d), 'compatible domain is rejected')
    solver = P.solve_with(POMCP(max_iterations=case['iters'], max_depth=case['depth'], n_samples=200), P)
    low = lower_bounds(case)
    vlv = 2 * case['depth']
    for _ in range(case['episodes']):
        solver.reset()
        o = d.reset()
        B = update({s: 1.0 for s in case['init']}, lambda s: obs(s, None) == o)
        for step in range(4):
            if o == 99 or min(B.values()) < 0.12:  # a particle filter may lose unlikely states
                break
            a = solver.get_next_action(o)
            require(isinstance(a, int) and 0 <= a < case['na'], 'step %d: action %r is not applicable', step, a)

            def direct(x):
                if all(case['rows'][s][x][0] == [goal] for s in B):
                    cs = {case['rows'][s][x][1] for s in B}
                    return cs.pop() if len(cs) == 1 else None

            def least(x):
                return min(min(vlv, case['rows'][s][x][1] + min(low[t] for t in case['rows'][s][x][0])) for s in B)
            sure = [direct(x) for x in range(case['na']) if direct(x) is not None]
            if sure and min(sure) < vlv:
                ctx.label('decided')
                ctx.nontrivial(any(least(x) > min(sure) for x in range(case['na'])))
                require(least(a) <= min(sure) + 1e-9, 'step %d, possible states %s: action %d costs at least %s, another reaches the '
                        'goal at %s', step, sorted(B), a, least(a), min(sure))
            ctx.label('belief:%d' % len(B), 'step:%d' % step)
            o = d.step(a).observation
            nxt = {}
            for s, p in B.items():
                for t in case['rows'][s][a][0]:
                    nxt[t] = nxt.get(t, 0.0) + p / len(case['rows'][s][a][0])
            B = update(nxt, lambda t: obs(t, a) == o)
SUBCHECKS = [Sub('greedy', greedy_cases, greedy, quick=2400, thorough=16000, rule='non-trivial when applicable actions differ in worth'),
             Sub('pomcp', pomcp_cases, pomcp, quick=1200, thorough=4000, weight=3, cpu_limit=60,
                 rule='non-trivial when the reference singles out actions')]
