"""C03: events, actions, goals and observations agree with the declared sets."""
from hypothesis import strategies as st

from skdecide import Memory, SingleValueDistribution, DiscreteDistribution
from harness.api import Sub, require, eq
from harness.tabledomain import Model, make_domain, specs, raw_action, raw_memory, mem
from checks.c02 import characteristics

RULE = ('Table-defined domains with generated enabled events, action spaces, applicable actions, goals and observation '
        'models, one or several agents; every element of a superset of each space is queried.')
ASSUMPTIONS = ['applicability is asked per agent for one action each (the declared signature)']


@st.composite
def cases(draw, **force):
    ch = draw(characteristics(**force))
    spec = draw(specs(ch=ch))
    M = Model(spec)
    if M.multi:
        spec['agents'] = draw(st.lists(st.sampled_from(['zed', 'agent', 'bob']), min_size=1, max_size=3, unique=True))
        M = Model(spec)
    return dict(spec=spec, mem=draw(raw_memory(spec, M)), s=draw(st.integers(0, M.n - 1)),
                act=draw(raw_action(spec, M)),
                joint=draw(st.lists(st.tuples(*[st.integers(0, M.na) for _ in M.agents]).map(list), min_size=1, max_size=6)),
                obs=draw(st.lists(st.tuples(*[st.integers(0, M.n + 8) for _ in M.agents]).map(list), min_size=1,
                                  max_size=6)),
                part=draw(st.integers(0, 2)))


def agents_dict(M, per):
    d = dict(zip(M.agents, per))
    return d if M.multi else d['agent']


def listed(space):
    return list(space.get_elements())


def per_agent(M, v):
    return v if M.multi else {'agent': v}


def memory_variants(M, dom, raw):
    """(memory argument tuple, memory meant): explicit, and the current one by default."""
    explicit = mem(M, raw)
    dom.reset()
    cur = dom.render()[1]
    if M.ch['memory'] == 'Memoryless':
        return [((), None)]
    return [((explicit,), explicit), ((), cur)]


def check_events(case, ctx):
    spec = case['spec']
    M = Model(spec)
    dom = make_domain(spec)()
    for args, m in memory_variants(M, dom, case['mem']):
        want = M.applicable(m)
        got = dom.get_applicable_actions(*args)
        for k in M.agents:
            eq(listed(per_agent(M, got)[k]), per_agent(M, want)[k], 'applicable actions of ' + k)
        if M.multi:
            eq(set(got), set(M.agents), 'agents with applicable actions')
        yes = no = 0
        for j in case['joint']:
            a = agents_dict(M, j)
            ok = all(x in per_agent(M, want)[k] for k, x in zip(M.agents, j))
            yes, no = yes + ok, no + (not ok)
            eq(bool(dom.is_applicable_action(a, *args)), ok, 'action %r applicable in %r (listed %r)' % (a, m, want))
        ctx.label('both answers' if yes and no else 'one answer')
        # listed ones are members
        first = agents_dict(M, [per_agent(M, want)[k][-1] for k in M.agents])
        require(dom.is_applicable_action(first, *args), 'listed action %r is not applicable', first)
        enabled = M.enabled(m) if M.ch['events'] == 'Events' else []
        eq(list(dom.get_enabled_events(*args).get_elements()), enabled, 'enabled events')
        for e in range(-3, M.na + 2):
            eq(bool(dom.is_enabled_event(e, *args)), e in enabled, 'event %d enabled in %r' % (e, m))
    sp = dom.get_action_space()
    for k in M.agents:
        eq(listed(per_agent(M, sp)[k]), list(range(M.na)), 'action space')
        eq(listed(per_agent(M, dom.get_action_space())[k]), list(range(M.na)), 'action space (again)')
    if not M.multi:
        for e in range(-3, M.na + 2):
            eq(bool(dom.is_action(e)), 0 <= e < M.na, 'event %d is an action' % e)
    ctx.nontrivial(M.na > 1)


def check_goals(case, ctx):
    spec = case['spec']
    M = Model(spec)
    dom = make_domain(spec)()
    n_goal = 0
    for _ in range(2):
        got = per_agent(M, dom.get_goals())
        for i, k in enumerate(M.agents):
            eq(listed(got[k]), M.goals1(i), 'goals of ' + k)
    probe = [[x if case['part'] else x + 1000 * i for i, x in enumerate(o)] for o in case['obs']]
    if spec['goals']:
        probe.append([M.goals1(i)[-1] for i in range(len(M.agents))])
        if len(M.agents) > 1:
            probe.append([M.goals1(i)[0] if i else M.n + 5 for i in range(len(M.agents))])
            probe.append([M.goals1(i)[0] if i < len(M.agents) - 1 else -1 for i in range(len(M.agents))])
    for o in probe:
        want = all(x in M.goals1(i) for i, x in enumerate(o))
        n_goal += want
        eq(bool(dom.is_goal(agents_dict(M, o))), want, 'goal test of %r' % (o,))
    ctx.nontrivial(n_goal > 0 and n_goal < len(probe))
    for s in range(M.n):
        if hasattr(dom, 'is_terminal'):
            eq(bool(dom.is_terminal(s)), M.terminal(s), 'terminal test of %d' % s)


def check_obs(case, ctx):
    spec = case['spec']
    M = Model(spec)
    dom = make_domain(spec)()
    sp = per_agent(M, dom.get_observation_space())
    for s in range(M.n):
        for action in (None, case['act']):
            args = (s,) if action is None else (s, action)
            want = M.obs(s, action)
            d = dom.get_observation_distribution(*args)
            require(isinstance(d, DiscreteDistribution), 'observation distribution: %r', d)
            eq([(o, p) for o, p in d.get_values()], want, 'observation distribution of %r after %r' % (s, action))
            x = d.sample()
            require(any(x == o for o, _ in want), 'sampled observation out of the support')
            if M.ch['obs'] != 'PartiallyObservable':
                require(isinstance(d, SingleValueDistribution), 'deterministic observation given as %r', d)
                eq(dom.get_observation(*args), want[0][0], 'observation of %r after %r' % (s, action))
                if M.ch['obs'] == 'FullyObservable':
                    eq(dom.get_observation(*args), s, 'fully observable state')
        ok = all(M.obs(s, None)[0][0] is not None and x in listed(sp[k])
                 for k, x in per_agent(M, M.obs(s, None)[0][0]).items())
        eq(bool(dom.is_observation(M.obs(s, None)[0][0])), ok, 'observation of %d in the observation space' % s)
    for o in case['obs']:
        o = [x + 1000 * i * (case['part'] % 2) for i, x in enumerate(o)]
        want = all(x in listed(sp[k]) for k, x in zip(M.agents, o))
        eq(bool(dom.is_observation(agents_dict(M, o))), want, 'membership of %r in the observation space' % (o,))
    ctx.nontrivial(M.n > 1)
    ctx.label(M.ch['obs'], M.ch['agent'])


@st.composite
def ev_cases(draw):
    return draw(cases())


SUBCHECKS = [
    Sub('events_actions', lambda: cases(), check_events, quick=2400, thorough=8000,
        rule='listed sets and membership, explicit and current memory; non-trivial: at least two actions'),
    Sub('goals_terminal', lambda: cases(), check_goals, quick=2400, thorough=8000,
        rule='non-trivial: both goal and non-goal observations queried'),
    Sub('observations', lambda: cases(), check_obs, quick=1500, thorough=5000, rule='non-trivial: at least two states'),
]
