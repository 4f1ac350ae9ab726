"""Table-defined domains: the declared primitives of a domain come from a plain-data specification.

`Model` is the reference (pure functions on plain data); `make_domain(spec)` builds a domain class that implements
only the primitive methods a user has to write, for any combination of characteristics. Everything else is the
framework's derived behaviour, which the checks compare with `Model`.
"""
import random

from hypothesis import strategies as st

from skdecide import (Domain, Space, EnumerableSpace, SamplableSpace, DiscreteDistribution, ImplicitDistribution,
                      SingleValueDistribution, TransitionValue, TransitionOutcome, Memory, ImplicitConstraint,
                      BoundConstraint)
from skdecide.builders.domain import *

AGENTS = ['zed', 'agent', 'bob']


class Elements(EnumerableSpace, SamplableSpace):
    """A finite space, listed."""

    def __init__(self, elements):
        self.elements = list(elements)

    def get_elements(self):
        return self.elements

    def sample(self):
        return random.choice(self.elements)


DEFAULT = dict(agent='SingleAgent', conc='Sequential', dyn='DeterministicTransitions', events='Actions',
               goals=True, init='DeterministicInitialized', memory='Markovian', obs='FullyObservable',
               value='Rewards', constrained=False, renderable=False)
CLS = dict(MultiAgent=MultiAgent, SingleAgent=SingleAgent, Parallel=Parallel, Sequential=Sequential,
           Environment=Environment, Simulation=Simulation, UncertainTransitions=UncertainTransitions,
           EnumerableTransitions=EnumerableTransitions, DeterministicTransitions=DeterministicTransitions,
           Events=Events, Actions=Actions, UnrestrictedActions=UnrestrictedActions, Goals=Goals,
           Initializable=Initializable, UncertainInitialized=UncertainInitialized,
           DeterministicInitialized=DeterministicInitialized, History=History, FiniteHistory=FiniteHistory,
           Markovian=Markovian, Memoryless=Memoryless, PartiallyObservable=PartiallyObservable,
           TransformedObservable=TransformedObservable, FullyObservable=FullyObservable, Renderable=Renderable,
           Rewards=Rewards, PositiveCosts=PositiveCosts, Constrained=Constrained)
CHAINS = dict(agent=['MultiAgent', 'SingleAgent'], conc=['Parallel', 'Sequential'],
              dyn=['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions',
                   'DeterministicTransitions'],
              events=['Events', 'Actions', 'UnrestrictedActions'],
              init=['Initializable', 'UncertainInitialized', 'DeterministicInitialized'],
              memory=['History', 'FiniteHistory', 'Markovian', 'Memoryless'],
              obs=['PartiallyObservable', 'TransformedObservable', 'FullyObservable'],
              value=['Rewards', 'PositiveCosts'])


class Model:
    def __init__(self, spec):
        self.spec = spec
        self.ch = dict(DEFAULT, **spec.get('ch', {}))
        self.n = spec['n']
        self.na = spec['na']
        self.multi = self.ch['agent'] == 'MultiAgent'
        self.par = self.ch['conc'] == 'Parallel'
        self.agents = spec.get('agents', AGENTS[:2]) if self.multi else ['agent']
        self.hist = self.ch['memory'] in ('History', 'FiniteHistory')

    # ---- encodings
    def joint(self, action):
        """Effective action index of a (joint, concurrent) action."""
        acts = action if self.multi else {'agent': action}
        t = 0
        for i, k in enumerate(sorted(acts)):
            a = acts[k]
            v = sum((j + 1) * x for j, x in enumerate(a)) if self.par else a
            t += (i + 1) * v
        return t % self.na

    def eff(self, memory):
        """Effective current index of a memory."""
        if self.ch['memory'] == 'Memoryless':
            return 0
        if self.hist:
            return sum((i + 1) * s for i, s in enumerate(reversed(list(memory)))) % self.n
        return memory

    # ---- dynamics
    def trans(self, memory, action):
        """[(next, weight)] with distinct nexts."""
        row = self.spec['trans'][self.eff(memory)][self.joint(action)]
        if self.ch['dyn'] == 'DeterministicTransitions':
            return [(row[0][0], 1.0)]
        out, seen = [], set()
        for s, w in row:
            if s not in seen:
                seen.add(s)
                out.append((s, float(w)))
        tot = sum(w for _, w in out)
        return [(s, w / tot) for s, w in out]

    def reward1(self, memory, action, nxt, agent_index=0):
        r = self.spec['rew'][self.eff(memory)][self.joint(action)]
        if self.spec.get('rdep') and nxt is not None:
            r = r + nxt
        return r + agent_index

    def value(self, memory, action, nxt):
        """cost magnitude or reward per agent."""
        vals = {k: self.reward1(memory, action, nxt, i) for i, k in enumerate(self.agents)}
        return vals if self.multi else vals['agent']

    def terminal(self, s):
        return s in self.spec.get('term', [])

    def mk_value(self, v):
        f = (lambda x: TransitionValue(cost=abs(x))) if self.ch['value'] == 'PositiveCosts' else \
            (lambda x: TransitionValue(reward=x))
        return {k: f(x) for k, x in v.items()} if self.multi else f(v)

    # ---- observation
    def obs1(self, s, action, i):
        o = self.spec['obs'][s]
        if action is not None and self.spec.get('odep'):
            o = o + 100 * (1 + self.joint(action))
        return o + 1000 * i

    def obs(self, s, action):
        """[(observation, p)]."""
        if self.ch['obs'] == 'FullyObservable':
            return [(s, 1.0)]
        first = {k: self.obs1(s, action, i) for i, k in enumerate(self.agents)}
        one = lambda d: d if self.multi else d['agent']
        if self.ch['obs'] == 'TransformedObservable':
            return [(one(first), 1.0)]
        second = {k: v + 7 for k, v in first.items()}
        return [(one(first), 0.75), (one(second), 0.25)]

    # ---- events (enabled: list over memory), actions subset
    def enabled(self, memory):
        return list(self.spec['enabled'][self.eff(memory)])

    def applicable1(self, memory, i=0):
        if self.ch['events'] == 'UnrestrictedActions':
            return list(range(self.na))
        app = self.spec['app'][self.eff(memory)]
        return [a for a in app if (a + i) % 3 != 2 or len(app) < 3]

    def applicable(self, memory):
        d = {k: self.applicable1(memory, i) for i, k in enumerate(self.agents)}
        return d if self.multi else d['agent']

    def goals1(self, i=0):
        return [1000 * i + g for g in self.spec.get('goals', [])]

    def init(self):
        if self.ch['init'] == 'DeterministicInitialized':
            return [(self.spec['init'][0][0], 1.0)]
        out, seen = [], set()
        for s, w in self.spec['init']:
            if s not in seen:
                seen.add(s)
                out.append((s, float(w)))
        tot = sum(w for _, w in out)
        return [(s, w / tot) for s, w in out]

    def maxlen(self):
        return {'History': None, 'FiniteHistory': self.spec.get('maxlen', 2), 'Markovian': 1,
                'Memoryless': 0}[self.ch['memory']]

    def init_memory(self, s):
        m = self.ch['memory']
        return None if m == 'Memoryless' else s if m == 'Markovian' else Memory([s])

    def next_memory(self, memory, s):
        m = self.ch['memory']
        if m == 'Memoryless':
            return None
        if m == 'Markovian':
            return s
        ml = self.maxlen()
        content = list(memory) + [s]
        return Memory(content if ml is None else content[-ml:])


def make_domain(spec):
    M = Model(spec)
    ch = M.ch
    names = [ch[k] for k in ('agent', 'conc', 'dyn', 'events', 'init', 'memory', 'obs', 'value')]
    bases = [Domain] + [CLS[x] for x in names if CLS[x] not in Domain.__mro__]
    if ch['goals']:
        bases.append(Goals)
    if ch['constrained']:
        bases.append(Constrained)
    if ch['renderable']:
        bases.append(Renderable)
    ns = {}
    per_agent = (lambda f: {k: f(i) for i, k in enumerate(M.agents)}) if M.multi else (lambda f: f(0))
    dist = lambda vs: DiscreteDistribution([(v, p) for v, p in vs])

    def implicit(vs):
        d = dist(vs)
        return ImplicitDistribution(lambda: d.sample())

    def wrap_obs(vs):
        return dist(vs)

    if ch['dyn'] == 'Environment':
        def _state_step(self, action):
            s = dist(M.trans(self._memory, action)).sample()
            self.count = getattr(self, 'count', 0) + 1
            return TransitionOutcome(s, M.mk_value(M.value(self._memory, action, s)), M.terminal(s),
                                     per_agent(lambda i: 'i%d' % s))
        ns['_state_step'] = _state_step
    elif ch['dyn'] == 'Simulation':
        def _state_sample(self, memory, action):
            s = dist(M.trans(memory, action)).sample()
            return TransitionOutcome(s, M.mk_value(M.value(memory, action, s)), M.terminal(s),
                                     per_agent(lambda i: 'i%d' % s))
        ns['_state_sample'] = _state_sample
    else:
        if ch['dyn'] == 'DeterministicTransitions':
            ns['_get_next_state'] = lambda self, memory, action: M.trans(memory, action)[0][0]
        elif ch['dyn'] == 'EnumerableTransitions':
            ns['_get_next_state_distribution'] = lambda self, memory, action: dist(M.trans(memory, action))
        else:
            ns['_get_next_state_distribution'] = lambda self, memory, action: implicit(M.trans(memory, action))
        ns['_get_transition_value'] = lambda self, memory, action, next_state=None: \
            M.mk_value(M.value(memory, action, next_state))
        ns['_is_transition_value_dependent_on_next_state_'] = lambda self: bool(spec.get('rdep'))
        ns['_is_terminal'] = lambda self, state: M.terminal(state)
    if ch['events'] == 'Events':
        ns['_get_enabled_events_from'] = lambda self, memory: Elements(M.enabled(memory))
    ns['_get_action_space_'] = lambda self: per_agent(lambda i: Elements(range(M.na)))
    if ch['events'] != 'UnrestrictedActions':
        ns['_get_applicable_actions_from'] = lambda self, memory: per_agent(
            lambda i: Elements(M.applicable1(memory, i)))
    if ch['goals']:
        ns['_get_goals_'] = lambda self: per_agent(lambda i: Elements(M.goals1(i)))
    if ch['init'] == 'Initializable':
        ns['_state_reset'] = lambda self: dist(M.init()).sample()
    elif ch['init'] == 'UncertainInitialized':
        ns['_get_initial_state_distribution_'] = lambda self: dist(M.init())
    else:
        ns['_get_initial_state_'] = lambda self: M.init()[0][0]
    if ch['memory'] == 'FiniteHistory':
        ns['_get_memory_maxlen_'] = lambda self: M.maxlen()
    if ch['obs'] == 'PartiallyObservable':
        ns['_get_observation_distribution'] = lambda self, state, action=None: wrap_obs(M.obs(state, action))
    elif ch['obs'] == 'TransformedObservable':
        ns['_get_observation'] = lambda self, state, action=None: M.obs(state, action)[0][0]
    ns['_get_observation_space_'] = lambda self: per_agent(
        lambda i: Elements(range(M.n)) if ch['obs'] == 'FullyObservable' else
        Elements(sorted({M.obs1(s, None, i) for s in range(M.n)})))
    if ch['constrained']:
        def _get_constraints_(self):
            return [BoundConstraint(lambda m, a, s: float(M.eff(m) + 2 * M.joint(a) + (3 * s if s is not None else 0)),
                                    '<=', float(spec.get('bound', 4))),
                    ImplicitConstraint(lambda m, a, s: (M.eff(m) + M.joint(a)) % 2 == 0, False)]
        ns['_get_constraints_'] = _get_constraints_
    if ch['renderable']:
        ns['_render_from'] = lambda self, memory, **kw: ('render', memory, sorted(kw.items()))
    cls = type('TableDomain', tuple(bases), ns)
    cls.model = M
    return cls


# ---- strategies -------------------------------------------------------------------------------------------------
@st.composite
def specs(draw, max_n=5, max_na=3, ch=None, min_n=1, weights=(1, 2, 3, 4)):
    """Draw a specification; `ch` maps characteristic -> strategy or constant."""
    n = draw(st.integers(min_n, max_n))
    na = draw(st.integers(1, max_na))
    chv = {}
    for k, v in (ch or {}).items():
        chv[k] = draw(v) if isinstance(v, st.SearchStrategy) else v
    state = st.integers(0, n - 1)
    det = chv.get('dyn', DEFAULT['dyn']) == 'DeterministicTransitions'
    row = st.lists(st.tuples(state, st.sampled_from(weights)), min_size=1, max_size=1 if det else 3)
    trans = [[[list(x) for x in draw(row)] for _ in range(na)] for _ in range(n)]
    rew = [[draw(st.integers(-3, 6)) for _ in range(na)] for _ in range(n)]
    acts = st.lists(st.integers(0, na - 1), min_size=1, max_size=na, unique=True)
    full = chv.get('obs', 'FullyObservable') == 'FullyObservable'
    obs = list(range(n)) if full else [draw(st.integers(0, 3)) for _ in range(n)]
    spec = dict(n=n, na=na, trans=trans, rew=rew, rdep=draw(st.booleans()),
                term=draw(st.lists(state, max_size=2, unique=True)), obs=obs, odep=draw(st.booleans()),
                enabled=[draw(st.lists(st.integers(-2, na - 1), max_size=4, unique=True)) for _ in range(n)],
                app=[draw(acts) for _ in range(n)],
                goals=draw(st.lists(state, max_size=2, unique=True)),
                init=[list(x) for x in draw(st.lists(st.tuples(state, st.integers(1, 3)), min_size=1, max_size=2))],
                maxlen=draw(st.integers(1, 3)), bound=draw(st.integers(0, 8)), ch=chv)
    return spec


def levels(*names):
    """A strategy over the given characteristic chains, all levels."""
    return {k: st.sampled_from(CHAINS[k]) for k in names}


def raw_action(spec, M=None):
    """Strategy of an action at the level of the domain, as plain data."""
    M = M or Model(spec)
    a = st.integers(0, M.na - 1)
    one = st.lists(a, min_size=1, max_size=2) if M.par else a
    if M.multi:
        return st.tuples(*[one for _ in M.agents]).map(lambda t: dict(zip(M.agents, t)))
    return one


def raw_memory(spec, M=None):
    M = M or Model(spec)
    s = st.integers(0, M.n - 1)
    if M.ch['memory'] == 'Memoryless':
        return st.none()
    if M.ch['memory'] == 'Markovian':
        return s
    ml = M.maxlen()
    return st.lists(s, min_size=1, max_size=ml or 3)


def mem(M, raw):
    return Memory(raw) if M.hist and raw is not None else raw
