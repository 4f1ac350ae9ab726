"""H03: gym environments as domains, domains as gym environments, planning wrappers, features and discretised actions."""
import copy
import itertools

import gym
import numpy as np
from hypothesis import strategies as st

from skdecide import Domain, TransitionValue
from skdecide.builders.domain import (SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
                                      Markovian, FullyObservable, Rewards)
from skdecide.hub.domain.gym import (GymDomain, GymDomainHashable, DeterministicInitializedGymDomain, GymWidthDomain,
                                     GymDiscreteActionDomain, DeterministicGymDomain, CostDeterministicGymDomain, GymPlanningDomain,
                                     GymDomainStateProxy, AsGymEnv)
from skdecide.hub.space.gym import EnumSpace, ListSpace, GymSpace, DataSpace
from harness.api import Sub, require, eq, close
from checks.h02 import desc, raw_gym, member, inside, same, leaves, Hue, Level, FR

RULE = ('Random deterministic environments (state tables, observations in nested spaces), random sequences of resets, steps and '
        'state expansions in any order, against a table model of the environment.')
ASSUMPTIONS = ['environments follow the interface the wrappers document: reset gives an observation, step a 4-tuple',
               'environments are deterministic; their state is restored by copy or by get/set functions giving comparable states',
               'observations are not binarised beyond the precision of 32-bit floats', 'no step is made after the end of an episode']


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in flat(v[k])]
    if isinstance(v, (tuple, list)):
        return [x for e in v for x in flat(e)]
    return [float(x) for x in np.asarray(v).reshape(-1)]


def akey(action, na):
    return int(sum(round(x * 2 + 7) * (i + 1) for i, x in enumerate(flat(action)))) % na


class TableEnv(gym.Env):
    """s -> (next, reward, done) tables; every reset starts from the next initial state in turn."""
    log = None

    def __init__(self, c):
        self.c = c
        self.observation_space, self.action_space = raw_gym(c['obs']), raw_gym(c['act'])
        self.resets, self.s, self.t = 0, None, 0

    def observe(self, s):
        return member(self.c['obs'], iter(self.c['fr'][s]))[0]

    def reset(self):
        self.s = self.c['init'][self.resets % len(self.c['init'])]
        self.resets += 1
        self.t = 0
        return self.observe(self.s)

    def step(self, action):
        a = akey(action, len(self.c['next'][0]))
        nxt, r = self.c['next'][self.s][a], self.c['rew'][self.s][a]
        self.s, self.t = nxt, self.t + 1
        return self.observe(nxt), r, self.c['done'][nxt], {'t': self.t, 'a': a}

    def render(self, mode='human'):
        return ('frame', self.s, self.t, mode)

    def close(self):
        self.closed = True


def get_state(env):
    return (env.s, env.t, env.resets)


def set_state(env, v):
    env.s, env.t, env.resets = v


@st.composite
def envs(draw, act_depth=1, det=False):
    n, na = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    return dict(obs=draw(desc(1)), act=draw(desc(act_depth)), fr=[draw(FR) for _ in range(n)],
                next=[[draw(st.integers(0, n - 1)) for _ in range(na)] for _ in range(n)],
                rew=[[draw(st.integers(-5, 5)) for _ in range(na)] for _ in range(n)], done=[draw(st.integers(0, 3)) == 0 for _ in range(n)],
                init=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=1 if det else 3)))


def act_of(c, fr):
    return member(c['act'], iter(fr))[0]


@st.composite
def sim_cases(draw):
    c = draw(envs())
    ops = draw(st.lists(st.one_of(st.just('reset'), FR, FR, FR), min_size=1, max_size=12))
    return dict(c, ops=ops, kind=draw(st.sampled_from(['plain', 'hashable', 'copy', 'getset'])), other=draw(st.booleans()))


def same_obs(kind, got, want):
    if kind == 'plain':
        return same(got, want)
    w = GymDomainStateProxy(want)
    return got == w and hash(got) == hash(w) and str(got) == str(w)


def simulate(case, ctx):
    kind = case['kind']
    env, ref = TableEnv(case), TableEnv(case)
    mk = {'plain': lambda e: GymDomain(e), 'hashable': lambda e: GymDomainHashable(e), 'copy': lambda e: DeterministicInitializedGymDomain(e),
          'getset': lambda e: DeterministicInitializedGymDomain(e, set_state, get_state)}[kind]
    d = mk(env)
    require(d.get_action_space().unwrapped() == ref.action_space, 'action space')
    require(d.get_observation_space().unwrapped() == ref.observation_space, 'observation space')
    require(d.unwrapped() is env, 'the unwrapped domain is not its environment')
    det = kind in ('copy', 'getset')
    want, first, live, steps, ended = ref.reset(), None, True, 0, False
    if det:
        first = get_state(ref)
    got = d.reset()
    require(same_obs(kind, got, want), 'initial observation: %r instead of %r', got, want)
    if det and case['other']:
        # a second domain put in the initial state of the first one behaves the same
        other = TableEnv(case)
        other.reset(), other.reset()
        d2 = mk(other)
        d2.set_memory(got)
        d = d2
    for op in case['ops']:
        if op == 'reset' or ended:
            got, ended = d.reset(), False
            if det:
                set_state(ref, first)
                want = ref.observe(ref.s)
            else:
                want = ref.reset()
            require(same_obs(kind, got, want), 'observation after a reset: %r instead of %r', got, want)
            continue
        a = act_of(case, op)
        o, (wobs, wr, wdone, winfo) = d.step(a), ref.step(a)
        require(same_obs(kind, o.observation, wobs), 'observation: %r instead of %r', o.observation, wobs)
        eq(o.value.reward, wr, 'reward')
        eq(o.value.cost, -wr, 'cost')
        eq(bool(o.termination), bool(wdone), 'termination')
        eq(o.info, winfo, 'info')
        eq(d.render(mode='ansi'), ref.render(mode='ansi'), 'rendering')
        eq(d.render(), ref.render(), 'default rendering')
        steps, ended = steps + 1, bool(wdone)
    d.close()
    ctx.nontrivial(steps > 1)
    ctx.label(kind, 'restart' if 'reset' in case['ops'] else '')


# ---- planning ----------------------------------------------------------------------------------------------------------
@st.composite
def plan_cases(draw):
    c = draw(envs(det=True))
    ops = draw(st.lists(st.tuples(st.integers(0, 20), FR, st.integers(0, 4)).map(list), min_size=1, max_size=15))
    return dict(c, ops=ops, kind=draw(st.sampled_from(['det', 'cost', 'plan'])), getset=draw(st.booleans()), goal=draw(st.booleans()),
                depth=draw(st.integers(1, 4)), width=draw(st.booleans()))


def planning(case, ctx):
    env, ref = TableEnv(case), TableEnv(case)
    fns = (set_state, get_state) if case['getset'] else (None, None)
    plan = case['kind'] == 'plan'
    if plan and case['width']:
        class W(GymPlanningDomain, GymWidthDomain):
            def __init__(self):
                GymPlanningDomain.__init__(self, env, fns[0], fns[1], case['goal'], case['depth'])
                GymWidthDomain.__init__(self)
        d = W()
    elif plan:
        d = GymPlanningDomain(env, fns[0], fns[1], case['goal'], case['depth'])
    else:
        d = (DeterministicGymDomain if case['kind'] == 'det' else CostDeterministicGymDomain)(env, *fns)
    want = ref.reset()
    s0 = d.get_initial_state()
    require(same_obs('', s0, want), 'initial state: %r instead of %r', s0, want)
    nodes = [(s0, ref.s, 0, False)]
    jumps = last = depth = 0
    for k, fr, x in case['ops']:
        live = [i for i, v in enumerate(nodes) if not v[3]]
        i = live[k % len(live)]
        s, m, t, _ = nodes[i]
        a = act_of(case, fr)
        if x == 0:  # the environment is also simulated in between
            require(same_obs('', d.reset(), want), 'reset gives another initial state')
            set_state(ref, (case['init'][0], 0, 1))
            if not ref.c['done'][ref.s]:
                o, w = d.step(a), ref.step(a)
                require(same_obs('', o.observation, w[0]), 'simulated observation: %r instead of %r', o.observation, w[0])
                eq(o.value.reward, w[1], 'simulated reward')
                eq(bool(o.termination), bool(w[2]), 'simulated termination')
        set_state(ref, (m, t, 1))
        wobs, wr, wdone, _ = ref.step(a)
        nxt = d.get_next_state(s, a)
        require(same_obs('', nxt, wobs), 'state after expanding node %d: %r instead of %r', i, nxt, wobs)
        v = d.get_transition_value(s, a, nxt)
        eq(v.reward, wr, 'transition reward')
        eq(v.cost, -wr, 'transition cost')
        eq(bool(d.is_terminal(nxt)), bool(wdone), 'terminal state')
        require(same_obs('', s, ref.observe(m)), 'expanding changed the expanded state')
        if plan:
            goal = t + 1 >= case['depth'] or (case['goal'] and bool(wdone))
            eq(bool(d.is_goal(nxt)), goal, 'goal at depth %d (max %d, ended: %s)' % (t + 1, case['depth'], wdone))
            eq(bool(d.is_goal(s0)), False, 'initial state is a goal')
        jumps += i != last
        nodes.append((nxt, ref.s, t + 1, bool(wdone)))
        last, depth = len(nodes) - 1, max(depth, t + 1)
    eq(bool(d.is_terminal(s0)), False, 'initial state is terminal')
    ctx.nontrivial(jumps > 0 and depth > 1)
    ctx.label(case['kind'], 'getset' if case['getset'] else 'copy')


# ---- features ------------------------------------------------------------------------------------------------------------
@st.composite
def feature_cases(draw):
    d = draw(desc(draw(st.integers(0, 2))))
    if draw(st.integers(0, 3)) == 0:  # one variable and many states: layers inside layers
        return dict(obs=['box', [-10], [10], 'float64'], act=['discrete', 2], fr=[[x / 40] for x in draw(st.lists(st.integers(0, 40), min_size=6, max_size=16))],
                    next=[[0]], rew=[[0]], done=[False], init=[0], fidelity=draw(st.integers(2, 3)), proxy=draw(st.booleans()))
    vs = draw(st.lists(FR, min_size=2, max_size=8))
    vs += [vs[i % len(vs)] for i in draw(st.lists(st.integers(0, 7), max_size=3))]
    return dict(obs=d, act=['discrete', 2], fr=vs, next=[[0]], rew=[[0]], done=[False], init=[0], fidelity=draw(st.integers(1, 3)),
                proxy=draw(st.booleans()))


def shape_of(d, fid):
    """For each feature of fidelity `fid`: (variable, level) for a continuous variable, or the index of a discrete value."""
    k = d[0]
    if k in ('tuple', 'dict'):
        return [f for x in d[1] for f in shape_of(x[1] if k == 'dict' else x, fid)]
    n = len(d[1]) if k in ('box', 'multidiscrete') else d[1] if k == 'multibinary' else 1
    return [l if k == 'box' else -1 for _ in range(n) for l in range(fid if k == 'box' else 1)]


def features(case, ctx):
    class W(GymDomain, GymWidthDomain):
        def __init__(self, env, fid):
            GymDomain.__init__(self, env)
            GymWidthDomain.__init__(self, continuous_feature_fidelity=fid)
    env = TableEnv(case)
    obs = [env.observe(i) for i in range(len(case['fr']))]
    wrap = (lambda o: GymDomainStateProxy(o)) if case['proxy'] else (lambda o: o)
    d = W(env, case['fidelity'])
    n = d.nb_of_binary_features()
    bits = [d.binary_features(wrap(o)) for o in obs]
    for o, b in zip(obs, bits):
        eq(len(b), n, 'number of binary features of %r' % (o,))
        require(all(x in (True, False) for x in b), 'binary features are %r', b)
    for (o, b), (p, c) in itertools.combinations(zip(obs, bits), 2):
        eq(b == c, same(o, p), 'same features for %r and %r' % (o, p))
    fid = case['fidelity']
    shape, cont = shape_of(case['obs'], fid), 0
    for method in ('bee1_features', 'bee2_features'):
        d = W(env, fid)
        seen, got, first, layers = [], [], [], {}
        for o in obs:
            f = [int(x) for x in getattr(d, method)(wrap(o))]
            finer(method, flat2(o, case['obs']), f, shape, layers)
            eq(len(f), len(shape), '%s: number of features' % method)
            vals, first_level = flat2(o, case['obs']), [x for x, l in zip(f, shape) if l <= 0]
            kinds = [l for l in shape if l <= 0]
            eq(len(vals), len(first_level), 'number of variables')
            for j, (v, x) in enumerate(zip(vals, first_level)):
                if kinds[j] == -1:
                    eq(x, int(v), '%s: discrete variable' % method)
                    continue
                cont += 1
                hist = [(w[j], g[j]) for w, g in zip(seen, first)]
                for w, g in hist:
                    if w == v:
                        eq(x, g, '%s: layer of %r, seen before' % (method, v))
                    elif method == 'bee1_features':
                        require((x <= g) if v < w else (x >= g), '%s: layer %d for %r after layer %d for %r', method, x, v, g, w)
                if hist and not min(w for w, _ in hist) <= v <= max(w for w, _ in hist):
                    require(x not in [g for _, g in hist], '%s: %r is beyond all values seen, but its layer %d is not new (%s)', method, v, x, hist)
            seen.append(vals)
            first.append(first_level)
    # elliptical features
    d = W(env, 1)
    d.init_elliptical_features(obs[0], obs[1])
    v = [flat2(o, case['obs']) for o in obs]
    if all(np.isfinite(x) for o in v for x in o):
        pairs = list(itertools.combinations(range(len(v[0])), 2))
        fs = [d.elliptical_features(wrap(o)) for o in obs]
        for o, f in zip(obs, fs):
            eq(len(f), len(pairs), 'number of elliptical features')
        for q, (i, j) in enumerate(pairs):
            dist = [float(np.linalg.norm(np.array([o[i], o[j]]) - np.array([v[1][i], v[1][j]]))) for o in v]
            eq(fs[1][q], 0, 'elliptical feature of the goal')
            for a, b in itertools.permutations(range(len(v)), 2):
                if dist[a] < dist[b] - 1e-6:
                    require(fs[a][q] <= fs[b][q], 'elliptical feature %d at distance %r and %d at distance %r of the goal', fs[a][q], dist[a], fs[b][q], dist[b])
                    if b == 0:
                        require(dist[a] > 0.8 * dist[b] or fs[a][q] < fs[b][q], 'closer state (%r instead of %r) with elliptical feature %d like the initial one', dist[a], dist[b], fs[a][q])
    ctx.nontrivial(len(shape) > 1 and len(obs) > 2)
    ctx.label(case['obs'][0], 'continuous' if cont else 'discrete')


def finer(method, vals, f, shape, layers):
    """Inside a layer, values are told apart by finer layers in the same way: one by value, ordered, a new one beyond all those seen."""
    at = [q for q, l in enumerate(shape) if l <= 0] + [len(shape)]
    for j, v in enumerate(vals):
        if shape[at[j]] == -1:
            continue
        group = f[at[j]:at[j + 1]]
        for k in range(1, len(group)):
            if (j,) + tuple(group[:k]) not in layers:
                break  # this layer is new: it is refined from the next time on
            hist = layers[(j,) + tuple(group[:k])]
            x = group[k]
            for w, g in hist:
                if w == v:
                    eq(x, g, '%s: finer layer of %r, seen before' % (method, v))
                elif method == 'bee1_features':
                    require((x <= g) if v < w else (x >= g), '%s: finer layer %d for %r after finer layer %d for %r', method, x, v, g, w)
            if hist and (v > max(w for w, _ in hist) and (method == 'bee2_features' or group[0] > 0)
                         or v < min(w for w, _ in hist) and (method == 'bee2_features' or group[0] < 0)):
                require(x not in [g for _, g in hist], '%s: %r is beyond all values seen in its layer, but its finer layer %d is not new (%s)', method, v, x, hist)
            hist.append((v, x))
        for k in range(1, len(group)):
            layers.setdefault((j,) + tuple(group[:k]), [])


def flat2(v, d):
    """Variables in the order of the description (dictionaries are sorted by key)."""
    k = d[0]
    if k == 'tuple':
        return [x for e, s in zip(v, d[1]) for x in flat2(e, s)]
    if k == 'dict':
        return [x for n, s in d[1] for x in flat2(v[n], s)]
    return [float(x) for x in np.asarray(v).reshape(-1)]


# ---- discretised actions -----------------------------------------------------------------------------------------------
def count(d, f):
    k = d[0]
    if k == 'tuple':
        return int(np.prod([count(x, f) for x in d[1]]))
    if k == 'dict':
        return int(np.prod([count(x, f) for _, x in d[1]]))
    return f ** len(d[1]) if k == 'box' else d[1] if k == 'discrete' else 2 ** d[1] if k == 'multibinary' else int(np.prod(d[1]))


def points(d, f):
    """All discretised values, as flat tuples."""
    k = d[0]
    if k in ('tuple', 'dict'):
        return [sum(t, ()) for t in itertools.product(*(points(x[1] if k == 'dict' else x, f) for x in d[1]))]
    axes = [[0, 1]] * d[1] if k == 'multibinary' else [range(d[1])] if k == 'discrete' else [range(n) for n in d[1]] if k == 'multidiscrete' else \
        [[l, h] for l, h in zip(d[1], d[2])]
    return [tuple(float(x) for x in t) for t in itertools.product(*axes)]


@st.composite
def action_cases(draw):
    f = draw(st.integers(2, 4))
    d = draw(desc(draw(st.integers(0, 2))).filter(lambda d: count(d, f) <= 600))
    if d[0] == 'box' and draw(st.booleans()) and len(d[1]) > 1 and len(d[1]) % 2 == 0:
        pass
    return dict(act=d, obs=['discrete', 2], fr=[[0] * 4, [1] * 4], next=[[0]], rew=[[0]], done=[False], init=[0], f=f,
                branch=draw(st.one_of(st.none(), st.integers(1, 10))), shape=draw(st.booleans()))


def discretised(case, ctx):
    env = TableEnv(case)
    dsc = case['act']
    if dsc[0] == 'box' and case['shape']:  # the same box with one more dimension
        n = len(dsc[1])
        shp = (2, n // 2) if n % 2 == 0 else (n, 1)
        env.action_space = gym.spaces.Box(np.array(dsc[1], dtype=dsc[3]).reshape(shp), np.array(dsc[2], dtype=dsc[3]).reshape(shp), dtype=np.dtype(dsc[3]))

    class A(GymDomain, GymDiscreteActionDomain):
        def __init__(self):
            GymDomain.__init__(self, env)
            GymDiscreteActionDomain.__init__(self, discretization_factor=case['f'], branching_factor=case['branch'])
    d = A()
    d.reset()
    els = list(d.get_applicable_actions().get_elements())
    total = count(dsc, case['f'])
    eq(len(els), total if case['branch'] is None else min(total, case['branch']), 'number of discretised actions')
    for a in els:
        require(env.action_space.contains(a), 'discretised action %r is not in %s', a, env.action_space)
        require(d.get_action_space().contains(a), 'discretised action %r is not in the action space', a)
    got = [tuple(flat2(a, dsc)) for a in els]
    if 'int64' not in str(dsc):
        eq(len(set(got)), len(got), 'number of different discretised actions')
    if case['branch'] is None or case['branch'] >= total:
        missing = [p for p in points(dsc, case['f']) if p not in set(got)]
        require(not missing, 'extreme actions %s are not in the discretised actions', missing[:3])
        if dsc[0] == 'box' and dsc[3] != 'int64':
            for i, (l, h) in enumerate(zip(dsc[1], dsc[2])):
                vals = sorted({g[i] for g in got})
                eq(len(vals), case['f'], 'number of values of dimension %d' % i)
                for k, v in enumerate(vals):
                    close(v, l + (h - l) * k / (case['f'] - 1), 'regular discretisation', 1e-6)
    for _ in range(3):
        a = d.get_applicable_actions().sample()
        require(any(same(a, e) for e in els), 'sampled action %r', a)
        d.step(a)
    eq([tuple(flat2(a, dsc)) for a in d.get_applicable_actions().get_elements()], got, 'discretised actions, asked again')
    ctx.nontrivial(total > 2)
    ctx.label(dsc[0], 'branching' if case['branch'] else '')


# ---- domains as environments --------------------------------------------------------------------------------------------
SPACES = {'enum': lambda: EnumSpace(Hue), 'int': lambda: EnumSpace(Level), 'list': lambda: ListSpace(['p', ('q', 1), 'r', 4, 'last'])}


@st.composite
def asenv_cases(draw):
    n = draw(st.integers(1, 5))
    o, a = draw(st.sampled_from(['enum', 'int', 'list', 'data', 'gym'])), draw(st.sampled_from(['enum', 'int', 'list', 'data', 'gym']))
    na = 5
    return dict(o=o, a=a, n=n, next=[[draw(st.integers(0, n - 1)) for _ in range(na)] for _ in range(n)],
                rew=[[draw(st.integers(-5, 5)) for _ in range(na)] for _ in range(n)], done=[draw(st.integers(0, 3)) == 0 for _ in range(n)],
                init=draw(st.integers(0, n - 1)), unwrap=draw(st.booleans()), info=draw(st.booleans()),
                ops=draw(st.lists(st.one_of(st.just(-1), st.integers(0, 4), st.integers(0, 4)), min_size=1, max_size=12)))


import dataclasses


@dataclasses.dataclass(frozen=True)
class Cell:
    row: int
    col: int


def space_of(kind):
    """(space, elements, unwrapped elements)"""
    if kind == 'data':
        sp = DataSpace(Cell, dict(row=gym.spaces.Discrete(3), col=gym.spaces.Discrete(2)))
        els = [Cell(r, c) for r in range(3) for c in range(2)][:5]
        return sp, els, [dict(row=e.row, col=e.col) for e in els]
    if kind == 'gym':
        return GymSpace(gym.spaces.Discrete(5)), list(range(5)), list(range(5))
    sp = SPACES[kind]()
    els = list(sp.get_elements())
    return sp, els, list(range(len(els)))


def as_env(case, ctx):
    osp, oels, ouns = space_of(case['o'])
    asp, aels, auns = space_of(case['a'])

    class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, Markovian, FullyObservable,
            Rewards):
        pass

    class Dom(D):
        def idx(self, s):
            return oels.index(s)

        def _get_initial_state_(self):
            return oels[case['init'] % len(oels)]

        def _get_next_state(self, memory, action):
            return oels[case['next'][self.idx(memory) % case['n']][aels.index(action)] % len(oels)]

        def _get_transition_value(self, memory, action, next_state=None):
            return TransitionValue(reward=case['rew'][self.idx(memory) % case['n']][aels.index(action)])

        def _is_terminal(self, state):
            return case['done'][self.idx(state) % case['n']]

        def _get_action_space_(self):
            return asp

        def _get_observation_space_(self):
            return osp
    d = Dom()
    env = AsGymEnv(d, unwrap_spaces=case['unwrap'])
    if case['unwrap']:
        require(env.action_space == asp.unwrapped() and env.observation_space == osp.unwrapped(), 'spaces of the environment')
        O, A = ouns, auns
    else:
        require(env.action_space is d.get_action_space() and env.observation_space is d.get_observation_space(), 'spaces of the environment')
        O, A = oels, aels
    require(env.unwrapped() is d, 'the unwrapped environment is not its domain')
    i, steps, ended = None, 0, True
    for op in case['ops']:
        if op == -1 or ended:
            o = env.reset()
            i, ended = case['init'] % len(oels), False
            require(same(o, O[i]), 'observation after a reset: %r instead of %r', o, O[i])
            require(env.observation_space.contains(o), 'initial observation %r is not in the observation space', o)
            continue
        k = op % len(A)
        require(env.action_space.contains(A[k]), 'action space without %r', A[k])
        o, r, done, info = env.step(A[k])
        want_r = case['rew'][i % case['n']][k]
        i = case['next'][i % case['n']][k] % len(oels)
        require(same(o, O[i]), 'observation: %r instead of %r', o, O[i])
        require(env.observation_space.contains(o), 'observation %r is not in the observation space', o)
        eq(r, want_r, 'reward')
        eq(bool(done), case['done'][i % case['n']], 'end of episode')
        require(isinstance(info, dict), 'info is %r', info)
        steps, ended = steps + 1, bool(done)
    ctx.nontrivial(steps > 1)
    ctx.label(case['o'], 'unwrapped' if case['unwrap'] else '')


# ---- comparable states --------------------------------------------------------------------------------------------------
leaf = st.integers(-3, 3)


@st.composite
def nests(draw, depth=2):
    """Pairs of values of one shape: ['s', a, b], ['n', dims, as, bs], ['t', parts], ['d', named parts]."""
    k = draw(st.sampled_from('snntd' if depth else 'sn'))
    if k == 's':
        a = draw(leaf)
        return ['s', a, draw(st.one_of(st.just(a), leaf))]
    if k == 'n':
        dims = draw(st.lists(st.integers(1, 2), min_size=1, max_size=3))
        a = [draw(leaf) for _ in range(int(np.prod(dims)))]
        return ['n', dims, a, draw(st.one_of(st.just(a), st.tuples(*[leaf for _ in a]).map(list), st.just([-2 if x == -1 else x for x in a])))]
    parts = [draw(nests(depth - 1)) for _ in range(draw(st.integers(1, 3)))]
    return ['t', parts] if k == 't' else ['d', [[n, x] for n, x in zip('abc', parts)]]


def nest(c, q, real):
    if c[0] == 's':
        return float(c[1 + q]) if real else c[1 + q]
    if c[0] == 'n':
        return np.array(c[2 + q], dtype=float if real else int).reshape(c[1])
    if c[0] == 't':
        return tuple(nest(x, q, real) for x in c[1])
    return {n: nest(x, q, real) for n, x in c[1]}


def proxies(case, ctx):
    a, b, a2 = nest(case['v'], 0, case['real']), nest(case['v'], 1, case['real']), nest(case['v'], 0, case['real'])
    pa, pb, p2 = GymDomainStateProxy(a, 'one'), GymDomainStateProxy(b, 'two'), GymDomainStateProxy(a2, 'three')
    require(pa == p2 and hash(pa) == hash(p2), 'two proxies of %r differ', a)
    eq(pa == pb, flat(a) == flat(b), 'equality of the proxies of %r and %r' % (a, b))
    if flat(a) == flat(b):
        eq(hash(pa), hash(pb), 'hash of the proxies of %r and %r' % (a, b))
    eq(len({pa, pb, p2}), 1 if flat(a) == flat(b) else 2, 'number of different states')
    eq((str(pa), repr(pa)), (str(a), repr(a)), 'text of the state')
    ctx.nontrivial(len(flat(a)) > 1)
    ctx.label('equal' if flat(a) == flat(b) else 'different')


SUBCHECKS = [Sub('simulate', sim_cases, simulate, quick=1200, thorough=8000, rule='more than one step'),
             Sub('planning', plan_cases, planning, quick=1050, thorough=8000, rule='several depths, expanded out of order'),
             Sub('features', feature_cases, features, quick=900, thorough=6000, rule='several features and states'),
             Sub('discretised', action_cases, discretised, quick=900, thorough=6000, rule='more than two actions'),
             Sub('as_env', asenv_cases, as_env, quick=1200, thorough=8000, rule='more than one step'),
             Sub('proxies', lambda: st.fixed_dictionaries(dict(v=nests(), real=st.booleans())), proxies, quick=1200, thorough=8000, rule='several values')]
