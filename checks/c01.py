"""C01: casting between characteristic levels against an independent reference cast."""
from typing import List, Union

from hypothesis import strategies as st

import skdecide.core as core
from skdecide import *
from skdecide.core import (autocast, autocast_all, Memory, StrDict, DiscreteDistribution, ImplicitDistribution,
                           SingleValueDistribution, EnvironmentOutcome, TransitionOutcome, ImplicitConstraint,
                           BoundConstraint, Distribution, Constraint)
from skdecide.builders.domain import *
from skdecide.builders.solver import DeterministicPolicies, Utilities, QValues

from harness.api import Sub, require, Violation, eq
from harness.tabledomain import (Model, make_domain, specs, raw_action, raw_memory, mem, Elements, CHAINS)

RULE = ('Random type descriptions over the supported containers with random values, random pairs of levels, and '
        'table-defined domains viewed at every more general level; non-trivial when at least one conversion is needed.')
ASSUMPTIONS = ['single-valued dictionaries/lists when reducing to the specific level (reduction of several values is '
               'only defined for histories: most recent)']


class Level:
    def __init__(self, l):
        self.T_memory = Memory if l['m'] else Union
        self.T_agent = StrDict if l['a'] else Union
        self.T_concurrency = List if l['c'] else Union
        self.l = l
    T_state = T_observation = T_event = T_value = T_info = None


def level_obj(l):
    class D(Domain):
        pass
    lv = Level(l)
    D.T_memory, D.T_agent, D.T_concurrency = lv.T_memory, lv.T_agent, lv.T_concurrency
    return D


# AST: ['leaf', name] | ['m', x] | ['a', x] | ['c', x] | ['opt', x] | ['dist', x] | ['env', a, b, c] | ['tr', a, b, c]
#      | ['list', x] | ['cons']
def hint(t):
    k = t[0]
    if k == 'leaf':
        return {'state': 'D.T_state', 'event': 'D.T_event', 'obs': 'D.T_observation', 'info': 'D.T_info',
                'value': 'TransitionValue[D.T_value]', 'space': 'Space[D.T_event]'}[t[1]]
    if k == 'cons':
        return 'Constraint[D.T_memory[D.T_state], D.T_agent[D.T_concurrency[D.T_event]], D.T_state]'
    pre = {'m': 'D.T_memory', 'a': 'D.T_agent', 'c': 'D.T_concurrency', 'opt': 'Optional', 'dist': 'Distribution',
           'env': 'EnvironmentOutcome', 'tr': 'TransitionOutcome', 'list': 'List'}[k]
    return '%s[%s]' % (pre, ', '.join(hint(x) for x in t[1:]))


def types():
    # absent value/info of an outcome is replaced at construction (defaults are checked in C04)
    noopt = st.sampled_from([t for t in AGENTISH if 'opt' not in (t[0], t[1][0] if t[0] == 'a' else None)])
    agentish = st.sampled_from(AGENTISH)
    outcome = st.tuples(st.sampled_from(['env', 'tr']), agentish, noopt, noopt).map(list)
    base = st.one_of(agentish, outcome, outcome, st.just(['cons']))
    return st.tuples(base, st.lists(st.sampled_from(['dist', 'opt', 'list']), max_size=2)).map(
        lambda bw: ([bw[0]] if not bw[1] else [[bw[1][0], bw[0]]] if len(bw[1]) == 1 else
                    [[bw[1][1], [bw[1][0], bw[0]]]])[0])


INNER = [['leaf', n] for n in ('state', 'event', 'obs', 'info', 'value', 'space')] + [
    ['m', ['leaf', 'state']], ['c', ['leaf', 'event']], ['opt', ['leaf', 'info']], ['m', ['leaf', 'state']],
    ['c', ['leaf', 'event']]]
AGENTISH = INNER + [['a', t] for t in INNER]
LV = st.fixed_dictionaries({'m': st.booleans(), 'a': st.booleans(), 'c': st.booleans()})


def data(t, lv, other):
    """Strategy of plain data for a value of type t at level lv that will be converted to level `other`."""
    k = t[0]
    if k == 'leaf':
        if t[1] in ('value', 'space'):
            return st.integers(0, 9)
        return st.one_of(st.integers(0, 9), st.sampled_from(['x', 'yy']), st.lists(st.integers(0, 3), max_size=2))
    if k == 'cons':
        return st.fixed_dictionaries({'kind': st.sampled_from(['imp', '<', '<=', '>', '>=']),
                                      'bound': st.integers(0, 12), 'dep': st.booleans(),
                                      'mem': st.lists(st.integers(0, 4), min_size=1, max_size=3 if not lv['m'] and 0 else 1),
                                      'act': st.integers(0, 4), 'nxt': st.one_of(st.none(), st.integers(0, 4))})
    if k == 'm' and lv['m']:
        return st.lists(data(t[1], lv, other), min_size=1, max_size=4)
    if k == 'a' and lv['a']:
        if other['a']:
            return st.dictionaries(st.sampled_from(['agent', 'p', 'q']), data(t[1], lv, other), min_size=1, max_size=3)
        return st.fixed_dictionaries({'agent': data(t[1], lv, other)})
    if k == 'c' and lv['c']:
        return st.lists(data(t[1], lv, other), min_size=0 if other['c'] else 1, max_size=3 if other['c'] else 1)
    if k == 'opt':
        return st.one_of(st.none(), data(t[1], lv, other).map(lambda v: {'v': v}))
    if k == 'list':
        return st.lists(data(t[1], lv, other), max_size=3)
    if k == 'dist':
        return st.tuples(st.sampled_from(['disc', 'single', 'imp']),
                         st.lists(data(t[1], lv, other), min_size=1, max_size=3)).map(list)
    if k in ('env', 'tr'):
        return st.tuples(data(t[1], lv, other), data(t[2], lv, other), data(t[3], lv, other),
                         st.booleans()).map(list)
    return data(t[1], lv, other)  # container at the specific level: the element itself


class Rec:
    """A constraint function recording its arguments."""

    def __init__(self):
        self.calls = []

    def __call__(self, m, a, s):
        self.calls.append((m, a, s))
        return float(code(m) + 3 * code(a) + 5 * code(s))


def code(x):
    if x is None:
        return 1
    if isinstance(x, dict):
        return sum(code(v) for v in x.values())
    if isinstance(x, (list, tuple)) or hasattr(x, 'maxlen'):
        return sum((i + 1) * code(v) for i, v in enumerate(reversed(list(x))))
    return x


def build(t, lv, d):
    k = t[0]
    if k == 'leaf':
        if t[1] == 'value':
            return TransitionValue(reward=d)
        if t[1] == 'space':
            return _space(d)
        return tuple(d) if isinstance(d, list) else d
    if k == 'cons':
        rec = Rec()
        if d['kind'] == 'imp':
            c = ImplicitConstraint(lambda m, a, s: rec(m, a, s) % 2 == 0, d['dep'])
        else:
            c = BoundConstraint(rec, d['kind'], d['bound'], d['dep'])
        c.rec = rec
        return c
    if k == 'm' and lv['m']:
        return Memory([build(t[1], lv, x) for x in d])
    if k == 'a' and lv['a']:
        return {n: build(t[1], lv, x) for n, x in d.items()}
    if k == 'c' and lv['c']:
        return [build(t[1], lv, x) for x in d]
    if k == 'opt':
        return None if d is None else build(t[1], lv, d['v'])
    if k == 'list':
        return [build(t[1], lv, x) for x in d]
    if k == 'dist':
        vs = [build(t[1], lv, x) for x in d[1]]
        if d[0] == 'disc':
            return DiscreteDistribution([(v, i + (1.0 if len(vs) == 1 else 0.0)) for i, v in enumerate(vs)])  # with an impossible value
        if d[0] == 'single':
            return SingleValueDistribution(vs[0])
        return ImplicitDistribution(lambda: vs[-1])
    if k in ('env', 'tr'):
        a, b, c = (build(x, lv, y) for x, y in zip(t[1:], d[:3]))
        return EnvironmentOutcome(a, b, d[3], c) if k == 'env' else TransitionOutcome(a, b, d[3], c)
    return build(t[1], lv, d)


_SPACES = {}


def _space(d):
    return _SPACES.setdefault(d, Elements(range(d)))


def ref(t, v, src, dst):
    """Reference conversion of a built value (independent of skdecide.core.cast)."""
    k = t[0]
    if k in ('leaf', 'cons'):
        return v
    if k in ('m', 'a', 'c'):
        if not src[k]:
            parts = {'agent': v}
        elif k == 'a':
            parts = dict(v)
        else:
            parts = dict(enumerate(v))
        parts = {n: ref(t[1], x, src, dst) for n, x in parts.items()}
        if not dst[k]:
            return list(parts.values())[-1] if k == 'm' else list(parts.values())[0]
        return parts if k == 'a' else (Memory if k == 'm' else list)(parts.values())
    if k == 'opt':
        return None if v is None else ref(t[1], v, src, dst)
    if k == 'list':
        return [ref(t[1], x, src, dst) for x in v]
    if k == 'dist':
        if type(v) is SingleValueDistribution:
            return SingleValueDistribution(ref(t[1], v.get_value(), src, dst))
        if type(v) is DiscreteDistribution:
            return DiscreteDistribution([(ref(t[1], x, src, dst), p) for x, p in v.get_values()])
        return ImplicitDistribution(lambda: ref(t[1], v.sample(), src, dst))
    if k == 'env':
        return ('env', ref(t[1], v.observation, src, dst), ref(t[2], v.value, src, dst), v.termination,
                ref(t[3], v.info, src, dst))
    return ('tr', ref(t[1], v.state, src, dst), ref(t[2], v.value, src, dst), v.termination,
            ref(t[3], v.info, src, dst))


def same(t, got, want, d, src, dst, what):
    """Compare a cast value with the reference, structurally."""
    k = t[0]
    if k == 'cons':
        return same_constraint(got, want, d, src, dst, what)
    if k == 'opt':
        if want is None:
            return require(got is None, '%s: expected None, got %r', what, got)
        return same(t[1], got, want, d['v'], src, dst, what)
    if k == 'list':
        require(isinstance(got, list) and len(got) == len(want), '%s: got %r, expected a list of %d', what, got, len(want))
        for g, w, x in zip(got, want, d):
            same(t[1], g, w, x, src, dst, what)
        return
    if k == 'dist':
        require(isinstance(got, Distribution), '%s: not a distribution any more: %r', what, got)
        if type(want) is SingleValueDistribution:
            require(isinstance(got, SingleValueDistribution), '%s: single-value distribution became %r', what, got)
            same(t[1], got.get_value(), want.get_value(), d[1][0], src, dst, what)
        if isinstance(want, DiscreteDistribution):
            require(isinstance(got, DiscreteDistribution), '%s: discrete distribution became %r', what, got)
            gv, wv = got.get_values(), want.get_values()
            require(len(gv) == len(wv), '%s: support of size %d, expected %d', what, len(gv), len(wv))
            for (g, p), (w, q), x in zip(gv, wv, d[1]):
                eq(p, q, what + ' (weight)')
                same(t[1], g, w, x, src, dst, what)
        if len(d[1]) == 1 or type(want) is not DiscreteDistribution:
            same(t[1], got.sample(), want.sample(), d[1][0] if type(want) is SingleValueDistribution else d[1][-1],
                 src, dst, what + ' (sample)')
        return
    if k in ('env', 'tr'):
        cls = EnvironmentOutcome if k == 'env' else TransitionOutcome
        require(type(got) is cls, '%s: got %r, expected %s', what, got, cls.__name__)
        first = got.observation if k == 'env' else got.state
        for i, (n, g) in enumerate((('observation/state', first), ('value', got.value), ('info', got.info))):
            same(t[1 + i], g, want[(1, 2, 4)[i]], d[(0, 1, 2)[i]], src, dst, what + '.' + n)
        eq(got.termination, want[3], what + '.termination')
        return
    if k in ('m', 'a', 'c') and dst[k] and k == 'a':
        require(isinstance(got, dict), '%s: got %r, expected agents %r', what, got, want)
    if k == 'm' and dst['m']:
        require(isinstance(got, Memory), '%s: got %r, expected a memory', what, got)
    if k == 'c' and dst['c']:
        require(isinstance(got, list), '%s: got %r, expected a list', what, got)
    require(type(got) is type(want) and got == want, '%s: got %r, expected %r', what, got, want)


def conv(v, k, src, dst):
    return v


def same_constraint(got, orig, d, src, dst, what):
    """A cast constraint called with arguments of the destination level calls the original with the source level."""
    require(isinstance(got, Constraint), '%s: not a constraint: %r', what, got)
    eq(got.is_constraint_dependent_on_next_state(), d['dep'], what + ' (dependence on next state)')
    tm, ta = ['m', ['leaf', 'state']], ['a', ['c', ['leaf', 'event']]]

    def at(l):
        m = Memory(d['mem']) if l['m'] else d['mem'][-1]
        a = [d['act']] if l['c'] else d['act']
        return m, ({'agent': a} if l['a'] else a)
    m1, a1 = at(dst)
    orig.rec.calls.clear()
    res = got.check(m1, a1, d['nxt'])
    calls = list(orig.rec.calls)
    require(len(calls) == 1, '%s: checking once evaluated the constraint %d times', what, len(calls))
    m0, a0 = at(src)
    require(calls[0] == (m0, a0, d['nxt']) and type(calls[0][0]) is type(m0),
            '%s: constraint received %r, expected %r', what, calls[0], (m0, a0, d['nxt']))
    x = float(code(m0) + 3 * code(a0) + 5 * code(d['nxt']))
    want = {'imp': x % 2 == 0, '<': x < d['bound'], '<=': x <= d['bound'], '>': x > d['bound'],
            '>=': x >= d['bound']}[d['kind']]
    eq(bool(res), want, what + ' (check)')
    if d['kind'] != 'imp':
        eq(got.get_bound(), d['bound'], what + ' (bound)')
        eq(got.get_inequality(), d['kind'], what + ' (inequality)')
        eq(got.evaluate(m1, a1, d['nxt']), x, what + ' (evaluate)')


def uses(t, k):
    return t[0] == k or (t[0] == 'cons') or any(uses(x, k) for x in t[1:] if isinstance(x, list))


def needed(t, s, d):
    return any(s[k] != d[k] and uses(t, k) for k in 'mac')


# ---- 1: cast of arguments and results of an arbitrary function --------------------------------------------------
@st.composite
def call_cases(draw):
    src, dst = draw(LV), draw(LV)
    nargs = draw(st.integers(0, 3))
    ats = [draw(types()) for _ in range(nargs)]
    rt = draw(types())
    args = [draw(data(t, dst, src)) for t in ats]
    return dict(src=src, dst=dst, args=[[t, d] for t, d in zip(ats, args)], ret=[rt, draw(data(rt, src, dst))],
                kw=draw(st.lists(st.booleans(), min_size=3, max_size=3)), method=draw(st.booleans()),
                plain=draw(st.integers(0, 5)))


def check_call(case, ctx):
    src, dst = case['src'], case['dst']
    seen = {}
    rt, rd = case['ret']
    rv = build(rt, src, rd)
    names = ['arg%d' % i for i in range(len(case['args']))]
    ns = {'seen': seen, 'rv': rv}
    params = ''.join(', %s=None' % n for n in names)
    exec('class Obj:\n    def fun(self, other%s):\n        seen.update(dict(other=other%s))\n        return rv\n'
         'def fun(other%s):\n    seen.update(dict(other=other%s))\n    return rv\n' % (
             params, ''.join(', %s=%s' % (n, n) for n in names), params,
             ''.join(', %s=%s' % (n, n) for n in names)), ns)
    obj = ns['Obj']()
    raw = ns['Obj'].fun if case['method'] else ns['fun']
    raw.__annotations__ = {n: hint(t) for n, (t, _) in zip(names, case['args'])}
    raw.__annotations__['other'] = 'int'
    raw.__annotations__['return'] = hint(rt)
    f = obj.fun if case['method'] else raw
    g = autocast(f, level_obj(src), level_obj(dst))
    vals = [build(t, dst, d) for t, d in case['args']]
    pos, kws = [case['plain']], {}
    for n, v, kw in zip(names, vals, case['kw']):
        if kw or kws:
            kws[n] = v
        else:
            pos.append(v)
    out = g(*pos, **kws)
    need = any(needed(t, src, dst) for t, _ in case['args'] + [case['ret']])
    ctx.nontrivial(need)
    ctx.label('cast' if need else 'nocast', 'ret:' + rt[0])
    eq(seen.get('other'), case['plain'], 'argument without a level-dependent type')
    for n, v, (t, d) in zip(names, vals, case['args']):
        same(t, seen[n], ref(t, v, dst, src), d, dst, src, 'argument %s : %s' % (n, hint(t)))
    same(rt, out, ref(rt, rv, src, dst), rd, src, dst, 'result : %s' % hint(rt))


# ---- 2: to a more general level and back ------------------------------------------------------------------------
@st.composite
def rt_cases(draw):
    spec = draw(LV)
    gen = {k: spec[k] or draw(st.booleans()) for k in spec}
    t = draw(types())
    return dict(spec=spec, gen=gen, t=t, d=draw(data(t, spec, gen)))


def check_rt(case, ctx):
    t, spec, gen = case['t'], case['spec'], case['gen']
    v = build(t, spec, case['d'])
    box = {}

    def f():
        return box['v']
    f.__annotations__ = {'return': hint(t)}
    box['v'] = v
    up = autocast(f, level_obj(spec), level_obj(gen))()
    box['v'] = up
    back = autocast(f, level_obj(gen), level_obj(spec))()
    ctx.nontrivial(needed(t, spec, gen))
    d = case['d']
    if uses(t, 'cons') and 'cons' in str(t):
        return  # constraints are compared through calls in the other sub-check
    same(t, back, ref(t, v, spec, spec), d, spec, spec, 'general and back : ' + hint(t))


# ---- 3: a whole domain viewed at a more general level -----------------------------------------------------------
S, E, O = ['leaf', 'state'], ['leaf', 'event'], ['leaf', 'obs']
MEM, ACT, OBS = ['m', S], ['a', ['c', E]], ['a', O]
OUT = ['env', OBS, ['a', ['leaf', 'value']], ['a', ['leaf', 'info']]]


def outcome(t, v):
    return ref(t, v, _ID, _ID)


_ID = dict(m=False, a=False, c=False)


@st.composite
def view_cases(draw):
    ch = dict(agent=draw(st.sampled_from(CHAINS['agent'])), conc=draw(st.sampled_from(CHAINS['conc'])),
              memory=draw(st.sampled_from(['History', 'FiniteHistory', 'Markovian'])),
              dyn=draw(st.sampled_from(['EnumerableTransitions', 'DeterministicTransitions', 'Simulation'])),
              init=draw(st.sampled_from(CHAINS['init'])), events=draw(st.sampled_from(CHAINS['events'])),
              obs=draw(st.sampled_from(CHAINS['obs'])), constrained=True, renderable=True, goals=True,
              value=draw(st.sampled_from(CHAINS['value'])))
    if ch['agent'] == 'MultiAgent' and ch['obs'] == 'FullyObservable':
        ch['obs'] = 'TransformedObservable'
    spec = draw(specs(ch=ch))
    M = Model(spec)
    spec_l = dict(m=M.hist, a=M.multi, c=M.par)
    gen = {k: spec_l[k] or draw(st.booleans()) for k in spec_l}
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['reset', 'step', 'sample', 'set_memory', 'dist', 'value', 'next', 'applicable', 'goals',
                         'obsdist', 'obs', 'constraints', 'action_space', 'enabled', 'init', 'is_app', 'is_goal',
                         'render', 'terminal', 'check_value', 'is_obs']),
        raw_memory(spec, M), raw_action(spec, M), st.integers(0, M.n - 1), st.booleans()).map(list),
        min_size=1, max_size=8))
    return dict(spec=spec, gen=gen, ops=ops)


def spaces_equal(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(spaces_equal(a[k], b[k]) for k in b)
    return (hasattr(a, 'get_elements') and list(a.get_elements()) == list(b.get_elements()))


def check_view(case, ctx):
    import random
    spec = case['spec']
    M = Model(spec)
    cls = make_domain(spec)
    src = dict(m=M.hist, a=M.multi, c=M.par)
    dst = case['gen']
    plain, viewed = cls(), cls()
    autocast_all(viewed, viewed, level_obj(dst))
    ctx.nontrivial(src != dst)
    up = lambda t, v: ref(t, v, src, dst)
    random.seed(5)
    st0 = random.getstate()
    plain.reset()
    random.setstate(st0)
    viewed.reset()
    for op, m, a, s, flag in case['ops']:
        m = mem(M, m)
        M_up, A_up = up(MEM, m), up(ACT, a)
        st0 = random.getstate()

        def both(name, args, uargs, t, opt=True):
            if not hasattr(plain, name):
                return None
            ctx.label(name)
            random.setstate(st0)
            r = getattr(plain, name)(*args)
            random.setstate(st0)
            g = getattr(viewed, name)(*uargs)
            if t is None:
                eq(g, r, name)
            elif t[0] == 'space':
                w = ref(['a', ['leaf', 'space']], r, src, dst) if t[1] else r
                require(spaces_equal(g, w), '%s: spaces differ: %r %r', name, g, w)
            elif t[0] == 'env':
                w = up(t, r)
                got = ('env', g.observation, g.value, g.termination, g.info)
                eq(got, w, name)
            elif t[0] == 'dist':
                w = up(t, r)
                if isinstance(w, DiscreteDistribution):
                    require(isinstance(g, DiscreteDistribution), '%s: got %r', name, g)
                    eq(g.get_values(), w.get_values(), name)
                random.setstate(st0)
                x = g.sample()
                random.setstate(st0)
                eq(x, w.sample(), name + ' (sample)')
            else:
                eq(g, up(t, r), name)
            return r, g
        if op == 'reset':
            both('reset', (), (), OBS)
        elif op == 'step':
            both('step', (a,), (A_up,), OUT)
        elif op == 'sample':
            both('sample', (m, a), (M_up, A_up), OUT)
        elif op == 'set_memory':
            both('set_memory', (m,), (M_up,), None)
        elif op == 'dist':
            both('get_next_state_distribution', (m, a), (M_up, A_up), ['dist', S])
        elif op == 'value':
            both('get_transition_value', (m, a, s) if flag else (m, a), (M_up, A_up, s) if flag else (M_up, A_up),
                 ['a', ['leaf', 'value']])
            both('is_transition_value_dependent_on_next_state', (), (), None)
        elif op == 'next':
            both('get_next_state', (m, a), (M_up, A_up), S)
        elif op == 'applicable':
            both('get_applicable_actions', (m,) if flag else (), (M_up,) if flag else (), ['space', True])
        elif op == 'action_space':
            both('get_action_space', (), (), ['space', True])
            both('get_observation_space', (), (), ['space', True])
        elif op == 'goals':
            both('get_goals', (), (), ['space', True])
        elif op == 'obsdist':
            both('get_observation_distribution', (s, a) if flag else (s,), (s, A_up) if flag else (s,),
                 ['dist', OBS])
        elif op == 'obs':
            both('get_observation', (s, a) if flag else (s,), (s, A_up) if flag else (s,), OBS)
        elif op == 'enabled':
            if spec['ch']['events'] == 'Events':
                both('get_enabled_events', (m,) if flag else (), (M_up,) if flag else (), ['space', False])
                both('is_enabled_event', (s, m), (s, M_up), None)
        elif op == 'init':
            both('get_initial_state', (), (), S)
            both('get_initial_state_distribution', (), (), ['dist', S])
        elif op == 'is_app':
            if not M.par:
                both('is_applicable_action', (a, m), (up(['a', E], a), M_up), None)
        elif op == 'is_goal':
            o = M.obs(s, None)[0][0]
            both('is_goal', (o,), (up(OBS, o),), None)
        elif op == 'is_obs':
            o = M.obs(s, a if flag else None)[0][0]
            both('is_observation', (o,), (up(OBS, o),), None)
        elif op == 'terminal':
            both('is_terminal', (s,), (s,), None)
        elif op == 'check_value':
            v = TransitionValue(cost=s - 1)
            both('check_value', (v,), (v,), None)
        elif op == 'render':
            r = plain.render(m, extra=s)
            g = viewed.render(M_up, extra=s)
            eq(g, r, 'render (what the domain renders is in its own level)')
        elif op == 'constraints':
            r, g = plain.get_constraints(), viewed.get_constraints()
            ctx.label('get_constraints')
            eq(len(g), len(r), 'number of constraints')
            for c0, c1 in zip(r, g):
                eq(c1.check(M_up, A_up, s), c0.check(m, a, s), 'constraint check')
                eq(c1.is_constraint_dependent_on_next_state(), c0.is_constraint_dependent_on_next_state(),
                   'constraint dependence')
                if isinstance(c0, BoundConstraint):
                    eq(c1.evaluate(M_up, A_up, s), c0.evaluate(m, a, s), 'constraint evaluation')
    # the internal memory is in the domain's own level
    require(type(viewed._memory) is type(plain._memory) and viewed._memory == plain._memory,
            'memory after the calls: %r, expected %r', viewed._memory, plain._memory)


SUBCHECKS = [
    Sub('call_cast', call_cases, check_call, quick=4500, thorough=12000,
        rule='1-3 random annotated arguments and result; non-trivial: the levels differ on a container used'),
    Sub('general_and_back', rt_cases, check_rt, quick=3600, thorough=8000, rule='non-trivial: some container is converted'),
    Sub('domain_view', view_cases, check_view, quick=2700, thorough=5000,
        rule='domain and its more general view answer the same calls; non-trivial: levels differ'),
]
