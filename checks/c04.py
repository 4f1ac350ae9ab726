"""C04: distributions, values, constraints and the levels of dynamics."""
import math
import random

from hypothesis import strategies as st

from skdecide import (DiscreteDistribution, ImplicitDistribution, SingleValueDistribution, TransitionValue,
                      EnvironmentOutcome, TransitionOutcome, ImplicitConstraint, BoundConstraint, Memory)
from skdecide.builders.domain import PositiveCosts
from harness.api import Sub, require, eq
from harness.tabledomain import Model, make_domain, specs, raw_action, raw_memory, mem
from checks.c02 import characteristics

RULE = ('Generated distributions, values, outcomes and constraints compared with their definitions; table-defined '
        'dynamics at every level of detail compared with their table, including sampling frequencies.')
ASSUMPTIONS = ['sampling frequencies are judged with a 7-sigma band over 1500 draws (seeded by the case)']
N = 1500


def freq_ok(counts, probs, n, what):
    for k, p in probs.items():
        sd = math.sqrt(n * p * (1 - p))
        require(abs(counts.get(k, 0) - n * p) <= 7 * sd + 1, '%s: %r drawn %d times of %d, declared probability %g',
                what, k, counts.get(k, 0), n, p)
    for k in counts:
        require(k in probs, '%s: %r drawn, outside of the declared support', what, k)


def agg(pairs):
    tot = float(sum(w for _, w in pairs))
    out = {}
    for v, w in pairs:
        if w:
            out[v] = out.get(v, 0.0) + w / tot
    return out


W = st.one_of(st.integers(0, 5), st.sampled_from([0.1, 0.25, 0.5, 1.5]))


@st.composite
def dist_cases(draw):
    vs = draw(st.lists(st.tuples(st.integers(-3, 3), W).map(list), min_size=1, max_size=6))
    if not any(w for _, w in vs):
        vs[0][1] = 1
    return dict(vs=vs, one=draw(st.one_of(st.integers(), st.none(), st.text(max_size=3))))


def check_dist(case, ctx):
    vs = [(v, w) for v, w in case['vs']]
    d = DiscreteDistribution(vs)
    eq([tuple(x) for x in d.get_values()], vs, 'values of the distribution')
    c = {}
    for _ in range(N):
        x = d.sample()
        c[x] = c.get(x, 0) + 1
    freq_ok(c, agg(vs), N, 'discrete distribution %r' % (vs,))
    s = SingleValueDistribution(case['one'])
    eq(s.get_value(), case['one'], 'single value')
    eq(s.get_values(), [(case['one'], 1.0)], 'single value, as values')
    eq(s.sample(), case['one'], 'single value, sampled')
    box = []

    def fn():
        box.append(len(box))
        return box[-1] * 3
    i = ImplicitDistribution(fn)
    for k in range(4):
        eq(i.sample(), 3 * k, 'implicit distribution')
    ctx.nontrivial(len(agg(vs)) > 1)


num = st.one_of(st.integers(-100, 100), st.floats(-1e6, 1e6, allow_nan=False))


@st.composite
def val_cases(draw):
    ob = st.one_of(st.integers(0, 5), st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.integers(0, 5), max_size=3))
    return dict(r=draw(st.one_of(st.none(), num)), c=draw(st.one_of(st.none(), num)), obs=draw(ob),
                v=draw(st.one_of(st.none(), num)), term=draw(st.booleans()), info=draw(st.one_of(st.none(), st.text(max_size=2))),
                new=draw(ob), fterm=draw(st.booleans()))


def check_val(case, ctx):
    r, c = case['r'], case['c']
    t = TransitionValue(reward=r, cost=c)
    want = r if r is not None else (-c if c is not None else 0)
    eq(t.reward, want, 'reward of TransitionValue(reward=%r, cost=%r)' % (r, c))
    eq(t.cost, -want, 'cost of TransitionValue(reward=%r, cost=%r)' % (r, c))
    eq(TransitionValue(cost=t.cost), t, 'same value from its cost')
    eq(TransitionValue(reward=t.reward), t, 'same value from its reward')

    class PC(PositiveCosts):
        pass
    eq(bool(PC().check_value(t)), t.cost >= 0, 'positive cost test of %r' % t)
    obs, multi = case['obs'], isinstance(case['obs'], dict)
    for cls, first in ((EnvironmentOutcome, 'observation'), (TransitionOutcome, 'state')):
        v = None if case['v'] is None else ({k: TransitionValue(cost=case['v']) for k in obs} if multi else
                                            TransitionValue(cost=case['v']))
        info = None if case['info'] is None else ({k: case['info'] for k in obs} if multi else case['info'])
        o = cls(obs, v, case['term'], info)
        eq(getattr(o, first), obs, first)
        eq(o.termination, case['term'], 'termination')
        zero = TransitionValue(reward=0)
        eq(o.value, v if v is not None else ({k: zero for k in obs} if multi else zero), 'value of the outcome')
        eq(o.info, info if info is not None else ({k: None for k in obs} if multi else None), 'info of the outcome')
        eq(cls(obs).termination, False, 'default termination')
        o2 = o.replace(termination=case['fterm'])
        eq((getattr(o2, first), o2.value, o2.termination, o2.info), (obs, o.value, case['fterm'], o.info), 'replace')
        eq(o.termination, case['term'], 'original after replace')
        d = o.asdict()
        eq(set(d), {first, 'value', 'termination', 'info'}, 'fields')
        eq((d[first], d['termination'], d['info']), (obs, case['term'], o.info), 'fields as a dictionary')
        tp = o.astuple()
        eq((tp[0], tp[2], tp[3]), (obs, case['term'], o.info), 'fields as a tuple')
    ctx.nontrivial(r is not None or c is not None)
    ctx.label('both' if r is not None and c is not None else '', 'multi' if multi else '')


@st.composite
def cons_cases(draw):
    return dict(ineq=draw(st.sampled_from(['<', '<=', '>', '>='])), bound=draw(st.one_of(st.integers(-3, 3), num)),
                w=draw(st.tuples(*[st.integers(-2, 2)] * 3).map(list)), dep=draw(st.booleans()),
                args=draw(st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3),
                                             st.one_of(st.none(), st.integers(-3, 3))).map(list), min_size=1, max_size=8)))


def check_cons(case, ctx):
    w = case['w']
    seen = []

    def ev(m, a, s):
        seen.append((m, a, s))
        return w[0] * m + w[1] * a + w[2] * (s if s is not None else 0)
    b = BoundConstraint(ev, case['ineq'], case['bound'], case['dep'])
    i = ImplicitConstraint(lambda m, a, s: ev(m, a, s) % 2 == 0, case['dep'])
    eq(b.get_bound(), case['bound'], 'bound')
    eq(b.get_inequality(), case['ineq'], 'inequality')
    eq(b.is_constraint_dependent_on_next_state(), case['dep'], 'dependence on the next state')
    eq(i.is_constraint_dependent_on_next_state(), case['dep'], 'dependence on the next state')
    res = set()
    for m, a, s in case['args']:
        x = w[0] * m + w[1] * a + w[2] * (s if s is not None else 0)
        want = {'<': x < case['bound'], '<=': x <= case['bound'], '>': x > case['bound'], '>=': x >= case['bound']}[case['ineq']]
        args = (m, a) if s is None else (m, a, s)
        res.add(want)
        del seen[:]
        eq(bool(b.check(*args)), want, '%s %s %s' % (x, case['ineq'], case['bound']))
        require(all(q == (m, a, s) for q in seen), 'constraint evaluated on %r instead of %r', seen, (m, a, s))
        eq(b.evaluate(*args), x, 'evaluation')
        eq(bool(i.check(*args)), x % 2 == 0, 'implicit constraint')
    ctx.nontrivial(len(res) == 2 or case['bound'] in [w[0] * m + w[1] * a + w[2] * (s or 0) for m, a, s in case['args']])


@st.composite
def dyn_cases(draw):
    spec = draw(specs(ch=draw(characteristics(dyn=st.sampled_from(
        ['UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions']), constrained=True))))
    M = Model(spec)
    return dict(spec=spec, mem=draw(raw_memory(spec, M)), a=draw(raw_action(spec, M)), s=draw(st.integers(0, M.n - 1)))


def check_dyn(case, ctx):
    spec = case['spec']
    M = Model(spec)
    dom = make_domain(spec)()
    m, a = mem(M, case['mem']), case['a']
    sup = dict(M.trans(m, a))
    d = dom.get_next_state_distribution(m, a)
    if M.ch['dyn'] == 'DeterministicTransitions':
        require(isinstance(d, SingleValueDistribution), 'deterministic next state distribution: %r', d)
        eq(dom.get_next_state(m, a), list(sup)[0], 'next state')
    if M.ch['dyn'] != 'UncertainTransitions':
        require(isinstance(d, DiscreteDistribution), 'enumerable next state distribution: %r', d)
        eq(agg([tuple(x) for x in d.get_values()]), agg(list(sup.items())), 'next state distribution')
    c, c2 = {}, {}
    n = 400
    dom.reset()
    for _ in range(n):
        x = d.sample()
        c[x] = c.get(x, 0) + 1
        out = dom.sample(m, a)
        if M.ch['obs'] == 'FullyObservable':
            c2[out.observation] = c2.get(out.observation, 0) + 1
            eq(out.value, M.mk_value(M.value(m, a, out.observation)), 'value of the sampled transition')
            eq(out.termination, M.terminal(out.observation), 'termination of the sampled transition')
    freq_ok(c, sup, n, 'next state')
    if c2:
        freq_ok(c2, sup, n, 'sampled next state')
    for nx in (None, case['s']):
        args = (m, a) if nx is None else (m, a, nx)
        got = dom.get_transition_value(*args)
        eq(got, M.mk_value(M.value(m, a, nx)), 'transition value towards %r' % nx)
        for k, v in (got.items() if M.multi else [('agent', got)]):
            eq(v.reward, -v.cost, 'reward and cost')
            eq(bool(dom.check_value(v)), v.cost >= 0 if M.ch['value'] == 'PositiveCosts' else True, 'value check')
    for _ in range(2):
        eq(dom.is_transition_value_dependent_on_next_state(), bool(spec.get('rdep')), 'dependence on the next state')
    eq(bool(dom.is_terminal(case['s'])), M.terminal(case['s']), 'terminal')
    if hasattr(dom, 'get_initial_state_distribution'):
        eq(agg([tuple(x) for x in dom.get_initial_state_distribution().get_values()]), agg(M.init()), 'initial distribution')
    if hasattr(dom, 'get_initial_state'):
        eq(dom.get_initial_state(), M.init()[0][0], 'initial state')
    cons = dom.get_constraints()
    x = float(M.eff(m) + 2 * M.joint(a) + 3 * case['s'])
    eq(bool(cons[0].check(m, a, case['s'])), x <= spec['bound'], 'domain constraint')
    ctx.nontrivial(len(sup) > 1 or M.ch['dyn'] == 'DeterministicTransitions')
    ctx.label(M.ch['dyn'])


SUBCHECKS = [
    Sub('distributions', dist_cases, check_dist, quick=900, thorough=4000, rule='non-trivial: at least two values with positive weight'),
    Sub('values_outcomes', val_cases, check_val, quick=4500, thorough=15000, rule='non-trivial: a reward or a cost is given'),
    Sub('constraints', cons_cases, check_cons, quick=4500, thorough=15000, rule='non-trivial: both verdicts, or equality with the bound'),
    Sub('dynamics_levels', dyn_cases, check_dyn, quick=1500, thorough=5000, rule='non-trivial: several next states or deterministic level'),
]
