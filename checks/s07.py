"""S07: policies estimated by rollouts, and policies choosing among policies, against the executions that take place."""
from hypothesis import strategies as st

from skdecide.builders.solver import DeterministicPolicies
from skdecide.hub.solver.meta_policy.meta_policies import MetaPolicy
from skdecide.hub.solver.policy_evaluators.policy_evaluator import (
    rollout_based_compute_expected_cost_for_policy, rollout_based_compute_expected_cost_for_policy_scheduling,
    rollout_based_policy_estimation, rollout_based_policy_estimation_fast_scheduling)
from harness.api import Sub, require, eq, close
from harness.scheddomain import *

RULE = ('Random scheduling projects (deterministic or distributed durations) and random priority policies, some of which wait; '
        'the transitions and costs of every rollout are recorded and averaged independently; the choice of the meta policy is compared with the '
        'makespans of its policies in a reference model. Non-trivial: several rollouts of different cost, or policies that differ in action and makespan.')
ASSUMPTIONS = ['policies are evaluated from the initial state of a scheduling domain (what the rollouts of the library are made for)',
               'the cost of a state is the mean, over its visits, of the costs paid from it to the end of the rollout']


@st.composite
def rules(draw, p):
    pairs = [[t, m + 1] for t, ms in zip(p['ids'], p['tasks']) for m in range(len(ms))]
    return dict(order=draw(st.permutations(pairs)), wait=draw(st.sampled_from([0, 0, 0, 1, 3])))


def decide(rule, options, t):
    """The action of a priority rule among applicable ones."""
    options = set(options)
    if t >= rule['wait']:
        for i, m in rule['order']:
            if ('START', i, m) in options:
                return 'START', i, m
    return 'TIME_PR', None, None


class Rule(DeterministicPolicies):
    T_domain = None

    def __init__(self, dom, rule):
        self.dom, self.rule = dom, rule

    def _get_next_action(self, observation):
        return build(decide(self.rule, map(akey, self.dom.get_applicable_actions(observation).get_elements()), observation.t))

    def _is_policy_defined_for(self, observation):
        return True

    def reset(self):
        pass


def policy(dom, rule):
    return type('Rule_', (Rule,), dict(T_domain=type(dom)))(dom, rule)


def run(model, rule):
    """The end of the deterministic execution of a rule."""
    n = 0
    while True:
        model = model.apply(decide(rule, model.applicable(), model.t))[0][0]
        n += 1
        if model.finished() or model.terminal():
            return model


@st.composite
def estimates(draw):
    p = draw(projects(level=('det', 'unc', 'unc'), costs=draw(st.booleans())))
    return dict(p=p, rule=draw(rules(p)), n=draw(st.integers(1, 5)), long=draw(st.booleans()))


def record(dom):
    """Logs the transitions: [(state, action, next state, cost, over)]."""
    log = []
    value = dom.get_transition_value

    def get_transition_value(memory, action, next_state):
        v = value(memory, action, next_state)
        log.append((memory, akey(action), next_state, v.cost, dom.is_goal(next_state) or dom.is_terminal(next_state), next_state.t))
        return v
    dom.get_transition_value = get_transition_value
    return log


def episodes(log):
    out = [[]]
    for x in log:
        out[-1].append(x)
        if x[4]:
            out.append([])
    require(not out.pop(), 'the last rollout is not over')
    return out


def estimate(c, ctx):
    p = c['p']
    dom = make_domain(p)
    log = record(dom)
    f = rollout_based_compute_expected_cost_for_policy if c['long'] else rollout_based_policy_estimation
    values, actions, preds, succs = f(dom, policy(dom, c['rule']), nb_rollout=c['n'])
    eps = episodes(log)
    eq(len(eps), c['n'], 'rollouts made')
    start = dom.get_initial_state()
    total, count, act, before, after = {}, {}, {}, {}, {}
    for ep in eps:
        eq(ep[0][0], start, 'first state of a rollout')
        cost = 0
        for i in range(len(ep) - 1, -1, -1):
            s, a, n, v, _, _ = ep[i]
            require(i + 1 == len(ep) or n == ep[i + 1][0], 'a rollout jumps from one state to another')
            cost += v
            total[s] = total.get(s, 0) + cost
            count[s] = count.get(s, 0) + 1
            act[s] = a
            after.setdefault(s, set()).add(n)
            if i:
                before.setdefault(s, set()).add(ep[i - 1][0])
    show = lambda s: 't=%s, complete %s, ongoing %s' % (s.t, sorted(s.tasks_complete), sorted(s.tasks_ongoing))
    eq(set(values), set(total), 'states with an estimate')
    for s in total:
        close(values[s], total[s] / count[s], 'estimate of the state %s, visited %d times' % (show(s), count[s]))
        eq(akey(actions[s]), act[s], 'action in the state ' + show(s))
        eq(set(preds[s]), before.get(s, set()), 'states seen before ' + show(s))
        eq(set(succs[s]), after[s], 'states seen after ' + show(s))
    if p['level'] == 'det' and p['objectives'] == ['MAKESPAN']:
        close(values[start], run(Model(p), c['rule']).t, 'estimate of a deterministic execution')
    ctx.label(p['level'])
    ctx.nontrivial(c['n'] > 1 and (p['level'] == 'det' or len({sum(x[3] for x in e) for e in eps}) > 1))


def makespan(c, ctx):
    p = c['p']
    dom = make_domain(p)
    log = record(dom)
    f = rollout_based_compute_expected_cost_for_policy_scheduling if c['long'] else rollout_based_policy_estimation_fast_scheduling
    before = str(dom.get_initial_state())
    values, actions, preds, succs = f(dom, policy(dom, c['rule']), nb_rollout=c['n'])
    eps = episodes(log)
    eq(len(eps), c['n'], 'rollouts made')
    start = dom.get_initial_state()
    eq(str(start), before, 'the initial state after the rollouts')
    eq(set(values), {start}, 'states with an estimate')
    ends = [e[-1][5] for e in eps]
    close(values[start], sum(ends) / len(ends), 'mean end of the rollouts %s' % ends)
    if p['level'] == 'det':
        close(values[start], run(Model(p), c['rule']).t, 'end of a deterministic execution')
    ctx.label(p['level'])
    ctx.nontrivial(c['n'] > 1 and (p['level'] == 'det' or len(set(ends)) > 1))


@st.composite
def choosers(draw):
    p = draw(projects(level=('det',) * 4 + ('unc',)))
    return dict(p=p, rules=[draw(rules(p)) for _ in range(draw(st.integers(1, 3)))], n=draw(st.integers(1, 2)), again=draw(st.booleans()))


def choose(c, ctx):
    p = c['p']
    dom, known = make_domain(p), make_domain(p)
    meta = MetaPolicy({'p%d' % i: policy(known, r) for i, r in enumerate(c['rules'])}, dom, known, nb_rollout_estimation=c['n'], verbose=False)
    for episode in range(1 + c['again']):
        s, model = dom.get_initial_state(), Model(p)
        if episode:
            meta.reset()
        while not (model.finished() or model.terminal()):
            before = str(s)
            can = [decide(r, model.applicable(), model.t) for r in c['rules']]
            ends = [run(model, r).t for r in c['rules']] if p['level'] == 'det' else [0] * len(can)
            best = {a for a, e in zip(can, ends) if e == min(ends)}
            require(meta.is_policy_defined_for(s), 'the policy is not defined')
            a = meta.get_next_action(s)
            eq(str(s), before, 'the state after a choice')
            require(akey(a) in best, 'at time %d: chose %s, the policies do %s and end at %s', model.t, akey(a), can, ends)
            if len(set(can)) > 1 and len(set(ends)) > 1:
                ctx.nontrivial()
            if p['level'] != 'det':
                return
            s = dom.get_next_state(s, a)
            model = model.apply(akey(a))[0][0]
            eq(diff(signature(p, dom, s), model.signature()), {}, 'state after the choice')
    ctx.label('policies:%d' % len(c['rules']))


SUBCHECKS = [
    Sub('estimate', estimates, estimate, 1500, 8000, 'several rollouts, of different cost if durations are random'),
    Sub('makespan', estimates, makespan, 1500, 8000, 'as estimate'),
    Sub('choice', choosers, choose, 1200, 6000, 'some choice was between different actions leading to different makespans'),
]
