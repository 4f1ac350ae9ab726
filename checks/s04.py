"""S04: exact policy evaluation against an independent linear-time recursion and simulation-free reference."""
from hypothesis import strategies as st

from skdecide.hub.solver.policy_evaluators.policy_evaluator import (compute_expected_cost_for_policy,)
from skdecide.builders.solver import DeterministicPolicies
from harness.api import Sub, require, eq, close
from harness.tabledomain import Model, make_domain, specs

RULE = ('Random goal MDPs (layered, so policies are mostly proper, or arbitrary) and random deterministic policies; expected costs are '
        'recomputed by recursion. Non-trivial: the policy visits a state with several outcomes.')
ASSUMPTIONS = ['a value is required exactly for the states from which the policy surely reaches a goal without looping']
CH = dict(dyn=st.sampled_from(['EnumerableTransitions', 'EnumerableTransitions', 'DeterministicTransitions']), memory='Markovian',
          obs='FullyObservable', value='PositiveCosts', events='UnrestrictedActions', goals=True)


@st.composite
def cases(draw):
    spec = draw(specs(ch=CH, max_n=8, min_n=2, weights=(1, 1, 2, 3, 4, 150)))
    n = spec['n']
    if draw(st.integers(0, 3)):
        spec['init'] = [[0, 1]]
        spec['goals'] = [g for g in spec['goals'] if g]
    layered = draw(st.integers(0, 3)) > 0
    if layered:
        spec['trans'] = [[[[min(n - 1, s + 1 + t % max(1, n - 1 - s)), w] for t, w in row] for row in rows]
                         for s, rows in enumerate(spec['trans'])]
        spec['goals'] = sorted(set(spec['goals'] + [n - 1]))
    if draw(st.integers(0, 3)):
        spec['term'] = list(spec['goals'])
    for s, rows in enumerate(spec['trans']):
        for row in rows:
            if draw(st.integers(0, 5)) == 0:  # an outcome which is listed, but never happens
                t = draw(st.integers(0, n - 1))
                if t not in [x for x, _ in row]:
                    row.insert(draw(st.integers(0, 1)) if spec['ch']['dyn'] == 'EnumerableTransitions' else 1, [t, 0])
    return dict(spec=spec, policy=[draw(st.integers(0, spec['na'] - 1)) for _ in range(n)])


def check(case, ctx):
    spec = case['spec']
    M = Model(dict(spec, trans=[[[x for x in row if x[1]] for row in rows] for rows in spec['trans']]))
    cls = make_domain(spec)
    pol = case['policy']

    class Pol(DeterministicPolicies):
        T_domain = cls

        def _get_next_action(self, observation):
            return pol[observation]

        def _is_policy_defined_for(self, observation):
            return True
    values, policy, preds, succs = compute_expected_cost_for_policy(cls(), Pol())
    start = M.init()[0][0]
    seen, todo = set(), [start]
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if not M.terminal(u):
            todo += [v for v, p in M.trans(u, pol[u])]
    visited = {u for u in seen if not M.terminal(u)}
    eq(dict(policy), {u: pol[u] for u in visited}, 'actions of the policy over the states it visits')
    for u in visited:
        eq({v for v, p in succs[u] if p}, {v for v, p in M.trans(u, pol[u])}, 'successors of %r' % u)
        for v, p in M.trans(u, pol[u]):
            require(u in preds[v], '%r is a predecessor of %r', u, v)
    for v in seen:
        eq(set(preds.get(v, ())), {u for u in visited if v in [w for w, _ in M.trans(u, pol[u])]}, 'predecessors of %r' % v)
    memo = {}

    def cost(u, path=()):
        if u in M.goals1():
            return 0.0
        if u in path or M.terminal(u):
            return None
        if u not in memo:
            tot = 0.0
            for v, p in M.trans(u, pol[u]):
                c = cost(v, path + (u,))
                if c is None:
                    memo[u] = None
                    break
                tot += p * (abs(M.value(u, pol[u], v)) + c)
            else:
                memo[u] = tot
        return memo[u]
    for u in seen:
        c = cost(u)
        if u in M.goals1() and not [x for x in visited if u in [w for w, _ in M.trans(x, pol[x])]]:
            continue  # a goal nothing leads to: not listed
        if c is None:
            require(u not in values, 'a value %r is given for %r, whose cost is not defined', values.get(u), u)
        else:
            require(u in values, 'no value is given for %r, whose expected cost is %s', u, c)
            close(values[u], c, 'expected cost from %r' % u)
    ctx.nontrivial(any(len(M.trans(u, pol[u])) > 1 for u in visited) and cost(start) not in (None, 0.0))
SUBCHECKS = [Sub('expected_cost', cases, check, quick=2400, thorough=20000, rule=RULE)]
