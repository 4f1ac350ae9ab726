"""S01: LazyA* against exact shortest distances."""
from hypothesis import strategies as st

from skdecide.hub.solver.lazy_astar import LazyAstar
from harness.api import Sub, require, eq, close
from harness.graphdomain import graphs, detours, chains, heuristics, domain_class, to_goal, name, index, INF

RULE = ('Random weighted graphs (self loops, parallel edges, zero costs, unreachable goals, start in goal) as planning '
        'domains; consistent heuristics derived from the exact cost to go; arbitrary heuristics and weights for plan validity; '
        'a case counts when the start is not a goal and the search had a choice.')
ASSUMPTIONS = ['optimality is required for consistent heuristics (the search does not reopen states), cost within the weight '
               'factor of the optimum for weights of at least 1', 'what the policy answers in a goal state is not constrained']


@st.composite
def cases(draw):
    g = draw(st.one_of(graphs(), detours()))
    kind = draw(st.sampled_from(['consistent', 'consistent', 'none', 'any']))
    h = None if kind == 'none' else draw(heuristics(g)) if kind == 'consistent' else \
        [draw(st.integers(0, 20)) / 4 for _ in range(g['n'])]
    return dict(g=g, kind=kind, h=h, weight=draw(st.sampled_from([1.0, 1.0, 1.0, 0.0, 0.5, 2.0, 4.0])),
                start=draw(st.one_of(st.none(), st.none(), st.integers(0, g['n'] - 1))),
                again=draw(st.booleans()), via=draw(st.booleans()))


@st.composite
def informed(draw):
    g, h = draw(chains())
    return dict(g=g, kind='consistent', h=h, weight=draw(st.sampled_from([1.0, 1.0, 0.5, 1.5])),
                start=draw(st.sampled_from([None, None, None, 0, 1])), again=draw(st.booleans()), via=draw(st.booleans()))


def heuristic(g, h):
    return lambda d, s: INF if h[index(g, s)] is None else h[index(g, s)]


def follow(g, start, act, limit):
    """Follow a policy from start to a goal -> visited states, cost."""
    s, cost, seen = start, 0.0, [start]
    while s not in g['goals']:
        require(len(seen) <= limit, 'the policy does not reach a goal: %s', seen)
        a = act(name(g, s))
        require(isinstance(a, int) and 0 <= a < len(g['edges'][s]), 'action %r is not applicable in %r', a, s)
        s, c = g['edges'][s][a]
        cost += c
        seen.append(s)
    return seen, cost


def check(case, ctx):
    g = case['g']
    D = domain_class(g)
    best = to_goal(g)
    start = g['init'] if case['start'] is None else case['start']
    require(LazyAstar.check_domain(D()), 'compatible domain is rejected')
    kw = {}
    if case['h'] is not None:
        kw['heuristic'] = heuristic(g, case['h'])
    solver = LazyAstar(from_state=None if case['start'] is None else name(g, case['start']), weight=case['weight'], **kw)
    solve = (lambda: D.solve_with(solver)) if case['via'] else (lambda: solver.solve(D))
    solve()
    if case['again']:
        solve()
    ctx.label('kind:' + case['kind'], 'weight:%s' % case['weight'])
    if best[start] == INF:
        ctx.label('unsolvable')
        for s in range(g['n']):
            require(not solver.is_policy_defined_for(name(g, s)), 'no plan exists from %r but the policy is defined for %r', start, s)
        ctx.nontrivial(bool(g['edges'][start]))
        return
    seen, cost = follow(g, start, solver.get_next_action, g['n'])
    ctx.nontrivial(start not in g['goals'] and any(len(e) > 1 for e in g['edges']))
    ctx.label('length:%d' % min(len(seen) - 1, 5))
    eq(len(set(seen)), len(seen), 'states of the plan %s are visited once' % seen)
    for s in range(g['n']):
        eq(bool(solver.is_policy_defined_for(name(g, s))), s in seen, 'policy defined for %r (plan %s)' % (s, seen))
    w = case['weight']
    if case['kind'] != 'any' or w == 0:
        bound = best[start] * max(w, 1.0) if case['kind'] == 'consistent' else best[start]
        require(cost <= bound + 1e-9, 'plan cost %s from %r exceeds %s (optimum %s, weight %s)', cost, start, bound, best[start], w)
        to_go, s = cost, start
        for i, s in enumerate(seen):
            close(solver.get_utility(name(g, s)), to_go, 'reported cost to go of %r on the plan %s' % (s, seen))
            if i + 1 < len(seen):
                to_go -= g['edges'][s][solver.get_next_action(name(g, s))][1]
SUBCHECKS = [Sub('plans', cases, check, quick=7500, thorough=30000, rule=RULE),
             Sub('heuristics', informed, check, quick=4500, thorough=20000, rule=RULE)]
