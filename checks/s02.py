"""S02: LRTA* against exact costs to go."""
import contextlib
import io

from hypothesis import strategies as st

from skdecide.hub.solver.lrtastar import LRTAstar
from harness.api import Sub, require, eq, close
from harness.graphdomain import chains, graphs, heuristics, domain_class, to_goal, name, index, INF
from checks.s01 import heuristic, follow

RULE = ('Random weighted graphs; consistent heuristics from the exact cost to go; cyclic graphs (goal reached) and acyclic '
        'ones (optimal plan, admissible values); a case counts when the start is not a goal and some state has a choice.')
ASSUMPTIONS = ['each trial of the solver avoids the states already visited in it, so optimality and admissible values are only '
               'required on acyclic domains', 'what the policy answers in a goal state is not constrained',
               'max_depth is at least the number of states and max_iter large enough for convergence of the acyclic cases']


@st.composite
def cases(draw, acyclic=False):
    g = draw(graphs(acyclic=acyclic, max_n=8, min_n=2 if acyclic else 1))
    return dict(g=g, acyclic=acyclic, h=draw(st.one_of(st.none(), heuristics(g))),
                start=draw(st.one_of(st.none(), st.none(), st.integers(0, g['n'] - 1))),
                slack=draw(st.integers(0, 3)), iters=draw(st.integers(0, 10)), again=draw(st.booleans()))


def check(case, ctx):
    g = case['g']
    D = domain_class(g)
    best = to_goal(g)
    start = g['init'] if case['start'] is None else case['start']
    kw = {}
    if case['h'] is not None:
        kw['heuristic'] = heuristic(g, case['h'])
    iters = 5000 if case['acyclic'] and best[start] != INF else g['n'] + 2 + case['iters']
    solver = LRTAstar(from_state=None if case['start'] is None else name(g, case['start']),
                      max_iter=iters, max_depth=g['n'] + case['slack'], **kw)
    with contextlib.redirect_stdout(io.StringIO()):
        solver.solve(D)
        if case['again']:
            solver.solve(D)
    for s in range(g['n']):
        d, a = bool(solver.is_policy_defined_for(name(g, s))), solver.get_next_action(name(g, s))
        if a is not None:
            require(isinstance(a, int) and 0 <= a < len(g['edges'][s]), 'action %r is not applicable in %r', a, s)
            require(d, 'the policy has action %r for %r but is not defined there', a, s)
        elif s not in g['goals']:
            require(not d, 'the policy is defined for %r but has no action', s)
    if best[start] == INF:
        ctx.label('unsolvable')
        ctx.nontrivial(bool(g['edges'][start]))
        return
    ctx.nontrivial(start not in g['goals'] and any(len(e) > 1 for e in g['edges']))
    seen, cost = follow(g, start, solver.get_next_action, g['n'])
    eq(len(set(seen)), len(seen), 'the policy visits each state once')
    if case['acyclic']:
        ctx.label('acyclic')
        close(cost, best[start], 'cost of the plan %s from %r after convergence' % (seen, start))
        for s in range(g['n']):
            v = solver.get_utility(name(g, s))
            require(v <= best[s] + 1e-9, 'learned cost to go %s of %r exceeds the optimum %s', v, s, best[s])
        close(solver.get_utility(name(g, start)), best[start], 'learned value of the start') if start not in g['goals'] else None
SUBCHECKS = [Sub('cyclic', cases, check, quick=2400, thorough=20000, rule=RULE),
        Sub('acyclic', lambda: cases(acyclic=True), check, quick=2400, thorough=20000, rule=RULE)]
