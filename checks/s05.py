"""S05: exploration graphs and graph domains against an independent closure of the domain."""
import contextlib
import io
import types

from hypothesis import strategies as st

from skdecide.hub.solver.graph_explorer.DFSExploration import DFSExploration
from skdecide.hub.solver.graph_explorer.FullSpaceExploration import FullSpaceExploration, reachable_states
from skdecide.hub.solver.graph_explorer.DFS_Uncertain_Exploration import DFSExploration as UncertainExploration
from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain, GraphDomainUncertain
from skdecide.hub.solver.lazy_astar import LazyAstar
from harness.api import Sub, require, eq, close
from harness.graphdomain import graphs, domain_class, name, index, to_goal, INF
from harness.tabledomain import Model, make_domain, specs
from checks.s01 import follow

RULE = ('Random finite deterministic and uncertain goal domains, explored from every kind of start with and without limits; '
        'the graph is compared with an independently computed closure. Non-trivial: at least two expanded states.')
ASSUMPTIONS = ['goal states (and terminal states for uncertain domains) are not expanded', 'with a limit only soundness of the '
               'graph is required, not which part of the space it holds']


@st.composite
def det_cases(draw):
    g = draw(graphs())
    lim = st.one_of(st.none(), st.none(), st.integers(0, 12), st.integers(0, 40))
    return dict(g=g, full=draw(st.booleans()), start=draw(st.one_of(st.none(), st.integers(0, g['n'] - 1))),
                limits=[draw(lim), draw(lim), draw(lim)] if draw(st.booleans()) else [None, None, None],
                merge=draw(st.one_of(st.none(), st.integers(0, g['n'] - 1))))


def closure(g, start):
    seen, todo = {start}, [start]
    while todo:
        u = todo.pop()
        for v, _ in g['edges'][u]:
            if v not in seen:
                seen.add(v)
                if v not in g['goals']:
                    todo.append(v)
    return seen


def quietly(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def det(case, ctx):
    g = case['g']
    D = domain_class(g)
    dom = D()
    start = g['init'] if case['start'] is None else case['start']
    nodes = closure(g, start)
    expanded = {u for u in nodes if u not in g['goals']} | {start}
    E = FullSpaceExploration if case['full'] else DFSExploration
    me, mn, mp = case['limits']

    def build(s):
        return quietly(lambda: E(dom, max_edges=me, max_nodes=mn, max_path=mp).build_graph_domain(s))
    graph = build(None if case['start'] is None else name(g, start))
    most = [sum(len(g['edges'][u]) for u in expanded), len(nodes), sum(v in g['goals'] for u in expanded for v, _ in g['edges'][u])]
    limited = any(x is not None and x < m for x, m in zip(case['limits'], most))  # limits that are never passed change nothing
    nm = lambda i: name(g, i)

    def verify(graph, nodes, expanded, complete):
        got = {s: dict(acts) for s, acts in graph.next_state_map.items()}
        require(set(got) <= {nm(u) for u in nodes}, 'the graph holds unreachable states: %s', set(got) - {nm(u) for u in nodes})
        for u in nodes:
            if nm(u) not in got:
                require(not complete, 'reachable state %r is missing', nm(u))
                continue
            acts = got[nm(u)]
            require(set(acts) <= set(range(len(g['edges'][u]))), 'state %r has actions %s', nm(u), sorted(acts))
            if complete:
                eq(sorted(acts), list(range(len(g['edges'][u]))) if u in expanded else [], 'actions recorded in %r' % (nm(u),))
            eq(sorted(graph.get_applicable_actions(nm(u)).get_elements()), sorted(acts), 'applicable actions of the graph domain')
            for a in range(len(g['edges'][u]) + 1):
                eq(bool(graph.get_applicable_actions(nm(u)).contains(a)), a in acts, 'action %d applicable in %r' % (a, nm(u)))
            for a, v in acts.items():
                eq(v, nm(g['edges'][u][a][0]), 'transition of %r by %d' % (nm(u), a))
                eq(graph.get_next_state(nm(u), a), v, 'next state in the graph domain')
                close(graph.get_transition_value(nm(u), a, v).cost, g['edges'][u][a][1], 'cost of %r by %d' % (nm(u), a))
            isg = u in g['goals']
            if complete:
                eq(bool(graph.is_goal(nm(u))), isg, 'goal test of %r' % (nm(u),))
                eq(bool(graph.is_terminal(nm(u))), isg, 'terminal test of %r' % (nm(u),))
                eq(bool(graph.get_goals().contains(nm(u))), isg, 'goal set membership of %r' % (nm(u),))
            else:
                require(isg or not graph.is_goal(nm(u)), '%r is no goal', nm(u))
    verify(graph, nodes, expanded, not limited)
    if mp is not None:
        ends = sum(v in {nm(i) for i in g['goals']} for acts in graph.next_state_map.values() for v in acts.values())
        require(ends <= mp + max(len(e) for e in g['edges']), '%d ways to a goal explored, the limit is %d', ends, mp)
    ctx.label('full' if case['full'] else 'dfs', 'limited' if limited else 'unlimited')
    ctx.nontrivial(len(expanded) > 1)
    best = to_goal(g)
    if not limited and best[start] < INF and start not in g['goals']:
        solver = LazyAstar(from_state=nm(start))
        solver.solve(lambda: graph)
        _, cost = follow(g, start, solver.get_next_action, g['n'])
        close(cost, best[start], 'cost of the best plan found on the graph')
        ctx.label('planned')
    if case['merge'] is not None and case['limits'] == [None] * 3:
        other = build(nm(case['merge']))
        n2 = closure(g, case['merge'])
        e2 = {u for u in n2 if u not in g['goals']} | {case['merge']}
        merged = graph.merge(other)
        for i in set(g['goals']) & nodes:
            require(merged.is_goal(nm(i)), 'goal %r of the graph is no goal once another graph is merged into it', nm(i))
        merged.set_nodes_target({nm(i) for i in g['goals']})
        verify(merged, nodes | n2, expanded | e2, True)
        ctx.label('merged')


CH = dict(dyn=st.sampled_from(['EnumerableTransitions', 'DeterministicTransitions']), memory='Markovian',
          obs='FullyObservable', value='PositiveCosts', events=st.sampled_from(['Actions', 'UnrestrictedActions']))


@st.composite
def unc_cases(draw):
    spec = draw(specs(ch=CH, max_n=7, weights=(1, 1, 2, 3, 4, 150)))
    if spec['ch']['dyn'] == 'EnumerableTransitions' and draw(st.booleans()):
        for rows in spec['trans']:
            for row in rows:
                t = draw(st.integers(0, spec['n'] - 1))
                if draw(st.integers(0, 5)) == 0 and t not in [x for x, _ in row]:
                    row.insert(draw(st.integers(0, 1)), [t, 0])  # an outcome which is listed, but never happens
    lim = st.one_of(st.none(), st.none(), st.integers(0, 12))
    return dict(spec=spec, start=draw(st.one_of(st.none(), st.integers(0, spec['n'] - 1))),
                limits=[draw(lim), draw(lim)] if draw(st.integers(0, 2)) == 0 else [None, None])


def unc(case, ctx):
    spec = case['spec']
    M = Model(dict(spec, trans=[[[x for x in row if x[1]] for row in rows] for rows in spec['trans']]))
    dom = make_domain(spec)()
    start = M.init()[0][0] if case['start'] is None else case['start']
    stop = lambda s: M.terminal(s) or s in M.goals1()
    seen, todo = {start}, [start]
    while todo:
        u = todo.pop()
        if stop(u):
            continue
        for a in M.applicable(u):
            for v, p in M.trans(u, a):
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
    arcs = sum(len(M.trans(u, a)) for u in seen if not stop(u) for a in M.applicable(u))
    limited = any(x is not None and x < m for x, m in zip(case['limits'], (arcs, len(seen))))
    graph = quietly(lambda: UncertainExploration(dom, max_edges=case['limits'][0], max_nodes=case['limits'][1]).build_graph_domain(case['start']))
    require(set(graph.state_goal) <= seen and set(graph.state_terminal) <= seen, 'the graph holds unreachable states')
    require(set(graph.next_state_map) <= set(graph.state_goal), 'expanded states are states of the graph')
    if case['limits'][1] is not None:
        widest = max([0] + [len({v for a in M.applicable(u) for v, _ in M.trans(u, a)}) for u in seen if not stop(u)])
        require(len(graph.state_goal) <= max(1, case['limits'][1]) + widest, '%d states explored, the limit is %d', len(graph.state_goal), case['limits'][1])
    if not limited:
        eq(set(graph.state_goal), seen, 'states of the graph')
        eq({s for s in graph.next_state_map if graph.next_state_map[s]}, {s for s in seen if not stop(s) and M.applicable(s)}, 'expanded states')
    for s in graph.state_goal:
        eq(bool(graph.is_goal(s)), s in M.goals1(), 'goal test of %r' % s)
        eq(bool(graph.get_goals().contains(s)), s in M.goals1(), 'goal set membership of %r' % s)
        acts = graph.next_state_map.get(s, {})
        eq(bool(graph.is_terminal(s)), M.terminal(s) or not acts, 'terminal test of %r' % s)
        eq(sorted(graph.get_applicable_actions(s).get_elements()), sorted(acts), 'applicable actions')
        if acts:
            eq(sorted(acts), sorted(M.applicable(s)), 'actions recorded in %r' % s)
        for a in acts:
            want = dict(M.trans(s, a))
            eq(set(acts[a]), set(want), 'successors of %r by %r' % (s, a))
            eq(set(acts[a]) <= set(graph.state_goal), True, 'successors are states of the graph')
            for v, (p, c) in acts[a].items():
                close(p, want[v], 'probability of %r -> %r by %r' % (s, v, a))
                close(c, abs(M.value(s, a, v)), 'cost of %r -> %r by %r' % (s, v, a))
                close(graph.get_transition_value(s, a, v).cost, c, 'cost in the graph domain')
            got = {}
            for v, p in graph.get_next_state_distribution(s, a).get_values():
                got[v] = got.get(v, 0) + p
            eq(set(got), set(want), 'support of the next state distribution of the graph domain')
            for v in got:
                close(got[v], want[v], 'probability in the graph domain')
            require(graph.get_next_state_distribution(s, a).sample() in want, 'sampled an impossible successor')
    nxg = graph.to_networkx()
    ids = {d['state']: i for i, d in nxg.nodes(data=True)}
    eq(set(ids), set(graph.state_goal), 'nodes of the exported graph')
    eq({(ids[s], ids[v]) for s in graph.next_state_map for a in graph.next_state_map[s] for v in graph.next_state_map[s][a]},
       set(nxg.edges()), 'edges of the exported graph')
    reach, todo = {start}, [start]
    while todo:
        u = todo.pop()
        if not M.terminal(u):
            for a in M.applicable(u):
                for v, p in M.trans(u, a):
                    if v not in reach:
                        reach.add(v)
                        todo.append(v)
    eq(quietly(lambda: reachable_states(types.SimpleNamespace(_domain=dom), start)), reach, 'reachable states')
    ctx.nontrivial(sum(1 for s in graph.next_state_map if graph.next_state_map[s]) > 1)
    ctx.label('limited' if limited else 'unlimited', spec['ch']['dyn'])
SUBCHECKS = [Sub('deterministic', det_cases, det, quick=2400, thorough=20000, rule='at least two expanded states'),
             Sub('uncertain', unc_cases, unc, quick=1800, thorough=15000, rule='at least two expanded states')]
