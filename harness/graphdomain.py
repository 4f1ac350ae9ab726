"""Finite deterministic goal domains given as weighted graphs, with exact reference distances."""
import heapq
from fractions import Fraction

from hypothesis import strategies as st

from skdecide import DeterministicPlanningDomain, TransitionValue
from skdecide.builders.domain import *
from harness.tabledomain import Elements

INF = float('inf')


def name(g, i):
    return {'int': i, 'str': 's%d' % i, 'tuple': (i // 2, i % 2)}[g['names']]


def index(g, s):
    return {'int': lambda: s, 'str': lambda: int(s[1:]), 'tuple': lambda: 2 * s[0] + s[1]}[g['names']]()


def domain_class(g, log=None):
    class GraphPlanning(DeterministicPlanningDomain):
        def _get_initial_state_(self):
            return name(g, g['init'])

        def _get_next_state(self, memory, action):
            if log is not None:
                log.append((memory, action))
            return name(g, g['edges'][index(g, memory)][action][0])

        def _get_transition_value(self, memory, action, next_state=None):
            return TransitionValue(cost=g['edges'][index(g, memory)][action][1])

        def _is_terminal(self, state):
            return index(g, state) in g['goals']

        def _get_action_space_(self):
            return Elements(range(max(len(e) for e in g['edges']) or 1))

        def _get_applicable_actions_from(self, memory):
            return Elements(range(len(g['edges'][index(g, memory)])))

        def _get_goals_(self):
            return Elements([name(g, i) for i in g['goals']])

        def _get_observation_space_(self):
            return Elements([name(g, i) for i in range(g['n'])])
    return GraphPlanning


def to_goal(g):
    """Exact cost to go of every state."""
    back = {i: [] for i in range(g['n'])}
    for u, es in enumerate(g['edges']):
        for v, c in es:
            back[v].append((u, c))
    d = {i: INF for i in range(g['n'])}
    q = [(0, i) for i in g['goals']]
    for i in g['goals']:
        d[i] = 0
    while q:
        x, v = heapq.heappop(q)
        if x > d[v]:
            continue
        for u, c in back[v]:
            if x + c < d[u]:
                d[u] = x + c
                heapq.heappush(q, (x + c, u))
    return d


@st.composite
def graphs(draw, max_n=8, max_out=4, positive=False, acyclic=False, min_n=1):
    n = draw(st.one_of(st.integers(min_n, max_n), st.integers(max(min_n, 4), max_n)))
    cost = st.integers(1 if positive else 0, 12).map(lambda x: x / 4)
    if draw(st.booleans()):
        cost = st.sampled_from([1.0])
    edges = []
    for u in range(n):
        lo = u + 1 if acyclic else 0
        if lo >= n:
            edges.append([])
            continue
        edges.append([list(e) for e in draw(st.lists(st.tuples(st.integers(lo, n - 1), cost), min_size=0 if n > 1 else 0, max_size=max_out))])
    init = draw(st.integers(0, n - 1)) if not acyclic or draw(st.booleans()) else 0
    goals = draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)) if draw(st.booleans()) else [
        draw(st.integers(max(0, n - 3), n - 1))]
    if goals and draw(st.integers(0, 4)):  # most of the time a path exists
        way = draw(st.lists(st.integers(0, n - 1), min_size=min(n, 3), max_size=6, unique=True))
        way = [x for x in way if x not in (init, goals[0])]
        if acyclic:
            way = sorted(x for x in way if init < x < goals[0])
        if init != goals[0] and (not acyclic or init < goals[0]):
            way = [init] + way + [goals[0]]
            for u, v in zip(way, way[1:]):
                edges[u].insert(draw(st.integers(0, len(edges[u]))), [v, draw(cost)])
    return dict(n=n, edges=edges, init=init, goals=goals,
                names=draw(st.sampled_from(['int', 'str', 'tuple'])))


@st.composite
def heuristics(draw, g):
    """A consistent heuristic as a table, from the exact cost to go (float infinity kept out of plain data: None)."""
    h = to_goal(g)
    kind = draw(st.sampled_from(['zero', 'exact', 'half', 'cap', 'minus', 'exactfinite']))
    k = draw(st.integers(1, 8)) / 2
    f = dict(zero=lambda x: 0.0, exact=lambda x: None if x == INF else x, half=lambda x: None if x == INF else x / 2,
             cap=lambda x: min(x, k), minus=lambda x: 50.0 if x == INF else max(x - k, 0.0),
             exactfinite=lambda x: 100.0 if x == INF else x)[kind]
    return [f(h[i]) for i in range(g['n'])]


@st.composite
def detours(draw, max_n=9):
    """Graphs with many competing routes: every state has short and long jumps towards the goal, of comparable total cost."""
    n = draw(st.integers(4, max_n))
    per = draw(st.sampled_from([1, 2, 4]))
    edges = []
    for u in range(n):
        jumps = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)) if u < n - 1 else []
        es = []
        for j in jumps:
            v = min(u + j, n - 1)
            es.append([v, max(1, per * (v - u) * 2 + draw(st.integers(-3 * per, 3 * per))) / 4])
        if draw(st.integers(0, 3)) == 0:
            es.insert(draw(st.integers(0, len(es))), [draw(st.integers(0, n - 1)), draw(st.integers(1, 12)) / 4])
        edges.append(es)
    return dict(n=n, edges=edges, init=0, goals=[n - 1], names=draw(st.sampled_from(['int', 'str', 'tuple'])))


@st.composite
def chains(draw, max_n=9):
    """A chain with competing jumps, and a consistent heuristic that is far from ordered as the exact cost to go -> graph, heuristic."""
    n = draw(st.integers(4, max_n))
    c = draw(st.lists(st.integers(1, 4), min_size=n - 1, max_size=n - 1))
    edges = [[[u + 1, c[u]]] for u in range(n - 1)] + [[]]
    for _ in range(draw(st.integers(1, 5))):
        u = draw(st.integers(0, n - 2))
        v = draw(st.integers(u + 1, n - 1))
        edges[u].insert(draw(st.integers(0, len(edges[u]))), [v, max(1, sum(c[u:v]) + draw(st.integers(-1, 6)))])
    for _ in range(draw(st.integers(0, 3))):
        edges[draw(st.integers(0, n - 1))].append([draw(st.integers(0, n - 1)), draw(st.integers(1, 9))])
    free = draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True))
    g = dict(n=n, edges=edges, init=0, goals=[n - 1], names=draw(st.sampled_from(['int', 'str', 'tuple'])))
    h = to_goal(dict(g, edges=[es + [[n - 1, draw(st.sampled_from([0, 0, 1]))]] if u in free else es for u, es in enumerate(edges)]))
    return g, [h[i] for i in range(n)]
