"""O13: aggregation of objectives and scenarios, fitness vectors, registers, graph tools."""
import math
import statistics
import numpy as np
from hypothesis import strategies as st
from harness.api import Sub, require, eq, close
from harness.synth import SynProblem, SynSol, dominates, make, score, specs, starts
from skdecide.builders.discrete_optimization.generic_tools import graph_api
from skdecide.builders.scheduling import graph_toolbox
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (
    ModeOptim, ObjectiveHandling, ParamsObjectiveFunction, build_aggreg_function_and_params_objective,
    build_evaluate_function_aggregated, get_default_objective_setup, MethodAggregating, BaseMethodAggregating, RobustProblem,
    TypeAttribute)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_util import get_attribute_for_type
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness

RULE = 'Random objective values, weights, handling, scenarios and graphs; non-trivial: at least two objectives with different weights, three scenarios with different values, or a graph with at least four edges.'
ASSUMPTIONS = ['percentiles interpolate linearly between order statistics (numpy default)', 'the aggregated value is the weighted one, whatever the direction asked']
HANDLING = {'single': ObjectiveHandling.SINGLE, 'aggregate': ObjectiveHandling.AGGREGATE, 'multi': ObjectiveHandling.MULTI_OBJ}
weight = st.sampled_from([-3, -2, -1.5, -1, -0.5, 0, 0.25, 1, 2, 10])


@st.composite
def objectives(draw):
    sp = draw(specs())
    k = draw(st.integers(1, sp['nobj']))
    objs = list(draw(st.permutations('abc'[:sp['nobj']])))[:k]
    return dict(sp=sp, objs=objs, w=[draw(weight) for _ in objs], handling=draw(st.sampled_from(sorted(HANDLING))),
                dh=draw(st.sampled_from(sorted(HANDLING))), dw=[draw(weight) for _ in range(sp['nobj'])],
                maxi=draw(st.booleans()), sols=draw(st.lists(starts(sp), min_size=1, max_size=4)))


def value(v, objs, w, handling):
    if handling == 'single':
        return v[objs[0]] * w[0]
    if handling == 'aggregate':
        return sum(v[o] * x for o, x in zip(objs, w))
    return [v[o] * x for o, x in zip(objs, w)]


def same(got, want, what):
    if isinstance(want, list):
        require(isinstance(got, TupleFitness) and got.size == len(want), '%s: %r is not a vector of %d values', what, got, len(want))
        eq([float(x) for x in got.vector_fitness], [float(x) for x in want], what)
    else:
        close(float(got), float(want), what)


def check_objectives(c, ctx):
    sp = c['sp']
    sense = ModeOptim.MAXIMIZATION if c['maxi'] else ModeOptim.MINIMIZATION
    other = ModeOptim.MINIMIZATION if c['maxi'] else ModeOptim.MAXIMIZATION
    p = SynProblem(sp, sense=sense, handling=HANDLING[c['dh']], default_weights=c['dw'])
    names = 'abc'[:sp['nobj']]
    setup = get_default_objective_setup(p)
    eq((setup.objective_handling, list(setup.objectives), list(setup.weights), setup.sense_function),
       (HANDLING[c['dh']], list(names), c['dw'], sense), 'default setup')
    ctx.nontrivial(len(c['objs']) >= 2 and len(set(c['w'])) >= 2)
    ctx.label(c['handling'])
    for params, objs, w, h in ((None, list(names), c['dw'], c['dh']),
                               (ParamsObjectiveFunction(HANDLING[c['handling']], list(c['objs']), list(c['w']), sense), c['objs'], c['w'], c['handling']),
                               (ParamsObjectiveFunction(HANDLING[c['handling']], list(c['objs']), list(c['w']), other), c['objs'], c['w'], c['handling'])):
        ev, evd = build_evaluate_function_aggregated(p, params)
        ev2, evd2, used = build_aggreg_function_and_params_objective(p, params)
        eq((used.objective_handling, list(used.objectives), list(used.weights), used.sense_function),
           (HANDLING[h], list(objs), list(w), params.sense_function if params else sense), 'parameters used')
        for e in c['sols']:
            v = score(sp, **e)
            want = value(v, objs, w, h)
            s = make(p, e)
            same(ev(s), want, 'value of a solution')
            same(evd(dict(v)), want, 'value of scores')
            same(ev2(s), want, 'value of a solution (2)')
            same(evd2(dict(v)), want, 'value of scores (2)')
            eq(s.enc(), e, 'solution after evaluation')
    for e in c['sols']:
        v = score(sp, **e)
        same(p.evaluate_mobj(make(p, e)), [v[o] for o in names], 'vector of scores')
        same(p.evaluate_mobj_from_dict(dict(v)), [v[o] for o in names], 'vector of scores from a dictionary')


vectors = st.integers(1, 4).flatmap(lambda n: st.lists(st.lists(st.sampled_from([-1, 0, 0.5, 1, 2]), min_size=n, max_size=n), min_size=2, max_size=4))


def check_tuples(c, ctx):
    fs = [TupleFitness(np.array(v), len(v)) for v in c]
    for u, x in zip(c, fs):
        for v, y in zip(c, fs):
            gt, lt = dominates(u, v), dominates(v, u)
            eq((x > y, x < y, x == y, x >= y, x <= y), (gt, lt, not gt and not lt, not lt, not gt), 'comparisons of %r and %r' % (u, v))
            close(float(x.distance(y)), math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v))), 'distance')
            ctx.nontrivial(len(u) > 1 and not gt and not lt and u != v)
        m = x * -2
        eq(([float(i) for i in m.vector_fitness], m.size), ([-2.0 * i for i in u], len(u)), 'scaled vector')


@st.composite
def scenarios(draw):
    a = draw(specs())
    scen = [a]
    for _ in range(draw(st.integers(0, 4))):
        scen.append(dict(draw(specs(nobj=a['nobj'])), n=a['n'], m=a['m'], b=a['b'], ar=a['ar']))
    return dict(scen=scen, sols=draw(st.lists(starts(a), min_size=1, max_size=3)), q=draw(st.sampled_from([0, 5, 25, 50, 60, 90, 100])),
                pond=[draw(weight) for _ in scen])


def percentile(xs, q):
    xs = sorted(xs)
    h = (len(xs) - 1) * q / 100
    i = math.floor(h)
    return xs[i] + (h - i) * (xs[min(i + 1, len(xs) - 1)] - xs[i])


def check_scenarios(c, ctx):
    ps = [SynProblem(s) for s in c['scen']]
    B = BaseMethodAggregating
    ways = {B.MEAN: statistics.fmean, B.MEDIAN: statistics.median, B.PERCENTILE: lambda x: percentile(x, c['q']),
            B.PONDERATION: lambda x: sum(a * b for a, b in zip(x, c['pond'])), B.MIN: min, B.MAX: max}
    eq(set(B), set(ways), 'ways of aggregating')
    for m, f in ways.items():
        r = RobustProblem(ps, MethodAggregating(m, percentile=c['q'], ponderation=np.array(c['pond'])))
        for e in c['sols']:
            vals = [score(s, **e) for s in c['scen']]
            got = r.evaluate(make(ps[0], e))
            eq(set(got), set(vals[0]), 'objectives')
            for o in got:
                xs = [v[o] for v in vals]
                close(float(got[o]), float(f(xs)), '%s of %r' % (m.name, xs))
                ctx.nontrivial(len(set(xs)) >= 3)
        eq(r.get_solution_type(), SynSol, 'type of solutions')
        eq(r.get_objective_register().get_list_objective_and_default_weight(), ps[0].get_objective_register().get_list_objective_and_default_weight(), 'objectives')
    reg = r.get_attribute_register()
    eq(sorted(t.name for t in reg.get_types()), ['LIST_BOOLEAN', 'LIST_INTEGER_SPECIFIC_ARRITY', 'PERMUTATION'], 'types of the encodings')
    for t, w in ((TypeAttribute.PERMUTATION, ['perm']), (TypeAttribute.LIST_BOOLEAN, ['bits']), (TypeAttribute.SET_INTEGER, [])):
        eq(get_attribute_for_type(r, t), w, 'encodings of type ' + t.name)


@st.composite
def graphs(draw):
    n = draw(st.integers(1, 7))
    name = draw(st.sampled_from(['int', 'str', 'big']))
    pairs = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, 9)).map(list)
    edges = draw(st.lists(pairs, max_size=14, unique_by=lambda e: (e[0], e[1])))
    und = draw(st.booleans())
    if und:
        seen, keep = set(), []
        for a, b, w in edges:
            if (b, a) not in seen:
                seen.add((a, b))
                keep.append([a, b, w])
        edges = keep
    return dict(n=n, names=name, edges=edges, und=und, order=list(draw(st.permutations(range(n)))), ecl=draw(st.booleans()))


def check_graph(c, ctx):
    nm = {'int': lambda i: i, 'str': lambda i: 'n%d' % i, 'big': lambda i: 100 - 7 * i}[c['names']]
    nodes = [(nm(i), {'k': i * 3}) for i in c['order']]
    edges = [(nm(a), nm(b), {'w': w}) for a, b, w in c['edges']]
    succ = {nm(i): set() for i in range(c['n'])}
    pred = {nm(i): set() for i in range(c['n'])}
    w = {}
    for a, b, d in edges:
        for x, y in ([(a, b), (b, a)] if c['und'] else [(a, b)]):
            succ[x].add(y)
            pred[y].add(x)
            w[x, y] = d['w']
    reach = {}
    for i in succ:
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            for y in succ[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        reach[i] = seen
    ctx.nontrivial(len(edges) >= 4)
    ctx.label('undirected' if c['und'] else 'directed')
    for mod in (graph_api, graph_toolbox):
        g = mod.Graph([(n, dict(d)) for n, d in nodes], [(a, b, dict(d)) for a, b, d in edges], undirected=c['und'])
        what = mod.__name__.split('.')[-1]
        eq(list(g.get_nodes()), sorted(succ), what + ' nodes')
        eq(set(g.get_edges()), set(w), what + ' edges')
        for i in succ:
            eq(set(g.get_neighbors(i)), succ[i], what + ' neighbours')
            eq(set(g.get_predecessors(i)), pred[i], what + ' predecessors')
            eq(g.get_attr_node(i, 'k'), dict(nodes)[i]['k'], what + ' attribute of a node')
            eq(g.get_attr_node(i, 'zz'), None, what + ' unknown attribute of a node')
            anc = {j for j in succ if i in reach[j]} - {i}
            eq(set(g.precedessors_nodes(i)), anc, what + ' ancestors')
            for j in succ:
                eq(g.get_attr_edge(i, j, 'w'), w.get((i, j)), what + ' attribute of an edge')
        eq(set(g.to_networkx().nodes()), set(succ), what + ' networkx nodes')
        if not c['und']:
            eq({(a, b): d['w'] for a, b, d in g.to_networkx().edges(data=True)}, w, what + ' networkx edges')
            cyc = g.check_loop()
            require(bool(cyc) == any(i in reach[i] for i in succ), '%s: loop %r in %r', what, cyc, edges)
            if cyc:
                for k, e in enumerate(cyc):
                    require((e[0], e[1]) in w and cyc[(k + 1) % len(cyc)][0] == e[1], '%s: %r is not a loop of %r', what, cyc, edges)
    eq({k: set(v) for k, v in g.descendants_map().items()}, {i: reach[i] - {i} for i in succ}, 'descendants')
    eq({k: set(v) for k, v in g.ancestors_map().items()}, {i: {j for j in succ if i in reach[j]} - {i} for i in succ}, 'ancestors')
    eq({k: sorted(v) for k, v in g.successors_map().items()}, {i: sorted(succ[i]) for i in succ}, 'successors')
    if not c['und']:
        eq({k: sorted(v) for k, v in g.predecessors_map().items()}, {i: sorted(pred[i]) for i in succ}, 'direct predecessors')


SUBCHECKS = [
    Sub('objectives', objectives, check_objectives, 2400),
    Sub('fitness-vectors', lambda: vectors, check_tuples, 3000),
    Sub('scenarios', scenarios, check_scenarios, 1600),
    Sub('graphs', graphs, check_graph, 3000),
]
