"""O12: result storage, Pareto fronts and comparison of results."""
import random as rnd
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from hypothesis import strategies as st
from harness.api import Sub, require, eq
from harness.synth import SynSol, SynProblem, dominates, make, score, specs, starts
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import (
    ResultStorage, ParetoFront, result_storage_to_pareto_front, plot_pareto_2d, plot_storage_2d)
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator

RULE = 'Lists of fitness values (numbers, or vectors of 1 to 3 numbers with many ties), some stored at once and others one by one, maximised or minimised; non-trivial: several distinct fitness values, and for vectors both dominated and incomparable ones.'
ASSUMPTIONS = ['best means not dominated for vector fitness', 'fitness of a solution object never changes']
small = st.integers(-3, 3)


class Item:
    def __init__(self, tag):
        self.tag = tag
        self.v = [tag % 3, tag % 2]


@st.composite
def cases(draw, dims=(0, 1, 2, 3)):
    dim = draw(st.sampled_from(dims))
    one = st.tuples(*[small] * dim).map(list) if dim else small
    fits = draw(st.lists(one, min_size=1, max_size=10))
    return dict(dim=dim, fits=fits, first=draw(st.integers(0, len(fits))), maxi=draw(st.booleans()), limit=draw(st.booleans()),
                store=draw(st.sampled_from([1, 2, 3, 1000])), again=draw(st.lists(st.integers(0, len(fits) - 1), max_size=3)),
                plots=draw(st.sampled_from([False] * 9 + [True])))


def fit(x):
    return TupleFitness(np.array(x), len(x)) if isinstance(x, list) else x


def vec(x):
    return x if isinstance(x, list) else [x]


def better(c, u, v):
    u, v = vec(u), vec(v)
    return dominates(u, v) if c['maxi'] else dominates(v, u)


def bests(c):
    return [i for i, x in enumerate(c['fits']) if not any(better(c, y, x) for y in c['fits'])]


def mode(c):
    return ModeOptim.MAXIMIZATION if c['maxi'] else ModeOptim.MINIMIZATION


def fill(c, cls=ResultStorage, extra=None):
    items = [Item(i) for i in range(len(c['fits']))]
    k = c['first']
    rs = cls(list_solution_fits=[(items[i], fit(c['fits'][i])) for i in range(k)], best_solution=None, mode_optim=mode(c),
             limit_store=c['limit'], nb_best_store=c['store'])
    for i in range(k, len(items)):
        rs.add_solution(items[i], fit(c['fits'][i]))
        for j in c['again']:
            if j <= i:
                rs.add_solution(items[j], fit(c['fits'][j]))
    return items, rs


def nontrivial(c, ctx):
    fs = c['fits']
    if c['dim'] < 2:
        ctx.nontrivial(len({tuple(vec(f)) for f in fs}) >= 3)
    else:
        inc = any(not better(c, a, b) and not better(c, b, a) and a != b for a in fs for b in fs)
        ctx.nontrivial(inc and any(better(c, a, b) for a in fs for b in fs))
    ctx.label('dim%d' % c['dim'], 'max' if c['maxi'] else 'min')


def pure(f):
    return [float(x) for x in f.vector_fitness] if isinstance(f, TupleFitness) else f


def same_fit(f, x, what):
    eq([float(y) for y in f.vector_fitness] if isinstance(f, TupleFitness) else [float(f)], [float(y) for y in vec(x)], what)


def check_storage(c, ctx):
    nontrivial(c, ctx)
    items, rs = fill(c)
    best = bests(c)
    for when in ('', ' after finalizing'):
        require([s.tag for s, _ in rs.list_solution_fits] == list(range(len(items))), 'solutions stored%s: %r', when, [s.tag for s, _ in rs.list_solution_fits])
        for s, f in rs.list_solution_fits:
            same_fit(f, c['fits'][s.tag], 'fitness stored')
        require(rs.best_solution.tag in best, 'best solution%s is %d %r', when, rs.best_solution.tag, c['fits'])
        require(rs.get_best_solution().tag in best, 'get_best_solution%s', when)
        s, f = rs.get_best_solution_fit()
        require(s.tag in best, 'get_best_solution_fit%s', when)
        same_fit(f, c['fits'][s.tag], 'fitness of the best')
        s, f = rs.get_last_best_solution()
        require(s.tag in best, 'last best solution%s is not a best', when)
        if c['dim'] < 2:
            eq(s.tag, max(best), 'last best solution')
        seen = set()
        for _ in range(8):
            s, f = rs.get_random_best_solution()
            require(s.tag in best, 'random best solution%s is not a best', when)
            same_fit(f, c['fits'][s.tag], 'fitness of the random best')
            s, f = rs.get_random_solution()
            same_fit(f, c['fits'][s.tag], 'fitness of the random solution')
            if c['dim'] < 2 and len(best) < len(items):
                require(s.tag not in best, 'random solution is a best one')
        rs.finalize()
    # given best solution is kept until a better one comes
    other = Item(-1)
    rs2 = ResultStorage(list_solution_fits=[(items[0], fit(c['fits'][0]))], best_solution=other, mode_optim=mode(c))
    require(rs2.best_solution is other, 'given best solution lost')
    cur, reach = c['fits'][0], other
    for i in range(1, len(items)):
        rs2.add_solution(items[i], fit(c['fits'][i]))
        if better(c, c['fits'][i], cur):
            cur, reach = c['fits'][i], items[i]
            require(rs2.best_solution is reach, 'improving solution is not the best')
        elif c['dim'] < 2:
            require(rs2.best_solution is reach, 'best solution replaced by one which does not improve')
    rs.remove_duplicate_solutions('v')
    keep = []
    for it in items:
        if not any(o.v == it.v for o in keep):
            keep.append(it)
    require([s for s, _ in rs.list_solution_fits] == keep, 'removal of duplicates')


def check_pareto(c, ctx):
    nontrivial(c, ctx)
    best = bests(c)
    items, pf = fill(c, ParetoFront)
    pf.finalize()
    front(c, pf, items, best, 'front of the solutions added')
    items, rs = fill(c)
    pf = result_storage_to_pareto_front(rs)
    front(c, pf, items, best, 'front of a storage')
    for i in range(c['dim']):
        ext = pf.compute_extreme_points()[i]
        f = max if c['maxi'] else min
        eq(float(ext[1].vector_fitness[i]), float(f(c['fits'][j][i] for j in best)), 'extreme point of objective %d' % i)
        require(ext[0].tag in best, 'extreme point not in the front')
    pf.finalize()
    front(c, pf, items, best, 'front finalized twice')
    if c['dim'] >= 2 and c['plots']:
        fig, ax = plt.subplots(1)
        try:
            plot_pareto_2d(pf, ['x', 'y'], ax=ax)
            eq(sorted(ax.collections[-1].get_offsets().tolist()), sorted([float(z) for z in c['fits'][i][:2]] for i in best), 'points drawn of the front')
            plot_storage_2d(rs, ['x', 'y'], ax=ax)
            eq(sorted(ax.collections[-1].get_offsets().tolist()), sorted([float(z) for z in x[:2]] for x in c['fits']), 'points drawn of the storage')
        finally:
            plt.close('all')


def front(c, pf, items, best, what):
    eq(sorted(s.tag for s, _ in pf.paretos), best, what)
    eq(pf.len_pareto_front(), len(best), what + ': size')
    for s, f in pf.paretos:
        same_fit(f, c['fits'][s.tag], what + ': fitness')


@st.composite
def comparisons(draw):
    dim = draw(st.integers(2, 3))
    maxi = draw(st.booleans())
    sp = draw(specs(nobj=dim))
    sets = draw(st.lists(st.lists(starts(sp), min_size=1, max_size=5), min_size=1, max_size=3))
    tests = draw(st.lists(specs(nobj=dim), max_size=3))
    for t in tests:
        for k in ('n', 'm', 'b', 'ar'):
            t[k] = sp[k]
    return dict(sp=sp, sets=sets, maxi=maxi, tests=tests, plots=draw(st.sampled_from([False] * 5 + [True])))


def check_compare(c, ctx):
    sp, dim = c['sp'], c['sp']['nobj']
    p = SynProblem(sp, sense=mode(c))
    objs = 'abc'[:dim]
    storages, flat = [], []
    for es in c['sets']:
        sols = [(make(p, e), [score(sp, **e)[o] for o in objs]) for e in es]
        storages.append(ResultStorage([(s, fit(f)) for s, f in sols], mode_optim=mode(c)))
        flat += [f for _, f in sols]
        # a storage scored again by the problem gives the same front
        pf = result_storage_to_pareto_front(storages[-1], p)
        local = dict(fits=[f for _, f in sols], maxi=c['maxi'])
        eq(sorted([float(x) for x in f.vector_fitness] for _, f in pf.paretos), sorted([float(x) for x in local['fits'][i]] for i in bests(local)), 'front scored again')
    names = ['s%d' % i for i in range(len(storages))]
    tests = [SynProblem(t, sense=mode(c)) for t in c['tests']]
    rc = ResultComparator(storages, names, list(objs), [1] * dim, test_problems=tests or None)
    ctx.nontrivial(len(storages) >= 2 and len({tuple(f) for f in flat}) >= 4)
    ctx.label('tests%d' % len(tests))
    for i, rs in enumerate(storages):
        want = [[float(score(sp, **e)[o]) for o in objs] for e in c['sets'][i]]
        eq([pure(f) for _, f in rs.list_solution_fits], want, 'fitness stored after comparing')
        for (s, f), e, w in zip(rs.list_solution_fits, c['sets'][i], want):
            require(s.problem is p and [float(s.problem.evaluate(s)[o]) for o in objs] == w, 'a stored solution was altered by the comparison')
        if tests:
            e = rs.get_best_solution().enc()
            for o in objs:
                eq(list(rc.reevaluated_results[i][o]), [score(t, **e)[o] for t in c['tests']], 'scores on the test problems')
    f = max if c['maxi'] else min
    for k, o in enumerate(objs):
        got = rc.get_best_by_objective_by_result_storage(o)
        eq(sorted(got), sorted(names), 'storages compared')
        for i, rs in enumerate(storages):
            want = f(pure(x)[k] for _, x in rs.list_solution_fits)
            eq(pure(got[names[i]][1])[k], want, 'best value of %s' % o)
            require(any(got[names[i]][0] is s for s, _ in rs.list_solution_fits), 'best solution of another storage')
    sup = rc.generate_super_pareto()
    local = dict(fits=flat, maxi=c['maxi'])
    eq(sorted(pure(x) for _, x in sup.paretos), sorted([float(y) for y in flat[i]] for i in bests(local)), 'super pareto front')
    if c['plots']:
        try:
            ax = rc.plot_all_2d_paretos_single_plot(list(objs[-2:]))
            for coll, rs in zip(ax.collections, storages):
                eq(coll.get_offsets().tolist(), [pure(x)[-2:] for _, x in rs.list_solution_fits], 'points drawn')
            fig = rc.plot_all_2d_paretos_subplots()
            for axis, rs in zip(fig.axes, storages):
                eq(axis.collections[0].get_offsets().tolist(), [pure(x)[:2] for _, x in rs.list_solution_fits], 'points drawn in subplots')
            plt.close('all')
            plt.figure()
            rc.plot_all_best_by_objective(objs[0])
            bars = [b.get_height() for b in plt.gca().patches]
            eq(bars, [f(pure(x)[0] for _, x in rs.list_solution_fits) for rs in storages], 'bars drawn')
        finally:
            plt.close('all')


SUBCHECKS = [
    Sub('storage', cases, check_storage, 2500),
    Sub('pareto', lambda: cases((1, 2, 2, 3)), check_pareto, 1500, thorough=15000),
    Sub('compare', comparisons, check_compare, 600, thorough=5000),
]
