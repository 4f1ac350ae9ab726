"""S08: GPHH priority rules: features describe tasks, rules are scored by the schedules they give, policies follow them."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from harness import rcpspdomain as rd
from harness.api import Sub, require, eq, close, Discard, Violation
from checks.d09 import World, follow, projects, simple_rule, verify
from deap import gp
from deap.base import Toolbox
from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain, build_sk_domain
from skdecide.hub.solver.gphh import gphh as G
from skdecide.hub.solver.sgs_policies.sgs_policies import BasePolicyMethod as B

RULE = ('Projects of 1-6 tasks (one mode, constant or growing availability), random expression trees over random features. Non-trivial: at least three tasks '
        'and a rule that tells some of them apart.')
ASSUMPTIONS = ['tasks without duration need no resource, availability is positive and never decreases',
               'values closer than rounding, of tasks with different features, may be ordered either way']
F = G.FeatureEnum
NAMES = [f.name for f in F]


@st.composite
def small_projects(draw):
    c = draw(projects(kinds=('single', 'single', 'calendar'), drops=False))
    for r, x in c['res'].items():
        total = max(1, sum(ms[0]['r'][r] for ms in c['modes']))
        if x['nr']:
            x['cap'] = total if isinstance(x['cap'], int) else [total] * len(x['cap'])
        elif not isinstance(x['cap'], int):
            x['cap'] = [max(1, v) for v in x['cap']]
    c['hor'] += 3
    for x in c['res'].values():
        if not isinstance(x['cap'], int):
            x['cap'] = x['cap'] + [x['cap'][-1]] * (c['hor'] * c['mult'] + 3 - len(x['cap']))
    return c


@st.composite
def trees(draw, names, depth=3):
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        return draw(st.sampled_from(names))
    op = draw(st.sampled_from(['add', 'sub', 'mul', 'protected_div', 'max_operator', 'min_operator', 'neg']))
    return [op] + [draw(trees(names, depth - 1)) for _ in range(1 if op == 'neg' else 2)]


def text(tree, names):
    """The tree as written for the library."""
    return F[tree].value if isinstance(tree, str) else '%s(%s)' % (tree[0], ', '.join(text(x, names) for x in tree[1:]))


def worth(tree, f):
    if isinstance(tree, str):
        return f[tree]
    v = [worth(x, f) for x in tree[1:]]
    return {'add': lambda: v[0] + v[1], 'sub': lambda: v[0] - v[1], 'mul': lambda: v[0] * v[1], 'protected_div': lambda: v[0] / v[1] if v[1] else 1.0,
            'max_operator': lambda: max(v), 'min_operator': lambda: min(v), 'neg': lambda: -v[0]}[tree[0]]()


def features(c, p, done=()):
    """Every feature of every task (1 is the source, n + 2 the sink), from the definition."""
    n = c['n'] + 2
    succ = {i: set(p.successors[i]) for i in range(1, n + 1)}
    pred = {i: {j for j in succ if i in succ[j]} for i in succ}
    order = []
    while len(order) < n:
        order += [i for i in succ if i not in order and pred[i] <= set(order)]
    dur = {i: c['modes'][i - 2][0]['d'] if 1 < i < n else 0 for i in succ}
    need = {i: c['modes'][i - 2][0]['r'] if 1 < i < n else {r: 0 for r in c['res']} for i in succ}
    below, es, lf = {}, {}, {}
    for i in reversed(order):
        below[i] = succ[i].union(*[below[j] for j in succ[i]]) if succ[i] else set()
    for i in order:
        es[i] = max([es[j] + dur[j] for j in pred[i]], default=0)
    last = es[n]
    for i in reversed(order):
        lf[i] = min([lf[j] - dur[j] for j in succ[i]], default=last)
    if not last:
        raise Discard()
    out = {}
    for i in succ:
        use = [sum(need[i][r] / rd.cap(c, r, t) for t in range(dur[i])) / dur[i] for r in need[i]] if dur[i] else [0.0]
        out[i] = {'TASK_DURATION': dur[i], 'RESSOURCE_TOTAL': sum(need[i].values()), 'N_SUCCESSORS': len(succ[i]) / n, 'N_PREDECESSORS': len(pred[i]) / n,
                  'RESSOURCE_REQUIRED': sum(x > 0 for x in use) / len(use), 'RESSOURCE_AVG': sum(use) / len(use), 'RESSOURCE_MIN': min(use),
                  'RESSOURCE_NZ_MIN': min([x for x in use if x > 0], default=0.0), 'RESSOURCE_MAX': max(use), 'ALL_DESCENDANTS': len(below[i]) / n,
                  'PRECEDENCE_DONE': int(i not in done and pred[i] <= set(done)), 'EARLIEST_START_DATE': es[i] / last, 'LATEST_START_DATE': (lf[i] - dur[i]) / last,
                  'EARLIEST_FINISH_DATE': (es[i] + dur[i]) / last, 'LATEST_FINISH_DATE': lf[i] / last, 'computed from': (dur[i], need[i])}
    return out


def ranking(values, feats, names):
    """Tasks by increasing value, and whether rounding may order some of them differently."""
    order = sorted(values, key=lambda i: (values[i], i))
    unsure = False
    for a, b in zip(order, order[1:]):
        near = abs(values[a] - values[b]) <= 1e-9 * max(1.0, abs(values[a]))
        unsure = unsure or near and any(feats[a][x] != feats[b][x] for x in names + ['computed from'])
    return order, unsure


def agree(ok, unsure, message, *args):
    if not ok and unsure:
        raise Discard()
    require(ok, message, *args)


def check_features(k, ctx):
    c = k['c']
    p = rd.build(c)
    dom = build_sk_domain(p, varying_ressource='calendar' in c['kind'])
    want = features(c, p)
    cpm, length = G.compute_cpm(build_do_domain(dom))
    state = dom.get_initial_state()
    names = range(1, c['n'] + 3)
    for i in k['done']:  # what has been completed, as far as precedence allows
        i = min(max(i, 1), c['n'] + 2)
        if features(c, p, state.tasks_complete)[i]['PRECEDENCE_DONE']:
            state.tasks_complete.add(i)
            state.tasks_remaining.discard(i)
    want = features(c, p, state.tasks_complete)
    for i in names:
        for f in F:
            got = G.feature_function_map[f](domain=dom, cpm=cpm, cpm_esd=length, task_id=i, state=state)
            close(float(got), want[i][f.name], 'feature %s of task %d' % (f.name, i))
    ctx.nontrivial(c['n'] >= 3)
    ctx.label(c['kind'])


@st.composite
def feature_cases(draw):
    return dict(c=draw(small_projects()), done=draw(st.lists(st.integers(1, 8), max_size=8)))


def parameters(names, method='FOLLOW_GANTT', **other):
    params = G.ParametersGPHH.default_for_set_features({F[x] for x in names})
    params.set_primitves.addPrimitive(G.protected_div, 2)
    params.base_policy_method = B[method]
    for x in other:
        setattr(params, x, other[x])
    return params


def tau(a, b):
    pairs = [(i, j) for i in range(len(a)) for j in range(i)]
    return sum(1 if (a[i] - a[j]) * (b[i] - b[j]) > 0 else -1 for i, j in pairs) / len(pairs)


def check_fitness(k, ctx):
    names, tree = k['names'], k['tree']
    doms = [build_sk_domain(rd.build(c), varying_ressource='calendar' in c['kind']) for c in k['cs']]
    distance = k['distance']
    refs = {str(i): list(np.random.RandomState(k['seed'] + i).permutation(c['n'] + 2) + 1) for i, c in enumerate(k['cs'])}
    want, unsure, apart = [], False, False
    for i, c in enumerate(k['cs']):
        feats = features(c, rd.build(c))
        values = {t: worth(tree, feats[t]) for t in feats}
        order, maybe = ranking(values, feats, names)
        unsure = unsure or maybe
        apart = apart or len(set(values.values())) > 2
        if distance is None:
            s = rd.sgs(c, [t - 2 for t in order if 1 < t < c['n'] + 2], [1] * c['n'])
            if s is None:
                raise Discard()
            want.append(max(e for _, e in s.values()))
        else:
            order = [int(t) for t in order]
            d = -tau(order, refs[str(i)]) if 'KTD' in distance else 0
            d += sum(a != b for a, b in zip(order, refs[str(i)])) / len(order) if 'HAMMING' in distance else 0
            vs = list(values.values())
            want.append(d + max(vs.count(v) for v in vs) / len(vs))
    params = parameters(names, evaluation=G.EvaluationGPHH.SGS if distance is None else G.EvaluationGPHH.PERMUTATION_DISTANCE,
                        permutation_distance=distance and G.PermutationDistance[distance])
    solver = G.GPHH(doms, doms[0], -1, params, reference_permutations=refs, training_domains_names=list(refs))
    solver.toolbox = Toolbox()
    solver.toolbox.register('compile', gp.compile, pset=solver.pset)
    evaluate = solver.evaluate_heuristic if distance is None else solver.evaluate_heuristic_permutation
    got = evaluate(text(tree, names), doms)
    agree(len(got) == 1 and abs(got[0] - sum(want) / len(want)) < 1e-6, unsure, 'fitness of %s: %s, expected the mean of %s', text(tree, names), got, want)
    ctx.nontrivial(any(c['n'] >= 3 for c in k['cs']) and apart)
    ctx.label('schedule' if distance is None else distance)


@st.composite
def fitness_cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    return dict(cs=draw(st.lists(small_projects(), min_size=1, max_size=3)), names=names, tree=draw(trees(names)), seed=draw(st.integers(0, 1000)),
                distance=draw(st.sampled_from([None, None, 'KTD', 'HAMMING', 'KTD_HAMMING'])))


def replanned(c, w, order):
    """Which tasks a policy may start that plans again in each state: by priority, around what has started."""
    perm = [t - 2 for t in order if 1 < t < c['n'] + 2]

    def rule(s):
        done = {t - 2: (s.tasks_details[t].start, s.tasks_details[t].end) for t in s.tasks_complete if 1 < t < c['n'] + 2}
        running = {t - 2: s.tasks_details[t].start for t in s.tasks_ongoing if 1 < t < c['n'] + 2}
        plan = rd.sgs(c, perm, [1] * c['n'], s.t, done, running)
        start = {1: 0, c['n'] + 2: max(e for _, e in plan.values()), **{t + 2: a for t, (a, _) in plan.items()}}
        return [t for t in w.eligible(s) if start[t] == s.t and w.fits(s, t, 1)], True
    return rule


def in_order(c, order):
    return all(order.index(i + 2) < order.index(j + 2) for i in range(c['n']) for j in c['succ'][i])


def check_policy(k, ctx):
    c, names, method = k['c'], k['names'], k['method']
    p = rd.build(c)
    varying = 'calendar' in c['kind']
    dom = build_sk_domain(p, varying_ressource=varying)
    feats = features(c, p)
    functions = [lambda *a, tree=tree: worth(tree, dict(zip(names, a))) for tree in k['trees']]
    listed = [F[x] for x in names]
    params = parameters(names, method, delta_index_freedom=k['di'])
    pool = k['pool']
    values = {}
    for t in feats:
        v = [worth(tree, feats[t]) for tree in k['trees']]
        if pool:
            mid = float(np.median(v))
            drop = sorted(range(len(v)), key=lambda i: -abs(v[i] - mid))
            kept = [v[i] for i in sorted(drop[k['extremes']:])]
            gaps = sorted((abs(x - mid) for x in v), reverse=True)
            if k['extremes'] and gaps[k['extremes'] - 1] - gaps[k['extremes']] < 1e-9 and len({round(v[i], 9) for i in drop if abs(abs(v[i] - mid) - gaps[k['extremes']]) < 1e-9}) > 1:
                raise Discard()  # which ones are extreme is not determined
            values[t] = float(np.mean(kept) if pool == 'MEAN' else np.median(kept))
        else:
            values[t] = v[0]
    order, unsure = ranking(values, feats, names)
    plan = rd.sgs(c, [t - 2 for t in order if 1 < t < c['n'] + 2], [1] * c['n'])
    if plan is None:
        raise Discard()
    start = {1: 0, c['n'] + 2: max(e for _, e in plan.values()), **{i + 2: s for i, (s, _) in plan.items()}}
    model = build_sk_domain(p, varying_ressource=varying)
    if pool:
        policy = G.PooledGPHHPolicy(dom, model, functions, G.PoolAggregationMethod[pool], k['extremes'], listed, params)
    elif k['stored']:
        cpm, length = G.compute_cpm(build_do_domain(model))
        policy = G.GPHHPolicy(dom, model, functions[0], listed, params, recompute_cpm=False, cpm_data={dom: {'cpm': cpm, 'cpm_esd': length}})
    else:
        policy = G.GPHHPolicy(dom, model, functions[0], listed, params)
    w = World(c, [1] * c['n'])
    w.sampled = None
    rule = replanned(c, w, order) if method == 'FOLLOW_GANTT' else simple_rule(w, method, order, start, 0, k['di'])
    try:
        s, delayed = follow(dom, policy, w, rule, ctx, 3 * c['hor'] + 10)
    except Violation:
        if unsure:
            raise Discard()
        raise
    sched, got = verify(c, dom, w, s)
    require(rd.feasible(c, sched, [1] * c['n'], got[c['n'] + 2][0]), 'the execution %s is not feasible', sched)
    if method == 'FOLLOW_GANTT' and in_order(c, order) and not unsure:
        ctx.label('same plan throughout')
        eq({i: a for i, (a, _) in got.items()}, start, 'starting times, planned again at each step')
    ctx.nontrivial(c['n'] >= 3 and delayed)
    ctx.label(method, pool and 'pooled ' + pool)


@st.composite
def policy_cases(draw):
    names = draw(st.lists(st.sampled_from([x for x in NAMES if x != 'PRECEDENCE_DONE']), min_size=1, max_size=4, unique=True))
    pool = draw(st.sampled_from([None, None, 'MEAN', 'MEDIAN']))
    count = draw(st.integers(1, 4)) if pool else 1
    return dict(c=draw(small_projects()), names=names, trees=[draw(trees(names)) for _ in range(count)], pool=pool, extremes=draw(st.integers(0, count - 1)),
                method=draw(st.sampled_from(['FOLLOW_GANTT', 'FOLLOW_GANTT', 'SGS_READY', 'SGS_INDEX_FREEDOM'])), di=draw(st.integers(0, 3)), stored=draw(st.booleans()))


class Logged(G.GPHH):
    def evaluate_heuristic(self, individual, domains):
        v = super().evaluate_heuristic(individual, domains)
        self.log.append((str(individual), v[0]))
        return v


def check_solve(k, ctx):
    c, names = k['c'], k['names']
    features(c, rd.build(c))
    random.seed(k['seed'])
    np.random.seed(k['seed'])
    dom = build_sk_domain(rd.build(c), varying_ressource='calendar' in c['kind'])
    if rd.sgs(c, list(range(c['n'])), [1] * c['n']) is None:
        raise Discard()
    params = parameters(names, pop_size=k['pop'], n_gen=k['gen'], tournament_ratio=0.5, evaluation=G.EvaluationGPHH.SGS)
    solver = Logged([dom], dom, k['weight'], params)
    solver.log = []
    solver.solve(lambda: dom)
    require(len(solver.log) >= k['pop'], '%d rules evaluated in a population of %d', len(solver.log), k['pop'])
    best = (min if k['weight'] < 0 else max)(v for _, v in solver.log)
    close(solver.best_heuristic.fitness.values[0], best, 'fitness of the best rule among %s' % [v for _, v in solver.log])
    require(any(e == str(solver.best_heuristic) and math.isclose(v, best) for e, v in solver.log), 'the best rule %s was never evaluated so', solver.best_heuristic)
    w = World(c, [1] * c['n'])
    w.sampled = None
    s = dom.get_initial_state()
    for _ in range(3 * c['hor'] + 10):
        if len(s.tasks_complete) == c['n'] + 2:
            break
        s = dom.get_next_state(s, solver.sample_action(s))
    eq(len(s.tasks_complete), c['n'] + 2, 'tasks completed by the policy')
    sched, got = verify(c, dom, w, s)
    require(rd.feasible(c, sched, [1] * c['n'], got[c['n'] + 2][0]), 'the execution %s is not feasible', sched)
    feats = features(c, rd.build(c))
    tied = all(feats[i][x] == feats[2][x] for i in range(2, c['n'] + 2) for x in names + ['computed from'])  # any rule leaves the order of the numbers
    if tied and in_order(c, list(range(1, c['n'] + 3))) and 'PRECEDENCE_DONE' not in names:
        ctx.label('same plan throughout')
        close(got[c['n'] + 2][0], best, 'makespan of the policy which follows the best rule')
    ctx.nontrivial(c['n'] >= 3 and len({v for _, v in solver.log}) > 1)


@st.composite
def solve_cases(draw):
    return dict(c=draw(small_projects()), names=draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True)), pop=draw(st.integers(4, 10)),
                gen=draw(st.integers(1, 3)), weight=draw(st.sampled_from([-1, -1, 1])), seed=draw(st.integers(0, 10000)))


SUBCHECKS = [Sub('features', feature_cases, check_features, quick=300, rule=RULE),
             Sub('fitness', fitness_cases, check_fitness, quick=300, rule=RULE),
             Sub('policy', policy_cases, check_policy, quick=200, rule=RULE, weight=2),
             Sub('solve', solve_cases, check_solve, quick=60, rule=RULE, weight=3)]
