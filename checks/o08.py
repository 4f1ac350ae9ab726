"""O08: combinatorial models score and validate solutions as their definition says, after any edits and copies."""
import contextlib
import io

from hypothesis import strategies as st

from harness.api import Sub, require, eq
from harness.dodomain import *

RULE = ('Random instances of each problem and histories of edits of a solution (new encoding, in-place edit then assignment, '
        'copy, switch to another instance of the same size, evaluation), with valid and invalid encodings. After each step the '
        'score and verdict must be those of an independent definition; copies keep theirs. A case counts when the history has '
        'at least two different encodings, with an evaluation before a change.')
ASSUMPTIONS = ['in-place edits of the encoding of a solution are followed by an assignment of the attribute, as the mutations of the library do',
               'the load of a vehicle includes the demands of its start and end nodes (once when they are the same)',
               'for the thief problem only the score is claimed (its satisfy is documented as to do)']


def check_score(got, want, what):
    for k, x in want.items():
        require(k in got, '%s: %s missing from %r', what, k, sorted(map(str, got)))
        require(near(float(got[k]), x), '%s: %s is %r, should be %r', what, k, got[k], x)


@st.composite
def history(draw, inst, enc, min_steps=5):
    c1, c2 = draw(inst)
    step = st.one_of(st.tuples(st.just('set'), enc(c1)), st.tuples(st.just('edit'), enc(c1)), st.just(['copy']), st.just(['eval']),
                     st.just(['satisfy']), st.just(['switch']), st.tuples(st.just('enc'), enc(c1)), st.just(['back']))
    return dict(a=c1, b=c2, first=draw(enc(c1)), steps=[list(s) for s in draw(st.lists(step, min_size=min_steps, max_size=9))])


def walk(c, ctx, build, make, attr, ref, encoding, clone=list, expect_extra=None):
    inst = [c['a'], c['b']]
    probs = [build(x) for x in inst]
    cur, enc = 0, c['first']
    sol = make(probs[0], inst[0], clone(enc))
    kept, seen, evaluated = [], {str(enc)}, False

    def verify(s, k, e, what):
        want, ok = ref(inst[k], e)
        check_score(probs[k].evaluate(s), want, what)
        eq(bool(probs[k].satisfy(s)), ok, what + ': verdict')
        if expect_extra:
            expect_extra(s, inst[k], e, what)

    for i, step in enumerate(c['steps']):
        op = step[0]
        if op == 'set':
            enc = step[1]
            setattr(sol, attr, clone(enc))
        elif op == 'edit':
            enc = step[1]
            cur_list = getattr(sol, attr)
            for j in range(len(enc)):
                if isinstance(enc[j], list) and isinstance(cur_list[j], list):
                    cur_list[j][:] = enc[j]
                else:
                    cur_list[j] = enc[j]
            setattr(sol, attr, cur_list)
        elif op == 'copy':
            kept.append((sol, cur, enc))
            sol = sol.copy()
        elif op == 'eval':
            check_score(probs[cur].evaluate(sol), ref(inst[cur], enc)[0], 'step %d' % i)
            evaluated = True
        elif op == 'satisfy':
            eq(bool(probs[cur].satisfy(sol)), ref(inst[cur], enc)[1], 'verdict at step %d' % i)
            evaluated = True
        elif op == 'switch':
            cur = 1 - cur
            sol.change_problem(probs[cur])
            require(sol.problem is probs[cur], 'the solution is not moved to the new problem')
        elif op == 'enc' and encoding:
            check_score(probs[cur].evaluate_from_encoding(clone(step[1]), encoding), ref(inst[cur], step[1])[0], 'from encoding')
        elif op == 'back' and kept:
            kept.append((sol, cur, enc))
            sol, cur, enc = kept.pop(0)
        if evaluated and str(enc) not in seen:
            ctx.nontrivial()
        seen.add(str(enc))
    verify(sol, cur, enc, 'at the end')
    for s, k, e in kept:
        verify(s, k, e, 'an earlier solution')
    ctx.label('invalid' if not ref(inst[cur], enc)[1] else 'valid', *sorted({s[0] for s in c['steps']}))


# -- knapsack
@st.composite
def two_knapsacks(draw):
    a, b = draw(knapsack()), draw(knapsack())
    n = min(len(a['items']), len(b['items']))
    a['items'], b['items'] = a['items'][:n], b['items'][:n]
    b['mobj'] = a['mobj']
    index = [i + draw(st.sampled_from([0, 1, 10])) for i in draw(st.permutations(range(n)))] if draw(st.booleans()) else None
    if index and len(set(index)) == n:
        a['index'] = b['index'] = index
    if draw(st.booleans()):  # halves are exact
        for x in (a, b):
            x['items'] = [[v / 2, w / 2] for v, w in x['items']]
            x['cap'] = x['cap'] / 2
    return a, b


def check_knapsack(c, ctx):
    walk(c, ctx, build_knapsack, lambda p, i, e: KnapsackSolution(problem=p, list_taken=e), 'list_taken', ref_knapsack, 'list_taken')


# -- coloring
@st.composite
def two_graphs(draw):
    a, b = draw(coloring()), draw(coloring())
    n = a['n']
    b = dict(n=n, edges=[e for e in b['edges'] if max(e) < n], names=a['names'])
    return a, b


def check_coloring(c, ctx):
    walk(c, ctx, build_coloring, lambda p, i, e: ColoringSolution(p, e), 'colors', ref_coloring, 'colors')
    p = build_coloring(c['a'])
    s = ColoringSolution(p, list(c['first']))
    r = s.to_reformated_solution()
    eq(list(s.colors), c['first'], 'colors of the solution which was reformatted')
    eq(ref_coloring(c['a'], list(r.colors)), ref_coloring(c['a'], c['first']), 'reformatted colors')
    eq(sorted(set(r.colors)), list(range(len(set(c['first'])))), 'colors used after reformatting')
    eq([r.colors.index(x) for x in r.colors], [c['first'].index(x) for x in c['first']], 'nodes of the same color')
    d = p.get_dummy_solution()
    require(p.satisfy(d), 'dummy coloring not valid')


# -- facility
@st.composite
def two_facilities(draw):
    a, b = draw(facility()), draw(facility())
    m, f = min(len(a['cust']), len(b['cust'])), min(len(a['fac']), len(b['fac']))
    for x in (a, b):
        x['cust'], x['fac'] = x['cust'][:m], x['fac'][:f]
    return a, b


def check_facility(c, ctx):
    walk(c, ctx, build_facility, lambda p, i, e: FacilitySolution(p, e), 'facility_for_customers', ref_facility, 'facility_for_customers')


# -- vehicle routing
@st.composite
def two_vrps(draw):
    a, b = draw(vrp()), draw(vrp())
    n, v = min(len(a['cust']), len(b['cust'])), min(len(a['cap']), len(b['cap']))
    for x in (a, b):
        x['cust'], x['cap'], x['start'], x['end'] = x['cust'][:n], x['cap'][:v], [i % n for i in x['start'][:v]], [i % n for i in x['end'][:v]]
    b['start'], b['end'] = a['start'], a['end']
    return a, b


def paths(c):
    n, v = len(c['cust']), len(c['cap'])
    todo = [i for i in range(n) if i not in c['start'] and i not in c['end']]

    @st.composite
    def valid(draw):
        order = draw(st.permutations(todo))
        res = [[] for _ in range(v)]
        for i in order:
            res[draw(st.integers(0, v - 1))].append(i)
        return res
    anything = st.lists(st.lists(st.integers(0, n - 1), max_size=5), min_size=v, max_size=v)
    return st.one_of(valid(), valid(), anything)


def deep(e):
    return [list(x) for x in e]


def check_vrp(c, ctx):
    walk(c, ctx, build_vrp, lambda p, i, e: VrpSolution(p, list(i['start']), list(i['end']), e), 'list_paths', ref_vrp, None, deep)
    p = build_vrp(c['a'])
    d = p.get_dummy_solution()
    check_score(p.evaluate(d), ref_vrp(c['a'], d.list_paths)[0], 'dummy routes')
    for v, path in enumerate(d.list_paths):
        if path:
            load = ref_vrp(dict(c['a'], cap=[0] * len(c['a']['cap'])), [path if w == v else [] for w in range(len(d.list_paths))])
            visited = set(path) | {c['a']['start'][v], c['a']['end'][v]}
            require(sum(c['a']['cust'][i][0] for i in visited) <= c['a']['cap'][v], 'dummy route of vehicle %d overloaded', v)
    flat = [i for q in d.list_paths for i in q]
    require(len(flat) == len(set(flat)), 'dummy routes repeat a customer')
    cust, ends = c['a']['cust'], list(zip(c['a']['start'], c['a']['end']))
    depots = {i for x in ends for i in x}
    require(not depots & set(flat), 'dummy routes go through start or end points %s: %s', depots, d.list_paths)
    for i in set(range(len(cust))) - depots - set(flat):
        for v, path in enumerate(d.list_paths):
            load = sum(cust[j][0] for j in set(path) | set(ends[v]))
            require(load + cust[i][0] > c['a']['cap'][v], 'customer %d is left out though vehicle %d has room', i, v)
    with contextlib.redirect_stdout(io.StringIO()):
        d = p.get_stupid_solution()
    eq(sorted(i for q in d.list_paths for i in q), sorted(set(range(len(cust))) - depots), 'customers of the one-vehicle solution')
    check_score(p.evaluate(d), ref_vrp(c['a'], d.list_paths)[0], 'one-vehicle routes')


# -- travelling salesman
@st.composite
def two_tsps(draw):
    a = draw(tsp())
    b = dict(a, pts=[[draw(half), draw(half)] for _ in a['pts']], numba=draw(st.booleans()))
    return a, b


def perms(c):
    ok = st.permutations(inner(c)).map(list)
    k = len(inner(c))
    return st.one_of(ok, ok, ok, st.lists(st.sampled_from(inner(c)), min_size=k, max_size=k))


def tsp_score(c, e):
    lengths, total, ok = ref_tsp(c, e)
    return {'length': total}, ok


def tsp_extra(s, c, e, what):
    lengths, total, ok = ref_tsp(c, e)
    eq(list(s.permutation), list(e), what + ': permutation')
    where = inner(c)
    eq([where[x] for x in s.permutation_from0], list(e), what + ': 0-based permutation')
    require(s.length is not None and near(s.length, total), '%s: length stored %r, should be %r', what, s.length, total)
    require(len(s.lengths) == len(lengths) and all(near(float(a), b) for a, b in zip(s.lengths, lengths)),
            '%s: lengths of edges %r, should be %r', what, list(s.lengths), lengths)


def check_tsp(c, ctx):
    walk(c, ctx, build_tsp, lambda p, i, e: SolutionTSP(problem=p, permutation=e), 'permutation', tsp_score, 'permutation', expect_extra=tsp_extra)
    p = build_tsp(c['a'])
    where = inner(c['a'])
    e = c['first']
    zero = [where.index(x) for x in e]
    s = SolutionTSP(problem=p, permutation_from0=list(zero))
    check_score(p.evaluate(s), tsp_score(c['a'], e)[0], 'built from the 0-based permutation')
    tsp_extra(s, c['a'], e, 'built from the 0-based permutation')
    check_score(p.evaluate_from_encoding(list(zero), 'permutation_from0'), tsp_score(c['a'], e)[0], 'from the 0-based permutation')
    s.permutation_from0 = list(zero[::-1])
    check_score(p.evaluate(s), tsp_score(c['a'], e[::-1])[0], 'after setting the 0-based permutation')
    tsp_extra(s, c['a'], e[::-1], 'after setting the 0-based permutation')
    d = p.get_dummy_solution()
    require(p.satisfy(d), 'dummy tour not valid')


# -- travelling thief
@st.composite
def thief_cases(draw):
    c = draw(ttp())
    n = len(c['nodes'])
    sols = []
    for _ in range(draw(st.integers(1, 3))):
        t = list(draw(st.permutations(range(n))))
        sols.append([t + t[:1], [draw(st.booleans()) for _ in c['items']]])
    return dict(inst=c, sols=sols)


def check_ttp(c, ctx):
    i = c['inst']
    p = build_ttp(i)
    old = []
    for tour, picked in c['sols']:
        packing = [k if t else -1 for (_, _, k), t in zip(i['items'], picked)]
        s = TTPSolution(np.array(tour), np.array(packing))
        want, weights = ref_ttp(i, tour, picked)
        got = p.evaluate(s)
        require(near(float(got['obj']), want['objective']), 'objective %r, should be %r', got['obj'], want['objective'])
        for k, x in want.items():
            require(near(float(getattr(s, k)), x), '%s is %r, should be %r', k, getattr(s, k), x)
        t = s.copy()
        for k, x in want.items():
            require(near(float(getattr(t, k)), x), '%s of the copy is %r, should be %r', k, getattr(t, k), x)
        obj = p.evaluate_details(t)
        require(near(float(obj), want['objective']), 'detailed objective %r, should be %r', obj, want['objective'])
        eq([int(x) for x in t.weight_array], weights, 'weights along the tour')
        t.tour[0] = t.tour[-1] = t.tour[1]
        old.append((s, tour, packing, want))
        ctx.nontrivial(len({k for (_, _, k), q in zip(i['items'], picked) if q}) >= 2)
    for s, tour, packing, want in old:
        eq([int(x) for x in s.tour], tour, 'tour of an evaluated solution')
        eq([int(x) for x in s.packing], packing, 'packing of an evaluated solution')


SUBCHECKS = [
    Sub('knapsack', lambda: history(two_knapsacks(), lambda c: st.lists(st.integers(0, 1), min_size=len(c['items']), max_size=len(c['items']))),
        check_knapsack, 1500),
    Sub('coloring', lambda: history(two_graphs(), lambda c: st.lists(st.integers(0, max(1, c['n'] - 1)), min_size=c['n'], max_size=c['n'])),
        check_coloring, 1500),
    Sub('facility', lambda: history(two_facilities(), lambda c: st.lists(st.integers(0, len(c['fac']) - 1), min_size=len(c['cust']), max_size=len(c['cust']))),
        check_facility, 1500),
    Sub('vehicle-routing', lambda: history(two_vrps(), paths), check_vrp, 1500),
    Sub('salesman', lambda: history(two_tsps(), perms), check_tsp, 1000, cpu_limit=60),
    Sub('thief', thief_cases, check_ttp, 600, cpu_limit=60),
]
