"""O01: serial schedule generation of RCPSP solutions."""
from copy import deepcopy
import numpy as np
from hypothesis import strategies as st
from harness import rcpspdomain as rd
from harness.api import Sub, require, eq, close
from skdecide.builders.discrete_optimization.generic_tools.do_problem import BaseMethodAggregating, MethodAggregating
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution, Aggreg_RCPSPModel, RCPSP_H_Model

RULE = ('Projects of 1-6 tasks with 1-3 modes, 1-3 renewable or non-renewable resources, constant or varying availability, any precedence graph, tight or loose horizons; '
        'non-trivial: feasible, at least three tasks, and resources delay some task beyond its predecessors.')
ASSUMPTIONS = ['task 1 is the source and the last one the sink, without duration', 'non-renewable availability is constant in calendars', 'calendars cover the horizon times its multiplier']


def delayed(c, sched):
    pr = rd.preds_of(c)
    return any(s > max([sched[j][1] for j in pr[i]], default=0) for i, (s, _) in sched.items())


def check_solution(c, p, sol, e, ctx, what=''):
    """The solution (already built) against the reference for the vectors e."""
    modes = rd.fixed_modes(c, e['modes'])
    ref = rd.sgs(c, e['perm'], e['modes'])
    v = p.evaluate(sol)
    if ref is None:
        require(sol.rcpsp_schedule_feasible is False, '%s infeasible solution not reported as such', what)
        require(v['makespan'] >= 9999999 and v['mean_resource_reserve'] == 0, '%s infeasible solution scored %r', what, v)
        require(not p.satisfy(sol), '%s infeasible solution satisfies the problem', what)
        ctx.label('infeasible')
        return None
    got = rd.plain_schedule(c, sol)
    require(bool(sol.rcpsp_schedule_feasible), '%s feasible solution reported infeasible', what)
    require(rd.feasible(c, got, modes) and all(got[i][1] - got[i][0] == rd.mode(c, i, modes)['d'] for i in got) and len(got) == c['n'],
            '%s schedule %r breaks a constraint', what, got)
    eq(got, ref, what + ' schedule')
    end = max(x[1] for x in ref.values())
    eq((sol.rcpsp_schedule[1]['start_time'], sol.rcpsp_schedule[1]['end_time']), (0, 0), what + ' source')
    eq((sol.rcpsp_schedule[c['n'] + 2]['start_time'], sol.rcpsp_schedule[c['n'] + 2]['end_time']), (end, end), what + ' sink')
    eq(v['makespan'], end, what + ' makespan')
    r = rd.reserve(c, ref, modes, end)
    if r is not None:
        close(float(v['mean_resource_reserve']), r, what + ' mean resource reserve')
        eq([float(x) for x in p.evaluate_mobj(sol).vector_fitness], [-float(v['makespan']), float(v['mean_resource_reserve'])], what + ' vector of scores')
    require(p.satisfy(sol), '%s schedule generated does not satisfy the problem', what)
    eq(list(sol.rcpsp_modes), modes, what + ' modes')
    left_justified(c, ref, modes, got)
    ctx.nontrivial(c['n'] >= 3 and delayed(c, ref))
    return ref


def left_justified(c, ref, modes, got):
    pr = rd.preds_of(c)
    for i, (s, e) in got.items():
        lo = max([got[j][1] for j in pr[i]], default=0)
        for x in range(lo, s):
            moved = dict(got)
            moved[i] = (x, x + e - s)
            require(not rd.feasible(c, moved, modes), 'task %d could start at %d instead of %d', i, x, s)


def solution(p, e):
    return RCPSPSolution(problem=p, rcpsp_permutation=list(e['perm']), rcpsp_modes=list(e['modes']))


def frozen(p):
    return deepcopy((p.resources, p.mode_details, p.successors, p.non_renewable_resources, p.horizon))


@st.composite
def decode_cases(draw):
    c = draw(rd.instances())
    return dict(c=c, e=draw(rd.vectors(c)), arr=draw(st.booleans()))


def check_decode(k, ctx):
    c, e = k['c'], k['e']
    p = rd.build(c)
    if k['arr'] and 'calendar' in c['kind']:
        p.resources = {r: np.array(x) for r, x in p.resources.items()}
    before = frozen(p)
    sol = solution(p, e)
    ref = check_solution(c, p, sol, e, ctx)
    again = solution(p, e)
    require((again.rcpsp_schedule, again.rcpsp_schedule_feasible) == (sol.rcpsp_schedule, sol.rcpsp_schedule_feasible), 'decoding again gives another schedule')
    if ref is not None:
        # reading the schedule back as a list of priorities gives the same schedule
        std = [int(x) for x in sol.generate_permutation_from_schedule()]
        eq(sorted(std), list(range(c['n'])), 'permutation of the schedule')
        require(all(ref[a][0] <= ref[b][0] for a, b in zip(std, std[1:])), 'permutation %r of %r is not by start time', std, ref)
        back = RCPSPSolution(problem=p, rcpsp_permutation=std, rcpsp_modes=list(sol.rcpsp_modes))
        eq(rd.plain_schedule(c, back), ref, 'schedule of the permutation of the schedule')
        cons = p.compute_resource_consumption(sol)
        modes = rd.fixed_modes(c, e['modes'])
        end = max(x[1] for x in ref.values())
        for ir, name in enumerate(p.resources_list):
            for t in range(end):
                used = sum(rd.mode(c, i, modes)['r'][name] for i, (s, f) in ref.items() if s <= t < f)
                eq(float(cons[ir, t + 1]), float(used), 'consumption of %s at %d' % (name, t))
    after = frozen(p)
    require(all(list(map(int, np.ravel(before[0][r]))) == list(map(int, np.ravel(after[0][r]))) for r in before[0]) and before[1:] == after[1:], 'scheduling altered the problem')


@st.composite
def edit_cases(draw):
    c = draw(rd.instances(max_n=5))
    d = draw(rd.instances(kinds=[c['kind']], min_n=c['n'], max_n=c['n']))
    d['modes'] = [ms[:len(cs)] + ms[-1:] * (len(cs) - len(ms)) for ms, cs in zip(d['modes'], c['modes'])]
    es = draw(st.lists(rd.vectors(c), min_size=2, max_size=4))
    ops = draw(st.lists(st.tuples(st.sampled_from(['perm', 'modes', 'inplace', 'copy', 'lazy', 'eval', 'satisfy', 'regen', 'switch', 'check', 'back']),
                                  st.integers(0, 7)).map(list), min_size=3, max_size=10))
    return dict(c=c, d=d, es=es, ops=ops)


def check_edits(k, ctx):
    insts = [k['c'], k['d']]
    ps = [rd.build(x) for x in insts]
    e = deepcopy(k['es'][0])
    which = 0
    sol = solution(ps[0], e)
    kept = []
    for op, x in k['ops']:
        src = k['es'][x % len(k['es'])]
        ctx.label(op)
        if op == 'perm':
            e['perm'] = list(src['perm'])
            sol.rcpsp_permutation = list(src['perm'])
        elif op == 'modes':
            e['modes'] = list(src['modes'])
            sol.rcpsp_modes = list(src['modes'])
        elif op == 'inplace':
            q = sol.rcpsp_permutation
            q[0], q[-1] = q[-1], q[0]
            sol.rcpsp_permutation = q
            e['perm'][0], e['perm'][-1] = e['perm'][-1], e['perm'][0]
        elif op in ('copy', 'back'):
            kept.append((sol, deepcopy(e), which))
            new = sol.copy()
            if op == 'back':
                kept[-1] = (new, deepcopy(e), which)
            else:
                sol = new
        elif op == 'lazy':
            sol = sol.lazy_copy()
        elif op == 'eval':
            ps[which].evaluate(sol)
        elif op == 'satisfy':
            eq(bool(ps[which].satisfy(sol)), rd.sgs(insts[which], e['perm'], e['modes']) is not None, 'satisfy')
        elif op == 'regen':
            sol.generate_schedule_from_permutation_serial_sgs()
        elif op == 'switch':
            e['modes'] = rd.fixed_modes(insts[which], e['modes']) if sol.rcpsp_schedule is not None else e['modes']
            # modes which the previous problem lacks were replaced when scheduled; those vectors are valid in the new one or replaced again
            ps[which].evaluate(sol)
            which = 1 - which
            sol.change_problem(ps[which])
        elif op == 'check':
            check_solution(insts[which], ps[which], sol, e, ctx, 'after ' + op)
        if op in ('eval', 'regen', 'satisfy', 'check'):
            e['modes'] = rd.fixed_modes(insts[which], e['modes'])
    check_solution(insts[which], ps[which], sol, e, ctx, 'at the end')
    for s, e0, w in kept:
        # a copy and its original do not share edits
        check_solution(insts[w], ps[w], s, e0, ctx, 'kept solution')


@st.composite
def encoding_cases(draw):
    c = draw(rd.instances(kinds=('single', 'multi', 'multi', 'calendar')))
    return dict(c=c, e=draw(rd.vectors(c, False)), f=draw(rd.vectors(c, False)))


def check_encodings(k, ctx):
    c, e, f = k['c'], k['e'], k['f']
    p = rd.build(c)
    ones = [1] * c['n']

    def scored(perm, modes, v, what):
        check_same(c, perm, modes, v, what)
    scored(list(range(c['n'])), ones, p.evaluate(p.get_dummy_solution()), 'dummy solution')
    if c['kind'] != 'multi':
        scored(e['perm'], ones, p.evaluate_from_encoding(list(e['perm']), 'rcpsp_permutation'), 'permutation')
    else:
        p.set_fixed_modes(list(f['modes']))
        p.set_fixed_permutation(list(f['perm']))
        scored(e['perm'], f['modes'], p.evaluate_from_encoding(list(e['perm']), 'rcpsp_permutation'), 'permutation with fixed modes')
        s = p.get_solution_from_encoding(list(e['perm']), 'rcpsp_permutation')
        eq((list(s.rcpsp_permutation), list(s.rcpsp_modes)), (e['perm'], f['modes']), 'solution of a permutation')
        zero = [m - 1 for m in e['modes']]
        scored(f['perm'], e['modes'], p.evaluate_from_encoding(list(zero), 'rcpsp_modes'), 'modes with a fixed permutation')
        s = p.get_solution_from_encoding(list(zero), 'rcpsp_modes')
        eq((list(s.rcpsp_permutation), list(s.rcpsp_modes)), (f['perm'], e['modes']), 'solution of modes')
        p.set_fixed_attributes('rcpsp_modes', solution(p, e))
        scored(f['perm'], e['modes'], p.evaluate_from_encoding(list(f['perm']), 'rcpsp_permutation'), 'permutation with the modes of a solution')
        p.set_fixed_attributes('rcpsp_permutation', solution(p, e))
        scored(e['perm'], f['modes'], p.evaluate_from_encoding([m - 1 for m in f['modes']], 'rcpsp_modes'), 'modes with the permutation of a solution')
        q = p.copy()
        scored(e['perm'], f['modes'], q.evaluate_from_encoding([m - 1 for m in f['modes']], 'rcpsp_modes'), 'copied problem')
        reg = p.get_attribute_register().dict_attribute_to_type
        eq(list(reg['rcpsp_modes_arrity_fix']['arrities']), [len(m) for m in c['modes']], 'numbers of modes')
    q = p.copy()
    check_solution(c, q, solution(q, e), e, ctx, 'copied problem')
    g = p.compute_graph()
    eq(set(g.get_edges()), {(a, b) for a, s in p.successors.items() for b in s}, 'precedence graph')


def check_same(c, perm, modes, v, what):
    ref = rd.sgs(c, perm, modes)
    if ref is None:
        require(v['makespan'] >= 9999999, '%s: infeasible but scored %r', what, v)
    else:
        eq(v['makespan'], max(x[1] for x in ref.values()), what + ': makespan')


@st.composite
def robust_cases(draw):
    c = draw(rd.instances(kinds=('single', 'multi'), over=False, loose=True, max_n=5))
    scen = [c]
    for _ in range(draw(st.integers(1, 3))):
        d = deepcopy(c)
        for ms in d['modes']:
            for m in ms:
                m['d'] = max(0, m['d'] + draw(st.integers(-1, 2)))
        d['hor'] = 200
        scen.append(d)
    c['hor'] = 200
    return dict(scen=scen, es=draw(st.lists(rd.vectors(c, False), min_size=1, max_size=3)), q=draw(st.sampled_from([10, 50, 90])))


def check_robust(k, ctx):
    ps = [rd.build(c) for c in k['scen']]
    B = BaseMethodAggregating
    for m, f in ((B.MEAN, np.mean), (B.MIN, min), (B.MAX, max), (B.MEDIAN, np.median), (B.PERCENTILE, lambda x: np.percentile(x, k['q']))):
        agg = Aggreg_RCPSPModel(list_problem=ps, method_aggregating=MethodAggregating(m, percentile=k['q']))
        for e in k['es']:
            refs = [rd.sgs(c, e['perm'], e['modes']) for c in k['scen']]
            sol = solution(ps[0], e)
            v = agg.evaluate(sol)
            xs = [9999999 if r is None else max(x[1] for x in r.values()) for r in refs]
            close(float(v['makespan']), float(f(xs)), m.name + ' makespan')
            rs = [0 if r is None else rd.reserve(c, r, e['modes'], x) for c, r, x in zip(k['scen'], refs, xs)]
            if None not in rs:
                close(float(v['mean_resource_reserve']), float(f(rs)), m.name + ' reserve')
            ctx.nontrivial(len(set(xs)) >= 2)
            if k['scen'][0]['kind'] == 'single':
                w = agg.evaluate_from_encoding(list(e['perm']), 'rcpsp_permutation')
                close(float(w['makespan']), float(f(xs)), m.name + ' makespan of a permutation')
            eq((list(sol.rcpsp_permutation), list(sol.rcpsp_modes)), (e['perm'], e['modes']), 'solution after evaluation')
            eq(ps[0].evaluate(sol)['makespan'], xs[0], 'score in the first scenario afterwards')
        one = agg.get_unique_rcpsp_model()
        for i in range(k['scen'][0]['n']):
            for j in range(len(k['scen'][0]['modes'][i])):
                ds = [c['modes'][i][j]['d'] for c in k['scen']]
                eq(int(one.mode_details[i + 2][j + 1]['duration']), int(f(ds)), 'aggregated duration')
        for c, p in zip(k['scen'], ps):
            require(all(p.mode_details[i + 2][j + 1]['duration'] == mo['d'] for i, ms in enumerate(c['modes']) for j, mo in enumerate(ms)), 'a scenario was altered')


SUBCHECKS = [
    Sub('decode', decode_cases, check_decode, 3000),
    Sub('edits', edit_cases, check_edits, 1600),
    Sub('encodings', encoding_cases, check_encodings, 1200),
    Sub('scenarios', robust_cases, check_robust, 500),
]
