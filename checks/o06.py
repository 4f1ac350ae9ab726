"""O06: multi-skill schedule generation."""
from copy import deepcopy
from hypothesis import strategies as st
from harness import skilldomain as sd
from harness.api import Sub, require, eq, close
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import (
    MS_RCPSPSolution, MS_RCPSPSolution_Variant, schedule_solution_to_variant)

RULE = ('Projects of 1-6 tasks with 1-2 modes, 0-2 resources (renewable with calendars, or not), 1-4 units with 1-3 skills and calendars, one unit per task or several; '
        'non-trivial: feasible, at least three tasks, and units or resources delay some task beyond its predecessors.')
ASSUMPTIONS = ['tasks are numbered from 1 (source) to n+2 (sink), both without needs', 'calendars cover the horizon', 'whether a project may end exactly at the horizon is left open']


def delayed(c, sched):
    pr = sd.preds_of(c)
    return any(s > max([sched[j][1] for j in pr[i]], default=0) for i, (s, _) in sched.items())


def check_solution(c, p, sol, e, ctx, what=''):
    modes = sd.fixed_modes(c, e['modes'])
    refs = [sd.decode(c, e), sd.decode(c, e, c['hor'] - 1)]
    v = p.evaluate(sol)
    ok = p.satisfy(sol)
    n = c['n']
    if len(sol.schedule) != n + 2 or any(i not in sol.schedule for i in range(1, n + 3)) or v['makespan'] > c['hor']:
        require(refs[1] is None, '%s reported infeasible, but %r', what, refs[1])
        require(not ok and v['makespan'] >= 9999999, '%s infeasible solution scored %r, accepted: %r', what, v, ok)
        ctx.label('infeasible')
        return None
    got, usage = sd.plain(c, sol)
    require(refs[0] is not None, '%s reported feasible with %r', what, got)
    sched, units = refs[0]
    for i, m in enumerate(modes):
        eq(got[i][1] - got[i][0], sd.mode(c, i, modes)['d'], what + ' duration of task %d' % i)
    require(sd.feasible(c, got, modes, usage), '%s schedule %r with units %r breaks a constraint', what, got, usage)
    if c['one']:
        require(all(len(u) <= 1 for u in usage.values()), '%s several units on a task: %r', what, usage)
    skill = {x['k']: x['s'] for x in c['emp']}
    for i, u in usage.items():
        for w, sk in u.items():
            require(set(sk) <= set(skill[w]) & set(sd.need(sd.mode(c, i, modes))), '%s unit %r uses skills %r in task %d', what, w, sk, i)
    eq(got, sched, what + ' schedule')
    eq({i: sorted(u) for i, u in usage.items() if u}, {i: sorted(u) for i, u in units.items()}, what + ' units')
    end = max(x[1] for x in sched.values())
    eq((sol.schedule[1]['start_time'], sol.schedule[1]['end_time']), (0, 0), what + ' source')
    eq((sol.schedule[n + 2]['start_time'], sol.schedule[n + 2]['end_time']), (end, end), what + ' sink')
    eq(v['makespan'], end, what + ' makespan')
    eq([float(x) for x in p.evaluate_mobj(sol).vector_fitness], [-float(end)], what + ' vector of scores')
    require(ok, '%s schedule generated does not satisfy the problem', what)
    eq({i: m for i, m in sol.modes.items() if 2 <= i <= n + 1}, {i + 2: m for i, m in enumerate(modes)}, what + ' modes')
    ctx.label('one unit' if c['one'] else 'several units')
    ctx.nontrivial(n >= 3 and delayed(c, sched))
    return sched, units


def frozen(p):
    return deepcopy((p.resources_availability, p.mode_details, p.successors, p.horizon,
                     {k: (list(x.calendar_employee), {s: d.skill_value for s, d in x.dict_skill.items()}) for k, x in p.employees.items()}))


@st.composite
def decode_cases(draw):
    c = draw(sd.instances(long=True))
    return dict(c=c, e=draw(sd.vectors(c)))


def check_decode(k, ctx):
    c, e = k['c'], k['e']
    p = sd.build(c)
    before = frozen(p)
    sol = sd.solution(p, e)
    ref = check_solution(c, p, sol, e, ctx)
    again = sd.solution(p, e)
    require((again.schedule, again.employee_usage) == (sol.schedule, sol.employee_usage), 'decoding again gives another schedule')
    eq((list(sol.priority_list_task), list(sol.modes_vector), [list(x) for x in sol.priority_worker_per_task]), (e['perm'], e['modes'], e['pw']), 'vectors after decoding')
    if ref is not None:
        modes = sd.fixed_modes(c, e['modes'])
        got, usage = sd.plain(c, sol)
        base = sd.build(c, variant=False)
        plain = MS_RCPSPSolution(problem=base, modes=dict(sol.modes), schedule=deepcopy(sol.schedule), employee_usage=deepcopy(sol.employee_usage))
        for q in (base, base.copy(), base.to_variant_model(), p):
            require(q.satisfy(plain.copy()), 'schedule refused as a plain solution by %s', type(q).__name__)
            eq(q.evaluate(plain)['makespan'], max(x[1] for x in got.values()), 'makespan of the plain solution')
        # back to vectors: by start time, units used first
        plain.problem = p
        var = schedule_solution_to_variant(plain)
        perm = [int(x) for x in var.priority_list_task]
        eq(sorted(perm), list(range(c['n'])), 'tasks of the variant')
        require(all(got[a][0] <= got[b][0] for a, b in zip(perm, perm[1:])), 'variant %r of %r is not by start time', perm, got)
        pw = [list(x) for x in var.priority_worker_per_task]
        ks = sorted(x['k'] for x in c['emp'])
        for i in range(c['n']):
            eq(sorted(pw[i]), ks, 'units of the variant for task %d' % i)
            u = set(usage.get(i, {}))
            eq(set(pw[i][:len(u)]), u, 'preferred units of the variant for task %d' % i)
        eq([int(x) for x in var.modes_vector], modes, 'modes of the variant')
        check_solution(c, p, var, dict(perm=perm, modes=modes, pw=pw), ctx, 'variant of the schedule')
        # the project where skills are resources is a relaxation
        cal = p.build_multimode_rcpsp_calendar_representative()
        r = RCPSPSolution(problem=cal, rcpsp_schedule=deepcopy(sol.schedule), rcpsp_modes=list(modes), rcpsp_permutation=list(perm))
        require(cal.satisfy(r), 'schedule refused by the project whose resources are the skills')
        for s in c['skills']:
            for t in range(c['hor']):
                eq(int(cal.resources[s][t]), sum(x['s'].get(s, 0) for x in c['emp'] if x['cal'][t]), 'availability of %s at %d' % (s, t))
        for i, ms in enumerate(c['modes']):
            for j, m in enumerate(ms):
                d = cal.mode_details[i + 2][j + 1]
                eq((d['duration'], {a: d[a] for a in c['res']}, {a: d[a] for a in c['skills']}),
                   (m['d'], m['r'], {a: m['s'].get(a, 0) for a in c['skills']}), 'needs of task %d with skills as resources' % i)
    g = p.compute_graph()
    eq(set(g.get_edges()), {(a, b) for a, s in p.successors.items() for b in s}, 'precedence graph')
    require(frozen(p) == before, 'scheduling altered the problem')


@st.composite
def edit_cases(draw):
    c = draw(sd.instances(max_n=5, long=True))
    es = draw(st.lists(sd.vectors(c, False), min_size=2, max_size=4))
    ops = draw(st.lists(st.tuples(st.sampled_from(['perm', 'modes', 'modes0', 'pw', 'copy', 'back', 'lazy', 'eval', 'satisfy', 'switch', 'check']),
                                  st.integers(0, 7)).map(list), min_size=3, max_size=10))
    d = deepcopy(c)
    for ms in d['modes']:
        for m in ms:
            m['d'] = draw(st.integers(0, 4))
    return dict(c=c, d=d, es=es, ops=ops)


def check_edits(k, ctx):
    insts = [k['c'], k['d']]
    ps = [sd.build(x) for x in insts]
    e = deepcopy(k['es'][0])
    which = 0
    sol = sd.solution(ps[0], e)
    kept = []
    for op, x in k['ops']:
        src = deepcopy(k['es'][x % len(k['es'])])
        ctx.label(op)
        if op == 'perm':
            e['perm'] = list(src['perm'])
            sol.priority_list_task = src['perm']
        elif op == 'modes':
            e['modes'] = list(src['modes'])
            sol.modes_vector = src['modes']
        elif op == 'modes0':
            e['modes'] = list(src['modes'])
            sol.modes_vector_from0 = [m - 1 for m in src['modes']]
        elif op == 'pw':
            e['pw'] = deepcopy(src['pw'])
            sol.priority_worker_per_task = src['pw']
        elif op in ('copy', 'back'):
            new = sol.copy()
            kept.append((new if op == 'back' else sol, deepcopy(e), which))
            sol = sol if op == 'back' else new
        elif op == 'lazy':
            sol = sol.lazy_copy()
        elif op == 'eval':
            ps[which].evaluate(sol)
        elif op == 'satisfy':
            ps[which].satisfy(sol)
        elif op == 'switch':
            which = 1 - which
            sol.change_problem(ps[which])
        elif op == 'check':
            check_solution(insts[which], ps[which], sol, e, ctx, 'after edits')
        eq(list(sol.modes_vector), e['modes'], 'modes after ' + op)
        eq(list(sol.modes_vector_from0), [m - 1 for m in e['modes']], 'modes from 0 after ' + op)
    check_solution(insts[which], ps[which], sol, e, ctx, 'at the end')
    for s, e0, w in kept:
        check_solution(insts[w], ps[w], s, e0, ctx, 'kept solution')


@st.composite
def encoding_cases(draw):
    c = draw(sd.instances(keys=False, loose=True, long=True))
    ne = len(c['emp'])
    return dict(c=c, e=draw(sd.vectors(c, False)), f=draw(sd.vectors(c, False)), flat=list(draw(st.permutations(range(ne * c['n'])))))


def check_encodings(k, ctx):
    c, e, f, flat = k['c'], k['e'], k['f'], k['flat']
    p = sd.build(c)
    ne, n = len(c['emp']), c['n']
    ks = [x['k'] for x in c['emp']]
    pw = []
    for i in range(n):
        part = flat[i * ne:(i + 1) * ne]
        pw.append([1 + sorted(part).index(x) for x in part])

    def scored(v, what, perm, modes, pw):
        enc = dict(perm=perm, modes=modes, pw=pw)
        if v['makespan'] >= 9999999:
            ref = sd.decode(c, enc, c['hor'] - 1)
            require(ref is None, '%s: feasible but scored %r', what, v)
        else:
            ref = sd.decode(c, enc)
            require(ref is not None, '%s: infeasible but scored %r', what, v)
            eq(v['makespan'], max(x[1] for x in ref[0].values()), what + ': makespan')
            ctx.nontrivial(n >= 3 and delayed(c, ref[0]))

    scored(p.evaluate(p.get_dummy_solution()), 'dummy solution', list(range(n)), [1] * n, [ks] * n)
    p.set_fixed_modes(list(f['modes']))
    p.set_fixed_task_permutation(list(f['perm']))
    p.set_fixed_priority_worker_per_task(deepcopy(f['pw']))

    def all_of(F, what):
        scored(p.evaluate_from_encoding(list(e['perm']), 'priority_list_task'), 'tasks ' + what, e['perm'], F['modes'], F['pw'])
        scored(p.evaluate_from_encoding(list(e['modes']), 'modes_vector'), 'modes ' + what, F['perm'], e['modes'], F['pw'])
        scored(p.evaluate_from_encoding([m - 1 for m in e['modes']], 'modes_vector_from0'), 'modes from 0 ' + what, F['perm'], e['modes'], F['pw'])
        scored(p.evaluate_from_encoding(list(flat), 'priority_worker_per_task'), 'units ' + what, F['perm'], F['modes'], pw)
        s = MS_RCPSPSolution_Variant(problem=p)
        scored(p.evaluate(s), 'defaults ' + what, F['perm'], F['modes'], F['pw'])
    all_of(f, 'with fixed values')
    s = MS_RCPSPSolution_Variant(problem=p, priority_list_task=list(e['perm']), modes_vector_from0=[m - 1 for m in e['modes']], priority_worker_per_task=list(flat))
    eq([list(x) for x in s.priority_worker_per_task], pw, 'units of a permutation')
    check_solution(c, p, s, dict(perm=e['perm'], modes=e['modes'], pw=pw), ctx, 'from a permutation of units')
    sol = sd.solution(p, e)
    F = dict(f)
    for key, name in (('modes_vector', 'modes'), ('priority_list_task', 'perm'), ('priority_worker_per_task', 'pw')):
        p.set_fixed_attributes(key, sol)
        F[name] = e[name]
        all_of(F, 'with %s of a solution' % name)
    sol = sd.solution(p, f)
    p.set_fixed_attributes('modes_arrity_fix_from_0', sol)
    p.set_fixed_attributes('priority_worker_per_task_perm', sol)
    F.update(modes=f['modes'], pw=f['pw'])
    all_of(F, 'with others of a solution')
    p.set_fixed_priority_worker_per_task_from_permutation(list(flat))
    F['pw'] = pw
    all_of(F, 'with a fixed permutation of units')
    reg = p.get_attribute_register().dict_attribute_to_type
    for key in ('modes_arrity_fix', 'modes_arrity_fix_from_0'):
        eq(list(reg[key]['arrities']), [len(m) for m in c['modes']], 'numbers of modes')
    eq((reg['priority_list_task']['n'], reg['priority_worker_per_task_perm']['n']), (n, n * ne), 'lengths of the encodings')


SUBCHECKS = [
    Sub('decode', decode_cases, check_decode, 2400),
    Sub('edits', edit_cases, check_edits, 1400),
    Sub('encodings', encoding_cases, check_encodings, 1000),
]
