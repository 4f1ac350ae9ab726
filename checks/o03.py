"""O03: rescheduling the rest of a project from a given time."""
from types import SimpleNamespace
from hypothesis import strategies as st
from harness import rcpspdomain as rd
from harness.api import Sub, require, eq
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution

RULE = 'Projects as in O01, a schedule of them with possibly other durations for what is complete, interrupted at any time; non-trivial: at least one complete, one running and one remaining task.'
ASSUMPTIONS = ['a task whose predecessors are complete may be given as running', 'running tasks last as long as their mode says']


@st.composite
def cases(draw):
    c = draw(rd.instances(over=False, min_n=2, max_n=6, loose=draw(st.integers(0, 3)) > 0))
    base = draw(rd.vectors(c, False))
    ref = rd.sgs(c, base['perm'], base['modes'])
    end = max([x[1] for x in ref.values()], default=0) if ref else 0
    inner = sorted({(s + e + 1) // 2 for s, e in (ref or {}).values() if e - s > 1}) or [0]
    return dict(c=c, base=base, t=draw(st.one_of(st.integers(0, end), st.sampled_from(inner))),
                perm=list(draw(st.permutations(range(c['n'])))), modes=[draw(st.integers(1, len(m))) for m in c['modes']],
                drift=[draw(st.integers(0, 2)) for _ in range(c['n'])], eager=draw(st.booleans()), src=draw(st.booleans()))


def check(k, ctx):
    c, t = k['c'], k['t']
    first = rd.sgs(c, k['base']['perm'], k['base']['modes'])
    if first is None:
        ctx.label('infeasible start')
        return
    p = rd.build(c)
    done = {i: (s, e) for i, (s, e) in first.items() if e <= t and not (s == t and not k['eager'])}
    running = {i: s for i, (s, e) in first.items() if s <= t and i not in done and (s < t or (k['eager'] and e > s))}
    modes = [k['base']['modes'][i] if i in done or i in running else k['modes'][i] for i in range(c['n'])]
    # complete tasks may have lasted otherwise than planned (their times only matter to them)
    told = {i: (max(0, s - k['drift'][i]), e) for i, (s, e) in done.items()}
    ref = rd.sgs(c, k['perm'], modes, t, told, running)
    sol = RCPSPSolution(problem=p, rcpsp_permutation=list(k['perm']), rcpsp_modes=list(modes))
    complete = {i + 2: SimpleNamespace(start=s, end=e) for i, (s, e) in told.items()}
    if k['src'] or done or running or t == 0:
        complete[1] = SimpleNamespace(start=0, end=0)
    sol.generate_schedule_from_permutation_serial_sgs_2(current_t=t, completed_tasks=complete, scheduled_tasks_start_times={i + 2: s for i, s in running.items()})
    rest = [i for i in range(c['n']) if i not in done and i not in running]
    ctx.label('complete%d' % min(2, len(done)), 'running%d' % min(2, len(running)))
    if ref is None:
        require(sol.rcpsp_schedule_feasible is False, 'no feasible continuation, but reported feasible')
        ctx.label('infeasible')
        return
    ctx.nontrivial(bool(done) and bool(running) and bool(rest))
    require(bool(sol.rcpsp_schedule_feasible), 'feasible continuation reported infeasible')
    got = rd.plain_schedule(c, sol)
    eq({i: got.get(i) for i in done}, told, 'complete tasks')
    eq({i: got[i][0] for i in running}, running, 'start of running tasks')
    for i in rest:
        require(got[i][0] >= t, 'task %d starts at %d before %d', i, got[i][0], t)
    pr = rd.preds_of(c)
    for i in range(c['n']):
        if i not in done:
            eq(got[i][1] - got[i][0], rd.mode(c, i, modes)['d'], 'duration of task %d' % i)
            require(all(got[j][1] <= got[i][0] for j in pr[i]), 'task %d starts before its predecessors end', i)
    for name in rd.ren(c):
        for u in range(t, max([x[1] for x in got.values()], default=0)):
            used = sum(rd.mode(c, i, modes)['r'][name] for i, (s, e) in got.items() if s <= u < e and i not in done)
            require(used <= rd.cap(c, name, u), 'resource %s is overused at %d', name, u)
    eq(got, ref, 'schedule')
    end = max([x[1] for i, x in ref.items() if i not in done] + [t] + [x[1] for x in told.values()])
    eq(sol.rcpsp_schedule[c['n'] + 2]['end_time'], end, 'end of the project')
    eq(p.evaluate(sol)['makespan'], end, 'makespan')
    if all(told[i] == first[i] for i in done):
        require(p.satisfy(sol), 'the schedule does not satisfy the problem')


SUBCHECKS = [Sub('reschedule', cases, check, 5000)]
