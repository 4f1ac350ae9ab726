"""D04: pausing and resuming in scheduling domains, against the reference model."""
from hypothesis import strategies as st

from harness.api import Sub, require, eq, close
from harness.scheddomain import *

RULE = ('Random preemptive projects (tasks which cannot be paused, resume in place or restart, return non-renewable resources '
        'or not; constant or varying needs; calendars whose drops force pauses) walked with many pauses and resumptions; the '
        'whole state is compared with the model after every action. A case counts when a task was resumed after some work was done.')
ASSUMPTIONS = ['a resumed task takes its non-renewable resources again, as a started one does (returned or not when paused)',
               'a task resumes in the mode it was started in']
PRE = st.lists(st.tuples(st.sampled_from(['START', 'START', 'TIME_PR', 'TIME_PR', 'PAUSE', 'PAUSE', 'RESUME', 'RESUME']),
                         st.integers(0, 50)), min_size=16, max_size=45).map(lambda l: [list(x) for x in l])


@st.composite
def cases(draw):
    p = draw(projects(level=('det', 'det', 'unc', 'sim'), preempt=True, max_tasks=4, max_modes=2))
    for modes in p['tasks']:
        for m in modes:
            if not p['vary']:
                m['durs'] = [d + 1 for d in m['durs']]
    return dict(p=p, walk=draw(PRE), inplace=draw(st.booleans()), modeless=draw(st.booleans()))


def choose(options, choice):
    kind, i = choice
    c = sorted((o for o in options if o[0] == kind), key=repr) or sorted((o for o in options if o[0] != 'TIME_PR'), key=repr)
    if kind == 'TIME_PR' or not c:
        return ('TIME_PR', None, None)
    return c[i % len(c)]


def check(case, ctx):
    p = case['p']
    dom = make_domain(p)
    model = Model(p)
    dom.set_inplace_environment(case['inplace'] and p['level'] != 'unc')
    s = dom.reset()
    for step, choice in enumerate(case['walk']):
        want = model.applicable()
        k = choose(want, choice)
        where = 'step %d (%s from %s)' % (step, k, model.signature())
        offered = {akey(a) for a in dom.get_applicable_actions(s).get_elements()}
        require(k in offered, 'action is not offered at %s', where)
        for t in model.having('ongoing'):
            eq(('PAUSE', t, None) in offered, p['preempt'][model.idx[t]][0], 'pausing task %s offered at %s' % (t, where))
        a = build(k)
        if k[0] == 'RESUME' and case['modeless']:
            a = SchedulingAction(task=k[1], action=K.RESUME, mode=None, time_progress=False)
        if k[0] == 'RESUME':
            ctx.nontrivial(model.work[k[1]] > 0)
            ctx.label('resumed')
        outcomes = model.apply(k)
        out = dom.step(a)
        s = out.observation
        if model.p['level'] == 'det' or k[0] != 'START':
            model = outcomes[0][0]
        else:
            sig = key(signature(p, dom, s))
            found = [m for m, _ in outcomes if key(m.signature()) == sig]
            require(found, 'outcome at %s is not possible: %s', where, signature(p, dom, s))
            model = found[0]
        eq(diff(signature(p, dom, s), model.signature()), {}, 'state after %s (got, expected)' % where)
        eq((bool(dom.is_goal(s)), bool(out.termination)), (model.finished(), model.terminal()), 'goal test and termination after ' + where)
        for t in model.having('ongoing'):
            held = s.resource_used_for_task[t]
            want_held = model.need(t, model.mode[t], model.work[t])
            eq({r: held[r] for r in p['res'] if r not in model.nr}, {r: want_held[r] for r in p['res'] if r not in model.nr},
               'resources recorded for task %s after %s' % (t, where))
        for t in p['ids']:
            d = s.tasks_details[t]
            if t in model.start:
                active = d.get_task_active_time(s.t)
                if model.status[t] != 'remaining':
                    eq(active, model.work[t], 'active time of task %s after %s' % (t, where))
        if model.finished():
            ctx.label('finished')
            break
    ctx.label('level:' + p['level'], 'inplace' if case['inplace'] else '', 'vary' if p['vary'] else '', 'cal' if p['cal'] else '',
              'nr' if not all(p['renew']) else '')


SUBCHECKS = [Sub('preemption', cases, check, quick=1800, thorough=15000, rule=RULE)]
