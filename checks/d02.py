"""D02: actions offered in the states of scheduling domains, against the reference model."""
from hypothesis import strategies as st

from harness.api import Sub, require, eq
from harness.scheddomain import *

RULE = ('Random projects (modes, precedence, calendars, non-renewable resources, varying consumption, preemption, conditional '
        'tasks, zero durations) walked by random action sequences; in every state of the walk the enumerated actions, the '
        'membership of every candidate action, the goal and the terminal tests are compared with the model. A case counts when '
        'the walk met a state in which some task was held back by resources or precedence while another was offered.')
ASSUMPTIONS = ['candidate actions are built from declared tasks and modes', 'time windows, lags and pre-allocations are '
               'declared by the builders but not enforced by the transition function (TODO in the code), and not generated']


@st.composite
def cases(draw):
    p = draw(projects(level=('det', 'det', 'unc'), preempt=draw(st.booleans()), conditions=draw(st.booleans())))
    return dict(p=p, walk=draw(choices))


def check(case, ctx):
    p = case['p']
    dom = make_domain(p)
    model = Model(p)
    s = dom.get_initial_state()
    eq(signature(p, dom, s), model.signature(), 'initial state')
    ctx.label('level:' + p['level'], 'preempt' if p.get('preempt') else '', 'cond' if p.get('cond') else '',
              'cal' if p['cal'] else '', 'vary' if p['vary'] else '', 'nr' if not all(p['renew']) else '')
    for step, choice in enumerate(case['walk']):
        want = model.applicable()
        space = dom.get_applicable_actions(s)
        actions = list(space.get_elements())
        got = [akey(a) for a in actions]
        where = 'step %d, state %s' % (step, model.signature())
        eq(sorted(got, key=repr), sorted(want, key=repr), 'actions offered at ' + where)
        for a in actions:
            eq(bool(a.time_progress), a.action == K.TIME_PR, 'time progress of %s' % (akey(a),))
        for t in p['ids']:
            for m in range(0, len(p['tasks'][model.idx[t]]) + 2):  # with modes which do not exist
                for kind in ('START', 'RESUME'):
                    k = (kind, t, m)
                    eq(bool(space.contains(build(k))), k in want, 'membership of %s at %s' % (k, where))
                    eq(bool(dom.is_applicable_action(build(k), s)), k in want, 'applicability of %s at %s' % (k, where))
            for m in (None, 1):
                k = ('PAUSE', t, m)
                eq(bool(space.contains(build(k))), k in want, 'membership of %s at %s' % (k, where))
        require(space.contains(build(('TIME_PR', None, None))), 'time cannot progress at %s', where)
        require(akey(space.sample()) in want, 'sampled action is not applicable at %s', where)
        eq(bool(dom.is_goal(s)), model.finished(), 'goal test at ' + where)
        eq(bool(dom.is_terminal(s)), model.terminal(), 'terminal test at ' + where)
        starts = sum(1 for k in want if k[0] == 'START')
        blocked = sum(len(p['tasks'][model.idx[t]]) for t in model.having('remaining')) - starts
        ctx.nontrivial(starts and blocked)
        if model.finished() or model.t > 60:
            break
        k = pick(want, choice)
        a = find_action(actions, k)
        outcomes = model.apply(k)
        if p['level'] == 'det':
            s = dom.get_next_state(s, a)
            model = outcomes[0][0]
        else:
            values = dom.get_next_state_distribution(s, a).get_values()
            s = values[choice[1] % len(values)][0]
            sig = key(signature(p, dom, s))
            matching = [m for m, _ in outcomes if key(m.signature()) == sig]
            require(matching, 'outcome of %s at %s is none of the declared ones: %s', k, where, signature(p, dom, s))
            # outcomes which differ only by conditions no task needs behave alike
            model = matching[0]
    ctx.label('finished' if model.finished() else '')


SUBCHECKS = [Sub('actions', cases, check, quick=1500, thorough=12000, rule=RULE)]
