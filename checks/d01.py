"""D01: schedules obtained by executing scheduling domains are feasible (checked from the recorded history alone)."""
from hypothesis import strategies as st

from harness.api import Sub, require, eq, close
from harness.scheddomain import *

RULE = ('Random projects run as environments (reset/step on the default or in-place mode, or successive states of the planning '
        'interface) for one or two episodes with random proposed actions, then scheduled to the end when possible; the '
        'history of states is checked against precedence, durations, capacities and consumption recomputed from the '
        'project. A case counts when at least two tasks were completed by the episode.')
ASSUMPTIONS = ['time windows/lags are not enforced by the transition function (TODO in the code)',
               'a drop of a calendar may leave running tasks above the availability; no further task may then start']


@st.composite
def cases(draw):
    p = draw(projects(level=('det', 'det', 'unc', 'sim'), preempt=draw(st.integers(0, 3)) == 0, conditions=draw(st.integers(0, 2)) == 0))
    return dict(p=p, walk=draw(choices), how=draw(st.sampled_from(['step', 'step', 'inplace', 'sample', 'plan'])),
                episodes=draw(st.integers(1, 2)))


def check_history(p, dom, history, ctx):
    """history: [(signature, running needs?)] of the states, actions in between."""
    ids = p['ids']
    idx = {t: i for i, t in enumerate(ids)}
    pred = {t: [ids[i] for i in range(len(ids)) if idx[t] in p['succ'][i]] for t in ids}
    prev = history[0][1]
    nr = {r: 0 for r, x in zip(p['res'], p['renew']) if not x}
    executed = {}  # task -> time units executed since its last (re)start
    eq(prev['t'], 0, 'initial time')
    for n, (a, s) in enumerate(history[1:], 1):
        kind, t, mode = a
        what = 'after %s at step %d, time %d' % (a, n, prev['t'])
        eq(s['t'], prev['t'] + (kind == 'TIME_PR'), 'time ' + what)
        if kind == 'START':
            require(t in prev['remaining'], 'task %s started twice or not at all, %s', t, what)
            for q in pred[t]:
                require(q in prev['complete'] or q not in prev['conditions'], 'task %s starts before its predecessor %s is complete', t, q)
            executed[t] = 0
            need = p['tasks'][idx[t]][mode - 1]['need']
            for r in p['res']:
                x = need[r][0] if p['vary'] else need[r]
                require(x + prev['used'][r] <= avail(p, r, prev['t']), 'task %s starts with %s of %s used of %s and needs %s',
                        t, prev['used'][r], r, avail(p, r, prev['t']), x)
                if r in nr:
                    nr[r] += x
            eq(s['details'][t][0], prev['t'], 'recorded start %s' % what)
            require(s['details'][t][2] in p['tasks'][idx[t]][mode - 1]['durs'], 'duration of %s is not declared: %s', t, s['details'][t])
        elif kind == 'TIME_PR':
            for q in prev['ongoing']:
                executed[q] += 1
        elif kind == 'RESUME' and p['preempt'][idx[t]][1] == 'Restart':
            executed[t] = 0
        for q in prev['complete']:
            require(q in s['complete'], 'task %s is not complete any more %s', q, what)
        for q in s['complete']:
            if q not in prev['complete']:
                m = s['mode'][q]
                eq(executed[q], s['details'][q][2], 'time executed by task %s when it completes' % q)
                eq(s['details'][q][1], s['t'], 'recorded end of task %s' % q)
                require(executed[q] in p['tasks'][idx[q]][m - 1]['durs'], 'duration %s of task %s in mode %s', executed[q], q, m)
        use = {r: 0 for r in p['res']}
        for q in s['ongoing']:
            require(executed[q] < s['details'][q][2], 'task %s is still running after its duration', q)
            m = p['tasks'][idx[q]][s['mode'][q] - 1]
            for r in p['res']:
                use[r] += m['need'][r][executed[q]] if p['vary'] else m['need'][r]
        for r in p['res']:
            if r not in nr:
                eq(s['used'][r], use[r], 'usage of %s %s' % (r, what))
                if not p['cal'] and not p['vary']:
                    require(use[r] <= p['avail'][r][0], '%s exceeded %s', r, what)
            elif not p.get('preempt'):
                eq(s['used'][r], nr[r], 'total consumption of %s %s' % (r, what))
                require(nr[r] <= max(p['avail'][r]), '%s exceeded %s', r, what)
        every = s['remaining'] + s['ongoing'] + s['paused'] + s['complete']
        eq(len(every), len(set(every)), 'each task has one status ' + what)
        eq(set(every), set(s['conditions']), 'tasks of the project ' + what)
        prev = s


def check(case, ctx):
    p = case['p']
    dom = make_domain(p)
    how = case['how']
    if how == 'inplace':
        dom.set_inplace_environment(True)
    ctx.label('level:' + p['level'], 'how:' + how, 'preempt' if p.get('preempt') else '', 'vary' if p['vary'] else '',
              'cal' if p['cal'] else '', 'nr' if not all(p['renew']) else '', 'cond' if p.get('cond') else '')
    if p['level'] == 'unc' and how == 'inplace':
        how = 'step'  # documented for simulation
        dom.set_inplace_environment(False)
    for _ in range(case['episodes']):
        s = dom.reset()
        history = [(None, signature(p, dom, s))]
        require(not dom.is_goal(s), 'goal reached without executing anything') if p['ids'] else None
        i = 0
        while i < 120:
            space = dom.get_applicable_actions() if how in ('step', 'inplace') else dom.get_applicable_actions(s)
            actions = list(space.get_elements())
            choice = case['walk'][i] if i < len(case['walk']) else ['START', 0]
            if i >= len(case['walk']) and all(akey(a)[0] in ('TIME_PR', 'PAUSE') for a in actions):
                choice = ['TIME_PR', 0]
            k = pick({akey(a) for a in actions}, choice)
            a = find_action(actions, k)
            if how in ('step', 'inplace'):
                o = dom.step(a)
                s, end = o.observation, o.termination
            elif how == 'sample' or p['level'] != 'det':
                o = dom.sample(s, a)
                s, end = o.observation, o.termination
            else:
                s = dom.get_next_state(s, a)
                end = dom.is_terminal(s)
            sig = signature(p, dom, s)
            history.append((k, sig))
            done = set(sig['complete']) == set(sig['conditions'])
            eq(bool(dom.is_goal(s)), done, 'goal test when %s' % sig)
            require(end or not done, 'no termination when all tasks are complete')
            i += 1
            if done:
                break
        check_history(p, dom, history, ctx)
        ctx.label('done' if done else 'not done')
        ctx.nontrivial(len(sig['complete']) > 1)


SUBCHECKS = [Sub('episodes', cases, check, quick=2400, thorough=20000, rule=RULE)]
