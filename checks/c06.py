"""C06: rollouts against the episode that really took place (reference model of the domain, recording policy)."""
import glob
import json
import logging
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from skdecide import Solver, Domain, Memory, autocast_all
from skdecide.builders.domain import *
from skdecide.builders.solver import Policies, DeterministicPolicies
from skdecide.utils import rollout, rollout_episode
from harness.api import Sub, require, eq
from harness.tabledomain import Model, make_domain, specs, raw_action, raw_memory, mem, CHAINS
from checks.c02 import characteristics, outcome_states

RULE = ('Table-defined domains, scripted policies, all starts (reset, memory, memory and last action), step limits, '
        'formatters, saving and rendering; the recorded exchange is checked against the reference model.')
ASSUMPTIONS = ['runs without a step limit are only generated when the policy certainly terminates',
               'results are saved only for single-agent sequential domains (the saved format needs scalar actions and costs)',
               'the result of rollout_episode holds one of the episodes requested (the repository returns the last one)']


@st.composite
def cases(draw, which='rollout'):
    ch = draw(characteristics(memory=st.sampled_from(['History', 'FiniteHistory', 'Markovian'])))
    spec = draw(specs(ch=ch, max_n=5))
    M = Model(spec)
    sim = ch['dyn'] != 'Environment'
    frm = draw(raw_memory(spec, M)) if sim and draw(st.booleans()) else None
    return dict(spec=spec, frm=frm, fact=draw(st.one_of(st.none(), raw_action(spec, M))) if frm is not None else None,
                plan=draw(st.lists(raw_action(spec, M), min_size=1, max_size=4)), which=which,
                episodes=draw(st.integers(1, 3)),
                max_steps=draw(st.one_of(st.integers(1, 8), st.integers(0, 8))), save=which == 'rollout' and not M.multi and not M.par and draw(st.booleans()),
                af=draw(st.booleans()), of=draw(st.booleans()), verbose=draw(st.booleans()), render=draw(st.booleans()),
                random=draw(st.integers(0, 4)) == 0, nolimit=draw(st.booleans()))


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, record):
        self.msgs.append(record.getMessage())


def obs_key(M, o):
    return sum((i + 2) * v for i, v in enumerate(o[k] for k in M.agents)) if M.multi else o


def check(case, ctx):
    spec = case['spec']
    M = Model(spec)
    cls = make_domain(spec)
    events = []  # ('reset',) ('obs', o, a) ('act', a) ('out', outcome) ('render', memory) ('step', a, out)

    class Recorded(cls):
        def _reset(self):
            o = super()._reset()
            events.append(('domreset', o, self._memory if not M.hist else list(self._memory)))
            return o

        def _step(self, action):
            out = super()._step(action)
            events.append(('step', action, out))
            return out

        def _render_from(self, memory, **kw):
            events.append(('render', list(memory) if M.hist else memory))
            return None

    class Pol(Policies):
        T_domain = cls
        t = 0

        def reset(self):
            events.append(('episode',))
            self.t = 0

        def sample_action(self, observation):
            a = case['plan'][(obs_key(M, observation) + self.t) % len(case['plan'])]
            self.t += 1
            events.append(('ask', observation, a))
            return a

        def is_policy_defined_for(self, observation):
            return True
    dom = Recorded()
    nolimit = case['nolimit'] and all(M.terminal(s) for r in spec['trans'] for c in r for s, _ in c)
    steps = None if nolimit else case['max_steps']
    tmp = tempfile.mkdtemp(prefix='verif_roll_') if case['save'] else None
    lg = logging.getLogger('skdecide.utils')
    cap = Capture()
    lg.addHandler(cap)
    level = lg.level
    random_pol = case['random']
    try:
        kw = dict(from_memory=mem(M, case['frm']) if case['frm'] is not None else None, from_action=case['fact'],
                  num_episodes=case['episodes'], max_steps=steps, render=case['render'], verbose=case['verbose'],
                  action_formatter=(lambda a: events.append(('act', a)) or 'A') if case['af'] else None,
                  outcome_formatter=(lambda o: events.append(('out', o)) or 'O') if case['of'] else None)
        if case['save']:
            kw['save_result_directory'] = os.path.join(tmp, 'out')
        pol = None if random_pol else Pol()
        res = (rollout if case['which'] == 'rollout' else rollout_episode)(dom, pol, **kw)
        saved = {}
        if case['save']:
            for d in sorted(glob.glob(os.path.join(tmp, 'out', '*'))):
                saved[d] = {n: json.load(open(os.path.join(d, n + '.json'))) if os.path.exists(os.path.join(d, n + '.json')) else None
                            for n in ('actions', 'transitions', 'observations')}
            require(isinstance(res, str) and os.path.isdir(res), 'rollout returned %r as the saved directory', res)
    finally:
        lg.removeHandler(cap)
        lg.setLevel(level)
        if tmp:
            shutil.rmtree(tmp)
    verify(case, ctx, M, events, steps, res, saved, cap.msgs)


def verify(case, ctx, M, events, limit, res, saved, msgs):
    spec = case['spec']
    # split into episodes at every (re)start: the policy reset for scripted policies, else at domain resets
    if not case['random']:
        starts = [i for i, e in enumerate(events) if e[0] == 'episode']
        eq(len(starts), case['episodes'], 'episodes announced to the policy')
    elif case['frm'] is None:
        starts = [i for i, e in enumerate(events) if e[0] == 'domreset']
        eq(len(starts), case['episodes'], 'episodes started by a reset')
    elif case['episodes'] == 1:
        starts = [0]
    else:
        return
    ctx.nontrivial(limit is None or limit >= 2)
    total = []
    for j, i in enumerate(starts):
        ev = events[i:starts[j + 1] if j + 1 < len(starts) else len(events)]
        if case['frm'] is None:
            resets = [e for e in ev if e[0] == 'domreset']
            eq(len(resets), 1, 'domain resets in the episode')
            obs = resets[0][1]
            beliefs = [mem(M, resets[0][2])]
        else:
            require(not any(e[0] == 'domreset' for e in ev), 'domain reset although a starting memory was given')
            beliefs = [mem(M, case['frm'])]
            obs = None
            last = case['frm'][-1] if M.hist else case['frm']
            initial = [o for o, _ in M.obs(last, case['fact'])]
        asks = [e for e in ev if e[0] == 'ask']
        stepsv = [e for e in ev if e[0] == 'step']
        acts = [e[1] for e in ev if e[0] == 'act']
        outs = [e[1] for e in ev if e[0] == 'out']
        if not case['random']:
            eq(len(asks), len(stepsv), 'actions asked and steps done')
        if case['af']:
            eq(acts, [e[1] for e in stepsv], 'actions passed to the formatter')
        if case['of']:
            require(len(outs) == len(stepsv) and all(a is b[2] or a == b[2] for a, b in zip(outs, stepsv)),
                    'outcomes passed to the formatter differ from the steps done')
        seq_obs = []
        for t, e in enumerate(stepsv):
            a, out = e[1], e[2]
            if not case['random']:
                eq(a, asks[t][2], 'action applied at step %d (the policy chose it)' % t)
                o_in = asks[t][1]
                if obs is None:
                    require(any(o_in == x for x in initial), 'first observation %r, expected one of %r', o_in, initial)
                else:
                    eq(o_in, obs, 'observation given to the policy at step %d' % t)
                if not seq_obs:
                    seq_obs.append(o_in)
            else:
                for b in beliefs[:1]:
                    app = M.applicable(b)
                    for k in M.agents:
                        x = a[k] if M.multi else a
                        ok = (isinstance(x, list) and len(x) == 1 and x[0] in (app[k] if M.multi else app)) if M.par \
                            else x in (app[k] if M.multi else app)
                        require(ok or len(beliefs) > 1, 'random action %r is not applicable (%r) in %r', a, app, b)
                if not seq_obs:
                    seq_obs.append(initial[0] if obs is None and len(initial) == 1 else obs)
            nxt = []
            for b in beliefs:
                for s in outcome_states(M, b, a, out):
                    m = M.next_memory(b, s)
                    if m not in nxt:
                        nxt.append(m)
            require(nxt, 'step %d: outcome %r of %r does not follow from the dynamics at %r', t, out, a, beliefs)
            beliefs = nxt
            obs = out.observation
            seq_obs.append(obs)
            if t < len(stepsv) - 1:
                require(not out.termination, 'the episode continued after termination at step %d', t)
        n = len(stepsv)
        if limit is not None:
            require(n <= limit, '%d steps, limit %d', n, limit)
            require(n == limit or (n and stepsv[-1][2].termination), 'stopped after %d steps of %d without termination', n, limit)
        else:
            require(n and stepsv[-1][2].termination, 'stopped without termination')
        renders = [e for e in ev if e[0] == 'render']
        if not case['render']:
            eq(len(renders), 0, 'renders although rendering is off')
        else:
            require(len(renders) >= max(n, 1), '%d renders for %d steps', len(renders), n)
        total.append((seq_obs, stepsv, obs))
    goal_msgs = [m for m in msgs if 'goal was' in m]
    if case['which'] == 'episode' and not case['verbose']:
        eq(goal_msgs, [], 'goal reports although not verbose')
    if goal_msgs:
        eq(len(goal_msgs), case['episodes'], 'goal reports')
        for g, (_, sv, obs) in zip(goal_msgs, total):
            if sv:
                want = all(o in M.goals1(i) for i, o in enumerate([obs[k] for k in M.agents] if M.multi else [obs]))
                eq('not reached' not in g, want, 'report of the goal (last observation %r): %s' % (obs, g))
    ends = [[int(x) for x in re.findall('\\d+', m)] for m in msgs if 'terminated after' in m]
    if ends and (case['which'] == 'rollout' or case['verbose']):
        eq(ends, [[j + 1, len(sv)] for j, (_, sv, _) in enumerate(total) if sv and sv[-1][2].termination], 'ends reported (episode, steps)')
        ctx.label('end reported')
    if case['which'] == 'episode':
        require(isinstance(res, tuple) and len(res) == 3, 'rollout_episode returned %r', res)
        observations, actions, values = res
        hits = [(so, sv) for so, sv, _ in total if list(actions) == [e[1] for e in sv] and list(values) == [e[2].value for e in sv]
                and list(observations)[1:] == [e[2].observation for e in sv] and len(observations) == len(sv) + 1
                and (not sv or case['random'] or observations[0] == so[0])]
        require(hits, 'returned %r, %r, %r: no episode that took place (%r)', observations, actions, values, [[e[1:] for e in sv] for _, sv, _ in total])
    if case['save']:
        eq(len(saved), case['episodes'], 'saved episodes')
        require(res in saved, 'returned directory %r is not one of the saved ones', res)
        if M.ch['obs'] == 'FullyObservable' and not M.multi:
            left = [dict(actions={str(t + 1): e[1] for t, e in enumerate(sv)},
                         observations={str(t): o for t, o in enumerate(so)}, cost=[e[2].value.cost for e in sv], so=so)
                    for so, sv, _ in total]
            for d in saved.values():
                costs = [d['transitions'][k]['cost'] for k in sorted(d['transitions'] or {}, key=int)] if d['transitions'] is not None else None
                hit = [x for x in left if (not x['so'] or x['so'][0] is None or d['observations'] == x['observations']) and
                       (d['actions'] == x['actions']) and (costs is None or costs == x['cost'])]
                require(hit, 'saved episode %r is not an episode that took place (%r)', d, left)
                left.remove(hit[0])
                for k, tr in (d['transitions'] or {}).items():
                    t = int(k)
                    if hit[0]['so'] and hit[0]['so'][0] is not None:
                        eq((tr['s'], tr["s'"]), (hash(hit[0]['so'][t - 1]), hash(hit[0]['so'][t])), 'saved transition %s' % k)
            ctx.label('saved')
    ctx.label('random' if case['random'] else 'scripted', 'from_memory' if case['frm'] is not None else 'reset',
              'terminated' if any(sv and sv[-1][2].termination for _, sv, _ in total) else 'limit')


SUBCHECKS = [
    Sub('rollout', lambda: cases('rollout'), check, quick=2700, thorough=9000, rule='non-trivial: at least two steps allowed'),
    Sub('rollout_episode', lambda: cases('episode'), check, quick=1800, thorough=6000, rule='non-trivial: at least two steps allowed'),
]
