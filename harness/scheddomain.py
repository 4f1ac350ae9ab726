"""Generated scheduling projects (plain data), the domains they define, and a reference model of their execution."""
import copy
from itertools import product

from hypothesis import strategies as st

from skdecide import DiscreteDistribution
from skdecide.builders.scheduling.scheduling_domains import *
from skdecide.builders.scheduling import scheduling_domains as SDM
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as K, SchedulingAction, State
from skdecide.builders.scheduling.modes import SingleMode, MultiMode, ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity, ResumeType
from skdecide.builders.scheduling.resource_type import WithoutResourceUnit
from skdecide.builders.scheduling.resource_consumption import ConstantResourceConsumption, VariableResourceConsumption
from skdecide.builders.scheduling.resource_renewability import RenewableOnly, MixedRenewable
from skdecide.builders.scheduling.task_duration import (DeterministicTaskDuration, UncertainUnivariateTaskDuration,
                                                        EnumerableTaskDuration, SimulatedTaskDuration, UniformBoundedTaskDuration)
from skdecide.builders.scheduling.task_progress import DeterministicTaskProgress
from skdecide.builders.scheduling.skills import WithoutResourceSkills
from skdecide.builders.scheduling.time_lag import WithoutTimeLag
from skdecide.builders.scheduling.time_windows import WithoutTimeWindow
from skdecide.builders.scheduling.preallocations import WithoutPreallocations
from skdecide.builders.scheduling.conditional_tasks import WithConditionalTasks, WithoutConditionalTasks
from skdecide.builders.scheduling.resource_availability import (DeterministicResourceAvailabilityChanges,
                                                                WithoutResourceAvailabilityChange)
from skdecide.builders.scheduling.resource_costs import WithModeCosts, WithResourceCosts, WithoutModeCosts, WithoutResourceCosts

KINDS = {k.name: k for k in K}


# ---------------------------------------------------------------- generation
@st.composite
def projects(draw, level=('det',), preempt=False, conditions=False, calendars=True, varying=True, nonrenewable=True,
             costs=False, max_tasks=6, max_modes=3, tight=True, skills=False):
    """A project as plain JSON data (keys are strings in JSON: tasks are kept as lists)."""
    lvl = draw(st.sampled_from(level))
    n = draw(st.integers(1, max_tasks))
    base, step = draw(st.sampled_from([(0, 1), (1, 1), (1, 1), (10, 3)]))
    ids = [base + step * i for i in range(n)]
    single = draw(st.integers(0, 2)) == 0
    n_res = draw(st.integers(1, 3))
    vary = varying and draw(st.integers(0, 3)) == 0
    cal = calendars and draw(st.integers(0, 2)) == 0
    has_nr = nonrenewable and not vary and n_res > 1 and draw(st.booleans())
    res = ['r%d' % i for i in range(n_res)]
    renew = [not (has_nr and i == n_res - 1) for i in range(n_res)]
    tasks = []
    long = [6, 7, 10, 11, 13, 14] if draw(st.integers(0, 4)) == 0 else []
    random_dur = lvl != 'det' and draw(st.integers(0, 3)) > 0
    for i, t in enumerate(ids):
        k = 1 if single else draw(st.integers(1, max_modes))
        modes = []
        for m in range(1, k + 1):
            if random_dur and not vary:
                durs = draw(st.lists(st.sampled_from([0, 1, 2, 3, 4] + long), min_size=1, max_size=3, unique=True))
            else:
                durs = [draw(st.sampled_from([0, 1, 2, 3, 4, 5] + long))]
            need = {}
            for r in res:
                x = draw(st.integers(0, 3))
                need[r] = [max(0, x + draw(st.integers(-1, 1))) for _ in range(max(durs) + 1)] if vary else x
            probs = {1: [1.0], 2: draw(st.sampled_from([[0.5, 0.5], [0.25, 0.75]])), 3: [0.25, 0.25, 0.5]}[len(durs)]
            modes.append(dict(durs=durs, probs=probs, need=need))
        tasks.append(modes)
    succ = [sorted(set(draw(st.lists(st.integers(i + 1, n - 1), max_size=2)))) if i + 1 < n else [] for i in range(n)]
    avail = {}
    for j, r in enumerate(res):
        peak = max(max(m['need'][r]) if vary else m['need'][r] for modes in tasks for m in modes)
        total = sum(min(m['need'][r] if not vary else 0 for m in modes) for modes in tasks)
        if not renew[j]:
            avail[r] = [max(0, total + draw(st.integers(-1, 4)))]
        else:
            q = peak + draw(st.sampled_from([0, 0, 1, 2, 4]))
            avail[r] = [q]
            if cal:
                avail[r] = [max(0, q - draw(st.sampled_from([0, 0, 1, 2]))) for _ in range(draw(st.integers(1, 6)))] + [q]
    p = dict(level=lvl, ids=ids, single=single, res=res, renew=renew, vary=vary, cal=cal, tasks=tasks, succ=succ, avail=avail,
             horizon=draw(st.sampled_from([200, 200, 200, 200, 4])), hub=draw(st.booleans()), objectives=['MAKESPAN'])
    if preempt:
        p['preempt'] = [[draw(st.integers(0, 3)) > 0, draw(st.sampled_from(['Resume', 'Resume', 'Restart'])), draw(st.booleans())]
                        for _ in ids]
    if conditions and lvl != 'det':
        items = list(range(draw(st.integers(1, 3))))
        added = []
        for i in range(n):
            tests = draw(st.lists(st.lists(st.sampled_from(items), min_size=1, max_size=2, unique=True), max_size=2))
            added.append([[[c, 1.0 / len(x)] for c in x] if len(x) > 1 else [[x[0], 1.0]] for x in tests]
                         if draw(st.booleans()) else [])
        need = [sorted(set(draw(st.lists(st.sampled_from(items), max_size=2)))) if i and draw(st.booleans()) else []
                for i in range(n)]
        p['cond'] = dict(items=items, added=added, need=need)
    if costs:
        p['objectives'] = draw(st.sampled_from([['MAKESPAN'], ['COST'], ['MAKESPAN', 'COST']]))
        p['mode_cost'] = [[draw(st.integers(0, 5)) for _ in modes] for modes in tasks]
        p['rate'] = {r: draw(st.integers(0, 3)) for r in res}
    return p


# ---------------------------------------------------------------- domain
def domain_class(p):
    """The most specific class of the library for the project if there is one, else a composition of its builders."""
    det, unc = p['level'] == 'det', p['level'] == 'unc'
    bases = [DeterministicSchedulingDomain if det else UncertainSchedulingDomain if unc else SchedulingDomain]
    single = p['single']
    plain = not p.get('preempt') and not p.get('cond') and not p['vary']
    ren_only = all(p['renew'])
    std = None
    if plain and det and 'rate' not in p:
        std = {(True, False): SDM.SingleModeRCPSP, (True, True): SDM.SingleModeRCPSPCalendar,
               (False, False): SDM.MultiModeRCPSP, (False, True): SDM.MultiModeRCPSPCalendar}[(single and ren_only, p['cal'])]
    elif plain and det and not p['cal']:
        std = SDM.MultiModeRCPSPWithCost
    elif plain and unc and 'rate' not in p:
        if p['cal']:
            std = SDM.MultiModeRCPSPCalendar_Stochastic_Durations
        elif ren_only:
            std = SDM.SingleModeRCPSP_Stochastic_Durations if single else None
    if std is not None:
        return std
    # (the general level of a characteristic is inherited)
    bases += [SingleMode] * single
    bases += [DeterministicTaskDuration] * det + [UncertainUnivariateTaskDuration] * unc
    bases += [DeterministicTaskProgress, WithoutResourceUnit, WithoutPreallocations, WithoutTimeLag, WithoutTimeWindow,
              WithoutResourceSkills,
              DeterministicResourceAvailabilityChanges if p['cal'] else WithoutResourceAvailabilityChange]
    bases += [WithoutConditionalTasks] * (not p.get('cond')) + [RenewableOnly] * ren_only
    bases += [ConstantResourceConsumption] * (not p['vary']) + [WithoutPreemptivity] * (not p.get('preempt'))
    bases += [WithoutModeCosts, WithoutResourceCosts] * ('rate' not in p)
    return type('Project', tuple(bases), {})


def hub_domain(p):
    """The project as one of the ready-made RCPSP domains."""
    from skdecide.hub.domain.rcpsp import rcpsp_sk as H
    ids = p['ids']
    det = p['level'] == 'det'
    modes = {t: {m + 1: dict(x['need'], duration=x['durs'][0]) for m, x in enumerate(p['tasks'][i])} for i, t in enumerate(ids)}
    kw = dict(resource_names=list(p['res']), task_ids=list(ids), max_horizon=p['horizon'],
              successors={t: [ids[j] for j in p['succ'][i]] for i, t in enumerate(ids)},
              resource_availability={r: [avail(p, r, t) for t in range(p["horizon"] + 600)] if p['cal'] else p['avail'][r][0]
                                     for r in p['res']},
              resource_renewable=dict(zip(p['res'], p['renew'])))
    if det:
        c = {(True, False): H.RCPSP, (True, True): H.RCPSPCalendar, (False, False): H.MRCPSP,
             (False, True): H.MRCPSPCalendar}[p['single'], p['cal']]
        return c(tasks_mode=modes, **kw)
    kw['duration_distribution'] = {t: {m + 1: DiscreteDistribution(list(zip(x['durs'], x['probs'])))
                                       for m, x in enumerate(p['tasks'][i])} for i, t in enumerate(ids)}
    if p['cal']:
        return H.SMRCPSPCalendar(tasks_mode=modes, **kw)
    return H.Stochastic_RCPSP(tasks_mode={t: {m + 1: ConstantModeConsumption(dict(x['need'])) for m, x in enumerate(p['tasks'][i])}
                                          for i, t in enumerate(ids)}, **kw)


def make_domain(p):
    if p.get('hub') and p['level'] in ('det', 'unc') and p['objectives'] == ['MAKESPAN'] and not p['vary'] \
            and not p.get('preempt') and not p.get('cond'):
        return hub_domain(p)
    base = domain_class(p)
    idx = {t: i for i, t in enumerate(p['ids'])}
    consumption = VaryingModeConsumption if p['vary'] else ConstantModeConsumption

    class Generated(base):
        def __init__(self):
            self.initialize_domain()

        def _get_objectives(self):
            return [SchedulingObjectiveEnum[o] for o in p['objectives']]

        def _get_max_horizon(self):
            return p['horizon']

        def _get_successors(self):
            return {t: [p['ids'][j] for j in p['succ'][i]] for i, t in enumerate(p['ids'])}

        def _get_tasks_ids(self):
            return set(p['ids'])

        def _get_resource_types_names(self):
            return list(p['res'])

        def _get_original_quantity_resource(self, resource, **kwargs):
            return p['avail'][resource][0]

        if issubclass(base, SingleMode):
            def _get_tasks_mode(self):
                return {t: consumption(copy.deepcopy(p['tasks'][i][0]['need'])) for i, t in enumerate(p['ids'])}
        else:
            def _get_tasks_modes(self):
                return {t: {m + 1: consumption(copy.deepcopy(x['need'])) for m, x in enumerate(p['tasks'][i])}
                        for i, t in enumerate(p['ids'])}

        if p['cal']:
            def _get_quantity_resource(self, resource, time, **kwargs):
                return avail(p, resource, time)

        if not issubclass(base, RenewableOnly):
            def _get_resource_renewability(self):
                return dict(zip(p['res'], p['renew']))

        if p['level'] == 'det':
            def _get_task_duration(self, task, mode=1, progress_from=0.):
                return p['tasks'][idx[task]][mode - 1]['durs'][0]
        elif p['level'] == 'unc':
            def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
                x = p['tasks'][idx[task]][mode - 1]
                return DiscreteDistribution(list(zip(x['durs'], x['probs'])))
        else:
            def _sample_task_duration(self, task, mode=1, progress_from=0.):
                x = p['tasks'][idx[task]][mode - 1]
                return DiscreteDistribution(list(zip(x['durs'], x['probs']))).sample()

        if p.get('preempt'):
            def _get_task_preemptivity(self):
                return {t: p['preempt'][i][0] for i, t in enumerate(p['ids'])}

            def _get_task_resuming_type(self):
                return {t: ResumeType[p['preempt'][i][1]] if p['preempt'][i][0] else ResumeType.NA for i, t in enumerate(p['ids'])}

            def _get_task_paused_non_renewable_resource_returned(self):
                return {t: p['preempt'][i][2] for i, t in enumerate(p['ids'])}

        if p.get('cond'):
            def _get_all_condition_items(self):
                return list(p['cond']['items'])

            def _get_task_on_completion_added_conditions(self):
                return {t: [DiscreteDistribution([tuple(c) for c in x]) for x in p['cond']['added'][i]]
                        for i, t in enumerate(p['ids']) if p['cond']['added'][i]}

            def _get_task_existence_conditions(self):
                return {t: list(p['cond']['need'][i]) for i, t in enumerate(p['ids']) if p['cond']['need'][i]}

        if 'rate' in p:
            def _get_mode_costs(self):
                return {t: {m + 1: float(c) for m, c in enumerate(p['mode_cost'][i])} for i, t in enumerate(p['ids'])}

            def _get_resource_cost_per_time_unit(self):
                return {r: float(x) for r, x in p['rate'].items()}
    return Generated()


def avail(p, r, t):
    a = p['avail'][r]
    return a[min(t, len(a) - 1)] if p['cal'] else a[0]


# ---------------------------------------------------------------- reference model
class Model:
    """Execution of a project by hand: what the documentation of the scheduling builders says."""

    def __init__(self, p):
        self.p = p
        self.idx = {t: i for i, t in enumerate(p['ids'])}
        self.pred = {t: [] for t in p['ids']}
        for i, js in enumerate(p['succ']):
            for j in js:
                self.pred[p['ids'][j]].append(p['ids'][i])
        self.t = 0
        self.cond = frozenset()
        self.status = {}  # absent: not (yet) part of the project
        self.mode, self.work, self.dur, self.start, self.end, self.paused, self.resumed = {}, {}, {}, {}, {}, {}, {}
        self.nr = {r: 0 for r, x in zip(p['res'], p['renew']) if not x}
        self.held = {}  # non-renewable amounts held by a running task (returned or not when paused)
        for t in p['ids']:
            self.paused[t], self.resumed[t] = [], []
        for t in self.available():
            self.status[t] = 'remaining'

    def clone(self):
        m = copy.copy(self)
        for k in ('status', 'mode', 'work', 'dur', 'start', 'end', 'nr', 'held'):
            setattr(m, k, dict(getattr(self, k)))
        m.paused = {k: list(v) for k, v in self.paused.items()}
        m.resumed = {k: list(v) for k, v in self.resumed.items()}
        return m

    def available(self):
        c = self.p.get('cond')
        return {t for i, t in enumerate(self.p['ids']) if not c or set(c['need'][i]) <= self.cond}

    def having(self, s):
        return sorted(t for t, x in self.status.items() if x == s)

    def need(self, t, mode, at):
        x = self.p['tasks'][self.idx[t]][mode - 1]['need']
        return {r: (v[at] if self.p['vary'] else v) for r, v in x.items()}

    def used(self):
        u = {r: self.nr.get(r, 0) for r in self.p['res']}
        for t in self.having('ongoing'):
            for r, v in self.need(t, self.mode[t], self.work[t]).items():
                if r not in self.nr:
                    u[r] += v
        return u

    def avail(self):
        return {r: avail(self.p, r, self.t) for r in self.p['res']}

    def overconsuming(self):
        u, a = self.used(), self.avail()
        return any(u[r] > a[r] for r in u)

    def fits(self, need):
        u, a = self.used(), self.avail()
        return all(u[r] + v <= a[r] for r, v in need.items())

    def resume_work(self, t):
        return 0 if self.p['preempt'][self.idx[t]][1] == 'Restart' else self.work[t]

    def applicable(self):
        """Set of (kind, task, mode)."""
        out = {('TIME_PR', None, None)}
        pre = self.p.get('preempt')
        for t in self.having('ongoing'):
            if pre and pre[self.idx[t]][0]:
                out.add(('PAUSE', t, None))
        if self.overconsuming():
            return out
        av = self.available()
        for t in self.having('remaining'):
            if all(self.status.get(q) == 'complete' for q in self.pred[t] if q in av):
                for m in range(1, len(self.p['tasks'][self.idx[t]]) + 1):
                    if self.fits(self.need(t, m, 0)):
                        out.add(('START', t, m))
        for t in self.having('paused'):
            if self.fits(self.need(t, self.mode[t], self.resume_work(t))):
                out.add(('RESUME', t, self.mode[t]))
        return out

    def take_nonrenewable(self, t, at):
        self.held[t] = {r: v for r, v in self.need(t, self.mode[t], at).items() if r in self.nr}
        for r, v in self.held[t].items():
            self.nr[r] += v

    def complete(self, tasks, end):
        """[(model, probability)] of completing tasks (conditions are drawn)."""
        for t in tasks:
            self.status[t], self.end[t] = 'complete', end
        c = self.p.get('cond')
        tests = [x for t in tasks for x in c['added'][self.idx[t]]] if c else []
        out = []
        for comb in product(*tests):
            m = self.clone() if tests else self
            pr = 1.0
            for item, q in comb:
                pr *= q
                m.cond = m.cond | {item}
            for t in m.available():
                m.status.setdefault(t, 'remaining')
            out.append((m, pr))
        return out

    def apply(self, action):
        """[(model, probability)] of the outcomes of an applicable action."""
        kind, t, mode = action
        if kind == 'START':
            x = self.p['tasks'][self.idx[t]][mode - 1]
            out = []
            for d, pr in zip(x['durs'], x['probs']):
                m = self.clone()
                m.status[t], m.mode[t], m.work[t], m.dur[t], m.start[t] = 'ongoing', mode, 0, d, m.t
                m.take_nonrenewable(t, 0)
                out += [(y, pr * q) for y, q in (m.complete([t], m.t) if d == 0 else [(m, 1.0)])]
            return out
        m = self.clone()
        if kind == 'PAUSE':
            m.status[t] = 'paused'
            m.paused[t].append(m.t)
            if self.p['preempt'][self.idx[t]][2]:
                for r, v in m.held[t].items():
                    m.nr[r] -= v
            return [(m, 1.0)]
        if kind == 'RESUME':
            m.work[t] = m.resume_work(t)
            m.take_nonrenewable(t, m.work[t])
            m.status[t] = 'ongoing'
            m.resumed[t].append(m.t)
            return [(m, 1.0)]
        m.t += 1
        done = []
        for t in m.having('ongoing'):
            m.work[t] += 1
            if m.work[t] >= m.dur[t]:
                done.append(t)
        return m.complete(done, m.t)

    def finished(self):
        return all(x == 'complete' for x in self.status.values())

    def all_possible(self):
        u, a = self.used(), self.avail()
        return all(any(all(u[r] + v <= a[r] for r, v in self.need(t, m, 0).items() if r in self.nr)
                       for m in range(1, len(self.p['tasks'][self.idx[t]]) + 1)) for t in self.having('remaining'))

    def terminal(self):
        return self.t > self.p['horizon'] or not self.all_possible() or self.finished()

    def signature(self):
        return dict(t=self.t, remaining=self.having('remaining'), ongoing=self.having('ongoing'),
                    complete=self.having('complete'), paused=self.having('paused'),
                    mode={t: self.mode[t] for t in sorted(self.mode)},
                    progress={t: 1.0 if self.status[t] == 'complete' else round(self.work[t] / self.dur[t], 6)
                              for t in sorted(self.work)},
                    used=self.used(), avail=self.avail(), holding=self.having('ongoing'), conditions=sorted(self.available()),
                    details={t: (self.start.get(t), self.end.get(t), self.dur.get(t), tuple(self.paused[t]), tuple(self.resumed[t]))
                             for t in self.p['ids']})

    def cost(self, action, after):
        c = 0.0
        if 'MAKESPAN' in self.p['objectives']:
            c += after.t - self.t
        if 'COST' in self.p['objectives']:
            kind, t, mode = action
            if kind == 'START':
                c += self.p['mode_cost'][self.idx[t]][mode - 1]
            u = self.used()
            for r, ren in zip(self.p['res'], self.p['renew']):
                c += self.p['rate'][r] * u[r] * (after.t - self.t) if ren else after.nr[r] - self.nr[r]
        return c


def signature(p, domain, s):
    res = p['res']
    return dict(t=s.t, remaining=sorted(s.tasks_remaining), ongoing=sorted(s.tasks_ongoing), complete=sorted(s.tasks_complete),
                paused=sorted(s.tasks_paused), mode={t: s.tasks_mode[t] for t in sorted(s.tasks_mode)},
                progress={t: round(float(s.tasks_progress[t]), 6) for t in sorted(s.tasks_progress)},
                used={r: s.resource_used[r] for r in res}, holding=sorted(s.resource_used_for_task), avail={r: s.resource_availability[r] for r in res},
                conditions=sorted(domain.get_available_tasks(s)),
                details={t: (d.start, d.end, d.sampled_duration, tuple(d.paused), tuple(d.resumed))
                         for t, d in ((t, s.tasks_details[t]) for t in p['ids'])})


def diff(got, want):
    return {k: (got[k], want[k]) for k in want if got[k] != want[k]}


def key(sig):
    return repr(sorted((k, sorted(v.items(), key=repr) if isinstance(v, dict) else v) for k, v in sig.items()))


def akey(a):
    return a.action.name, a.task, a.mode


def build(k):
    return SchedulingAction(task=k[1], action=KINDS[k[0]], mode=k[2], time_progress=k[0] == 'TIME_PR')


choices = st.lists(st.tuples(st.sampled_from(['START', 'START', 'START', 'TIME_PR', 'TIME_PR', 'PAUSE', 'RESUME']), st.integers(0, 50)),
                   min_size=14, max_size=40).map(lambda l: [list(x) for x in l])


def pick(options, choice, time_ok=True):
    """An action among the options, following a generated choice."""
    kind, i = choice
    for k in (kind, 'START', 'RESUME'):
        c = sorted((o for o in options if o[0] == k), key=repr)
        if c:
            return c[i % len(c)]
        if kind == 'TIME_PR':
            break
    return ('TIME_PR', None, None)


def find_action(actions, k):
    return next(a for a in actions if akey(a) == k)
