"""C07: parallel domains (pipes, shared memory) against one sequential domain per worker."""
import signal
from typing import NamedTuple

from hypothesis import strategies as st
from pathos.helpers import mp

from skdecide import Domain, TransitionValue, EnvironmentOutcome, EnumerableSpace, autocast_all, SingleValueDistribution
from skdecide.builders.domain import *
from skdecide.builders.solver import ParallelSolver
from skdecide.domains import PipeParallelDomain, ShmParallelDomain
from harness.api import Sub, require, eq, Violation
from harness.tabledomain import Elements

RULE = ('Sequences of launches and collections over 1-3 worker processes (any collection order, explicit or automatic '
        'worker choice), with failing and unlaunchable calls, over pipes and shared memory; one sequential reference domain '
        'per worker.')
ASSUMPTIONS = ['at most one pending call per worker (what the callers in the repository do)',
               'a case that gives no answer within 60 s of wall time (typical: 0.2 s) is reported as a hang']


class St(NamedTuple):
    x: int
    y: int


class Act(NamedTuple):
    d: int


class Dom(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals, DeterministicInitialized,
          Markovian, FullyObservable, Rewards):
    T_state = St
    T_event = Act

    def __init__(self, spec):
        self.spec = spec
        self.counter = 0

    def _idx(self, s):
        return s.x * 2 + s.y

    def _get_next_state(self, memory, action):
        t = self.spec['t'][self._idx(memory)][action.d]
        return St(t // 2, t % 2)

    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(reward=float(self.spec['r'][self._idx(memory)][action.d]))

    def _is_terminal(self, state):
        return self._idx(state) in self.spec['term']

    def _get_action_space_(self):
        return Elements([Act(i) for i in range(3)])

    def _get_applicable_actions_from(self, memory):
        return Elements([Act(i) for i in range(3) if (self._idx(memory) + i) % 3])

    def _get_goals_(self):
        return Elements([St(g // 2, g % 2) for g in self.spec['goals']])

    def _get_initial_state_(self):
        return St(0, self.spec['init'])

    def _get_observation_space_(self):
        return Elements([St(i, j) for i in range(2) for j in range(2)])

    # methods the wrapper does not know
    def bump(self, k):
        self.counter += k
        return self.counter

    def two(self, a, b):
        return (a - b, a + b)

    def values(self, s, a, b):
        return (self._get_transition_value(s, a), self._get_transition_value(s, b))

    def outcomes(self, k):
        return tuple(EnvironmentOutcome(St(i % 2, (k + i) % 2), TransitionValue(reward=float(k - i)), bool((k + i) % 3)) for i in range(2 + k % 2))

    def all_values(self, s):
        return tuple(self._get_transition_value(s, Act(i)) for i in range(3))

    def three(self, a):
        return (a, a + 1, a + 2)

    def boom(self, k):
        self.counter += 1
        raise ValueError('boom %d' % k)

    def nothing(self, k):
        self.counter += k


LAMBDAS = [lambda d, s: d._idx(s) + 10 * d.counter, lambda d, k: d.bump(k), lambda d, k: d.boom(k),
           lambda d, s, a: d.get_next_state(s, a)]


class Proxy:
    """Shared memory proxy in the style of the ones of the repository."""
    types = [St, Act, TransitionValue, EnvironmentOutcome, bool, int, float]

    def __init__(self, sizes=(3, 3, 2, 2, 1, 3, 1), turn=0):
        self.sizes, self.turn = sizes, turn  # number of registers of each type; in which order they are registered

    def copy(self):
        return Proxy(self.sizes, self.turn)

    def register(self):
        r = list(zip(self.types, self.sizes))
        return r[self.turn:] + r[:self.turn]

    def initialize(self, t):
        m = self.memory(t)
        return tuple(m) if isinstance(m, list) and self.turn % 2 else m

    def memory(self, t):
        if t is St:
            return mp.Array('i', [0, 0], lock=True)
        if t is TransitionValue:
            return [mp.Value('d', 0), mp.Value('b', False)]
        if t is EnvironmentOutcome:
            return [mp.Array('i', [0, 0], lock=True), mp.Value('d', 0), mp.Value('b', False)]
        return mp.Value({Act: 'i', bool: 'b', int: 'i', float: 'd'}[t], 0)

    def encode(self, v, m):
        t = type(v)
        if t is St:
            m[0], m[1] = v.x, v.y
        elif t is Act:
            m.value = v.d
        elif t is TransitionValue:
            m[0].value, m[1].value = v.reward, True
        elif t is EnvironmentOutcome:
            m[0][0], m[0][1] = v.observation.x, v.observation.y
            m[1].value, m[2].value = v.value.reward, v.termination
        else:
            m.value = v

    def decode(self, t, m):
        if t is St:
            return St(m[0], m[1])
        if t is Act:
            return Act(m.value)
        if t is TransitionValue:
            return TransitionValue(reward=m[0].value)
        if t is EnvironmentOutcome:
            return EnvironmentOutcome(St(m[0][0], m[0][1]), TransitionValue(reward=m[1].value), bool(m[2].value))
        return bool(m.value) if t is bool else m.value


SPEC = st.fixed_dictionaries(dict(
    t=st.lists(st.lists(st.integers(0, 3), min_size=3, max_size=3), min_size=4, max_size=4),
    r=st.lists(st.lists(st.integers(-5, 5), min_size=3, max_size=3), min_size=4, max_size=4),
    term=st.lists(st.integers(0, 3), max_size=2, unique=True), goals=st.lists(st.integers(0, 3), max_size=2, unique=True),
    init=st.integers(0, 1)))

CALLS = ['reset', 'get_initial_state', 'step', 'sample', 'get_next_state', 'get_transition_value', 'is_terminal', 'is_goal',
         'is_applicable_action', 'is_transition_value_dependent_on_next_state', 'bump', 'two', 'values', 'three', 'nothing', 'outcomes', 'all_values',
         'lam0', 'lam1', 'lam3', 'boom', 'lam2', 'badarg', 'unlaunchable', 'nomethod', 'is_observation']


@st.composite
def cases(draw, cast=False):
    nb = draw(st.integers(1, 3))
    op = st.one_of(st.tuples(st.just('launch'), st.sampled_from(CALLS), st.booleans(), st.integers(0, 3), st.integers(0, 2),
                             st.integers(0, 9), st.integers(0, 2)).map(list),
                   st.tuples(st.just('get'), st.integers(0, 2)).map(list))
    return dict(nb=nb, spec=draw(SPEC), ops=draw(st.lists(op, min_size=4, max_size=16)),
                kind=draw(st.sampled_from(['pipe', 'shm', 'shm'])), reopen=draw(st.booleans()),
                sizes=[3, 3, draw(st.integers(2, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 2)), draw(st.integers(3, 4)), 1], turn=draw(st.integers(0, 6)))


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang()


def call_args(name, x, a, k, a2):
    s, act, act2 = St(x // 2, x % 2), Act(a), Act(a2)
    return {'reset': (), 'get_initial_state': (), 'step': (act,), 'sample': (s, act), 'get_next_state': (s, act),
            'get_transition_value': (s, act, St(0, 1)), 'is_terminal': (s,), 'is_goal': (s,), 'is_observation': (s,),
            'is_applicable_action': (act, s), 'is_transition_value_dependent_on_next_state': (), 'bump': (k,), 'two': (k, a),
            'values': (s, act, act2), 'three': (k,), 'outcomes': (k,), 'all_values': (s,), 'nothing': (k,), 'lam0': (s,), 'lam1': (k,), 'lam2': (k,),
            'lam3': (s, act), 'boom': (k,), 'badarg': (s, Act(7)), 'nomethod': (k,)}.get(name, ())


def run_ref(dom, name, args):
    """(fails, result)."""
    try:
        if name.startswith('lam'):
            return False, LAMBDAS[int(name[3:])](dom, *args)
        if name == 'badarg':
            return False, dom.get_next_state(*args)
        if name == 'nomethod':
            raise AttributeError(name)
        return False, getattr(dom, name)(*args)
    except Exception:
        return True, None


def norm(r):
    if isinstance(r, EnvironmentOutcome):
        return ('env', tuple(r.observation), r.value.reward, r.termination)
    if type(r) in (tuple, list):
        return [norm(x) for x in r]
    return r


def check(case, ctx):
    spec, nb = case['spec'], case['nb']
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    par = None
    try:
        if case['kind'] == 'pipe':
            par = PipeParallelDomain(lambda: Dom(spec), lambdas=LAMBDAS, nb_domains=nb)
        else:
            par = ShmParallelDomain(lambda: Dom(spec), Proxy(case['sizes'], case['turn']), lambdas=LAMBDAS, nb_domains=nb)
        eq(par.nb_domains(), nb, 'number of domains')
        eq(par.get_parallel_capacity(), nb, 'parallel capacity')
        overlap = run_ops(case, ctx, par)
        if case['reopen']:
            overlap |= run_ops(dict(case, ops=case['ops'][:4]), ctx, par)
        ctx.nontrivial(overlap or nb == 1)
        ctx.label(case['kind'], 'overlap' if overlap else 'serial')
    except Hang:
        raise Violation('no termination within 60s (the parallel domain hangs)')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        destroy(par)


def destroy(par):
    if par is None:
        return
    d = par.__dict__
    for p in d.get('_processes', []):
        try:
            if p is not None:
                p.terminate()
                p.join(5)
        except Exception:
            pass
    m = d.get('_manager')
    if m is not None:
        try:
            m.shutdown()
        except Exception:
            pass


def run_ops(case, ctx, par):
    spec, nb = case['spec'], case['nb']
    refs = [Dom(spec) for _ in range(nb)]
    for r in refs:
        r.reset()
    with par:
        for i in range(nb):   # put every worker in a known state
            eq(par.reset(i=i), i, 'worker serving an explicit request')
        for i in range(nb):
            eq(norm(par.get_result(i)), norm(refs[i].get_initial_state()), 'reset of worker %d' % i)
        pending = {}
        overlap = False

        def collect(i):
            name, args, fails, want = pending.pop(i)
            got = par.get_result(i)
            if fails:
                require(got is None, 'failing call %s%r gave %r', name, args, got)
            else:
                eq(norm(got), norm(list(want) if type(want) is tuple else want), 'result of %s%r on worker %d' % (name, args, i))
        for op in case['ops']:
            if op[0] == 'get' or len(pending) == nb:
                if pending:
                    ks = sorted(pending)
                    collect(ks[op[1] % len(ks)] if op[0] == 'get' else ks[op[3] % len(ks)])
                if op[0] == 'get':
                    continue
            _, name, explicit, x, a, k, a2 = op
            free = [i for i in range(nb) if i not in pending]
            target = free[k % len(free)] if explicit else None
            args = call_args(name, x, a, k, a2)
            if name == 'unlaunchable':
                bad = (lambda: 0) if case['kind'] == 'shm' else __import__('threading').Lock()
                r = par.bump(bad, i=target)
                if r is not None:   # the transport accepted it: then it simply fails in the worker
                    require(par.get_result(r) is None, 'call with a bad argument gave a result')
                ctx.label('unlaunchable')
                continue
            if case['kind'] == 'shm' and (name == 'outcomes' and 2 + k % 2 > case['sizes'][3] or name == 'all_values' and case['sizes'][2] < 3):
                ctx.label('no register left')
                r = getattr(par, name)(*args, i=target)
                require(r in free and par.get_result(r) is None, 'a result larger than the shared memory was returned')
                continue
            if name.startswith('lam'):
                r = par.call(target, int(name[3:]), *args)
            elif name == 'badarg':
                r = par.get_next_state(*args, i=target)
            else:
                r = getattr(par, name)(*args, i=target)
            require(r in free and (target is None or r == target), '%s served by worker %r, available %r, asked %r',
                    name, r, free, target)
            fails, want = run_ref(refs[r], name, args)
            pending[r] = (name, args, fails, want)
            overlap |= len(pending) > 1
            ctx.label('fails' if fails else '')
        for i in sorted(pending, reverse=True):
            collect(i)
    return overlap


# ---- the solver side --------------------------------------------------------------------------------------------
@st.composite
def solver_cases(draw):
    return dict(spec=draw(SPEC), shm=draw(st.booleans()), calls=draw(st.lists(st.tuples(
        st.sampled_from(['get_next_state', 'get_transition_value', 'is_terminal', 'is_goal', 'bump', 'two', 'step', 'sample']),
        st.integers(0, 3), st.integers(0, 2), st.integers(0, 9)).map(list), min_size=1, max_size=5)),
        cast=draw(st.booleans()), lazy=draw(st.booleans()), parallel=draw(st.integers(0, 3)) > 0)


class General(Domain):
    pass


def check_solver(case, ctx):
    spec = case['spec']

    def factory():
        d = Dom(spec)
        if case['cast'] and not case['shm']:
            autocast_all(d, d, General)
        d.reset()
        return d
    cast = case['cast'] and not case['shm']
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(60)
    dom = None
    import os
    cpu = os.cpu_count
    try:
        import skdecide.domains as sd
        par = ParallelSolver(factory, case['parallel'], Proxy() if case['shm'] else None)
        seq = ParallelSolver(factory, False)
        seq._initialize()
        ref = factory()
        # fewer workers than CPUs (the wrapper's default) to keep the case small
        dp, ds = PipeParallelDomain.__init__.__defaults__, ShmParallelDomain.__init__.__defaults__
        PipeParallelDomain.__init__.__defaults__ = tuple(1 if isinstance(x, int) and not isinstance(x, bool) else x for x in dp)
        ShmParallelDomain.__init__.__defaults__ = tuple(1 if isinstance(x, int) and not isinstance(x, bool) else x for x in ds)
        try:
            if case['lazy']:
                dom = par.get_domain()
            else:
                par._initialize()
                dom = par.get_domain()
        finally:
            PipeParallelDomain.__init__.__defaults__ = dp
            ShmParallelDomain.__init__.__defaults__ = ds
        for name, x, a, k in case['calls']:
            args = call_args(name, x, a, k, 0)
            if cast:
                up = lambda v: {'agent': [v]} if isinstance(v, Act) else v
                args = tuple([__import__('skdecide').Memory([v])][0] if isinstance(v, St) and j == 0 and name in (
                    'get_next_state', 'sample', 'get_transition_value') else
                             {'agent': v} if name == 'is_goal' else up(v) for j, v in enumerate(args))
            want = getattr(ref, name)(*args)
            g1 = par.call_domain_method(name, *args)
            g2 = seq.call_domain_method(name, *args)
            f = (lambda r: repr(r)) if cast else (lambda r: norm(list(r) if type(r) is tuple else r))
            eq(f(g1), f(want), 'parallel call %s%r' % (name, args))
            eq(f(g2), f(want), 'sequential call %s%r' % (name, args))
        par.close()
        ctx.nontrivial(case['parallel'])
        ctx.label('cast' if cast else '', 'shm' if case['shm'] else 'pipe')
    except Hang:
        raise Violation('no termination within 60s (the parallel solver hangs)')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if case['parallel']:
            destroy(dom)


SUBCHECKS = [
    Sub('parallel_domain', lambda: cases(), check, quick=500, thorough=1000, cpu_limit=60, weight=3,
        rule='non-trivial: at least two calls pending at once, or a single worker'),
    Sub('parallel_solver', solver_cases, check_solver, quick=240, thorough=500, cpu_limit=60,
        rule='non-trivial: run in parallel mode'),
]
