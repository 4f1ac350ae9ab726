"""P09: the Python side of the C++ planners, over a stand-in for the compiled library which follows the real one's calling conventions."""
import enum
import importlib
import signal
import sys
import types

from hypothesis import strategies as st
import pynng

from skdecide import TransitionValue
from skdecide.builders.domain import *
from skdecide.domains import Domain, PipeParallelDomain, ShmParallelDomain
from harness.api import Sub, require, eq, Violation
from harness.tabledomain import Elements
from checks.c07 import Dom as Base, Act, St, Proxy, SPEC, destroy, mp

RULE = ('Tables of 4 states and 3 actions, planner options, user functions, and 2-9 calls of the solver (solve, solve_from, get_next_action, sample_action, '
        'is_policy_defined_for, get_utility, reset, statistics); in parallel mode over pipes or shared memory. Non-trivial: a plan was both '
        'computed and reused, or the planner ran in parallel.')
ASSUMPTIONS = ['the compiled library is not available offline: a stand-in takes its place, called with the same keywords and calling back as the bindings '
               '(cpp/src/hub/solver/py_*.cc, utils/python_domain_adapter.hh) do', 'a case without an answer within 60 s is a hang',
               'one domain per solver object']

STATES = [St(i, j) for i in range(2) for j in range(2)]


class Dom(Base, PositiveCosts):
    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(cost=1 + abs(self.spec['r'][self._idx(memory)][action.d]))


class Memory(Proxy):
    """The sets of actions go through the shared memory as well."""
    types = Proxy.types + [Elements]

    def __init__(self):
        super().__init__(Proxy().sizes + (1,))

    def copy(self):
        return Memory()

    def memory(self, t):
        return mp.Array('i', [0] * 4, lock=True) if t is Elements else super().memory(t)

    def encode(self, v, m):
        if type(v) is not Elements:
            return super().encode(v, m)
        actions = [a.d for a in v.get_elements()]
        m[0] = len(actions)
        m[1:1 + len(actions)] = actions

    def decode(self, t, m):
        return Elements([Act(d) for d in m[1:1 + m[0]]]) if t is Elements else super().decode(t, m)


class Options:
    TransitionMode = enum.Enum('TransitionMode', 'Step Sample Distribution')
    TreePolicy = enum.Enum('TreePolicy', 'Default')
    Expander = enum.Enum('Expander', 'Full')
    ActionSelector = enum.Enum('ActionSelector', 'UCB1 BestQValue')
    RolloutPolicy = enum.Enum('RolloutPolicy', 'Random Custom')
    BackPropagator = enum.Enum('BackPropagator', 'Graph')


class Planner:
    """What the compiled planners do with what they are given, planning aside."""
    made = []
    script = None
    takes = ()     # keywords of the binding
    threads = False  # the callbacks also take the number of the thread

    def __init__(self, **given):
        extra = set(given) - set(self.takes)
        if extra:
            raise TypeError('incompatible constructor arguments: %s' % sorted(extra))
        self.given = given
        self.domain = given['domain']
        self.known, self.solves, self.cleared = {}, [], 0
        self.sockets = []
        if given.get('parallel'):
            for name in self.domain.get_ipc_connections():
                s = pynng.Pull0(recv_timeout=30000)
                s.listen(name)
                self.sockets.append(s)
        Planner.made.append(self)

    def finish(self):
        for s in self.sockets:
            s.close()

    def wait(self, i):
        if not self.given.get('parallel'):
            return i
        require(isinstance(i, int), 'a call launched on worker %r', i)
        error = self.sockets[i].recv()
        require(error == b'0', 'a callback fails in the worker: %s', error)
        return self.domain.get_result(i)

    def callback(self, name, s, thread):
        """The value of a callback of the user for a state, as the planner gets it."""
        f = self.given.get(name)
        if f is None:
            return None
        return self.wait(f(self.domain, s, thread if self.given.get('parallel') else None) if self.threads else f(self.domain, s))

    def method(self, name, *args):
        return self.wait(getattr(self.domain, name)(*args))

    def clear(self):
        self.known = {}
        self.cleared += 1

    def solve(self, s):
        self.solves.append(s)
        for t in self.script['cover'][Base._idx(None, s)]:
            self.known[STATES[t]] = True
        self.known[s] = True

    def is_solution_defined_for(self, s):
        return s in self.known

    def get_next_action(self, s):
        a = self.script['act'][Base._idx(None, s)]
        return None if a is None or s not in self.known else Act(a)

    def get_utility(self, s):
        return float(self.script['util'][Base._idx(None, s)] + len(self.solves))

    def stat(self, name):
        return '%s after %d' % (name, len(self.solves))

    def get_nb_of_explored_states(self):
        return self.stat('explored')

    def get_nb_of_pruned_states(self):
        return self.stat('pruned')

    def get_nb_rollouts(self):
        return self.stat('rollouts')

    def get_policy(self):
        return {s: (self.get_next_action(s), self.get_utility(s)) for s in self.known}

    def get_action_prefix(self):
        return [Act(a) for a in self.script['act'] if a is not None]

    def get_intermediate_scores(self):
        return [(len(self.solves), 1.0)]

    def best_solution_graph_size(self):
        return self.stat('graph')


COMMON = ('domain', 'parallel', 'debug_logs')
number, real, flag = st.integers(1, 10 ** 6), st.integers(1, 100).map(lambda x: x / 8), st.booleans()


def value(x):
    return st.sampled_from([e.name for e in x]).map(lambda n: [x.__name__, n])


# name -> module, class, binding, options of the user (-> keyword of the binding), functions of the user (name -> optional?), threads, replans, resets, statistics
KINDS = {
    'Astar': ('astar', '_AStarSolver_', {}, {'heuristic': True}, ['goal_checker'], False, False, False, {}),
    'AOstar': ('aostar', '_AOStarSolver_', {'discount': real, 'max_tip_expanions': number, 'detect_cycles': flag}, {'heuristic': True}, ['goal_checker'], False,
               False, False, {}),
    'ILAOstar': ('ilaostar', '_ILAOStarSolver_', {'discount': real, 'epsilon': real}, {'heuristic': True}, ['goal_checker'], False, False, False,
                 ['get_nb_of_explored_states', 'best_solution_graph_size', 'get_policy']),
    'LRTDP': ('lrtdp', '_LRTDPSolver_', {'use_labels': flag, 'time_budget': number, 'rollout_budget': number, 'max_depth': number, 'discount': real, 'epsilon': real,
                                         'online_node_garbage': flag}, {'heuristic': True}, ['goal_checker'], True, True, False,
              ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy']),
    'IW': ('iw', '_IWSolver_', {'use_state_feature_hash': flag, 'time_budget': number}, {'state_features': False}, [], False, False, True,
           ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_intermediate_scores']),
    'BFWS': ('bfws', '_BFWSSolver_', {}, {'state_features': False, 'heuristic': False, 'termination_checker': False}, [], False, False, False, {}),
    'RIW': ('riw', '_RIWSolver_', {'use_state_feature_hash': flag, 'use_simulation_domain': flag, 'time_budget': number, 'rollout_budget': number, 'max_depth': number,
                                   'exploration': real, 'discount': real, 'online_node_garbage': flag}, {'state_features': False}, [], True, True, True,
            ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix']),
    'MCTS': ('mcts', '_MCTSSolver_', {'time_budget': number, 'rollout_budget': number, 'max_depth': number, 'discount': real, 'uct_mode': flag, 'ucb_constant': real,
                                      'online_node_garbage': flag, 'transition_mode': value(Options.TransitionMode), 'tree_policy': value(Options.TreePolicy),
                                      'expander': value(Options.Expander), 'action_selector_optimization': value(Options.ActionSelector),
                                      'action_selector_execution': value(Options.ActionSelector), 'rollout_policy': value(Options.RolloutPolicy),
                                      'back_propagator': value(Options.BackPropagator)},
             {'custom_policy': True, 'heuristic': True}, [], True, True, True,
             ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix']),
    'UCT': ('mcts', '_MCTSSolver_', {'time_budget': number, 'rollout_budget': number, 'max_depth': number, 'discount': real, 'ucb_constant': real,
                                     'online_node_garbage': flag, 'transition_mode': value(Options.TransitionMode), 'rollout_policy': value(Options.RolloutPolicy)},
            {'custom_policy': True, 'heuristic': True}, [], True, True, True,
            ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix']),
}
RENAMED = {'max_tip_expanions': 'max_tip_expansions'}

library = types.ModuleType('__skdecide_hub_cpp')
library._MCTSOptions_ = Options
for _kind, (_, _binding, _options, _functions, _own, _threads, _, _, _) in KINDS.items():
    if _kind != 'UCT':
        setattr(library, _binding, type(_binding, (Planner,), dict(threads=_threads, takes=COMMON + tuple(RENAMED.get(x, x) for x in _options) + tuple(_functions) + tuple(
            _own) + ({'IW': ('node_ordering',), 'BFWS': ('use_state_feature_hash',)}.get(_kind, ())))))
sys.modules['__skdecide_hub_cpp'] = library


def user_function(name, script):
    """A function of the user: it depends on the domain and on the state, and differently for each name."""
    table = script['table']
    if name == 'heuristic' and script['kind'] in ('MCTS', 'UCT'):
        return lambda d, s: (float(table[d._idx(s)] + d.spec['t'][d._idx(s)][0]), 1 + table[d._idx(s)] % 3)
    if name == 'heuristic':
        return lambda d, s: float(table[d._idx(s)] + d.spec['t'][d._idx(s)][0])
    if name == 'state_features':
        return lambda d, s: 100 * s.x + 10 * s.y + d.spec['t'][d._idx(s)][1]
    if name == 'termination_checker':
        return lambda d, s: bool((table[d._idx(s)] + d.spec['t'][d._idx(s)][2]) % 2)
    return lambda d, s: Act((table[d._idx(s)] + d.spec['t'][d._idx(s)][1]) % 3)


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang()


def check(k, ctx):
    kind = k['kind']
    module, _, options, functions, own, threads, replans, resets, stats = KINDS[kind]
    mode = k['mode']
    shm = mode == 'shm'
    if shm and kind in ('MCTS', 'UCT') and k['with']['heuristic']:
        mode = 'pipe'  # pairs go through the pipes (shared memory returns them as lists)
    cls = getattr(importlib.import_module('skdecide.hub.solver.' + module), kind)
    spec, script = k['spec'], k['script']
    script['kind'] = kind
    given = {x: v for x, v in k['options'].items()}
    args = {x: getattr(getattr(Options, v[0]), v[1]) if isinstance(v, list) else v for x, v in given.items()}
    fs = {x: user_function(x, script) for x in functions if not functions[x] or k['with'][x]}
    if replans:
        args['continuous_planning'] = k['continuous']
    if kind == 'IW' and k['ordering']:
        args['node_ordering'] = lambda *a: a[0] < a[3]
    ref = Dom(spec)
    ref.reset()
    made = Planner.made = []
    Planner.script = script
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    dp, ds = PipeParallelDomain.__init__.__defaults__, ShmParallelDomain.__init__.__defaults__
    PipeParallelDomain.__init__.__defaults__ = tuple(2 if isinstance(x, int) and not isinstance(x, bool) else x for x in dp)
    ShmParallelDomain.__init__.__defaults__ = tuple(2 if isinstance(x, int) and not isinstance(x, bool) else x for x in ds)
    parallels = []
    launch = {c: c._launch_processes for c in (PipeParallelDomain, ShmParallelDomain)}

    def launched(c):
        def f(self):
            parallels.append(self)
            return launch[c](self)
        return f
    for c in launch:
        c._launch_processes = launched(c)
    reused = computed = False
    try:
        solver = cls(domain_factory=lambda: Dom(spec), parallel=mode is not None, shared_memory_proxy=Memory() if mode == 'shm' else None,
                     debug_logs=k['logs'], **args, **fs)
        if k['context']:
            solver.__enter__()
        solver.solve(lambda: Dom(spec))
        known, solves = set(), 0

        def look(planner):
            for x in args:
                if x != 'continuous_planning':
                    eq(planner.given[RENAMED.get(x, x)], args[x], 'option %s of the planner' % x)
            eq((planner.given['parallel'], planner.given['debug_logs']), (mode is not None, k['logs']), 'parallel mode and logs')
            if kind == 'UCT':
                eq(planner.given.get('uct_mode', True), True, 'UCT mode')
            thread = 0
            for s in STATES:
                thread = 1 - thread
                if own:
                    eq(planner.callback('goal_checker', s, thread), ref.is_goal(s), 'goal test of %s' % (s,))
                for x in functions:
                    want = fs[x](ref, s) if x in fs else None if kind in ('MCTS', 'UCT') else 0
                    eq(planner.callback(x, s, thread), want, '%s of %s' % (x, s))
            s, a = STATES[k['probe'][0]], Act(k['probe'][1])
            eq(planner.method('get_next_state', s, a), ref.get_next_state(s, a), 'next state in the domain of the planner')
            eq(planner.method('is_terminal', s), ref.is_terminal(s), 'terminal state in the domain of the planner')
            eq(len(planner.solves), 0, 'searches before any query')
        eq(len(made), 1, 'planners')
        look(made[0])
        for name, i in k['ops']:
            s, p = STATES[i], made[-1]
            before = list(p.solves)
            new = []
            if name in ('get_next_action', 'sample_action', 'get_next_action_distribution'):
                if replans and k['continuous'] or s not in known:
                    new, computed = [s], True
                else:
                    reused = True
                got = getattr(solver, name)(s)
                if name == 'get_next_action_distribution':
                    got = got.get_values()
                    eq(len(got), 1, 'actions with a probability')
                    eq(got[0][1], 1.0, 'its probability')
                    got = got[0][0]
                a = script['act'][i]
                if a is not None or not replans:
                    eq(got, None if a is None else Act(a), 'action in %s' % (s,))
                else:
                    require(got in [Act(x) for x in range(3)], 'the planner has no action in %s: %s is not an action', s, got)
                    ctx.label('no action')
            elif name == 'solve_from':
                solver.solve_from(s)
                new, computed = [s], True
            elif name == 'is_policy_defined_for':
                eq(bool(solver.is_policy_defined_for(s)), s in known, 'is the policy defined for %s (known: %s)' % (s, known))
            elif name == 'get_utility':
                eq(solver.get_utility(s), float(script['util'][i] + len(before)), 'utility of %s' % (s,))
            elif name == 'reset':
                cleared = p.cleared
                solver.reset()
                if resets:
                    require(p.cleared > cleared, 'the planner still knows what it learned before the reset')
                    known = set()
                else:
                    known = set(p.known)  # not specified
            elif name == 'solve':
                solver.solve(lambda: Dom(spec))
                eq(len(made) > 1 or not p.known, True, 'the planner starts again')
                if made[-1] is not p:
                    p.finish()
                    if mode is None:
                        look(made[-1])
                    before = []
                known, p = set(), made[-1]
                before = list(p.solves)
            elif name in stats:
                eq(getattr(solver, name)(), getattr(p, name)(), name)
            for t in new:
                known |= {t} | {STATES[x] for x in script['cover'][Base._idx(None, t)]}
            eq(p.solves, before + new, 'searches after %s(%s), which were %s' % (name, s, before))
            eq(p.known.keys(), known, 'states the planner knows')
        made[-1].finish()
        if k['context']:
            solver.__exit__(None, None, None)
        elif mode is not None:
            solver.close()
        for d in parallels:
            require(not any(d._processes), 'worker processes left after the solver was closed')
        require(len(parallels) == (mode is not None), '%d sets of worker processes', len(parallels))
        ctx.nontrivial(computed and reused or mode is not None)
        ctx.label(kind, mode or 'sequential')
    except Hang:
        raise Violation('no answer within 60 s')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        PipeParallelDomain.__init__.__defaults__ = dp
        ShmParallelDomain.__init__.__defaults__ = ds
        for c in launch:
            c._launch_processes = launch[c]
        for p in made:
            p.finish()
        for d in parallels:
            destroy(d)


OPS = ['get_next_action'] * 4 + ['sample_action', 'get_next_action_distribution', 'solve_from', 'is_policy_defined_for', 'is_policy_defined_for', 'get_utility', 'reset']


@st.composite
def cases(draw, modes=(None,)):
    kind = draw(st.sampled_from(sorted(KINDS)))
    _, _, options, functions, _, _, _, _, stats = KINDS[kind]
    mode = draw(st.sampled_from(modes))
    some = draw(st.lists(st.sampled_from(sorted(options)), unique=True)) if options else []
    return dict(kind=kind, mode=mode, spec=draw(SPEC), options={x: draw(options[x]) for x in sorted(some)}, logs=draw(st.booleans()),
                **{'with': {x: draw(st.integers(0, 2)) > 0 for x in sorted(functions)}}, continuous=draw(st.booleans()), ordering=draw(st.booleans()), context=draw(st.booleans()),
                probe=[draw(st.integers(0, 3)), draw(st.integers(0, 2))],
                ops=draw(st.lists(st.tuples(st.sampled_from(OPS + list(stats) + ([] if mode else ['solve'])), st.integers(0, 3)).map(list), min_size=2, max_size=9)),
                script=dict(act=draw(st.lists(st.sampled_from([None, 0, 1, 2]), min_size=4, max_size=4)), util=draw(st.lists(st.integers(-9, 9), min_size=4, max_size=4)),
                            table=draw(st.lists(st.integers(0, 5), min_size=4, max_size=4)),
                            cover=draw(st.lists(st.lists(st.integers(0, 3), max_size=3, unique=True), min_size=4, max_size=4))))


SUBCHECKS = [Sub('sequential', lambda: cases(), check, quick=1500, rule=RULE),
             Sub('parallel', lambda: cases(('pipe', 'shm')), check, quick=160, thorough=500, cpu_limit=60, weight=3, rule=RULE, native=lambda: None)]  # nng does not survive forks
