"""Builds and talks to the driver of the C++ planners (cpp/driver.cc), and the small worlds they are given."""
import atexit
import fcntl
import hashlib
import math
import os
import subprocess
import tempfile
import time

from hypothesis import strategies as st

from harness.api import Violation
from harness.boot import HERE, REPO

SOURCES = os.path.join(HERE, 'cpp')
STORE = os.path.join(tempfile.gettempdir(), 'vp-cpp-%d' % os.getuid())
SAFE = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
_drivers = {}


def fingerprint(extra):
    h = hashlib.sha256(extra.encode())
    for root in (os.path.join(REPO, 'cpp', 'src'), SOURCES):
        for base, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.hh', '.cc', '.h', '.hpp')) or f == 'execution':
                    h.update(f.encode())
                    with open(os.path.join(base, f), 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def build(name, parallel=False):
    """Compiles the driver of one planner from the current tree; returns the path of the program."""
    flags = ['-std=c++17', '-O1', '-g1', '-w'] + (['-DVP_PARALLEL'] if parallel else []) + SAFE
    key = '%s%s-%s' % (name, '-par' if parallel else '', fingerprint(REPO + ' '.join(flags)))
    os.makedirs(STORE, exist_ok=True)
    target = os.path.join(STORE, key)
    with open(os.path.join(STORE, 'lock-%s-%d' % (name, parallel)), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(target):
            for old in os.listdir(STORE):
                if old.startswith(name) and time.time() - os.path.getmtime(os.path.join(STORE, old)) > 3600:
                    os.remove(os.path.join(STORE, old))
            common = ['g++', *flags, '-DVP_%s' % name, os.path.join(SOURCES, 'driver.cc'), '-o', target + '.tmp']
            attempts = ([['-I' + os.path.join(SOURCES, 'stubs')], []],
                        [[], ['-lspdlog', '-lfmt']])  # the real logging library, much slower to compile
            for before, after in attempts:
                p = subprocess.run(common[:1] + before + ['-I' + os.path.join(SOURCES, x) for x in (['par'] if parallel else []) + ['include']] + ['-I' + SOURCES,
                                                          '-I' + os.path.join(REPO, 'cpp', 'src')] + common[1:] + after,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 0:
                    break
            else:
                raise RuntimeError('the driver of %s does not compile: %s' % (name, p.stdout[-3000:]))
            os.rename(target + '.tmp', target)
    return target


class Driver:
    def __init__(self, name, parallel):
        self.program = build(name, parallel)
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1',
                   UBSAN_OPTIONS='print_stacktrace=1')
        self.process = subprocess.Popen([self.program], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                        text=True, env=env)

    def ask(self, line):
        answers = []
        try:
            self.process.stdin.write(line + '\n')
            self.process.stdin.flush()
            while True:
                a = self.process.stdout.readline()
                if not a.endswith('\n'):
                    break
                if a == '.\n':
                    return answers, None
                answers.append(a[:-1])
        except BrokenPipeError:
            pass
        code = self.process.wait()
        self.err.seek(0)
        return answers, describe(code, self.err.read().decode(errors='replace'))

    def close(self):
        try:
            self.process.stdin.close()
            self.process.kill()
            self.process.wait()
        except OSError:
            pass


def describe(code, text):
    for mark in ('VP-HANG', 'VP-MISUSE', 'runtime error:', 'ERROR: AddressSanitizer:', 'terminate called'):
        if mark in text:
            line = next(l for l in text.splitlines() if mark in l)
            where = [l.strip() for l in text.splitlines() if '/cpp/src/' in l][:2]
            return '%s %s' % (line.strip()[:200], ' <- '.join(w.split(' in ')[-1][:160] for w in where))
    return 'exit code %s %s' % (code, text[-200:])


def driver(name, parallel=False):
    key = (name, parallel, os.getpid())
    if key not in _drivers:
        _drivers[key] = Driver(name, parallel)
        atexit.register(_drivers[key].close)
    return _drivers[key]


PARAMS = ('discount', 'epsilon', 'max_tip', 'cycles', 'labels', 'time_budget', 'rollouts', 'depth', 'garbage', 'ordering',
          'debug', 'capacity', 'start', 'exploration', 'ucb', 'seed',
          'schedule', 'rarity')
DEFAULTS = {'discount': 1.0, 'epsilon': 0.001, 'max_tip': 1, 'cycles': 0, 'labels': 1, 'time_budget': 3600000,
            'rollouts': 100000, 'depth': 1000, 'garbage': 0, 'ordering': 0, 'debug': 0, 'capacity': 1, 'start': 0,
            'exploration': 0.25, 'ucb': 0.7, 'seed': 1,
            'schedule': 1, 'rarity': 2}


def run(name, world, params, ops, parallel=False):
    """Answers of the planner to a list of operations such as ['S', 0] (solve from state 0): one per operation."""
    out = [len(world)]
    for s in world:
        out += [int(s['goal']), int(s.get('term', s['goal'])), repr(float(s.get('h', 0))), len(s.get('f', [])), *s.get('f', [])]
        out.append(len(s['acts']))
        for a in s['acts']:
            out.append(len(a))
            for p, n, c in a:
                out += [repr(float(p)), n, repr(float(c))]
    full = dict(DEFAULTS, **params, **(parallel or {}))
    out += [full[k] for k in PARAMS]
    out.append(len(ops))
    for op in ops:
        out += op
    parallel = bool(parallel)
    d = driver(name, parallel)
    answers, died = d.ask(' '.join(str(x) for x in out))
    if died:
        d.close()
        _drivers.pop((name, parallel, os.getpid()), None)
        at = ops[len(answers)] if len(answers) < len(ops) else 'the end'
        raise Violation('the planner process died at operation %s (%d of %d): %s' % (at, len(answers) + 1, len(ops), died))
    if len(answers) != len(ops):
        raise RuntimeError('%d answers to %d operations: %s' % (len(answers), len(ops), answers))
    return [Answer(a) for a in answers]


class Answer:
    """One answer: its numbers, or the text of the exception raised instead."""

    def __init__(self, line):
        head, _, error = line.partition(' X ')
        self.error = error or None
        self.values = [float(x) for x in head.split()[1:]]

    @property
    def value(self):
        return self.values[0]


def dump(n):
    """Operations asking about every state, and how to read the answers."""
    return [[op, s] for s in range(n) for op in ('F', 'B', 'V')]


def read_dump(answers, n):
    """Per state: (is a solution defined, best action or None, best value or None)."""
    table = []
    for s in range(n):
        f, b, v = answers[3 * s:3 * s + 3]
        table.append((bool(f.value), None if b.error else int(b.value), None if v.error else v.value))
    return table


# Worlds

costs = st.sampled_from([1, 1, 2, 3, 5, 0.5, 1.5, 8])
probabilities = st.sampled_from([[1.0], [0.5, 0.5], [0.25, 0.75], [0.75, 0.25], [0.5, 0.25, 0.25], [0.125, 0.875]])


@st.composite
def deterministic(draw, max_n=9, forward=False, max_actions=3):
    """Worlds where every action leads to one state."""
    n = draw(st.integers(2, max_n))
    goals = draw(st.sets(st.integers(0, n - 1), max_size=2)) if draw(st.integers(0, 5)) else {n - 1}
    world = []
    for s in range(n):
        targets = draw(st.lists(st.integers(min(s + 1, n - 1) if forward else 0, n - 1), max_size=max_actions))
        world.append({'goal': s in goals, 'acts': [[[1.0, t, draw(costs)]] for t in targets]})
    return world


def cost_to_go(world, scale=1.0):
    """Cheapest cost to a goal from every state of a deterministic world."""
    n = len(world)
    d = [0.0 if s['goal'] else math.inf for s in world]
    for _ in range(n):
        for s in range(n):
            for a in world[s]['acts']:
                d[s] = min(d[s], scale * a[0][2] + d[a[0][1]])
    return d


def consistent(world, scale, extra):
    """Gives a world a heuristic with h(s) <= cost + h(s') and h(goal) = 0: the exact cost to go for reduced costs and more goals."""
    easier = [dict(s, goal=s['goal'] or i in extra) for i, s in enumerate(world)]
    h = cost_to_go(easier, scale)
    finite = [x for x in h if x < math.inf]
    top = (max(finite) if finite else 0.0) + 10.0
    for s, x in zip(world, h):
        s['h'] = min(x, top)
    return world


def orders(world):
    """Solving from one to five states (mostly not goals), sometimes clearing the planner."""
    roots = list(range(len(world))) + 3 * [i for i, s in enumerate(world) if not s['goal']]
    solve = st.tuples(st.just('S'), st.sampled_from(roots))
    return st.tuples(solve, st.lists(st.one_of(solve, solve, solve, st.just(('C',))), max_size=4)).map(
        lambda t: [list(o) for o in [t[0]] + t[1]])


@st.composite
def outcomes(draw, targets):
    """One action: distinct next states with their probabilities and costs."""
    ps = draw(probabilities)
    nexts = draw(st.lists(st.sampled_from(targets), min_size=1, max_size=len(ps), unique=True))
    if len(nexts) < len(ps):
        ps = ps[:len(nexts) - 1] + [sum(ps[len(nexts) - 1:])]
    return [[p, t, draw(costs)] for p, t in zip(ps, nexts)]


@st.composite
def stochastic(draw, max_n=8, acyclic=False, max_actions=3):
    """Worlds with uncertain transitions where every state can reach the goal; without loops on demand."""
    n = draw(st.integers(3, max_n)) if draw(st.integers(0, 9)) else 2
    goals = (draw(st.sets(st.integers(0, n - 1), max_size=1)) if draw(st.booleans()) else set()) | {n - 1}
    world = []
    for s in range(n):
        later = list(range(s + 1, n)) or [n - 1]
        targets = later if acyclic else list(range(n))
        acts = []
        if s < n - 1:  # the first action can move on
            acts.append(draw(outcomes(later)) if acyclic or draw(st.booleans()) else draw(outcomes(targets)))
            if not acyclic and not any(t > s for _, t, _ in acts[0]):
                acts[0] = [[0.5, draw(st.sampled_from(later)), draw(costs)], [0.5, s, draw(costs)]]
        for _ in range(draw(st.integers(0, max_actions - 1))):
            if s < n - 1 or not acyclic:
                acts.append(draw(outcomes(targets)))
        if acts and s < n - 1:
            acts = draw(st.permutations(acts)) if len(acts) > 1 else acts
        world.append({'goal': s in goals, 'acts': [list(a) for a in acts]})
    return world


def q_value(value, action, discount):
    return sum(p * (c + discount * value[t]) for p, t, c in action)


def optimal(world, discount=1.0):
    """Least expected cost to a goal (value iteration from above along shortest paths would not be safe: from below, to a fixed point)."""
    v = [0.0] * len(world)
    for _ in range(200000):
        new = [0.0 if s['goal'] else min(q_value(v, a, discount) for a in s['acts']) for s in world]
        gap = max(abs(x - y) for x, y in zip(new, v))
        v = new
        if gap < 1e-12:
            break
    return v


def evaluate(world, policy, s, discount=1.0):
    """Expected cost and number of steps of a policy (state -> action, or None) from s: None when it is undefined somewhere or may never end."""
    import numpy as np
    reached, stack = [s], [s]
    while stack:
        x = stack.pop()
        if world[x]['goal']:
            continue
        if policy(x) is None:
            return None, 'no action in state %d' % x
        for p, t, _ in world[x]['acts'][policy(x)]:
            if t not in reached:
                reached.append(t)
                stack.append(t)
    ending = {x for x in reached if world[x]['goal']}
    changed = True
    while changed:
        changed = False
        for x in reached:
            if x not in ending and any(t in ending for _, t, _ in world[x]['acts'][policy(x)]):
                ending.add(x)
                changed = True
    if discount == 1 and len(ending) < len(reached):
        return None, 'no goal is ever reached from %s' % sorted(set(reached) - ending)
    index = {x: i for i, x in enumerate(reached)}
    a, n, cost, steps = np.eye(len(reached)), np.eye(len(reached)), np.zeros(len(reached)), np.zeros(len(reached))
    for x in reached:
        if not world[x]['goal']:
            for p, t, c in world[x]['acts'][policy(x)]:
                a[index[x], index[t]] -= discount * p
                n[index[x], index[t]] -= discount * p
                cost[index[x]] += p * c
            steps[index[x]] = 1.0
    return (float(np.linalg.solve(a, cost)[0]), float(np.linalg.solve(n, steps).max()), sorted(reached)), None


def admissible(draw, world, best):
    """Gives every state a lower bound of its value as its heuristic (0 on goals), not necessarily a consistent one."""
    for s, v in zip(world, best):
        s['h'] = round(v * draw(st.sampled_from([0.0, 0.25, 0.5, 0.875])) - 0.0005, 3) if not s['goal'] else 0.0
        s['h'] = max(0.0, s['h'])
    return world
