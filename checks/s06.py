"""S06: Cartesian genetic programs, value normalisation, and the policies trained by CGP and augmented random search."""
import contextlib
import io
import math
import os
import random
import shutil
import tempfile

import gym.spaces as gs
import numpy as np
from hypothesis import strategies as st

from skdecide import Domain, TransitionOutcome, TransitionValue
from skdecide.builders.domain import *
from skdecide.hub.space.gym import GymSpace
from skdecide.hub.solver.ars.ars import AugmentedRandomSearch
from skdecide.hub.solver.cgp import cgp as C
from skdecide.hub.solver.cgp.pycgp.cgp import CGP
from skdecide.hub.solver.cgp.pycgp.cgpes import CGPES, Evaluator
from harness.api import Sub, require, eq, close

RULE = ('Random feed-forward genomes over the full function library, random grids and inputs; random mutation sequences; random '
        'Box/Discrete/Tuple spaces; short training runs on random one-step domains.')
ASSUMPTIONS = ['a program evaluates one layer per call at least, so its expression value is compared after as many calls with '
               'the same input as it has nodes', 'action spaces are boxes of one dimension, discrete spaces and tuples of discrete '
               'spaces with at least two values']

LIB = C.CGPWrapper._get_default_function_lib(None)
E1 = math.e - 1
REF = dict(sum=lambda a, b: (a + b) / 2, aminus=lambda a, b: abs(a - b) / 2, mult=lambda a, b: a * b,
           exp=lambda a, b: (math.exp(a) - 1) / E1, abs=lambda a, b: abs(a), sqrt=lambda a, b: math.sqrt(abs(a)),
           sqrtxy=lambda a, b: math.sqrt(a * a + b * b) / math.sqrt(2), squared=lambda a, b: a * a,
           pow=lambda a, b: abs(a) ** abs(b), one=lambda a, b: 1.0, zero=lambda a, b: 0.0,
           inv=lambda a, b: 0.0 if a == 0 else math.copysign(1.0, a), gt=lambda a, b: 1.0 if a > b else 0.0,
           asin=lambda a, b: 2 * math.asin(a) / math.pi, acos=lambda a, b: math.acos(a) / math.pi,
           atan=lambda a, b: 4 * math.atan(a) / math.pi, min=lambda a, b: min(a, b), max=lambda a, b: max(a, b),
           round=lambda a, b: float(round(a)), floor=lambda a, b: float(math.floor(a)), ceil=lambda a, b: float(math.ceil(a)))
STEP = {'gt', 'round', 'floor', 'ceil', 'inv'}  # discontinuous: sensitive to rounding of their arguments
NF = len(LIB)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


# ---- evaluation ---------------------------------------------------------------------------------------------------
@st.composite
def genomes(draw):
    ni, no = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    cols, rows = draw(st.integers(1, 6)), draw(st.integers(1, 3))
    g = []
    for k in range(cols * rows):
        lim = ni + (k // rows) * rows - 1
        g += [draw(st.integers(0, NF - 1)), draw(st.integers(0, lim)), draw(st.integers(0, lim))]
    g += [draw(st.one_of(st.integers(0, ni + cols * rows - 1), st.integers(ni, ni + cols * rows - 1))) for _ in range(no)]
    return dict(ni=ni, no=no, cols=cols, rows=rows, genome=g)


@st.composite
def value_cases(draw):
    g = draw(genomes())
    x = st.one_of(st.sampled_from([-1.0, -0.5, 0.0, 0.25, 1.0]), st.integers(-1000, 1000).map(lambda v: v / 1000))
    return dict(g=g, inputs=[[draw(x) for _ in range(g['ni'])] for _ in range(draw(st.integers(1, 3)))])


def make(g):
    return CGP(np.array(g['genome'], dtype=int), g['ni'], g['no'], g['cols'], g['rows'], LIB)


def reference(g, x):
    """Output values, and whether each is numerically delicate (a step function close to its jump)."""
    memo = {}

    def val(i):
        if i < g['ni']:
            return x[i], False
        if i not in memo:
            f, a, b = g['genome'][3 * (i - g['ni']):3 * (i - g['ni']) + 3]
            fn = LIB[f]
            (va, da), (vb, db) = val(a), val(b)
            if fn.arity == 0:
                memo[i] = (REF[fn.name](0, 0), False)
            else:
                v = REF[fn.name](max(-1.0, min(1.0, va)), max(-1.0, min(1.0, vb)))
                d = da or (db and fn.arity == 2)
                if fn.name in STEP and (a >= g['ni'] or b >= g['ni']):
                    near = abs(va - vb) if fn.name == 'gt' else min(abs(va - j / 2) for j in range(-4, 5))
                    d = d or near < 1e-9
                if fn.name in ('pow', 'sqrt', 'asin', 'acos', 'sqrtxy'):
                    d = d or (a >= g['ni'] and min(abs(va), abs(abs(va) - 1)) < 1e-9)
                memo[i] = (v, d)
        return memo[i]
    return [val(o) for o in g['genome'][-g['no']:]]


def value(case, ctx):
    g = case['g']
    prog = make(g)
    depth = g['cols'] * g['rows'] + 1
    for x in case['inputs']:
        for _ in range(depth):
            out = quiet(lambda: prog.run(x))
        eq(len(out), g['no'], 'number of outputs')
        for i, (v, delicate) in enumerate(reference(g, x)):
            if not delicate:
                close(float(out[i]), v, 'output %d of the program for %s' % (i, x), tol=1e-7)
            require(-1 - 1e-9 <= out[i] <= 1 + 1e-9, 'output %d leaves [-1, 1]: %s', i, out[i])
    ctx.nontrivial(any(o >= g['ni'] for o in g['genome'][-g['no']:]))
    ctx.label('rows:%d' % g['rows'])


# ---- mutation, copies, saving ----------------------------------------------------------------------------------------
@st.composite
def mut_cases(draw):
    return dict(g=draw(genomes()), seed=draw(st.integers(0, 10 ** 6)), n=draw(st.integers(1, 12)),
                rates=[draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])), draw(st.sampled_from([0.0, 0.3, 1.0]))], random=draw(st.booleans()))


def valid(p, g, what):
    gen = [int(v) for v in p.genome]
    eq(len(gen), 3 * g['cols'] * g['rows'] + g['no'], 'genome length of ' + what)
    for k in range(g['cols'] * g['rows']):
        f, a, b = gen[3 * k:3 * k + 3]
        lim = g['ni'] + (k // g['rows']) * g['rows']
        require(0 <= f < NF, '%s: function gene %d of node %d', what, f, k)
        require(0 <= a < lim and 0 <= b < lim, '%s: node %d connects to %d, %d, beyond the earlier columns (%d)', what, k, a, b, lim)
    for o in gen[3 * g['cols'] * g['rows']:]:
        require(0 <= o < g['ni'] + g['cols'] * g['rows'], '%s: output gene %d', what, o)
    return gen


def mutation(case, ctx):
    g = case['g']
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    p = CGP.random(g['ni'], g['no'], g['cols'], g['rows'], LIB, 1.0) if case['random'] else make(g)
    first = valid(p, g, 'the parent')
    x = [0.25] * g['ni']
    child = p.clone()
    eq([int(v) for v in child.genome], first, 'genome of the clone')
    child.mutate(case['n'])
    g1 = valid(child, g, 'the mutated program')
    eq([int(v) for v in p.genome], first, 'genome of the parent after its clone was mutated')
    second = child.clone()
    second.mutate_per_gene(*case['rates'])
    g2 = valid(second, g, 'the program mutated per gene')
    eq([int(v) for v in child.genome], g1, 'genome of the parent after its clone was mutated')
    n = 3 * g['cols'] * g['rows']
    if case['rates'][0] == 0:
        eq(g2[:n], g1[:n], 'nodes with a mutation rate of zero')
    if case['rates'][1] == 0:
        eq(g2[n:], g1[n:], 'outputs with a mutation rate of zero')
    quiet(lambda: second.run(x))
    d = tempfile.mkdtemp(prefix='verif_cgp_')
    try:
        second.save(os.path.join(d, 'g.txt'))
        back = CGP.load_from_file(os.path.join(d, 'g.txt'), LIB)
    finally:
        shutil.rmtree(d)
    eq([int(v) for v in back.genome], g2, 'genome read back from a file')
    ref = dict(g, genome=g2)
    eq([float(v) for v in quiet(lambda: back.run(x))], [float(v) for v in quiet(lambda: make(ref).run(x))], 'output of the saved program')
    ctx.nontrivial(g1 != first or g2 != g1)
    ctx.label('rows:%d' % g['rows'])


# ---- evolution --------------------------------------------------------------------------------------------------------
@st.composite
def evo_cases(draw):
    return dict(g=draw(genomes()), seed=draw(st.integers(0, 10 ** 6)), its=draw(st.integers(1, 5)), n=draw(st.integers(1, 4)),
                salt=draw(st.integers(1, 50)), scale=draw(st.sampled_from([1, 64, 4096])))


def evolution(case, ctx):
    g = case['g']
    random.seed(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)

    def score(p):
        return float(sum((i * 7 + case['salt']) * int(v) % 11 for i, v in enumerate(p.genome))) / case.get('scale', 1)
    seen = []

    class Eva(Evaluator):
        def evaluate(self, p, it):
            seen.append((it, score(p)))
            return score(p)

        def clone(self):
            return self
    d = tempfile.mkdtemp(prefix='verif_cgp_')
    try:
        es = CGPES(case['n'], 0.3, 0.5, make(g), Eva(), os.path.join(d, 'out'))
        quiet(lambda: es.run(case['its']))
        es.logfile.close()
    finally:
        shutil.rmtree(d)
    valid(es.father, g, 'the best program')
    eq(score(es.father), max(s for _, s in seen), 'fitness of the program kept, among those evaluated')
    eq(len(seen), 1 + case['its'] * case['n'], 'number of evaluations')
    ctx.nontrivial(score(es.father) > seen[0][1])


# ---- fitness ------------------------------------------------------------------------------------------------------------
@st.composite
def fit_cases(draw):
    g = draw(genomes())
    num = st.integers(-8, 8).map(lambda v: v / 4)
    return dict(g=g, obs=[[draw(st.integers(-4, 4)) / 4 for _ in range(g['ni'])] for _ in range(draw(st.integers(1, 6)))],
                rew=[draw(num) for _ in range(6)], gain=[draw(num) for _ in range(g['no'])], ep=draw(st.integers(1, 3)),
                cap=draw(st.sampled_from([10000, 10000, 2, 4])))


def fitness(case, ctx):
    """The fitness of a program is what it earns when it drives the domain from a reset to the end (or the step limit)."""
    g, n = case['g'], len(case['obs'])
    O = gs.Box(-1, 1, (g['ni'],), np.float32)
    A = gs.Box(-2, 3, (g['no'],), np.float32)
    runs = []

    class D(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, FullyObservable, Rewards):
        def _state_reset(self):
            runs.append([])
            return np.array(case['obs'][0], dtype=np.float32)

        def _state_step(self, action):
            k = len(runs[-1])
            r = case['rew'][k] + float(np.dot(np.asarray(action, dtype=float), case['gain']))
            runs[-1].append(([float(v) for v in action], r))
            return TransitionOutcome(np.array(case['obs'][(k + 1) % n], dtype=np.float32), TransitionValue(reward=r), k + 1 >= n)

        def _get_action_space_(self):
            return GymSpace(A)

        def _get_observation_space_(self):
            return GymSpace(O)
    e = C.SkDecideEvaluator(D(), it_max=case['cap'], ep_max=case['ep'])
    got = float(quiet(lambda: e.evaluate(make(g), 0)))
    steps = min(n, case['cap'])
    eq([len(r) for r in runs], [steps] * case['ep'], 'steps of the episodes run')
    mirror = make(g)
    for r in runs:
        for k, (act, _) in enumerate(r):
            out = quiet(lambda: mirror.run(np.array(case['obs'][k], dtype=np.float32)))
            for j in range(g['no']):
                close(act[j], -2 + 5 * (min(1, max(-1, float(out[j]))) + 1) / 2, 'action %d applied at step %d' % (j, k), 1e-5)
    totals = [sum(v for _, v in r) for r in runs]
    if case['ep'] == 1:
        close(got, totals[0], 'fitness of the program, whose episode earned')
    require(min(totals) - 1e-6 <= got <= max(totals) + 1e-6, 'fitness %r of a program whose episodes earned %r', got, totals)
    ctx.nontrivial(steps > 1 and len({v for r in runs for _, v in r}) > 1)
    ctx.label('capped' if case['cap'] < n else 'ended')


# ---- normalisation -----------------------------------------------------------------------------------------------------
@st.composite
def parts(draw, discrete_only=False):
    if discrete_only or draw(st.booleans()):
        return ['d', draw(st.integers(2, 9))]
    k = draw(st.integers(1, 3))
    low = [draw(st.integers(-8, 7)) for _ in range(k)]
    return ['b', low, [l + draw(st.integers(1, 9)) for l in low]]


@st.composite
def norm_cases(draw):
    ps = [draw(parts()) for _ in range(draw(st.integers(1, 3)))]
    fr = st.integers(0, 64).map(lambda v: v / 64)
    return dict(parts=ps, tuple=len(ps) > 1 or draw(st.booleans()), fr=[[draw(fr) for _ in range(9)] for _ in range(2)])


def space_of(p):
    return gs.Discrete(p[1]) if p[0] == 'd' else gs.Box(np.array(p[1], dtype=np.float32), np.array(p[2], dtype=np.float32), dtype=np.float32)


def norm(case, ctx):
    ps = case['parts']
    spaces = [space_of(p) for p in ps]
    sp = gs.Tuple(spaces) if case['tuple'] else spaces[0]
    for fr in case['fr']:
        it = iter(fr)
        vals, flat, want = [], [], []
        for p in ps:
            if p[0] == 'd':
                v = min(p[1] - 1, int(next(it) * p[1]))
                vals.append(v)
                flat.append(v)
                want.append(-1 + 2 * v / (p[1] - 1))
            else:
                f = [next(it) for _ in p[1]]
                x = [l + (h - l) * q for l, h, q in zip(p[1], p[2], f)]
                vals.append(np.array(x, dtype=np.float32))
                flat += x
                want += [-1 + 2 * q for q in f]
        v = tuple(vals) if case['tuple'] else vals[0]
        got = C.norm_and_flatten(v, sp)
        eq(len(got), len(want), 'number of normalised values')
        for a, b in zip(got, want):
            close(float(a), b, 'normalised value', tol=1e-5)
        back = C.denorm(want, sp)
        back = list(back) if isinstance(back, (list, tuple)) else [back]
        eq(len(back), len(flat), 'number of values after denormalisation')
        for a, b in zip(back, flat):
            close(float(a), b, 'value after normalisation and back', tol=1e-5)
        wild = [w * 7 for w in want]
        out = C.denorm(wild, sp)
        out = list(out) if isinstance(out, (list, tuple)) else [out]
        it = iter(out)
        for p in ps:
            if p[0] == 'd':
                x = next(it)
                require(isinstance(x, (int, np.integer)) and 0 <= x < p[1], 'discrete value %r outside of %s', x, p)
            else:
                for l, h in zip(p[1], p[2]):
                    x = next(it)
                    require(l - 1e-6 <= x <= h + 1e-6, 'value %r outside of [%s, %s]', x, l, h)
    ctx.nontrivial(len(ps) > 1)
    ctx.label(*['part:' + p[0] for p in ps])


# ---- trained policies ---------------------------------------------------------------------------------------------------
@st.composite
def pol_cases(draw):
    act = [draw(parts())] if draw(st.integers(0, 2)) else [draw(parts(discrete_only=True)) for _ in range(2)]
    return dict(obs=[draw(parts())], act=act, algo=draw(st.sampled_from(['ars', 'cgp'])), seed=draw(st.integers(0, 9999)),
                steps=draw(st.integers(1, 3)), its=draw(st.integers(1, 3)), rows=draw(st.integers(1, 2)))


def policy(case, ctx):
    asp = [space_of(p) for p in case['act']]
    A = asp[0] if len(asp) == 1 else gs.Tuple(asp)
    O = space_of(case['obs'][0])
    bad = []

    class D(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, FullyObservable, Rewards):
        def _state_reset(self):
            self.t = 0
            return O.sample()

        def _state_step(self, action):
            self.t += 1
            x = np.asarray(action, dtype=np.float32) if isinstance(A, gs.Box) else tuple(action) if isinstance(A, gs.Tuple) else action
            if not A.contains(x):
                bad.append(action)
            return TransitionOutcome(O.sample(), TransitionValue(reward=float(np.sum(np.asarray(action, dtype=float)))), self.t >= case['steps'])

        def _get_action_space_(self):
            return GymSpace(A)

        def _get_observation_space_(self):
            return GymSpace(O)
    O.seed(case['seed'])
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    S = AugmentedRandomSearch if case['algo'] == 'ars' else C.CGPWrapper
    d = tempfile.mkdtemp(prefix='verif_pol_')
    try:
        require(quiet(lambda: S.check_domain(D())), 'compatible domain is rejected')
        s = S(n_epochs=case['its'], epoch_size=4, directions=3, top_directions=2) if case['algo'] == 'ars' else \
            S(os.path.join(d, 'out'), col=6, row=case['rows'], nb_ind=2, n_it=case['its'], verbose=False)
        quiet(lambda: D.solve_with(s))
        require(not bad, 'an action outside of the action space was applied during training: %r', bad[:1])
        for i in range(6):
            o = O.sample()
            a = quiet(lambda: s.sample_action(o))
            x = np.asarray(a, dtype=np.float32) if isinstance(A, gs.Box) else tuple(a) if isinstance(A, gs.Tuple) else a
            require(A.contains(x), 'action %r for %r is outside of %s', a, o, A)
    finally:
        shutil.rmtree(d)
    ctx.nontrivial()
    ctx.label(case['algo'], 'act:' + ''.join(p[0] for p in case['act']))


@st.composite
def dir_cases(draw):
    return dict(sign=draw(st.sampled_from([1, -1])), k=draw(st.integers(1, 2)), o=draw(st.integers(1, 4)) / 4, epochs=draw(st.integers(1, 4)),
                lr=draw(st.sampled_from([0.02, 0.1])), noise=draw(st.sampled_from([0.03, 0.2])), dirs=draw(st.integers(1, 4)))


def direction(case, ctx):
    """Augmented random search on a domain whose reward is linear in the action moves the action the right way."""
    k = case['k']

    class D(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, FullyObservable, Rewards):
        def _state_reset(self):
            return np.full(1, case['o'], dtype=np.float32)

        def _state_step(self, action):
            return TransitionOutcome(np.full(1, case['o'], dtype=np.float32),
                                     TransitionValue(reward=float(case['sign'] * np.sum(action)) / k), True)

        def _get_action_space_(self):
            return GymSpace(gs.Box(-1, 1, (k,), np.float32))

        def _get_observation_space_(self):
            return GymSpace(gs.Box(-1, 1, (1,), np.float32))
    s = AugmentedRandomSearch(n_epochs=case['epochs'], epoch_size=3, directions=case['dirs'], top_directions=case['dirs'],
                              learning_rate=case['lr'], policy_noise=case['noise'])
    quiet(lambda: D.solve_with(s))
    a = quiet(lambda: s.sample_action(np.full(1, case['o'], dtype=np.float32)))
    require(case['sign'] * float(np.sum(a)) > 0, 'the reward grows with %d times the action, the trained action is %s', case['sign'], a)
    ctx.nontrivial(case['sign'] < 0 or case['epochs'] > 1)
SUBCHECKS = [Sub('program_value', value_cases, value, quick=1500, thorough=15000, rule='some output comes from a node'),
             Sub('mutation', mut_cases, mutation, quick=1200, thorough=12000, rule='a mutation changed the genome'),
             Sub('evolution', evo_cases, evolution, quick=450, thorough=4000, rule='the best program changed'),
             Sub('fitness', fit_cases, fitness, quick=600, thorough=6000, rule='several steps, whose rewards differ'),
             Sub('normalisation', norm_cases, norm, quick=1800, thorough=15000, rule='composite spaces'),
             Sub('trained_policy', pol_cases, policy, quick=450, thorough=4000, rule='all'),
             Sub('search_direction', dir_cases, direction, quick=240, thorough=1000, rule='decreasing reward or several updates')]
