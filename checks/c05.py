"""C05: solver/domain compatibility and the solver life cycle."""
import itertools
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

import skdecide
from skdecide import (Domain, Solver, Memory, DiscreteDistribution, SingleValueDistribution, ImplicitDistribution,
                      RLDomain, MultiAgentRLDomain, StatelessSimulatorDomain, MDPDomain, POMDPDomain, GoalMDPDomain,
                      GoalPOMDPDomain, DeterministicPlanningDomain)
from skdecide.builders.solver import (Policies, UncertainPolicies, DeterministicPolicies, Utilities, QValues, Restorable)
from skdecide.utils import match_solvers
from harness.api import Sub, require, eq, raises
from harness.tabledomain import Model, make_domain, specs, raw_action, raw_memory, mem, CHAINS, CLS
from checks.c02 import characteristics

RULE = ('Random solver requirements (a level per characteristic, optional characteristics, alternate base classes, '
        'additional requirement) against random domains; recording solvers driven through solve/solve_with/query calls.')
ASSUMPTIONS = ['queries are made at the level of the domain the solver was solved with']

OPT = ['Goals', 'Constrained', 'Renderable']
ALT = dict(RLDomain=('SingleAgent', 'Sequential', 'Environment', 'Actions', 'Initializable', 'Markovian', 'TransformedObservable', 'Rewards'),
           MultiAgentRLDomain=('MultiAgent', 'Sequential', 'Environment', 'Actions', 'Initializable', 'Markovian', 'TransformedObservable', 'Rewards'),
           StatelessSimulatorDomain=('SingleAgent', 'Sequential', 'Simulation', 'Actions', 'Markovian', 'TransformedObservable', 'Rewards'),
           MDPDomain=('SingleAgent', 'Sequential', 'EnumerableTransitions', 'Actions', 'DeterministicInitialized', 'Markovian', 'FullyObservable', 'Rewards'),
           POMDPDomain=('SingleAgent', 'Sequential', 'EnumerableTransitions', 'Actions', 'UncertainInitialized', 'Markovian', 'PartiallyObservable', 'Rewards'),
           GoalMDPDomain=('SingleAgent', 'Sequential', 'EnumerableTransitions', 'Actions', 'Goals', 'DeterministicInitialized', 'Markovian', 'FullyObservable', 'PositiveCosts'),
           GoalPOMDPDomain=('SingleAgent', 'Sequential', 'EnumerableTransitions', 'Actions', 'Goals', 'UncertainInitialized', 'Markovian', 'PartiallyObservable', 'PositiveCosts'),
           DeterministicPlanningDomain=('SingleAgent', 'Sequential', 'DeterministicTransitions', 'Actions', 'Goals', 'DeterministicInitialized', 'Markovian', 'FullyObservable', 'PositiveCosts'))


def chain_of(name):
    for k, c in CHAINS.items():
        if name in c:
            return k, c.index(name)
    return name, 0


def offers(names):
    """characteristic -> level offered (absent optional characteristics are absent)."""
    base = dict(agent=0, conc=0, dyn=0, events=0, memory=0, obs=0, value=0)
    for n in names:
        k, l = chain_of(n)
        base[k] = max(base.get(k, 0), l)
    return base


def comp(domain_names, req_names):
    d, r = offers(domain_names), offers(req_names)
    return all(k in d and d[k] >= l for k, l in r.items())


def bases_of(names):
    return [Domain] + [CLS[n] for n in names if CLS[n] not in Domain.__mro__]


@st.composite
def charset(draw, hard):
    """A list of characteristic names; biased towards weak requirements when not hard."""
    out = []
    for k, c in CHAINS.items():
        if k == 'init' and draw(st.booleans()):
            continue
        if hard or draw(st.integers(0, 2)) == 0:
            out.append(draw(st.sampled_from(c)))
    for o in OPT:
        if draw(st.integers(0, 3)) <= (2 if hard else 0):
            out.append(o)
    return out


@st.composite
def match_cases(draw):
    sol = []
    for _ in range(draw(st.integers(1, 5))):
        alt = draw(st.one_of(st.none(), st.none(), st.sampled_from(sorted(ALT))))
        sol.append(dict(alt=alt, req=draw(charset(False)), extra=draw(st.sampled_from(['ok', 'ok', 'no', 'flag']))))
    dalt = draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(sorted(ALT))))
    return dict(dom=draw(charset(True)) if dalt is None else draw(charset(False)), dalt=dalt, flag=draw(st.booleans()), sol=sol)


def effective(alt, names):
    return list(ALT[alt] if alt else []) + list(names)


def build_domain_class(alt, names):
    if alt is None:
        return type('GenDomain', tuple(bases_of(names)), {})
    base = getattr(skdecide, alt)
    more = [CLS[n] for n in names if CLS[n] not in base.__mro__]
    # keep only refinements, each chain at most once (what a user can write)
    return type('GenDomain', (base,) + tuple(more), {})


def check_match(case, ctx):
    dcls = build_domain_class(case['dalt'], case['dom'])
    dcls.flag = case['flag']
    dom = dcls()
    dnames = effective(case['dalt'], case['dom'])
    solvers, want = [], []
    for i, s in enumerate(case['sol']):
        rcls = build_domain_class(s['alt'], s['req'])

        class Sol(Solver):
            T_domain = rcls
            extra = s['extra']

            @classmethod
            def _check_domain_additional(cls, domain):
                return {'ok': True, 'no': False, 'flag': domain.flag}[cls.extra]
        ok = comp(dnames, effective(s['alt'], s['req'])) and {'ok': True, 'no': False, 'flag': case['flag']}[s['extra']]
        eq(bool(Sol.check_domain(dom)), ok, 'solver %d requiring %r (%s) on a domain with %r' % (
            i, effective(s['alt'], s['req']), s['extra'], dnames))
        solvers.append(Sol)
        want.append(ok)
    got = match_solvers(dom, solvers)
    require(sorted(map(id, got)) == sorted(id(c) for c, w in zip(solvers, want) if w),
            'match_solvers returned %r, compatible ones are %r', [solvers.index(g) for g in got],
            [i for i, w in enumerate(want) if w])
    ctx.nontrivial(any(c for c in want) and not all(want) or len(want) == 1)
    ctx.label('compatible' if any(want) else 'none')


# ---- life cycle -------------------------------------------------------------------------------------------------
@st.composite
def life_cases(draw):
    ch = draw(characteristics(memory=st.sampled_from(['History', 'FiniteHistory', 'Markovian']),
                              dyn=st.sampled_from(['EnumerableTransitions', 'DeterministicTransitions'])))
    spec = draw(specs(ch=ch))
    M = Model(spec)
    gen = dict(m=M.hist or draw(st.booleans()), a=M.multi or draw(st.booleans()), c=M.par or draw(st.booleans()))
    ops = draw(st.lists(st.tuples(st.sampled_from(['sample', 'defined', 'dist', 'next', 'utility', 'q', 'solve_from', 'reset', 'roll']),
                                  st.integers(0, M.n - 1), raw_action(spec, M), raw_memory(spec, M)).map(list), min_size=1, max_size=6))
    return dict(spec=spec, gen=gen, ops=ops, kind=draw(st.sampled_from(['uncertain', 'det', 'implicit'])),
                how=draw(st.sampled_from(['solve_with', 'solve_with_factory', 'load', 'solve'])), exc=draw(st.booleans()),
                table=draw(st.lists(st.lists(st.tuples(st.integers(0, M.na - 1), st.integers(1, 3)).map(list), min_size=1, max_size=3),
                                    min_size=4, max_size=4)))


def key(o):
    """An index of an observation at any level."""
    if isinstance(o, dict):
        return sum((i + 1) * o[k] for i, k in enumerate(sorted(o)))
    return o


def check_life(case, ctx):
    import random
    spec, g = case['spec'], case['gen']
    M = Model(spec)
    cls = make_domain(spec)
    made, log = [], []

    class Dom(cls):
        def __init__(self):
            made.append(self)
    req = [Domain, CLS['MultiAgent' if g['a'] else 'SingleAgent'], CLS['Parallel' if g['c'] else 'Sequential'],
           CLS['History' if g['m'] else 'Markovian']]
    rcls = type('Req', tuple([Domain] + [c for c in req[1:] if c not in Domain.__mro__]), {})
    table = case['table']

    def gen_action(a_index, observation):
        """The policy's action at the solver's level."""
        one = [a_index] if g['c'] else a_index
        if not g['a']:
            return one
        ks = M.agents if M.multi else ['agent']
        return {k: one for k in ks}

    class Base(Solver):
        T_domain = rcls

        def _solve_domain(self, domain_factory):
            d1, d2 = domain_factory(), domain_factory()
            log.append(('solve', d1 is not d2, d1))
            self.dom = d1
            # level of what a cast domain answers
            log.append(('obs', d1.reset()))
            log.append(('app', d1.get_applicable_actions()))
            log.append(('mem', d1._memory))

        def _solve_from(self, memory):
            log.append(('from', memory))

        def _reset(self):
            log.append(('reset',))

        def _initialize(self):
            log.append(('init',))

        def _cleanup(self):
            log.append(('clean',))

        def _row(self, o):
            log.append(('o', o))
            return table[key(o) % len(table)]

        def _is_policy_defined_for(self, o):
            return key(o) % 2 == 0

        def _get_utility(self, o):
            log.append(('o', o))
            return key(o) + 0.5

        def _get_q_value(self, o, a):
            log.append(('oa', o, a))
            return key(o) * 10.0

        def _save(self, path):
            json.dump(table, open(path, 'w'))

        def _load(self, path, domain_factory):
            self.loaded = json.load(open(path))
            self._solve_domain(domain_factory)

    if case['kind'] == 'det':
        bases = (Base, DeterministicPolicies, QValues, Restorable)
        ns = {'_get_next_action': lambda self, o: gen_action(self._row(o)[0][0], o)}
    elif case['kind'] == 'uncertain':
        bases = (Base, UncertainPolicies, QValues, Restorable)
        ns = {'_get_next_action_distribution': lambda self, o: DiscreteDistribution(
            [(gen_action(a, o), w) for a, w in self._row(o)])}
    else:
        bases = (Base, Policies, QValues, Restorable)
        ns = {'_sample_action': lambda self, o: gen_action(self._row(o)[0][0], o)}
    Sol = type('Sol', bases, ns)
    require(Sol.check_domain(cls()), 'solver at a more general level is not compatible')
    tmp = tempfile.mkdtemp(prefix='verif_life_')
    try:
        sol = Sol()
        boom = RuntimeError('x')
        try:
            with sol as entered:
                require(entered is sol, 'the with statement gave %r', entered)
                if case['how'] == 'solve_with':
                    r = Dom.solve_with(sol)
                elif case['how'] == 'solve_with_factory':
                    r = Dom.solve_with(sol, domain_factory=lambda: Dom())
                elif case['how'] == 'load':
                    path = os.path.join(tmp, 's')
                    sol.save(path)
                    r = Dom.solve_with(sol, load_path=path)
                    eq(sol.loaded, table, 'what was loaded')
                else:
                    sol.solve(Dom)
                    skdecide.autocast_all(sol, sol.T_domain, Dom)
                    r = sol
                require(r is sol, 'solve_with returned %r', r)
                queries(case, ctx, M, sol, log, g, Dom)
                if case['exc']:
                    raise boom
        except RuntimeError as e:
            if e is not boom:
                raise
        eq(len([e for e in log if e[0] == 'init']), 1, 'initialisations')
        eq(len([e for e in log if e[0] == 'clean']), 1, 'clean-ups')
        eq(log[-1][0], 'clean', 'last event')
        eq(log[0][0], 'init', 'first event')
    finally:
        shutil.rmtree(tmp)
    sv = [e for e in log if e[0] == 'solve']
    eq(len(sv), 1, 'times solved')
    require(sv[0][1], 'the domain factory returned the same domain twice')
    eq(len(made), 2 if case['how'] != 'roll' else 3, 'domains made for solving')
    # the domain seen by the solver is at the solver's level
    o = [e for e in log if e[0] == 'obs'][0][1]
    if g['a']:
        require(isinstance(o, dict) and set(o) == set(M.agents if M.multi else ['agent']), 'observation seen by the solver: %r', o)
    app = [e for e in log if e[0] == 'app'][0][1]
    require(isinstance(app, dict) == g['a'], 'applicable actions seen by the solver: %r', app)
    ctx.nontrivial(dict(m=M.hist, a=M.multi, c=M.par) != g)
    ctx.label(case['kind'], case['how'])


def queries(case, ctx, M, sol, log, g, Dom):
    table = case['table']
    for op, s, act, rm in case['ops']:
        o = M.obs(s, None)[0][0]
        up = o if (M.multi or not g['a']) else {'agent': o}
        row = table[key(up) % len(table)]

        def dom_action(a):
            one = [a] if M.par else a
            return {k: one for k in M.agents} if M.multi else one
        n0 = len(log)
        if op == 'sample':
            x = sol.sample_action(o)
            ok = [dom_action(a) for a, _ in row] if case['kind'] == 'uncertain' else [dom_action(row[0][0])]
            require(x in ok, 'sampled action %r at %r, policy allows %r', x, o, ok)
            eq(log[n0], ('o', up), 'observation seen by the policy')
        elif op == 'defined':
            eq(bool(sol.is_policy_defined_for(o)), key(up) % 2 == 0, 'policy defined at %r' % (o,))
        elif op == 'dist' and case['kind'] != 'implicit':
            d = sol.get_next_action_distribution(o)
            if case['kind'] == 'det':
                require(isinstance(d, SingleValueDistribution), 'deterministic policy distribution %r', d)
                eq(d.get_value(), dom_action(row[0][0]), 'only action')
            else:
                eq([tuple(v) for v in d.get_values()], [(dom_action(a), w) for a, w in row], 'action distribution')
        elif op == 'next' and case['kind'] == 'det':
            eq(sol.get_next_action(o), dom_action(row[0][0]), 'next action')
        elif op == 'utility':
            eq(sol.get_utility(o), key(up) + 0.5, 'utility')
        elif op == 'q':
            eq(sol.get_q_value(o, act), key(up) * 10.0, 'q value')
            a = act
            if g['c'] and not M.par:
                a = {k: [v] for k, v in act.items()} if M.multi else [act]
            if g['a'] and not M.multi:
                a = {'agent': a}
            eq(log[n0], ('oa', up, a), 'q value arguments seen by the solver')
        elif op == 'solve_from':
            given = mem(M, rm)
            sol.solve_from(given)
            want = given if (M.hist or not g['m']) else Memory([given])
            require(log[n0][0] == 'from' and type(log[n0][1]) is type(want) and log[n0][1] == want,
                    'starting memory seen by the solver: %r, expected %r', log[n0][1], want)
        elif op == 'reset':
            sol.reset()
            eq(log[n0:], [('reset',)], 'reset')


SUBCHECKS = [
    Sub('compatibility', match_cases, check_match, quick=3600, thorough=12000,
        rule='1-5 solvers against one domain; non-trivial: some but not all compatible, or a single solver'),
    Sub('life_cycle', life_cases, check_life, quick=2100, thorough=7000, rule='non-trivial: solver level differs from the domain level'),
]
