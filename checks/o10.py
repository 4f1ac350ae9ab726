"""O10: mutations of solutions, the moves they return, and copies."""
import random
from copy import deepcopy

from hypothesis import strategies as st

from harness import dodomain as dd, rcpspdomain as rd, synth
from harness.api import Sub, require, eq, close
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ObjectiveHandling
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_catalog import get_available_mutations
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation, BasicPortfolioMutationTrack
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import (
    PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackSolution
from skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack import MutationKnapsack, KnapsackMutationSingleBitFlip
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp.mutations.mutation_rcpsp import PermutationMutationRCPSP
from skdecide.builders.discrete_optimization.tsp.tsp_model import SolutionTSP
from skdecide.builders.discrete_optimization.tsp.mutation.mutation_tsp import Mutation2Opt, Mutation2OptIntersection, MutationSwapTSP

RULE = ('Histories of mutations (each kind, and portfolios of them), undos, redos and copies from a generated solution of a synthetic, knapsack, travelling salesman or project problem; '
        'non-trivial: at least two undone moves which changed the encoding, one of them after another undone move.')
ASSUMPTIONS = ['moves are undone last one first, one at a time in histories mixing moves in place, on copies, and back to solutions kept', 'moves may work in place: only full copies made before are claimed untouched',
               'integer values are counted from 1, as the integer mutation does']


class Synth:
    parts = synth.PARTS

    def __init__(self, k):
        self.spec = k['spec']
        self.p = synth.SynProblem(self.spec)
        self.sol = synth.make(self.p, k['start'])

    def enc(self, s):
        return s.enc()

    def check_score(self, got, e, what):
        eq(dict(got), synth.score(self.spec, **e), what)

    def valid(self, e):
        return synth.valid(self.p, e)

    def menu(self, x):
        p, s = self.p, self.sol
        n, m, b = self.spec['n'], self.spec['m'], self.spec['b']
        q = x['q']
        return [('shuffle', PermutationShuffleMutation.build(p, s), {'perm'}, n),
                ('partial', PermutationPartialShuffleMutation.build(p, s, proportion=q), {'perm'}, int(q * n)),
                ('partial', PermutationPartialShuffleMutation(p, s, attribute='perm', proportion=q), {'perm'}, int(q * n)),
                ('swap', PermutationSwap.build(p, s, nb_swap=x['nb']), {'perm'}, 2 * x['nb']),
                ('2opt', TwoOptMutation.build(p, s), {'perm'}, n),
                ('flip', MutationBitFlip.build(p, s, probability_flip=q), {'bits'}, b if q > 0 else 0),
                ('integers', MutationIntegerSpecificArrity.build(p, s, probability_flip=q), {'ints'}, m if q > 0 else 0),
                ('integers', MutationIntegerSpecificArrity(p, attribute='ints', arrities=list(self.spec['ar']), probability_flip=q), {'ints'}, m)]


class Knap:
    parts = ('list_taken',)

    def __init__(self, k):
        self.c = k['spec']
        self.p = dd.build_knapsack(self.c)
        self.sol = KnapsackSolution(problem=self.p, list_taken=list(k['start']))

    def enc(self, s):
        return {'list_taken': [int(i) for i in s.list_taken]}

    def check_score(self, got, e, what):
        want, _ = dd.ref_knapsack(self.c, e['list_taken'])
        keys = set(self.p.get_objective_register().dict_objective_to_doc)
        require(keys <= set(got), '%s: objectives %r are missing', what, keys - set(got))
        eq({x: got[x] for x in keys}, {x: want[x] for x in keys}, what)

    def valid(self, e):
        return len(e['list_taken']) == len(self.c['items']) and set(e['list_taken']) <= {0, 1}

    def menu(self, x):
        p, s, n = self.p, self.sol, len(self.c['items'])
        a = {'list_taken'}
        return [('knapsack', MutationKnapsack.build(p, s), a, 1),
                ('single flip', KnapsackMutationSingleBitFlip.build(p, s), a, 1),
                ('flip', MutationBitFlip.build(p, s, probability_flip=x['q']), a, n if x['q'] > 0 else 0)]


class Tsp:
    parts = ('permutation',)

    def __init__(self, k):
        self.c = k['spec']
        self.p = dd.build_tsp(self.c)
        self.sol = SolutionTSP(start_index=self.c['start'], end_index=self.c['end'], problem=self.p, permutation=list(k['start']))

    def enc(self, s):
        return {'permutation': [int(i) for i in s.permutation]}

    def check_score(self, got, e, what):
        close(got['length'], dd.ref_tsp(self.c, e['permutation'])[1], what, 1e-6)

    def valid(self, e):
        return sorted(e['permutation']) == dd.inner(self.c)

    def menu(self, x):
        p, s, n = self.p, self.sol, len(dd.inner(self.c))
        a = {'permutation'}
        return [('2opt tsp', Mutation2Opt.build(p, s, test_all=x['all'], nb_test=x['nb']), a, n),
                ('2opt tsp improving', Mutation2Opt.build(p, s, test_all=x['all'], nb_test=x['nb'], return_only_improvement=True), a, n),
                ('2opt intersection', Mutation2OptIntersection.build(p, s, return_only_improvement=x['all']), a, n),
                ('swap tsp', MutationSwapTSP.build(p, s), a, 2)]


class Rcpsp:
    parts = ('rcpsp_permutation', 'rcpsp_modes')

    def __init__(self, k):
        self.c = k['spec']
        self.p = rd.build(self.c)
        e = k['start']
        self.sol = RCPSPSolution(problem=self.p, rcpsp_permutation=list(e['perm']), rcpsp_modes=list(e['modes']))

    def enc(self, s):
        return {'rcpsp_permutation': [int(i) for i in s.rcpsp_permutation], 'rcpsp_modes': [int(i) for i in s.rcpsp_modes]}

    def check_score(self, got, e, what):
        modes = e['rcpsp_modes']
        ref = rd.sgs(self.c, e['rcpsp_permutation'], modes)
        if ref is None:
            require(got['makespan'] >= 9999999 and got['mean_resource_reserve'] == 0, '%s: infeasible but scored %r', what, got)
        else:
            end = max(x[1] for x in ref.values())
            eq(got['makespan'], end, what + ': makespan')
            r = rd.reserve(self.c, ref, modes, end)
            if r is not None:
                close(float(got['mean_resource_reserve']), r, what + ': reserve')

    def valid(self, e):
        return sorted(e['rcpsp_permutation']) == list(range(self.c['n'])) and len(e['rcpsp_modes']) == self.c['n'] \
            and all(1 <= m <= len(ms) for m, ms in zip(e['rcpsp_modes'], self.c['modes']))

    def menu(self, x):
        p, s, n = self.p, self.sol, self.c['n']
        a = {'rcpsp_permutation'}
        P = PermutationMutationRCPSP.build
        res = [('shuffle', P(p, s, other_mutation=PermutationShuffleMutation), a, n),
               ('default', P(p, s), a, n),
               ('partial', P(p, s, other_mutation=PermutationPartialShuffleMutation, proportion=x['q']), a, int(x['q'] * n)),
               ('swap', P(p, s, other_mutation=PermutationSwap, nb_swap=x['nb']), a, 2 * x['nb']),
               ('2opt', P(p, s, other_mutation=TwoOptMutation), a, n),
               ('plain swap', PermutationSwap.build(p, s, nb_swap=x['nb']), a, 2 * x['nb']),
               ('plain 2opt', TwoOptMutation.build(p, s), a, n)]
        if self.c['kind'] == 'multi':
            res += [('modes', P(p, s, other_mutation=MutationIntegerSpecificArrity, probability_flip=x['q']), {'rcpsp_modes'}, n if x['q'] > 0 else 0),
                    ('plain modes', MutationIntegerSpecificArrity.build(p, s, probability_flip=x['q']), {'rcpsp_modes'}, n)]
        return res


def catalog(w):
    """The mutations the catalogue offers for the problem."""
    by_type, listed = get_available_mutations(w.p, w.sol, verbose=False)
    require(len(listed) == sum(len(x) for x in by_type.values()) and listed, 'the catalogue lists %d mutations', len(listed))
    res = []
    for m, kw in sorted(listed, key=lambda y: (y[0].__name__, sorted(map(str, y[1].items())))):
        n = {k: v for k, v in kw.items() if k != 'other_mutation'}
        try:
            name = 'catalogue ' + (kw.get('other_mutation') or m).__name__
        except AttributeError:
            name = 'catalogue'
        res.append((name, m.build(w.p, w.sol, **kw), None, 2 * n['nb_swap'] if 'nb_swap' in n else 99))
    return res


def KINDS(name):
    name = name.lower()
    if 'singlebit' in name or 'single flip' in name or 'shuffle' in name or 'partial' in name or name == 'default':
        return {'F'}
    if 'integer' in name or 'modes' in name or '2opt tsp' in name or 'intersection' in name or name.endswith('mutation2opt'):
        return {'D'}
    return {'I', 'D'} if 'knapsack' in name or 'tsp' in name else {'I'}


WORLDS = {'synth': Synth, 'knapsack': Knap, 'tsp': Tsp, 'rcpsp': Rcpsp}


def ops():
    return st.lists(st.one_of(
        st.tuples(st.sampled_from(['mutate', 'mutate', 'score', 'score', 'score', 'undo', 'undo', 'redo', 'copy', 'eval']), st.integers(0, 99)).map(list)),
        min_size=3, max_size=14)


@st.composite
def extras(draw):
    return dict(q=draw(st.sampled_from([0.0, 0.2, 0.3, 0.5, 1.0])), nb=draw(st.integers(1, 4)), all=draw(st.booleans()),
                how=draw(st.sampled_from(['each', 'each', 'catalogue', 'portfolio', 'track'])),
                w=[draw(st.integers(0, 3)) for _ in range(10)])


def cases(world):
    @st.composite
    def gen(draw):
        if world == 'synth':
            spec = draw(synth.specs())
            start = draw(synth.starts(spec))
        elif world == 'knapsack':
            spec = draw(dd.knapsack())
            start = [draw(st.integers(0, 1)) for _ in spec['items']]
        elif world == 'tsp':
            spec = draw(dd.tsp())
            spec['numba'] = False
            start = list(draw(st.permutations(dd.inner(spec))))
        else:
            spec = draw(rd.instances(kinds=('single', 'multi', 'multi', 'calendar'), max_n=5))
            start = draw(rd.vectors(spec, False))
        return dict(world=world, spec=spec, start=start, x=draw(extras()), ops=draw(ops()))
    return gen


def changed(a, b):
    return sum(x != y for k in a for x, y in zip(a[k], b[k]))


def check(k, ctx):
    w = WORLDS[k['world']](k)
    x = k['x']
    menu = catalog(w) if x['how'] == 'catalogue' else w.menu(x)
    ctx.label(x['how'])
    names = None
    if x['how'] in ('portfolio', 'track'):
        ws = (x['w'] * 3)[:len(menu)]
        if not any(ws):
            ws[0] = 1
        cls = BasicPortfolioMutation if x['how'] == 'portfolio' else BasicPortfolioMutationTrack
        m = cls([y[1] for y in menu], list(ws))
        used = [y for y, v in zip(menu, ws) if v > 0]
        names = [y[0] for y in used]
        menu = [(x['how'], m, set().union(*[y[2] for y in used]), max(y[3] for y in used))]
    sol = w.sol
    # moves which hand back solutions kept earlier (D) can follow moves in place (I) or on copies (F), but not both
    kinds = set().union(*[KINDS(y[0] if x['how'] not in ('portfolio', 'track') else z) for op, i in k['ops'] if op in ('mutate', 'score')
                          for y in [menu[i % len(menu)]] for z in (names or [y[0]])], set())
    deep = not kinds >= {'F', 'I', 'D'}
    ctx.label('deep' if deep else 'one by one')
    e = w.enc(sol)
    stack, redo, copies, undone = [], [], [], 0
    for op, i in k['ops']:
        if op in ('mutate', 'score'):
            name, m, parts, limit = menu[i % len(menu)]
            if op == 'score':
                new, move, got = m.mutate_and_compute_obj(sol)
            else:
                new, move = m.mutate(sol)
            f = w.enc(new)
            require(w.valid(f), '%s gave %r, which is no solution', name, f)
            touched = {a for a in w.parts if f[a] != e[a]}
            if parts is not None:
                require(touched <= parts, '%s altered %r', name, touched)
            else:
                require(len(touched) <= 1, '%s altered %r', name, touched)
            require(changed(e, f) <= limit, '%s changed %d values, at most %d were expected (%r -> %r)', name, changed(e, f), limit, e, f)
            if op == 'score':
                w.check_score(got, f, name + ': score reported')
            if not deep:
                stack = []
            stack.append((move, e, f, name))
            sol, e, redo = new, f, []
            ctx.label(name)
        elif op == 'undo' and stack:
            move, e0, f, name = stack.pop()
            sol = move.backtrack_local_move(sol)
            eq(w.enc(sol), e0, 'solution after undoing ' + name)
            w.check_score(w.p.evaluate(sol), e0, 'score after undoing ' + name)
            redo.append((move, e0, f, name))
            e = e0
            undone += e0 != f
        elif op == 'redo' and redo:
            move, e0, f, name = redo.pop()
            sol = move.apply_local_move(sol)
            eq(w.enc(sol), f, 'solution after applying again ' + name)
            w.check_score(w.p.evaluate(sol), f, 'score after applying again ' + name)
            stack.append((move, e0, f, name))
            e = f
        elif op == 'copy':
            copies.append((sol.copy(), deepcopy(e)))
        elif op == 'eval':
            w.check_score(w.p.evaluate(sol), e, 'score')
            eq(w.enc(sol), e, 'solution after its evaluation')
    while stack:
        move, e0, f, name = stack.pop()
        sol = move.backtrack_local_move(sol)
        eq(w.enc(sol), e0, 'solution after undoing ' + name)
        w.check_score(w.p.evaluate(sol), e0, 'score after undoing ' + name)
        undone += e0 != f
    for s, e0 in copies:
        eq(w.enc(s), e0, 'copy made before')
        w.check_score(w.p.evaluate(s), e0, 'score of the copy made before')
    ctx.nontrivial(undone >= 2)


SUBCHECKS = [
    Sub('synthetic', cases('synth'), check, 3000),
    Sub('knapsack', cases('knapsack'), check, 2400),
    Sub('salesman', cases('tsp'), check, 2400),
    Sub('projects', cases('rcpsp'), check, 2000),
]
