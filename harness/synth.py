"""A small synthetic optimisation problem whose scores are defined by tables (oracle: `score`)."""
import numpy as np
from hypothesis import strategies as st
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (
    Problem, Solution, EncodingRegister, ObjectiveRegister, TypeAttribute, TypeObjective, ObjectiveHandling, ModeOptim)

PARTS = ('perm', 'ints', 'bits')


def plain(x):
    return [int(i) for i in x]


def score(spec, perm, ints, bits):
    """Definition of the scores: {objective: value}."""
    res = {}
    for k in range(spec['nobj']):
        t = spec['tables'][k]
        n = len(perm)
        v = 0
        for i, x in enumerate(perm):
            v += t[(3 * i + 5 * x + i * x) % len(t)]
        for i, x in enumerate(ints):
            v += t[(7 * i + 2 * x) % len(t)]
        for i, x in enumerate(bits):
            v += x * t[(11 * i + n) % len(t)]
        res['abc'[k]] = v
    return res


class SynSol(Solution):
    def __init__(self, problem, perm=None, ints=None, bits=None):
        self.problem = problem
        self.perm = perm if perm is not None else list(problem.fixed['perm'])
        self.ints = ints if ints is not None else list(problem.fixed['ints'])
        self.bits = bits if bits is not None else list(problem.fixed['bits'])

    def copy(self):
        return SynSol(self.problem, list(self.perm), list(self.ints), list(self.bits))

    def lazy_copy(self):
        return SynSol(self.problem, self.perm, self.ints, self.bits)

    def change_problem(self, new_problem):
        self.problem = new_problem

    def enc(self):
        return dict(perm=plain(self.perm), ints=plain(self.ints), bits=plain(self.bits))


class SynProblem(Problem):
    """first: position of the parts in the register (the first one is the default encoding of genetic algorithms)."""

    def __init__(self, spec, order=PARTS, base=1, int_type=TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY, sense=ModeOptim.MAXIMIZATION,
                 handling=ObjectiveHandling.AGGREGATE, default_weights=None, prefix=''):
        self.spec, self.order, self.base, self.int_type = spec, order, base, int_type
        self.prefix = prefix
        self.sense, self.handling = sense, handling
        self.default_weights = default_weights or [1] * spec['nobj']
        self.fixed = dict(perm=list(range(spec['n'])), ints=[base] * spec['m'], bits=[0] * spec['b'])
        self.log = []  # every solution scored: (encodings, scores)

    def evaluate(self, s):
        e = s.enc()
        v = score(self.spec, **e)
        self.log.append((e, v))
        return v

    def evaluate_from_encoding(self, vector, name):
        return self.evaluate(SynSol(self, **{name: list(vector)}))

    def satisfy(self, s):
        return valid(self, s.enc())

    def get_dummy_solution(self):
        return SynSol(self)

    def set_fixed_attributes(self, name, sol):
        name = name[len(self.prefix):]
        self.fixed[name] = list(getattr(sol, name))

    def get_solution_type(self):
        return SynSol

    def get_attribute_register(self):
        sp = self.spec
        d = dict(perm={'name': 'perm', 'type': [TypeAttribute.PERMUTATION], 'range': range(sp['n']), 'n': sp['n']},
                 ints={'name': 'ints', 'type': [self.int_type], 'n': sp['m'], 'arrities': list(sp['ar']), 'arrity': max(sp['ar'], default=1)},
                 bits={'name': 'bits', 'type': [TypeAttribute.LIST_BOOLEAN], 'n': sp['b']})
        return EncodingRegister({self.prefix + k: d[k] for k in self.order})

    def get_objective_register(self):
        return ObjectiveRegister(objective_sense=self.sense, objective_handling=self.handling,
                                 dict_objective_to_doc={'abc'[k]: {'type': TypeObjective.OBJECTIVE, 'default_weight': self.default_weights[k]}
                                                        for k in range(self.spec['nobj'])})


def valid(p, e):
    sp = p.spec
    return sorted(e['perm']) == list(range(sp['n'])) and len(e['ints']) == sp['m'] and len(e['bits']) == sp['b'] \
        and all(p.base <= x < p.base + a for x, a in zip(e['ints'], sp['ar'])) and set(e['bits']) <= {0, 1}


@st.composite
def specs(draw, nobj=None, min_size=1, max_size=7):
    n, m, b = [draw(st.integers(min_size, max_size)) for _ in range(3)]
    if min_size == 1 and max_size == 7 and draw(st.integers(0, 4)) == 0:
        b = draw(st.integers(8, 16))
    return dict(n=n, m=m, b=b, ar=[draw(st.integers(1, 4)) for _ in range(m)], nobj=nobj or draw(st.integers(1, 3)),
                tables=[draw(st.lists(st.integers(-9, 9), min_size=5, max_size=13)) for _ in range(3)])


@st.composite
def starts(draw, sp, base=1):
    return dict(perm=list(draw(st.permutations(range(sp['n'])))), ints=[draw(st.integers(base, base + a - 1)) for a in sp['ar']],
                bits=[draw(st.integers(0, 1)) for _ in range(sp['b'])])


def make(p, e):
    return SynSol(p, list(e['perm']), list(e['ints']), list(e['bits']))


def dominates(u, v):
    """u at least as good everywhere and better somewhere (larger is better)."""
    return all(x >= y for x, y in zip(u, v)) and any(x > y for x, y in zip(u, v))
