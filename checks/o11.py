"""O11: local search and evolutionary search against a record of everything they evaluate."""
from hypothesis import strategies as st

from harness import dodomain as dd, rcpspdomain as rd, synth
from harness.api import Sub, require, eq, close
from checks import o10
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (
    ModeOptim, ObjectiveHandling, ParamsObjectiveFunction, TypeAttribute, get_default_objective_setup)
from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import HillClimber, HillClimberPareto
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import ModeMutation, RestartHandler, RestartHandlerLimit
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import SimulatedAnnealing, TemperatureSchedulingFactor
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import (
    PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip
from skdecide.builders.discrete_optimization.generic_tools.ea.ga import Ga, DeapCrossover, DeapMutation, DeapSelection
from skdecide.builders.discrete_optimization.generic_tools.ea.nsga import Nsga
from skdecide.builders.discrete_optimization.generic_tools.ea.alternating_ga import AlternatingGa

RULE = ('Runs of 0-40 iterations (or 4-120 evaluations) from generated starts on synthetic, knapsack, travelling salesman and project problems, with each acceptance, restart, storage and operator option; '
        'non-trivial: the best solution was found strictly after the start and is not the last one evaluated.')
ASSUMPTIONS = ['genetic algorithms: encodings of at least two values, integers from 0', 'scores are finite', 'fewer solutions than the storage limit of 1000']

MAX, MIN = ModeOptim.MAXIMIZATION, ModeOptim.MINIMIZATION


class Spy(Mutation):
    """Records what a mutation is given and gives."""

    def __init__(self, inner, enc):
        self.inner, self.enc, self.trace = inner, enc, []

    def mutate(self, s):
        before = self.enc(s)
        new, move = self.inner.mutate(s)
        self.trace.append((before, self.enc(new)))
        return new, move

    def mutate_and_compute_obj(self, s):
        before = self.enc(s)
        new, move, obj = self.inner.mutate_and_compute_obj(s)
        self.trace.append((before, self.enc(new)))
        return new, move, obj


@st.composite
def runs(draw, multi=False):
    return dict(algo=draw(st.sampled_from(['climb', 'anneal'])), mode=draw(st.sampled_from(['MUTATE', 'MUTATE_AND_EVALUATE'])),
                store=draw(st.booleans()), n=draw(st.sampled_from([0, 1, 5, 12, 25, 40])), restart=draw(st.one_of(st.none(), st.integers(0, 6))),
                temp=draw(st.sampled_from([0.5, 3.0, 30.0])), coef=draw(st.sampled_from([0.9, 0.99, 1.0])), m=draw(st.integers(0, 7)),
                portfolio=draw(st.booleans()), q=draw(st.sampled_from([0.2, 0.5])), nb=draw(st.integers(1, 3)),
                sense=draw(st.sampled_from(['MAXIMIZATION', 'MINIMIZATION'])), handling=draw(st.sampled_from(['AGGREGATE', 'SINGLE'])),
                weights=[draw(st.sampled_from([1, 2, -1, 0.5])) for _ in range(3)], first=draw(st.integers(0, 2)))


@st.composite
def synth_cases(draw):
    spec = draw(synth.specs())
    return dict(world='synth', spec=spec, start=draw(synth.starts(spec)), r=draw(runs()))


@st.composite
def real_cases(draw):
    world = draw(st.sampled_from(['knapsack', 'tsp', 'rcpsp']))
    if world == 'knapsack':
        spec = draw(dd.knapsack())
        start = [draw(st.integers(0, 1)) for _ in spec['items']]
    elif world == 'tsp':
        spec = draw(dd.tsp())
        spec['numba'] = False
        start = list(draw(st.permutations(dd.inner(spec))))
    else:
        spec = draw(rd.instances(kinds=('single', 'multi'), max_n=5, over=False, loose=True))
        start = draw(rd.vectors(spec, False))
    r = draw(runs())
    r['n'] = min(r['n'], 25)
    return dict(world=world, spec=spec, start=start, r=r)


def objective(r, names):
    """ParamsObjectiveFunction and the definition of the score it stands for."""
    objs = names[r['first'] % len(names):] + names[:r['first'] % len(names)]
    ws = r['weights'][:len(objs)]
    p = ParamsObjectiveFunction(objective_handling=ObjectiveHandling[r['handling']], objectives=list(objs), weights=list(ws), sense_function=ModeOptim[r['sense']])
    if r['handling'] == 'SINGLE':
        return p, lambda d: d[objs[0]] * ws[0]
    return p, lambda d: sum(d[o] * w for o, w in zip(objs, ws))


def mutation(w, r, menu):
    if r['portfolio']:
        return BasicPortfolioMutation([y[1] for y in menu], [1] * len(menu))
    return menu[r['m'] % len(menu)][1]


def restarter(r, sol, value):
    return RestartHandler() if r['restart'] is None else RestartHandlerLimit(r['restart'], sol, value)


def freeze(e):
    return tuple((k, tuple(v)) for k, v in sorted(e.items()))


def check_ls(k, ctx):
    r = k['r']
    w = o10.WORLDS[k['world']](k)
    p = w.p
    menu = w.menu(dict(q=r['q'], nb=r['nb'], all=False))
    if k['world'] == 'synth':
        params, f = objective(r, ['a', 'b', 'c'][:k['spec']['nobj']])

        def value(e):
            return f(synth.score(k['spec'], **e))
    else:
        params = get_default_objective_setup(p)
        if k['world'] == 'tsp':
            def value(e):
                return params.weights[0] * dd.ref_tsp(k['spec'], e['permutation'])[1]
        elif k['world'] == 'knapsack':
            def value(e):
                d, _ = dd.ref_knapsack(k['spec'], e['list_taken'])
                if params.objective_handling == ObjectiveHandling.SINGLE:
                    return d[params.objectives[0]] * params.weights[0]
                return sum(d[o] * x for o, x in zip(params.objectives, params.weights))
            if params.objective_handling == ObjectiveHandling.MULTI_OBJ:
                params.objective_handling = ObjectiveHandling.AGGREGATE
        else:
            params = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.SINGLE, objectives=['makespan'], weights=[-1], sense_function=MAX)

            def value(e):
                s = rd.sgs(k['spec'], e['rcpsp_permutation'], e['rcpsp_modes'])
                return -(9999999 if s is None else max(x[1] for x in s.values()))
    spy = Spy(mutation(w, r, menu), w.enc)
    start = w.sol
    e0 = w.enc(start)
    rs = restarter(r, start, value(e0))
    args = dict(evaluator=p, mutator=spy, restart_handler=rs, mode_mutation=ModeMutation[r['mode']], params_objective_function=params,
                store_solution=r['store'])
    if r['algo'] == 'climb':
        solver = HillClimber(**args)
    else:
        solver = SimulatedAnnealing(temperature_handler=TemperatureSchedulingFactor(r['temp'], rs, r['coef']), **args)
    res = solver.solve(start, r['n'])
    ctx.label(r['algo'], k['world'], 'restart' if r['restart'] is not None else '', 'store' if r['store'] else '', params.sense_function.name)
    eq(w.enc(start), e0, 'starting solution after the run')
    require(len(spy.trace) <= r['n'], '%d moves for a limit of %d', len(spy.trace), r['n'])
    best = max if params.sense_function == MAX else min
    seen = [e0] + [b for _, b in spy.trace]
    top = best(value(e) for e in seen)
    sol, fit = res.get_best_solution_fit()
    close(fit, top, 'best score reported (start %r)' % value(e0), 1e-6)
    close(value(w.enc(sol)), top, 'score of the best solution returned', 1e-6)
    close(value(w.enc(res.get_best_solution())), top, 'score of the best solution', 1e-6)
    close(value(w.enc(res.best_solution)), top, 'score of the best solution tracked', 1e-6)
    known = {freeze(e) for e in seen}
    stored = set()
    for s, x in res.list_solution_fits:
        e = w.enc(s)
        close(x, value(e), 'stored score of %r' % e, 1e-6)
        require(freeze(e) in known, 'a solution never visited is stored: %r', e)
        stored.add(freeze(e))
    if r['store']:
        eq(len(stored), len(known), 'number of solutions stored')
    # each step goes on from the solution of the step before, or from what it gave, or from the best on restart
    cur, steps = e0, spy.trace
    cur_best = e0
    for (b, c), nxt in zip(steps, [x[0] for x in steps[1:]] + [None]):
        require(b == cur, 'a step starts from %r instead of %r', b, cur)
        better = value(c) > value(cur) if best is max else value(c) < value(cur)
        if (value(c) > value(cur_best) if best is max else value(c) < value(cur_best)) and abs(value(c) - value(cur_best)) > 1e-9:
            cur_best = c
        if nxt is None:
            break
        options = [c] if better else [cur] if r['algo'] == 'climb' else [cur, c]
        if k['world'] == 'tsp' and abs(value(c) - value(cur)) < 1e-6:
            options = [c, cur]
        if nxt not in options:
            require(r['restart'] is not None, 'a step %s to %r (%r), went on from %r', cur, c, value(c), nxt)
            close(value(nxt), value(cur_best), 'score of the solution restarted from', 1e-6)
        cur = nxt
    values = [value(e) for e in seen]
    ctx.nontrivial(len(seen) > 2 and top != values[0] and top != values[-1])


@st.composite
def pareto_cases(draw):
    spec = draw(synth.specs(nobj=draw(st.sampled_from([2, 2, 3]))))
    r = draw(runs())
    return dict(world='synth', spec=spec, start=draw(synth.starts(spec)), r=r, every=draw(st.sampled_from([1, 3, 1000])))


def check_pareto(k, ctx):
    r = k['r']
    w = o10.WORLDS['synth'](k)
    p = w.p
    names = ['a', 'b', 'c'][:k['spec']['nobj']]
    ws = r['weights'][:len(names)]
    sense = ModeOptim[r['sense']]
    params = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ, objectives=names, weights=ws, sense_function=sense)
    sign = 1 if sense == MAX else -1

    def value(e):
        d = synth.score(k['spec'], **e)
        return [x * d[o] for o, x in zip(names, ws)]

    def gain(e):
        return [sign * x for x in value(e)]
    spy = Spy(mutation(w, r, w.menu(dict(q=r['q'], nb=r['nb'], all=False))), w.enc)
    start = w.sol
    e0 = w.enc(start)
    rs = RestartHandler()
    res = HillClimberPareto(evaluator=p, mutator=spy, restart_handler=rs, mode_mutation=ModeMutation[r['mode']], params_objective_function=params,
                            store_solution=r['store']).solve(start, r['n'], update_iteration_pareto=k['every'])
    eq(w.enc(start), e0, 'starting solution after the run')
    require(len(spy.trace) <= r['n'], '%d moves for a limit of %d', len(spy.trace), r['n'])
    known = {freeze(e0)} | {freeze(b) for _, b in spy.trace}
    front = []
    for s, x in res.paretos:
        e = w.enc(s)
        eq([float(y) for y in x.vector_fitness], [float(y) for y in value(e)], 'stored scores')
        require(freeze(e) in known, 'a solution never visited is in the front: %r', e)
        front.append(gain(e))
    eq(res.len_pareto_front(), len(front), 'size of the front')
    for s, x in res.list_solution_fits:
        eq([float(y) for y in x.vector_fitness], [float(y) for y in value(w.enc(s))], 'stored scores')
    for a in front:
        require(not any(synth.dominates(b, a) for b in front), 'a point of the front is dominated: %r in %r', a, front)
    kept = [e0] + [nxt for (b, c), (nxt, _) in zip(spy.trace, spy.trace[1:]) if nxt == c != b]
    for e in kept:
        require(any(all(x >= y for x, y in zip(a, gain(e))) for a in front), 'a solution kept (%r) is covered by no point of the front %r', gain(e), front)
    for (b, c), (nxt, _) in zip(spy.trace, spy.trace[1:]):
        worse = synth.dominates(gain(b), gain(c))
        require(nxt == (b if worse else c), 'from %r to %r, went on from %r', gain(b), gain(c), gain(nxt))
    ctx.label(sense.name, 'front of %d' % min(len(front), 4))
    ctx.nontrivial(len(front) >= 2)


CROSS = {'bits': [None, 'CX_UNIFORM', 'CX_ONE_POINT', 'CX_TWO_POINT'], 'ints': [None, 'CX_UNIFORM', 'CX_ONE_POINT', 'CX_TWO_POINT'],
         'perm': [None, 'CX_UNIFORM_PARTIALY_MATCHED', 'CX_ORDERED', 'CX_PARTIALY_MATCHED']}
MUT = {'bits': [None, 'MUT_FLIP_BIT', 'custom'], 'ints': [None, 'MUT_UNIFORM_INT'], 'perm': [None, 'MUT_SHUFFLE_INDEXES', 'custom', 'custom']}


@st.composite
def ga_options(draw, part):
    return dict(part=part, cross=draw(st.sampled_from(CROSS[part])), mut=draw(st.sampled_from(MUT[part])), cm=draw(st.integers(0, 3)),
                sel=draw(st.sampled_from([None, 'SEL_TOURNAMENT', 'SEL_RANDOM', 'SEL_BEST', 'SEL_WORST'])))


@st.composite
def ga_cases(draw):
    spec = draw(synth.specs(min_size=2))
    part = draw(st.sampled_from(synth.PARTS))
    return dict(spec=spec, start=draw(synth.starts(spec, base=0)), o=draw(ga_options(part)), how=draw(st.sampled_from(['name', 'name', 'dict', 'first', 'unknown'])),
                list_int=draw(st.booleans()), pop=draw(st.integers(2, 12)), evals=draw(st.integers(0, 90)), mr=draw(st.sampled_from([None, 0.0, 0.3, 1.0])),
                cr=draw(st.sampled_from([None, 0.0, 0.5, 1.0])), ts=draw(st.sampled_from([None, 0.0, 0.5])), r=draw(runs()),
                objs=draw(st.sampled_from(['all', 'all', 'one', 'none'])), wts=draw(st.booleans()), prefix=draw(st.sampled_from(['', 'k_'])))


def deap(kind, name):
    return None if name is None else kind[name]


def build_mutation(p, o):
    if o['mut'] == 'custom' and p.prefix:
        return None  # (mutations suppose that encodings have the name of their attribute)
    if o['mut'] == 'custom':
        s = p.get_dummy_solution()
        if o['part'] == 'bits':
            return MutationBitFlip.build(p, s, attribute='bits', probability_flip=0.3)
        return [PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation][o['cm']].build(p, s, attribute='perm')
    return deap(DeapMutation, o['mut'])


def ga_objective(k, names):
    """Arguments for the genetic algorithms and the score they stand for."""
    r = k['r']
    default = r['weights'][:len(names)]
    handling = ObjectiveHandling[r['handling']]
    args = dict(objective_handling=handling)
    if k['objs'] == 'none':
        objs, ws = names, default
    elif k['objs'] == 'one':
        objs, ws = [names[r['first'] % len(names)]], [r['weights'][0]]
        args['objectives'] = objs[0]
    else:
        i = r['first'] % len(names)
        objs, ws = names[i:] + names[:i], default
        args['objectives'] = list(objs)
    if k['objs'] != 'none':
        if k['wts']:
            args['objective_weights'] = list(ws)
        else:
            ws = [1] * len(objs)
    if r['handling'] == 'SINGLE':
        return args, default, lambda d: d[objs[0]] * ws[0]
    return args, default, lambda d: sum(d[o] * x for o, x in zip(objs, ws))


def ga_problem(k, part=None):
    spec = k['spec']
    names = ['a', 'b', 'c'][:spec['nobj']]
    args, default, f = ga_objective(k, names)
    order = list(synth.PARTS)
    if part:
        order.remove(part)
        order.insert(0, part)
    if k['list_int']:
        spec['ar'] = [max(spec['ar'])] * spec['m']
    p = synth.SynProblem(spec, order=order, base=0, int_type=TypeAttribute.LIST_INTEGER if k['list_int'] else TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY,
                         default_weights=default, prefix=k['prefix'])
    p.fixed = {x: list(v) for x, v in k['start'].items()}
    if k['list_int']:
        p.fixed['ints'] = [min(x, spec['ar'][0] - 1) for x in p.fixed['ints']]

    def score_default(e):
        d = synth.score(spec, **e)
        return sum(d[o] * x for o, x in zip(names, default))
    return p, args, f, score_default


def check_ga(k, ctx):
    o = k['o']
    part = o['part']
    p, args, f, default = ga_problem(k, part if k['how'] in ('first', 'unknown') else None)
    reg = p.get_attribute_register().dict_attribute_to_type[k['prefix'] + part]
    enc = {'name': k['prefix'] + part, 'first': None, 'unknown': 'something else', 'dict': dict(reg)}[k['how']]
    if k['how'] == 'dict' and part != 'ints':
        enc = {x: reg[x] for x in ('name', 'type', 'n')}
    elif k['how'] == 'dict':
        del enc['arrities' if k['list_int'] else 'arrity']
    before = {x: list(v) for x, v in p.fixed.items()}
    ga = Ga(p, mutation=build_mutation(p, o), crossover=deap(DeapCrossover, o['cross']), selection=deap(DeapSelection, o['sel']), encoding=enc,
            pop_size=k['pop'], max_evals=k['evals'], mut_rate=k['mr'], crossover_rate=k['cr'], tournament_size=k['ts'], deap_verbose=False, **args)
    p.log.clear()
    res = ga.solve()
    log = list(p.log)
    sol = res.get_best_solution()
    e = sol.enc()
    require(synth.valid(p, e), 'the solution %r is not one', e)
    for x, _ in log:
        require(synth.valid(p, x) and all(x[y] == before[y] for y in synth.PARTS if y != part), 'evaluated %r, which is no solution or alters other parts', x)
    require(len(log) <= k['pop'] + k['evals'] + 1, '%d evaluations for a population of %d and at most %d evaluations', len(log), k['pop'], k['evals'])
    got = f(synth.score(k['spec'], **e))
    top = max(f(v) for _, v in log)
    eq(got, top, 'score of the best solution among those evaluated')
    require(e in [x for x, _ in log], 'the solution %r was never evaluated', e)
    eq([x[1] for x in res.list_solution_fits], [default(e)], 'score reported')
    eq(res.best_solution.enc(), e, 'best solution')
    ctx.label(part, k['how'], o['sel'] or 'default', o['mut'] or 'default', o['cross'] or 'default', k['objs'])
    ctx.nontrivial(len(log) > k['pop'] + 1 and got > max(f(v) for _, v in log[:k['pop']]))


@st.composite
def nsga_cases(draw):
    spec = draw(synth.specs(min_size=2, nobj=draw(st.sampled_from([2, 2, 3]))))
    part = draw(st.sampled_from(synth.PARTS))
    return dict(spec=spec, start=draw(synth.starts(spec, base=0)), o=draw(ga_options(part)), how=draw(st.sampled_from(['name', 'name', 'dict', 'first'])),
                list_int=draw(st.booleans()), pop=draw(st.integers(6, 14)), evals=draw(st.integers(0, 90)), mr=draw(st.sampled_from([None, 0.3, 1.0])),
                cr=draw(st.sampled_from([None, 0.0, 0.5])), r=draw(runs()), objs='all', wts=draw(st.booleans()), prefix=draw(st.sampled_from(['', 'k_'])))


def check_nsga(k, ctx):
    o, part, spec = k['o'], k['o']['part'], k['spec']
    p, args, _, _ = ga_problem(k, part if k['how'] == 'first' else None)
    reg = p.get_attribute_register().dict_attribute_to_type[k['prefix'] + part]
    enc = {'name': k['prefix'] + part, 'first': None, 'dict': dict(reg)}[k['how']]
    if k['how'] == 'dict' and part != 'ints':
        enc = {x: reg[x] for x in ('name', 'type', 'n')}
    elif k['how'] == 'dict':
        del enc['arrities' if k['list_int'] else 'arrity']
    objs = args['objectives']
    ws = args.get('objective_weights') or [1] * len(objs)
    before = {x: list(v) for x, v in p.fixed.items()}
    ga = Nsga(p, mutation=build_mutation(p, o), crossover=deap(DeapCrossover, o['cross']), encoding=enc, objectives=objs, objective_weights=args.get('objective_weights'),
              pop_size=k['pop'], max_evals=k['evals'], mut_rate=k['mr'], crossover_rate=k['cr'], deap_verbose=False)
    p.log.clear()
    res = ga.solve()
    log = list(p.log)

    def value(e):
        d = synth.score(spec, **e)
        return [x * d[y] for y, x in zip(objs, ws)]
    sols = res.list_solution_fits
    eq(len(sols), k['pop'], 'number of solutions kept')
    seen = log[:len(log) - len(sols)]
    require(len(seen) <= k['pop'] + k['evals'], '%d evaluations for a population of %d and at most %d', len(seen), k['pop'], k['evals'])
    known = [x for x, _ in seen]
    for x in known:
        require(synth.valid(p, x) and all(x[y] == before[y] for y in synth.PARTS if y != part), 'evaluated %r, which is no solution or alters other parts', x)
    kept = []
    for s, x in sols:
        e = s.enc()
        require(e in known, 'the solution %r was never evaluated', e)
        eq([float(y) for y in x.vector_fitness], [float(y) for y in value(e)], 'scores of a solution kept')
        kept.append(value(e))
    b = value(res.get_best_solution().enc())
    require(not any(synth.dominates(x, b) for x in kept), 'the best solution %r is dominated among %r', b, kept)
    every = [value(e) for e in known]
    for x in kept:
        # with more evaluated points than kept, at least those which nobody dominates come first
        if any(synth.dominates(y, x) for y in every):
            front = [y for y in every if not any(synth.dominates(z, y) for z in every)]
            require(any(y in kept for y in front), 'none of the non-dominated points evaluated was kept')
    if len(objs) == 2:
        for i in range(2):
            eq(max(x[i] for x in kept), max(x[i] for x in every), 'best value kept of objective %d' % i)
    ctx.label(part, k['how'])
    ctx.nontrivial(len(seen) > 2 * k['pop'])


@st.composite
def alt_cases(draw):
    spec = draw(synth.specs(min_size=2))
    parts = list(draw(st.permutations(synth.PARTS)))[:draw(st.integers(1, 3))]
    return dict(spec=spec, start=draw(synth.starts(spec, base=0)), os=[draw(ga_options(x)) for x in parts], list_int=draw(st.booleans()),
                pop=draw(st.integers(2, 8)), subs=[draw(st.integers(1, 30)) for _ in parts], evals=draw(st.integers(1, 90)), r=draw(runs()),
                objs=draw(st.sampled_from(['all', 'all', 'one', 'none'])), wts=draw(st.booleans()), prefix=draw(st.sampled_from(['', 'k_'])),
                opts=draw(st.booleans()))


def check_alternating(k, ctx):
    p, args, f, default = ga_problem(k)
    parts = [o['part'] for o in k['os']]
    extra = {}
    if k['opts']:
        extra = dict(mutations=[build_mutation(p, o) for o in k['os']], crossovers=[deap(DeapCrossover, o['cross']) for o in k['os']],
                     selections=[deap(DeapSelection, o['sel']) for o in k['os']])
    ga = AlternatingGa(p, encodings=[k['prefix'] + x for x in parts], pop_size=k['pop'], max_evals=k['evals'], sub_evals=list(k['subs']),
                       deap_verbose=False, **extra, **args)
    p.log.clear()
    res = ga.solve()
    log = list(p.log)
    e = res.get_best_solution().enc()
    require(synth.valid(p, e), 'the solution %r is not one', e)
    runs_, total = 0, 0
    while total < k['evals']:
        total += k['subs'][runs_ % len(parts)]
        runs_ += 1
    require(len(log) <= total + runs_ * (k['pop'] + 2) + 1, '%d evaluations for %d runs of %r and populations of %d', len(log), runs_, k['subs'], k['pop'])
    got = f(synth.score(k['spec'], **e))
    eq(got, max(f(v) for _, v in log), 'score of the best solution among those evaluated')
    for x, _ in log:
        require(synth.valid(p, x), 'evaluated %r, which is no solution', x)
    others = [y for y in synth.PARTS if y not in parts]
    require(all(x[y] == k_ for x, _ in log for y in others for k_ in [p.fixed[y]]), 'a part which is not searched was altered')
    used = [y for y in parts if len({tuple(x[y]) for x, _ in log}) > 1]
    eq([x[1] for x in res.list_solution_fits], [default(e)], 'score reported')
    ctx.label('%d parts' % len(parts), '%d runs' % min(runs_, 6))
    ctx.nontrivial(len(used) >= 2)


SUBCHECKS = [
    Sub('local search', synth_cases, check_ls, 2400),
    Sub('library problems', real_cases, check_ls, 1000),
    Sub('pareto', pareto_cases, check_pareto, 1400),
    Sub('genetic', ga_cases, check_ga, 1600),
    Sub('nsga', nsga_cases, check_nsga, 600),
    Sub('alternating', alt_cases, check_alternating, 800),
]
