"""O07: instance parsers read back exactly the instance printed in the file."""
import os
import random
import tempfile

from hypothesis import strategies as st

from harness.api import Sub, require, eq
from harness import dodomain as dd
from skdecide.builders.discrete_optimization.knapsack import knapsack_parser
from skdecide.builders.discrete_optimization.coloring import coloring_parser
from skdecide.builders.discrete_optimization.facility import facility_parser
from skdecide.builders.discrete_optimization.vrp import vrp_parser
from skdecide.builders.discrete_optimization.tsp import tsp_parser
from skdecide.builders.discrete_optimization.ttp import ttp_parser
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_parser
from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill_parser as ms_parser
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import SingleModeRCPSPModel, MultiModeRCPSPModel

RULE = ('Random instances printed in each format by an independent printer, with the freedom of layout the format allows '
        '(spacing, trailing lines, width of columns, order of optional fields), written to a file and parsed; every field of '
        'the problem object must be the generated one. A case counts when the instance has at least two tasks/items/nodes '
        'with different data.')
ASSUMPTIONS = ['section titles are printed as the public instance libraries print them (one title per line, exact)',
               'numbers are printed in the type the format declares (integers where the library reads integers)']


def through_file(text, parse):
    fd, name = tempfile.mkstemp(prefix='verif_o07_')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        return parse(name)
    finally:
        os.unlink(name)


def lay(rng, words):
    """One line: the words with generated spacing."""
    sep = lambda: rng.choice([' ', '  ', '\t', '   '])
    return rng.choice(['', '', ' ']) + sep().join(map(str, words)) + rng.choice(['', '', ' '])


def tail(rng):
    return rng.choice(['', '\n', '\n\n', '\n \n'])


def seeded(inst):
    return st.tuples(inst, st.integers(0, 10 ** 6)).map(lambda t: dict(inst=t[0], seed=t[1]))


def check_knapsack(c, ctx):
    i, rng = c['inst'], random.Random(c['seed'])
    text = '\n'.join([lay(rng, [len(i['items']), i['cap']])] + [lay(rng, x) for x in i['items']]) + tail(rng)
    force = i['force']
    for m in (through_file(text, lambda f: knapsack_parser.parse_file(f, force_recompute_values=force)),
              knapsack_parser.parse_input_data(text, force_recompute_values=force)):
        eq([(x.value, x.weight) for x in m.list_items], [tuple(x) for x in i['items']], 'items')
        eq((m.nb_items, m.max_capacity, m.force_recompute_values), (len(i['items']), i['cap'], force), 'size, capacity, option')
        eq(len({x.index for x in m.list_items}), len(i['items']), 'number of item indexes')
    ctx.nontrivial(len({tuple(x) for x in i['items']}) > 1)


def check_coloring(c, ctx):
    i, rng = c['inst'], random.Random(c['seed'])
    text = '\n'.join([lay(rng, [i['n'], len(i['edges'])])] + [lay(rng, e) for e in i['edges']]) + tail(rng)
    for m in (through_file(text, coloring_parser.parse_file), coloring_parser.parse(text)):
        eq(sorted(m.graph.get_nodes()), list(range(i['n'])), 'nodes')
        eq({(a, b) for a, b in m.graph.get_edges()}, {tuple(e) for e in i['edges']} | {tuple(e[::-1]) for e in i['edges']}, 'edges')
        eq(m.number_of_nodes, i['n'], 'number of nodes')
        for v in range(i['n']):
            near = {b for a, b in i['edges'] if a == v} | {a for a, b in i['edges'] if b == v}
            eq(set(m.graph.get_neighbors(v)), near, 'neighbors of node %d' % v)
    ctx.nontrivial(len(i['edges']) > 1)


def check_facility(c, ctx):
    i, rng = c['inst'], random.Random(c['seed'])
    text = '\n'.join([lay(rng, [len(i['fac']), len(i['cust'])])] + [lay(rng, x) for x in i['fac'] + i['cust']]) + tail(rng)
    for m in (through_file(text, facility_parser.parse_file), facility_parser.parse(text)):
        eq([[f.setup_cost, f.capacity, f.location.x, f.location.y] for f in m.facilities], i['fac'], 'facilities')
        eq([[f.demand, f.location.x, f.location.y] for f in m.customers], i['cust'], 'customers')
        eq((m.facility_count, m.customer_count), (len(i['fac']), len(i['cust'])), 'counts')
        eq(([f.index for f in m.facilities], [f.index for f in m.customers]),
           (list(range(len(i['fac']))), list(range(len(i['cust'])))), 'indexes')
        for k, x in enumerate(i['cust']):
            require(dd.near(m.evaluate_customer_facility(m.facilities[0], m.customers[k]), dd.dist(i['fac'][0][2:], x[1:])), 'distance')
    ctx.nontrivial(len(i['fac']) > 1 and len(i['cust']) > 1)


def check_vrp(c, ctx):
    i, rng = c['inst'], random.Random(c['seed'])
    n, v, cap = len(i['cust']), len(i['cap']), i['cap'][0]
    text = '\n'.join([lay(rng, [n, v, cap])] + [lay(rng, x) for x in i['cust']]) + tail(rng)
    s, e, k = i['start'][0], i['end'][0], rng.choice([None, 1, 2, v + 2])
    for m, (s0, e0, k0) in ((through_file(text, vrp_parser.parse_file), (0, 0, None)), (vrp_parser.parse_input(text, s, e, k), (s, e, k)),
                            (through_file(text, lambda f: vrp_parser.parse_file(f, start_index=s, end_index=e, vehicle_count=k)), (s, e, k))):
        w = v if k0 is None else k0
        eq([[x.demand, x.x, x.y] for x in m.customers], i['cust'], 'customers')
        eq((m.customer_count, m.vehicle_count, list(m.vehicle_capacities)), (n, w, [cap] * w), 'sizes')
        eq((list(m.start_indexes), list(m.end_indexes)), ([s0] * w, [e0] * w), 'start and end')
        for a in range(n):
            require(dd.near(m.evaluate_function_indexes(a, 0), dd.dist(i['cust'][a][1:], i['cust'][0][1:])), 'distance to %d', a)
    ctx.nontrivial(n > 2 and v > 1)


def check_tsp(c, ctx):
    i, rng = c['inst'], random.Random(c['seed'])
    n = len(i['pts'])
    text = '\n'.join([lay(rng, [n])] + [lay(rng, x) for x in i['pts']]) + tail(rng)
    for m, (s, e) in ((through_file(text, tsp_parser.parse_file), (0, 0)),
                      (through_file(text, lambda f: tsp_parser.parse_file(f, start_index=i['start'], end_index=i['end'])), (i['start'], i['end']))):
        eq([[p.x, p.y] for p in m.list_points], i['pts'], 'points')
        eq((m.node_count, m.start_index, m.end_index), (n, s, e), 'size, start and end')
        eq(list(m.ind_in_permutation), [k for k in range(n) if k not in (s, e)], 'nodes to visit')
        for a in range(n):
            require(dd.near(m.evaluate_function_indexes(a, n - 1), dd.dist(i['pts'][a], i['pts'][-1])), 'distance to %d', a)
    ctx.nontrivial(n > 3)


def check_ttp(c, ctx):
    i, rng = c['inst'], random.Random(c['seed'])
    n, m = len(i['nodes']), len(i['items'])
    colon = lambda t, x: t + ':' + rng.choice([' ', '\t', '  ']) + str(x)
    head = [colon('PROBLEM NAME', 'gen-TTP'), colon('KNAPSACK DATA TYPE', 'bounded'), colon('DIMENSION', n), colon('NUMBER OF ITEMS', m),
            colon('CAPACITY OF KNAPSACK', i['cap']), colon('MIN SPEED', i['vmin']), colon('MAX SPEED', i['vmax']),
            colon('RENTING RATIO', i['rent']), colon('EDGE_WEIGHT_TYPE', 'CEIL_2D')]
    rng.shuffle(head)
    text = '\n'.join(head + ['NODE_COORD_SECTION\t(INDEX, X, Y): '] + [lay(rng, [k + 1] + x) for k, x in enumerate(i['nodes'])] +
                     ['ITEMS SECTION\t(INDEX, PROFIT, WEIGHT, ASSIGNED NODE NUMBER): '] +
                     [lay(rng, [k + 1, p, w, v + 1]) for k, (p, w, v) in enumerate(i['items'])]) + tail(rng)
    x = through_file(text, ttp_parser.parse)
    eq((x.problemName, x.knapsackDataType, x.edgeWeightType), ('gen-TTP', 'bounded', 'CEIL_2D'), 'names')
    eq((x.numberOfNodes, x.numberOfItems, x.capacityOfKnapsack), (n, m, i['cap']), 'sizes')
    eq((x.minSpeed, x.maxSpeed, x.rentingRatio), (i['vmin'], i['vmax'], i['rent']), 'speeds and ratio')
    eq([[k['x'], k['y']] for k in x.nodes], i['nodes'], 'nodes')
    eq([[k['profit'], k['weight'], k['node_index']] for k in x.items], i['items'], 'items')
    eq([[int(v) for v in r[1:]] for r in x.nodes_array], i['nodes'], 'array of nodes')
    eq([[int(v) for v in r[1:]] for r in x.items_array], i['items'], 'array of items')
    ctx.nontrivial(n > 2 and m > 1)


# ------------------------------------------------------------------------------------------------ PSPLIB
@st.composite
def psplib(draw):
    n = draw(st.integers(1, 8))
    ren, non = draw(st.integers(1, 3)), draw(st.integers(0, 2))
    multi = draw(st.booleans())
    names = ['R%d' % (k + 1) for k in range(ren)] + ['N%d' % (k + 1) for k in range(non)]
    modes = [[[0, [0] * len(names)]]] + [[[draw(st.integers(0, 15)), [draw(st.integers(0, 12)) for _ in names]]
                                          for _ in range(draw(st.integers(1, 3)) if multi else 1)] for _ in range(n)] + [[[0, [0] * len(names)]]]
    succ = [sorted(set(draw(st.lists(st.integers(k + 1, n + 1), min_size=1, max_size=4)))) for k in range(n + 1)] + [[]]
    return dict(names=names, avail=[draw(st.integers(0, 120)) for _ in names], modes=modes, succ=succ, horizon=draw(st.integers(1, 400)))


def print_psplib(i, rng):
    star = '*' * 72
    w = rng.choice([4, 5, 6])
    row = lambda xs: rng.choice(['', ' ']) + ''.join(str(x).rjust(w) for x in xs) + rng.choice(['', ' '])
    ren = sum(1 for x in i['names'] if x[0] == 'R')
    L = [star, 'file with basedata            : gen.bas', 'initial value random generator: 28123', star, 'projects                      :  1',
         'jobs (incl. supersource/sink ):  %d' % len(i['modes']), 'horizon                       :  %d' % i['horizon'], 'RESOURCES',
         '  - renewable                 :  %d   R' % ren, '  - nonrenewable              :  %d   N' % (len(i['names']) - ren),
         '  - doubly constrained        :  0   D', star, 'PROJECT INFORMATION:', 'pronr.  #jobs rel.date duedate tardcost  MPM-Time',
         '    1     %d      0       38       26       38' % (len(i['modes']) - 2), star, 'PRECEDENCE RELATIONS:',
         'jobnr.    #modes  #successors   successors']
    L += [row([k + 1, len(i['modes'][k]), len(s)] + [x + 1 for x in s]) for k, s in enumerate(i['succ'])]
    heads = '  '.join('%s %s' % (x[0], x[1:]) for x in i['names'])
    L += [star, 'REQUESTS/DURATIONS:', 'jobnr. mode duration  ' + heads, '-' * 72]
    for k, ms in enumerate(i['modes']):
        for m, (d, use) in enumerate(ms):
            L.append(row(([k + 1] if m == 0 else ['']) + [m + 1, d] + use))
    L += [star, 'RESOURCEAVAILABILITIES:', '  ' + heads, row(i['avail']), star]
    return '\n'.join(L) + tail(rng)


def check_psplib(c, ctx):
    i = c['inst']
    text = print_psplib(i, random.Random(c['seed']))
    multi = any(len(m) > 1 for m in i['modes'])
    for m in (through_file(text, rcpsp_parser.parse_file), rcpsp_parser.parse_psplib(text)):
        require(isinstance(m, MultiModeRCPSPModel if multi else SingleModeRCPSPModel), 'built a %s', type(m).__name__)
        eq(m.horizon, i['horizon'], 'horizon')
        eq(dict(m.resources), dict(zip(i['names'], i['avail'])), 'resources')
        eq(sorted(m.non_renewable_resources), [x for x in i['names'] if x[0] == 'N'], 'non-renewable resources')
        eq(m.n_jobs, len(i['modes']) - 2, 'number of jobs')
        eq({k: sorted(v) for k, v in m.successors.items()}, {k + 1: [x + 1 for x in s] for k, s in enumerate(i['succ'])}, 'successors')
        eq(m.mode_details, {k + 1: {j + 1: dict(zip(i['names'], use), duration=d) for j, (d, use) in enumerate(ms)}
                            for k, ms in enumerate(i['modes'])}, 'modes')
    ctx.label('multi-mode' if multi else 'single-mode')
    ctx.nontrivial(len(i['modes']) > 3)


# ------------------------------------------------------------------------------------------------ iMOPSE
@st.composite
def imopse(draw):
    n, w = draw(st.integers(1, 8)), draw(st.integers(1, 4))
    skills = ['Q%d' % k for k in draw(st.lists(st.integers(0, 12), min_size=1, max_size=4, unique=True))]
    workers = [dict(salary=draw(st.integers(100, 500)) / 10, skills={q: draw(st.integers(0, 3)) for q in skills if draw(st.booleans())}) for _ in range(w)]
    workers[0]['skills'] = {q: 3 for q in skills}
    tasks = [dict(d=draw(st.integers(1, 20)), skills={draw(st.sampled_from(skills)): draw(st.integers(0, 3))},
                  prec=sorted(set(draw(st.lists(st.integers(0, k - 1), max_size=3)))) if k else []) for k in range(n)]
    ids = draw(st.sampled_from(['plain', 'gaps']))
    return dict(workers=workers, tasks=tasks, gap=1 if ids == 'plain' else draw(st.integers(2, 4)), horizon=draw(st.sampled_from([None, 60, 200])))


def print_imopse(i, rng):
    sep = lambda: rng.choice([' ', ' \t ', '\t', '  '])
    line = '=' * rng.choice([60, 116])
    edges = sum(len(t['prec']) for t in i['tasks'])
    L = [line, 'File name: gen.def', 'Creation date: Wed Oct 17 2012', line, 'General characteristics:', 'Tasks: %d' % len(i['tasks']),
         'Resources: %d' % len(i['workers']), 'Precedence relations: %d' % edges,
         'Number of skill types: %d' % len({q for w in i['workers'] for q in w['skills']}), line, 'ResourceID \t Salary \t Skills']
    for k, x in enumerate(i['workers']):
        L.append(sep().join([str(k + 1), str(x['salary'])] + ['%s: %d' % q for q in x['skills'].items()]) + rng.choice(['', ' ']))
    L += [line, 'TaskID \t Duration \t Skill \t Predecessor IDs']
    order = list(range(len(i['tasks'])))
    if rng.random() < 0.5:
        rng.shuffle(order)
    for k in order:
        t = i['tasks'][k]
        L.append(sep().join([str(1 + k * i['gap']), str(t['d'])] + ['%s: %d' % q for q in t['skills'].items()] +
                            [str(1 + p * i['gap']) for p in t['prec']]) + rng.choice(['', ' ']))
    L += [line]
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 4)):
            L.insert(rng.randint(0, len(L)), rng.choice(['', ' ', '\t']))
    return '\n'.join(L) + tail(rng)


def check_imopse(c, ctx):
    i, rng = c['inst'], random.Random(c['seed'])
    text = print_imopse(i, rng)
    model, names = through_file(text, lambda f: ms_parser.parse_file(f, max_horizon=i['horizon']))
    n = len(i['tasks'])
    eq({k: v for k, v in names.items()}, {k + 2: 1 + k * i['gap'] for k in range(n)}, 'names of tasks')
    eq(sorted(model.mode_details), list(range(1, n + 3)), 'tasks')
    eq((model.source_task, model.sink_task), (1, n + 2), 'source and sink')
    every = {q for w in i['workers'] for q in w['skills']} | {q for t in i['tasks'] for q in t['skills']}
    eq(set(model.skills_set), every, 'skills')
    for k, t in enumerate(i['tasks']):
        eq(list(model.mode_details[k + 2]), [1], 'modes')
        m = model.mode_details[k + 2][1]
        eq(m['duration'], t['d'], 'duration')
        eq({q: m.get(q, 0) for q in every}, {q: t['skills'][q] + 1 if q in t['skills'] else 0 for q in every}, 'skills of a task')
        eq(set(model.successors[k + 2]), {j + 2 for j, u in enumerate(i['tasks']) if k in u['prec']} | {n + 2}, 'successors')
    for d in (1, n + 2):
        eq(model.mode_details[d][1]['duration'], 0, 'duration of source and sink')
        eq(sum(model.mode_details[d][1].get(q, 0) for q in every), 0, 'skills of source and sink')
    eq(set(model.successors[1]) - {1}, set(range(2, n + 3)), 'successors of the source')
    eq(list(model.successors[n + 2]), [], 'successors of the sink')
    eq(sorted(model.employees), list(range(1, len(i['workers']) + 1)), 'employees')
    h = 300 if i['horizon'] is None else i['horizon']
    eq(model.horizon, h, 'horizon')
    for k, x in enumerate(i['workers']):
        e = model.employees[k + 1]
        eq({q: v.skill_value for q, v in e.dict_skill.items() if v.skill_value}, {q: v + 1 for q, v in x['skills'].items()}, 'skills of an employee')
        eq((e.salary, len(e.calendar_employee), all(e.calendar_employee)), (x['salary'], h, True), 'salary and calendar')
    # a solution: tasks in line, done by the first worker
    t, schedule, start, usage = 0, {1: dict(start_time=0, end_time=0)}, {}, {1: {}, n + 2: {}}
    for k, x in enumerate(i['tasks']):
        schedule[k + 2] = dict(start_time=t, end_time=t + x['d'])
        start[1 + k * i['gap']] = t
        able = [w + 1 for w in range(len(i['workers'])) if all(i['workers'][w]['skills'].get(q, -1) >= v for q, v in x['skills'].items())]
        usage[k + 2] = {rng.choice(able): set(x['skills'])}
        t += x['d']
    schedule[n + 2] = dict(start_time=t, end_time=t)
    sol = ms_parser.MS_RCPSPSolution(problem=model, modes={k: 1 for k in range(1, n + 3)}, schedule=schedule, employee_usage=usage)
    fd, name = tempfile.mkstemp(prefix='verif_o07_')
    os.close(fd)
    try:
        ms_parser.write_solution(sol, names, name)
        with open(name) as f:
            text = f.read()
    finally:
        os.unlink(name)
    got, who = ms_parser.parse_results(text)
    eq(got, start, 'start times read back')
    back = ms_parser.recompute_solution(model, names, got, who)
    eq({k: (v['start_time'], v['end_time']) for k, v in back.schedule.items()}, {k: (v['start_time'], v['end_time']) for k, v in schedule.items()}, 'schedule read back')
    eq({k: {w: set(q) for w, q in v.items()} for k, v in back.employee_usage.items()}, usage, 'employees read back')
    if t < h:
        require(model.satisfy(back), 'the solution read back is not valid')
        eq(model.evaluate(back)['makespan'], t, 'makespan of the solution read back')
    ctx.nontrivial(n > 1 and any(x['prec'] for x in i['tasks']))


SUBCHECKS = [
    Sub('knapsack', lambda: seeded(dd.knapsack()), check_knapsack, 2400),
    Sub('coloring', lambda: seeded(dd.coloring()), check_coloring, 2400),
    Sub('facility', lambda: seeded(dd.facility()), check_facility, 2400),
    Sub('vehicle-routing', lambda: seeded(dd.vrp()), check_vrp, 2400),
    Sub('salesman', lambda: seeded(dd.tsp()), check_tsp, 2400),
    Sub('thief', lambda: seeded(dd.ttp()), check_ttp, 2400),
    Sub('psplib', lambda: seeded(psplib()), check_psplib, 2400),
    Sub('imopse', lambda: seeded(imopse()), check_imopse, 2400),
]
