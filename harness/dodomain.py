"""Generated combinatorial instances (plain data), their construction with the library, and independent definitions."""
import math
from itertools import permutations

from hypothesis import strategies as st

from skdecide.builders.discrete_optimization.knapsack.knapsack_model import (Item, KnapsackModel, KnapsackModel_Mobj,
                                                                             KnapsackSolution)
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem, ColoringSolution
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
from skdecide.builders.discrete_optimization.facility.facility_model import (FacilityProblem2DPoints, FacilitySolution,
                                                                             Facility, Customer, Point)
from skdecide.builders.discrete_optimization.vrp.vrp_model import VrpProblem2D, VrpSolution, Customer2D
from skdecide.builders.discrete_optimization.tsp.tsp_model import TSPModel2D, Point2D, SolutionTSP
from skdecide.builders.discrete_optimization.ttp.ttp_model import TTPModel, TTPSolution

import numpy as np

coord = st.integers(-20, 20)
half = st.integers(-40, 40).map(lambda x: x / 2)


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ------------------------------------------------------------------------------------------------ knapsack
@st.composite
def knapsack(draw, max_items=7, min_items=1, positive=False):
    n = draw(st.integers(min_items, max_items))
    lo = 1 if positive else 0
    return dict(items=[[draw(st.integers(lo, 12)), draw(st.integers(lo, 9))] for _ in range(n)], cap=draw(st.integers(lo, 25)),
                force=draw(st.booleans()), mobj=draw(st.integers(0, 3)) == 0)


def build_knapsack(c, cls=None):
    cls = cls or (KnapsackModel_Mobj if c.get('mobj') else KnapsackModel)
    index = c.get('index') or [c.get('first', 0) + i for i in range(len(c['items']))]
    return cls(list_items=[Item(index[i], v, w) for i, (v, w) in enumerate(c['items'])], max_capacity=c['cap'],
               force_recompute_values=c.get('force', False))


def ref_knapsack(c, taken):
    value = sum(v for (v, w), t in zip(c['items'], taken) if t)
    weight = sum(w for (v, w), t in zip(c['items'], taken) if t)
    r = {'value': value, 'weight_violation': max(0, weight - c['cap'])}
    if c.get('mobj'):
        r['weight'] = weight
        r['heaviest_item'] = max([w for (v, w), t in zip(c['items'], taken) if t] or [0])
    return r, weight <= c['cap']


# ------------------------------------------------------------------------------------------------ coloring
@st.composite
def coloring(draw, max_nodes=7, min_nodes=1):
    n = draw(st.integers(min_nodes, max_nodes))
    pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
    edges = draw(st.lists(st.sampled_from(pairs), unique_by=tuple, max_size=14)) if pairs else []
    edges = [e if draw(st.booleans()) else e[::-1] for e in edges]
    names = draw(st.permutations(range(n)))
    return dict(n=n, edges=edges, names=list(names))


def build_coloring(c):
    # node k is called 3*k+1; colors follow the sorted names of nodes, whatever the order in which they are listed
    return ColoringProblem(Graph([(3 * k + 1, {}) for k in c['names']], [(3 * a + 1, 3 * b + 1, {}) for a, b in c['edges']],
                                 undirected=True))


def ref_coloring(c, colors):
    bad = sum(1 for a, b in c['edges'] if colors[a] == colors[b])
    return {'nb_colors': len(set(colors)), 'nb_violations': bad}, bad == 0


# ------------------------------------------------------------------------------------------------ facility
@st.composite
def facility(draw, max_fac=4, max_cust=6):
    f, m = draw(st.integers(1, max_fac)), draw(st.integers(1, max_cust))
    return dict(fac=[[draw(st.integers(0, 50)), draw(st.integers(0, 15)), draw(half), draw(half)] for _ in range(f)],
                cust=[[draw(st.integers(0, 7)), draw(half), draw(half)] for _ in range(m)])


def build_facility(c):
    return FacilityProblem2DPoints(len(c['fac']), len(c['cust']),
                                   [Facility(i, float(s), cap, Point(x, y)) for i, (s, cap, x, y) in enumerate(c['fac'])],
                                   [Customer(i, d, Point(x, y)) for i, (d, x, y) in enumerate(c['cust'])])


def ref_facility(c, fc):
    used = sorted(set(fc))
    load = {f: sum(c['cust'][i][0] for i in range(len(fc)) if fc[i] == f) for f in used}
    over = sum(max(load[f] - c['fac'][f][1], 0) for f in used)
    return {'cost': sum(dist(c['fac'][f][2:], c['cust'][i][1:]) for i, f in enumerate(fc)),
            'setup_cost': sum(c['fac'][f][0] for f in used), 'capacity_constraint_violation': over}, over == 0


# ------------------------------------------------------------------------------------------------ vehicle routing
@st.composite
def vrp(draw, max_cust=6, max_veh=3, same_depot=None):
    n = draw(st.integers(2, max_cust))
    v = draw(st.integers(1, max_veh))
    depot = draw(st.booleans()) if same_depot is None else same_depot
    s = [0] * v if depot else [draw(st.integers(0, n - 1)) for _ in range(v)]
    e = [0] * v if depot else [draw(st.integers(0, n - 1)) for _ in range(v)]
    return dict(cust=[[draw(st.integers(0, 6)), draw(half), draw(half)] for _ in range(n)],
                cap=[draw(st.integers(0, 25)) for _ in range(v)], start=s, end=e)


def build_vrp(c):
    return VrpProblem2D(vehicle_count=len(c['cap']), vehicle_capacities=list(c['cap']), customer_count=len(c['cust']),
                        customers=[Customer2D(i, d, x, y) for i, (d, x, y) in enumerate(c['cust'])],
                        start_indexes=list(c['start']), end_indexes=list(c['end']))


def ref_vrp(c, paths):
    length, over = 0.0, 0
    for v, path in enumerate(paths):
        full = [c['start'][v]] + list(path) + [c['end'][v]]
        length += sum(dist(c['cust'][a][1:], c['cust'][b][1:]) for a, b in zip(full[:-1], full[1:]))
        visited = list(path) + [c['start'][v]] + ([c['end'][v]] if c['end'][v] != c['start'][v] else [])
        over += max(sum(c['cust'][i][0] for i in visited) - c['cap'][v], 0)
    need = [i for i in range(len(c['cust'])) if i not in c['start'] and i not in c['end']]
    return {'length': length, 'capacity_violation': over}, over == 0 and sorted(i for p in paths for i in p) == need


# ------------------------------------------------------------------------------------------------ travelling salesman
@st.composite
def tsp(draw, max_nodes=8, min_inner=1):
    loop = draw(st.booleans())
    n = draw(st.integers(min_inner + (1 if loop else 2), max_nodes))
    s = draw(st.integers(0, n - 1))
    e = s if loop else draw(st.integers(0, n - 1).filter(lambda x: x != s))
    return dict(pts=[[draw(half), draw(half)] for _ in range(n)], start=s, end=e, numba=draw(st.booleans()))


def build_tsp(c):
    return TSPModel2D([Point2D(float(x), float(y)) for x, y in c['pts']], len(c['pts']), start_index=c['start'],
                      end_index=c['end'], use_numba=c.get('numba', False))


def inner(c):
    return [i for i in range(len(c['pts'])) if i not in (c['start'], c['end'])]


def ref_tsp(c, perm):
    full = [c['start']] + list(perm) + [c['end']]
    lengths = [dist(c['pts'][a], c['pts'][b]) for a, b in zip(full[:-1], full[1:])]
    return lengths, sum(lengths), sorted(perm) == inner(c)


# ------------------------------------------------------------------------------------------------ travelling thief
@st.composite
def ttp(draw, max_nodes=6, max_items=6):
    n = draw(st.integers(2, max_nodes))
    m = draw(st.integers(1, max_items))
    items = [[draw(st.integers(0, 40)), draw(st.integers(1, 9)), draw(st.integers(0, n - 1))] for _ in range(m)]
    vmin = draw(st.integers(1, 8))
    return dict(nodes=[[draw(coord), draw(coord)] for _ in range(n)], items=items, cap=sum(i[1] for i in items) + draw(st.integers(0, 10)),
                vmin=vmin / 10, vmax=(vmin + draw(st.integers(0, 5))) / 10, rent=draw(st.integers(0, 50)) / 10)


def build_ttp(c):
    nodes = [dict(index=i, x=x, y=y) for i, (x, y) in enumerate(c['nodes'])]
    items = [dict(index=i, profit=p, weight=w, node_index=k) for i, (p, w, k) in enumerate(c['items'])]
    return TTPModel(problemName='p', knapsackDataType='d', numberOfNodes=len(nodes), numberOfItems=len(items),
                    capacityOfKnapsack=float(c['cap']), minSpeed=c['vmin'], maxSpeed=c['vmax'], rentingRatio=c['rent'],
                    edgeWeightType='CEIL_2D', nodes=nodes, items=items,
                    nodes_array=np.array([[i, x, y] for i, (x, y) in enumerate(c['nodes'])], dtype=int),
                    items_array=np.array([[i, p, w, k] for i, (p, w, k) in enumerate(c['items'])], dtype=int))


def ref_ttp(c, tour, picked):
    """tour: closed list of nodes; picked: booleans per item (taken where they lie)."""
    weight, time, length, weights = 0, 0.0, 0.0, []
    for a, b in zip(tour[:-1], tour[1:]):
        weight += sum(w for (p, w, k), t in zip(c['items'], picked) if t and k == a)
        weights.append(weight)
        d = dist(c['nodes'][a], c['nodes'][b])
        length += d
        time += d / (c['vmax'] - weight * (c['vmax'] - c['vmin']) / c['cap'])
    profit = sum(p for (p, w, k), t in zip(c['items'], picked) if t)
    return dict(objective=profit - c['rent'] * time, profit=profit, distance=length, time_trip=time, weight_used=weight,
                weight_end=c['cap'] - weight), weights
