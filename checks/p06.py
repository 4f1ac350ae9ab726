"""C++ planners run in parallel: the guarantees of sequential planning, whatever the interleaving.

The parallel sections of the planners run as coroutines of one thread, switched (or not, as drawn) in the callbacks of the domain,
around locks and around accesses to atomic variables: a schedule is a function of the case, so failures are replayed and shrunk.
"""
from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require
from checks import p01, p02, p03, p04, p05

RULE = 'as for the sequential planner, and some state offering two actions is explored'
ASSUMPTIONS = p01.ASSUMPTIONS + p02.ASSUMPTIONS + p03.ASSUMPTIONS[:1] + p05.ASSUMPTIONS + [
    'parallel LRTDP: labelled policies may be incomplete or not optimal (labels are decided while other threads update values)',
    'switches happen in callbacks of the domain, around locks and atomic variables only: races between other statements are out of reach']


def scheduled(strategy):
    @st.composite
    def cases(draw):
        case = draw(strategy())
        case['debug'] = 0
        case['parallel'] = {'schedule': draw(st.integers(0, 2000)), 'rarity': draw(st.integers(1, 6)), 'capacity': draw(st.integers(2, 4))}
        return case
    return cases


def check_lrtdp(case, ctx):
    world, discount = case['world'], case['discount']
    n = len(world)
    best = cpp.optimal(world, discount)
    params = {'discount': discount, 'epsilon': case['epsilon'], 'rollouts': case['rollouts'], 'depth': case['depth'], 'labels': case['labels']}
    questions = [o for op in case['ops'] for o in [op] + cpp.dump(n) + [['N']]]
    answers = cpp.run('LRTDP', world, params, questions, parallel=case['parallel'])
    step = 2 + 3 * n
    for i, op in enumerate(case['ops']):
        a, rest, (states, rollouts) = answers[i * step], answers[i * step + 1:(i + 1) * step - 1], answers[(i + 1) * step - 1].values
        table = cpp.read_dump(rest, n)
        require(a.error is None, 'operation %s failed: %s', op, a.error)
        if op[0] == 'C' or world[op[1]]['goal']:
            continue
        p03.bounded(case, table, best, 'after solving from %d' % op[1])
        require(table[op[1]][0], 'no action for root %d after solving from it', op[1])
        require(rollouts < case['rollouts'] + case['parallel']['capacity'], '%d rollouts with a budget of %d for %d threads',
                rollouts, case['rollouts'], case['parallel']['capacity'])
        if case['labels'] and rollouts < case['rollouts']:
            ctx.label('labelled')
        ctx.nontrivial(len(p04.reached(world, op[1])) > 2 and any(len(w['acts']) > 1 for w in world))


@st.composite
def lrtdp_cases(draw):
    case = draw(p03.world_cases())
    if draw(st.integers(0, 2)):  # nothing but labels stops the search
        return dict(case, labels=1, rollouts=1000000, depth=1000)
    return dict(case, labels=int(draw(st.booleans())), rollouts=draw(st.integers(1, 30)), depth=draw(st.integers(1, 12)))


SUBCHECKS = [Sub('astar', scheduled(p01.cases), p01.check, quick=800, rule=RULE),
             Sub('aostar', scheduled(p02.cases), p02.check, quick=400, rule=RULE),
             Sub('ilaostar', scheduled(p03.world_cases), p03.check, quick=400, rule=RULE),
             Sub('bfws', scheduled(p05.bfws_cases), p05.check_bfws, quick=300, rule=RULE),
             Sub('iw', scheduled(p05.iw_cases), p05.check_iw, quick=300, rule=RULE),
             Sub('lrtdp', scheduled(lrtdp_cases), check_lrtdp, quick=400, rule=RULE)]
