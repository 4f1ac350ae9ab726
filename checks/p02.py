"""AO* (C++): optimal policies of loop-free worlds."""

from hypothesis import strategies as st

from harness import cpp
from harness.api import Sub, require, close
from checks.p01 import tables

RULE = 'the policy of a root meets at least three states and some state has two actions'
ASSUMPTIONS = ['heuristics are lower bounds of the optimal values, 0 on goals', 'every state but the goals has an action',
               'worlds with loops are only given with detect_cycles on, where the planner may report them instead of answering']


@st.composite
def cases(draw):
    discount = draw(st.sampled_from([1.0, 1.0, 0.9, 0.5]))
    loops = draw(st.integers(0, 4)) == 0
    world = draw(cpp.stochastic(acyclic=not loops))
    world = cpp.admissible(draw, world, cpp.optimal(world, discount))
    ops = draw(cpp.orders(world))
    if loops:  # a graph where a loop was found is not used again
        ops = [o for op in ops for o in [op, ['C']]]
    return {'world': world, 'discount': discount, 'tips': draw(st.sampled_from([1, 1, 2, 3, 10])),
            'cycles': loops or draw(st.booleans()), 'ops': ops, 'debug': int(draw(st.integers(0, 7)) == 0)}


def looping(world, root):
    """Can some state met from the root be met again?"""
    def after(s):
        seen, stack = set(), [s]
        while stack:
            x = stack.pop()
            if not world[x]['goal']:
                for a in world[x]['acts']:
                    for _, t, _ in a:
                        if t not in seen:
                            seen.add(t)
                            stack.append(t)
        return seen
    met = after(root) | {root}
    return any(s in after(s) for s in met)


def check(case, ctx):
    world, discount = case['world'], case['discount']
    n = len(world)
    best = cpp.optimal(world, discount)
    params = {'discount': discount, 'max_tip': case['tips'], 'cycles': int(case['cycles']), 'debug': case['debug']}
    questions = [o for op in case['ops'] for o in [op] + cpp.dump(n)]
    answers = cpp.run('AOSTAR', world, params, questions, parallel=case.get('parallel', False))
    for op, a, table in tables(case, answers):
        if op[0] == 'C':
            require(not any(t[0] for t in table), 'solutions left after clear(): %s', table)
            continue
        root = op[1]
        if a.error is not None:
            require(case['cycles'] and looping(world, root), 'solving from %d failed in a loop-free world: %s', root, a.error)
            ctx.label('loop reported')
            ctx.nontrivial()
            continue
        if world[root]['goal']:
            continue
        require(table[root][0], 'no solution is defined for root %d after solving from it', root)
        got, why = cpp.evaluate(world, lambda s: table[s][1] if table[s][0] else None, root, discount)
        require(got is not None, 'the policy from root %d is not a solution: %s', root, why)
        close(got[0], best[root], 'expected cost of the policy from root %d' % root, 1e-6)
        for s, (defined, action, value) in enumerate(table):
            if defined and not world[s]['goal']:
                close(value, best[s], 'value of state %d after solving from %d' % (s, root), 1e-6)
        ctx.nontrivial(len(got[2]) > 2 and any(len(w['acts']) > 1 for w in world))
    ctx.label('several roots' if sum(o[0] == 'S' for o in case['ops']) > 1 else None, 'cycles detected on' if case['cycles'] else None,
              'several tips' if case['tips'] > 1 else None)


SUBCHECKS = [Sub('policies', cases, check, quick=600, rule=RULE)]
