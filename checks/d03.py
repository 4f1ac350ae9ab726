"""D03: deterministic, distribution and simulation views of scheduling transitions, their probabilities and costs."""
import copy

from hypothesis import strategies as st

from harness.api import Sub, require, eq, close
from harness.scheddomain import *

RULE = ('Random projects with deterministic, distributed or simulated durations and conditional tasks walked by random '
        'actions; at every step the outcomes of a proposed action are compared with the outcomes and probabilities of the '
        'model, samples with the support, values with the declared costs. A case counts when some step had several outcomes '
        '(uncertain) or at least two tasks were started (deterministic).')
ASSUMPTIONS = ['cost of renewable resources: rate times amount in use times elapsed time; of non-renewable ones: amount consumed']


@st.composite
def cases(draw, costs=False):
    p = draw(projects(level=('det', 'unc', 'unc', 'sim') if not costs else ('det', 'det', 'unc'), preempt=draw(st.integers(0, 4)) == 0,
                      conditions=not costs and draw(st.integers(0, 2)) > 0, costs=costs))
    return dict(p=p, walk=draw(choices))


def frozen(p, dom, s):
    return key(signature(p, dom, s)), str(s)


def distribution(outcomes):
    d = {}
    for sig, pr in outcomes:
        d[key(sig)] = d.get(key(sig), 0.0) + pr
    return {k: v for k, v in d.items() if v > 0}


def check(case, ctx):
    p = case['p']
    dom = make_domain(p)
    model = Model(p)
    s = dom.get_initial_state()
    ctx.label('level:' + p['level'], 'cond' if p.get('cond') else '', 'preempt' if p.get('preempt') else '')
    for step, choice in enumerate(case['walk']):
        if model.finished():
            break
        k = pick(model.applicable(), choice)
        a = build(k)
        where = 'step %d (%s from %s)' % (step, k, model.signature())
        before = frozen(p, dom, s)
        outcomes = model.apply(k)
        want = distribution((m.signature(), pr) for m, pr in outcomes)
        if p['level'] == 'det':
            n = dom.get_next_state(s, a)
            eq(diff(signature(p, dom, n), outcomes[0][0].signature()), {}, 'next state at ' + where)
            values = dom.get_next_state_distribution(s, a).get_values()
            eq(len(values), 1, 'number of outcomes at ' + where)
        elif p['level'] == 'unc':
            values = dom.get_next_state_distribution(s, a).get_values()
        else:
            values = None
        if values is not None:
            got = distribution((signature(p, dom, x), pr) for x, pr in values)
            for g in got:
                require(g in want, 'outcome is not possible at %s: %s', where, g)
            for g in want:
                require(g in got, 'outcome is missing at %s: %s', where, g)
                close(got[g], want[g], 'probability at %s of %s' % (where, g))
        for _ in range(2):
            o = dom.sample(s, a)
            eq(frozen(p, dom, s), before, 'the given state after computing transitions at ' + where)
            sig = key(signature(p, dom, o.observation))
            require(sig in want, 'sampled outcome is not possible at %s: %s', where, sig)
            m = next(m for m, _ in outcomes if key(m.signature()) == sig)
            close(o.value.cost, model.cost(k, m), 'cost of the sampled transition at ' + where)
            eq(bool(o.termination), m.terminal(), 'termination at ' + where)
        if values is None:
            values = [(o.observation, 1.0)]
        s = values[choice[1] % len(values)][0]
        sig = key(signature(p, dom, s))
        nxt = next(m for m, _ in outcomes if key(m.signature()) == sig)
        ctx.nontrivial(len(want) > 1)
        model = nxt
    ctx.nontrivial(p['level'] == 'det' and len(model.start) > 1)


def check_independence(case, ctx):
    """Continuing from one outcome leaves the other outcomes as they were."""
    p = case['p']
    dom = make_domain(p)
    model = Model(p)
    s = dom.get_initial_state()
    kept = []
    for choice in case['walk']:
        if model.finished():
            break
        k = pick(model.applicable(), choice)
        values = dom.get_next_state_distribution(s, build(k)).get_values()
        outcomes = model.apply(k)
        kept.append((s, frozen(p, dom, s)))
        kept += [(x, frozen(p, dom, x)) for x, _ in values[:3]]
        s = values[choice[1] % len(values)][0]
        sig = key(signature(p, dom, s))
        found = [m for m, _ in outcomes if key(m.signature()) == sig]
        require(found, 'outcome of %s is not possible: %s', k, sig)
        close(dom.get_transition_value(kept[-1 - min(3, len(values))][0], build(k), s).cost, model.cost(k, found[0]), 'value of ' + str(k))
        model = found[0]
        for x, f in kept:
            eq(frozen(p, dom, x), f, 'an earlier state after %s' % (k,))
    eq(frozen(p, dom, dom.get_initial_state()), kept[0][1], 'initial state after the walk')
    ctx.nontrivial(len(model.start) > 1)
    ctx.label('level:' + p['level'], *p['objectives'])


SUBCHECKS = [Sub('outcomes', cases, check, quick=1050, thorough=10000, rule=RULE),
             Sub('independence', lambda: cases(costs=True), check_independence, quick=750, thorough=6000, rule=RULE)]
