"""C02: episodes against a reference model of the declared primitives."""
from hypothesis import strategies as st

from skdecide import EnvironmentOutcome, Memory, TransitionValue
from harness.api import Sub, require, eq
from harness.tabledomain import Model, make_domain, specs, raw_action, raw_memory, mem, CHAINS

RULE = ('Table-defined domains over all combinations of agent, concurrency, dynamics, initialisation, memory, '
        'observability and value levels, driven by random reset/step/sample/set-memory sequences; the hidden state is '
        'read through the render method (which receives the current memory).')
ASSUMPTIONS = ['full observability with several agents is not generated (its observation would need per-agent states)']


def characteristics(**force):
    @st.composite
    def go(draw):
        ch = {k: draw(st.sampled_from(v)) for k, v in CHAINS.items()}
        ch.update(goals=True, renderable=True, constrained=False)
        for k, v in force.items():
            ch[k] = draw(v) if isinstance(v, st.SearchStrategy) else v
        if ch['agent'] == 'MultiAgent' and ch['obs'] == 'FullyObservable':
            ch['obs'] = 'TransformedObservable'
        return ch
    return go()


@st.composite
def cases(draw):
    spec = draw(specs(ch=draw(characteristics())))
    M = Model(spec)
    op = st.one_of(
        st.tuples(st.just('step'), raw_action(spec, M)),
        st.tuples(st.just('step'), raw_action(spec, M)),
        st.tuples(st.just('reset')),
        st.tuples(st.just('sample'), raw_memory(spec, M), raw_action(spec, M)),
        st.tuples(st.just('set'), raw_memory(spec, M)),
    ).map(list)
    ops = draw(st.lists(op, min_size=2, max_size=10))
    return dict(spec=spec, ops=[['reset']] + ops)


def plain(m):
    return list(m) if isinstance(m, Memory) else m


def outcome_states(M, memory, action, out):
    """States of the support that explain the outcome entirely."""
    good = []
    sim = M.ch['dyn'] in ('Environment', 'Simulation')
    for s, _ in M.trans(memory, action):
        if out.value != M.mk_value(M.value(memory, action, s)):
            continue
        if out.termination != M.terminal(s):
            continue
        info = ('i%d' % s) if sim else None
        if out.info != ({k: info for k in M.agents} if M.multi else info):
            continue
        if not any(out.observation == o for o, _ in M.obs(s, action)):
            continue
        good.append(s)
    return good


def check(case, ctx):
    spec = case['spec']
    M = Model(spec)
    dom = make_domain(spec)()
    cur = lambda: dom.render()[1]
    model, steps, held = None, 0, []
    for op in case['ops']:
        if op[0] == 'reset':
            o = dom.reset()
            m = cur()
            ok = [s for s, _ in M.init() if any(o == x for x, _ in M.obs(s, None))]
            require(ok, 'reset: observation %r belongs to no initial state', o)
            if M.ch['memory'] == 'Memoryless':
                require(m is None, 'memoryless domain holds %r', m)
            else:
                good = [M.init_memory(s) for s in ok]
                require(any(type(m) is type(g) and m == g for g in good),
                        'reset: memory %r is not a fresh memory of an initial state observed as %r', m, o)
            model = plain(m)
        elif op[0] == 'set':
            if M.ch['dyn'] == 'Environment' or M.ch['memory'] == 'Memoryless':
                continue
            given = mem(M, op[1])
            dom.set_memory(given)
            held.append((given, plain(mem(M, op[1]))))
            m = cur()
            model = plain(m)
            require(type(m) is type(given), 'set memory: %r became %r', given, m)
            eq(model, plain(given), 'memory after setting it')
            ctx.label('set_memory')
        elif op[0] == 'sample':
            if M.ch['dyn'] == 'Environment':
                continue
            before = plain(cur())
            given = mem(M, op[1])
            out = dom.sample(given, op[2])
            require(isinstance(out, EnvironmentOutcome), 'sample returned %r', out)
            eq(plain(given), plain(mem(M, op[1])), 'memory given to sample, after the call')
            eq(plain(cur()), before, 'memory of the domain after sampling')
            require(outcome_states(M, mem(M, op[1]), op[2], out),
                    'sample(%r, %r) = %r: no declared next state explains it', op[1], op[2], out)
        else:
            prev = mem(M, model)
            out = dom.step(op[1])
            steps += 1
            require(isinstance(out, EnvironmentOutcome), 'step returned %r', out)
            ok = outcome_states(M, prev, op[1], out)
            require(ok, 'step(%r) from %r = %r: no declared next state explains it', op[1], model, out)
            m = cur()
            good = [M.next_memory(prev, s) for s in ok]
            require(any(type(m) is type(g) and m == g for g in good),
                    'memory after step from %r: %r, expected one of %r', model, m, good)
            model = plain(m)
    for h, want in held:
        eq(plain(h), want, 'memory object given to the domain, after later steps')
    ctx.nontrivial(steps >= 2)
    ctx.label(*[M.ch[k] for k in ('dyn', 'memory', 'obs')])


SUBCHECKS = [Sub('episodes', cases, check, quick=4500, thorough=15000,
                 rule='random operation sequences of 3-11 operations; non-trivial: at least two steps')]
