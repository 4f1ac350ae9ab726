"""H01: the example domains against independent statements of the rules of their games."""
from collections import Counter, deque

from hypothesis import strategies as st

from skdecide.hub.domain.maze import Maze
from skdecide.hub.domain.maze import maze as maze_mod
from skdecide.hub.domain.simple_grid_world import SimpleGridWorld
from skdecide.hub.domain.simple_grid_world import simple_grid_world as grid_mod
from skdecide.hub.domain.mastermind import MasterMind
from skdecide.hub.domain.mastermind import mastermind as mm_mod
from skdecide.hub.domain.rock_paper_scissors import RockPaperScissors
from skdecide.hub.domain.rock_paper_scissors import rock_paper_scissors as rps_mod
from skdecide.hub.solver.lazy_astar import LazyAstar
from harness.api import Sub, require, eq, close

RULE = ('Random boards, sizes, secrets and move sequences, through episodes (reset/step) and through the planning functions on '
        'arbitrary reachable states.')
ASSUMPTIONS = ['mazes are rectangular, with a closed border except for the start and the goal', 'the maze has one start and one goal']
MOVES = dict(up=(0, -1), down=(0, 1), left=(-1, 0), right=(1, 0))


@st.composite
def maze_cases(draw):
    w, h = draw(st.integers(3, 8)), draw(st.integers(3, 8))
    dens = draw(st.sampled_from([0, 1, 2, 3]))
    cells = [['#' if x in (0, w - 1) or y in (0, h - 1) or draw(st.integers(0, 7)) < dens else ' ' for x in range(w)] for y in range(h)]
    spots = draw(st.lists(st.tuples(st.integers(0, w - 1), st.integers(0, h - 1)), min_size=2, max_size=2, unique=True))
    wall = draw(st.sampled_from(['#', '+', '-', '|']))
    rows = [''.join(wall if c == '#' else c for c in r) for r in cells]
    for (x, y), c in zip(spots, 'ox'):
        rows[y] = rows[y][:x] + c + rows[y][x + 1:]
    return dict(rows=rows, moves=draw(st.lists(st.sampled_from(sorted(MOVES)), min_size=4, max_size=30)), pad=draw(st.booleans()))


def walk(dom, S, A, moves, start, goal, free, size, ctx):
    """Run an episode and compare every step with the board."""
    space = dom.get_observation_space()
    eq(sorted(a.name for a in dom.get_action_space().get_elements()), sorted(MOVES), 'action space')
    o = dom.reset()
    eq(tuple(o), start, 'initial observation')
    pos = start
    bumped = False
    for m in moves:
        require(space.contains(o), 'observation %r is outside of the observation space', o)
        require(dom.get_action_space().contains(A[m]) and dom.is_applicable_action(A[m]), 'every move is applicable')
        nx = (pos[0] + MOVES[m][0], pos[1] + MOVES[m][1])
        nx = nx if nx in free else pos
        bumped |= nx == pos
        eq(tuple(dom.get_next_state(S(*pos), A[m])), nx, 'next state of %s by %s' % (pos, m))
        cost = 2 if nx == pos else 1
        close(dom.get_transition_value(S(*pos), A[m], S(*nx)).cost, cost, 'cost of %s -> %s' % (pos, nx))
        out = dom.step(A[m])
        eq(tuple(out.observation), nx, 'observation after %s from %s' % (m, pos))
        close(out.value.cost, cost, 'cost of the step %s -> %s' % (pos, nx))
        eq(bool(out.termination), nx == goal, 'end of the game at %s (goal %s)' % (nx, goal))
        eq(bool(dom.is_goal(S(*nx))), nx == goal, 'goal test of %s' % (nx,))
        pos, o = nx, out.observation
    require(space.contains(o), 'observation %r is outside of the observation space', o)
    dist, q = {start: 0}, deque([start])
    while q:
        p = q.popleft()
        for d in MOVES.values():
            n = (p[0] + d[0], p[1] + d[1])
            if n in free and n not in dist:
                dist[n] = dist[p] + 1
                q.append(n)
    solver = LazyAstar()
    solver.solve(lambda: dom)
    if goal in dist:
        p, n = start, 0
        while p != goal:
            a = solver.get_next_action(S(*p))
            p = tuple(dom.get_next_state(S(*p), a))
            n += 1
            require(n <= len(free), 'the plan does not reach the goal')
        eq(n, dist[goal], 'length of the shortest way')
    else:
        require(not solver.is_policy_defined_for(S(*start)), 'a plan is given for a maze without a way out')
    ctx.nontrivial(len(moves) > 2 and bumped and pos != start)
    ctx.label('solvable' if goal in dist else 'closed')


def maze(case, ctx):
    rows = case['rows']
    free = {(x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c in ' ox'}
    find = lambda ch: [(x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c == ch][0]
    text = '\n'.join(rows)
    dom = Maze('\n' + text + '\n' if case['pad'] else text)
    walk(dom, maze_mod.State, {a.name: a for a in maze_mod.Action}, case['moves'], find('o'), find('x'), free, (len(rows[0]), len(rows)), ctx)


@st.composite
def grid_cases(draw):
    return dict(w=draw(st.integers(1, 7)), h=draw(st.integers(1, 7)), moves=draw(st.lists(st.sampled_from(sorted(MOVES)), min_size=4, max_size=30)))


def grid(case, ctx):
    w, h = case['w'], case['h']
    dom = SimpleGridWorld(num_cols=w, num_rows=h)
    free = {(x, y) for x in range(w) for y in range(h)}
    walk(dom, grid_mod.State, {a.name: a for a in grid_mod.Action}, case['moves'], (0, 0), (w - 1, h - 1), free, (w, h), ctx)


@st.composite
def mm_cases(draw):
    c, p = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    row = st.lists(st.integers(0, c - 1), min_size=p, max_size=p)
    return dict(c=c, p=p, solution=draw(row), guesses=draw(st.lists(row, min_size=1, max_size=6)), win=draw(st.booleans()))


def score(sol, guess):
    bulls = sum(a == b for a, b in zip(sol, guess))
    both = sum((Counter(sol) & Counter(guess)).values())
    return bulls, both - bulls


def mastermind(case, ctx):
    c, p = case['c'], case['p']
    dom = MasterMind(n_colours=c, n_positions=p)
    codes = dom.get_action_space().get_elements()
    eq(len(codes), c ** p, 'number of guesses')
    eq({tuple(x) for x in codes}, {tuple((k // c ** i) % c for i in range(p)) for k in range(c ** p)}, 'guesses')
    init = dom.get_initial_state_distribution().get_values()
    eq({tuple(s.solution) for s, _ in init}, {tuple(x) for x in codes}, 'possible secrets')
    eq(len(init), c ** p, 'each secret once')
    for s, q in init:
        close(q, 1 / c ** p, 'probability of a secret')
        eq(tuple(s.score), (0, 0), 'initial score')
    space = dom.get_observation_space()
    o = dom.reset()
    eq(tuple(o), (0, 0), 'initial observation')
    sol = tuple(case['solution'])
    S = mm_mod.State
    guesses = [tuple(g) for g in case['guesses']] + ([sol] if case['win'] else [])
    state = S(sol, mm_mod.Score(0, 0))
    dom.set_memory(state)
    for g in guesses:
        want = score(sol, g)
        require(dom.is_applicable_action(g), 'guess %s is applicable', g)
        nx = dom.get_next_state(state, g)
        eq((tuple(nx.solution), tuple(nx.score)), (sol, want), 'state after the guess %s of %s' % (g, sol))
        eq(tuple(dom.get_observation(nx, g)), want, 'answer to the guess %s of %s' % (g, sol))
        close(dom.get_transition_value(state, g, nx).cost, 1, 'cost of a guess')
        out = dom.step(g)
        eq(tuple(out.observation), want, 'answer to the guess %s of %s in an episode' % (g, sol))
        close(out.value.cost, 1, 'cost of a guess')
        won = g == sol
        eq(bool(out.termination), won, 'end of the game after %s of %s' % (g, sol))
        eq(bool(dom.is_goal(out.observation)), won, 'goal test after %s of %s' % (g, sol))
        eq(bool(dom.is_terminal(nx)), won, 'terminal test after %s of %s' % (g, sol))
        require(space.contains(out.observation), 'answer %s is outside of the observation space', tuple(out.observation))
        ctx.nontrivial(want[1] > 0 and want[0] > 0)
        ctx.label('won' if won else 'cows:%d' % want[1])
        state = nx


@st.composite
def rps_cases(draw):
    m = st.sampled_from(['rock', 'paper', 'scissors'])
    return dict(max=draw(st.integers(1, 8)), moves=draw(st.lists(st.tuples(m, m), min_size=1, max_size=10)), again=draw(st.booleans()))


def rps(case, ctx):
    M = {m.name: m for m in rps_mod.Move}
    beats = {('rock', 'scissors'), ('scissors', 'paper'), ('paper', 'rock')}
    dom = RockPaperScissors(max_moves=case['max'])
    for _ in range(2 if case['again'] else 1):
        o = dom.reset()
        eq(o, {'player1': M['rock'], 'player2': M['rock']}, 'initial observation')
        for i, (a, b) in enumerate(case['moves']):
            act = {'player1': M[a], 'player2': M[b]}
            for k in act:
                require(dom.get_action_space()[k].contains(act[k]), '%s may play %s', k, act[k])
            out = dom.step(act)
            r = 1 if (a, b) in beats else -1 if (b, a) in beats else 0
            eq((out.value['player1'].reward, out.value['player2'].reward), (r, -r), 'rewards of %s against %s' % (a, b))
            eq(out.observation, {'player1': M[b], 'player2': M[a]}, 'each player sees the move of the other')
            eq(bool(out.termination), i + 1 >= case['max'], 'end of the game after %d of %d moves' % (i + 1, case['max']))
            for k in act:
                require(dom.get_observation_space()[k].contains(out.observation[k]), 'observation in its space')
            if out.termination:
                break
    ctx.nontrivial(len(case['moves']) > 2)
    ctx.label('ended' if len(case['moves']) >= case['max'] else 'running')
SUBCHECKS = [Sub('maze', maze_cases, maze, quick=1200, thorough=8000, rule='moves both succeeded and bumped'),
             Sub('grid', grid_cases, grid, quick=600, thorough=4000, rule='moves both succeeded and bumped'),
             Sub('mastermind', mm_cases, mastermind, quick=1200, thorough=8000, rule='some answer has both bulls and cows'),
             Sub('rock_paper_scissors', rps_cases, rps, quick=600, thorough=4000, rule='more than two moves')]
