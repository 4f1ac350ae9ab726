"""For demonstrations: compiles the driver of one planner from the tree in the working directory, and asks it."""
import os
import shutil
import subprocess
import tempfile

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cpp')


def ask(name, world, ops, params={}, flags=()):
    """Answers to the operations on a world: a list of (goal, heuristic, features, actions: lists of (probability, next, cost))."""
    work = tempfile.mkdtemp()
    try:
        base = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-DVP_' + name, *flags]
        dirs = ['-I%s/include' % HERE, '-I' + HERE, '-I' + os.path.join(os.getcwd(), 'cpp/src')]
        tail = [HERE + '/driver.cc', '-o', work + '/driver']
        for stub, lib in (['-I%s/stubs' % HERE], []), ([], ['-lspdlog', '-lfmt']):
            p = subprocess.run(base + stub + dirs + tail + lib, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                break
        else:
            raise SystemExit(p.stdout[-2000:])
        full = dict(discount=1.0, epsilon=0.001, max_tip=1, cycles=0, labels=1, time_budget=3600000, rollouts=100000, depth=1000, garbage=0,
                    ordering=0, debug=0, capacity=1, start=0, exploration=0.25, ucb=0.7, seed=1, schedule=1, rarity=2)
        order = list(full)
        full.update(params)
        out = [len(world)]
        for goal, h, features, actions in world:
            out += [goal, goal, h, len(features), *features, len(actions)]
            for a in actions:
                out += [len(a)] + [x for o in a for x in o]
        out += [full[x] for x in order] + [len(ops)] + [x for op in ops for x in op]
        r = subprocess.run([work + '/driver'], input=' '.join(map(str, out)) + '\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=100, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        print(r.stdout[-1500:])
        assert r.returncode == 0, 'the planner died'
        return [l.split() for l in r.stdout.splitlines() if l != '.' and not l.startswith('[')]
    finally:
        shutil.rmtree(work)
