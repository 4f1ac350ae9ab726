"""MiniZinc in this sandbox has only Gecode, whose own library of constraints does not fit the MiniZinc installed (anything that
includes globals.mzn fails to compile). Solvers asked as `gecode` or `chuffed` (absent) run on Gecode with the standard library."""
import os
from datetime import timedelta

from minizinc import Instance, Solver

STD = '/usr/share/minizinc/std'
_lookup = Solver.lookup


def lookup(tag, *a, **k):
    if tag in ('chuffed', 'gecode'):
        s = _lookup('gecode', *a, **k)
        if os.path.isdir(STD):
            s.mznlib = STD
        return s
    return _lookup(tag, *a, **k)


Solver.lookup = lookup


# What a time limit leaves depends on the load of the machine: the small models solved here are given the time they need.
_solve = Instance.solve


def solve(self, *a, **k):
    for name in ('timeout', 'time_limit'):
        if k.get(name) is not None:
            k[name] = max(k[name], timedelta(seconds=600))
    return _solve(self, *a, **k)


Instance.solve = solve
