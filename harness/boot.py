"""Locate the code under test (/repo), Hypothesis, and stand-ins for missing commercial packages."""
import importlib.util
import io
import os
import subprocess
import sys
import tempfile
import types
import warnings

warnings.filterwarnings('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True


class Stub(types.ModuleType):
    """Import-only stand-in for bindings that are not installed (never called by any check)."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'GRB':  # the type letters, which the CBC variants of solvers borrow
            return types.SimpleNamespace(BINARY='B', INTEGER='I', CONTINUOUS='C')

        class _Missing:
            def __init__(self, *a, **k):
                raise RuntimeError('not available in this sandbox')
        _Missing.__name__ = name
        return _Missing


def boot():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    elif sys.path.index(REPO) > 1:
        sys.path.remove(REPO)
        sys.path.insert(0, REPO)
    if importlib.util.find_spec('hypothesis') is None:
        if os.path.isdir(os.path.join(VT, 'hypothesis')):
            sys.path.append(VT)
        if importlib.util.find_spec('hypothesis') is None:
            tmp = tempfile.mkdtemp(prefix='verif_hyp_')
            subprocess.check_call([sys.executable, '-m', 'pip', 'install', '-q', '--no-index', '--find-links',
                                   '/opt/veriftools/wheels', '--target', tmp, 'hypothesis'])
            sys.path.append(tmp)
    for name in ('gurobi', 'gurobipy'):
        if importlib.util.find_spec(name) is None:
            sys.modules[name] = Stub(name)
    try:
        found = importlib.util.find_spec('ortools.algorithms.pywrapknapsack_solver')
    except ImportError:
        found = None
    if found is None:  # removed from the OR-tools installed
        import ortools.algorithms
        name = 'ortools.algorithms.pywrapknapsack_solver'
        sys.modules[name] = ortools.algorithms.pywrapknapsack_solver = Stub(name)
    import hypothesis  # noqa: F401
    import skdecide
    import logging
    for name, lg in list(logging.root.manager.loggerDict.items()):
        if name.startswith('skdecide'):
            for h in getattr(lg, 'handlers', []):
                if isinstance(h, logging.StreamHandler):
                    h.setStream(open(os.devnull, 'w'))
    f = os.path.realpath(skdecide.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('skdecide imported from %s, not from %s' % (f, REPO))


class quiet:
    """Silence what the code under test prints (Python level)."""

    def __enter__(self):
        self.out, self.err = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.out, self.err
        return False
