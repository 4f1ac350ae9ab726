"""What check modules use."""


class Violation(Exception):
    pass


class Discard(Exception):
    """The generated case is outside the property's domain (kept rare)."""


class Ctx:
    def __init__(self, known_mode=False):
        self.known_mode = known_mode
        self.discarded = 0
        self.crashed = 0
        self.begin()

    def begin(self):
        self.is_nontrivial = False
        self.case_labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        for n in names:
            if n and n not in self.case_labels:
                self.case_labels.append(n)


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=None, rule='', examples=(), cpu_limit=20, weight=1, native=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = quick * 10 if thorough is None else thorough
        self.rule = rule
        self.examples = list(examples)
        self.cpu_limit = cpu_limit
        self.weight = weight
        self.native = native  # the check calls a native solver that may crash: loads it; every case then runs in a process of its own


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if not (got == want):
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def close(got, want, what, tol=1e-9):
    try:
        ok = abs(got - want) <= tol * max(1.0, abs(want), abs(got))
    except TypeError:
        ok = False
    if not ok:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def raises(fn, types, what):
    try:
        fn()
    except types:
        return
    raise Violation('%s: expected %s, nothing was raised' % (what, types))
