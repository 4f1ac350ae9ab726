"""H02: wrapped and core spaces: membership, sampling, listing, conversions."""
import dataclasses
import enum
import json

import gym.spaces as gs
import numpy as np
from hypothesis import strategies as st

from skdecide import EmptySpace, ImplicitSpace, EnumerableSpace, SamplableSpace
from skdecide.hub.space.gym import (GymSpace, BoxSpace, DiscreteSpace, MultiDiscreteSpace, MultiBinarySpace, TupleSpace, DictSpace,
                                    EnumSpace, ListSpace, DataSpace)
from harness.api import Sub, require, eq

RULE = ('Random space descriptions (nested up to depth 3), members built from the description, values pushed just outside of it; '
        'membership, sampling, listing, wrapped/unwrapped and serialised round trips.')
ASSUMPTIONS = ['elements are compared by value, arrays element by element', 'box members have the data type of the box']


# ---- descriptions of gym spaces --------------------------------------------------------------------------------------
def desc(depth=2):
    leaf = st.one_of(
        st.integers(1, 6).map(lambda n: ['discrete', n]),
        st.tuples(st.lists(st.integers(-6, 5), min_size=1, max_size=3), st.integers(1, 6), st.sampled_from(['float32', 'float64', 'int64'])).map(
            lambda t: ['box', t[0], [x + t[1] for x in t[0]], t[2]]),
        st.lists(st.integers(1, 5), min_size=1, max_size=3).map(lambda v: ['multidiscrete', v]),
        st.integers(1, 4).map(lambda n: ['multibinary', n]))
    if depth == 0:
        return leaf
    sub = desc(depth - 1)
    return st.one_of(leaf, st.lists(sub, min_size=1, max_size=3).map(lambda v: ['tuple', v]),
                     st.dictionaries(st.sampled_from(['a', 'b', 'k c', 'z']), sub, min_size=1, max_size=3).map(
                         lambda d: ['dict', [[k, d[k]] for k in sorted(d)]]))


def raw_gym(d):
    k = d[0]
    if k == 'discrete':
        return gs.Discrete(d[1])
    if k == 'box':
        return gs.Box(np.array(d[1], dtype=d[3]), np.array(d[2], dtype=d[3]), dtype=np.dtype(d[3]))
    if k == 'multidiscrete':
        return gs.MultiDiscrete(d[1])
    if k == 'multibinary':
        return gs.MultiBinary(d[1])
    if k == 'tuple':
        return gs.Tuple([raw_gym(x) for x in d[1]])
    return gs.Dict({n: raw_gym(x) for n, x in d[1]})


def wrap(d):
    k = d[0]
    if k == 'discrete':
        return DiscreteSpace(d[1])
    if k == 'box':
        return BoxSpace(np.array(d[1], dtype=d[3]), np.array(d[2], dtype=d[3]), dtype=np.dtype(d[3]))
    if k == 'multidiscrete':
        return MultiDiscreteSpace(d[1])
    if k == 'multibinary':
        return MultiBinarySpace(d[1])
    if k == 'tuple':
        return TupleSpace([raw_gym(x) for x in d[1]])
    return DictSpace({n: raw_gym(x) for n, x in d[1]})


def member(d, fr, out=None):
    """The member of d chosen by the fractions fr (an iterator); with out = index of the leaf pushed outside of the space."""
    cnt = [0]

    def go(d):
        k = d[0]
        if k == 'tuple':
            return tuple(go(x) for x in d[1])
        if k == 'dict':
            return {n: go(x) for n, x in d[1]}
        me = cnt[0] == out
        cnt[0] += 1
        f = next(fr)
        if k == 'discrete':
            return d[1] + 0 if me else min(d[1] - 1, int(f * d[1]))
        if k == 'multidiscrete':
            v = [min(n - 1, int(f * n)) for n in d[1]]
            if me:
                v[-1] = d[1][-1]
            return np.array(v, dtype=np.int64)
        if k == 'multibinary':
            v = [int(f * (i + 2) * 5) % 2 for i in range(d[1])]
            if me:
                v[-1] = 2
            return np.array(v, dtype=np.int8)
        v = [l + (h - l) * f for l, h in zip(d[1], d[2])]
        v = [int(x) if d[3] == 'int64' else x for x in v]
        if me:
            v[0] = d[2][0] + 1
        return np.array(v, dtype=d[3])
    return go(d), cnt


def leaves(d):
    return sum(leaves(x[1] if d[0] == 'dict' else x) for x in d[1]) if d[0] in ('tuple', 'dict') else 1


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple) or (isinstance(a, list) and isinstance(b, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if dataclasses.is_dataclass(a):
        return type(a) is type(b) and all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    x, y = np.asarray(a), np.asarray(b)
    return x.shape == y.shape and bool(np.all(x == y)) if x.dtype != object else a == b


def inside(d, v):
    """Reference membership of a sampled value."""
    k = d[0]
    if k == 'discrete':
        return np.asarray(v).shape == () and 0 <= int(v) < d[1] and int(v) == v
    if k == 'tuple':
        return isinstance(v, tuple) and len(v) == len(d[1]) and all(inside(x, y) for x, y in zip(d[1], v))
    if k == 'dict':
        return set(v) == {n for n, _ in d[1]} and all(inside(x, v[n]) for n, x in d[1])
    v = np.asarray(v)
    lo, hi = (d[1], d[2]) if k == 'box' else ([0] * len(d[1]), [n - 1 for n in d[1]]) if k == 'multidiscrete' else ([0] * d[1], [1] * d[1])
    return v.shape == (len(lo),) and all(l <= x <= h for l, x, h in zip(lo, v, hi))


FR = st.lists(st.integers(0, 63).map(lambda v: v / 63), min_size=30, max_size=30)


@st.composite
def gym_cases(draw):
    d = draw(desc())
    return dict(d=d, fr=[draw(FR) for _ in range(draw(st.integers(1, 3)))], out=draw(st.integers(0, leaves(d) - 1)), seed=draw(st.integers(0, 9999)),
                generic=draw(st.booleans()))


def check_space(space, members, outsiders, ctx, name, is_inside):
    for m in members:
        require(space.contains(m), '%s does not contain its member %r', name, m)
    for o in outsiders:
        require(not space.contains(o), '%s contains %r', name, o)
    for _ in range(4):
        s = space.sample()
        require(is_inside(s), '%s sampled %r, which is outside of it', name, s)
        require(space.contains(s), '%s does not contain its own sample %r', name, s)
        members = members + [s]
    gym_space = space.unwrapped()
    un = list(space.to_unwrapped(members))
    eq(len(un), len(members), 'number of unwrapped elements')
    for u in un:
        require(gym_space.contains(u), 'unwrapped element %r is not in the wrapped space %s', u, gym_space)
    back = list(space.from_unwrapped(un))
    eq(len(back), len(members), 'number of elements')
    for m, b in zip(members, back):
        require(same(m, b), '%s: %r became %r after unwrapping and wrapping', name, m, b)
    js = space.to_jsonable(members)
    back = list(space.from_jsonable(json.loads(json.dumps(js))))
    eq(len(back), len(members), 'number of elements read back')
    for m, b in zip(members, back):
        require(same(m, b), '%s: %r became %r after being serialised', name, m, b)


def wrapped(case, ctx):
    d = case['d']
    space = GymSpace(raw_gym(d)) if case['generic'] else wrap(d)
    space.unwrapped().seed(case['seed'])
    require(space.unwrapped() == raw_gym(d), 'the wrapped space is %s instead of %s', space.unwrapped(), raw_gym(d))
    ms = [member(d, iter(f))[0] for f in case['fr']]
    outs = [member(d, iter(f), case['out'])[0] for f in case['fr']]
    check_space(space, ms, outs, ctx, d[0] + ' space', lambda s: inside(d, s))
    ctx.nontrivial(d[0] in ('tuple', 'dict') or len(case['fr']) > 1)
    ctx.label(d[0])


# ---- listed spaces -----------------------------------------------------------------------------------------------------
class Hue(enum.Enum):
    red = 'r'
    green = 2
    blue = (3, 4)
    black = None


class Level(enum.IntEnum):
    high = 7
    low = 1


class One(enum.Enum):
    only = 0


ENUMS = dict(Hue=Hue, Level=Level, One=One)
elem = st.one_of(st.integers(-5, 20), st.text('abc', min_size=1, max_size=2), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list))


@st.composite
def list_cases(draw):
    return dict(enum=draw(st.one_of(st.none(), st.sampled_from(sorted(ENUMS)))), elements=draw(st.lists(elem, min_size=1, max_size=6, unique_by=repr)),
                other=draw(elem), seed=draw(st.integers(0, 9999)), gen=draw(st.booleans()))


def listed(case, ctx):
    if case['enum']:
        E = ENUMS[case['enum']]
        els, space, outs = list(E), EnumSpace(E), [[x for x in O][0] for n, O in ENUMS.items() if n != case['enum']] + ['zz', -1] + [e.value for e in E if E is not Level]
    else:
        els = [tuple(e) if isinstance(e, list) else e for e in case['elements']]
        space = ListSpace(iter(els) if case['gen'] else els)
        o = tuple(case['other']) if isinstance(case['other'], list) else case['other']
        outs = [o] if o not in els else []
    space.unwrapped().seed(case['seed'])
    eq(list(space.get_elements()), els, 'elements')
    eq(space.unwrapped().n, len(els), 'size of the wrapped space')
    for e in els:
        require(space.contains(e), 'listed element %r is not contained', e)
    eq(list(space.to_unwrapped(els)), list(range(len(els))), 'indices of the elements')
    if case['enum']:
        check_space(space, els, outs, ctx, 'enumeration', lambda s: s in els)
    else:
        for o in outs:
            require(not space.contains(o), '%r is contained', o)
        for _ in range(5):
            s = space.sample()
            require(s in els and space.contains(s), 'sampled %r', s)
        idx = [(i * 3 + 1) % len(els) for i in range(5)]
        eq(list(space.from_unwrapped(idx)), [els[i] for i in idx], 'elements at indices %s' % idx)
        eq(list(space.to_unwrapped([els[i] for i in idx])), idx, 'indices of elements')
        eq(list(space.from_jsonable(space.to_jsonable(els))), els, 'serialised elements')
    ctx.nontrivial(len(els) > 1)
    ctx.label(case['enum'] or 'list')


# ---- data classes --------------------------------------------------------------------------------------------------------
@st.composite
def data_cases(draw):
    fields = draw(st.lists(st.tuples(st.sampled_from(['alpha', 'beta', 'x', 'y_2']), desc(1)), min_size=1, max_size=3, unique_by=lambda t: t[0]))
    n = sum(leaves(d) for _, d in fields)
    return dict(fields=[list(f) for f in fields], fr=[draw(FR) for _ in range(draw(st.integers(1, 3)))], out=draw(st.integers(0, n - 1)),
                seed=draw(st.integers(0, 9999)), pairs=draw(st.booleans()), frozen=draw(st.booleans()), scalars=draw(st.booleans()))


def data(case, ctx):
    names = [n for n, _ in case['fields']]
    DC = dataclasses.make_dataclass('Rec', [(n, object) for n in names], frozen=case['frozen'], eq=False)
    spaces = [(n, raw_gym(d)) for n, d in case['fields']]
    space = DataSpace(DC, spaces if case['pairs'] else dict(spaces))
    space.unwrapped().seed(case['seed'])
    whole = ['dict', case['fields']]
    build = lambda v: DC(**v)
    ms = [build(member(whole, iter(f))[0]) for f in case['fr']]
    outs = [build(member(whole, iter(f), case['out'])[0]) for f in case['fr']]
    require(not dataclasses.is_dataclass(space.unwrapped().sample()), 'the wrapped space samples dictionaries')
    check_space(space, ms, outs, ctx, 'data space', lambda s: isinstance(s, DC) and inside(whole, {n: getattr(s, n) for n in names}))
    for f, m in zip(case['fr'], ms):
        u = list(space.to_unwrapped([m]))[0]
        require(same(u, member(whole, iter(f))[0]), 'unwrapped %r is %r', m, u)
    ctx.nontrivial(len(names) > 1)
    ctx.label('fields:%d' % len(names))


# ---- core spaces ----------------------------------------------------------------------------------------------------------
@st.composite
def core_cases(draw):
    return dict(mod=draw(st.integers(1, 5)), rest=draw(st.integers(0, 4)), xs=draw(st.lists(st.integers(-9, 9), min_size=1, max_size=6)))


def core(case, ctx):
    sp = ImplicitSpace(lambda x: x % case['mod'] == case['rest'])

    class Listed(EnumerableSpace, SamplableSpace):
        def get_elements(self):
            return list(case['xs'])

        def sample(self):
            return case['xs'][0]
    l = Listed()
    for x in range(-12, 13):
        eq(bool(sp.contains(x)), x % case['mod'] == case['rest'], 'implicit membership of %d' % x)
        eq(x in sp, x % case['mod'] == case['rest'], 'implicit membership of %d, by operator' % x) if hasattr(type(sp), '__contains__') else None
        require(not EmptySpace().contains(x), 'the empty space contains %d', x)
        eq(bool(l.contains(x)), x in case['xs'], 'membership of %d in a listed space' % x)
    eq(list(EmptySpace().get_elements()), [], 'elements of the empty space')
    ctx.nontrivial(case['rest'] < case['mod'] and case['mod'] > 1)
SUBCHECKS = [Sub('wrapped', gym_cases, wrapped, quick=1800, thorough=15000, rule='nested spaces or several members'),
             Sub('listed', list_cases, listed, quick=1200, thorough=6000, rule='several elements'),
             Sub('data', data_cases, data, quick=1200, thorough=10000, rule='several fields'),
             Sub('core', core_cases, core, quick=300, thorough=1000, rule='membership depends on the value')]
