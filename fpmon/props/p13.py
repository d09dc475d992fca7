"""P13: expansion of descriptions against a recursive specification of the Cartesian product."""

import collections

from .. import gen
from ..lib import fp, mkclass, newtag, same_value, snapshot, uniq, util

LEAVES = ['alpha', 'beta', 'x1', '', 'None', 'r(1)', 'a b', 'ranges(1,2', 0, 1, 5, 2.5, None, True, False, 'range(a)', 'range', '[kind]', 'a.b',
          '{glob}', '{x:y}', 'é']
RANGES = ['range(3)', 'range(1,3)', 'range(0,6,3)', 'range(2,7,2)', 'RANGE(1,2)', 'Range(4)', 'range(5,2)', 'range(0)', 'range(10,12)',
          'range(007,9)', 'range(0,24,12)', 'range(0,60,30)', 'range(96,102,3)', 'range(1,1)', 'range(0,0,5)', 'range(3,12,4)']
COMMAS = ['x,y,z', 'a,b', 'a,a', 'a,,b', ',', 'x, y', 'range(1),b', 'a,range(1,2)', 'lone,', '1,2']
KEYS = ['kind', 'model', 'zone', 'term', 'b', 'a', 'z9', 'Upper', 'niv2', 'niv3', 'cutoff']


class Word(str):
    """An ordinary text."""


class Table(dict):
    """An ordinary mapping."""


def is_map(v):
    return type(v) in (dict, Table, collections.OrderedDict)


class Items(list):
    """An ordinary list."""


class Group(set):
    """An ordinary set."""


Pair = collections.namedtuple('Pair', 'one two')


def special(rng):
    return rng.choice([fp.FPList(['a', 'b']), fp.FPTuple((1, 2)), fp.FPSet([1, 2]), fp.FPDict(kind='x', a=[1, 2]), fp.FPStr('x,y,z'),
                       fp.FPStr('range(1,3)'), fp.FPList([]), fp.FPList([[1, 2], 'a,b']), fp.FPRegex('a,b'), fp.FPDict(), gen.Thing('q'),
                       dict(nokey=dict(x=1)), dict(), gen.Span(3), b'x,y'])


def value(rng, depth=2, sets=True):
    r = rng.random()
    if depth and r < 0.3:
        n = rng.choice([0, 1, 1, 2, 2, 3])
        items = [value(rng, depth - 1, sets) for _ in range(n)]
        if len(items) == 2 and rng.random() < 0.15:
            return Pair(*items)
        return rng.choice([list, tuple, list, tuple, list, tuple, Items])(items)
    if sets and depth and r < 0.36:
        return rng.choice([set, set, set, Group])(rng.sample(['s1', 's2', 's3', 4, 5, 'u,v', 'range(1,2)'], rng.randint(1, 3)))
    if r < 0.46:
        return rng.choice([str, str, str, str, str, Word])(rng.choice(RANGES))
    if r < 0.58:
        return rng.choice([str, str, str, str, str, Word])(rng.choice(COMMAS))
    if r < 0.7:
        return special(rng)
    return rng.choice(LEAVES)


def parse_range(v):
    inside = v[6:-1]
    n = [int(x) for x in inside.split(',')]
    start, stop = n[0], (n[1] if len(n) > 1 else n[0])
    return list(range(start, stop + 1, n[2] if len(n) > 2 else 1))


def is_range(v):
    if not (v.lower().startswith('range(') and v.endswith(')')):
        return False
    parts = v[6:-1].split(',')
    return 1 <= len(parts) <= 3 and all(p and all(c in '0123456789' for c in p) for p in parts)


def choices(v):
    """The values that v stands for, or None."""
    if type(v) in (list, tuple, set, Items, Pair, Group):
        return list(v)
    if type(v) in (str, Word):
        if is_range(v):
            return parse_range(v)
        if ',' in v:
            return v.split(',')
    return None


class NoItem(Exception):
    pass


def reference(d):
    """All the descriptions d stands for, in order."""
    for k, v in d.items():
        c = choices(v)
        if c is None and is_map(v):
            for other, items in v.items():
                if other in d and choices(d[other]) is None and not (is_map(d[other]) and any(x in d for x in d[other])):
                    if str(d[other]) not in items:
                        raise NoItem(k)
                    c = [items[str(d[other])]]
                    break
        if c is not None:
            out = list()
            for x in c:
                n = dict(d)
                n[k] = x
                out.extend(reference(n))
            return out
    return [d]


def depth(d):
    """An upper bound of the number of expansion levels."""
    def lev(v):
        c = choices(v)
        if c is not None:
            return 1 + max([lev(x) for x in c] or [0])
        if is_map(v):
            return 1 + max([lev(x) for it in v.values() if is_map(it) for x in it.values()] or [0])
        return 0
    return sum(lev(v) for v in d.values())


def image(d):
    return snapshot({k: v for k, v in d.items() if k != 'index_expansion'})


def has_set(v):
    if type(v) in (set, Group):
        return True
    if type(v) in (list, tuple, Items, Pair):
        return any(has_set(x) for x in v)
    if is_map(v):
        return any(has_set(x) for x in v.values())
    return False


def touch(v):
    """Change **v** in place, where possible, and return the function that undoes it."""
    if isinstance(v, list):
        v.append('MARK')
        return v.pop
    if isinstance(v, dict):
        v['MARK'] = 1
        return lambda: v.pop('MARK')
    if isinstance(v, set):
        v.add('MARK')
        return lambda: v.discard('MARK')
    return None


def independent(rng, mon, desc, got):
    """What is left whole belongs to each of the descriptions, that may change it on its own."""
    for k, v in desc.items():
        if not (type(v) in (fp.FPList, fp.FPDict, fp.FPSet) or is_map(v)):
            continue
        one, other = rng.sample(range(len(got)), 2)
        if is_map(v) and not (type(got[one][k]) is dict and any(same_value(v, d[k]) for d in got)):
            continue
        before = snapshot(desc), image(got[other])
        undo = touch(got[one][k])
        if undo is None:
            continue
        now = snapshot(desc), image(got[other])
        undo()
        mon.check(before[0] == now[0], 'changing {!r} in a resulting description changes the original one'.format(k))
        mon.check(before[1] == now[1], 'changing {!r} in a resulting description changes another one'.format(k))
        mon.ev('independence-observed')


def run_case(rng, mon):
    sets = rng.random() < 0.3
    keys = rng.sample(KEYS, rng.randint(1, 6))
    desc = {k: value(rng, sets=sets) for k in keys}
    if rng.random() < 0.1:
        desc['index_expansion'] = rng.choice([3, 'x'])
    # items chosen according to other entries
    used = set()
    for k in rng.sample(keys, min(len(keys), rng.choice([0, 1, 1, 2]))):
        others = [o for o in keys if o != k and type(desc[o]) is not dict]
        if k in used:
            continue
        if not others:
            continue
        o = rng.choice(others)
        if has_set(desc[o]) and not all(isinstance(x, (str, int)) for x in desc[o]):
            continue
        try:
            leaves = [x[o] for x in reference({o: desc[o]})]
            if not all(isinstance(x, (str, int, float, type(None))) for x in leaves):
                continue
            poss = {str(x) for x in leaves}
        except NoItem:
            continue
        if len(poss) > 12:
            continue
        items = {p: rng.choice([rng.choice(LEAVES), value(rng, 1, sets), 'for ' + p]) for p in sorted(poss)}
        if items and rng.random() < 0.1:
            items.pop(sorted(items)[0])
        desc[k] = rng.choice([dict, dict, dict, Table, collections.OrderedDict])({o: items})
        if rng.random() < 0.1:
            desc[k][o] = Table(items)
        used.add(o)
        if rng.random() < 0.15:
            desc[k] = type(desc[k])([('unrelated', dict(x=1))] + list(desc[k].items()))
        if rng.random() < 0.3:
            # the reference comes first, or last
            v = desc.pop(o)
            desc[o] = v
    if rng.random() < 0.15 and len(keys) > 1:
        # a chain of choices
        a, b, c = 'ca', 'cb', 'cc'
        desc[a] = {b: dict(u='1', v=[2, 3])}
        desc[b] = {c: {'0': 'u', '7': 'v'}}
        desc[c] = rng.choice([[0, 7], '0,7', 'range(0,7,7)', (7, 0)])
    if rng.random() < 0.25:
        tag = newtag()
        cls = mkclass(uniq('Exp'), (tag,), dict(attr=dict(kk=dict())))
        desc['provider'] = cls
    items = list(desc.items())
    rng.shuffle(items)
    desc = dict(items)
    if depth(desc) > 22:
        mon.ev('too-deep')
        return
    mon.note('description', desc)
    mon.sig(sorted(map(repr, desc.items())))
    sets = any(has_set(v) for v in desc.values())
    try:
        expected = reference(desc)
    except NoItem:
        expected = None
    if expected is not None and len(expected) > 3000:
        return
    before = snapshot(desc)
    order = list(desc)
    ids = {k: id(v) for k, v in desc.items()}
    o = mon.call('expand', util.expand, desc)
    mon.check(before == snapshot(desc) and order == list(desc) and ids == {k: id(v) for k, v in desc.items()}, 'the description has been modified')
    if expected is None:
        mon.check(not o.ok, 'no item matches, but the expansion gave {!r}'.format(o.value))
        mon.ev('no-item')
        return
    mon.check(o.ok, 'expansion of {!r} failed: {!r}'.format(desc, o))
    got = o.value
    if len(expected) != 1:
        mon.nontrivial()
    mon.ev('descriptions-observed', len(got))
    mon.check(type(got) is list and all(type(d) is dict for d in got), 'not a list of descriptions: {!r}'.format(got))
    mon.same('number of descriptions', len(got), len(expected), desc=desc)
    mon.same('numbers', [d.get('index_expansion') for d in got], list(range(1, len(got) + 1)))
    if sets:
        mon.check(collections.Counter(map(image, got)) == collections.Counter(map(image, expected)),
                  'observed {!r}, expected {!r}'.format(got, expected))
    else:
        for i, (g, e) in enumerate(zip(got, expected)):
            e = {k: v for k, v in e.items() if k != 'index_expansion'}
            mon.check(image(g) == image(e), 'description {:d}: observed {!r}, expected {!r}'.format(i + 1, g, e))
    # Special containers and ordinary objects are left whole
    for d in got:
        for k, v in desc.items():
            if type(v).__name__.startswith('FP') and not isinstance(v, fp.FPRegex):
                mon.check(same_value(d[k], v), 'container {!r} became {!r}'.format(v, d[k]))
    if len(got) > 1:
        independent(rng, mon, desc, got)
    # Whatever the order of the keys
    items = list(desc.items())
    rng.shuffle(items)
    o = mon.call('expand', util.expand, dict(items))
    if not o.ok and (not got or any(x in repr(desc) for x in ('range(5,2)', '[]', '()'))):
        # a missing item in descriptions that are multiplied by zero
        return
    mon.check(o.ok, 'expansion of {!r} failed: {!r}'.format(items, o))
    o = o.value
    mon.check(collections.Counter(map(image, o)) == collections.Counter(map(image, got)), 'with another order of the keys: {!r} instead of {!r}'
              .format(o, got), items=items)
    mon.same('numbers', [d.get('index_expansion') for d in o], list(range(1, len(o) + 1)))
    # Expanding again changes nothing
    for d in got[:5]:
        again = mon.ok('expand', util.expand, d)
        if not any(is_map(v) for v in d.values()):
            mon.check(len(again) == 1 and image(again[0]) == image(d), 'expanding {!r} again gave {!r}'.format(d, again))
    # What was given before is not given again
    if rng.random() < 0.3 and not has_set(list(desc.values())):
        for d in got:
            d.clear()
        expected = [dict(d) for d in expected]
        for i in range(2):
            desc['opaque'] = Opaque(i)
            again = mon.ok('expand', util.expand, desc)
            mon.same('opaque objects', [d.pop('opaque').n for d in again], [i] * len(expected))
            mon.check([image(d) for d in again] == [image(d) for d in expected], 'the next expansion gives {!r}'.format(again))
        mon.ev('expanded-again')


class Opaque:
    """Things that all look the same."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Opaque'
