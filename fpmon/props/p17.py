"""P17: special container types behave as values."""

import copy
import pickle
import re

from ..lib import fp, importable, mkclass, newtag, snapshot, uniq, util

BASES = dict(FPList=list, FPTuple=tuple, FPSet=set, FPDict=dict, FPStr=str)


class Sum:
    """A hashable user value."""

    def __init__(self, *parts):
        self.parts = parts

    def __eq__(self, other):
        return isinstance(other, Sum) and sum(self.parts) == sum(other.parts)

    def __hash__(self):
        return hash(sum(self.parts))

    def __repr__(self):
        return 'Sum{!r}'.format(self.parts)


def atom(rng, hashed=True):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, 2, 3, 8, 16, 24, -1, -2, 2 ** 61 - 1, 10 ** 20])
    if r < 0.6:
        return rng.choice(['a', 'b', 'ab', 'x,y', '[kind]', 'range(1,3)', '', 'A', 'é', '1', '2', '-1', 'None', 'True', '1.0', 'b' * 50])
    if r < 0.68:
        return rng.choice([1.0, 2.5, 0.0, -0.0, 1e300])
    if r < 0.74:
        return rng.choice([True, False, None])
    if r < 0.8:
        return rng.choice([(1, 2), ('a', (1, )), frozenset([1, 'a'])])
    if r < 0.85:
        return Sum(rng.randint(0, 3), rng.randint(0, 3))
    if r < 0.97 or hashed:
        return rng.choice([fp.FPTuple((1, 'a')), fp.FPStr('a,b'), fp.FPList([1, 2]), fp.FPSet([3, 'z']), fp.FPDict(a=1, b=2)])
    return rng.choice([[1, 2], dict(a=1), set([1]), [[]]])


def equivalent(rng, x):
    """Something equal to x, made another way."""
    if isinstance(x, Sum):
        return Sum(sum(x.parts), 0)
    if type(x) is fp.FPDict:
        return fill(rng, 'FPDict', list(x.items()))
    if type(x) is fp.FPSet:
        return fill(rng, 'FPSet', list(x))
    if type(x) in (fp.FPList, fp.FPTuple):
        return fill(rng, type(x).__name__, list(x))
    if type(x) is int and abs(x) < 2 ** 40 and rng.random() < 0.3:
        return float(x)
    if type(x) is float and x == int(x) and rng.random() < 0.3:
        return int(x)
    if type(x) is bool and rng.random() < 0.5:
        return int(x)
    if type(x) in (list, dict, set):
        return copy.deepcopy(x)
    return x


def fill(rng, kind, items):
    """A container of these items (pairs for a mapping), filled in some way."""
    cls = getattr(fp, kind)
    items = list(items)
    if kind == 'FPDict':
        rng.shuffle(items)
        items = [(equivalent(rng, k), equivalent(rng, v)) for k, v in items]
        how = rng.choice(['init', 'setitem', 'update', 'detour', 'fromkeys'])
        if how == 'init':
            return cls(items)
        d = cls()
        if how == 'fromkeys':
            d = cls.fromkeys([k for k, _ in items])
        if how == 'detour':
            for i in range(rng.randint(1, 20)):
                d['detour%d' % i] = i
            hash(d)
        if how == 'update':
            d.update(dict(items))
        else:
            for k, v in items:
                d[k] = v
        for k in [k for k in d if isinstance(k, str) and k.startswith('detour')]:
            del d[k]
        return d
    items = [equivalent(rng, x) for x in items]
    if kind == 'FPSet':
        rng.shuffle(items)
        how = rng.choice(['init', 'add', 'update', 'detour'])
        if how == 'init':
            return cls(items)
        s = cls()
        if how == 'detour':
            s.update(range(1000, 1000 + rng.randint(1, 40)))
            hash(s)
        for x in items:
            s.add(x)
        if how == 'detour':
            for x in [x for x in s if isinstance(x, int) and 1000 <= x < 1100]:
                s.discard(x)
        return s
    if kind == 'FPList':
        how = rng.choice(['init', 'append', 'detour'])
        if how == 'init':
            return cls(items)
        x = cls()
        if how == 'detour':
            x.extend('abc')
            hash(x)
            del x[:]
        for i in items:
            x.append(i)
        return x
    return cls(rng.choice([list, tuple])(items))


def builtin(x):
    return BASES[type(x).__name__](x)


def check_value(rng, mon, x, y):
    """Equality, hash, membership."""
    name = type(x).__name__
    mon.check(x == y and y == x and not (x != y), '{} objects filled with the same items differ: {!r} {!r}'.format(name, x, y))
    hx, hy = mon.ok('hash', hash, x), mon.ok('hash', hash, y)
    mon.check(hx == hy, 'equal {} objects have different hashes: {!r} {!r}'.format(name, x, y))
    mon.check(y in {x} and {x: 'found'}.get(y) == 'found' and len({x, y}) == 1, 'not found in a dictionary: {!r}'.format(y))
    mon.check(hash(x) == hx, 'the hash of {!r} changes'.format(x))
    mon.ev('hashes-compared')


def check_copies(rng, mon, x):
    name = type(x).__name__
    before = snapshot(x)
    for how, fn in (('deepcopy', copy.deepcopy), ('copy', copy.copy),
                    ('pickle', lambda v: pickle.loads(pickle.dumps(v, rng.randint(0, pickle.HIGHEST_PROTOCOL))))):
        y = mon.ok(how, fn, x)
        mon.check(type(y) is type(x), '{} of a {} is a {}'.format(how, name, type(y).__name__))
        mon.check(x == y and y == x, '{} of {!r} gives {!r}'.format(how, x, y))
        mon.check(snapshot(y) == before, '{} of {!r} gives {!r}'.format(how, x, y))
        if how == 'deepcopy':
            check_independent(mon, x, y)
        try:
            h = hash(x)
        except TypeError:
            h = None
        if h is not None:
            mon.check(hash(y) == h, 'the {} of {!r} has another hash'.format(how, x))
    mon.check(snapshot(x) == before, '{!r} has been changed'.format(x))


def check_independent(mon, x, y):
    """No mutable container in common."""
    if isinstance(x, (list, dict, set)):
        mon.check(x is not y, 'the deep copy shares {!r}'.format(x))
    if isinstance(x, (list, tuple)):
        for a, b in zip(x, y):
            check_independent(mon, a, b)
    elif isinstance(x, dict):
        for k in x:
            check_independent(mon, x[k], y[k])


def check_builtin(rng, mon, x):
    b = builtin(x)
    cls = type(x)
    mon.check(x == b and b == x and not (x != b), '{!r} differs from {!r}'.format(x, b))
    y = mon.ok('convert', cls, b)
    mon.check(type(y) is cls and y == x and y == b, 'converting {!r} gives {!r}'.format(b, y))
    mon.check(isinstance(x, BASES[cls.__name__]), 'not a {!r}'.format(BASES[cls.__name__]))
    mon.same('length', len(x), len(b))
    mon.check(bool(x) == bool(b), 'truth value of {!r}'.format(x))


def check_items(rng, mon, x):
    if isinstance(x, str):
        return
    got = mon.ok('items', x.items)
    if isinstance(x, dict):
        mon.check(list(got) == [(k, x[k]) for k in x], 'items of {!r}: {!r}'.format(x, got))
    else:
        got2 = list(got)
        mon.check(len(got2) == len(x) and all(any(a is b for b in x) for a in got2)
                  and all(any(a is b for b in got2) for a in x), 'items of {!r}: {!r}'.format(x, got))
        if not isinstance(x, set):
            mon.check(all(a is b for a, b in zip(got2, x)), 'items of {!r}: {!r}'.format(x, got))
        if isinstance(got, list):
            n = len(x)
            got.append('intruder')
            mon.same('length once the items have been changed', len(x), n)
        again = mon.ok('items', x.items)
        mon.check(len(again) == len(x) and all(any(a is b for b in x) for a in again), 'items of {!r}, the second time: {!r}'.format(x, again))
        if isinstance(x, (list, set)) and rng.random() < 0.5:
            # the items follow the content
            y = type(x)(x)
            mon.ok('items', y.items)
            hash(tuple(map(id, y)))
            if isinstance(y, list):
                y.append('late')
            else:
                y.add('late')
            mon.check(any(z == 'late' for z in mon.ok('items', y.items)) and len(y.items()) == len(y), 'items of {!r}: {!r}'.format(y, y.items()))
            if isinstance(y, set):
                exported = mon.ok('footprint_export', y.footprint_export)
                mon.check(any(z == 'late' for z in exported) and len(exported) == len(y), 'export of {!r}: {!r}'.format(y, exported))
            y.clear()
            mon.check(not mon.ok('items', y.items), 'items of an empty container: {!r}'.format(y.items()))
    if hasattr(x, 'footprint_export'):
        got = mon.ok('footprint_export', x.footprint_export)
        mon.check(isinstance(got, list), 'a set is exported as {!r}'.format(got))
        mon.check(len(got) == len(x) and all(any(a is b for b in x) for a in got)
                  and all(any(a is b for b in got) for a in x), 'export of {!r}: {!r}'.format(x, got))
        try:
            mon.same('sorted export', got, sorted(x))
        except TypeError:
            pass
        got.append('intruder')
        mon.check('intruder' not in x, 'the export of {!r} is shared'.format(x))
    mon.ev('items-observed')


def check_expand(rng, mon, x):
    """Never expanded, wherever it is."""
    desc = dict(value=x, other=rng.choice(['plain', [1, 2], 'a,b', 'range(1,2)', 5]), a='x', kind='k')
    if rng.random() < 0.3:
        desc['second'] = rng.choice([[x], (x, x), [[x]], {1: 2}])
    items = list(desc.items())
    rng.shuffle(items)
    desc = dict(items)
    before = snapshot(desc)
    got = mon.ok('expand', util.expand, desc)
    mon.check(snapshot(desc) == before, 'the description has been modified by expand')
    n = 1 if desc['other'] in ('plain', 5) else 2
    if isinstance(desc.get('second'), tuple):
        n *= 2
    mon.same('number of descriptions for {!r}'.format(desc), len(got), n)
    for d in got:
        mon.check(type(d['value']) is type(x) and d['value'] == x, '{!r} has been expanded as {!r}'.format(x, d['value']))
        if 'second' in desc and type(desc['second']) is not dict:
            mon.check(type(d['second']) is type(x) and d['second'] == x, '{!r} in a list has been expanded as {!r}'.format(x, d['second']))
    mon.ev('kept-whole')


def check_attribute(rng, mon, x):
    """As the value of an attribute."""
    cls = type(x)
    tag = newtag()
    default = rng.choice([None, builtin(x), x])
    attr = dict(value=dict(type=cls, access=rng.choice(['rxx', 'rwx'])), other=dict(type=cls, optional=True, default=default))
    if isinstance(default, dict) and type(default) is dict:
        attr['other']['default'] = x
        default = x
    c = importable(mkclass(uniq('Cls'), (tag,), dict(attr=attr)))
    given = rng.choice([x, builtin(x), builtin(x)])
    if isinstance(x, str) and re.search(r'\[\w', x):
        return
    obj = mon.ok('load', fp.collectors.get(tag=tag).load, value=given)
    mon.check(obj is not None, 'no object for the value {!r}'.format(given))
    mon.check(type(obj.value) is cls and obj.value == x, 'the value {!r} gives {!r}'.format(given, obj.value))
    if default is None:
        mon.same('default', obj.other, None)
    else:
        mon.check(type(obj.other) is cls and obj.other == x, 'the default {!r} gives {!r}'.format(default, obj.other))
    for how, o in (('pickle', pickle.loads(pickle.dumps(obj))), ('deepcopy', copy.deepcopy(obj)), ('clone', obj.footprint_clone())):
        mon.check(type(o.value) is cls and o.value == x, '{}: the value {!r} is {!r}'.format(how, x, o.value))
    exp = mon.ok('footprint_export', obj.footprint_export)
    e = exp['value']
    if isinstance(x, set):
        mon.check(isinstance(e, list) and len(e) == len(x) and all(i in e for i in x), 'export of {!r}: {!r}'.format(x, e))
    else:
        mon.check(e == x, 'export of {!r}: {!r}'.format(x, e))
    mon.ev('attributes-observed')
    grepped = fp.collectors.get(tag=tag).grep(value=builtin(x))
    mon.check(any(z is obj for z in grepped), 'not found by its value {!r}: {!r}'.format(x, grepped))


def regex_case(rng, mon):
    pattern = rng.choice([r'abc', r'^a+b*$', r'\d+', r'(?P<n>\w)x', r'[a-c]|é', r'a.c', '', r'\[x\]'])
    flags = rng.choice([0, 0, re.I, re.S, re.I | re.M, re.X, re.A])
    x = fp.FPRegex(pattern, flags) if flags else fp.FPRegex(pattern)
    ref = re.compile(pattern, flags)
    others = [x]
    for how, fn in (('deepcopy', copy.deepcopy), ('copy', copy.copy), ('in a container', lambda v: copy.deepcopy([v, dict(a=v)])[1]['a']),
                    ('pickle', lambda v: pickle.loads(pickle.dumps(v, rng.randint(0, pickle.HIGHEST_PROTOCOL))))):
        y = mon.ok('regex-' + how, fn, rng.choice(others))
        mon.check(type(y) is fp.FPRegex, '{} gives {!r}'.format(how, y))
        others.append(y)
    for y in others:
        mon.same('pattern', (y.pattern, y.flags), (ref.pattern, ref.flags))
        mon.same('export', tuple(mon.ok('footprint_export', y.footprint_export)), (ref.pattern, ref.flags))
        for t in ('abc', 'ABC', 'aab', '12', 'qx', 'é', 'a\nc', '', '[x]', 'zabc'):
            for m in ('match', 'search', 'fullmatch'):
                a, b = getattr(y, m)(t), getattr(ref, m)(t)
                mon.check((a is None) == (b is None) and (a is None or (a.span(), a.groupdict()) == (b.span(), b.groupdict())),
                          '{!r}.{}({!r}) differs from the pattern'.format(y, m, t))
            mon.same('sub', y.sub('<>', t), ref.sub('<>', t))
        mon.check(ref.pattern in str(y), 'text: {!r}'.format(str(y)))
        mon.check(str(y) in repr(y) or ref.pattern in repr(y), 'text: {!r}'.format(repr(y)))
        back = eval(str(y), dict(FPRegex=fp.FPRegex)) if "'" not in pattern else y
        mon.same('rebuilt', (back.pattern, back.flags), (ref.pattern, ref.flags))
    shared = copy.deepcopy([x, x])
    mon.check(shared[0] is shared[1], 'an object copied twice')
    got = mon.ok('expand', util.expand, dict(value=x, other=[1, 2]))
    mon.check(len(got) == 2 and all(d['value'].pattern == pattern and d['value'].flags == ref.flags for d in got), 'expanded: {!r}'.format(got))
    mon.sig('regex', pattern, flags)
    mon.nontrivial()
    mon.ev('regex-observed')
    if rng.random() < 0.5:
        tag = newtag()
        importable(mkclass(uniq('Cls'), (tag,), dict(attr=dict(value=dict(type=fp.FPRegex)))))
        given = rng.choice([x, pattern]) if pattern and not re.search(r'\[\w', pattern) else x
        obj = mon.ok('load', fp.collectors.get(tag=tag).load, value=given)
        for o in (obj, pickle.loads(pickle.dumps(obj)), copy.deepcopy(obj), obj.footprint_clone()):
            mon.same('value', (o.value.pattern, o.value.flags), (pattern, ref.flags if given is x else re.compile(pattern).flags))


def run_case(rng, mon):
    if rng.random() < 0.15:
        return regex_case(rng, mon)
    kind = rng.choice(['FPList', 'FPTuple', 'FPSet', 'FPDict', 'FPSet', 'FPDict', 'FPStr'])
    if kind == 'FPStr':
        x = fp.FPStr(rng.choice(['', 'a', 'a,b', 'range(1,3)', '{glob:i:*}', 'x, y', ',', 'RANGE(2)', 'é,à', '[kind]', 'a b']))
        y = fp.FPStr(str(x))
        hashed = True
    else:
        hashed = rng.random() < 0.8 or kind == 'FPSet'
        n = rng.choice([0, 1, 2, 3, 4, 6, 9, 17])
        if kind == 'FPDict':
            items = [(rng.choice([atom(rng), rng.choice(['a', 'b', 'c', 'kind'])]), atom(rng, hashed)) for _ in range(n)]
            items = list(dict(items).items())
        else:
            items = [atom(rng, hashed) for _ in range(n)]
            if kind == 'FPSet':
                items = list(set(items))
        x, y = fill(rng, kind, items), fill(rng, kind, items)
    mon.note(kind, x, y)
    before = snapshot(x)
    hashed = util.ishashable(x)
    if hashed:
        check_value(rng, mon, x, y)
    else:
        mon.ev('unhashable')
        mon.check(x == y, 'not equal: {!r} {!r}'.format(x, y))
        mon.refused('hash-unhashable', TypeError, hash, x)
    check_copies(rng, mon, x)
    check_builtin(rng, mon, x)
    check_items(rng, mon, x)
    if rng.random() < 0.6:
        check_expand(rng, mon, x)
    if rng.random() < 0.4:
        check_attribute(rng, mon, x)
    mon.check(snapshot(x) == before, '{!r} has been changed'.format(x))
    # the hash follows the content
    if hashed and kind in ('FPList', 'FPSet', 'FPDict'):
        for _ in range(rng.randint(1, 3)):
            z = atom(rng)
            for c in (x, y):
                if kind == 'FPList':
                    c.insert(1, z)
                elif kind == 'FPSet':
                    c.add(z)
                else:
                    c[z] = 'new'
        check_value(rng, mon, x, y)
        check_value(rng, mon, x, copy.deepcopy(x))
        mon.ev('hash-after-changes')
    if len(x) > 1:
        mon.nontrivial()
    mon.sig(kind, before)
