"""Generators of attribute types, declarations, descriptions and setups (seeded, deterministic)."""

import abc
import datetime
import re

from .lib import fp, mkclass, newtag, uniq  # noqa: F401
from . import model


# Attribute types -----------------------------------------------------------

class Colour(str):
    """A text type whose conversion is not trivial."""

    def __new__(cls, v):
        if not isinstance(v, str):
            raise TypeError('a colour is a text')
        return super().__new__(cls, v.strip().lower())


class Even(int):
    """A numeric type that refuses some values."""

    def __new__(cls, v):
        v = int(v)
        if v % 2:
            raise ValueError('odd')
        return super().__new__(cls, v)


class Span:
    """A type with conversion arguments."""

    def __init__(self, length, unit='h', factor=1):
        if isinstance(length, Span):
            length = length.length
        self.length = int(length) * factor
        self.unit = unit

    def __eq__(self, other):
        return isinstance(other, Span) and (self.length, self.unit) == (other.length, other.unit)

    def __hash__(self):
        return hash((self.length, self.unit))

    def __repr__(self):
        return 'Span({0.length!r}, {0.unit!r})'.format(self)

    def __str__(self):
        return '{0.length}{0.unit}'.format(self)

    @property
    def double(self):
        return self.length * 2

    @property
    def nothing(self):
        return None

    def fmtmeth(self, g=None, e=None):
        return 'm{0.length}'.format(self)


class Fussy(str):
    """A type that refuses values with the library's own exception."""

    def __new__(cls, v):
        if 'z' in v:
            raise fp.FootprintException('no z please')
        return super().__new__(cls, v)


class Loose:
    """Compares equal to texts but hashes differently: membership needs plain comparisons."""

    def __init__(self, v):
        self.v = str(v).lower()

    def __eq__(self, other):
        return str(other).lower() == self.v

    def __hash__(self):
        return 12345

    def __repr__(self):
        return 'Loose({!r})'.format(self.v)

    def __str__(self):
        return self.v


class Unhash:
    """An unhashable type, with plain comparisons."""

    __hash__ = None

    def __init__(self, v):
        self.v = str(v)

    def __eq__(self, other):
        return isinstance(other, Unhash) and other.v == self.v

    def __repr__(self):
        return 'Unhash({!r})'.format(self.v)


class Nullish:
    """Compares as equal to nothing (and says so)."""

    def __init__(self, v):
        self.v = str(v)

    def __eq__(self, other):
        return other is None or other == 'None' or (isinstance(other, Nullish) and other.v == self.v)

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Nullish({!r})'.format(self.v)


class Maybe:
    """A comparison made item by item."""

    def __bool__(self):
        raise ValueError('The truth value of an array is ambiguous')


class Array:
    """Compared with anything else, neither equal nor different."""

    __hash__ = None

    def __init__(self, v):
        self.v = [float(x) for x in (v if isinstance(v, (list, tuple)) else [v])]

    def __eq__(self, other):
        return other.v == self.v if type(other) is Array else Maybe()

    def __ne__(self, other):
        return other.v != self.v if type(other) is Array else Maybe()

    def __repr__(self):
        return 'Array({!r})'.format(self.v)


class Shape:

    def __init__(self, *args):
        self.args = args

    def __eq__(self, other):
        return type(self) is type(other) and self.args == other.args

    def __hash__(self):
        return 54321


class Square(Shape):
    pass


class Round(Shape):
    pass


class Tile(Square):
    pass


class Other:
    pass


def homonym(name):
    """Another class with the same name."""
    return type(name, (object,), dict(__module__=__name__))


Shape2, Square2 = homonym('Shape'), homonym('Square')


class Provider:
    """A default computed at resolution time."""

    def __init__(self, value):
        self.value = value
        self.calls = 0

    def footprint_value(self):
        self.calls += 1
        return self.value

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Provider({!r})'.format(self.value)


class Thing:
    """An ordinary object used as an attribute."""

    def __init__(self, name='thing'):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Thing) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<Thing {}>'.format(self.name)


class Quantity(abc.ABC):
    """A type to which other classes are registered."""

    def __new__(cls, v=None):
        return Amount(v) if cls is Quantity else object.__new__(cls)

    def __eq__(self, other):
        return type(other) is type(self) and other.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return '{}({!r})'.format(type(self).__name__, self.v)


class Amount(Quantity):

    def __init__(self, v=None):
        self.v = float(v)


class Registered:
    """An instance of *Quantity*, although not derived from it."""

    def __init__(self, v):
        self.v = v

    __eq__, __hash__, __repr__ = Quantity.__eq__, Quantity.__hash__, Quantity.__repr__


class SubRegistered(Registered):
    pass


Quantity.register(Registered)


# For each kind: (type, good texts or values given by users, bad ones)
WORDS = ['red', 'green', 'blue', 'alpha', 'beta', 'gamma', 'x1', 'y2', 'one', 'Two', 'AB', 'ab', 'A-b', 'foo.bar', 'none', 'a longer text, with blanks',
         '\u00e9t\u00e9', '/some/where/x_y-1.2' * 5, ' red', '0', '1.0']
KINDS = dict(
    str=dict(type=str, good=WORDS + [3, 4.5, True], bad=[]),
    int=dict(type=int, good=[1, 2, 3, 4, 10, 12, -1, 0, '1', '2', '3', ' 4', '10', '012', 3.0, 2.7, True, 255, 1000, 2 ** 70, '-7', '+3', '1_0'], bad=['abc', '1.5', '', [1], 'x1', float('inf')]),
    float=dict(type=float, good=[1., 2.5, 3, '1', '2.5', '1e1', 10, 0.0, '3', -0.5, 1e300, '.5', 123.456], bad=['abc', '', 'one', [1.]]),
    bool=dict(type=bool, good=[True, False, 0, 1, 2, '', 'x'], bad=[]),
    colour=dict(type=Colour, good=['Red', 'red', ' RED ', 'Green', 'green', 'BLUE', 'blue ', 'alpha'], bad=[3, 1.5, [1]]),
    even=dict(type=Even, good=[2, 4, '2', '4', 10, '012', 0, -2, 1000], bad=[1, '3', 'abc', 7]),
    span=dict(type=Span, good=[1, 2, '3', 4, '10', Span(2), Span(3, 'd'), Span(1)], bad=['abc', '', [1]]),
    fussy=dict(type=Fussy, good=['alpha', 'beta', 'x1', 'red'], bad=['zorg', 'abz']),
    loose=dict(type=Loose, good=['red', 'RED', 'Blue', 'blue', Loose('Red'), 3], bad=[]),
    nullish=dict(type=Nullish, good=['red', 'blue', Nullish('red'), Nullish('blue'), 2, 0], bad=[]),
    array=dict(type=Array, good=[1, 2.5, Array([1, 2]), Array([]), '3', Array(0)], bad=['abc', 'x1']),
    unhash=dict(type=Unhash, good=['red', 'blue', Unhash('red'), Unhash('blue'), 2], bad=[]),
    fplist=dict(type=fp.FPList, good=[fp.FPList([1, 2]), fp.FPList(['a']), fp.FPList([]), fp.FPTuple((1, 2)), (1, 2),
                                      fp.FPList([[1], 2]), fp.FPList([fp.FPList([1]), 2]),
                                      fp.FPList([1, fp.FPDict(a=[1])])], bad=[5, 2.5]),
    fpdict=dict(type=fp.FPDict, good=[fp.FPDict(a=1), fp.FPDict(), fp.FPDict(a=1, b=2), fp.FPDict(b=2, a=1),
                                      fp.FPDict(a=[1])], bad=[5, 'abc']),
    fpset=dict(type=fp.FPSet, good=[fp.FPSet([1, 2]), fp.FPSet([2, 1]), fp.FPSet(['a']), frozenset([1, 2])], bad=[5]),
    fptuple=dict(type=fp.FPTuple, good=[fp.FPTuple((1, 2)), fp.FPTuple(('a',)), fp.FPTuple(([1], 2)),
                                        fp.FPTuple((fp.FPList([1]), 2)), fp.FPTuple()], bad=[5]),
    fpstr=dict(type=fp.FPStr, good=['red', 'a,b', fp.FPStr('x,y'), 'blue'], bad=[]),
    date=dict(type=datetime.date, good=[datetime.date(2020, 1, 1), datetime.date(2020, 6, 1), datetime.date(2021, 1, 1),
                                        datetime.datetime(2020, 1, 1, 6)], bad=['20200101', 5]),
    cls=dict(type=Shape, isclass=True, good=[Shape, Square, Round], bad=[Other, int, 'square', 5, Shape2, Square2]),
    sub=dict(type=Square, isclass=True, good=[Square, Tile], bad=[Shape, Round, Other, 'tile', Square2]),
    anycls=dict(type=object, isclass=True, good=[Shape, int, Other, str, Thing], bad=['square', 5, Span(1)]),
    strcls=dict(type=str, isclass=True, good=[str, fp.FPStr, Colour], bad=[int, 'str', Shape, 3]),
    virtual=dict(type=Quantity, good=[Registered('a'), Registered(2), SubRegistered('a'), Amount(2), '2', 3], bad=['abc', [1]]),
    virtcls=dict(type=Quantity, isclass=True, good=[Registered, SubRegistered, Amount, Quantity], bad=[Other, Square2, 'amount', 5]),
    obj=dict(type=Thing, good=[Thing('a'), Thing('b'), 'c', 'd'], bad=[]),
)
RANGED = ('str', 'int', 'float', 'bool', 'colour', 'even', 'span', 'fussy', 'loose', 'fplist', 'fpset', 'fptuple', 'fpstr', 'date', 'cls', 'sub', 'anycls', 'strcls')
SIMPLE = ('str', 'int', 'float', 'colour', 'even', 'span', 'fussy', 'loose', 'fpstr', 'bool', 'date')
ALLKINDS = tuple(sorted(set(KINDS) - {'array'}))
EVERYKIND = tuple(sorted(KINDS))
NAMES = ['kind', 'color', 'size', 'model', 'zone', 'term', 'extra', 'nature', 'after', 'value', 'Upper', 'x_1',
         'before_term', 'after_size', 'a_rather_long_attribute_name', 'b2', 'kinds', 'Q', 'dates', 'nproc']
ALIASES = ['type', 'colour', 'dim', 'mod', 'Area', 'step', 'plus', 'nat', 'AFT', 'val', 'up', 'xx',
           'befterm', 'aftsize', 'short', 'bb', 'types', 'qq', 'day', 'np']


def hashables(values):
    return [v for v in values if model.hashable(v)]


def gen_attr(rng, kindname, p_opt=0.4, p_alias=0.3, p_values=0.5, p_outcast=0.25, p_remap=0.25, alias=None,
             p_default=0.6, access='rxx'):
    """A random declaration of an attribute."""
    k = KINDS[kindname]
    d = dict()
    if k['type'] is not str or rng.random() < 0.5:
        d['type'] = k['type']
    if k.get('isclass'):
        d['isclass'] = True
    if kindname == 'span' and rng.random() < 0.6:
        d['args'] = rng.choice([dict(unit='d'), dict(factor=2), dict(unit='m', factor=10)])
    if rng.random() < 0.3:
        d['info'] = 'Info on ' + kindname
    args = d.get('args', {})

    def ok(v):
        if d.get('isclass'):
            return isinstance(v, type)
        try:
            model.convert_declared(v, k['type'], args)
        except Exception:
            return False
        return model.hashable(model.convert_declared(v, k['type'], args))

    if kindname in RANGED:
        pool = [v for v in hashables(k['good']) if ok(v)]
        if rng.random() < p_values:
            n = rng.choice([1, 1, 2, 3, 4, len(pool)])
            d['values'] = rng.choice([list, tuple, set])(rng.sample(pool, min(n, len(pool))))
        elif rng.random() < 0.03 and kindname in ('str', 'int', 'float'):
            d['values'] = [str(i) for i in range(rng.randint(5, 60))]
        if rng.random() < p_outcast:
            d['outcast'] = rng.choice([list, tuple, set])(rng.sample(pool, rng.randint(1, min(3, len(pool)))))
    if rng.random() < p_opt:
        d['optional'] = True
        if rng.random() < p_default:
            good = k['good']
            r = rng.random()
            if r < 0.2:
                d['default'] = Provider(rng.choice(good))
            elif r < 0.3 and k['bad']:
                d['default'] = rng.choice(k['bad'])
            else:
                d['default'] = rng.choice(good)
    if alias and rng.random() < p_alias:
        n = rng.choice([1, 1, 2])
        d['alias'] = rng.choice([list, tuple, set])([alias] + ([alias + rng.choice(SUFFIXES)] if n == 2 else []))
    if rng.random() < p_remap:
        pool = hashables(k['good'] + k['bad'])
        if k.get('isclass'):
            pool = pool + ['round', 'any']
        keys = rng.sample(pool, min(len(pool), rng.randint(1, 4)))
        targets = list(k['good']) + list(k['bad'])
        remap = dict()
        for x in keys:
            remap[x] = rng.choice(targets)
        # no actual cycle here
        for x in list(remap):
            try:
                model.remapped(x, remap)
            except model.Undefined:
                del remap[x]
        for x in list(remap):
            try:
                for y in list(remap):
                    model.remapped(y, remap)
            except model.Undefined:
                remap.pop(x, None)
        if remap:
            d['remap'] = remap
    elif rng.random() < 0.1 and isinstance(d.get('values'), (list, tuple)):
        d['remap'] = dict(autoremap=rng.choice(['first', ('first',), ['first']]))
    if access != 'rxx':
        d['access'] = access
    return d


def gen_decl(rng, kinds=ALLKINDS, nmin=1, nmax=5, names=NAMES, **kw):
    """A random footprint declaration; dict(attr=...) plus the kinds of the attributes."""
    n = rng.randint(nmin, nmax) if rng.random() > 0.03 else rng.randint(min(nmax, len(names)), len(names))
    chosen = rng.sample(range(len(names)), min(n, len(names)))
    if rng.random() < 0.25:
        kinds = rng.sample(sorted(kinds), min(len(kinds), 2))       # several attributes of the same kind
    attr, kd = dict(), dict()
    for i in chosen:
        kd[names[i]] = rng.choice(kinds)
        attr[names[i]] = gen_attr(rng, kd[names[i]], alias=ALIASES[i], **kw)
    if not any(not a.get('optional') for a in attr.values()):
        # at least one mandatory attribute
        a = attr[names[chosen[0]]]
        a.pop('optional', None)
        a.pop('default', None)
    return dict(attr=attr), kd


SUFFIXES = ['2', '2', '2', ' 2', '-b', 'é', '__x']
FOREIGN = ['foreign', 'another', 'experiment', 'namebuild', 'cutoff', 'F', 'Kind', 'a b', 'foreign2', '', 'my__key', 'trailing_', 'a__',
           'x_y', 'footprint', 'report', 'été', 'k.l', '1', 'desc', 'items', 'emptywarning', 'name-1', 'x:y', '[x]']


def gen_desc(rng, decl, kinds, p_good=0.85, p_given=0.6, p_none=0.08, p_alias=0.3, p_range=0.7, p_nulltext=0.03):
    """A random description, rather favourable to the given declaration."""
    desc = dict()
    for name, d in decl['attr'].items():
        k = KINDS[kinds[name]]
        if d.get('optional') and rng.random() > p_given:
            continue
        if not d.get('optional') and rng.random() < 0.04:
            continue
        r = rng.random()
        aliases = list(d.get('alias', ()))
        aliases.sort()
        key = rng.choice(aliases) if aliases and rng.random() < p_alias else name
        if r < p_none:
            v = None
        elif r < p_none + p_nulltext:
            v = 'None'
        elif rng.random() < p_good:
            v = rng.choice(k['good'])
            if d.get('values') and rng.random() < p_range:
                vals = sorted(d['values'], key=repr)
                v = rng.choice(vals)
                if rng.random() < 0.4 and kinds[name] in ('int', 'float', 'str', 'even'):
                    v = str(v)
        else:
            v = rng.choice(k['bad'] or WORDS)
        desc[key] = v
        if key != name and rng.random() < 0.25:
            desc[name] = rng.choice(k['good'] + [None])
        if v is not None and rng.random() < 0.05 and aliases and d.get('optional'):
            for a in aliases:
                if a not in desc and name not in desc:
                    desc[a] = None
    if rng.random() < 0.15:
        # equal values of several types
        family = rng.choice([(1, 1.0, True, '1'), (0, 0.0, False, '0', ''), (2, 2.0, '2'), ('red', Loose('red'), fp.FPStr('red'))])
        for name in sorted(decl['attr']):
            if kinds[name] in ('str', 'int', 'float', 'bool', 'span', 'loose', 'fpstr', 'obj') and rng.random() < 0.8:
                desc[name] = rng.choice(family)
    for i in range(rng.choice([0, 0, 1, 2])):
        desc[rng.choice(FOREIGN)] = rng.choice(
            ['u', 12, [1, 2], None, fp.FPList([1]), {}, 'UU', 0, b'x', object])
    if rng.random() < 0.15:
        # entries that only look like the attributes or their aliases
        for name in rng.sample(sorted(decl['attr']), min(2, len(decl['attr']))):
            for x in [name] + sorted(decl['attr'][name].get('alias', ())):
                x = case_variant(rng, x)
                if x and rng.random() < 0.6:
                    desc.setdefault(x, rng.choice(KINDS[kinds[name]]['good']))
    items = list(desc.items())
    rng.shuffle(items)
    return dict(items)


ALLNAMES = set(NAMES) | set(ALIASES) | {x + y for x in ALIASES for y in SUFFIXES}


def case_variant(rng, name):
    """Another spelling of this name, that is no name at all."""
    x = rng.choice([name.upper(), name.lower(), name.capitalize(), name.swapcase()])
    return None if x in ALLNAMES else x


def gen_defaults(rng, decls, p=0.4):
    """Random configured defaults about the attributes of these declarations."""
    out = dict()
    if rng.random() > p:
        return out
    for decl, kinds in decls:
        for name in decl['attr']:
            if rng.random() < 0.3:
                key = rng.choice([name, name.upper(), name.capitalize(), name.lower()])
                if key.lower() not in {k.lower() for k in out}:
                    k = KINDS[kinds[name]]
                    v = rng.choice(k['good']) if rng.random() < 0.9 else rng.choice(k['bad'] or WORDS)
                    out[key] = v
    return out


# Only rules ----------------------------------------------------------------

ORDERED = ('str', 'int', 'float', 'even', 'colour', 'date', 'fussy', 'fpstr')
ONLY_DEFAULTS = dict(cutoff='str', Year='int', OPTIME='date', suite='colour')


def only_values(kind, decl=None):
    k = KINDS[kind]
    args = (decl or {}).get('args', {})
    out = list()
    for v in k['good']:
        try:
            out.append(model.convert_declared(v, k['type'], args))
        except Exception:
            pass
    if kind == 'str':
        out.append('')
    return [v for v in out if not isinstance(v, datetime.datetime)]     # not comparable to a date


def gen_only(rng, decl, kinds, n=None):
    """Random *only* rules about the attributes of this declaration, or about configured defaults."""
    rules = dict()
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        if decl['attr'] and rng.random() < 0.75:
            name = rng.choice(sorted(decl['attr']))
            kind, d = kinds[name], decl['attr'][name]
            if kind in ('cls', 'sub'):
                pool = [Shape, Square, Round, Other]
            elif kind == 'virtcls':
                pool = [Registered, Amount, Quantity]
            else:
                pool = only_values(kind, d)
                if kind in ('fplist', 'fptuple', 'fpset', 'fpdict') and rng.random() < 0.5:
                    # alternatives equal to the items of the values
                    pool = pool + [1, 2, 'a', (), frozenset([1, 2]), fp.FPSet([1])]
            if d.get('values') and rng.random() < 0.5 and kind in ORDERED:
                pool = [model.convert_declared(v, KINDS[kind]['type'], d.get('args', {})) for v in d['values']]
                pool = [v for v in pool if not isinstance(v, datetime.datetime)] or only_values(kind, d)
        else:
            name = rng.choice(sorted(ONLY_DEFAULTS) + ['nowhere'])
            kind = ONLY_DEFAULTS.get(name, 'str')
            pool = only_values(kind)
            name = rng.choice([name, name, name.lower(), name.upper()])
        pool = sorted(pool, key=repr)
        r = rng.random()
        rule = name
        if kind in ORDERED and r < 0.35:
            rule = rng.choice(['after_', 'before_']) + name
        elif kind in ('str', 'colour', 'fussy', 'fpstr') and r < 0.65:
            # sorted for the reproducibility of a case
            pool = [p for p in pool if isinstance(p, str)] + [re.compile(x) for x in (
                'r', '.*', '^[a-b]', 'e$', '(red|blue)$', '(r|a)', '(?i)[AR]', r'\w+-\w', 'x?', 'nothing')] + [fp.FPRegex('g'), fp.FPRegex('^a.*a$')]
        alts = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3, 4])))
        if rng.random() < 0.06 and kind in ('int', 'float', 'str', 'even') and not rule.startswith('b'):
            # many alternatives
            more = [KINDS[kind]['type'](str(i) if kind == 'str' else 2 * i) for i in range(50, 50 + rng.randint(5, 40))]
            alts = more + alts if not rule.startswith('after_') else [m + m for m in more] + alts
        form = rng.choice(['one', 'tuple', 'list', 'set', 'list', 'fplist', 'empty'])
        if form == 'one' and (isinstance(alts[0], str) or not hasattr(alts[0], '__iter__')):
            rules[rule] = alts[0]
        elif form == 'set' and hashables(alts) == alts:
            rules[rule] = set(alts)
        elif form == 'fplist':
            rules[rule] = fp.FPList(alts)
        elif form == 'empty' and rng.random() < 0.15:
            rules[rule] = ()
        elif form == 'tuple':
            rules[rule] = tuple(alts)
        else:
            rules[rule] = list(alts)
    return rules


def gen_only_defaults(rng):
    """Configured defaults the *only* rules are about."""
    out = dict()
    for name, kind in sorted(ONLY_DEFAULTS.items()):
        if rng.random() < 0.5:
            out[rng.choice([name, name.upper(), name.lower()])] = rng.choice(only_values(kind))
    return out
