"""P23: what a class body asks for (decorators, short names, kinds) is done once, for that class only."""

from ..lib import capture, fp, mkclass, newtag, same_value, uniq

ATTRS = ['kind', 'size', 'zone', 'values', 'info_a', 'level', 'cutoff']
METHODS = ['hello', 'size', 'values', 'kind', 'zone', 'other', 'level', 'extra', 'cutoff']
DECL = dict(kind=dict(values=['a', 'b']), size=dict(type=int), zone=dict(optional=True, default='z'), values=dict(optional=True),
            info_a=dict(info='some text'), level=dict(type=int, optional=True, default='3'), cutoff=dict(optional=True, values=['p', 'q']))
GOOD = dict(kind='a', size='3', zone='x', values='v', info_a='i', level=4, cutoff='q')


class Derived(fp.DecorativeFootprint):
    """A decorative footprint of one's own."""


def run_case(rng, mon):
    tag = newtag()
    coll = fp.collectors.get(tag=tag)
    runs = list()           # (decorator, class) as they are applied
    decos = list()
    replaced = dict()       # class -> class given instead by a decorator

    def new_decorator():
        n = len(decos)
        kind = rng.choice(['mark', 'mark', 'method', 'init', 'object', 'same', 'replace'])

        def seen(cls):
            runs.append((n, cls, sorted(cls.footprint_retrieve().attr), cls in coll.items()))
            cls.marks = cls.__dict__.get('marks', ()) + (n,)

        if kind == 'method':
            def deco(cls):
                seen(cls)
                setattr(cls, 'added_%d' % n, lambda self: n)
                return cls
        elif kind == 'init':
            def deco(cls):
                seen(cls)
                orig = cls.__init__

                def __init__(self, *args, **kw):
                    orig(self, *args, **kw)
                    self.__dict__.setdefault('started', []).append(n)
                cls.__init__ = __init__
                return cls
        elif kind == 'replace':
            def deco(cls):
                seen(cls)
                # (as the decorators that rebuild a class do)
                ns = {k: v for k, v in cls.__dict__.items() if k not in ('__dict__', '__weakref__')}
                new = type.__new__(type(cls), cls.__name__, cls.__bases__, ns)
                replaced[cls] = new
                mon.ev('classes-replaced')
                return new
        elif kind == 'object':
            class Deco:
                def __len__(self):
                    return 0

                def __call__(self, cls):
                    seen(cls)
                    return cls
            deco = Deco()
        else:
            def deco(cls):
                seen(cls)
                return cls
        decos.append((kind, deco))
        return n

    footprints = list()     # (object, its decorators, its attributes)

    def attrs():
        return {k: dict(DECL[k]) for k in rng.sample(ATTRS, rng.randint(1, 4))}

    def new_footprint():
        parts, marks, names = list(), list(), set()
        klass = rng.choice([fp.DecorativeFootprint, fp.DecorativeFootprint, Derived, fp.Footprint])
        decorative = klass is not fp.Footprint
        for _ in range(rng.randint(1, 2)):
            if footprints and rng.random() < 0.4:
                f, d, n = rng.choice(footprints)
                parts.append(f)
                names |= n
                if decorative:
                    marks += d
            else:
                a = attrs()
                parts.append(dict(attr=a))
                names |= set(a)
        kw = dict()
        given = None
        if decorative:
            r = rng.random()
            if r < 0.75:
                own = [rng.randrange(len(decos)) if decos and rng.random() < 0.3 else new_decorator() for _ in range(rng.choice([1, 1, 2, 3]))]
                if len(own) == 1 and rng.random() < 0.6:
                    kw['decorator'] = decos[own[0]][1]
                else:
                    kw['decorator'] = given = [decos[x][1] for x in own]
                marks = marks + own
        if rng.random() < 0.3:
            kw['info'] = 'text'
        f = mon.ok('footprint', klass, *parts, **kw)
        if given is not None and rng.random() < 0.5:
            given.append(decos[0][1])       # (that list belongs to the caller)
            given.reverse()
        if marks and rng.random() < 0.15:
            # Without the decorators
            f, marks = mon.ok('as_footprint', f.as_footprint), []
            mon.check(type(f) is fp.Footprint, 'as_footprint gives {!r}'.format(f))
        mon.same('attributes of the footprint', set(f.attr), names)
        footprints.append((f, marks, names))
        return footprints[-1]

    known = list()          # (class, marks, names, methods, short, realkind)

    def define():
        mon.same('decorators applied out of a definition', len(runs), count[0])
        form = rng.choice(['object', 'object', 'list', 'dict', 'none'])
        own, marks, names = None, [], set()
        if form == 'object':
            own, marks, names = new_footprint() if not footprints or rng.random() < 0.5 else rng.choice(footprints)
        elif form == 'list':
            own = list()
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.7:
                    f, d, n = new_footprint() if not footprints or rng.random() < 0.4 else rng.choice(footprints)
                    own.append(f)
                    marks = marks + d
                    names = names | n
                else:
                    a = attrs()
                    own.append(dict(attr=a))
                    names = names | set(a)
        elif form == 'dict':
            a = attrs()
            own = dict(attr=a)
            names = set(a)
        bases = [rng.choice(known)] if known and rng.random() < 0.6 else []
        names = set(names)
        for b in bases:
            names |= b['names']
        abstract = rng.random() < 0.2 or not any(not DECL[n].get('optional') for n in names)
        ns = dict()
        methods = dict()
        for m in rng.sample(METHODS, rng.choice([0, 0, 1, 2, 3])):
            what = rng.choice(['method', 'method', 'class', 'static', 'property'])
            value = uniq('res')
            fun = dict(method=lambda v: (lambda self: v), static=lambda v: staticmethod(lambda: v),
                       property=lambda v: property(lambda self: v))
            fun['class'] = lambda v: classmethod(lambda cls: v)
            if 'footprint_' + m in ('footprint_values', 'footprint_level'):
                continue
            ns['footprint_' + m] = fun[what](value)
            methods[m] = (what, value)
            if rng.random() < 0.15 and m not in names:
                ns[m] = 'already there'
        short = False
        r = rng.random()
        fp.setup.shortnames = rng.random() < 0.3
        if r < 0.3:
            ns['_mkshort'] = short = True
        elif r < 0.5:
            ns['_mkshort'] = short = False
        else:
            short = fp.setup.shortnames
        realkind = None
        if rng.random() < 0.4:
            realkind = uniq('real')
            ns['realkind'] = property(lambda self: realkind)
        name = uniq(rng.choice(['Cls', 'cls', '_Cls', 'CLS_', 'Été'])) + rng.choice(['', '', '_', 'x_2', 'S', '__'])
        before = set(coll.items())
        c = mon.ok('define', mkclass, name, (tag,), own if own is not None else {}, bases=tuple(b['cls'] for b in bases) or None,
                   _abstract=abstract, **ns)
        fp.setup.shortnames = False
        mon.note('class', name, form, 'marks', marks, 'base', [b['cls'].__name__ for b in bases], sorted(names), 'short', short, methods)
        mon.sig(form, marks, sorted(names), [b['marks'] for b in bases], short, sorted(methods), abstract)
        mine = runs[count[0]:]
        mon.same('decorators applied to ' + name, [x[0] for x in mine], marks)
        current = mine[0][1] if mine else c
        for n, cls, had, registered in mine:
            mon.check(cls is current, 'decorator {:d} applied to {!r} instead of {!r}'.format(n, cls, current))
            current = replaced.get(current, current) if decos[n][0] == 'replace' else current
            mon.same('attributes of the class when it is decorated', had, sorted(names))
            mon.check(not registered, 'registered before decorator {:d}'.format(n))
        mon.check(current is c, 'the class defined is {!r}, not the one given by its decorators ({!r})'.format(c, current))
        count[0] = len(runs)
        mon.same('marks of ' + name, c.__dict__.get('marks', ()), tuple(marks))
        fresh = list(set(coll.items()) - before)
        mon.check(fresh == ([] if abstract else [c]), 'classes registered by {!r}: {!r}'.format(c, fresh))
        if marks:
            mon.ev('decorated')
            mon.nontrivial()
        if bases and bases[0]['marks']:
            mon.ev('decorated-parent')
        known.append(dict(cls=c, marks=list(marks), names=names, methods=methods, short=short, realkind=realkind, bases=bases,
                          abstract=abstract, ns=ns))

    count = [0]

    def chain(k):
        while k:
            yield k
            k = k['bases'][0] if k['bases'] else None

    def check(k):
        c = k['cls']
        mon.same('marks of ' + c.__name__, c.__dict__.get('marks', ()), tuple(k['marks']))
        mon.same('kind', (c.footprint_clskind(), c.fullname()), (c.__name__.lower(), c.__module__ + '.' + c.__name__))
        real = [x['realkind'] for x in chain(k) if x['realkind']] + ['footprintbase']
        mon.same('real kind of ' + c.__name__, mon.ok('clsrealkind', c.footprint_clsrealkind), real[0])
        # Short names are those of the body of the class
        for m in METHODS:
            have = m in c.__dict__
            if m in k['names']:
                mon.check(have, 'attribute {} lost'.format(m))
            elif k['ns'].get(m):
                mon.same('member ' + m, c.__dict__.get(m), 'already there')
            elif k['short'] and m in k['methods']:
                mon.check(c.__dict__.get(m) is c.__dict__['footprint_' + m], '{}: no short name for footprint_{}'.format(c.__name__, m))
                mon.ev('short-names')
            else:
                mon.check(not have, '{}: unexpected member {}'.format(c.__name__, m))
        if k['abstract']:
            return
        desc = {n: GOOD[n] for n in k['names'] if not DECL[n].get('optional') or rng.random() < 0.5}
        # 'kind', 'size' and 'info_a' are mandatory, or unknown to the class
        del runs[:]
        count[0] = 0
        obj = mon.ok('create', c, **desc)
        mon.same('decorators applied by a creation', runs, [])
        mon.same('class of the object', type(obj).__name__, c.__name__)
        mon.same('name', (obj.footprint_clsname(), obj.realkind), (c.__name__, real[0]))
        mon.same('attributes', obj.footprint_attributes, sorted(k['names']))
        for n in k['names']:
            t = DECL[n].get('type', str)
            v = desc.get(n, DECL[n].get('default'))
            mon.check(same_value(getattr(obj, n), None if v is None else t(v)), 'attribute {}: {!r} for {!r}'.format(n, getattr(obj, n), v))
        started = list()
        for x in reversed(list(chain(k))):
            started += [n for n in x['marks'] if decos[n][0] == 'init']
            for n in x['marks']:
                if decos[n][0] == 'method':
                    mon.same('method added', getattr(obj, 'added_%d' % n)(), n)
        mon.same('decorated constructors', obj.__dict__.get('started', []), started)
        for m, (what, value) in k['methods'].items():
            got = getattr(obj, 'footprint_' + m)
            mon.same('footprint_' + m, got if what == 'property' else got(), value)
        mon.ev('objects-observed')
        del obj

    for _ in range(rng.randint(2, 7)):
        define()
        if rng.random() < 0.5:
            check(rng.choice(known))
    if rng.random() < 0.2:
        bad = rng.choice([3, 'text', [None], [lambda c: c, 4], 'mark'])
        mon.refused('decorator-refused', ValueError, fp.DecorativeFootprint, dict(attr=attrs()), decorator=bad)
        mon.ev('decorators-refused')
    for k in known:
        check(k)
    # The footprints themselves do not remember the classes they were given to
    for f, marks, names in footprints:
        mon.same('attributes of a footprint', set(f.attr), names)
        if isinstance(f, fp.DecorativeFootprint):
            mon.check([d is decos[n][1] for d, n in zip(f.decorators, marks)] == [True] * len(f.decorators) and len(marks) == len(f.decorators),
                      'decorators of a footprint: {!r} instead of {!r}'.format(f.decorators, marks))


assert capture
