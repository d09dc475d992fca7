"""P06: substitutions are resolved exactly, in any order, and always terminate."""

import weakref

from .. import model, world
from ..gen import Span
from ..lib import fp, mkclass, newtag, same_value, uniq  # noqa: F401

NASTY = ['plain', 'a\\1b', '\\g<0>', '\\g<name>', '$x', '{0}', '{kind}', '%s %d', '100%', 'new\nline', 'é√', '[a b]', '[]',
         'a]b', '#', ':', '[x-y]', '\\', '\\\\n', '.*', '^a$', '(b)', 'x' * 50, '\t', '[ kind ]', '__SKIP__', '0']
ATTRNAMES = ['kind', 'a', 'b', 'c', 'd', 'e', 'zz', 'model', 'Upper', 'x_1', 'term', 'n0', 'n1', 'n2', 'y', 'w', 'aa', 'q', 'durée', 'Ωm', 'x__']


class Box:
    """Something found at the end of a chain of members."""

    def __init__(self, name, span):
        self.name = name
        self.span = span

    def deeper(self, g, e):
        return self

    def __str__(self):
        return 'Box<{}>'.format(self.name)


class Empty:
    """Something false, with members named as those of its holder."""
    res = 0
    area = ''
    nothing = None
    prop = 0.0

    def __bool__(self):
        return False

    def label(self, g=None, e=None):
        return ''

    def __str__(self):
        return 'Empty'


class Geo:
    """Something with members and methods."""

    def __init__(self, area='glob', res=3):
        self.area = area
        self.res = res
        self.nothing = None
        self.span = Span(res)
        self.me = self
        self.box = Box(area, self.span)
        self.empty = Empty()

    def fullarea(self, g, e):
        return 'full-' + self.area

    def both(self, g, e):
        return '{}/{}'.format(sorted((k, e[k]) for k in ('ex1', 'ex2', 'un1', 'un2') if isinstance(e.get(k), int)), sorted(
            (k, e[k].area) for k in ('ex1', 'ex2', 'un1', 'un2') if isinstance(e.get(k), Geo)))

    def none(self, g, e):
        return None

    def extra(self, g, e):
        return 'x{}'.format(sorted(e) == sorted(set(e)))

    def label(self):
        return 'lab-' + self.area

    @property
    def prop(self):
        return 'p' + self.area

    def __str__(self):
        return 'Geo<{}>'.format(self.area)

    def __repr__(self):
        return 'Geo({!r}, {!r})'.format(self.area, self.res)

    def __eq__(self, o):
        return isinstance(o, Geo) and (self.area, self.res) == (o.area, o.res)

    def __hash__(self):
        return hash((self.area, self.res))


class Moving(Geo):
    """The same, with nothing but its members to tell one from another."""
    __hash__ = None

    def __eq__(self, o):
        return self is o

    def __str__(self):
        return 'Moving'


REFS_STR = ['[{}]', '[{}]', '[{}]', '[{}:upper]', '[{}::title]', '[{}:strip:lower]', '[{}%>8s]', '[{}#dflt]', '[{}%:s]', '[{}%!r]', '[{}%X>30s]']
REFS_INT = ['[{}]', '[{}%03d]', '[{}%+d]', '[{}#7]', '[{}:real]', '[{}%:x]', '[{}%03X]', '[{}%E]', '[{}%.3G]', '[{}%o]', '[{}%:#X]', '[{}:bit_length]']
REFS_GEO = ['[{}]', '[{}:area]', '[{}::area:upper]', '[{}:fullarea]', '[{}:res%02d]', '[{}:prop]', '[{}:span:length%04d]',
            '[{}:span:double]', '[{}:nothing]', '[{}:none]', '[{}:unknown]', '[{}%.area:>6s]', '[{}:span:fmtmeth]', '[{}%.label:s]',
            '[{}:extra]', '[{}:both]', '[{}:both]', '[{}:res%X]', '[{}:me:area:upper]', '[{}:me::me:box:name]', '[{}:box:span:length]', '[{}:box:deeper:name:upper:lower]',
            '[{}:me:box:span:double%03d]', '[{}:box]', '[{}%.box.span.length:03d]', '[{}:me:fullarea:title]', '[{}:empty:res]', '[{}:empty:area]', '[{}:empty:prop%04.1f]', '[{}:empty:label]', '[{}:empty]', '[{}:empty:nothing]', '[{}:box:span%.double:+d]']
REFS = dict(str=REFS_STR, int=REFS_INT, geo=REFS_GEO)


def rename(text, names):
    """Apply the mapping to the references found in text."""
    if not isinstance(text, str):
        return text
    return type(text)(model.PATTERN.sub(lambda m: m.group(0).replace('[' + m.group(1), '[' + names.get(m.group(1), m.group(1)), 1), text))


def run_case(rng, mon):
    style = rng.choice(['mixed', 'mixed', 'mixed', 'chain', 'cycle', 'wide', 'unknown'])
    extras, defaults, desc = dict(), dict(), dict()
    kinds = dict()          # kind of each name which is known somewhere
    tag, otag = newtag(), newtag()
    keep = list()

    # The sources which are no attributes
    for x in ('ex1', 'ex2', 'ex3'):
        if rng.random() < 0.6:
            kinds[x] = rng.choice(['str', 'int', 'geo'])
            extras[x] = dict(str=rng.choice(NASTY), int=rng.randint(0, 30), geo=rng.choice([Geo, Geo, Moving])(rng.choice(['eur', 'glob'])))[kinds[x]]
    for x in ('df1', 'df2'):
        if rng.random() < 0.5:
            kinds[x] = rng.choice(['str', 'int'])
            defaults[rng.choice([x, x.upper()])] = dict(str=rng.choice(NASTY), int=rng.randint(0, 30))[kinds[x]]
    if rng.random() < 0.4:
        ocls = mkclass(uniq('Obj'), (otag,), dict(attr=dict(ob1=dict(), ob2=dict(type=int, optional=True, default=4))))
        desc['provider'] = ocls(ob1=rng.choice(NASTY + ['[ex1#z]']))
        keep.append(desc['provider'])
        kinds.update(ob1='str', ob2='int')
    for x in ('un1', 'un2'):
        if rng.random() < 0.4:
            kinds[x] = rng.choice(['str', 'int', 'geo'])
            desc[x] = dict(str=rng.choice(NASTY), int=rng.randint(0, 30), geo=rng.choice([Geo, Geo, Moving])(rng.choice(['eur', 'glob'])))[kinds[x]]
    # The same name in several sources, the kind being the one of the source that wins
    for x in list(kinds):
        if rng.random() < 0.25:
            where = rng.choice(['extras', 'desc', 'defaults', 'object'])
            v = dict(str=rng.choice(NASTY), int=rng.randint(0, 30), geo=rng.choice([Geo, Geo, Moving])(rng.choice(['eur', 'glob'])))[kinds[x]]
            if where == 'extras':
                extras.setdefault(x, v)
            elif where == 'desc':
                desc.setdefault(x, v)
            elif where == 'defaults':
                if x not in {k.lower() for k in defaults}:
                    defaults[x] = v
            elif kinds[x] != 'geo' and x not in ('ob1', 'ob2') and 'carrier' not in desc:
                ocls = mkclass(uniq('Obj'), (otag,), dict(attr={x: dict(type=dict(str=str, int=int)[kinds[x]])}))
                desc['carrier'] = ocls(**{x: v})
                keep.append(desc['carrier'])
            mon.ev('name-in-several-sources')
    if rng.random() < 0.25:
        # objects within a container give nothing
        names = rng.sample(['ex1', 'ex3', 'un1', 'df1', 'ob2', 'nothere', 'lone'], 2)
        ocls = mkclass(uniq('Obj'), (otag,), dict(attr={x: dict() for x in names}))
        keep.append(ocls(**{x: 'in a container' for x in names}))
        desc['crowd'] = rng.choice([lambda x: [x], lambda x: (x,), lambda x: dict(one=x), lambda x: fp.FPList([x])])(keep[-1])
        mon.ev('objects-in-containers')
    for x in ('provider', 'carrier'):
        if x in desc and rng.random() < 0.3:
            desc[x] = weakref.proxy(desc[x])
            mon.ev('weak-objects')
    # nested references through extras
    if rng.random() < 0.3 and kinds:
        k = rng.choice(sorted(kinds))
        extras['nested'] = 'n-' + rng.choice(REFS[kinds[k]]).format(k)
        kinds['nested'] = 'str'
    free = sorted(kinds)

    n = dict(mixed=rng.randint(1, 7), chain=rng.choice([5, 20, 40, 60, 75]), cycle=rng.randint(1, 6), wide=rng.randint(2, 6),
             unknown=rng.randint(1, 4))[style]
    names = ATTRNAMES[:]
    rng.shuffle(names)
    while len(names) < n:
        names.append('v%d' % (len(names) * 37 % 101))
    names = names[:n]
    if style != 'chain' and 'kind' not in names:
        names[-1] = 'kind'
    order = names[:]                    # an attribute only refers to the previous ones
    rng.shuffle(order)
    attr = dict()
    sizes = dict()
    pure = rng.random() < 0.5           # nothing but references and plain characters (rejections are rare)
    for i, x in enumerate(order):
        avail = order[:i] if rng.random() < 0.75 or not free else free
        if style == 'chain':
            avail = order[max(0, i - 1):i] or free
        k = 'str'
        if style != 'chain' and rng.random() < 0.2:
            k = rng.choice(['int', 'geo'])
        parts, size = list(), 0
        if k == 'str':
            nparts = {'wide': rng.choice([1, 5, 30, 120]), 'chain': 1}.get(style, rng.randint(1, 4))
            for _ in range(nparts):
                if avail and (rng.random() < 0.8 or style == 'chain'):
                    r = rng.choice(avail)
                    size += sizes.get(r, 40)
                    if size > 2000:
                        break
                    rr = REFS[kinds[r]]
                    if style == 'chain':
                        rr = ['[{}]']
                    elif pure:
                        rr = rr[:2]
                    parts.append(rng.choice(rr).format(r))
                elif rng.random() < 0.3:
                    parts.append(rng.choice(['[nothere#01]', '[nothere#a][nothere#b]', '[nothere#kind]']))
                else:
                    parts.append(rng.choice(NASTY[:1] if pure else NASTY))
                if style != 'chain' and rng.random() < 0.3:
                    parts.append(rng.choice('-/_ ,'))
            value = ''.join(parts)
            if rng.random() < 0.08:
                value = fp.FPStr(value)         # a text type
                mon.ev('text-type')
        elif k == 'int':
            ints = [r for r in avail if kinds[r] == 'int']
            value = '[{}]'.format(rng.choice(ints)) if ints and rng.random() < 0.7 else rng.randint(0, 99)
        else:
            value = Geo(rng.choice(['eur', 'glob']), rng.randint(1, 9))
        kinds[x] = k
        sizes[x] = len(str(value)) + size
        a = attr[x] = dict()
        if k != 'str':
            a['type'] = dict(int=int, geo=Geo)[k]
        src = rng.random()
        if src < 0.5:
            desc[x] = value
            if rng.random() < 0.3:
                a['optional'] = True
        elif src < 0.85 or x.lower() in (y.lower() for y in names if y != x):
            a.update(optional=True, default=value)
        else:
            defaults[x] = value
    if style == 'cycle':
        # close a loop: among attributes, or through extras
        m = rng.randint(1, min(4, n))
        loop = order[:m]
        if rng.random() < 0.3:
            extras['lp'] = 'L[{}]'.format(rng.choice(loop + ['lp']))
            loop = loop + ['lp']
        for i, x in enumerate(loop):
            nxt = loop[(i + 1) % len(loop)]
            if x == 'lp':
                extras['lp'] = '{}[{}]'.format(rng.choice(['', 'L']), nxt)
                continue
            kinds[x] = 'str'
            attr[x] = dict(optional=rng.random() < 0.5)
            for d in (desc, defaults):
                d.pop(x, None)
            val = rng.choice(['[{}]', 'p[{}]', '[{0}][{0}]', '[{}:upper]', '[{}#dflt]']).format(nxt)
            if attr[x]['optional'] and rng.random() < 0.5:
                attr[x]['default'] = val
            else:
                desc[x] = val
    elif style == 'unknown':
        x = rng.choice(names)
        if kinds[x] == 'str':
            attr[x].pop('default', None)
            defaults.pop(x, None)
            desc[x] = rng.choice(['[nothere]', 'a[nothere:upper]', '[nothere%02d]', '[kind][nothere]', '[Ex1]'])
    if all(a.get('optional') for a in attr.values()):
        x = sorted(attr)[0]
        if x in desc:
            attr[x].pop('optional', None)
            attr[x].pop('default', None)
        else:
            attr['must'] = dict()
            desc['must'] = 'm'
            kinds['must'] = 'str'
    # Constraints on the result of the substitutions
    for x in attr:
        if kinds[x] == 'str' and rng.random() < 0.06:
            attr[x]['remap'] = dict(plain='remapped', GLOB='glob')
        if kinds[x] == 'str' and rng.random() < 0.04:
            attr[x]['outcast'] = ['plain', 'dflt']
        if kinds[x] == 'str' and rng.random() < 0.03:
            # a circular remapping: only the termination is specified
            attr[x]['remap'] = {'plain': 'GLOB', 'GLOB': 'plain', 'dflt': 'dflt'}
    extended = rng.random() < 0.75
    w = world.World(tag)
    w.set_setup(defaults, extras, extended)
    fp.setup.fastmode = rng.random() < 0.1
    decl = dict(attr=attr)
    m = model.ClassModel(decl)
    exp = m.verdict(desc, w.setup)
    mon.ev('style:' + style)
    if exp.status == 'undefined':
        mon.ev('undefined-skipped')
    mon.note(style, 'attributes', attr, 'description', desc, 'extras', extras, 'defaults', defaults, 'extended', extended, '->',
             exp.status)
    mon.sig(sorted(attr.items(), key=repr), sorted(desc.items(), key=lambda i: i[0]), sorted(extras.items(), key=repr))
    if exp.status != 'undefined':
        mon.nontrivial()
        mon.ev('expected:' + exp.status)

    outcomes = list()
    prefix = rng.choice(['r', 'r', 'ré', 'name_'])
    for variant in range(3):
        vnames = {x: x for x in attr}
        if variant == 2:
            new = [prefix + '%d' % i for i in range(len(attr))]
            rng.shuffle(new)
            vnames = dict(zip(sorted(attr), new))
        items = list(attr.items())
        ditems = list(desc.items())
        if variant:
            rng.shuffle(items)
            rng.shuffle(ditems)
        vattr = {vnames[k]: {kk: (rename(vv, vnames) if kk == 'default' else world.user_copy(vv)) for kk, vv in a.items()}
                 for k, a in items}
        vdesc = {vnames.get(k, k): rename(v, vnames) for k, v in ditems}
        lnames = {k.lower(): v for k, v in vnames.items()}
        fp.setup.defaults = {lnames.get(k.lower(), k) if variant == 2 else k: rename(v, vnames) for k, v in defaults.items()}
        vextras = {k: rename(v, vnames) for k, v in extras.items()}
        if variant == 2 and 'provider' in desc and '[' in desc['provider'].ob1 and any(k in attr for k in ('ex1',)):
            continue
        fp.setup.callback = lambda: dict(vextras)
        cls = mkclass(uniq('Cls'), (tag + str(variant) + 'y',), dict(attr=vattr))
        coll = fp.collectors.get(tag=tag + str(variant) + 'y')
        o = mon.call('find_all', coll.find_all, dict(vdesc))
        outcomes.append(bool(o.ok and o.value))
        if exp.status == 'undefined':
            continue
        if exp.status == 'cycle':
            mon.check(not o.ok and isinstance(o.exc, fp.FootprintMaxIter),
                      'circular reference (variant {}): {!r}, expected FootprintMaxIter'.format(variant, o))
            mon.refused('construct', fp.FootprintMaxIter, cls, **vdesc)
        elif exp.status == 'unreachable':
            mon.check(not o.ok and isinstance(o.exc, fp.FootprintUnreachableAttr),
                      'unknown reference (variant {}): {!r}, expected FootprintUnreachableAttr'.format(variant, o))
        elif exp.status == 'ok':
            mon.check(o.ok, 'variant {}: {!r}'.format(variant, o), exc=o.exc)
            mon.check(len(o.value) == 1, 'variant {}: no candidate, expected {!r}'.format(variant, exp.values))
            got = {k: o.value[0][1][v] for k, v in vnames.items()}
            for x, v in exp.values.items():
                if v is model.UNSET:
                    continue
                # values with non reference brackets may be renamed too
                ev = rename(v, vnames) if variant == 2 and isinstance(v, str) else v
                mon.check(same_value(got[x], v) or same_value(got[x], ev),
                          'variant {}: attribute {} is {!r}, expected {!r}'.format(variant, x, got[x], v))
            mon.ev('values-compared', len(exp.values))
            if variant == 0 and rng.random() < 0.3:
                obj = mon.ok('load', coll.load, **vdesc)
                world.check_object(mon, 'load', obj, exp)
        else:
            mon.check(o.ok and not o.value, 'variant {}: {!r}, expected a rejection ({!r})'.format(variant, o, exp.reasons))
    if exp.status == 'undefined' and not fp.setup.fastmode:
        mon.same('outcome whatever the order and names', len(set(outcomes)), 1, outcomes=outcomes)
