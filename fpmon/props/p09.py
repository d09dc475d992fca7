"""P09: access modes of the attributes, object by object (history of operations against a per-object model)."""

import copy
import gc
import sys
import weakref

from .. import gen, model, world
from ..lib import fp, mkclass, newtag, same_value, target, uniq

DELETED = object()
MODES = ('rxx', 'rwx', 'rwd')
PICKED = ('str', 'int', 'float', 'colour', 'even', 'span', 'loose', 'fplist', 'fpdict', 'date', 'cls', 'sub', 'obj', 'unhash', 'fussy', 'bool')


class Refused(Exception):
    pass


def assigned(a, value):
    """The value that an assignment stores (conversion and checks of the declaration)."""
    if a['isclass']:
        if not (isinstance(value, type) and issubclass(value, a['type'])):
            raise Refused('class')
    elif not isinstance(value, a['type']):
        try:
            value = a['type'](value, **a['args'])
        except Exception:
            raise Refused('conversion')
    if a['values'] and not any(bool(x == value) for x in a['values']):
        raise Refused('outside')
    if any(bool(x == value) for x in a['outcast']):
        raise Refused('outcast')
    return value


class Tracked:
    """An object and what it is expected to hold."""

    def __init__(self, obj, attrs, values):
        self.obj, self.attrs, self.values = obj, attrs, dict(values)


def run_case(rng, mon):
    tag = newtag()
    w = world.World(tag)
    name = uniq('Acc')
    kinds, decl = dict(), dict(attr=dict())
    weak = set()
    for i, n in enumerate(rng.sample(gen.NAMES, rng.randint(2, 5))):
        k = rng.choice(PICKED)
        mode = rng.choice(MODES)
        if rng.random() < 0.2:
            k, mode = 'obj', mode + '-weak'
            weak.add(n)
        kinds[n] = k
        # no remap: it plays no role once the object is created
        decl['attr'][n] = gen.gen_attr(rng, k, access=mode, p_remap=0, p_outcast=0.5, p_alias=0.2, alias='al_' + n.lower())
        decl['attr'][n].setdefault('access', 'rxx')
        decl['attr'][n].pop('remap', None)
    if all(a.get('optional') for a in decl['attr'].values()):
        a = decl['attr'][sorted(decl['attr'])[0]]
        a.pop('optional', None)
        a.pop('default', None)
    for n in decl['attr']:
        d = decl['attr'][n].get('default')
        if n in weak and not isinstance(d, gen.Thing):
            # the target of a weak attribute has to be kept alive by someone
            decl['attr'][n].pop('default', None)
        if isinstance(d, gen.Provider):
            d.value = gen.KINDS[kinds[n]]['good'][0]
            if n in weak:
                decl['attr'][n].pop('default', None)
    parent = w.add(decl, kinds, name=name)
    classes = [parent]
    declmap = {parent: decl}
    if rng.random() < 0.6:
        # a subclass, that may change the access modes
        own = dict(attr=dict())
        for n in decl['attr']:
            if rng.random() < 0.5 and n not in weak:
                own['attr'][n] = dict(access=rng.choice(MODES))
        if rng.random() < 0.5:
            own['attr']['bonus'] = dict(optional=True, default='b', access=rng.choice(MODES))
        child = mkclass(uniq('Sub'), (tag,), world.user_copy(own), bases=(parent,))
        declmap[child] = model.merge(decl, own)
        classes.append(child)
    if rng.random() < 0.5:
        # another class, same attribute names, other modes
        d2 = dict(attr={n: dict(a) for n, a in decl['attr'].items()})
        for n, a in d2['attr'].items():
            if n not in weak:
                a['access'] = rng.choice(MODES)
        other = mkclass(uniq('Oth'), (tag,), world.user_copy(d2))
        declmap[other] = d2
        classes.append(other)
    mon.note('classes', {c.__name__: declmap[c] for c in classes})
    attrmap = {c: {n: model.norm_attr(a) for n, a in declmap[c]['attr'].items()} for c in classes}
    allkinds = dict(kinds, bonus='str')
    keep = [gen.Thing('k%d' % i) for i in range(3)]
    tracked = list()

    def good_value(n):
        if n in weak:
            return rng.choice(keep)
        return rng.choice(gen.KINDS[allkinds[n]]['good'])

    def in_range(cls, n):
        for _ in range(12):
            v = good_value(n)
            a = declmap[cls]['attr'][n]
            if a.get('values') and n not in weak and rng.random() < 0.8:
                v = rng.choice(sorted(a['values'], key=repr))
            try:
                assigned(attrmap[cls][n], v)
                return v
            except Refused:
                pass
        return None

    def observe(what):
        """Every object holds exactly what it is expected to hold."""
        for i, t in enumerate(tracked):
            names = sorted(n for n, v in t.values.items() if v is not DELETED)
            mon.same('{}: attributes of object {:d}'.format(what, i), list(t.obj.footprint_attributes), names)
            view = t.obj.footprint_as_shallow_dict()
            mon.same('{}: view of object {:d}'.format(what, i), sorted(view), names)
            for n, v in t.values.items():
                if v is DELETED:
                    o = mon.call('read', getattr, t.obj, n)
                    mon.check(not o.ok and isinstance(o.exc, AttributeError),
                              '{}: {} of object {:d} should be deleted: {!r}'.format(what, n, i, o))
                    continue
                got = getattr(t.obj, n)
                for g, how in ((got, 'read'), (view[n], 'view')):
                    if v is model.UNSET:
                        mon.check(g is None, '{}: {} of object {:d} is {!r} ({}), expected None'.format(what, n, i, g, how))
                    elif n in weak:
                        mon.check(isinstance(g, weakref.ProxyTypes), '{}: weak attribute {} of object {:d} is {!r}'
                                  .format(what, n, i, type(g)))
                        mon.check(target(g) is target(v) or target(g) == target(v), '{}: weak attribute {} of object {:d} ({}) is {!r}, expected {!r}'
                                  .format(what, n, i, how, g, v))
                    else:
                        mon.check(same_value(g, v), '{}: {} of object {:d} is {!r} ({}), expected {!r}'.format(what, n, i, g, how, v))
        mon.ev('objects-observed', len(tracked))

    def create():
        cls = rng.choice(classes)
        desc = dict()
        for n, a in declmap[cls]['attr'].items():
            if a.get('optional') and rng.random() < 0.4:
                continue
            v = in_range(cls, n)
            if v is None:
                return
            desc[n] = v
        exp = model.ClassModel(declmap[cls], cls.__name__).verdict(desc, w.setup)
        if exp.status != 'ok':
            return
        how = rng.choice(['construct', 'construct-dict', 'load', 'best', 'twins'])
        if how == 'twins':
            # Two objects made from the very same candidate
            found = [x for x in mon.ok('find_all', w.collector.find_all, desc) if x[0] is cls]
            mon.same('occurrences of the class among the candidates', len(found), 1)
            for _ in range(2):
                tracked.append(Tracked(mon.ok(how, cls, found[0][1], checked=True), attrmap[cls], exp.values))
            return
        if how == 'construct':
            o = mon.ok(how, cls, **desc)
        elif how == 'construct-dict':
            o = mon.ok(how, cls, desc)
        else:
            coll = w.collector
            o = mon.ok(how, coll.load, **desc) if how == 'load' else mon.ok(how, coll.find_best, desc, fp.collectors.ResolveCache())
            if o is None:
                mon.fail('nothing loaded with {!r}'.format(desc))
            cls = type(o)
            exp = model.ClassModel(declmap[cls], cls.__name__).verdict(desc, w.setup)
            if exp.status != 'ok':
                mon.fail('{!r} does not accept {!r}'.format(cls, desc))
        tracked.append(Tracked(o, attrmap[cls], exp.values))

    for _ in range(rng.randint(2, 3)):
        create()
    if not tracked:
        create()
    observe('creation')
    for step in range(rng.randint(6, 25)):
        if not tracked:
            create()
            continue
        i = rng.randrange(len(tracked))
        t = tracked[i]
        n = rng.choice(sorted(t.attrs))
        a = t.attrs[n]
        mode = a['access'].split('-')[0]
        present = t.values[n] is not DELETED
        op = rng.choice(['set', 'set', 'set', 'set', 'del', 'del', 'auth', 'delauth', 'clone', 'copy', 'create', 'drop', 'foreign'])
        if op == 'set':
            v = good_value(n) if rng.random() < 0.4 else in_range(type(t.obj), n)
            if rng.random() < 0.25:
                v = rng.choice(gen.KINDS[allkinds[n]]['bad'] or gen.KINDS[allkinds[n]]['good'])
                if n in weak:
                    v = rng.choice(keep)
            unset = (a['optional'] and not a['isclass'] and not a['values'] and rng.random() < 0.12 and
                     not any(x is None for x in a['outcast']))
            if unset:
                v = None
            elif v is None:
                continue
            what = 'set {} ({}) of object {:d} to {!r}'.format(n, a['access'], i, v)
            try:
                expv = model.UNSET if unset else assigned(a, v)
            except Refused:
                expv = Refused
            if mode == 'rxx':
                mon.refused('set-readonly', AttributeError, setattr, t.obj, n, v)
                mon.ev('refused-set')
            elif expv is Refused:
                o = mon.call('set-bad', setattr, t.obj, n, v)
                mon.check(not o.ok, what + ' should have been refused: {!r}'.format(a))
                mon.ev('refused-value')
            else:
                mon.ok('set', setattr, t.obj, n, v)
                t.values[n] = expv
                mon.ev('accepted-set')
                mon.nontrivial()
        elif op == 'del':
            what = 'delete {} ({}) of object {:d}'.format(n, a['access'], i)
            o = mon.call('delete', delattr, t.obj, n)
            if mode == 'rwd' and present:
                mon.check(o.ok, what + ' failed: {!r}'.format(o))
                t.values[n] = DELETED
                mon.ev('accepted-delete')
                mon.nontrivial()
            else:
                mon.check(not o.ok and isinstance(o.exc, AttributeError), what + ' should have been refused: {!r}'.format(o))
                mon.ev('refused-delete')
        elif op in ('auth', 'delauth'):
            what = 'unauthorized access to {} of object {:d}'.format(n, i)
            auth = rng.choice([None, 0, 'x'])
            if op == 'auth':
                mon.refused(op, AttributeError, t.obj.footprint_setattr, n, good_value(n), auth)
            else:
                mon.refused(op, AttributeError, t.obj.footprint_delattr, n, auth)
        elif op == 'clone':
            what = 'clone of object {:d}'.format(i)
            extra = dict()
            for m in t.attrs:
                if rng.random() < 0.3 or (t.values[m] is DELETED and not t.attrs[m]['optional']):
                    x = in_range(type(t.obj), m)
                    if x is not None:
                        extra[m] = x
            full = dict()
            for m, x in t.values.items():
                if m in extra:
                    full[m] = assigned(t.attrs[m], extra[m])
                elif x is not DELETED:
                    full[m] = x
            full = {m: (target(x) if m in weak else x) for m, x in full.items()}
            exp = model.ClassModel(declmap[type(t.obj)]).verdict({m: x for m, x in full.items() if x is not model.UNSET}, w.setup)
            if exp.status != 'ok':
                continue
            exp.values.update(full)
            o = mon.ok('clone', t.obj.footprint_clone, extra=extra or None)
            tracked.append(Tracked(o, t.attrs, exp.values))
        elif op == 'copy':
            how = rng.choice(['copy', 'deepcopy'])
            if weak:
                how = 'copy'
            what = '{} of object {:d}'.format(how, i)
            o = mon.ok(how, getattr(copy, how), t.obj)
            tracked.append(Tracked(o, t.attrs, t.values))
        elif op == 'create':
            what = 'creation'
            create()
        elif op == 'drop':
            what = 'drop of object {:d}'.format(i)
            if len(tracked) > 2:
                ref = weakref.ref(t.obj)
                del tracked[i]
                t = o = None
                if ref() is not None:
                    gc.collect()
                mon.check(ref() is None, 'a dropped object is still alive')
        else:
            what = 'foreign attribute on object {:d}'.format(i)
            setattr(t.obj, 'foreign', step)
        o = None
        mon.sig(what)
        observe(what)
        while len(tracked) > 6:
            tracked.pop(rng.randrange(len(tracked)))

    # A weak attribute does not keep its target alive (a strong one does)
    cands = [(t, n) for t in tracked for n in t.attrs
             if allkinds[n] == 'obj' and not t.attrs[n]['values']]
    for t, n in cands[:3]:
        fresh = gen.Thing('fresh')
        ref = weakref.ref(fresh)
        how = rng.choice(['set', 'clone', 'init', 'copy'])
        obj = t.obj
        if how == 'set' and not t.attrs[n]['access'].startswith('rw'):
            how = 'init'
        if how == 'set':
            mon.ok('set', setattr, obj, n, fresh)
        else:
            d = {m: getattr(obj, m, None) for m in t.attrs}
            d[n] = fresh
            d = {m: x for m, x in d.items() if x is not None}
            if any(m not in d and not b['optional'] for m, b in t.attrs.items()):
                continue
            o = mon.call('weak-init', type(obj), **d)
            if not o.ok:
                continue
            obj, o, d = o.value, None, None
            if how == 'clone':
                obj = mon.ok('clone', obj.footprint_clone)
            if how == 'copy':
                obj = mon.ok('copy', copy.copy, obj)
        mon.check(target(getattr(obj, n)) is fresh, 'attribute {} is {!r}'.format(n, getattr(obj, n)))
        mon.trace.append(how)
        fresh = None
        if ref() is not None:
            gc.collect()
        if n in weak:
            mon.check(ref() is None, 'the target of a weak attribute is kept alive ({})'.format(how))
            mon.refused('read-dead', ReferenceError, lambda: getattr(obj, n).name)
            mon.ev('weak-targets')
        else:
            mon.check(ref() is not None, 'the value of an attribute disappeared ({})'.format(how))
            mon.ev('strong-targets')

    if rng.random() < 0.2:
        strong_only(rng, mon)


class Slotted:
    """Cannot be the target of a weak reference."""
    __slots__ = ('name',)


STRONG = dict(slotted=(Slotted, lambda: Slotted()), int=(int, lambda: 3), text=(str, lambda: 'abc'), list=(list, lambda: [1]),
              tuple=(tuple, lambda: (1, 2)))


def strong_only(rng, mon):
    """A weak attribute never holds (nor keeps alive) something that cannot be weakly referenced."""
    what = rng.choice(sorted(STRONG))
    kls, make = STRONG[what]
    mode = rng.choice(MODES) + '-weak'
    tag = newtag()
    c = mkclass(uniq('Weak'), (tag,), dict(attr=dict(kind=dict(), t=dict(type=kls, access=mode, optional=True))))
    obj = mon.ok('create', c, kind='a')
    v = make()
    o = mon.call('set', setattr, obj, 't', v)
    mon.check(not o.ok, '{} attribute of type {} set to {!r}: it holds {!r}'.format(mode, what, v, o.ok and getattr(obj, 't', None)))
    mon.check(obj.t is None and obj.footprint_as_dict() == dict(kind='a', t=None), 'a refused value is there: {!r}'.format(obj.footprint_as_dict()))
    o = mon.call('create', c, kind='a', t=v)
    mon.check(not o.ok, '{} attribute of type {} created with {!r}'.format(mode, what, v))
    mon.ev('not-weakly-referenced')


assert sys
