"""P10: live objects are tracked exactly (history against a list of strong references), grep and default lookups."""

import copy
import gc
import pickle
import weakref

from .. import gen, model, world
from ..lib import fp, importable, mkclass, newtag, same_value, target, uniq

KINDS = ('str', 'int', 'float', 'colour', 'span', 'loose', 'fplist', 'fpdict', 'unhash', 'bool', 'fptuple')


class Live:

    def __init__(self, obj, values):
        self.obj, self.values = obj, dict(values)


def equal(a, b):
    if a is model.UNSET or b is model.UNSET:
        return a is b
    return bool(a == b)


class Busy:
    """Something that creates an object when it is converted to a text."""

    def __init__(self, text, maker):
        self.text, self.maker, self.obj = text, maker, None

    def __str__(self):
        if self.maker is not None:
            maker, self.maker = self.maker, None
            self.obj = maker()
        return self.text


def run_case(rng, mon):
    tags = [newtag() for _ in range(rng.randint(1, 3))]
    w = world.World(tags[0])
    classes, where, reusable, weakattr = list(), dict(), dict(), dict()

    def define(bases=None, decl=None, kinds=None, own=None):
        ctags = rng.sample(tags, rng.randint(1, len(tags)))
        if decl is None:
            decl, kinds = gen.gen_decl(rng, kinds=KINDS, nmax=3, names=gen.NAMES[:5], p_remap=0.15, p_values=0.3,
                                       p_outcast=0.1)
            for a in decl['attr'].values():
                a['access'] = rng.choice(['rxx', 'rwx', 'rwd', 'rwd'])
            if rng.random() < 0.3:
                decl['attr']['target'] = dict(type=gen.Thing, access=rng.choice(['rwx-weak', 'rxx-weak', 'rwx']), optional=True)
                kinds['target'] = 'thing'
            own = decl
        kw = dict()
        if rng.random() < 0.3:
            kw['_reusable'] = rng.choice([False, True])
        elif rng.random() < 0.5:
            kw['_reusable'] = True
        inherit = bases and rng.random() < 0.4
        if inherit:
            ctags = where[bases[0]]
        cls = mkclass(uniq('Obj'), None if inherit else ctags, world.user_copy(own), bases=bases, **kw)
        importable(cls)
        w.classes[cls] = model.ClassModel(decl, cls.__name__)
        w.kinds[cls] = kinds
        classes.append(cls)
        where[cls] = list(ctags)
        reusable[cls] = kw.get('_reusable', reusable[bases[0]] if bases else True)
        return cls, decl, kinds

    made = list()
    for _ in range(rng.randint(1, 3)):
        if made and rng.random() < 0.5:
            base, decl, kinds = rng.choice(made)
            own = dict(attr=dict())
            if rng.random() < 0.5:
                own['attr']['more'] = dict(optional=True, default='m')
            made.append(define((base,), model.merge(decl, own), dict(kinds, more='str'), own))
        else:
            made.append(define())
    things = [gen.Thing('t%d' % i) for i in range(2)]
    live = list()
    helper = None
    gone = set()        # removed from a collector
    mon.note('classes', {c.__name__: (w.classes[c].decl, where[c], reusable[c]) for c in classes})

    def value(n, k):
        if k == 'thing':
            return rng.choice(things)
        return rng.choice(gen.KINDS[k]['good'])

    def desc_for(cls):
        desc = dict()
        for n, a in w.classes[cls].decl['attr'].items():
            if a.get('optional') and rng.random() < 0.5:
                continue
            if a.get('values') and rng.random() < 0.8:
                desc[n] = rng.choice(sorted(a['values'], key=repr))
            else:
                desc[n] = value(n, w.kinds[cls][n])
        return desc

    def observe(what):
        for t in tags:
            exp = [x.obj for x in live if t in where[type(x.obj)]]
            coll = fp.collectors.get(tag=t)
            got = list(coll.instances())
            mon.same('{}: number of objects tracked by {}'.format(what, t), len(got), len(exp))
            mon.check({id(o) for o in got} == {id(o) for o in exp}, '{}: {} tracks {!r} instead of {!r}'.format(what, t, got, exp))
            if rng.random() < 0.2:
                m = fp.proxy.objectsmap()[t + 's']
                mon.check({id(o) for o in m} == {id(o) for o in exp}, '{}: proxy shows {!r} instead of {!r}'.format(what, m, exp))
        mon.ev('objects-observed', len(live))

    def current(x, n):
        return x.values.get(n, model.UNSET)

    def accept_new(obj, values, what):
        live.append(Live(obj, values))

    def drop(i, what):
        ref = weakref.ref(live[i].obj)
        del live[i]
        if ref() is not None:
            gc.collect()
        mon.check(ref() is None, '{}: an object is kept alive by its collectors'.format(what))
        mon.ev('objects-dropped')

    most = 8
    if rng.random() < 0.03:
        # many objects
        most = 150
        cls = rng.choice(classes)
        for _ in range(rng.randint(20, 120)):
            desc = desc_for(cls)
            exp = w.classes[cls].verdict(desc, w.setup)
            if exp.status == 'ok':
                live.append(Live(mon.ok('construct', cls, **desc), exp.values))
        mon.ev('large-populations')
        cls = exp = None
    for step in range(rng.randint(8, 30)):
        op = rng.choice(['new', 'new', 'new', 'load', 'clone', 'copy', 'pickle', 'drop', 'set', 'del', 'grep', 'grep',
                         'grepall', 'default', 'default', 'default', 'fail', 'thing', 'default-load', 'class', 'remove', 'restore', 'fasttrack'])
        what = '{:d}:{}'.format(step, op)
        mon.trace.append(what)
        o = obj = x = y = cands = exp = got = match = known = None
        if op in ('new', 'fail'):
            cls = rng.choice(classes)
            desc = desc_for(cls)
            if op == 'fail' and desc:
                n = rng.choice(sorted(desc))
                if w.kinds[cls][n] == 'thing':
                    continue
                desc[n] = rng.choice(gen.KINDS[w.kinds[cls][n]]['bad'] or [None])
            exp = w.classes[cls].verdict(desc, w.setup)
            if exp.status == 'undefined':
                continue
            if exp.status == 'ok':
                obj = mon.ok('construct', cls, **desc)
                accept_new(obj, exp.values, what)
            else:
                mon.refused('construct-bad', Exception, cls, **desc)
                mon.ev('refused-objects')
        elif op == 'load':
            t = rng.choice(tags)
            cls = rng.choice(classes)
            desc = desc_for(cls)
            exp = {c: m.verdict(desc, w.setup) for c, m in w.classes.items() if t in where[c]}
            if not world.defined(exp):
                continue
            if rng.random() < 0.5:
                obj = mon.ok('load', fp.load, tag=t, **desc)
            else:
                obj = mon.ok('load', fp.collectors.get(tag=t).load, **desc)
            okset = {c for c, v in exp.items() if v.status == 'ok' and (t, c) not in gone}
            mon.check((obj is None or type(obj) in okset) and (obj is None) == (not okset), '{}: loaded {!r}, candidates {!r}'.format(what, obj, okset))
            if obj is not None:
                accept_new(obj, exp[type(obj)].values, what)
        elif op in ('clone', 'copy', 'pickle'):
            cands = [x for x in live if len(x.values) == len(w.classes[type(x.obj)].attrs) and
                     not any(type(v) is object or isinstance(v, (gen.Thing, weakref.ProxyTypes)) for v in x.values.values())]
            if not cands:
                continue
            x = rng.choice(cands)
            if rng.random() < 0.3:
                # plain members
                for n in ('note', 'blob', 'memo', 'cargo')[:rng.randint(1, 4)]:
                    setattr(x.obj, n, rng.choice([1, None, 'x', (2,)]))
            if op == 'clone':
                obj = mon.ok(op, x.obj.footprint_clone, rng.choice([True, False]))
                accept_new(obj, x.values, what)
            elif op == 'copy':
                obj = mon.ok(op, rng.choice([copy.copy, copy.deepcopy]), x.obj)
                accept_new(obj, x.values, what)
            else:
                obj = mon.ok(op, lambda: pickle.loads(pickle.dumps(x.obj)))
                accept_new(obj, x.values, what)
        elif op == 'drop':
            if live:
                drop(rng.randrange(len(live)), what)
        elif op == 'set':
            if not live:
                continue
            x = rng.choice(live)
            ns = [n for n, a in w.classes[type(x.obj)].attrs.items() if a['access'].startswith('rw')]
            if not ns:
                continue
            n = rng.choice(sorted(ns))
            v = value(n, w.kinds[type(x.obj)][n])
            if mon.call('set', setattr, x.obj, n, v).ok:
                v = target(getattr(x.obj, n))
                x.values[n] = v
        elif op == 'del':
            if not live:
                continue
            x = rng.choice(live)
            ns = [n for n, a in w.classes[type(x.obj)].attrs.items() if a['access'] == 'rwd' and n in x.values]
            if ns:
                n = rng.choice(sorted(ns))
                mon.ok('del', delattr, x.obj, n)
                del x.values[n]
        elif op == 'thing':
            # a weak target may disappear
            i = rng.randrange(len(things))
            strong = any(isinstance(v, gen.Thing) and v is things[i] and w.classes[type(x.obj)].attrs[n]['access'] == 'rwx'
                         for x in live for n, v in x.values.items())
            if strong:
                continue
            old = things[i]
            things[i] = gen.Thing('u%d' % step)
            for x in live:
                for n, v in list(x.values.items()):
                    if v is old:
                        x.values[n] = object()      # nothing is equal to it
            old = v = None
            gc.collect()
            mon.ev('weak-targets-gone')
        elif op in ('grep', 'grepall'):
            t = rng.choice(tags)
            crit = dict()
            if live and rng.random() < 0.85:
                x = rng.choice(live)
                for n in sorted(x.values):
                    if rng.random() < 0.5:
                        v = x.values[n]
                        if type(v) is object:
                            v = rng.choice(things)
                        crit[n] = None if v is model.UNSET else v
                if crit and rng.random() < 0.3:
                    n = rng.choice(sorted(crit))
                    crit[n] = value(n, w.kinds[type(x.obj)][n])
            if rng.random() < 0.1:
                crit['nosuchattr'] = 1

            def holds(y):
                for n, v in crit.items():
                    if n not in y.values:
                        return False
                    cur = None if y.values[n] is model.UNSET else y.values[n]
                    if not (cur == v):
                        return False
                return True

            if op == 'grep':
                got = mon.ok('grep', fp.collectors.get(tag=t).grep, **crit)
                exp = [y.obj for y in live if t in where[type(y.obj)] and holds(y)]
                mon.same('{}: number of objects found with {!r}'.format(what, crit), len(got), len(exp))
            else:
                got = mon.ok('grepall', fp.grep, **crit)
                exp = [y.obj for y in live if holds(y)]
                got = [g for g in got if type(g) in where]
            mon.check({id(y) for y in got} == {id(y) for y in exp},
                      '{}: grep {!r} on {} found {!r} instead of {!r}'.format(what, crit, t, got, exp))
            mon.ev('grep-hits', len(exp))
            mon.sig('grep', crit, len(exp))
            got = exp = None
        elif op in ('default', 'default-load'):
            t = rng.choice(tags)
            if live and rng.random() < 0.8:
                x = rng.choice(live)
                desc = {n: v for n, v in x.values.items() if v is not model.UNSET and type(v) is not object and
                        rng.random() < 0.9}
                if rng.random() < 0.3:
                    desc['foreign'] = 12
                if desc and rng.random() < 0.25:
                    n = rng.choice(sorted(desc))
                    desc[n] = value(n, w.kinds[type(x.obj)].get(n, 'str'))
            else:
                desc = desc_for(rng.choice(classes))
            if any('[' in str(v) for v in desc.values() if isinstance(v, str)):
                continue
            exp = {c: m.verdict(desc, w.setup) for c, m in w.classes.items()}
            if not world.defined(exp):
                continue
            match = list()
            for y in live:
                c = type(y.obj)
                v = exp[c]
                if (t in where[c] and reusable[c] and v.status == 'ok' and
                        all(n in y.values and equal(y.values[n], v.values[n]) for n in v.values)):
                    match.append(y.obj)
            # an assignment may store what no resolution gives (no remap there): values equal to the resolved ones only
            given, busy = desc, None
            texts = [n for n, v in desc.items() if type(v) is str and
                     all(m.decl['attr'][n].get('type', str) is str and not m.decl['attr'][n].get('remap')
                         for m in w.classes.values() if n in m.decl['attr']) and
                     not any(n in a.get('alias', ()) for m in w.classes.values() for a in m.decl['attr'].values())]
            if texts and rng.random() < 0.3:
                # an object is created, or disappears, in the course of the lookup
                n = rng.choice(sorted(texts))
                if helper is None:
                    helper = define(None, dict(attr=dict(helper=dict())), dict(helper='str'), dict(attr=dict(helper=dict())))[0]
                busy = Busy(desc[n], lambda: helper(helper='h'))
                given = dict(desc, **{n: busy})
                mon.ev('created-meanwhile')
            if rng.random() < 0.5:
                got = mon.ok('default', fp.default, tag=t, **given)
            else:
                got = mon.ok('default', fp.collectors.get(tag=t).default, **given)
            if busy is not None:
                if busy.obj is not None:
                    accept_new(busy.obj, dict(helper='h'), what)
                busy.obj = given = None
            known = [y for y in live if y.obj is got]
            okset = {c for c, v in exp.items() if v.status == 'ok' and t in where[c] and (t, c) not in gone}
            mon.sig('default', desc, bool(match))
            if match and all((t, type(y)) in gone for y in match) and not known:
                # Reused or not: unspecified
                if got is not None:
                    mon.check(type(got) in okset, '{}: default loaded {!r}'.format(what, got))
                    accept_new(got, exp[type(got)].values, what)
                else:
                    mon.check(not okset, '{}: default gives nothing'.format(what))
                mon.ev('default-removed-class')
            elif match:
                mon.check(any(got is m for m in match), '{}: default with {!r} gave {!r} instead of one of {!r} ({!r})'
                          .format(what, desc, got, match, [y.values for y in live if y.obj in match]))
                mon.ev('default-reused')
                mon.nontrivial()
            else:
                mon.check(not known, '{}: default with {!r} reused {!r} ({!r}), that does not match'
                          .format(what, desc, got, [y.values for y in known]))
                mon.check((got is None) == (not okset), '{}: default with {!r} gave {!r}, candidates {!r}'
                          .format(what, desc, got, okset))
                if got is not None:
                    best = max((c.footprint_level() == 'TOOLBOX', len(exp[c].inputs)) for c in okset)
                    c = type(got)
                    mon.check(c in okset and (c.footprint_level() == 'TOOLBOX', len(exp[c].inputs)) == best,
                              '{}: default loaded a {!r}'.format(what, c))
                    world.check_object(mon, what, got, exp[c])
                    accept_new(got, exp[c].values, what)
                mon.ev('default-loaded')
            got = match = known = None
        elif op == 'class' and len(classes) < 5 and rng.random() < 0.5:
            made.append(define())
        elif op == 'remove':
            # the objects are still tracked
            t = rng.choice(tags)
            coll = fp.collectors.get(tag=t)
            if rng.random() < 0.3:
                mon.ok('clear', coll.clear)
                gone |= {(t, c) for c in classes if t in where[c]}
            else:
                cls = rng.choice(classes)
                mon.ok('discard', coll.discard, cls)
                gone.add((t, cls))
            cls = None
            mon.ev('classes-removed')
        elif op == 'fasttrack':
            fp.collectors.get(tag=rng.choice(tags)).fasttrack = rng.sample(gen.NAMES[:5], rng.randint(0, 3))
        elif op == 'restore' and gone:
            t, cls = rng.choice(sorted(gone, key=repr))
            if t in where[cls]:
                mon.ok('add', fp.collectors.get(tag=t).add, cls)
            gone.discard((t, cls))
            cls = None
        o = obj = x = y = cands = exp = None
        observe(what)
        while len(live) > most:
            drop(rng.randrange(len(live)), what)
    # The state of the survivors is the expected one
    for x in live:
        for n, v in x.values.items():
            if type(v) is object:
                continue
            got = getattr(x.obj, n)
            mon.check(got is None if v is model.UNSET else same_value(got, v),
                      'attribute {} of {!r} is {!r}, expected {!r}'.format(n, x.obj, got, v))
    x = got = y = cands = exp = match = known = obj = o = None
    while live:
        drop(0, 'end')
        observe('end')
