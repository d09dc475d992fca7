"""P08: queries have no side effect on the caller's data, the setup or the classes; pickup."""

from .. import gen, model, world
from ..lib import fp, mkclass, newtag, priorities, same_dict, snapshot, target, uniq  # noqa: F401


class Mutable:
    """A mutable value, with members and methods used in substitutions."""

    def __init__(self, n=1):
        self.n = n
        self.bag = dict(a=[1, 2])

    def label(self, g, e):
        return 'l%d' % self.n

    def __repr__(self):
        return 'Mutable({!r}, {!r})'.format(self.n, self.bag)


def desc_snap(d):
    return (tuple(d), snapshot(d))


def run_case(rng, mon):
    w = world.World(newtag())
    otag = newtag()
    decls = list()
    for _ in range(rng.randint(1, 4)):
        if decls and rng.random() < 0.4:
            base, kinds = rng.choice(decls)
            decl = dict(attr={k: dict(v) for k, v in base['attr'].items()})
        else:
            decl, kinds = gen.gen_decl(rng, p_alias=0.5)
        for n, a in decl['attr'].items():
            if a.get('optional') and kinds[n] == 'str' and rng.random() < 0.4:
                a['default'] = rng.choice(['[kind#k]', '[bag:label]', '[ghost#g]', '[ob1#o]', '[foreign#f]-x'])
            if rng.random() < 0.2:
                a['access'] = rng.choice(['rwx', 'rwd'])
        if rng.random() < 0.3:
            n = rng.choice(sorted(decl['attr']))
            decl['only'] = {n: gen.hashables(gen.KINDS[kinds[n]]['good'])}
        if rng.random() < 0.2:
            # a rule about something that is not an attribute
            decl.setdefault('only', {})[rng.choice(['', '', 'before_']) + 'runmode'] = rng.choice(['test', ['oper', 'test'], 'zz'])
        foot = world.user_copy(decl)
        if rng.random() < 0.3:
            foot['priority'] = dict(level=priorities.top.level(rng.choice(['none', 'toolbox', 'debug'])))
        decls.append((decl, kinds))
        w.add(decl, kinds, footprint=foot)
    defaults = gen.gen_defaults(rng, decls, p=0.6)
    if rng.random() < 0.7:
        defaults[rng.choice(['runmode', 'RunMode'])] = rng.choice(['test', 'oper'])
    extras = dict(ghost='gh', blob=Mutable(3), lst=[1, [2]], dct=dict(a=dict(b=1)))
    w.set_setup(defaults, rng.choice([None, extras]))
    ocls = mkclass(uniq('Obj'), (otag,), dict(attr=dict(ob1=dict(), ob2=dict(type=fp.FPList, optional=True))))
    obj1 = ocls(ob1='o', ob2=fp.FPList([1, [2]]))
    mon.note('classes', {c.__name__: m.decl for c, m in w.classes.items()}, 'defaults', defaults)

    descs = list()
    for _ in range(rng.randint(2, 5)):
        decl, kinds = rng.choice(decls)
        d = gen.gen_desc(rng, decl, kinds, p_good=0.92)
        if rng.random() < 0.4:
            d['bag'] = Mutable(rng.randint(1, 5))
        if rng.random() < 0.3:
            d['provider'] = obj1
        if rng.random() < 0.3:
            d[rng.choice(['runmode', 'before_runmode'])] = rng.choice(['test', 'x', 'oper'])
        if rng.random() < 0.3:
            d['plain'] = rng.choice([[3, 1, 2], ['b', 'a'], [[2], [1]], [1, 1], [None], ['b', None, 'a'], {3, 1}, {'z': 1, 'a': [2, 1]}, bytearray(b'ab')])
        if rng.random() < 0.3:
            d['nested'] = dict(a=[1, dict(b={2})], c=fp.FPDict(x=[1]))
        for k in list(d):
            if kinds.get(k) == 'str' and rng.random() < 0.15:
                d[k] = rng.choice(['[ghost#g]', '[bag:label]', 'a-[kind#z]', '[provider:ob1#p]'])
        descs.append(d)

    def state():
        return dict(defaults=snapshot(dict(fp.setup.defaults)), extras=snapshot(extras), obj=snapshot(obj1),
                    switches=(fp.setup.extended, fp.setup.fatal, fp.setup.fastmode, fp.setup.fastkeys, fp.setup.report),
                    classes={c.__name__: snapshot(c._footprint.as_dict()) for c in w.classes},
                    registered=set(w.collector.items()), levels=priorities.top.levels,
                    descs=[desc_snap(d) for d in descs])

    def unchanged(what, before):
        after = state()
        for k in before:
            mon.check(before[k] == after[k], '{} altered: {}'.format(what, k), before=before[k], after=after[k])
        mon.ev('states-compared')

    def answer(how, d, cache=None):
        """Query, and a comparable image of the answer."""
        coll = w.collector
        if how == 'find_all':
            o = mon.call(how, coll.find_all, d, resolvecache=cache)
            if o.ok:
                return {x[0].__name__: (image(x[1]), frozenset(x[2])) for x in o.value}
        elif how in ('find_any', 'find_best'):
            o = mon.call(how, getattr(coll, how), d, resolvecache=cache)
            if o.ok:
                # which one of several equivalent candidates is not specified
                return o.value is None
        elif how == 'load':
            o = mon.call(how, coll.load, **d)
            if o.ok:
                return o.value is None
        elif how == 'couldbe':
            res = list()
            for c in sorted(w.classes, key=lambda c: c.__name__):
                o = mon.call(how, c.footprint_couldbe, d)
                res.append((image(o.value[0]), frozenset(o.value[1])) if o.ok else type(o.exc).__name__)
            return res
        elif how == 'construct':
            c = sorted(w.classes, key=lambda c: c.__name__)[len(d) % len(w.classes)]
            o = mon.call(how, c, d)
            if o.ok:
                return image(o.value.footprint_as_shallow_dict())
        elif how == 'resolve':
            c = sorted(w.classes, key=lambda c: c.__name__)[len(d) % len(w.classes)]
            o = mon.call(how, c.footprint_retrieve().resolve, d, fatal=False)
            if o.ok:
                return image(o.value[0])
        elif how == 'default':
            o = mon.call(how, coll.default, **d)
            if o.ok:
                return o.value is None
        elif how == 'inventory':
            mon.call('build_attrmap', coll.build_attrmap)
            for n in gen.NAMES[:3]:
                mon.call('get_values', coll.get_values, n)
            mon.call('show', coll.show_attrmap)
            for c in w.classes:
                mon.call('doc', fp.doc.format_docstring, c._footprint, 2)
                mon.call('nice', c._footprint.nice)
                mon.call('repr', str, c._footprint)
            return None
        elif how == 'grep':
            o = mon.call(how, coll.grep, **d)
            return None
        return type(o.exc).__name__

    def image(v):
        if not isinstance(v, dict):
            return v
        return tuple(sorted((k, repr(type(target(x))), repr(target(x)) if not isinstance(x, fp.FootprintBase) else id(x))
                            for k, x in v.items()))

    hows = ['find_all', 'find_all', 'find_any', 'find_best', 'load', 'couldbe', 'construct', 'resolve', 'default',
            'inventory', 'grep']
    todo = [(how, i) for i in range(len(descs)) for how in rng.sample(hows, 4)] + [('find_all', i) for i in range(len(descs))]
    history = dict()
    cache = None
    for turn in range(2):
        rng.shuffle(todo)
        for how, i in todo:
            w.collector.report = rng.choice([0, 1, 2, 3])
            if rng.random() < 0.3:
                cache = fp.collectors.ResolveCache() if cache is None or rng.random() < 0.5 else cache
            before = state()
            a = answer(how, descs[i], cache if rng.random() < 0.5 else None)
            mon.trace.append('answer {} {!r}: {!r}'.format(how, i, a)[:300])
            unchanged('{} with {!r}'.format(how, descs[i]), before)
            if (how, i) in history:
                mon.ev('answers-compared')
                mon.same('answer to {} with {!r}, asked again'.format(how, descs[i]), a, history[(how, i)])
            history[(how, i)] = a
            mon.sig(how, sorted(descs[i].items(), key=lambda x: x[0]), a)
            if a not in (True, {}, None):
                mon.nontrivial()

    # Pickup
    for _ in range(rng.randint(1, 4)):
        d = dict(rng.choice(descs))
        classes = sorted(w.classes, key=lambda c: c.__name__)
        exp = w.expected(d)
        stored = None
        r = rng.random()
        if r < 0.15:
            stored = obj1
            d[w.tag] = stored
        elif r < 0.35:
            # an object already stored, possibly of one of these classes
            o = mon.call('load', w.collector.load, **d)
            if o.ok and o.value is not None:
                stored = o.value
                d[w.tag] = stored
        elif r < 0.45:
            d[w.tag] = None
        for opt in ('_report', '_emptywarning', '_report_style', '_whatever'):
            if rng.random() < 0.25:
                d[opt] = rng.choice([True, False]) if opt != '_report_style' else rng.choice([0, 1, 2, 3])
        items = list(d.items())
        rng.shuffle(items)
        d = dict(items)
        before, orig = state(), dict(d)
        inner = {k: snapshot(v) for k, v in d.items()}
        mon.note('pickup', d)
        if rng.random() < 0.5:
            arg = dict(d, tag=w.tag)
            o = mon.call('pickup', fp.pickup, arg)
        elif rng.random() < 0.5:
            o = mon.call('pickup', w.collector.pickup, d)
        else:
            o = mon.call('pickup', w.collector.pickup_and_cache, d, fp.collectors.ResolveCache())
            if o.ok:
                o.value = o.value[0]
        unchanged('pickup', before)
        if not o.ok:
            mon.ev('pickup-errors')
            continue
        rd = o.value
        mon.ev('pickups')
        mon.check(isinstance(rd, dict), 'pickup returned {!r}'.format(rd))
        mon.check(w.tag in rd, 'nothing stored under the name of the collector: {!r}'.format(rd))
        got = rd[w.tag]
        if stored is not None:
            mon.check(got is stored, 'the object already stored has been replaced by {!r}'.format(got))
            mon.ev('pickups-stored')
        elif world.defined(exp):
            okset = {c for c, v in exp.items() if v.status == 'ok'}
            mon.check((got is None) == (not okset), 'pickup gave {!r}, candidates: {!r}'.format(got, okset))
            if got is not None:
                mon.check(type(got) in okset, 'pickup gave a {!r}'.format(type(got)))
                world.check_object(mon, 'pickup', got, exp[type(got)])
        consumed = set()
        if got is not None:
            mon.nontrivial()
            decl = w.classes[type(got)].decl if type(got) in w.classes else dict(attr=dict(ob1={}, ob2={}))
            for n, a in decl['attr'].items():
                consumed.add(n)
                consumed.update(a.get('alias', ()))
        kept = {k for k in orig if k not in consumed and not k.startswith('_')} | {w.tag}
        mon.same('entries left by pickup', set(rd), kept, original=orig)
        for k in kept - {w.tag}:
            mon.check(rd[k] is orig[k], 'pickup replaced the entry {!r}'.format(k))
        for k, v in orig.items():
            if k != w.tag:
                mon.check(snapshot(v) == inner[k], 'pickup altered the value of {!r}'.format(k))


assert model and same_dict
