"""P05: speed and diagnostic settings never change the outcome of a query."""

from .. import gen, model, world
from ..lib import fp, mkclass, newtag, priorities, same_dict, uniq

KINDS = ('str', 'int', 'colour', 'even', 'span', 'fussy', 'loose', 'twice', 'fplist', 'fptuple', 'unhash', 'float', 'fpset')


class Twice(int):
    """A conversion that changes the values."""

    def __new__(cls, v):
        return super().__new__(cls, int(v) * 2)


gen.KINDS['twice'] = dict(type=Twice, good=[1, 2, 4, '2', '1', Twice(1), Twice(2), 8], bad=['abc', ''])
RANGED = gen.RANGED + ('twice',)


def gen_attr(rng, kind, alias):
    k = gen.KINDS[kind]
    d = gen.gen_attr(rng, kind, p_opt=0.25, p_values=0.85, p_outcast=0.2, p_remap=0.15, alias=alias) \
        if kind != 'twice' else dict(type=Twice)
    if kind == 'twice':
        d['values'] = rng.sample([1, 2, 4, Twice(2), Twice(4)], rng.randint(1, 3))
        if rng.random() < 0.2:
            d['optional'] = True
    if d.get('optional') and k['type'] is str and rng.random() < 0.35:
        d['default'] = rng.choice(['[kind]', '[model#red]', '[ghost]', '[ghost#red]', '[area#alpha]'])
        d.pop('values', None)
        d.pop('remap', None)
    return d


EQUAL = dict(__eq__=lambda self, other: type(self) is type(other), __hash__=lambda self: 7)


def outcome(mon, label, coll, desc, cache=None):
    """What a query gives (None in case of an error)."""
    o = mon.call(label, coll.find_all, dict(desc), resolvecache=cache)
    if not o.ok:
        return None
    return {x[0]: (x[1], set(x[2])) for x in o.value}


def short_lived(rng, mon):
    """A cache shared by the queries about objects that come and go."""
    tag = newtag()
    names = ('ghost', 'zone', 'area')
    klasses = [mkclass(uniq('Obj'), (newtag(),), dict(attr={x: dict(optional=True) for x in names}), _explicit=False,
                       **rng.choice([{}, EQUAL])) for _ in range(rng.choice([1, 1, 2]))]
    asked = rng.choice(names)
    mkclass(uniq('Cls'), (tag,), dict(attr=dict(text=dict(), other=dict(optional=True, default='[{}#none]'.format(rng.choice(names))))))
    coll = fp.collectors.get(tag=tag)
    cache = fp.collectors.ResolveCache()
    kept = None
    for _ in range(rng.randint(3, 12)):
        words = {x: rng.choice(gen.WORDS) for x in names}
        desc = dict(text='<[{}#nothing]>'.format(asked), carrier=rng.choice(klasses)(**words))
        o = mon.call('short-lived', coll.find_all, desc, resolvecache=cache)
        mon.check(o.ok and len(o.value) == 1, 'no answer for {!r}: {!r}'.format(words, o))
        mon.same('extra parameter of a short-lived object', o.value[0][1]['text'], '<' + words[asked] + '>')
        mon.ev('short-lived-objects')
        kept = rng.choice([kept, desc, None])
        del o, desc
    mon.sig(asked, len(klasses))


def run_case(rng, mon):
    if rng.random() < 0.1:
        short_lived(rng, mon)
    ta, tb = newtag(), newtag()
    names = rng.sample(gen.NAMES, rng.randint(1, 4))
    kinds = {n: rng.choice(KINDS) for n in names}
    decls, classes = list(), list()
    a, b = fp.collectors.get(tag=ta), fp.collectors.get(tag=tb)
    defaults = dict()
    other_kind = rng.choice(KINDS)
    callback = lambda: dict(ghost='red', zone='blue')  # noqa: E731

    def define():
        kd = dict(kinds)
        if rng.random() < 0.12:
            kd[rng.choice(names)] = other_kind        # inconsistent types
        if decls and rng.random() < 0.5:
            base, kd = rng.choice(decls)
            decl = dict(attr={k: (dict(v) if rng.random() < 0.5 else gen_attr(rng, kd[k], gen.ALIASES[gen.NAMES.index(k)]))
                              for k, v in base['attr'].items()})
        else:
            decl = dict(attr={k: gen_attr(rng, kd[k], gen.ALIASES[gen.NAMES.index(k)]) for k in names
                              if rng.random() < 0.9 or k == names[0]})
        if all(x.get('optional') for x in decl['attr'].values()):
            x = decl['attr'][sorted(decl['attr'])[0]]
            x.pop('optional', None)
            x.pop('default', None)
        if rng.random() < 0.25:
            decl['only'] = gen.gen_only(rng, decl, kd)
            mon.ev('only-rules')
        foot = world.user_copy(decl)
        if rng.random() < 0.3:
            foot['priority'] = dict(level=priorities.top.level(rng.choice(['none', 'toolbox', 'debug'])))
        flag = rng.random() < 0.5
        c = mkclass(uniq('Cls'), (ta, tb), foot, module=rng.choice(['alpha', 'alpha.one', 'beta']),
                    iamflag=classmethod(lambda cls: flag))
        decls.append((decl, kd))
        classes.append(c)
        mon.note('class', c.__name__, decl)
        return c

    # Footprint objects the descriptions may hold (their attributes are extra parameters)
    gens = [mkclass(uniq('Obj'), (newtag(),), dict(attr={x: dict(optional=True) for x in rng.sample(('ghost', 'zone', 'area', 'model'), 3)}),
                    _explicit=False, **rng.choice([{}, {}, EQUAL])) for _ in range(2)]

    def maker():
        return rng.choice(gens)(**{x: rng.choice(gen.WORDS) for x in ('ghost', 'zone', 'area', 'model') if rng.random() < 0.7})

    objects = [maker() for _ in range(3)]
    for _ in range(rng.randint(1, 5)):
        define()
    shared = None
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        op = None
        if r < 0.12:
            op = 'define'
            define()
        elif r < 0.2:
            op = 'discard'
            c = rng.choice(classes)
            a.discard(c), b.discard(c)
        elif r < 0.25:
            op = 'package'
            p = rng.choice(['alpha', 'beta', 'alpha.'])
            a.discard_package(p, verbose=False), b.discard_package(p, verbose=False)
        elif r < 0.28:
            op = 'onflag'
            d = rng.choice([True, False])
            a.discard_onflag('iamflag', d, verbose=False), b.discard_onflag('iamflag', d, verbose=False)
        elif r < 0.31:
            op = 'level'
            m = rng.choice(['discard_higher_level', 'discard_lower_level'])
            p = rng.choice(['toolbox', 'debug', 'default'])
            getattr(a, m)(p, verbose=False), getattr(b, m)(p, verbose=False)
        elif r < 0.36 and len(b):
            op = 'pop'
            c = mon.ok('pop', b.pop)
            mon.check(c in a, 'popped something unknown')
            a.discard(c)
        elif r < 0.38:
            op = 'clear'
            b.clear(), a.clear()
        elif r < 0.5:
            op = 'readd'
            c = rng.sample(classes, rng.randint(1, len(classes)))
            a.add(*c), b.add(*c)
        elif r < 0.72:
            op = 'fasttrack'
            b.fasttrack = rng.sample(names, rng.randint(0, len(names))) + rng.choice([[], ['nope']])
            if rng.random() < 0.3:
                # what the collector says belongs to the caller
                said = b.fasttrack
                if isinstance(said, set):
                    rng.choice([lambda: said.add(rng.choice(names)), said.clear, lambda: said.add('nope2')])()
                    mon.ev('fasttrack-view-modified')
        elif r < 0.8:
            op = 'setup'
            defaults = gen.gen_defaults(rng, decls, p=0.7)
            if rng.random() < 0.4:
                defaults.update(gen.gen_only_defaults(rng))
            fp.setup.defaults = dict(defaults)
            fp.setup.callback = rng.choice([None, callback])
            shared = None
        elif r < 0.85:
            op = 'priorities'
            priorities.top.rerank(rng.choice(['none', 'toolbox', 'debug', 'default']), rng.randint(-2, 2))
        if op:
            mon.ev('op:' + op)
            mon.note(op, 'fasttrack', sorted(b.fasttrack), 'classes', sorted(c.__name__ for c in a))
        mon.same('classes registered', set(b.items()), set(a.items()))
        for _ in range(rng.randint(1, 3)):
            decl, kd = rng.choice(decls)
            desc = gen.gen_desc(rng, decl, kd, p_good=0.93, p_none=0.03, p_nulltext=0.02)
            for k in list(desc):
                if gen.KINDS.get(kd.get(k, ''), {}).get('type') is str and rng.random() < 0.08:
                    desc[k] = rng.choice(['[ghost]', '[%s]' % rng.choice(names), '[zone]', '[area#red]', '[ghost#blue]'])
            if rng.random() < 0.4:
                if rng.random() < 0.4:
                    # a short-lived object: nothing is known of it once the query has been answered
                    i = rng.randrange(len(objects))
                    objects[i] = None
                    ref = got = obj = rd = None
                    objects[i] = maker()
                    mon.ev('short-lived-objects')
                for k in rng.sample(('carrier', 'provider'), rng.choice([1, 1, 2])):
                    desc[k] = rng.choice(objects)
                mon.ev('footprint-objects-given')
            # Reference: no accelerator of any kind, no report
            fp.setup.fastmode, fp.setup.fastkeys = False, ('kind',)
            a.fasttrack = ()
            a.report = 0
            ref = outcome(mon, 'reference', a, desc)
            if ref is None:
                mon.ev('reference-error')
                continue
            # Observed: anything goes
            fp.setup.fastmode = rng.random() < 0.5
            fp.setup.fastkeys = tuple(rng.sample(names, rng.randint(0, len(names))))
            b.report = rng.choice([0, 1, 2, 3])
            b.report_style = rng.choice([0, 1, 2, 3])
            b.report_auto = rng.random() < 0.7
            if rng.random() < 0.1:
                b.report_log.clear()
            if rng.random() < 0.6:
                shared = shared or fp.collectors.ResolveCache()
                mon.ev('shared-cache')
            else:
                shared = None
            knobs = dict(fasttrack=sorted(b.fasttrack), fastmode=fp.setup.fastmode, fastkeys=fp.setup.fastkeys,
                         report=b.report, style=b.report_style, shared=shared is not None)
            got = outcome(mon, 'observed', b, desc, cache=shared)
            mon.note('description', desc, knobs)
            mon.sig(sorted(repr(sorted(d['attr'].items(), key=repr)) for d, k in decls), sorted(desc.items(), key=repr),
                    sorted(knobs.items()), len(ref))
            if got is None:
                mon.fail('a query that succeeds fails with {!r}: {!r}'.format(knobs, desc))
            miss = {c.__name__ for c in ref if c not in got}
            extra = {c.__name__ for c in got if c not in ref}
            mon.check(not miss and not extra, 'with {!r}, candidates for {!r}: missing {!r}, in excess {!r}'.format(
                knobs, desc, miss, extra))
            mon.ev('candidates-compared', len(ref))
            if ref:
                mon.nontrivial()
            if b.fasttrack and ref:
                mon.ev('fasttrack-in-use')
            for c in ref:
                mon.check(same_dict(ref[c][0], got[c][0]), 'with {!r}, {} resolves to {!r} instead of {!r}'.format(
                    knobs, c.__name__, got[c][0], ref[c][0]))
                mon.same('inputs with {!r}'.format(knobs), got[c][1], ref[c][1])
            best = None
            if ref:
                w = {c: (priorities.top.levels.index(c.footprint_level()), len(x[1])) for c, x in ref.items()}
                best = [c for c in w if w[c] == max(w.values())]
            how = rng.choice(['find_best', 'load', 'pickup', 'find_any'])
            if how == 'find_best':
                obj = mon.ok(how, b.find_best, dict(desc), resolvecache=shared)
            elif how == 'find_any':
                obj = mon.ok(how, b.find_any, dict(desc), resolvecache=shared)
            elif how == 'load':
                obj = mon.ok(how, b.load, **desc)
            else:
                rd = dict(desc, _report=rng.choice([True, False]), _report_style=rng.choice([0, 1, 2, 3]))
                rd, shared = mon.ok(how, b.pickup_and_cache, rd, shared)
                obj = rd[tb]
            if best is None:
                mon.check(obj is None, '{} gives {!r} instead of nothing with {!r}'.format(how, obj, knobs))
            elif how == 'find_any':
                mon.check(type(obj) in ref, '{} gives {!r} with {!r}'.format(how, obj, knobs))
            else:
                mon.check(type(obj) in best, '{} gives {!r} instead of {!r} with {!r}'.format(how, type(obj), best, knobs))
            if obj is not None:
                vals = {k: (None if v is fp.UNKNOWN else v) for k, v in ref[type(obj)][0].items()}
                mon.check(same_dict(obj.footprint_as_shallow_dict(), vals), '{}: values {!r} instead of {!r}'.format(
                    how, obj.footprint_as_shallow_dict(), vals))


assert model
