"""P07: a class's footprint is the merge of its parents' and its own declaration."""

from .. import gen, model, world
from ..lib import FpMeta, doc, fp, mkclass, newtag, priorities, same_value, snapshot, uniq  # noqa: F401

KINDS = tuple(k for k in gen.ALLKINDS if k not in ('cls',))
POOL = gen.NAMES[:6]
PLAIN = ('str', 'colour', 'even', 'fpstr', 'date')


def partial(rng, kind, alias):
    """A (possibly partial) declaration of an attribute."""
    d = gen.gen_attr(rng, kind, alias=alias, p_default=0.5, p_alias=0.4, access=rng.choice(['rxx', 'rwx', 'rwd']))
    if 'remap' in d and 'autoremap' in d['remap']:
        d.pop('remap')
    if rng.random() < 0.2:
        d['doc_zorder'] = rng.choice([-500, -3, 0, 10, 99, 250])
    if rng.random() < 0.2:
        d['doc_visibility'] = doc.visibility.level(rng.choice(['default', 'advanced', 'guru']))
    if rng.random() < 0.08:
        return dict()
    if d and rng.random() < 0.5:
        # only some of the characteristics are given
        keep = rng.sample(sorted(d), rng.randint(1, len(d)))
        t = d.get('type')
        d = {k: v for k, v in d.items() if k in keep}
        if t and ('values' in d or 'outcast' in d):
            d['type'] = t
    if kind == 'span' and 'args' in d and 'values' in d:
        d.pop('args')
    if rng.random() < 0.1:
        d['optional'] = rng.choice([True, False])
    return d


def fragment(rng, kinds, nmax=3):
    """A dictionary that declares something."""
    names = rng.sample(sorted(kinds), rng.randint(1, min(nmax, len(kinds))))
    # (the type of an attribute may change along the way)
    d = dict(attr={n: partial(rng, rng.choice(PLAIN) if kinds[n] in PLAIN and rng.random() < 0.15 else kinds[n], gen.ALIASES[gen.NAMES.index(n)])
                   for n in names})
    if rng.random() < 0.3:
        d['info'] = rng.choice(['Something ' + uniq('info')] * 4 + [''])
    if rng.random() < 0.35:
        d['only'] = dict()
        for n in rng.sample(names, 1):
            good = gen.hashables(gen.KINDS[kinds[n]]['good'])
            d['only'][n] = rng.sample(good, min(len(good), rng.randint(1, 4)))
    if rng.random() < 0.35:
        d['priority'] = dict(level=priorities.top.level(rng.choice(['none', 'toolbox', 'debug', 'default'])))
    return d


def as_model(d):
    """The library's objects are replaced by names."""
    d = world.user_copy(d)
    if 'priority' in d:
        d['priority']['level'] = d['priority']['level'].tag
    return d


def fpsnap(f):
    return snapshot(f.as_dict())


def valid(decl):
    """Whatever is merged, the declaration has to make sense (allowed values can be converted...)."""
    try:
        for a in decl.get('attr', {}).values():
            n = model.norm_attr(a)
            if n['values'] and not all(model.hashable(v) for v in n['values']):
                return False
    except Exception:
        return False
    return True


def run_case(rng, mon):
    w = world.World(newtag())
    names = rng.sample(POOL, rng.randint(2, 5))
    kinds = {n: rng.choice(KINDS) for n in names}
    footprints = list()      # (footprint object, model, nodefault)
    known = dict()           # class -> finalised declaration
    guarded = list()         # (what, object, snapshot function, snapshot)
    modules = ['alpha', 'alpha.one', 'beta']
    level = dict()
    pack = dict()

    def listed(d):
        """A copy of the dictionary **d**, possibly with lists of attributes or rules."""
        d = world.user_copy(d)
        for k in ('attr', 'only'):
            if k in d and rng.random() < 0.2:
                d[k] = rng.choice([list, tuple])({x: y} for x, y in d[k].items())
                mon.ev('listed:' + k)
        return d

    def build_fp():
        """A footprint object, from dictionaries and other footprint objects."""
        parts, models = list(), list()
        for _ in range(rng.randint(1, 2)):
            if footprints and rng.random() < 0.4:
                f, m, nd = rng.choice(footprints)
                parts.append(f)
                models.append(m)
            else:
                d = fragment(rng, kinds)
                parts.append(listed(d))
                models.append(as_model(d))
        kw = dict()
        if rng.random() < 0.3:
            kw = fragment(rng, kinds, 1)
            models.append(as_model(kw))
        nodefault = rng.random() < 0.15
        m = model.merge(*models)
        if not valid(m):
            return None
        extra = dict(nodefault=True) if nodefault else {}
        klass = rng.choice([fp.Footprint, fp.Footprint, fp.DecorativeFootprint])
        if klass is fp.DecorativeFootprint and rng.random() < 0.5:
            extra['decorator'] = [lambda c: c]
        f = mon.ok('Footprint', klass, *parts, **dict(listed(kw), **extra))
        m = model.finalised(m, nodefault)
        if extra.get('decorator'):
            m['decorator'] = extra['decorator']
        footprints.append((f, m, nodefault))
        guarded.append(('a footprint object', f, fpsnap, fpsnap(f)))
        mon.ev('footprint-objects')
        return footprints[-1]

    def define():
        form = rng.choice(['dict', 'dict', 'object', 'list', 'attrlist', 'none'])
        items, models = list(), list()
        if form in ('object', 'list') and not footprints:
            build_fp()
        if form in ('object', 'list') and not footprints:
            form = 'dict'
        if form == 'object':
            f, m, nd = rng.choice(footprints)
            own = f
            models.append(m)
        elif form == 'list':
            own = list()
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.5:
                    f, m, nd = rng.choice(footprints)
                    own.append(f)
                    models.append(m)
                elif known and rng.random() < 0.3:
                    # the footprint of a class (a parent perhaps)
                    c = rng.choice(sorted(known, key=lambda c: c.__name__))
                    if known[c]['attr'] or known[c]['only']:
                        own.append(c._footprint)
                        models.append(known[c])
                        mon.ev('class-footprint-listed')
                else:
                    d = fragment(rng, kinds)
                    own.append(world.user_copy(d))
                    models.append(as_model(d))
            items = own[:]
        elif form == 'none':
            own = None
        else:
            d = fragment(rng, kinds)
            models.append(as_model(d))
            own = world.user_copy(d)
            if form == 'attrlist':
                own['attr'] = [{k: v} for k, v in own['attr'].items()]
                if rng.random() < 0.4:
                    # what is declared again later in the list (same characteristics) takes over
                    k = rng.choice(sorted(d['attr']))
                    first = {x: v for x, v in world.user_copy(partial(rng, kinds[k], 'other')).items()
                             if x in d['attr'][k] and x not in ('remap', 'args')}
                    own['attr'].insert(0, {k: first})
                    mon.ev('declared-twice')
                if 'only' in own:
                    own['only'] = [{k: v} for k, v in own['only'].items()]
        bases = list()
        if known and rng.random() < 0.75:
            for c in rng.sample(sorted(known, key=lambda c: c.__name__), min(len(known), rng.choice([1, 1, 2, 3]))):
                # a consistent order of resolution
                try:
                    type('Try', tuple(bases + [c]), dict(_abstract=True, _footprint={}, _collector=()),) if False else \
                        type.__new__(FpMeta, 'Try', tuple(bases + [c]), {})
                except TypeError:
                    continue
                bases.append(c)
        # (a parent that declares nothing gives nothing)
        merged = model.merge(*([known[c] for c in reversed(bases) if known[c]['attr'] or known[c]['only']] + models))
        if not valid(merged):
            mon.ev('invalid-skipped')
            return
        abstract = rng.random() < 0.3
        if not any(not a.get('optional') for a in merged.get('attr', {}).values()):
            abstract = True
        kw = dict(_abstract=abstract)
        ns_footprint = own
        name, mod = uniq('Cls'), rng.choice(modules)
        ns = dict(__module__=mod, _collector=(w.tag,), **kw)
        if own is not None:
            ns['_footprint'] = ns_footprint
        c = mon.ok('class', FpMeta, name, tuple(bases) or (fp.FootprintBase,), ns)
        mon.note('class', name, form, 'abstract' if abstract else 'concrete', 'parents', [b.__name__ for b in bases], 'own', models)
        mon.sig(form, len(bases), repr(sorted(merged.get('attr', {}).items(), key=repr)))
        mon.ev('form:' + form)
        mon.ev('parents:%d' % len(bases))
        if bases and models:
            mon.nontrivial()
        for f in items:
            pass
        if form == 'list':
            mon.check(len(own) == len(items) and all(x is y for x, y in zip(own, items)), 'the list of declarations was modified')
        final = model.finalised(merged)
        known[c] = final
        level[c], pack[c] = final['priority']['level'], '{}.{}'.format(mod, name)
        if not abstract:
            w.classes[c] = model.ClassModel(final, name)
            w.kinds[c] = kinds
        guarded.append(('class ' + name, c._footprint, fpsnap, fpsnap(c._footprint)))
        check_class(c)

    def check_class(c):
        f = mon.ok('retrieve', c.footprint_retrieve)
        final = known[c]
        mon.same('attributes of ' + c.__name__, set(f.attr), set(final['attr']))
        mon.same('info of ' + c.__name__, f.info, final['info'])
        mon.same('level of ' + c.__name__, c.footprint_level(), level[c])
        mon.same('mandatory attributes', set(c.footprint_mandatory()), {n for n, a in final['attr'].items() if not a['optional']})
        mon.same('only rules', {k: list(v) for k, v in f.only.items()}, {k: list(v) for k, v in final['only'].items()})
        for n, a in final['attr'].items():
            e = model.norm_attr(a)
            o = f.attr[n]
            what = '{}.{}: '.format(c.__name__, n)
            mon.check(o.get('type', str) is e['type'], what + 'type {!r} instead of {!r}'.format(o.get('type'), e['type']))
            mon.same(what + 'args', o.get('args', {}), e['args'])
            mon.same(what + 'optional', (bool(o['optional']), c.footprint_optional(n)), (e['optional'], e['optional']))
            mon.check(same_value(o['default'], e['default']), what + 'default {!r} instead of {!r}'.format(o['default'], e['default']))
            mon.same(what + 'access', c.footprint_access(n), e['access'])
            mon.same(what + 'aliases', set(o['alias']), set(e['alias']))
            mon.check(same_value(dict(o['remap']), e['remap']), what + 'remap {!r} instead of {!r}'.format(o['remap'], e['remap']))
            mon.same(what + 'info', o.get('info'), e['info'])
            mon.same(what + 'zorder', o['doc_zorder'], e['doc_zorder'])
            mon.same(what + 'visibility', o['doc_visibility'].tag, e['doc_visibility'])
            for k, got in (('values', c.footprint_values(n)), ('outcast', f.get_outcast(n))):
                exp = list()
                for v in e[k]:
                    if not any(v == x for x in exp):
                        exp.append(v)
                ok = len(got) == len(exp) and all(any(same_value(v, x) or (v == x and isinstance(v, e['type'])) for x in got)
                                                  for v in exp)
                mon.check(ok, what + k + ' {!r} instead of {!r}'.format(got, exp))
            mon.ev('attributes-compared')

    def verify():
        for what, obj, fn, snap in guarded:
            mon.same('{} has been altered'.format(what), fn(obj), snap)
            mon.ev('guards-checked')

    def wreck(x, depth=0):
        """Spoil whatever can be in a result."""
        if isinstance(x, dict):
            if depth < 3:
                for v in list(x.values()):
                    wreck(v, depth + 1)
            x.clear()
        elif isinstance(x, (list, set, bytearray)):
            x.clear()

    def inspect():
        """What is told about a footprint belongs to the caller."""
        f = rng.choice([f for f, m, nd in footprints] + [c._footprint for c in known])
        what = rng.choice(['as_dict', 'as_copy', 'as_opts', 'allkeys', 'mandatory', 'track', 'get_values', 'get_outcast'])
        n = rng.choice(names)
        if what in ('get_values', 'get_outcast') and n not in f.attr:
            return
        got = mon.ok(what, getattr(f, what), *([{n: 1}] if what == 'track' else [n] if what.startswith('get_') else []))
        if what == 'as_dict':
            got.clear()         # (a shallow copy)
        elif what == 'as_copy':
            mon.check(set(got['attr']) == set(f.attr), 'as_copy gives {!r}'.format(got))
            wreck(got)
        else:
            wreck(got)
            if what != 'track':
                again = mon.ok(what, getattr(f, what), *([n] if what.startswith('get_') else []))
                exp = mon.ok('as_dict', f.as_dict)['attr']
                if what in ('get_values', 'get_outcast'):
                    mon.check(set(map(repr, again)) == set(map(repr, exp[n][what[4:]])), '{} then gives {!r}'.format(what, again))
                elif what == 'mandatory':
                    mon.same('mandatory once more', sorted(again), sorted(k for k, a in exp.items() if not a['optional']))
                else:
                    mon.same(what + ' once more', sorted(again), sorted(set(exp) | {x for a in exp.values() for x in a['alias']}))
        mon.ev('results-wrecked')

    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.25:
            build_fp()
        define()
        if rng.random() < 0.3 and (known or footprints):
            inspect()
        verify()
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.3 and level:
            pk, lev = rng.choice(modules + ['alpha.one.Cls', rng.choice(sorted(pack.values()))]), rng.choice(['toolbox', 'debug', 'none'])
            mon.ok('reset_package_level', w.collector.reset_package_level, pk, lev)
            mon.ev('resets')
            for i, (what, obj, fn, snap) in enumerate(guarded):
                for c in w.classes:
                    if obj is c._footprint and pack[c].startswith(pk):
                        level[c] = known[c]['priority']['level'] = lev.upper()
                        guarded[i] = (what, obj, fn, fn(obj))
            for c in known:
                mon.same('level of {} after a reset of {}'.format(pack[c], pk), c.footprint_level(), level[c])
        elif r < 0.45:
            define()
        elif w.classes:
            c = rng.choice(sorted(w.classes, key=lambda c: c.__name__))
            desc = gen.gen_desc(rng, w.classes[c].decl, kinds, p_good=0.95, p_none=0.02, p_nulltext=0.01)
            exp = w.expected(desc)
            if not world.defined(exp):
                continue
            mon.note('description', desc, {c.__name__: v.status for c, v in exp.items()})
            found = {x[0]: x[1] for x in mon.ok('find_all', w.collector.find_all, dict(desc))}
            okset = {c for c, v in exp.items() if v.status == 'ok'}
            mon.same('candidates for {!r}'.format(desc), {c.__name__ for c in found}, {c.__name__ for c in okset})
            for c in okset:
                world.check_values(mon, c.__name__, found[c], exp[c])
                mon.ev('queries-compared')
            if c in okset:
                obj = mon.ok('construct', c, **desc)
                world.check_object(mon, c.__name__, obj, exp[c])
        verify()
    for c in known:
        check_class(c)
