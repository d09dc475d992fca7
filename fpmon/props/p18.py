"""P18: classes are registered in exactly the collectors they name."""

import gc

from ..lib import capture, collectors, fp, mkclass, newtag, priorities, uniq

PACKAGES = ['alpha', 'alpha.one', 'alphabet', 'beta', 'beta.two.three', 'Beta']


def variant(rng, tag):
    """Another spelling of the same tag."""
    return rng.choice([tag, tag + 's', tag.upper(), tag.capitalize(), tag + 'S', tag + 'sss', tag.capitalize() + 's'])


class Registry:
    """The expected content of the collectors."""

    def __init__(self, rng):
        self.tags = [newtag() for _ in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < 0.3:
            # names that look alike
            self.tags.append(rng.choice([self.tags[0] + 'x', self.tags[0] + 'si', 'a' + self.tags[0], self.tags[0][1:]]))
        self.classes = {t: set() for t in self.tags}
        self.abstract = {t: set() for t in self.tags}
        self.flags = dict()
        self.tags_of = dict()
        self.levels = dict()
        self.every = list()
        self.removals = list()

    def all(self):
        out = set()
        for s in self.classes.values():
            out |= s
        return out


def names(classes):
    return sorted(c.fullname() for c in classes)


def define(rng, mon, reg):
    """A valid definition."""
    name = uniq('Cls')
    tags = rng.sample(reg.tags, rng.randint(1, len(reg.tags)))
    abstract = rng.random() < 0.2
    kw = dict(module=rng.choice(PACKAGES))
    flag = rng.choice([True, False, 'maybe', None])
    if flag is not None:
        kw['myflag'] = classmethod(lambda cls: flag)
    if abstract or rng.random() < 0.1:
        kw['_abstract'] = abstract
    foot = dict(attr=dict(kind=dict(), other=dict(optional=True)))
    if rng.random() < 0.5:
        foot['attr']['kind'] = dict(values=rng.choice([list, set])(['x'] + rng.sample(['a', 'b', 'c', 'd', 'e', 'f'], rng.randint(0, 6))))
    level = None
    if rng.random() < 0.6:
        level = rng.choice(priorities.top.levels)
        foot['priority'] = dict(level=priorities.top.level(level))
    named = [variant(rng, t) for t in tags]
    if rng.random() < 0.1:
        named.append(variant(rng, tags[0]))
    kwtags = rng.choice([tuple, list])(named)
    bases = None
    if reg.every and rng.random() < 0.3:
        mother = rng.choice(reg.every)
        bases = (mother,)
        if rng.random() < 0.5:
            kwtags = None           # inherited
            tags = reg.tags_of[mother]
            named = 'those of ' + mother.__name__
        if flag is None:
            flag = reg.flags[mother]
        if level is None:
            level = mother.footprint_level()
            if rng.random() < 0.5:
                foot.pop('attr')
    if '_abstract' not in kw and bases:
        kw['_abstract'] = False
    if not foot.get('attr') and not bases:
        foot['attr'] = dict(kind=dict())
    if reg.every and rng.random() < 0.08:
        # the same name as another one, maybe in the same module
        twin = rng.choice(reg.every)
        name = twin.__name__
        if rng.random() < 0.7:
            kw['module'] = twin.__module__
        mon.ev('same-name')
    mon.note('define', name, named, 'abstract' if abstract else '', level or 'default', kw['module'], repr(flag))
    o = mon.call('define', mkclass, name, kwtags, foot, bases=bases, **kw)
    mon.check(o.ok, 'the class is refused: {!r}'.format(o.exc))
    cls = o.value
    reg.every.append(cls)
    reg.flags[cls] = flag
    reg.tags_of[cls] = tags
    for t in tags:
        (reg.abstract if abstract else reg.classes)[t].add(cls)
    mon.ev('defined-abstract' if abstract else 'defined')
    mon.check(cls.footprint_abstract() == abstract, 'abstract: {!r}'.format(cls.footprint_abstract()))
    if level is not None:
        mon.same('level of {}'.format(name), cls.footprint_level(), level.upper())
    return cls


def explode(cls):
    raise RuntimeError('decorator')


def refuse(rng, mon, reg):
    """A definition which is refused."""
    name = uniq('Bad')
    tag = rng.choice(reg.tags)
    tags = [variant(rng, t) for t in reg.tags]
    rng.shuffle(tags)
    attr = dict(kind=dict())
    foot = dict(attr=attr)
    kw = dict()
    how = rng.choice(['nomandatory', 'attribute', 'alias', 'access', 'values', 'decorator', 'notcallable', 'name', 'both'])
    if how == 'nomandatory':
        attr['kind'] = dict(optional=True)
    elif how in ('attribute', 'both'):
        attr[rng.choice([tag, tag, variant(rng, tag).lower().rstrip('s')])] = dict(optional=True)
    elif how == 'alias':
        attr['other'] = dict(optional=True, alias=[tag])
    elif how == 'access':
        attr['other'] = dict(access='zzz')
    elif how == 'values':
        attr['other'] = dict(type=int, values=['abc'])
    elif how == 'decorator':
        foot = fp.DecorativeFootprint(dict(attr=attr), decorator=[explode])
    elif how == 'name':
        tags.append(5)
    fresh = newtag()
    if rng.random() < 0.5 and how != 'name':
        tags.insert(rng.randint(0, len(tags)), fresh)
    kw['_abstract'] = how in ('attribute', 'alias', 'access', 'values', 'decorator') and rng.random() < 0.3
    if reg.every and rng.random() < 0.2 and how not in ('nomandatory', ):
        kw['bases'] = (rng.choice(reg.every),)
    mon.note('refuse', how, tags, foot)
    if how == 'notcallable':
        o = mon.call('refuse-' + how, lambda: mkclass(name, tags, fp.DecorativeFootprint(dict(attr=attr), decorator='text'), **kw))
    else:
        o = mon.call('refuse-' + how, mkclass, name, tags, foot, **kw)
    mon.check(not o.ok, 'the definition should have been refused ({}): {!r}'.format(how, o.value))
    if how in ('nomandatory', 'attribute', 'both', 'alias'):
        mon.check(isinstance(o.exc, fp.FootprintInvalidDefinition), 'raised {!r}'.format(o.exc))
    mon.ev('refused')
    for t, c in collectors.items():
        mon.check(all(x.__name__ != name for x in c) and all(x.__name__ != name for x in c.abstract_classes),
                  'the refused class ({}) is in the collector {}'.format(how, t))


def check_registry(rng, mon, reg):
    for t in reg.tags:
        c = collectors.get(tag=variant(rng, t))
        mon.same('tag', c.tag, t)
        mon.same('classes of {}'.format(t), names(c), names(reg.classes[t]))
        mon.same('number of classes', len(c), len(reg.classes[t]))
        mon.same('abstract classes of {}'.format(t), names(c.abstract_classes), names(reg.abstract[t]))
        for x in reg.every:
            mon.check((x in c) == (x in reg.classes[t]), '{!r} in {}'.format(x, t))
    for t, c in collectors.items():
        if t not in reg.classes:
            mon.same('classes of {}'.format(t), names(c), [])
            mon.check(not any(x in c.abstract_classes for x in reg.every), 'abstract class in {}'.format(t))
    mon.same('collected classes', names(fp.collected_classes()), names(reg.all()))
    mon.ev('registries-observed')


def check_filters(rng, mon, reg):
    t = rng.choice(reg.tags)
    c, content = collectors.get(tag=t), reg.classes[t]
    how = rng.choice(['package', 'flag', 'higher', 'lower', 'priorities'])
    if how == 'package':
        p = rng.choice(PACKAGES + ['alpha.', 'b', '', 'nope', 'eta'] + [x.fullname() for x in reg.every][:3])
        mon.same('filter_package {!r}'.format(p), names(mon.ok(how, c.filter_package, p)), names(x for x in content if x.fullname().startswith(p)))
    elif how == 'flag':
        d = rng.choice([True, False, 'maybe', 'nope', 1])
        mon.same('filter_onflag {!r}'.format(d), names(mon.ok(how, c.filter_onflag, 'myflag', d)),
                 names(x for x in content if reg.flags[x] is not None and reg.flags[x] == d))
        mon.same('filter_onflag (unknown)', mon.ok(how, c.filter_onflag, 'nosuchflag'), [])
        if d is True:
            mon.same('filter_onflag', names(mon.ok(how, c.filter_onflag, 'myflag')), names(x for x in content if reg.flags[x] in (True, 1)))
    elif how in ('higher', 'lower'):
        order = list(priorities.top.levels)
        p = rng.choice(order)
        arg = rng.choice([p, p.lower(), p.capitalize(), priorities.top.level(p)])
        k = order.index(p)
        pos = {x: order.index(x.footprint_level()) for x in content}
        exp = [x for x in content if (pos[x] >= k if how == 'higher' else pos[x] < k)]
        mon.same('filter_{}_level {!r} (order {!r})'.format(how, arg, order),
                 names(mon.ok(how, getattr(c, 'filter_{}_level'.format(how)), arg)), names(exp))
        if rng.random() < 0.2:
            mon.refused('filter-unknown-level', ValueError, getattr(c, 'filter_{}_level'.format(how)), 'nosuchlevel')
    else:
        order = list(priorities.top.levels)
        p = rng.choice(order)
        with capture() as text:
            mon.ok('collected_priorities', fp.collected_priorities, rng.choice([p, p.lower()]))
        got = [y.split(' - ') for y in text.getvalue().split('\n') if y.strip()]
        exp = sorted((x.footprint_level(), x.fullname()) for x in reg.all() if order.index(x.footprint_level()) >= order.index(p))
        mon.same('collected_priorities', sorted((a.strip(), b.strip()) for a, b in got), exp)
    mon.ev('filter-' + how)


def remove(rng, mon, reg):
    t = rng.choice(reg.tags)
    how = rng.choice(['discard', 'discard', 'package', 'flag', 'higher', 'lower', 'pop', 'clear', 'unknown', 'badlevel'])
    verbose = rng.random() < 0.3
    arg = dict(package=rng.choice(['alpha', 'alpha.one', 'beta.', 'Beta', 'zzz']), flag=rng.choice([True, False, 'maybe']),
               higher=rng.choice(list(priorities.top.levels)), lower=rng.choice(list(priorities.top.levels))).get(how)
    if reg.removals and rng.random() < 0.3:
        t, how, arg, verbose = rng.choice(reg.removals)         # once again
        mon.ev('removed-again')
    if how in ('package', 'flag', 'higher', 'lower', 'clear'):
        reg.removals.append((t, how, arg, verbose))
    c, content = collectors.get(tag=t), reg.classes[t]
    order = list(priorities.top.levels)
    gone = set()
    with capture() as text:
        if how == 'discard' and content:
            x = sorted(content, key=lambda z: z.__name__)[rng.randrange(len(content))]
            mon.ok(how, c.discard, x)
            gone = {x}
        elif how == 'package':
            p = arg
            mon.ok(how, c.discard_package, p, verbose=verbose)
            gone = {x for x in content if x.fullname().startswith(p)}
        elif how == 'flag':
            d = arg
            mon.ok(how, c.discard_onflag, 'myflag', d, verbose=verbose)
            gone = {x for x in content if reg.flags[x] is not None and reg.flags[x] == d}
        elif how in ('higher', 'lower'):
            p = arg if arg in order else rng.choice(order)
            mon.ok(how, getattr(c, 'discard_{}_level'.format(how)), rng.choice([p, p.lower()]), verbose=verbose)
            k = order.index(p)
            gone = {x for x in content if (order.index(x.footprint_level()) >= k) == (how == 'higher')}
        elif how == 'pop':
            if content:
                gone = {mon.ok(how, c.pop)}
                mon.check(gone <= content, 'popped {!r}'.format(gone))
            else:
                mon.refused('pop-empty', KeyError, c.pop)
        elif how == 'clear' and rng.random() < 0.4:
            mon.ok(how, c.clear)
            gone = set(content)
        elif how == 'unknown':
            mon.ok(how, c.discard, rng.choice([int, fp.FootprintBase] + [x for x in reg.every if x not in content][:1]))
        elif how == 'badlevel':
            mon.refused(how, ValueError, rng.choice([c.discard_higher_level, c.discard_lower_level]), 'nosuchlevel')
            if rng.random() < 0.5:
                mon.refused(how, ValueError, c.reset_package_level, 'alpha', 'nosuchlevel')
    if verbose and how in ('package', 'flag', 'higher', 'lower'):
        mon.same('lines printed', text.getvalue().count('Bye'), len(gone))
    reg.classes[t] = content - gone
    mon.note('remove', how, names(gone), 'from', t)
    mon.ev('removed', len(gone))


def change_levels(rng, mon, reg):
    order = list(priorities.top.levels)
    how = rng.choice(['rerank', 'insert', 'package', 'package', 'everywhere', 'reset'])
    mon.ev('levels-' + how)
    if how == 'rerank':
        priorities.top.rerank(rng.choice(order), rng.randint(-2, 3))
    elif how == 'insert':
        priorities.top.insert(tag=uniq('lvl'), **rng.choice([dict(after=rng.choice(order)), dict(before=rng.choice(order))]))
    elif how == 'reset' and all(x.footprint_level() in ('NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG') for x in reg.every):
        priorities.top.reset()
    elif how in ('package', 'everywhere'):
        p = rng.choice(['alpha', 'beta', 'alpha.one', 'Be', 'zzz'])
        lvl = rng.choice(order)
        before = {x: x.footprint_level() for x in reg.every}
        if how == 'package':
            t = rng.choice(reg.tags)
            mon.ok('reset_package_level', collectors.get(tag=t).reset_package_level, p, rng.choice([lvl, lvl.lower()]))
            concerned = {x for x in reg.classes[t] if x.fullname().startswith(p)}
        else:
            mon.ok('reset_package_priority', fp.reset_package_priority, p, lvl)
            concerned = {x for x in reg.all() if x.fullname().startswith(p)}
        for x in reg.every:
            mon.same('level of {} once {} set to {}'.format(x.fullname(), p, lvl), x.footprint_level(), lvl if x in concerned else before[x])


def check_queries(rng, mon, reg):
    t = rng.choice(reg.tags)
    c = collectors.get(tag=t)
    if rng.random() < 0.3:
        c.fasttrack = rng.choice([('kind', ), ('kind', 'other'), ('other', ), ()])
        mon.ev('fast-keys')
    for k in ['x'] + rng.sample(['a', 'b', 'c', 'd', 'e', 'f', 'nope'], rng.randint(0, 7)):
        exp = [x for x in reg.classes[t] if k == 'x' or not x.footprint_values('kind') or k in x.footprint_values('kind')]
        found = mon.ok('find_all', c.find_all, dict(kind=k))
        mon.same('candidates for {} in {}'.format(k, t), names(x[0] for x in found), names(exp))
        best = mon.ok('find_any', c.find_any, dict(kind=k))
        mon.check((best is None) == (not exp) and (best is None or type(best) in exp), 'any candidate for {}: {!r}'.format(k, best))
        del best
    obj = mon.ok('load', c.load, kind='x')
    mon.check((obj is None) == (not reg.classes[t]) and (obj is None or type(obj) in reg.classes[t]), 'load gives {!r}'.format(obj))
    if reg.every:
        x = rng.choice(reg.every)
        if x.footprint_abstract():
            mon.refused('instantiate-abstract', fp.FootprintInvalidDefinition, x, **rng.choice([dict(kind='x'), dict(kind='x', checked=True), {}]))
            mon.ev('abstract-refused')
        else:
            y = mon.ok('instantiate', x, kind='x')
            for u in reg.tags:
                if [z.fullname() for z in reg.every].count(x.fullname()) > 1:
                    break           # classes of the same name share their tracking
                mon.check((y in collectors.get(tag=u).instances) == (u in reg.tags_of[x]), '{!r} tracked in {}'.format(y, u))


class Static:
    pass


def check_proxies(rng, mon, reg, statics):
    for t in reg.tags:
        c = collectors.get(tag=t)
        mon.check(getattr(fp.proxy, t + 's') is c, 'proxy.{}s: {!r}'.format(t, getattr(fp.proxy, t + 's')))
        mon.check(getattr(fp.proxy, t) == c.load, 'proxy.{}: {!r}'.format(t, getattr(fp.proxy, t)))
        for s in statics:
            mon.check(getattr(s, t + 's', None) is c and getattr(s, t, None) == c.load, 'static proxy for {}'.format(t))
        mon.check(fp.proxy.exists(t) and t in fp.proxy and t + 's' in fp.proxy and fp.proxy.getitem(t) is c
                  and fp.proxy.getitem(t + 's') is c, 'the collector {} does not exist for the proxy'.format(t))
        mon.check(any(x is c for x in fp.proxy), 'the collector {} is not iterated on'.format(t))
        mon.check((len(c), t + 's', c) in fp.proxy.catlist(), 'catlist: {!r}'.format(fp.proxy.catlist()))
        om = fp.proxy.objectsmap()
        mon.same('objects of {}'.format(t), {id(x) for x in om[t + 's']}, {id(x) for x in c.instances})
        obj = mon.ok('proxy-load', getattr(fp.proxy, t), kind='x')
        mon.check((obj is None) == (not reg.classes[t]) and (obj is None or type(obj) in reg.classes[t]), 'proxy gives {!r}'.format(obj))
        obj2 = mon.ok('module-load', fp.load, tag=variant(rng, t), kind='x')
        mon.check((obj2 is None) == (not reg.classes[t]) and (obj2 is None or type(obj2) in reg.classes[t]), 'load gives {!r}'.format(obj2))
        del obj, obj2
    mon.check('nosuchtag' not in fp.proxy and fp.proxy.nosuchtag is None and fp.proxy.nosuchtags is None
              and fp.proxy.getitem('nosuchtag') is None and fp.proxy.getitem('nosuchtag', 5) == 5, 'unknown tag')
    mon.check('nosuchtag' not in collectors.keys(), 'a collector has been created')
    with capture() as text:
        mon.ok('cat', fp.proxy.cat)
        mon.ok('objects', fp.proxy.objects)
    lines = [y.split() for y in text.getvalue().split('\n') if y.strip()]
    for t, c in collectors.items():
        for n in (len(c), len(c.instances)):
            mon.check(any(y[:2] == [str(n), t + 's'] for y in lines), 'cat: {!r}'.format(lines))
    mon.ev('proxies-observed')


def run_case(rng, mon):
    reg = Registry(rng)
    statics = list()
    fp.setup.docstrings = rng.choice([0, 0, 1, 2])
    old = set(fp.setup.proxies)
    try:
        early = Static()
        if rng.random() < 0.5:
            fp.setup.add_proxy(early)
            statics.append(early)
        for t in reg.tags:
            if rng.random() < 0.4:
                # Nothing yet under that name
                mon.check(not fp.proxy.exists(t) and (t + 's') not in fp.proxy and fp.proxy.getitem(t) is None
                          and getattr(fp.proxy, t) is None and getattr(fp.proxy, t + 's') is None and t not in collectors.keys()
                          and not any(x == t + 's' for _, x, _ in fp.proxy.catlist()), 'a collector {} exists already'.format(t))
            collectors.get(tag=t).report = rng.choice([0, 1])
        for _ in range(rng.randint(5, 25)):
            r = rng.random()
            if r < 0.35 or not reg.every:
                define(rng, mon, reg)
            elif r < 0.48:
                refuse(rng, mon, reg)
            elif r < 0.6:
                remove(rng, mon, reg)
            elif r < 0.65:
                t = rng.choice(reg.tags)
                x = [y for y in reg.every if not y.footprint_abstract()]
                if x:
                    x = rng.sample(x, rng.randint(1, len(x)))
                    mon.ok('add', collectors.get(tag=t).add, *x)
                    reg.classes[t] |= set(x)
            elif r < 0.75:
                change_levels(rng, mon, reg)
            if rng.random() < 0.5:
                check_filters(rng, mon, reg)
            if rng.random() < 0.3:
                check_queries(rng, mon, reg)
            check_registry(rng, mon, reg)
            if rng.random() < 0.1:
                if len(statics) < 2 and rng.random() < 0.5:
                    late = Static()
                    fp.setup.add_proxy(late)
                    statics.append(late)
                check_proxies(rng, mon, reg, statics)
        check_proxies(rng, mon, reg, statics)
    finally:
        fp.setup.proxies.clear()
        fp.setup.proxies.update(old)
    mon.sig([(c.__name__, sorted(reg.tags_of[c]), reg.flags[c], c.footprint_level()) for c in reg.every],
            {t: names(v) for t, v in reg.classes.items()})
    if len(reg.every) > 2 and any(reg.classes.values()):
        mon.nontrivial()


assert gc
