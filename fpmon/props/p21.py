"""P21: named setups, collectors, proxies and logs are isolated, and settings take effect."""

import gc
import re

from .. import gen, model, world
from ..lib import capture, collectors, config, fp, mkclass, newtag, proxies, reporting, uniq

SETUPS = ['default', 'alt', 'Alt', 'alts', 'other', 'a-rather-long-setup-name', 'a-rather-long-setup-name2', '_x']
NAMES = ['df1', 'df2', 'zone', 'size', 'area', 'model', 'cutoff', '_hidden', 'a b', '__', 'long_name_of_a_configured_default', 'x']
VALUES = dict(df1=['one', 'two', 3], df2=['uno', 4.5], zone=['z1', 'z2', '[ex1#none]'], size=[1, 2, '3', '[df1#7]'],
              area=['glob', 'eur', 'nowhere'], model=['m1', 'm2'], cutoff=['prod', 'assim'],
              _hidden=[1, 'h'], __=[None, 0], long_name_of_a_configured_default=[[1], ''], x=[False, 'x'])
VALUES['a b'] = ['blank', 5]


def spelling(rng, name):
    return rng.choice([name, name.upper(), name.capitalize(), name[:1] + name[1:].upper()])


def tag_spelling(rng, tag):
    return rng.choice([tag, tag + 's', tag.upper(), tag.capitalize() + 's', tag + 'Sss'])


def some_defaults(rng, n=None):
    names = rng.sample(NAMES, n if n is not None else rng.randint(0, 4))
    return {spelling(rng, x): rng.choice(VALUES[x]) for x in names}


def lower(d):
    return {k.lower(): v for k, v in d.items()}


class State:
    """What is expected of the named objects."""

    def __init__(self):
        self.setups = dict(default=dict(obj=fp.setup, defaults=dict(), extras=None, extended=True, proxies=set()))
        self.colls = dict()
        self.proxies = dict(default=fp.proxy)
        self.logs = dict()

    def setup(self):
        s = self.setups['default']
        return model.Setup(s['defaults'], s['extras'] or {}, s['extended'])


def quiet(f):
    """A setup called without anything is itself (and prints a summary)."""
    with capture():
        return f()


def check_setup(rng, mon, st, name):
    s = st.setups[name]
    o = rng.choice([lambda: config.get(tag=name), lambda: quiet(config.get(tag=name)), lambda: config.FootprintSetup(tag=name),
                    lambda: config.FootprintSetup(name), lambda: config.get(tag=name, defaults=dict(zzz=1), extended=False)])()
    mon.check(o is s['obj'], 'another setup for the name {}'.format(name))
    mon.same('tag', o.tag, name)
    mon.same('defaults of the setup {}'.format(name), dict(o.defaults), s['defaults'])
    for k, v in s['defaults'].items():
        x = spelling(rng, k)
        mon.check(x in o.defaults and o.defaults[x] == v, 'default {} of the setup {}'.format(x, name))
    mon.check('zzz' not in o.defaults, 'default zzz')
    mon.same('extended mode of {}'.format(name), o.extended, s['extended'])
    mon.same('extras of {}'.format(name), mon.ok('extras', o.extras), dict(s['extras'] or {}))
    mon.same('objects populated by the setup {}'.format(name), {id(x) for x in o.proxies}, {id(x) for x in s['proxies']})
    d = mon.ok('as_dict', o.as_dict)
    mon.same('defaults in as_dict', dict(d['defaults']), s['defaults'])
    mon.same('extended in as_dict', d['extended'], s['extended'])
    if rng.random() < 0.2:
        d.clear()
        mon.same('defaults', dict(o.defaults), s['defaults'])
        with capture() as text:
            mon.ok('info', o.info)
        mon.check(all(re.search(r'^{}\b.*{}'.format(x, re.escape(str(y))), text.getvalue(), re.M | re.S)
                      for x, y in [('extended', s['extended']), ('callback', o.callback), ('defaults', o.defaults), ('fastkeys', o.fastkeys),
                                   ('report', o.report)]), text.getvalue())
    mon.ev('setups-observed')


def check_names(rng, mon, st):
    """Identities and names, for every kind of named object."""
    mon.same('setup names', config.keys(), sorted(st.setups))
    mon.check({k: id(v) for k, v in config.items()} == {k: id(s['obj']) for k, s in st.setups.items()} and
              {id(v) for v in config.values()} == {id(s['obj']) for s in st.setups.values()}, 'setups')
    mon.check(config.get() is fp.setup, 'default setup')
    mon.same('collector names', [x for x in collectors.keys() if x != 'garbage'], sorted(st.colls))
    got = dict(collectors.items())
    mon.check(all(got[t] is c['obj'] for t, c in st.colls.items()) and len(collectors.values()) == len(got) == len(st.colls) + 1,
              'collectors: {!r}'.format(got))
    mon.same('proxy names', proxies.keys(), sorted(st.proxies))
    mon.check({k: id(v) for k, v in proxies.items()} == {k: id(v) for k, v in st.proxies.items()} and
              len(proxies.values()) == len(st.proxies), 'proxies')
    mon.check(proxies.get() is fp.proxy, 'default proxy')
    mon.check(set(st.logs) <= set(reporting.keys()), 'logs {!r}'.format(reporting.keys()))
    got = dict(reporting.items())
    for k, (obj, entries) in st.logs.items():
        mon.check(got[k] is obj and any(x is obj for x in reporting.values()), 'another log for {}'.format(k))
    mon.ev('names-observed')


def check_collector(rng, mon, st, tag):
    s = st.colls[tag]
    kw = rng.choice([dict(), dict(), dict(report=0, lreport_len=1, report_tag='zzz', report_style=3)])
    o = rng.choice([collectors.get, collectors.Collector])(tag=tag_spelling(rng, tag), **kw)
    mon.check(o is s['obj'], 'another collector for the name {}'.format(tag))
    mon.same('tag', o.tag, tag)
    mon.same('classes of ' + tag, {id(c) for c in o}, {id(c) for c in s['classes']})
    mon.same('objects of ' + tag, sorted(map(id, o.instances)), sorted(map(id, s['objects'])))
    mon.same('report level of ' + tag, o.report, s['report'])
    mon.same('report style of ' + tag, o.report_style, s['style'])
    logname = s['report_tag'] or 'footprint-' + tag
    mon.same('log name of ' + tag, o.report_tag, logname)
    mon.check(o.report_log is reporting.get(tag=logname), 'another log for the collector {}'.format(tag))
    mon.ev('collectors-observed')


def check_logs(mon, st):
    for name, (obj, entries) in st.logs.items():
        mon.check(reporting.get(tag=name) is obj, 'another log for the name {}'.format(name))
        got = list(obj)
        maxlen = st.maxlen.get(name)
        exp = entries[-maxlen:] if maxlen is not None else entries
        mon.check(len(got) == len(exp), 'log {}: {:d} entries, expected {:d} (bound {!r})'.format(name, len(got), len(exp), maxlen))
        for x, e in zip(got, exp):
            mon.check(x.node is e and x.name == e.tag, 'entry {!r} of the log {}'.format(x.name, name))
    mon.ev('logs-observed')


def make_collector(rng, mon, st, tag=None, via=None):
    """A collector is created, by name or through the definition of a class."""
    tag = tag or newtag()
    if st.colls and rng.random() < 0.3:
        # names that look alike
        other = rng.choice(sorted(st.colls))
        other = rng.choice([other + 'x', other + 'si', other + '_s_x', 'a' + other, other[:-1].rstrip('s')])
        tag = tag if other in st.colls else other
    opts = dict()
    via = via or rng.choice(['class', 'class', 'get', 'get-options', 'load', 'pickup', 'default'])
    s = dict(classes=[], objects=[], report=fp.setup.report, style=fp.setup.report_style, report_tag=None,
             lreport_len=fp.setup.lreport_len)
    if via == 'get-options':
        opts = dict(report=rng.choice([0, 1, 2, 3]), lreport_len=rng.choice([1, 2, 100]), report_style=rng.choice([0, 1, 2, 3]))
        if rng.random() < 0.4:
            opts['report_tag'] = rng.choice(['mylog', 'footprint-mine'])
        if rng.random() < 0.2:
            opts['register'] = False
    elif via == 'get':
        s.update(report=config.ONERROR_REPORTING, lreport_len=config.DFLT_MAXLEN_LIGHT_REPORTING, style=config.RAW_REPORTINGSTYLE)
    s.update({'style' if k == 'report_style' else k: v for k, v in opts.items()})
    logname = s['report_tag'] or 'footprint-' + tag
    mon.note('new collector', tag, via, s)
    cls = None
    if via == 'class':
        cls = define(rng, mon, st, [tag], register=False)
        s['obj'] = collectors.get(tag=tag)
    elif via in ('load', 'default'):
        mon.same(via, getattr(fp, via)(tag=tag_spelling(rng, tag), kind='x', _emptywarning=False), None)
        s['obj'] = collectors.get(tag=tag)
    elif via == 'pickup':
        mon.same(via, fp.pickup(dict(tag=tag_spelling(rng, tag), kind='x', _emptywarning=False)), {'kind': 'x', tag: None})
        s['obj'] = collectors.get(tag=tag)
    else:
        s['obj'] = mon.ok('get', collectors.get, tag=tag_spelling(rng, tag), **opts)
    if logname not in st.logs:
        st.logs[logname] = (reporting.get(tag=logname), [])
        st.maxlen[logname] = None if s['report'] == config.FULL_REPORTING else s['lreport_len']
    if via in ('load', 'pickup', 'default') and s['report']:
        st.logs[logname][1].append(s['obj'])
    st.colls[tag] = s
    if cls is not None:
        enrol(st, cls, [tag])
    mon.ev('collectors-created')
    return tag


def define(rng, mon, st, tags, register=True):
    attr = dict(kind=dict(values=['x', 'y', 'k-one', 'k-none', 'k-m1']),
                zone=dict(optional=True, default=rng.choice(['[ex1#none]', 'z0', '[df1#none]-[ex2#none]', '[model#m]'])),
                size=dict(type=int, optional=True, default=rng.choice([5, '[ex2#6]', '[df1#8]'])))
    if rng.random() < 0.5:
        attr['area'] = dict(values=['glob', 'eur'], alias=['Domain'])
    decl = dict(attr=attr)
    if rng.random() < 0.25:
        decl['only'] = rng.choice([dict(cutoff='prod'), dict(df1=('one', 3)), dict(cutoff=('prod', 'assim'), zone=('none', 'z1'))])
    cls = mon.ok('define', mkclass, uniq('Cls'), [tag_spelling(rng, t) for t in tags], world.user_copy(decl))
    st.models[cls] = model.ClassModel(decl, cls.__name__)
    if register:
        enrol(st, cls, tags)
    return cls


def enrol(st, cls, tags):
    st.tags[cls] = list(tags)
    for t in tags:
        st.colls[t]['classes'].append(cls)


def change_setup(rng, mon, st):
    name = rng.choice(sorted(st.setups) + ['default'])
    s = st.setups[name]
    o = s['obj']
    how = rng.choice(['replace', 'replace', 'update', 'item', 'delete', 'callback', 'extras', 'extended', 'clear', 'none'])
    mon.ev('setup-' + how)
    if how == 'replace':
        d = some_defaults(rng)
        given = rng.choice([d, o.defaults.__class__(d)])
        o.defaults = given
        s['defaults'] = lower(d)
        given['df1'] = 'garbage'
        mon.note(name, 'defaults', d)
    elif how == 'clear':
        o.defaults = dict()
        s['defaults'] = dict()
    elif how == 'update':
        d = some_defaults(rng, rng.randint(1, 2))
        if rng.random() < 0.5:
            o.defaults.update(d)
        else:
            o.defaults.update(**d)
        s['defaults'].update(lower(d))
        mon.note(name, 'update', d)
    elif how == 'item':
        (k, v), = some_defaults(rng, 1).items()
        o.defaults[k] = v
        s['defaults'][k.lower()] = v
        mon.note(name, 'item', k, v)
    elif how == 'delete' and s['defaults']:
        k = rng.choice(sorted(s['defaults']))
        del o.defaults[spelling(rng, k)]
        del s['defaults'][k]
        mon.note(name, 'delete', k)
    elif how == 'callback':
        if rng.random() < 0.2:
            o.callback = None
            s['extras'] = None
        else:
            s['extras'] = dict()
            box = s['extras']
            o.callback = rng.choice([lambda: dict(box), lambda: box])
    if how in ('callback', 'extras') and s['extras'] is not None:
        s['extras'].clear()
        for k in ('ex1', 'ex2', 'df1'):
            if rng.random() < 0.5:
                s['extras'][k] = rng.choice([1, 2, 30, 400])
        mon.note(name, 'extras', s['extras'])
    elif how == 'extended':
        v = rng.choice([True, False, False, 0, 1, None])
        o.extended = v
        if v is not None:
            s['extended'] = bool(v)
        mon.note(name, 'extended', v)


def new_setup(rng, mon, st):
    name = rng.choice([x for x in SETUPS if x not in st.setups] or [uniq('setup')])
    d = some_defaults(rng)
    ex = rng.choice([None, dict(ex1=4)])
    s = dict(defaults=lower(d), extended=rng.choice([True, False]), extras=ex, proxies=set())
    if rng.random() < 0.4:
        # made after another one
        src = rng.choice(sorted(st.setups))
        o = st.setups[src]
        with capture():
            s['obj'] = mon.ok('setup-call', o['obj'], tag=name)
        s.update(defaults=dict(o['defaults']), extended=o['extended'], extras=o['extras'], proxies=set(o['proxies']))
        mon.check(all(s['obj'] is not x['obj'] for x in st.setups.values()), 'the same setup for two names')
        st.setups[name] = s
        mon.note('new setup', name, 'after', src)
        return
    kw = dict(defaults=d, extended=s['extended'], callback=None if ex is None else (lambda: dict(ex)))
    if not d and rng.random() < 0.5:
        kw.pop('defaults')
    s['obj'] = mon.ok('new-setup', rng.choice([config.get, config.FootprintSetup]), tag=name, **kw)
    d['df1'] = 'garbage'
    mon.check(all(s['obj'] is not x['obj'] for x in st.setups.values()), 'the same setup for two names')
    st.setups[name] = s
    mon.note('new setup', name, s)


def query(rng, mon, st):
    tag = rng.choice(sorted(st.colls))
    s = st.colls[tag]
    coll = s['obj']
    setup = st.setup()
    desc = dict(kind=rng.choice(['x', 'y', 'z', 'k-[df1#none]', 'k-[model#none]']))
    if rng.random() < 0.5:
        desc[rng.choice(['area', 'Domain'])] = rng.choice(['glob', 'eur', 'eur', 'mars'])
    for k in ('zone', 'size', 'df1', 'ex1', 'model', 'cutoff'):
        if rng.random() < 0.2:
            desc[k] = rng.choice([4, 5, '6'])
    exp = {c: st.models[c].verdict(desc, setup) for c in s['classes']}
    if any(v.status in ('undefined', 'cycle', 'unreachable') for v in exp.values()):
        mon.ev('skipped')
        return
    ok = {c for c, v in exp.items() if v.status == 'ok'}
    how = rng.choice(['find_all', 'find_all', 'load', 'proxy', 'module', 'direct'])
    mon.note(how, tag, desc)
    mon.sig(how, sorted(desc.items(), key=repr), sorted(map(repr, setup.defaults.items())), repr(setup.extras), setup.extended,
            sorted(repr(st.models[c].decl) for c in s['classes']))
    found = None
    if how == 'direct' and s['classes']:
        c = rng.choice(s['classes'])
        o = mon.call('direct', lambda: c(**dict(desc)))
        if exp[c].status in ('ok', 'only'):
            mon.check(o.ok, 'refused: {!r}'.format(o.exc))
            world.check_object(mon, 'direct', o.value, exp[c])
            keep_object(rng, st, c, o.value)
            mon.ev('queries-answered')
        else:
            mon.check(not o.ok and isinstance(o.exc, fp.FootprintFatalError), 'expected a refusal: {!r}'.format(o))
        return
    if how in ('find_all', 'direct'):
        r = mon.ok('find_all', coll.find_all, dict(desc))
        mon.same('candidates', {x[0] for x in r}, ok)
        for c, values, _ in r:
            world.check_values(mon, 'setup {!r} {!r} {!r}: {}'.format(setup.defaults, setup.extras, setup.extended, c.__name__), values, exp[c])
        found = bool(r)
        del r
    else:
        call = dict(load=coll.load, proxy=getattr(fp.proxy, tag), module=lambda **kw: fp.load(tag=tag_spelling(rng, tag), **kw))[how]
        obj = mon.ok(how, call, **desc)
        mon.check((obj is None) == (not ok) and (obj is None or type(obj) in ok), 'loaded {!r}'.format(obj))
        if obj is not None:
            world.check_object(mon, how, obj, exp[type(obj)])
            keep_object(rng, st, type(obj), obj)
        found = obj is not None
        del obj
    if found:
        mon.ev('queries-answered')
        mon.nontrivial()
    if s['report'] >= 2 or (s['report'] == 1 and not found):
        st.logs[coll.report_tag][1].append(coll)
        mon.ev('queries-reported')


def keep_object(rng, st, cls, obj):
    if rng.random() < 0.5:
        for t in st.tags[cls]:
            if st.colls[t].get('register', True):
                st.colls[t]['objects'].append(obj)
            else:
                st.unregistered = True


def other_actions(rng, mon, st):
    how = rng.choice(['proxy', 'log', 'logclear', 'report', 'drop', 'settings', 'leave', 'static'])
    mon.ev('action-' + how)
    if how == 'proxy':
        name = rng.choice(['default', 'mine', 'Mine', 'yours'])
        p = mon.ok('proxy', proxies.get, tag=name)
        if name in st.proxies:
            mon.check(p is st.proxies[name], 'another proxy for {}'.format(name))
        else:
            mon.check(all(p is not x for x in st.proxies.values()), 'the same proxy for two names')
            st.proxies[name] = p
        for t, s in st.colls.items():
            mon.check(getattr(p, t + 's') is s['obj'], 'proxy {} and collector {}'.format(name, t))
    elif how == 'log':
        name = rng.choice(['mylog', 'yourlog', 'Mylog'])
        bound = rng.choice([None, 1, 3])
        log = mon.ok('log', reporting.get, tag=name, log_maxlen=bound)
        if name in st.logs:
            mon.check(log is st.logs[name][0], 'another log for {}'.format(name))
        else:
            mon.check(all(log is not x[0] for x in st.logs.values()) and len(log) == 0, 'the same log for two names')
            st.logs[name] = (log, [])
            st.maxlen[name] = bound
        if st.colls and rng.random() < 0.7:
            c = st.colls[rng.choice(sorted(st.colls))]['obj']
            mon.ok('log-add', log.add, collector=c)
            st.logs[name][1].append(c)
    elif how == 'logclear' and st.logs:
        log, entries = st.logs[rng.choice(sorted(st.logs))]
        mon.ok('log-clear', log.clear)
        entries.clear()
    elif how == 'report' and st.colls:
        s = st.colls[rng.choice(sorted(st.colls))]
        s['obj'].report = s['report'] = rng.choice([0, 1, 2, 3])
    elif how == 'drop':
        for s in st.colls.values():
            if s['objects']:
                gone = s['objects'][0]
                for x in st.colls.values():
                    x['objects'] = [y for y in x['objects'] if y is not gone]
                del gone
                break
    elif how == 'settings':
        fp.setup.report = rng.choice([0, 1, 2, 3])
        fp.setup.report_style = rng.choice([0, 1, 2, 3])
        fp.setup.lreport_len = rng.choice([1, 2, 5, 100])
    elif how == 'leave' and st.colls:
        s = st.colls[rng.choice(sorted(st.colls))]
        if s['classes']:
            c = s['classes'].pop()
            mon.ok('discard', s['obj'].discard, c)
    elif how == 'static':
        class Static:
            pass
        o = Static()
        taken = dict()
        for t in st.colls:
            for x in (t, t + 's'):
                if rng.random() < 0.1:
                    taken[x] = object()
                    setattr(o, x, taken[x])
        clear = rng.random() < 0.3
        name = rng.choice(sorted(st.setups) + ['default'])
        mon.ok('add_proxy', st.setups[name]['obj'].add_proxy, o, **(dict(clear=clear) if clear or rng.random() < 0.3 else {}))
        if not clear and taken:
            for x, v in taken.items():
                mon.check(getattr(o, x) is v, 'the member {} of an object populated as a proxy has been replaced'.format(x))
                delattr(o, x)
            mon.ev('members-kept')
            mon.ok('add_proxy', st.setups[name]['obj'].add_proxy, o)
        st.setups[name]['proxies'].add(o)
        for t, s in st.colls.items():
            mon.check(getattr(o, t + 's') is s['obj'] and getattr(o, t) == s['obj'].load, 'static proxy and collector {}'.format(t))
        if name == 'default':
            st.static.append(o)
        else:
            st.foreign.append((o, set(st.colls)))


def run_case(rng, mon):
    for k in list(config.keys()):
        if k != 'default':
            config.FootprintSetup._tag_table.pop(k)
    for k in list(proxies.keys()):
        if k != 'default':
            proxies.FootprintProxy._tag_table.pop(k)
    fp.setup.proxies.clear()
    st = State()
    st.maxlen, st.models, st.tags, st.static, st.foreign = dict(), dict(), dict(), list(), list()
    for _ in range(rng.choice([2, 2, 3])):
        make_collector(rng, mon, st)
    for _ in range(rng.randint(1, 3)):
        define(rng, mon, st, sorted(rng.sample(sorted(st.colls), rng.randint(1, 2))))
    for _ in range(rng.randint(8, 25)):
        r = rng.random()
        if r < 0.35:
            change_setup(rng, mon, st)
        elif r < 0.4:
            new_setup(rng, mon, st)
        elif r < 0.75:
            query(rng, mon, st)
        elif r < 0.78:
            make_collector(rng, mon, st)
        elif r < 0.82:
            define(rng, mon, st, sorted(rng.sample(sorted(st.colls), rng.randint(1, 2))))
        else:
            other_actions(rng, mon, st)
        # observation
        r = rng.random()
        if r < 0.25:
            check_setup(rng, mon, st, rng.choice(sorted(st.setups)))
        elif r < 0.4:
            check_collector(rng, mon, st, rng.choice(sorted(st.colls)))
        elif r < 0.5:
            check_logs(mon, st)
        elif r < 0.6:
            check_names(rng, mon, st)
    gc.collect(0)
    for name in st.setups:
        check_setup(rng, mon, st, name)
    for t in st.colls:
        check_collector(rng, mon, st, t)
    check_logs(mon, st)
    check_names(rng, mon, st)
    for o in st.static:
        for t, s in st.colls.items():
            mon.check(getattr(o, t + 's', None) is s['obj'], 'static proxy and collector {}'.format(t))
    for o, colls in st.foreign:
        # Only the default setup populates its objects later on
        mon.same('collectors known by the object of another setup', {t for t in st.colls if hasattr(o, t + 's')}, colls)
    fp.setup.proxies.clear()


assert gen
