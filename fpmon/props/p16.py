"""P16: the report log is a bounded, consistent history whose renderings agree."""

import datetime
import gc
import re
import xml.dom.minidom

from ..lib import capture, fp, mkclass, newtag, reporting, uniq

WHYS = ['Missing value', 'Invalid value', 'Not in values', 'Outcast value', 'Could not reclass', 'Not a subclass']
ONLYS = ['No value found', 'Do not match']
ATTRS = ['kind', 'size', 'color', 'model', 'x_1', 'cutoff', 'date']
ARGS = ['rock', 7, 2.5, ('int', 'x'), '<b>&"', 'é', None, [1, 2], 'a b']


class FakeCollector:

    def __init__(self, tag):
        self.tag = tag

    def __len__(self):
        return 0 if self.tag == 'alpha' else 3

    def __iter__(self):
        return iter(())


class FakeClass:

    def __init__(self, name):
        self.name = name

    def fullname(self):
        return self.name


class LogModel:
    """The expected log: entries are [name, stamp, [(class name, [items])...]]."""

    def __init__(self, maxlen):
        self.maxlen = maxlen
        self.entries = list()
        self.current = None         # an entry
        self.cls = None             # the items of the current class

    def collector(self, name, stamp):
        self.current, self.cls = [name, stamp, list()], None
        self.entries.append(self.current)
        if self.maxlen is not None:
            del self.entries[:max(0, len(self.entries) - self.maxlen)]

    def as_dict(self, k):
        return {c: {x['name']: {a: b for a, b in x.items() if a != 'name'} for x in items} for c, items in self.entries[k][2]}


def triples(entry):
    """The set of (class, {key: text}) of an entry."""
    return sorted((c, tuple(sorted((a, str(b)) for a, b in x.items()))) for c, items in entry[2] for x in items)


def check_content(mon, log, m):
    mon.same('length of the log', len(log), len(m.entries))
    mon.check(m.maxlen is None or len(log) <= m.maxlen, 'the log is too long')
    mon.same('entries', [x.name for x in log], [e[0] for e in m.entries])
    mon.check(list(log.items()) == list(log), 'items and iteration disagree')
    mon.check(log.last is (list(log)[-1] if m.entries else None), 'last entry: {!r}'.format(log.last))
    for x, e in zip(log, m.entries):
        if e[1] is not None:
            mon.same('stamp', x.stamp, e[1])
        got = sorted((c.name, [dict(i) for i in c]) for c in x)
        mon.same('content of {}'.format(x.name), got, sorted(((c, items) for c, items in e[2]), key=lambda z: z[0]))
    mon.ev('logs-observed')


def check_dict(rng, mon, log, m):
    stamp = rng.random() < 0.5
    got = mon.ok('as_dict', log.as_dict, **rng.choice([dict(stamp=stamp), dict(stamp=stamp, force=True)]))
    if stamp:
        keys = [e[0] + ' ' + x.stamp.isoformat() for e, x in zip(m.entries, log)]
        if len(set(keys)) != len(keys):
            return
    else:
        keys = ['{}_{:04d}'.format(e[0], i + 1) for i, e in enumerate(m.entries)]
    mon.same('dictionary (stamp={})'.format(stamp), list(got.items()), [(k, m.as_dict(i)) for i, k in enumerate(keys)])


def read_xml(node):
    out = list()
    for coll in [x for x in node.childNodes if x.nodeType == x.ELEMENT_NODE]:
        classes = list()
        for cl in [x for x in coll.childNodes if x.nodeType == x.ELEMENT_NODE]:
            items = list()
            for at in [x for x in cl.childNodes if x.nodeType == x.ELEMENT_NODE]:
                items.append((at.tagName, tuple(sorted(at.attributes.items()))))
            classes.append((cl.tagName, cl.getAttribute('name'), items))
        out.append((coll.tagName, coll.getAttribute('name'), coll.getAttribute('stamp'), classes))
    return out


def check_xml(rng, mon, log, m):
    rep = mon.ok('as_xml', log.as_xml, **rng.choice([dict(), dict(force=True)]))
    exp = [('collector', e[0], x.stamp.isoformat(), [
        ('class', c, [('attribute', tuple(sorted((a, str(b)) for a, b in i.items()))) for i in items])
        for c, items in sorted(e[2], key=lambda z: z[0])]) for e, x in zip(m.entries, log)]
    mon.same('name of the XML report', rep.root.getAttribute('tag'), log.tag)
    mon.same('XML document', read_xml(rep.root), exp)
    if rng.random() < 0.5:
        text = mon.ok('dump_all', rep.dump_all)
        with capture() as out:
            mon.ok('print', rep)
        mon.same('XML rendering printed', out.getvalue(), text + '\n')
        doc = xml.dom.minidom.parseString(text.encode('utf8'))
        mon.same('text of the XML document', read_xml(doc.documentElement), exp)
    if m.entries:
        got = [(x['classname'], x['name'], x['why']) for x in mon.ok('iter_last', lambda: list(rep.iter_last()))]
        mon.same('last items of the XML document', got,
                 [(c, i['name'], i.get('why', '')) for c, items in sorted(m.entries[-1][2], key=lambda z: z[0]) for i in items])
        last = xml.dom.minidom.parseString('<x>' + mon.ok('dump_last', rep.dump_last) + '</x>')
        mon.same('last XML entry', read_xml(last.documentElement), exp[-1:])


def read_dump(text):
    """The leaves of a flat report: list of (path, value)."""
    out, path = list(), list()
    lines = text.split('\n')
    start = [i for i, x in enumerate(lines) if x.strip() in ('dict(', 'dict()')]
    for line in lines[start[0] + 1:]:
        line = line.strip()
        if not line:
            continue
        if line.startswith(')'):
            if not path:
                break
            path.pop()
            continue
        key, _, val = line.partition(' = ')
        if val == 'dict(':
            path.append(key)
        elif val.rstrip(',') == 'dict()':
            pass
        else:
            val = val.rstrip(',')
            out.append((tuple(path), key, val[1:-1] if val[:1] in '\'"' else val))
    return out


def check_flat(rng, mon, x, e):
    keys = rng.choice([[], ['attribute'], ['why', 'attribute'], ['only', 'attribute'], ['attribute', 'why'], ['why'], ['args'],
                       ['why', 'only'], ['attribute', 'args', 'why', 'only']])
    skip = rng.random() < 0.5
    flat = mon.ok('as_flat', x.as_flat, **rng.choice([dict(), dict(sortlist=keys)]))
    if rng.random() < 0.3:
        # shuffled some other way first
        mon.ok('reshuffle', flat.reshuffle, rng.choice([['why'], ['only', 'attribute'], ['args'], ['attribute']]), skip=rng.random() < 0.4)
    for _ in range(rng.choice([1, 1, 2])):
        mine = list(keys)
        mon.ok('reshuffle', flat.reshuffle, mine, skip=skip)
        if rng.random() < 0.4:
            # the list belongs to the caller
            rng.choice([mine.clear, mine.reverse, lambda: mine.append('focus')])()
            mon.ok('reshuffle', flat.reshuffle, skip=skip)
    with capture() as text:
        mon.ok('flat-fulldump', flat.fulldump)
    got = list()
    for path, focus, val in read_dump(text.getvalue()):
        for chunk in val.split(' | '):
            info = [p.partition(': ')[::2] for p in path]
            if chunk != 'None':
                info += [p.partition(': ')[::2] for p in chunk.split(' / ')]
            got.append((focus, tuple(sorted(info))))
    exp = list()
    for c, items in e[2]:
        for i in items:
            info = {('attribute' if a == 'name' else a): str(b) for a, b in i.items()}
            if skip or all(k in info for k in keys):
                exp.append((c, tuple(sorted(info.items()))))
    mon.same('flat report by {!r} (skip={})'.format(keys, skip), sorted(got), sorted(exp))


ORDER = (('name', ), ('kind', 'size')), (('why', 'only'), tuple(WHYS + ONLYS))


def check_tree(rng, mon, x, e):
    swap = rng.random() < 0.3
    tree = mon.ok('as_tree', x.as_tree, **(dict(ordering=ORDER[::-1]) if swap else dict()))
    how = rng.choice(['softprint', 'orderedprint', 'dumper', 'dumper'])
    args = dict(maxdepth=rng.choice([1, 2, 5]), group=rng.choice([1, 2])) if how == 'dumper' and rng.random() < 0.5 else dict()
    with capture() as text:
        mon.ok(how, getattr(tree, how), **args)
    exp = sorted((c, i['name'], 'why' if 'why' in i else 'only', i.get('why', i.get('only')), str(i.get('args', '')))
                 for c, items in e[2] for i in items)
    lines = [y.strip() for y in text.getvalue().split('\n') if y.strip()]
    got = list()
    if how != 'dumper':
        attr = why = None
        for y in lines:
            mm = re.match(r'(attribute_name|why|only) = (.*)$', y)
            if mm and mm.group(1) == 'attribute_name':
                attr = mm.group(2)
            elif mm:
                why = (mm.group(1), mm.group(2))
            else:
                mm = re.match(r'class : (\S+) \((.*)\)$', y)
                got.append((mm.group(1), attr) + why + (mm.group(2), ))
        mon.same('factorised report ({})'.format(how), sorted(got), exp)
        return
    pending = list()
    for y in lines:
        mm = re.match(r'class : (\S+) \((.*)\)$', y)
        if mm:
            pending.append(mm.groups())
        elif not args and ' = ' in y:
            d = dict(z.split(' = ') for z in y.split(' | '))
            k = 'why' if 'why' in d else 'only'
            got.extend((c, d['attribute_name'], k, d[k], a) for c, a in pending)
            pending = list()
    if args:
        mon.same('classes of the factorised report (dumper)', sorted(pending), sorted((z[0], z[4]) for z in exp))
        for z in exp:
            mon.check('attribute_name = ' + z[1] in text.getvalue() and z[2] + ' = ' + z[3] in text.getvalue(),
                      '{!r} not in {!r}'.format(z, text.getvalue()))
    else:
        mon.same('factorised report (dumper)', sorted(got), exp)


def check_light(rng, mon, x, e):
    with capture() as text:
        mon.ok('lightdump', x.lightdump)
    got, cls = list(), None
    for y in text.getvalue().split('\n'):
        y = y.strip()
        if not y:
            continue
        mm = re.match(r'(\w+)\s*: (\{.*\})$', y)
        if mm:
            got.append((cls, mm.group(1), mm.group(2)))
        else:
            cls = y.replace('=>', '').strip()
            got.append((cls, None, None))
    exp = list()
    for c, items in sorted(e[2], key=lambda z: z[0]):
        exp.append((c, None, None))
        for i in items:
            exp.append((c, i['name'], str({a: b for a, b in i.items() if a != 'name'})))
    norm = [(a, b, c and ''.join(sorted(c))) for a, b, c in got]
    mon.same('light dump', norm, [(a, b, c and ''.join(sorted(c))) for a, b, c in exp])


def check_dumps(rng, mon, log, m):
    with capture() as text:
        mon.ok('fulldump', log.fulldump, stamp=rng.random() < 0.5)
    out = text.getvalue()
    for e in m.entries:
        for c, items in e[2]:
            mon.check(c in out, '{!r} not in {!r}'.format(c, out))
            for i in items:
                mon.check(i['name'] in out and i.get('why', i.get('only')) in out, '{!r} not in {!r}'.format(i, out))


def check_whynot(rng, mon, log, m):
    pattern = rng.choice(['.', 'cls', 'CLS1', r'pkg\.', '^pkg.cls[12]$', 'none', '2', 'SUB.cls', r'other\.', 'kg.sub', 'ther.CL', '(?:z|other)',
                          'cls$', '^PKG', r'\.sub\.', 'cls1|zcls', '', 'c.s1', 'Cls12', r's\b', '.+', r'\d$', '[.]cls'])
    got = mon.ok('whynot', log.whynot, pattern)
    if not m.entries:
        mon.same('whynot of an empty log', got, None)
        return
    d = m.as_dict(-1)
    mon.same('whynot {!r}'.format(pattern), got, {c: v for c, v in d.items() if v and re.search(pattern, c, re.I)})


def run_case(rng, mon):
    if rng.random() < 0.15:
        return through_queries(rng, mon)
    maxlen = rng.choice([None, None, 1, 1, 2, 3, 5, 0])
    big = rng.random() < 0.015
    attrs = ATTRS
    if big:
        maxlen = rng.choice([None, 20, 100])
        attrs = ATTRS + ['attr{:02d}'.format(i) for i in range(60)]
        mon.ev('large-logs')
    weak = rng.random() < 0.7
    log = reporting.get(tag=uniq('Log') if rng.random() < 0.5 else newtag(), log_maxlen=maxlen, weak=weak)
    twin = reporting.get(tag=newtag(), log_maxlen=2)
    m = LogModel(maxlen)
    nodes = dict(colls=[FakeCollector(t) for t in ('alpha', 'beta', 'gamma')],
                 classes=[FakeClass(n) for n in ('pkg.Cls1', 'pkg.Cls2', 'Other.Cls', 'pkg.sub.Cls12', 'Zcls')])
    if big:
        nodes['classes'].extend(FakeClass('pkg.Many{:02d}'.format(i)) for i in range(60))
    clock = datetime.datetime(2020, 1, 1)
    mon.note('maxlen', maxlen)
    p_coll = rng.choice([0.003, 0.1, 0.3])
    for _ in range(rng.randint(300, 700) if big else rng.randint(5, 60)):
        r = rng.random()
        if big:
            r = rng.choices([0.05, 0.3, 0.6, 0.87, 0.89, 0.92, 0.95, 0.97], [p_coll, 0.25, 0.5, 0.02, 0.001, 0.001, 0.02, 0.01])[0]
        if r < 0.12:
            kw = dict()
            stamp = None
            if rng.random() < 0.7:
                clock += datetime.timedelta(seconds=rng.randint(1, 5000), microseconds=rng.choice([0, 5]))
                stamp = kw['stamp'] = clock
            node = rng.choice(nodes['colls'])
            mon.ok('add-collector', log.add, collector=node, **kw)
            m.collector(node.tag, stamp)
            mon.ev('op:collector')
        elif r < 0.5:
            node = rng.choice(nodes['classes'])
            if m.current is None:
                before = repr(log.as_dict(stamp=False))
                mon.refused('add-candidate', reporting.FootprintBadLogEntry, log.add, candidate=node)
                mon.same('log after a refused entry', repr(log.as_dict(stamp=False)), before)
                mon.ev('op:refused')
            elif node.fullname() not in [c for c, _ in m.current[2]]:
                mon.ok('add-candidate', log.add, candidate=node)
                m.cls = list()
                m.current[2].append((node.fullname(), m.cls))
                mon.ev('op:candidate')
        elif r < 0.85:
            info = dict()
            info[rng.choice(['why', 'why', 'only'])] = None
            for k in info:
                info[k] = rng.choice(WHYS if k == 'why' else ONLYS)
            if rng.random() < 0.8:
                info['args'] = rng.choice(ARGS)
            name = rng.choice(attrs)
            if m.cls is None:
                before = repr(log.as_dict(stamp=False))
                mon.refused('add-attribute', reporting.FootprintBadLogEntry, log.add, attribute=name, **info)
                mon.same('log after a refused entry', repr(log.as_dict(stamp=False)), before)
                mon.ev('op:refused')
            elif name not in [i['name'] for i in m.cls]:
                mon.ok('add-attribute', log.add, attribute=name, **info)
                m.cls.append(dict(info, name=name))
                mon.ev('op:attribute')
        elif r < 0.88:
            mon.refused('add-nothing', reporting.FootprintBadLogEntry, log.add, **rng.choice([dict(), dict(ridiculous=1)]))
        elif r < 0.9:
            mon.ok('clear', log.clear)
            m.entries, m.current, m.cls = list(), None, None
            mon.ev('op:clear')
        elif r < 0.94:
            mon.ok('reduce_to_last', log.reduce_to_last)
            del m.entries[:-1]
            mon.ev('op:reduce')
        elif r < 0.96:
            # The nodes themselves do not matter any more
            nodes = dict(colls=[FakeCollector(c.tag) for c in nodes['colls']], classes=[FakeClass(c.name) for c in nodes['classes']])
            gc.collect(0)
        elif r < 0.98 and len(m.entries) > 1 and m.cls is None:
            # Back to a previous entry
            k = rng.randrange(len(m.entries))
            mon.ok('current', log.current, list(log)[k])
            m.current = m.entries[k]
            mon.ev('op:current')
        if rng.random() < (0.02 if big else 0.3):
            check_content(mon, log, m)
        for f in (check_dict, check_xml, check_whynot, check_dumps):
            if rng.random() < (0.005 if big else 0.08):
                f(rng, mon, log, m)
        if m.entries and not big and rng.random() < 0.15:
            k = rng.randrange(len(m.entries))
            x, e = list(log)[k], m.entries[k]
            mon.same('dictionary of an entry', x.as_dict(), m.as_dict(k))
            rng.choice([check_flat, check_tree, check_light])(rng, mon, x, e)
    check_content(mon, log, m)
    for f in (check_dict, check_xml, check_whynot, check_dumps):
        f(rng, mon, log, m)
    for x, e in list(zip(log, m.entries))[-5:]:
        for f in (check_flat, check_tree, check_light):
            f(rng, mon, x, e)
    mon.check(len(twin) == 0, 'another log has been written')
    mon.sig(maxlen, m.entries)
    if sum(len(items) for e in m.entries for c, items in e[2]) > 2:
        mon.nontrivial()


def through_queries(rng, mon):
    """The log of a collector, fed with queries."""
    bound = rng.choice([1, 2, 3, 10])
    level = rng.choice([1, 2, 3])
    tag = newtag()
    coll = fp.collectors.get(tag=tag, report=level, lreport_len=bound)
    classes = list()
    for _ in range(rng.randint(1, 3)):
        name, module = uniq('Cls'), 'fpmoncase'
        if classes and rng.random() < 0.25:
            # the same name in another module
            name, module = classes[-1].__name__, uniq('pkg.mod')
        classes.append(mkclass(name, (tag,), dict(attr=dict(
            kind=dict(values=[rng.choice('abc')]), size=dict(type=int, outcast=[3], optional=True))), module=module))
    history = list()
    log = coll.report_log
    for _ in range(rng.randint(2, 15)):
        r = rng.random()
        if r < 0.8:
            desc = dict(kind=rng.choice('abcd'), size=rng.choice([1, 3, 'x']))
            if rng.random() < 0.2:
                del desc['kind']
            found = mon.ok('find_all', coll.find_all, dict(desc))
            if level > 1 or not found:
                exp = dict()
                for c in classes:
                    why = dict()
                    if 'kind' not in desc:
                        why['kind'] = 'Missing value'
                    else:
                        if desc['kind'] not in c.footprint_values('kind'):
                            why['kind'] = 'Not in values'
                        if desc['size'] == 3:
                            why['size'] = 'Outcast value'
                        elif desc['size'] == 'x':
                            why['size'] = 'Could not reclass'
                    exp[c.fullname()] = why
                history.append(exp)
                if level < 3:
                    del history[:max(0, len(history) - bound)]
        elif r < 0.9:
            mon.ok('reduce_to_last', log.reduce_to_last)
            del history[:-1]
        else:
            mon.ok('clear', log.clear)
            history = list()
        mon.same('number of reports (level {}, bound {})'.format(level, bound), len(log), len(history))
        for x, e in zip(log, history):
            d = x.as_dict()
            mon.same('classes of a report', set(d), set(e))
            mon.same('classes of a report, in order', [y.name for y in x], sorted(e))
            for c in e:
                got = {a: i['why'] for a, i in d[c].items()}
                # the search stops early on the key "kind"
                mon.check(got == e[c] or (got == {'kind': e[c].get('kind')}), 'reasons of {}: {!r} instead of {!r}'.format(c, got, e[c]))
        if rng.random() < 0.4:
            got = mon.ok('as_dict', log.as_dict, stamp=False)
            mon.same('dictionary of the log', list(got.values()), [x.as_dict() for x in log])
    mon.sig('queries', level, bound, history)
    if history:
        mon.nontrivial()


assert triples
